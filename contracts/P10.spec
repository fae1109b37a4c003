property P10
include std.inc
bounded dir=runtime/core/workload file=P10_workload_test.go run=TestVerifP10Workload race=1
package workload = "github.com/blueprint-uservices/blueprint/runtime/core/workload"
load time = "time"
load errors = "errors"
load sort = "sort"

// T(i): the sum of the proportions of the first i operations
ufun T(i int) int
define mix(w *workload.Workload) bool = T(0) == 0 && forall i int :: {T(i + 1)} {w.ApiInfos[i]} 0 <= i < len(w.ApiInfos) ==> T(i + 1) == T(i) + w.ApiInfos[i].Proportion
define nonNegative(w *workload.Workload; n int) bool = forall i int :: {w.ApiInfos[i]} 0 <= i < n ==> w.ApiInfos[i].Proportion >= 0
define valid(w *workload.Workload) bool = T(len(w.ApiInfos)) == 100 && nonNegative(w, len(w.ApiInfos))

ufun durationErr(s string) error
extern time.ParseDuration(s) (d, err)
  pure
  ensures err == durationErr(s)
extern errors.New(s) (e)
  pure
  ensures e != nil
extern sort.Slice(x, less)
  modifies contents(x.([]workload.ApiInfo))
  why "sort.Slice permutes the elements of the slice"
extern sort.SliceStable(x, less)
  modifies contents(x.([]workload.ApiInfo))
  why "sort.SliceStable permutes the elements of the slice"

func NewWorkload() (w)
  ensures empty: fresh(w) && len(w.ApiInfos) == 0

func (*Workload).AddAPI(w, name, fn, proportion) (err)
  requires w != nil
  modifies w.ApiInfos, contents(w.ApiInfos)
  ensures added: err == nil && len(w.ApiInfos) == old(len(w.ApiInfos)) + 1 && w.ApiInfos[old(len(w.ApiInfos))].Name == name && w.ApiInfos[old(len(w.ApiInfos))].Fn == fn && w.ApiInfos[old(len(w.ApiInfos))].Proportion == proportion
  ensures kept: forall i int :: {w.ApiInfos[i]} 0 <= i < old(len(w.ApiInfos)) ==> w.ApiInfos[i] == old(w.ApiInfos[i])

func (*Workload).IsValid(w) (ok)
  requires w != nil && mix(w)
  ensures valid: ok == valid(w)
  invariant <total int> sum: total == T($k)
  invariant nonNegative: nonNegative(w, $k)

func NewEngine(outfile, tput, duration, w) (e, err)
  requires w != nil && mix(w)
  ensures accepts: err == nil <==> durationErr(duration) == nil && valid(w)
  ensures engine: err == nil ==> fresh(e) && e.Wld == w && e.TargetTput == tput && e.OutFile == outfile && len(e.Stats) == 0
  ensures rejected: err != nil ==> e == nil

// the selection table: operation i is selected by the draws T(i) .. T(i+1)-1, and by no others
define share(t map[int]workload.RequestFunction; w *workload.Workload; n int) bool = (forall d int :: {in(d, t)} in(d, t) <==> 0 <= d && d < T(n)) && forall i int; d int :: {w.ApiInfos[i], t[d]} 0 <= i && i < n && T(i) <= d && d < T(i + 1) ==> t[d] == w.ApiInfos[i].Fn
func (*Engine).init_prop_map(e) (t)
  requires e != nil && e.Wld != nil && nonNegative(e.Wld, len(e.Wld.ApiInfos))
  modifies contents(e.Wld.ApiInfos)
  ensures kept: e.Wld == old(e.Wld) && len(e.Wld.ApiInfos) == old(len(e.Wld.ApiInfos))
  ensures shares: mix(e.Wld) && nonNegative(e.Wld, len(e.Wld.ApiInfos)) ==> t != nil && share(t, e.Wld, len(e.Wld.ApiInfos))
  invariant loop 0 increasing: mix(e.Wld) && nonNegative(e.Wld, len(e.Wld.ApiInfos)) ==> forall j int :: {T(j)} 0 <= j && j <= $k ==> T(j) <= T($k)
  invariant loop 0 <last int; table map[int]workload.RequestFunction> shares: mix(e.Wld) && nonNegative(e.Wld, len(e.Wld.ApiInfos)) ==> last == T($k) && T($k) >= 0 && share(table, e.Wld, $k)
  invariant loop 1 <last int; op int> at: mix(e.Wld) && nonNegative(e.Wld, len(e.Wld.ApiInfos)) ==> 0 <= op && op < len(e.Wld.ApiInfos) && last == T(op)
  invariant loop 1 <i int; op int; table map[int]workload.RequestFunction> filling: mix(e.Wld) && nonNegative(e.Wld, len(e.Wld.ApiInfos)) ==> 0 <= op && op < len(e.Wld.ApiInfos) && 0 <= i && i <= e.Wld.ApiInfos[op].Proportion && (forall d int :: {in(d, table)} in(d, table) <==> 0 <= d && d < T(op) + i) && (forall j int; d int :: {e.Wld.ApiInfos[j], table[d]} 0 <= j && j < op && T(j) <= d && d < T(j + 1) ==> table[d] == e.Wld.ApiInfos[j].Fn) && (forall d int :: {table[d]} T(op) <= d && d < T(op) + i ==> table[d] == e.Wld.ApiInfos[op].Fn)
