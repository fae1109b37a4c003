property P04
include std.inc
include copyresult.inc
load flag = "flag"
load os = "os"
load signal = "os/signal"
load strings = "strings"
load reflect = "reflect"
load sync = "sync"
load maps = "golang.org/x/exp/maps"
package golang = "github.com/blueprint-uservices/blueprint/runtime/plugins/golang"

ghost lastErr any
ghost lastBuilt any

// the namespace that a name resolves to: the nearest enclosing one that has it (nil if there is none)
ufun nearest(n *golang.Namespace; name string) *golang.Namespace
define local(n *golang.Namespace; name string) bool = in(name, n.built) || in(name, n.buildFuncs)
define scoped() bool = forall m *golang.Namespace; k string :: {nearest(m, k)} m != nil ==> nearest(m, k) == ite(local(m, k), m, ite(m.parent == nil, zero(*golang.Namespace), nearest(m.parent, k)))
define wellFormed(n *golang.Namespace) bool = n.built != nil && n.wg != nil && (n.parent != nil ==> n.parent.wg != nil) && forall k string :: {n.buildFuncs[k]} in(k, n.buildFuncs) ==> n.buildFuncs[k] != nil

ufun env(name string) string
ufun envVar(name string) string
extern os.Getenv(name) (v)
  pure
  ensures v == env(name)
extern golang.EnvVar(name) (v)
  pure
  ensures v == envVar(name)
  why name cleaning is property P16
extern flag.String(name, value, usage) (p)
  ensures p != nil && fresh(p) && *p == value
extern flag.Parse()
  modifies allcontents(*string)
extern strings.Join(parts, sep) (s)
  pure
extern reflect.TypeOf(v) (t)
  pure
extern sync.(*WaitGroup).Add(wg, n)
  pure

functype golang.BuildFunc(f, n) (node, err)
  requires n != nil
  modifies allcontents(map[string]any), lastErr, lastBuilt, delivered
  ensures lastErr == err && lastBuilt == node
  ensures forall m map[string]any; k string :: {in(k, m)} {m[k]} old(in(k, m)) ==> in(k, m) && m[k] == old(m[k])
  ensures forall m *golang.Namespace; k string :: {m.buildFuncs[k]} in(k, m.buildFuncs) && m.buildFuncs[k] == f && !old(in(k, m.built)) ==> !in(k, m.built)
  why a builder may request other names, but not (directly or indirectly) the name it is itself building

func (*Namespace).has(n, name) (has)
  requires n != nil && scoped()
  ensures has: has == (nearest(n, name) != nil)

func (*Namespace).Get(n, name, receiver) (err)
  option go=1
  requires n != nil && scoped()
  requires forall m *golang.Namespace :: {m.built} m != nil ==> wellFormed(m)
  modifies delivered, lastErr, lastBuilt, allcontents(map[string]any), allcalls()
  ensures unknown: nearest(n, name) == nil ==> err != nil && delivered == old(delivered) && forall f golang.BuildFunc :: calls(f) == old(calls(f))
  ensures reused: nearest(n, name) != nil && old(in(name, nearest(n, name).built)) ==> delivered == old(delivered)[receiver := old(nearest(n, name).built[name])] && err == copyErr(old(nearest(n, name).built[name]), receiver) && forall f golang.BuildFunc :: calls(f) == old(calls(f))
  ensures built: nearest(n, name) != nil && !old(in(name, nearest(n, name).built)) && lastErr == nil ==> in(name, nearest(n, name).built) && nearest(n, name).built[name] == lastBuilt && delivered[receiver] == lastBuilt && err == copyErr(lastBuilt, receiver)
  ensures failed: nearest(n, name) != nil && !old(in(name, nearest(n, name).built)) && lastErr != nil ==> err == lastErr && !in(name, nearest(n, name).built)
  ensures once: nearest(n, name) != nil && !old(in(name, nearest(n, name).built)) ==> calls(nearest(n, name).buildFuncs[name]) == old(calls(nearest(n, name).buildFuncs[name])) + 1
  ensures nothingElseBuilt: forall f golang.BuildFunc :: nearest(n, name) != nil && f != nearest(n, name).buildFuncs[name] ==> calls(f) == old(calls(f))
  ensures keeps: forall m map[string]any; k string :: {in(k, m)} {m[k]} old(in(k, m)) ==> in(k, m) && m[k] == old(m[k])

func NewNamespaceBuilder(name) (b)
  ensures ok: b != nil && fresh(b) && b.buildFuncs != nil && b.required != nil && b.optional != nil && b.name == name && b.err == nil && !b.flagsparsed
  ensures empty: (forall k string :: !in(k, b.buildFuncs) && !in(k, b.required) && !in(k, b.optional)) && len(b.instantiate) == 0

func (*NamespaceBuilder).Define(b, name, build)
  requires b != nil && b.buildFuncs != nil
  modifies contents(b.buildFuncs)
  ensures defined: in(name, b.buildFuncs) && b.buildFuncs[name] == build
  ensures others: forall k string :: {in(k, b.buildFuncs)} {b.buildFuncs[k]} k != name ==> (in(k, b.buildFuncs) <==> old(in(k, b.buildFuncs))) && b.buildFuncs[k] == old(b.buildFuncs[k])

func (*NamespaceBuilder).Set(b, name, value)
  requires b != nil && b.buildFuncs != nil
  modifies contents(b.buildFuncs)
  ensures value: in(name, b.buildFuncs) && b.buildFuncs[name] != nil && yields(b.buildFuncs[name], 0) == any(value) && yields(b.buildFuncs[name], 1) == nil
  ensures others: forall k string :: {in(k, b.buildFuncs)} {b.buildFuncs[k]} k != name ==> (in(k, b.buildFuncs) <==> old(in(k, b.buildFuncs))) && b.buildFuncs[k] == old(b.buildFuncs[k])

func (*NamespaceBuilder).Required(b, name, description)
  requires b != nil && b.required != nil
  modifies contents(b.required)
  ensures set: in(name, b.required) && b.required[name] != nil && fresh(b.required[name]) && b.required[name].name == name && b.required[name].flag != nil && *b.required[name].flag == ""
  ensures others: forall k string :: {in(k, b.required)} {b.required[k]} k != name ==> (in(k, b.required) <==> old(in(k, b.required))) && b.required[k] == old(b.required[k])

func (*NamespaceBuilder).Optional(b, name, description)
  requires b != nil && b.optional != nil
  modifies contents(b.optional)
  ensures set: in(name, b.optional) && b.optional[name] != nil && fresh(b.optional[name]) && b.optional[name].name == name && b.optional[name].flag != nil && *b.optional[name].flag == ""
  ensures others: forall k string :: {in(k, b.optional)} {b.optional[k]} k != name ==> (in(k, b.optional) <==> old(in(k, b.optional))) && b.optional[k] == old(b.optional[k])

func (*NamespaceBuilder).Instantiate(b, name)
  requires b != nil
  modifies b.instantiate, contents(b.instantiate)
  ensures appended: len(b.instantiate) == old(len(b.instantiate)) + 1 && b.instantiate[len(b.instantiate)-1] == name
  ensures earlier: forall i int :: {b.instantiate[i]} 0 <= i < old(len(b.instantiate)) ==> b.instantiate[i] == old(b.instantiate[i])

define argsOK(b *golang.NamespaceBuilder) bool = (forall k string :: {b.required[k]} in(k, b.required) ==> b.required[k] != nil && b.required[k].name == k && b.required[k].flag != nil) && (forall k string :: {b.optional[k]} in(k, b.optional) ==> b.optional[k] != nil && b.optional[k].name == k && b.optional[k].flag != nil)

func (*NamespaceBuilder).checkRequired(b, parent) (err)
  requires b != nil && scoped() && argsOK(b)
  ensures complete: err == nil ==> forall k string :: {in(k, b.required)} in(k, b.required) ==> in(k, b.buildFuncs) || (parent != nil && nearest(parent, k) != nil)
  ensures onlyMissing: err != nil ==> exists k string :: {in(k, b.required)} in(k, b.required) && !in(k, b.buildFuncs) && (parent == nil || nearest(parent, k) == nil)
  invariant <missing []string> none: len(missing) == 0 ==> forall k string :: {in(k, b.required)} in(k, b.required) && $visited[k] ==> in(k, b.buildFuncs) || (parent != nil && nearest(parent, k) != nil)
  invariant <missing []string> some: len(missing) > 0 ==> exists k string :: {in(k, b.required)} in(k, b.required) && !in(k, b.buildFuncs) && (parent == nil || nearest(parent, k) == nil)

func (*NamespaceBuilder).parseFlags(b)
  requires b != nil && b.buildFuncs != nil && argsOK(b)
  requires disjoint: forall k string :: {in(k, b.required)} in(k, b.required) ==> !in(k, b.optional)
  modifies b.flagsparsed, contents(b.buildFuncs), allcontents(*string)
  ensures parsed: b.flagsparsed
  ensures once: old(b.flagsparsed) ==> forall k string :: {in(k, b.buildFuncs)} (in(k, b.buildFuncs) <==> old(in(k, b.buildFuncs))) && b.buildFuncs[k] == old(b.buildFuncs[k])
  ensures explicit: forall k string :: {in(k, b.buildFuncs)} {b.buildFuncs[k]} old(in(k, b.buildFuncs)) ==> in(k, b.buildFuncs) && b.buildFuncs[k] == old(b.buildFuncs[k])
  ensures others: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && !in(k, b.required) && !in(k, b.optional) ==> !in(k, b.buildFuncs)
  ensures requiredFlag: !old(b.flagsparsed) ==> forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && *b.required[k].flag != "" ==> in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(*b.required[k].flag) && yields(b.buildFuncs[k], 1) == nil
  ensures requiredEnv: !old(b.flagsparsed) ==> forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && *b.required[k].flag == "" ==> ite(env(envVar(k)) == "", !in(k, b.buildFuncs), in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(env(envVar(k))) && yields(b.buildFuncs[k], 1) == nil)
  ensures optionalFlag: !old(b.flagsparsed) ==> forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.optional) && *b.optional[k].flag != "" ==> in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(*b.optional[k].flag) && yields(b.buildFuncs[k], 1) == nil
  ensures optionalEnv: !old(b.flagsparsed) ==> forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.optional) && *b.optional[k].flag == "" ==> in(k, b.buildFuncs) && ite(env(envVar(k)) == "", yields(b.buildFuncs[k], 1) != nil, yields(b.buildFuncs[k], 0) == any(env(envVar(k))) && yields(b.buildFuncs[k], 1) == nil)
  invariant explicit: forall k string :: {in(k, b.buildFuncs)} {b.buildFuncs[k]} old(in(k, b.buildFuncs)) ==> in(k, b.buildFuncs) && b.buildFuncs[k] == old(b.buildFuncs[k])
  invariant others: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && !in(k, b.required) && !in(k, b.optional) ==> !in(k, b.buildFuncs)
  invariant optUntouched: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.optional) ==> !in(k, b.buildFuncs)
  invariant optUnvisited: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.optional) && !$visited[k] ==> !in(k, b.buildFuncs)
  invariant reqUnvisited: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && !$visited[k] ==> !in(k, b.buildFuncs)
  invariant reqFlagV: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && $visited[k] && *b.required[k].flag != "" ==> in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(*b.required[k].flag) && yields(b.buildFuncs[k], 1) == nil
  invariant reqEnvV: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && $visited[k] && *b.required[k].flag == "" ==> ite(env(envVar(k)) == "", !in(k, b.buildFuncs), in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(env(envVar(k))) && yields(b.buildFuncs[k], 1) == nil)
  invariant reqFlag: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && *b.required[k].flag != "" ==> in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(*b.required[k].flag) && yields(b.buildFuncs[k], 1) == nil
  invariant reqEnv: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.required) && *b.required[k].flag == "" ==> ite(env(envVar(k)) == "", !in(k, b.buildFuncs), in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(env(envVar(k))) && yields(b.buildFuncs[k], 1) == nil)
  invariant optFlagV: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.optional) && $visited[k] && *b.optional[k].flag != "" ==> in(k, b.buildFuncs) && yields(b.buildFuncs[k], 0) == any(*b.optional[k].flag) && yields(b.buildFuncs[k], 1) == nil
  invariant optEnvV: forall k string :: {in(k, b.buildFuncs)} !old(in(k, b.buildFuncs)) && in(k, b.optional) && $visited[k] && *b.optional[k].flag == "" ==> in(k, b.buildFuncs) && ite(env(envVar(k)) == "", yields(b.buildFuncs[k], 1) != nil, yields(b.buildFuncs[k], 0) == any(env(envVar(k))) && yields(b.buildFuncs[k], 1) == nil)

bounded dir=runtime/plugins/golang file=P04_namespace_test.go run=TestGovcP04
