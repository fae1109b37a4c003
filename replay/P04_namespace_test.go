package golang_test

// Replay harness for property P04: random namespace trees, definitions and request orders against a reference.

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
)

type p04node struct{ id int }
type p04run struct {
	id  int
	ran chan int
}

func (r *p04run) Run(ctx context.Context) error { r.ran <- r.id; return nil }

type p04def struct {
	kind  int // 0 instance, 1 fails the first `left` times, 2 requests others first, 3 string, 4 runnable
	left  int
	deps  []string
	calls int
	ok    int
	last  any
	err   error
	str   string
	ns    *p04ns
	name  string
}
type p04ns struct {
	n      *golang.Namespace
	parent *p04ns
	defs   map[string]*p04def
}

func (m *p04ns) owner(name string) *p04ns {
	for x := m; x != nil; x = x.parent {
		if _, ok := x.defs[name]; ok {
			return x
		}
	}
	return nil
}

func TestGovcP04(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	nfail := 0
	fail := func(f string, a ...any) {
		t.Errorf("FAILING-INPUT: "+f, a...)
		if nfail++; nfail > 8 {
			t.FailNow()
		}
	}
	saveArgs, saveFlags := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = saveArgs, saveFlags }()
	ctx := context.Background()
	names := []string{"a", "b", "c.x", "d", "e", "f"}
	trees, gets := 0, 0
	id := 0
	for r := 0; r < 1500; r++ {
		trees++
		os.Args = []string{"prog"}
		flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
		log := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					fail("%s: panic %v", log, p)
				}
			}()
			var chain []*p04ns
			ran := make(chan int, 200)
			wantRun := map[int]bool{}
			bad := ""
			depth := 1 + rnd.Intn(4)
			for lv := 0; lv < depth; lv++ {
				m := &p04ns{defs: map[string]*p04def{}}
				if lv > 0 {
					m.parent = chain[lv-1]
				}
				b := golang.NewNamespaceBuilder(fmt.Sprintf("ns%d", lv))
				for ni, nm := range names {
					if rnd.Intn(3) == 0 {
						continue
					}
					times := 1
					if rnd.Intn(8) == 0 {
						times = 2 // redefinition: the last one counts
					}
					for q := 0; q < times; q++ {
						d := &p04def{kind: rnd.Intn(6), ns: m, name: nm}
						if d.kind == 1 {
							d.left = 1 + rnd.Intn(2)
						}
						if d.kind == 2 {
							for _, o := range names[ni+1:] {
								if rnd.Intn(2) == 0 {
									d.deps = append(d.deps, o)
								}
							}
						}
						m.defs[nm] = d
						log += fmt.Sprintf(" ns%d.Define(%s,kind %d,deps %v)", lv, nm, d.kind, d.deps)
						if d.kind == 3 {
							d.str = fmt.Sprintf("value%d", rnd.Intn(3))
							if rnd.Intn(5) == 0 {
								d.str = ""
							}
							b.Set(nm, d.str)
							continue
						}
						b.Define(nm, func(n *golang.Namespace) (any, error) {
							d.calls++
							if n != d.ns.n && d.ns.n != nil {
								bad = fmt.Sprintf("the builder of %s was given another namespace than the one that defines it", d.name)
							}
							for _, o := range d.deps {
								var v any
								if err := n.Get(o, &v); err != nil {
									d.err = err
									return nil, err
								}
							}
							if d.left > 0 {
								d.left--
								id++
								d.err = fmt.Errorf("failure %d of %s", id, d.name)
								if rnd.Intn(2) == 0 {
									return &p04node{id}, d.err
								}
								return nil, d.err
							}
							d.err = nil
							d.ok++
							id++
							if d.kind == 4 {
								wantRun[id] = true
								d.last = &p04run{id, ran}
							} else {
								d.last = &p04node{id}
							}
							return d.last, nil
						})
					}
				}
				var err error
				if lv == 0 {
					m.n, err = b.Build(ctx)
				} else {
					m.n, err = b.BuildWithParent(chain[lv-1].n)
				}
				if err != nil || m.n == nil {
					fail("%s: building namespace %d with no required names fails: %v", log, lv, err)
					return
				}
				for nm, d := range m.defs {
					if d.calls > 0 {
						fail("%s: %s was built although nobody asked for it", log, nm)
						return
					}
				}
				chain = append(chain, m)
			}
			for g := 0; g < 12; g++ {
				gets++
				lv := rnd.Intn(depth)
				m := chain[lv]
				nm := names[rnd.Intn(len(names))]
				if rnd.Intn(12) == 0 {
					nm = "unknown"
				}
				log += fmt.Sprintf(" ns%d.Get(%s)", lv, nm)
				before := map[*p04def][2]int{}
				for _, c := range chain {
					for _, d := range c.defs {
						before[d] = [2]int{d.calls, d.ok}
					}
				}
				sentinel := &p04node{-1}
				var v any = sentinel
				err := m.n.Get(nm, &v)
				if bad != "" {
					fail("%s: %s", log, bad)
					return
				}
				for _, c := range chain {
					for _, d := range c.defs {
						if d.ok > 1 {
							fail("%s: %s was built %d times", log, d.name, d.ok)
							return
						}
						if d.calls > before[d][0] && before[d][1] > 0 {
							fail("%s: the builder of %s ran again after it had been built", log, d.name)
							return
						}
					}
				}
				o := m.owner(nm)
				if o == nil {
					if err == nil {
						fail("%s: no error for a name defined nowhere (got %v)", log, v)
						return
					}
					continue
				}
				d := o.defs[nm]
				switch {
				case d.kind == 3:
					if err != nil || v != any(d.str) {
						fail("%s: got %v, %v, want %q", log, v, err, d.str)
						return
					}
				case before[d][1] > 0:
					if err != nil || v != d.last || d.calls != before[d][0] {
						fail("%s: a later request got %v, %v, want the instance built first", log, v, err)
						return
					}
				case d.err != nil:
					if !errors.Is(err, d.err) {
						fail("%s: the constructor failed with %v but Get returned %v", log, d.err, err)
						return
					}
					if v != any(sentinel) {
						fail("%s: a failed request delivered %v", log, v)
						return
					}
				default:
					if err != nil || v != d.last || d.calls != before[d][0]+1 {
						fail("%s: got %v, %v after %d builder runs, want the instance just built", log, v, err, d.calls-before[d][0])
						return
					}
				}
				for _, c := range chain {
					for on, od := range c.defs {
						if c != o && on == nm && od.calls != before[od][0] {
							// only legal when a builder requested the name from that namespace
							if !p04reachable(chain, d, od) {
								fail("%s: a shadowed definition of %s was built", log, on)
								return
							}
						}
					}
				}
			}
			chain[0].n.Shutdown(false)
			for _, c := range chain {
				c.n.Await()
			}
			got := map[int]int{}
			close(ran)
			for i := range ran {
				got[i]++
			}
			for i := range wantRun {
				if got[i] != 1 {
					fail("%s: a runnable instance was run %d times", log, got[i])
					return
				}
			}
		}()
	}
	p04args(t, rnd, fail)
	t.Logf("COVERED: %d random namespace trees, %d requests", trees, gets)
}

func p04reachable(chain []*p04ns, from, to *p04def) bool {
	seen := map[*p04def]bool{}
	var rec func(d *p04def) bool
	rec = func(d *p04def) bool {
		if d == to {
			return true
		}
		if seen[d] {
			return false
		}
		seen[d] = true
		for _, o := range d.deps {
			if ow := d.ns.owner(o); ow != nil && rec(ow.defs[o]) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// configuration arguments: explicit value, then command line, then environment
func p04args(t *testing.T, rnd *rand.Rand, fail func(string, ...any)) {
	cases := 0
	all := []string{"a.addr", "b", "c_d.dial.addr", "zipkin.host", "z9"}
	for r := 0; r < 1500; r++ {
		cases++
		log := ""
		func() {
			flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
			os.Args = []string{"prog"}
			var setenv []string
			defer func() {
				for _, e := range setenv {
					os.Unsetenv(e)
				}
				if p := recover(); p != nil {
					fail("%s: panic %v", log, p)
				}
			}()
			b := golang.NewNamespaceBuilder("args")
			type arg struct {
				req, opt       bool
				set            *string
				flag, env      string
				parent         bool
				eager          bool
				want           string
				present, defin bool
			}
			withParent := rnd.Intn(4) == 0
			var parent *golang.Namespace
			pb := golang.NewNamespaceBuilder("parent")
			args := map[string]*arg{}
			for _, n := range all {
				if rnd.Intn(4) == 0 {
					continue
				}
				a := &arg{}
				args[n] = a
				if rnd.Intn(3) == 0 {
					a.opt = true
				} else {
					a.req = true
				}
				first := rnd.Intn(2) == 0
				decl := func() {
					if a.req {
						b.Required(n, "d")
						log += " Required(" + n + ")"
					} else {
						b.Optional(n, "d")
						log += " Optional(" + n + ")"
					}
				}
				if first {
					decl()
				}
				if rnd.Intn(4) == 0 {
					v := "set-" + n
					if rnd.Intn(4) == 0 {
						v = ""
					}
					a.set = &v
					b.Set(n, v)
					log += fmt.Sprintf(" Set(%s,%q)", n, v)
				}
				if !first {
					decl()
				}
				if rnd.Intn(3) > 0 {
					a.flag = "flag-" + n
					os.Args = append(os.Args, "-"+n+"="+a.flag)
					log += " flag " + n
				}
				if rnd.Intn(3) > 0 {
					a.env = "env-" + n
					if rnd.Intn(6) == 0 {
						a.env = a.flag
					}
					ev := strings.ToUpper(strings.ReplaceAll(n, ".", "_"))
					os.Setenv(ev, a.env)
					setenv = append(setenv, ev)
					log += " env " + n
				}
				if rnd.Intn(4) == 0 {
					a.parent = true
					pb.Set(n, "parent-"+n)
					log += " parent defines " + n
				}
				if rnd.Intn(5) == 0 {
					a.eager = true
					b.Instantiate(n)
					log += " Instantiate(" + n + ")"
				}
			}
			var missing []string
			eagerFail := false
			for n, a := range args {
				switch {
				case a.set != nil:
					a.want, a.present = *a.set, true
				case withParent:
					if a.parent {
						a.want, a.present = "parent-"+n, true
					} else if a.req {
						missing = append(missing, n)
					}
				case a.flag != "":
					a.want, a.present = a.flag, true
				case a.env != "":
					a.want, a.present = a.env, true
				case a.req:
					missing = append(missing, n)
				}
				if a.eager && !a.present {
					eagerFail = true
				}
			}
			var n *golang.Namespace
			var err error
			if withParent {
				log = "with parent:" + log
				save := os.Args
				os.Args = []string{"prog"}
				parent, err = pb.Build(context.Background())
				os.Args = save
				if err != nil {
					fail("%s: building the parent fails: %v", log, err)
					return
				}
				n, err = b.BuildWithParent(parent)
			} else {
				n, err = b.Build(context.Background())
			}
			if len(missing) > 0 {
				if err == nil {
					fail("%s: required %v have no value but building succeeds", log, missing)
					return
				}
				for _, m := range missing {
					if !strings.Contains(err.Error(), m) {
						fail("%s: the error %q does not name the missing %s", log, err, m)
						return
					}
				}
				return
			}
			if eagerFail {
				if err == nil {
					fail("%s: an eagerly built argument without value did not fail the build", log)
				}
				return
			}
			if err != nil {
				fail("%s: building fails: %v", log, err)
				return
			}
			for nm, a := range args {
				for q := 0; q < 2; q++ {
					v := "untouched"
					err := n.Get(nm, &v)
					if a.present {
						if err != nil || v != a.want {
							fail("%s: %s is %q, %v; want %q", log, nm, v, err, a.want)
							return
						}
					} else if err == nil {
						fail("%s: %s has no value but requesting it yields %q", log, nm, v)
						return
					}
				}
			}
		}()
	}
	// eager building: every Instantiate name exactly once, and a failing one fails the build
	for r := 0; r < 300; r++ {
		os.Args = []string{"prog"}
		flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
		b := golang.NewNamespaceBuilder("eager")
		n := 1 + rnd.Intn(4)
		built := make([]int, n)
		failAt := -1
		if rnd.Intn(2) == 0 {
			failAt = rnd.Intn(n)
		}
		boom := errors.New("boom")
		var order []int
		for i := 0; i < n; i++ {
			i := i
			b.Define(fmt.Sprintf("n%d", i), func(*golang.Namespace) (any, error) {
				built[i]++
				if i == failAt {
					return nil, boom
				}
				return &p04node{i}, nil
			})
		}
		for i := 0; i < n+rnd.Intn(3); i++ {
			j := i
			if i >= n {
				j = rnd.Intn(n)
			}
			order = append(order, j)
			b.Instantiate(fmt.Sprintf("n%d", j))
		}
		var ns *golang.Namespace
		var err error
		child := rnd.Intn(2) == 0
		if child {
			p, perr := golang.NewNamespaceBuilder("p").Build(context.Background())
			if perr != nil {
				fail("building an empty namespace fails: %v", perr)
				return
			}
			ns, err = b.BuildWithParent(p)
		} else {
			ns, err = b.Build(context.Background())
		}
		if failAt >= 0 {
			if !errors.Is(err, boom) {
				fail("eager %v (child=%v): constructor %d fails but building returns %v", order, child, failAt, err)
			}
			if built[failAt] != 1 {
				fail("eager %v: the failing constructor ran %d times", order, built[failAt])
			}
			continue
		}
		if err != nil || ns == nil {
			fail("eager %v (child=%v): building fails: %v", order, child, err)
			continue
		}
		for i, c := range built {
			if c != 1 {
				fail("eager %v (child=%v): n%d was built %d times", order, child, i, c)
			}
		}
		cases++
	}
	t.Logf("COVERED: %d configurations of arguments and eager nodes", cases)
}
