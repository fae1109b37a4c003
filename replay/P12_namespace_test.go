package wiring_test

// Replay harness for property P12: random applications (nested namespaces, aliases, proxies, metadata, failing and
// flaky builders) are built with the real wiring spec and compared with a model of who builds and records what.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
)

type p12t0 struct{ ir.IRNode }
type p12t1 struct{ ir.IRNode }
type p12t2 struct{ ir.IRNode }
type p12t3 struct{ ir.IRNode }

var p12types = []any{&p12t0{}, &p12t1{}, &p12t2{}, &p12t3{}}

type p12node struct{ id string }

func (n *p12node) Name() string   { return n.id }
func (n *p12node) String() string { return n.id }

type p12meta struct {
	p12node
	ir.IRMetadata
}

func (n *p12meta) Name() string   { return n.id }
func (n *p12meta) String() string { return n.id }

// one step of a builder
type p12step struct {
	op     string // get, instantiate
	name   string
	retry  bool // on an error, ask once more
	ignore bool // carry on after an error
}

type p12def struct {
	name    string
	typ     int
	proxy   bool // returns what its first step returned
	meta    bool
	fails   int   // how many of its first builds fail (after its steps)
	accepts []int // when set: derives a namespace accepting these types and runs its steps there
	steps   []p12step
}

func (d *p12def) String() string {
	s := fmt.Sprintf("%s:T%d", d.name, d.typ)
	if d.proxy {
		s += " proxy"
	}
	if d.meta {
		s += " metadata"
	}
	if d.fails > 0 {
		s += fmt.Sprintf(" fails*%d", d.fails)
	}
	if d.accepts != nil {
		s += fmt.Sprintf(" namespace%v", d.accepts)
	}
	for _, st := range d.steps {
		s += " " + st.op + "(" + st.name + ")"
		if st.retry {
			s += "/retry"
		}
		if st.ignore {
			s += "/ignore"
		}
	}
	return "{" + s + "}"
}

type p12app struct {
	defs    []*p12def
	byName  map[string]*p12def
	aliases map[string]string
	root    string
}

// ---- the model

type p12mns struct {
	name    string
	parent  *p12mns
	accepts map[int]bool // nil: everything
	seen    map[string]*p12res
	added   map[string]bool
	log     []string
	kids    map[string]bool
}
type p12res struct {
	id   string
	meta bool
}
type p12model struct {
	app    *p12app
	builds map[string]int
	spaces map[string]*p12mns
	trace  []string
}

func p12newns(name string, parent *p12mns, accepts []int) *p12mns {
	n := &p12mns{name: name, parent: parent, seen: map[string]*p12res{}, added: map[string]bool{}, kids: map[string]bool{}}
	if accepts != nil {
		n.accepts = map[int]bool{}
		for _, a := range accepts {
			n.accepts[a] = true
		}
	}
	return n
}

func (m *p12model) get(ns *p12mns, name string, edge bool) (*p12res, bool) {
	final := name
	for {
		t, ok := m.app.aliases[final]
		if !ok {
			break
		}
		final = t
	}
	if r := ns.seen[final]; r != nil {
		return r, true
	}
	d := m.app.byName[final]
	if d == nil {
		return nil, false
	}
	if ns.accepts == nil || ns.accepts[d.typ] {
		m.builds[ns.name+"/"+final]++
		in := ns
		if d.accepts != nil {
			if ns.kids[final] {
				return nil, false // the builder fails: its namespace exists already
			}
			ns.kids[final] = true
			in = p12newns(ns.name+"/"+final, ns, d.accepts)
			m.spaces[in.name] = in
		}
		var first *p12res
		for _, s := range d.steps {
			r, ok := m.get(in, s.name, s.op == "get")
			if !ok && s.retry {
				r, ok = m.get(in, s.name, s.op == "get")
			}
			if ok {
				m.trace = append(m.trace, final+"<-"+s.name+"="+r.id)
			} else if !s.ignore {
				return nil, false
			}
			if first == nil && ok {
				first = r
			}
		}
		if m.builds[ns.name+"/"+final] <= d.fails {
			return nil, false
		}
		res := &p12res{id: fmt.Sprintf("%s@%s#%d", final, ns.name, m.builds[ns.name+"/"+final]), meta: d.meta}
		if d.proxy && first != nil {
			res = first
		}
		if !ns.added[res.id] && !d.proxy {
			ns.log = append(ns.log, "node "+res.id)
		}
		ns.added[res.id] = true
		ns.seen[final] = res
		return res, true
	}
	if ns.parent == nil {
		return nil, false
	}
	r, ok := m.get(ns.parent, final, edge)
	if !ok {
		return nil, false
	}
	if !edge {
		return r, true
	}
	if !ns.added[r.id] && !r.meta && !d.proxy {
		ns.log = append(ns.log, "edge "+r.id)
	}
	ns.added[r.id] = true
	ns.seen[final] = r
	return r, true
}

// ---- the real thing

type p12handler struct {
	p12node
	accepts map[int]bool
	log     []string
}

func (h *p12handler) Accepts(t any) bool {
	for i, y := range p12types {
		if y == t {
			return h.accepts[i]
		}
	}
	return false
}
func (h *p12handler) AddNode(name string, n ir.IRNode) error {
	h.log = append(h.log, "node "+n.Name())
	return nil
}
func (h *p12handler) AddEdge(name string, n ir.IRNode) error {
	h.log = append(h.log, "edge "+n.Name())
	return nil
}

type p12real struct {
	builds map[string]int
	spaces map[string]*p12handler
	trace  []string
	broken string
}

func (w *p12real) define(spec wiring.WiringSpec, d *p12def) {
	build := func(ns wiring.Namespace) (ir.IRNode, error) {
		w.builds[ns.Name()+"/"+d.name]++
		in := ns
		if d.accepts != nil {
			h := &p12handler{p12node: p12node{d.name}, accepts: map[int]bool{}}
			for _, a := range d.accepts {
				h.accepts[a] = true
			}
			child, err := ns.DeriveNamespace(ns.Name()+"/"+d.name, h)
			if err != nil {
				return nil, err
			}
			if again, err := ns.GetNamespace(ns.Name() + "/" + d.name); err != nil || again != child {
				w.broken = fmt.Sprintf("GetNamespace(%q) = %v, %v after deriving it", d.name, again, err)
			}
			w.spaces[child.Name()] = h
			in = child
		}
		var first ir.IRNode
		for _, s := range d.steps {
			var n ir.IRNode
			ask := in.Get
			if s.op != "get" {
				ask = in.Instantiate
			}
			err := ask(s.name, &n)
			if err != nil && s.retry {
				err = ask(s.name, &n)
			}
			if err == nil && n == nil {
				w.broken = fmt.Sprintf("%s(%q) from %s reported success but delivered no node", s.op, s.name, in.Name())
				return nil, errors.New("broken")
			}
			if err == nil {
				w.trace = append(w.trace, d.name+"<-"+s.name+"="+n.Name())
			} else if !s.ignore {
				return nil, err
			}
			if first == nil && err == nil {
				first = n
			}
		}
		b := w.builds[ns.Name()+"/"+d.name]
		if b <= d.fails {
			return nil, fmt.Errorf("p12: %s fails", d.name)
		}
		if d.proxy && first != nil {
			return first, nil
		}
		id := fmt.Sprintf("%s@%s#%d", d.name, ns.Name(), b)
		if d.meta {
			return &p12meta{p12node: p12node{id}}, nil
		}
		return &p12node{id}, nil
	}
	if d.proxy {
		spec.Define(d.name, p12types[d.typ], build, wiring.WiringOpts{ProxyNode: true})
	} else {
		spec.Define(d.name, p12types[d.typ], build)
	}
}

func p12random(r *rand.Rand) *p12app {
	a := &p12app{byName: map[string]*p12def{}, aliases: map[string]string{}}
	n := 2 + r.Intn(7)
	failing := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		d := &p12def{name: fmt.Sprintf("n%d", i), typ: r.Intn(4)}
		a.defs = append(a.defs, d)
		a.byName[d.name] = d
		if i == 0 {
			continue
		}
		if r.Intn(3) == 0 {
			d.accepts = []int{}
			for t := 0; t < 4; t++ {
				if r.Intn(2) == 0 {
					d.accepts = append(d.accepts, t)
				}
			}
		} else if r.Intn(6) == 0 {
			d.proxy = true
		} else if r.Intn(6) == 0 {
			d.meta = true
		}
		if failing && r.Intn(4) == 0 {
			d.fails = 1 + r.Intn(2)
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			s := p12step{op: "get", name: fmt.Sprintf("n%d", r.Intn(i))}
			if d.proxy {
				s.name = fmt.Sprintf("n%d", r.Intn(i))
			}
			if r.Intn(4) == 0 {
				s.op = "instantiate"
			}
			if r.Intn(3) == 0 {
				al := fmt.Sprintf("alias%d.%s", r.Intn(2), s.name)
				if a.aliases[al] == "" {
					a.aliases[al] = s.name
				}
				s.name = al
			}
			if failing {
				s.retry, s.ignore = r.Intn(3) == 0, r.Intn(3) == 0
				if r.Intn(12) == 0 {
					s.name = "nosuch"
				}
			}
			d.steps = append(d.steps, s)
			if d.proxy {
				break
			}
		}
	}
	a.root = a.defs[n-1].name
	return a
}

func (a *p12app) describe() string {
	var s []string
	for _, d := range a.defs {
		s = append(s, d.String())
	}
	for k, v := range a.aliases {
		s = append(s, k+"->"+v)
	}
	return strings.Join(s, " ")
}

func p12run(r *rand.Rand) (bad string, a *p12app) {
	a = p12random(r)
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	m := &p12model{app: a, builds: map[string]int{}, spaces: map[string]*p12mns{}}
	rootns := p12newns("app", nil, nil)
	m.spaces["app"] = rootns
	_, ok := m.get(rootns, a.root, true)

	spec := wiring.NewWiringSpec("app")
	w := &p12real{builds: map[string]int{}, spaces: map[string]*p12handler{}}
	for _, d := range a.defs {
		w.define(spec, d)
	}
	for k, v := range a.aliases {
		spec.Alias(k, v)
	}
	app, err := spec.BuildIR(a.root)
	if w.broken != "" {
		return w.broken, a
	}
	if (err == nil) != ok {
		return fmt.Sprintf("BuildIR reports error %v; a build failure reached the application: %v", err, !ok), a
	}
	if fmt.Sprint(w.trace) != fmt.Sprint(m.trace) {
		return fmt.Sprintf("requests delivered %v, want %v", w.trace, m.trace), a
	}
	for k, n := range m.builds {
		if w.builds[k] != n {
			return fmt.Sprintf("%s was built %d times, want %d", k, w.builds[k], n), a
		}
	}
	for k, n := range w.builds {
		if m.builds[k] != n {
			return fmt.Sprintf("%s was built %d times, want %d", k, n, m.builds[k]), a
		}
	}
	var children []string
	for _, c := range app.Children {
		children = append(children, "node "+c.Name())
	}
	for name, ns := range m.spaces {
		got := children
		if name != "app" {
			h := w.spaces[name]
			if h == nil {
				return fmt.Sprintf("namespace %s was not created", name), a
			}
			got = h.log
		}
		if fmt.Sprint(got) != fmt.Sprint(ns.log) {
			return fmt.Sprintf("namespace %s recorded %v, want %v", name, got, ns.log), a
		}
	}
	return "", a
}

// deferred functions run after what is queued (or before, when asked to), and their errors are reported
func p12defer(r *rand.Rand) string {
	spec := wiring.NewWiringSpec("app")
	var ran, want, desc []string
	failAt := -1
	if r.Intn(3) == 0 {
		failAt = r.Intn(4)
	}
	n := 1 + r.Intn(5)
	spec.Define("main", &p12t0{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		h := &p12handler{p12node: p12node{"h"}, accepts: map[int]bool{}}
		child, err := ns.DeriveNamespace("child", h)
		if err != nil {
			return nil, err
		}
		if _, err := ns.DeriveNamespace("child", h); err == nil {
			return nil, errors.New("p12: deriving the same namespace twice is not refused")
		}
		if _, err := ns.GetNamespace("nochild"); err == nil {
			return nil, errors.New("p12: getting a namespace that was never derived is not refused")
		}
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("f%d", i)
			fails := i == failAt
			f := func() error {
				ran = append(ran, id)
				if fails {
					return errors.New("p12 deferred failure")
				}
				return nil
			}
			on := ns
			if r.Intn(2) == 0 {
				on = child
			}
			switch r.Intn(3) {
			case 0:
				desc = append(desc, id)
				on.Defer(f)
				want = append(want, id)
			case 1:
				desc = append(desc, id+"/back")
				on.Defer(f, wiring.DeferOpts{Front: false})
				want = append(want, id)
			default:
				desc = append(desc, id+"/front")
				on.Defer(f, wiring.DeferOpts{Front: true})
				want = append([]string{id}, want...)
			}
		}
		return &p12node{"main"}, nil
	})
	_, err := spec.BuildIR("main")
	if failAt >= 0 && failAt < n {
		for i := range want {
			if want[i] == fmt.Sprintf("f%d", failAt) {
				want = want[:i+1]
				break
			}
		}
		if err == nil {
			return fmt.Sprintf("Defer%v: f%d failed but BuildIR reported no error", desc, failAt)
		}
	} else if err != nil {
		return fmt.Sprintf("Defer%v: %v", desc, err)
	}
	if fmt.Sprint(ran) != fmt.Sprint(want) {
		return fmt.Sprintf("Defer%v: ran %v, want %v", desc, ran, want)
	}
	return ""
}

// nodes put into a namespace are found there, recorded by it when it accepts them and by its parent otherwise
func p12put(r *rand.Rand) string {
	for _, accept := range []bool{true, false} {
		spec := wiring.NewWiringSpec("app")
		h := &p12puthandler{accept: accept}
		msg := ""
		spec.Define("main", &p12t0{}, func(ns wiring.Namespace) (ir.IRNode, error) {
			child, err := ns.DeriveNamespace("child", h)
			if err != nil {
				return nil, err
			}
			n := &p12node{"put"}
			if err := child.Put("put", n); err != nil {
				msg = fmt.Sprintf("Put (accepted: %v): %v", accept, err)
			}
			for _, on := range []wiring.Namespace{child, ns} {
				var got ir.IRNode
				if err := on.Get("put", &got); (on == child || !accept) && (err != nil || got != ir.IRNode(n)) {
					msg = fmt.Sprintf("Put (accepted: %v): Get from %s delivers %v, %v", accept, on.Name(), got, err)
				}
			}
			return &p12node{"main"}, nil
		})
		app, err := spec.BuildIR("main")
		if msg != "" || err != nil {
			return fmt.Sprintf("%s %v", msg, err)
		}
		want, kids := "[node put]", 1
		if !accept {
			want, kids = "[edge put]", 2
		}
		if fmt.Sprint(h.log) != want || len(app.Children) != kids {
			return fmt.Sprintf("Put (accepted: %v): the namespace recorded %v, the application %v", accept, h.log, app.Children)
		}
	}
	return ""
}

type p12puthandler struct {
	p12handler
	accept bool
}

func (h *p12puthandler) Accepts(t any) bool { return h.accept }

func TestVerifP12Namespaces(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 8 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 90 * time.Second
	}
	r := rand.New(rand.NewSource(seed + 12))
	if bad := p12put(r); bad != "" {
		t.Errorf("FAILING-INPUT: %s", bad)
	}
	runs := 0
	for end := time.Now().Add(budget); time.Now().Before(end); runs++ {
		if bad := p12defer(r); bad != "" {
			t.Errorf("FAILING-INPUT: %s", bad)
			return
		}
		if bad, a := p12run(r); bad != "" {
			t.Errorf("FAILING-INPUT: application %s building %s: %s", a.describe(), a.root, bad)
			return
		}
	}
	fmt.Printf("COVERED: %d random applications of 2-8 definitions with nested namespaces, aliases, proxies, metadata and failures\n", runs)
}
