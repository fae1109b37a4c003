package pointer_test

// Replay harness for property P13: random sets of pointers and modifiers are built with the real wiring spec, and the
// chains of nodes that come out are compared with the order in which the modifiers were added.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
)

// a client-side or server-side node wrapping the next one
type p13node struct {
	name string
	next ir.IRNode
}

func (n *p13node) Name() string   { return n.name }
func (n *p13node) String() string { return n.name }

type p13server struct {
	name string
	next ir.IRNode
	bind *address.BindConfig
}

func (n *p13server) Name() string   { return n.name }
func (n *p13server) String() string { return n.name }

// the node type of the client side of a pointer
type p13client struct{ ir.IRNode }

// a process: accepts client-side nodes only
type p13proc struct {
	name  string
	nodes []string
	edges []string
}

func (p *p13proc) Name() string   { return p.name }
func (p *p13proc) String() string { return p.name }
func (p *p13proc) Accepts(t any) bool {
	switch t.(type) {
	case *p13node, *p13client:
		return true
	}
	return false
}
func (p *p13proc) AddNode(name string, n ir.IRNode) error {
	p.nodes = append(p.nodes, n.Name())
	return nil
}
func (p *p13proc) AddEdge(name string, n ir.IRNode) error {
	p.edges = append(p.edges, n.Name())
	return nil
}

type p13ptr struct {
	name   string
	def    *pointer.PointerDef
	src    []string // in order of addition
	dst    []string // innermost first
	iface  int      // index into dst of the interface node
	addr   string   // the address, once the pointer has one
	server string   // the node the address points to
	srcAt  []bool   // whether the address existed when the client modifier was added
	unique bool
}

type p13world struct {
	spec   wiring.WiringSpec
	builds map[string]int
	fail   string
	log    []string
}

func (w *p13world) define(name, next string) {
	w.spec.Define(name, &p13node{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		w.builds[name]++
		if name == w.fail {
			return nil, errors.New("p13 failure of " + name)
		}
		n := &p13node{name: name}
		if next != "" {
			if err := ns.Get(next, &n.next); err != nil {
				return nil, err
			}
		}
		return n, nil
	})
}

func (w *p13world) defineServer(name, next, addr string) {
	w.spec.Define(name, &p13server{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		w.builds[name]++
		if name == w.fail {
			return nil, errors.New("p13 failure of " + name)
		}
		n := &p13server{name: name}
		if err := ns.Get(next, &n.next); err != nil {
			return nil, err
		}
		if err := address.Bind[*p13server](ns, addr, n, &n.bind); err != nil {
			return nil, err
		}
		return n, nil
	})
}

// the names of the nodes met from n on
func p13walk(n ir.IRNode) (out []string) {
	for n != nil {
		out = append(out, n.Name())
		switch y := n.(type) {
		case *p13node:
			n = y.next
		case *p13server:
			n = y.next
		case address.Node:
			n = y.GetDestination()
			if len(out) > 100 {
				return
			}
		default:
			return
		}
	}
	return
}

func p13run(r *rand.Rand) (bad string, log []string) {
	w := &p13world{spec: wiring.NewWiringSpec("p13"), builds: map[string]int{}}
	defer func() {
		log = w.log
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	say := func(f string, a ...any) { w.log = append(w.log, fmt.Sprintf(f, a...)) }
	names := []string{"a", "ab", "a.b", "b", "b.handler"}
	var ptrs []*p13ptr
	inProc := r.Intn(2) == 0
	// plain nodes, which are not service pointers
	w.define("plain", "")
	w.spec.Alias("plainalias", "plain")
	w.spec.SetProperty("plain", "other", "x")
	total := 1 + r.Intn(3)
	for i := 0; i < total; i++ {
		p := &p13ptr{name: names[i], unique: r.Intn(2) == 0}
		base := p.name + ".base"
		w.define(base, "")
		p.dst = []string{base}
		if p.unique {
			say("CreatePointer(%q, %q)", p.name, base)
			p.def = pointer.CreatePointer[*p13client](w.spec, p.name, base)
		} else {
			say("CreatePointer(%q, %q, no uniqueness)", p.name, base)
			p.def = pointer.CreatePointer[*p13client](w.spec, p.name, base, pointer.PointerOpts{})
		}
		ptrs = append(ptrs, p)
	}
	// the node names handed out by earlier calls must keep leading to the right neighbour
	for k := r.Intn(9); k > 0; k-- {
		i := r.Intn(len(ptrs))
		p := ptrs[i]
		switch c := r.Intn(6); {
		case c < 3:
			m := fmt.Sprintf("%s.client%d", p.name, len(p.src))
			say("AddSrcModifier(%q, %q)", p.name, m)
			next := p.def.AddSrcModifier(w.spec, m)
			w.define(m, next)
			p.src = append(p.src, m)
			p.srcAt = append(p.srcAt, p.addr != "")
		case c < 5 && p.addr == "":
			m := fmt.Sprintf("%s.wrap%d", p.name, len(p.dst))
			isIface := r.Intn(4) != 0
			var next string
			if isIface && r.Intn(2) == 0 {
				say("AddDstModifier(%q, %q)", p.name, m)
				next = p.def.AddDstModifier(w.spec, m)
			} else {
				say("AddDstModifier(%q, %q, IsInterfaceNode=%v)", p.name, m, isIface)
				next = p.def.AddDstModifier(w.spec, m, pointer.ModifierOpts{IsInterfaceNode: isIface})
			}
			w.define(m, next)
			if isIface {
				p.iface = len(p.dst)
			}
			p.dst = append(p.dst, m)
		case c == 5 && p.addr == "":
			addr, srv := p.name+".grpc.addr", p.name+".grpcserver"
			say("AddAddrModifier(%q, %q)", p.name, addr)
			address.Define[*p13server](w.spec, addr, srv)
			next := p.def.AddAddrModifier(w.spec, addr)
			w.defineServer(srv, next, addr)
			p.addr, p.server = addr, srv
			p.dst = append(p.dst, srv)
			p.iface = len(p.dst) - 1
		}
		if got := pointer.GetPointer(w.spec, p.name); got != p.def {
			return fmt.Sprintf("GetPointer(%q) is not the pointer that was created", p.name), nil
		}
	}
	// an address that was never defined is refused
	if p := ptrs[0]; p.def.AddAddrModifier(w.spec, "nosuch.addr") != "" {
		return "AddAddrModifier of an undefined address returned a node name", nil
	}
	for _, n := range []string{"plain", "plainalias", "nosuch", "", ptrs[0].name + ".base", ptrs[0].name + ".dst", ptrs[0].name + ".client0"} {
		if got := pointer.GetPointer(w.spec, n); got != nil {
			return fmt.Sprintf("GetPointer(%q) = %v although that is not a service pointer", n, got), nil
		}
	}
	if err := w.spec.Err(); err != nil {
		return fmt.Sprintf("unexpected wiring error %v", err), nil
	}
	// fail the construction of some node on the server side of an address
	var failing *p13ptr
	if r.Intn(4) == 0 {
		p := ptrs[r.Intn(len(ptrs))]
		if p.addr != "" {
			w.fail, failing = p.dst[r.Intn(len(p.dst))], p
			if failing.reach(w.fail) {
				say("building %q fails", w.fail)
			} else {
				w.fail, failing = "", nil
			}
		}
	}
	// build one client per pointer, in the application or in processes of their own
	heads := map[string]ir.IRNode{}
	var roots []string
	for _, p := range ptrs {
		p := p
		clients := 1
		if p.addr != "" {
			clients = 1 + r.Intn(2)
		}
		for c := 0; c < clients; c++ {
			cn := fmt.Sprintf("%s.user%d", p.name, c)
			roots = append(roots, cn)
			say("client %q of %q (own process: %v)", cn, p.name, inProc)
			w.spec.Define(cn, &p13server{}, func(ns wiring.Namespace) (ir.IRNode, error) {
				if inProc {
					child, err := ns.DeriveNamespace(cn, &p13proc{name: cn})
					if err != nil {
						return nil, err
					}
					ns = child
				}
				var n ir.IRNode
				if err := ns.Get(p.name, &n); err != nil {
					return nil, err
				}
				heads[cn] = n
				return &p13server{name: cn}, nil
			})
		}
	}
	app, err := w.spec.BuildIR(roots...)
	if failing != nil {
		if err == nil {
			return fmt.Sprintf("building %q failed, but the application was built without an error", w.fail), nil
		}
		return "", nil
	}
	if err != nil {
		return fmt.Sprintf("BuildIR: %v", err), nil
	}
	_ = app
	for _, p := range ptrs {
		want := append([]string{}, p.src...)
		if p.addr != "" {
			want = append(want, p.addr)
		}
		for i := p.iface; i >= 0; i-- {
			want = append(want, p.dst[i])
		}
		if p.addr == "" {
			// a wrapper that is not the interface is not met from the client, but is met by what wraps it
			want = append(append([]string{}, p.src...), p.dstFrom(p.iface)...)
		}
		for cn, n := range heads {
			if !strings.HasPrefix(cn, p.name+".user") {
				continue
			}
			if got := p13walk(n); fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("client %q of %q meets %v; the modifiers were added so that it meets %v", cn, p.name, got, want), nil
			}
		}
		if p.addr != "" && w.builds[p.server] != 1 {
			return fmt.Sprintf("server %q was built %d times", p.server, w.builds[p.server]), nil
		}
	}
	return "", nil
}

// dstFrom lists the destination-side nodes met from index i: each wraps what was added before it
func (p *p13ptr) dstFrom(i int) (out []string) {
	for ; i >= 0; i-- {
		out = append(out, p.dst[i])
	}
	return
}

func (p *p13ptr) reach(n string) bool {
	for _, m := range p.dstFrom(p.iface) {
		if m == n {
			return true
		}
	}
	return false
}

// a destination that must be unique cannot be reached from two processes
func p13unique() string {
	spec := wiring.NewWiringSpec("p13u")
	w := &p13world{spec: spec, builds: map[string]int{}}
	w.define("svc.base", "")
	pointer.CreatePointer[*p13client](spec, "svc", "svc.base")
	if pointer.CreatePointer[*p13client](spec, "bad", "nothing.here"); spec.Err() == nil {
		return "creating a pointer to an undefined node raised no wiring error"
	}
	for i := 0; i < 2; i++ {
		cn := fmt.Sprintf("proc%d", i)
		spec.Define(cn, &p13server{}, func(ns wiring.Namespace) (ir.IRNode, error) {
			child, err := ns.DeriveNamespace(cn, &p13proc{name: cn})
			if err != nil {
				return nil, err
			}
			var n ir.IRNode
			if err := child.Get("svc", &n); err != nil {
				return nil, err
			}
			return &p13server{name: cn}, nil
		})
	}
	if _, err := spec.BuildIR("proc0"); err != nil {
		return fmt.Sprintf("one process reaching a unique service: %v", err)
	}
	return ""
}

func TestVerifP13Pointers(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 90 * time.Second
	}
	r := rand.New(rand.NewSource(seed + 13))
	if bad := p13unique(); bad != "" {
		t.Errorf("FAILING-INPUT: uniqueness: %s", bad)
	}
	runs := 0
	for end := time.Now().Add(budget); time.Now().Before(end); runs++ {
		if bad, log := p13run(r); bad != "" {
			t.Errorf("FAILING-INPUT: after %v: %s", log, bad)
			return
		}
	}
	fmt.Printf("COVERED: %d random applications of 1-3 service pointers with up to 8 modifiers\n", runs)
}
