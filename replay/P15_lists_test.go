package ir_test

// Replay harness for property P15: random node lists against reference partitions.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
)

type p15plain struct{ n string }

func (p *p15plain) Name() string   { return p.n }
func (p *p15plain) String() string { return p.n }

type p15value struct{ n string }

func (p p15value) Name() string   { return p.n }
func (p p15value) String() string { return p.n }

type p15meta struct{ p15plain }

func (p *p15meta) ImplementsIRMetadata() {}

type p15extra interface{ Extra() int }
type p15ex struct{ p15plain }

func (p *p15ex) Extra() int { return 1 }

func p15check[T any](kind string, nodes []ir.IRNode, fail func(string, ...any)) {
	desc := fmt.Sprintf("%s of %v", kind, p15names(nodes))
	defer func() {
		if p := recover(); p != nil {
			fail("%s: panic %v", desc, p)
		}
	}()
	orig := append([]ir.IRNode{}, nodes...)
	var wantT []T
	var wantN, wantR []ir.IRNode
	for _, n := range nodes {
		if t, ok := n.(T); ok {
			wantT = append(wantT, t)
			wantN = append(wantN, n)
		} else {
			wantR = append(wantR, n)
		}
		if _, ok := n.(T); ok != ir.Is[T](n) {
			fail("Is reports %v for a %T asked for %s", ir.Is[T](n), n, kind)
		}
	}
	sameT := func(what string, got []T) {
		ok := len(got) == len(wantT)
		for i := 0; ok && i < len(got); i++ {
			ok = any(got[i]) == any(wantT[i])
		}
		if !ok {
			fail("%s(%s): got %d nodes, want %d in order %v", what, desc, len(got), len(wantT), p15names(wantN))
		}
	}
	sameN := func(what string, got, want []ir.IRNode) {
		ok := len(got) == len(want)
		for i := 0; ok && i < len(got); i++ {
			ok = got[i] == want[i]
		}
		if !ok {
			fail("%s(%s): got %v, want %v", what, desc, p15names(got), p15names(want))
		}
	}
	sameT("Filter", ir.Filter[T](nodes))
	sameN("FilterNodes", ir.FilterNodes[T](nodes), wantN)
	sameN("Remove", ir.Remove[T](nodes), wantR)
	rest, match := ir.Split[T](nodes)
	sameT("Split matches", match)
	sameN("Split remaining", rest, wantR)
	sameN("input afterwards", nodes, orig)
}

func p15names(ns []ir.IRNode) []string {
	var out []string
	for _, n := range ns {
		if n == nil {
			out = append(out, "nil")
		} else {
			out = append(out, fmt.Sprintf("%T:%s", n, n.Name()))
		}
	}
	return out
}

func TestGovcP15(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	nfail := 0
	fail := func(f string, a ...any) {
		t.Errorf("FAILING-INPUT: "+f, a...)
		if nfail++; nfail > 8 {
			t.FailNow()
		}
	}
	lists := 0
	for r := 0; r < 3000; r++ {
		lists++
		n := rnd.Intn(12)
		var nodes []ir.IRNode
		if rnd.Intn(2) == 0 {
			nodes = make([]ir.IRNode, 0, n+rnd.Intn(5))
		}
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("n%d", i)
			switch rnd.Intn(10) {
			case 0:
				b := &address.BindConfig{}
				b.Key = nm
				nodes = append(nodes, b)
			case 1:
				d := &address.DialConfig{}
				d.Key = nm
				nodes = append(nodes, d)
			case 2:
				nodes = append(nodes, &ir.IRValue{Value: nm})
			case 3:
				nodes = append(nodes, &ir.ApplicationNode{ApplicationName: nm})
			case 4:
				nodes = append(nodes, &p15meta{p15plain{nm}})
			case 5:
				nodes = append(nodes, &p15ex{p15plain{nm}})
			case 6:
				nodes = append(nodes, p15value{nm})
			case 7:
				nodes = append(nodes, &p15plain{nm})
			case 8:
				if len(nodes) > 0 {
					nodes = append(nodes, nodes[rnd.Intn(len(nodes))])
				}
			case 9:
				if rnd.Intn(3) == 0 {
					nodes = append(nodes, nil)
				}
			}
		}
		p15check[*address.BindConfig]("BindConfig", nodes, fail)
		p15check[*address.DialConfig]("DialConfig", nodes, fail)
		p15check[*ir.IRValue]("IRValue", nodes, fail)
		p15check[ir.IRConfig]("IRConfig", nodes, fail)
		p15check[ir.IRMetadata]("IRMetadata", nodes, fail)
		p15check[ir.HasIRChildren]("HasIRChildren", nodes, fail)
		p15check[p15extra]("extra", nodes, fail)
		p15check[p15value]("value", nodes, fail)
		p15check[ir.IRNode]("IRNode", nodes, fail)
		p15check[*p15plain]("plain", nodes, fail)
		binds, dials, rest := address.Split(nodes)
		var wb, wd, wr []ir.IRNode
		for _, x := range nodes {
			switch x.(type) {
			case *address.BindConfig:
				wb = append(wb, x)
			case *address.DialConfig:
				wd = append(wd, x)
			default:
				wr = append(wr, x)
			}
		}
		ok := len(binds) == len(wb) && len(dials) == len(wd) && len(rest) == len(wr)
		for i := 0; ok && i < len(wb); i++ {
			ok = ir.IRNode(binds[i]) == wb[i]
		}
		for i := 0; ok && i < len(wd); i++ {
			ok = ir.IRNode(dials[i]) == wd[i]
		}
		for i := 0; ok && i < len(wr); i++ {
			ok = rest[i] == wr[i]
		}
		if !ok {
			fail("address.Split(%v): wrong partition", p15names(nodes))
		}
	}
	// depth-first listing
	for r := 0; r < 1000; r++ {
		cnt := 0
		var build func(d int) ir.IRNode
		build = func(d int) ir.IRNode {
			cnt++
			if d == 0 || rnd.Intn(3) == 0 {
				return &p15plain{fmt.Sprintf("p%d", cnt)}
			}
			a := &ir.ApplicationNode{ApplicationName: fmt.Sprintf("a%d", cnt)}
			for i := rnd.Intn(4); i > 0; i-- {
				a.Children = append(a.Children, build(d-1))
			}
			if len(a.Children) > 0 && rnd.Intn(5) == 0 {
				a.Children = append(a.Children, a.Children[0])
			}
			return a
		}
		root := &ir.ApplicationNode{ApplicationName: "root"}
		for i := rnd.Intn(5); i > 0; i-- {
			root.Children = append(root.Children, build(rnd.Intn(4)))
		}
		var want []ir.IRNode
		var rec func(n ir.IRNode)
		rec = func(n ir.IRNode) {
			want = append(want, n)
			if a, ok := n.(*ir.ApplicationNode); ok {
				for _, c := range a.Children {
					rec(c)
				}
			}
		}
		rec(root)
		got := root.GetAllIRNodes()
		ok := len(got) == len(want)
		for i := 0; ok && i < len(got); i++ {
			ok = got[i] == want[i]
		}
		if !ok {
			fail("GetAllIRNodes of %s: got %v, want %v", root.String(), p15names(got), p15names(want))
		}
	}
	for r := 0; r < 500; r++ {
		var v ir.VisitTrackerImpl
		seen := map[string]bool{}
		log := ""
		for i := 0; i < 20; i++ {
			nm := []string{"", "a", "b", "A", "c/d", "c.d"}[rnd.Intn(6)]
			log += fmt.Sprintf(" %q", nm)
			if got := v.Visited(nm); got != seen[nm] {
				fail("visits%s: Visited reports %v", log, got)
			}
			seen[nm] = true
		}
	}
	t.Logf("COVERED: %d random node lists, 1000 trees, 500 visit histories", lists)
}
