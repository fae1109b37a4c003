package wiring_test

// Replay harness for property P11: random sequences of wiring-spec calls against a simple model of definitions,
// aliases and properties.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
)

type p11node struct{ id string }

func (n *p11node) Name() string   { return n.id }
func (n *p11node) String() string { return n.id }

type p11typeA struct{ ir.IRNode }
type p11typeB struct{ ir.IRNode }

type p11def struct {
	typ   any
	ret   any
	proxy bool
	build string
	props map[string][]any
}

type p11iface interface{ Mark() string }
type p11val struct{ s string }

func (v *p11val) Mark() string { return v.s }

type p11model struct {
	defs    map[string]*p11def
	aliases map[string]string
}

func (m *p11model) resolve(n string) string {
	for {
		t, ok := m.aliases[n]
		if !ok {
			return n
		}
		n = t
	}
}

func (m *p11model) ensure(n string) *p11def {
	if d, ok := m.defs[n]; ok {
		return d
	}
	d := &p11def{props: map[string][]any{}}
	m.defs[n] = d
	delete(m.aliases, n)
	return d
}

func p11build(id string) wiring.BuildFunc {
	return func(wiring.Namespace) (ir.IRNode, error) { return &p11node{id}, nil }
}

// reads a property into a destination of type T; initial is the destination's earlier value
func p11read[T any](spec wiring.WiringSpec, m *p11model, n, k string, initial T, many []T) string {
	var vs []any
	d, defined := m.defs[n]
	if defined {
		vs = d.props[k]
	}
	var zero T
	at := fmt.Sprintf("%q.%q into %T", n, k, zero)
	// single value
	dst := initial
	err := spec.GetProperty(n, k, &dst)
	switch {
	case defined && len(vs) == 1 && vs[0] == nil:
		k := reflect.TypeOf(&zero).Elem().Kind()
		if k != reflect.Pointer && k != reflect.Interface && k != reflect.Slice {
			if err == nil {
				return fmt.Sprintf("GetProperty(%s) of nil reported no error", at)
			}
		} else if err != nil || !reflect.DeepEqual(dst, zero) {
			return fmt.Sprintf("GetProperty(%s) of nil gives %v, %v", at, dst, err)
		}
	case defined && len(vs) == 1:
		want, ok := vs[0].(T)
		if ok && (err != nil || !reflect.DeepEqual(dst, want)) {
			return fmt.Sprintf("GetProperty(%s) gives %v, %v; the stored value is %v", at, dst, err, want)
		}
		if !ok && err == nil {
			return fmt.Sprintf("GetProperty(%s) of a %T reported no error and gave %v", at, vs[0], dst)
		}
		if !ok && !reflect.DeepEqual(dst, initial) {
			return fmt.Sprintf("GetProperty(%s) of a %T failed but changed the destination to %v", at, vs[0], dst)
		}
	case defined && (err != nil || !reflect.DeepEqual(dst, zero)):
		return fmt.Sprintf("GetProperty(%s) with %d values gives %v, %v; want the zero value", at, len(vs), dst, err)
	case !defined && (err != nil || !reflect.DeepEqual(dst, initial) && !reflect.DeepEqual(dst, zero)):
		return fmt.Sprintf("GetProperty(%s) of an undefined name gives %v, %v", at, dst, err)
	}
	// all values
	dsts := many
	err = spec.GetProperties(n, k, &dsts)
	if !defined {
		if err != nil || !reflect.DeepEqual(dsts, many) && len(dsts) != 0 {
			return fmt.Sprintf("GetProperties(%s) of an undefined name gives %v, %v", at, dsts, err)
		}
		return ""
	}
	want := []T{}
	kind := reflect.TypeOf(&zero).Elem().Kind()
	bad := false
	for _, v := range vs {
		if v == nil && (kind == reflect.Interface || kind == reflect.Pointer || kind == reflect.Slice) {
			want = append(want, zero)
		} else if t, ok := v.(T); ok {
			want = append(want, t)
		} else {
			bad = true
		}
	}
	if bad {
		if err == nil {
			return fmt.Sprintf("GetProperties(%s) of %v reported no error and gave %v", at, vs, dsts)
		}
		if !reflect.DeepEqual(dsts, many) {
			return fmt.Sprintf("GetProperties(%s) of %v failed but changed the destination to %v", at, vs, dsts)
		}
		return ""
	}
	if err != nil || len(dsts) != len(want) {
		return fmt.Sprintf("GetProperties(%s) gives %v, %v; added in this order were %v", at, dsts, err, want)
	}
	for i := range want {
		if !reflect.DeepEqual(dsts[i], want[i]) {
			return fmt.Sprintf("GetProperties(%s) gives %v; added in this order were %v", at, dsts, want)
		}
	}
	// a reader that changes what it got must not change what others read
	if len(dsts) > 0 {
		dsts[0] = zero
		dsts = append(dsts[:1], zero)
	}
	return ""
}

func p11check(spec wiring.WiringSpec, m *p11model, names, keys []string) string {
	for _, n := range names {
		to, ok := spec.GetAlias(n)
		if wto, wok := m.aliases[n]; ok != wok || to != wto {
			return fmt.Sprintf("GetAlias(%q) = %q,%v; want %q,%v", n, to, ok, wto, wok)
		}
		final := m.resolve(n)
		def := spec.GetDef(n)
		d := m.defs[final]
		if (def == nil) != (d == nil) {
			return fmt.Sprintf("GetDef(%q) = %v; defined finally (%q): %v", n, def != nil, final, d != nil)
		}
		if def != nil {
			if def.Name != final {
				return fmt.Sprintf("GetDef(%q) has name %q; it finally refers to %q", n, def.Name, final)
			}
			if def.NodeType != d.typ || def.Options.ProxyNode != d.proxy || def.Options.ReturnType != d.ret {
				return fmt.Sprintf("GetDef(%q) has node type %T, return type %T, proxy %v; defined most recently with %T, %T, %v", n,
					def.NodeType, def.Options.ReturnType, def.Options.ProxyNode, d.typ, d.ret, d.proxy)
			}
			if (def.Build == nil) != (d.build == "") {
				return fmt.Sprintf("GetDef(%q) has a build function: %v", n, def.Build != nil)
			}
			if def.Build != nil {
				node, err := def.Build(nil)
				if err != nil || node.Name() != d.build {
					return fmt.Sprintf("GetDef(%q) builds %v; defined most recently to build %v", n, node, d.build)
				}
			}
		}
		for _, k := range keys {
			v := &p11val{"init"}
			for _, msg := range []string{
				p11read(spec, m, n, k, "init", []string{"a", "b"}),
				p11read(spec, m, n, k, 77, nil),
				p11read[any](spec, m, n, k, true, []any{1}),
				p11read(spec, m, n, k, v, []*p11val{v}),
				p11read[p11iface](spec, m, n, k, v, nil),
				p11read(spec, m, n, k, []string{"x"}, [][]string{{"y"}}),
			} {
				if msg != "" {
					return msg
				}
			}
		}
	}
	got, want := append([]string{}, spec.Defs()...), []string{}
	for n := range m.defs {
		want = append(want, n)
	}
	sort.Strings(got)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("Defs() = %v; defined are %v", got, want)
	}
	return ""
}

func p11run(r *rand.Rand, steps int) (bad string, log []string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	names := []string{"a", "b", "c", "a.dst", "a.b", "ab", ""}[:3+r.Intn(5)]
	keys := []string{"p", "q", "pq", "ptr"}[:1+r.Intn(4)]
	vals := []any{"v1", "v2", "", 0, 3, int64(3), nil, &p11val{"x"}, []string{"s", "t"}, 2.5, p11val{"y"}}
	spec := wiring.NewWiringSpec("p11")
	m := &p11model{map[string]*p11def{}, map[string]string{}}
	var errs []error
	if msg := p11check(spec, m, names, keys); msg != "" {
		return msg, nil
	}
	builds := 0
	for i := 0; i < steps; i++ {
		n, k := names[r.Intn(len(names))], keys[r.Intn(len(keys))]
		switch r.Intn(9) {
		case 0, 1:
			builds++
			id := fmt.Sprintf("build%d", builds)
			var typ any = &p11typeA{}
			if r.Intn(2) == 0 {
				typ = &p11typeB{}
			}
			d := m.ensure(n)
			d.typ, d.build, d.ret, d.proxy = typ, id, typ, false
			if r.Intn(3) == 0 {
				o := wiring.WiringOpts{ProxyNode: r.Intn(2) == 0}
				if r.Intn(2) == 0 {
					o.ReturnType = &p11node{"ret"}
					d.ret = o.ReturnType
				}
				d.proxy = o.ProxyNode
				log = append(log, fmt.Sprintf("Define(%q, %T, %s, %+v)", n, typ, id, o))
				spec.Define(n, typ, p11build(id), o)
			} else {
				log = append(log, fmt.Sprintf("Define(%q, %T, %s)", n, typ, id))
				spec.Define(n, typ, p11build(id))
			}
		case 2, 3:
			to := names[r.Intn(len(names))]
			cyclic := false // an alias cycle refers to nothing, so none is made
			for t, ok := to, true; ok; t, ok = m.aliases[t] {
				cyclic = cyclic || t == n
			}
			if cyclic {
				continue
			}
			log = append(log, fmt.Sprintf("Alias(%q, %q)", n, to))
			delete(m.defs, n)
			m.aliases[n] = to
			spec.Alias(n, to)
		case 4, 5:
			v := vals[r.Intn(len(vals))]
			log = append(log, fmt.Sprintf("SetProperty(%q, %q, %#v)", n, k, v))
			m.ensure(n).props[k] = []any{v}
			spec.SetProperty(n, k, v)
		case 6, 7:
			v := vals[r.Intn(len(vals))]
			log = append(log, fmt.Sprintf("AddProperty(%q, %q, %#v)", n, k, v))
			d := m.ensure(n)
			d.props[k] = append(append([]any{}, d.props[k]...), v)
			spec.AddProperty(n, k, v)
		case 8:
			if r.Intn(4) == 0 {
				e := fmt.Errorf("error %d", i)
				log = append(log, "AddError")
				errs = append(errs, e)
				spec.AddError(e)
			}
		}
		if msg := p11check(spec, m, names, keys); msg != "" {
			return msg, log
		}
		if err := spec.Err(); (err == nil) != (len(errs) == 0) {
			return fmt.Sprintf("%d errors were added but Err() = %v", len(errs), err), log
		} else if we := (*wiring.WiringError)(nil); errors.As(err, &we) && !reflect.DeepEqual(we.Errors, errs) {
			return fmt.Sprintf("Err() = %v; added were %v", we.Errors, errs), log
		}
	}
	return "", log
}

func (e *p11node) ImplementsNothing() {}

// properties read through a namespace follow aliases
func p11namespace(r *rand.Rand) string {
	spec := wiring.NewWiringSpec("p11ns")
	want := []string{}
	spec.Define("target", &p11typeA{}, p11build("t"))
	for i := 0; i < r.Intn(5); i++ {
		v := fmt.Sprintf("v%d", r.Intn(4))
		want = append(want, v)
		spec.AddProperty("target", "list", v)
	}
	spec.SetProperty("target", "one", 41)
	spec.SetProperty("target", "one", 42)
	spec.SetProperty("other", "one", 43)
	spec.Alias("l1", "target")
	spec.Alias("l2", "l1")
	msg := ""
	spec.Define("reader", &p11typeB{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		for _, n := range []string{"target", "l1", "l2"} {
			var list []string
			var ints []int
			var one, none int
			err1, err2, err3 := ns.GetProperties(n, "list", &list), ns.GetProperty(n, "one", &one), ns.GetProperty(n, "none", &none)
			if err1 != nil || err2 != nil || err3 != nil || one != 42 || none != 0 || len(list) != len(want) || len(want) > 0 && !reflect.DeepEqual(list, want) {
				msg = fmt.Sprintf("namespace reads of %q: list=%v %v one=%v %v none=%v %v; want %v, 42, 0", n, list, err1, one, err2, none, err3, want)
			}
			if err := ns.GetProperties(n, "list", &ints); len(want) > 0 && err == nil {
				msg = fmt.Sprintf("namespace read of the strings of %q into []int gave %v and no error", n, ints)
			}
		}
		var x int
		if err := ns.GetProperty("nowhere", "one", &x); err == nil {
			msg = "namespace read of a property of an undefined name reported no error"
		}
		return &p11node{"reader"}, nil
	})
	if _, err := spec.BuildIR("reader"); err != nil {
		return fmt.Sprintf("BuildIR: %v", err)
	}
	return msg
}

func TestVerifP11Wiring(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 90 * time.Second
	}
	r := rand.New(rand.NewSource(seed + 11))
	end := time.Now().Add(budget)
	runs, steps := 0, 0
	for time.Now().Before(end) {
		n := 2 + r.Intn(14)
		bad, log := p11run(r, n)
		if bad == "" {
			bad = p11namespace(r)
			if bad != "" {
				log = []string{"properties on target, read from the namespace building reader"}
			}
		}
		if bad != "" {
			t.Errorf("FAILING-INPUT: after %v: %s", log, bad)
			return
		}
		runs++
		steps += len(log)
	}
	fmt.Printf("COVERED: %d random wiring-spec call sequences (%d calls), every name and key read back after every call\n", runs, steps)
}
