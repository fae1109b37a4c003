package main

// Symbolic execution of go/ssa functions producing proof obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unsup struct{ msg string }

func (u Unsup) Error() string { return u.msg }

func unsup(f string, a ...any) { panic(Unsup{fmt.Sprintf(f, a...)}) }

type Val struct {
	T    types.Type
	t    *Term
	addr *Addr
	tup  []Val
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type pathStep struct {
	T   types.Type // struct or array type stepped through
	fld int        // field index, -1 for array index
	idx *Term
}
type Addr struct {
	heap string
	idx  []*Term
	path []pathStep
	T    types.Type // pointee
}

type heapDecl struct {
	name  string
	sort  string
	nidx  int        // number of leading indices
	elem  types.Type // Go type of the cell (nil for ghost/int)
	keyT  types.Type // key type for maps
	ghost bool
	kind  string
}

type State struct {
	pc        []*Term
	heap      map[string]*Term
	epoch     int
	next      *Term
	acq       *Snap
	nacq      int
	trace     []string
	defersRun bool
}

type Snap struct {
	heap  map[string]*Term
	epoch int
	next  *Term
}

func (st *State) fork() *State {
	h := make(map[string]*Term, len(st.heap)+4)
	for k, v := range st.heap {
		h[k] = v
	}
	n := &State{pc: st.pc[:len(st.pc):len(st.pc)], heap: h, epoch: st.epoch, next: st.next, acq: st.acq, nacq: st.nacq, trace: st.trace[:len(st.trace):len(st.trace)]}
	return n
}
func (st *State) snap() *Snap {
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	return &Snap{h, st.epoch, st.next}
}
func (st *State) assume(t *Term) {
	if !t.isTrue() {
		st.pc = append(st.pc, t)
	}
}

type deferred struct {
	call *ssa.Defer
	args []Val
	fn   Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	ret    func(st *State, fr *Frame, res []Val)
	loops  map[*ssa.BasicBlock]*loopCtx
	depth  int
	con    *Contract // contract providing loop invariants
	stack  []*ssa.Function
}

func (f *Frame) clone() *Frame {
	e := make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		e[k] = v
	}
	l := make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		l[k] = v
	}
	n := *f
	n.env = e
	n.loops = l
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

// decide simplifies values conditional on a decided branch.
func (f *Frame) decide(c *Term, val bool) {
	neg := false
	if c.op == "not" {
		c, neg = c.args[0], true
	}
	pick := func(t *Term) *Term {
		for t != nil && t.op == "ite" && t.args[0] == c {
			if val != neg {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
		}
		return t
	}
	for k, v := range f.env {
		if v.t != nil && v.t.op == "ite" {
			v.t = pick(v.t)
			f.env[k] = v
		} else if v.tup != nil {
			ch := false
			for _, e := range v.tup {
				if e.t != nil && e.t.op == "ite" && e.t.args[0] == c {
					ch = true
				}
			}
			if ch {
				nt := append([]Val{}, v.tup...)
				for i := range nt {
					nt[i].t = pick(nt[i].t)
				}
				v.tup = nt
				f.env[k] = v
			}
		}
	}
}

type Oblig struct {
	Func   string
	Kind   string
	Label  string
	Pos    string
	Result string // proved failed unknown
	Back   string
	Ms     int64
	Model  string
	Trace  []string
	Goal   string
	Detail string
}

func (o *Oblig) Name() string { return o.Func + "/" + o.Kind + ":" + o.Label }

type writeRec struct {
	heap string
	idx  *Term // first index (nil for scalar heaps)
	lvl  int
}
type wlog struct {
	recs   []writeRec
	epoch  bool
	allocs bool
}

type Exec struct {
	pending   []pendCheck
	jobs      int
	jobMs     time.Duration
	dropped   map[string]bool
	discover  int
	eng       *Engine
	prog      *ssa.Program
	sf        *SpecFile
	ts        *Terms
	u         *Universe
	sol       *Solver
	top       *Contract
	topFn     *ssa.Function
	topName   string
	heaps     map[string]*heapDecl
	init      map[string]*Term
	axioms    map[int][]*Term
	closures  map[*Term]*Closure
	ifaceAddr map[*Term]*Addr
	res       []*Oblig
	mute      int
	mutedN    int
	wlogs     []*wlog
	topVars   map[string]Val
	entry     *Snap
	next0     *Term
	conc      bool // concurrent mode (locks havoc)
	npaths    int
	nreturns  int
	nsteps    int
	deadline  time.Time
	assumed   map[string]bool
	baseAx    []*Term
	used      map[string]bool // contracts relied upon
	inlined   map[string]bool
	implQ     map[string]types.Type
	retReach  bool
	modset    map[string][]modEntry
	infeasN   int
	epochs    int
}

type modEntry struct {
	all  bool
	idx  *Term
	idx2 *Term      // only this cell of the row idx
	path []pathStep // only this part of the cell
}

func (x *Exec) T() *Terms { return x.ts }

// ---------- heaps

func (x *Exec) declHeap(d *heapDecl) *heapDecl {
	if o, ok := x.heaps[d.name]; ok {
		return o
	}
	x.heaps[d.name] = d
	return d
}

func (x *Exec) fieldHeap(structT types.Type, i int) *heapDecl {
	st := under(structT).(*types.Struct)
	n := "F|" + typeKey(structT) + "|" + st.Field(i).Name()
	ft := st.Field(i).Type()
	if d, ok := x.heaps[n]; ok {
		return d
	}
	return x.declHeap(&heapDecl{name: n, sort: arr(SInt, x.u.Sort(ft)), nidx: 1, elem: ft, kind: "F"})
}
func (x *Exec) cellHeap(t types.Type) *heapDecl {
	n := "C|" + typeKey(t)
	if d, ok := x.heaps[n]; ok {
		return d
	}
	return x.declHeap(&heapDecl{name: n, sort: arr(SInt, x.u.Sort(t)), nidx: 1, elem: t, kind: "C"})
}
func (x *Exec) memHeap(elem types.Type) *heapDecl {
	n := "Mem|" + typeKey(elem)
	if d, ok := x.heaps[n]; ok {
		return d
	}
	return x.declHeap(&heapDecl{name: n, sort: arr(SInt, arr(SInt, x.u.Sort(elem))), nidx: 2, elem: elem, kind: "Mem"})
}
func (x *Exec) mapHeaps(m types.Type) (dom, val, ln *heapDecl) {
	mt := under(m).(*types.Map)
	k := typeKey(mt.Key()) + "|" + typeKey(mt.Elem())
	ks, vs := x.u.Sort(mt.Key()), x.u.Sort(mt.Elem())
	dom = x.declHeap(&heapDecl{name: "MD|" + k, sort: arr(SInt, arr(ks, SBool)), nidx: 2, keyT: mt.Key(), kind: "MD"})
	val = x.declHeap(&heapDecl{name: "MV|" + k, sort: arr(SInt, arr(ks, vs)), nidx: 2, elem: mt.Elem(), keyT: mt.Key(), kind: "MV"})
	ln = x.declHeap(&heapDecl{name: "ML|" + k, sort: arr(SInt, SInt), nidx: 1, kind: "ML"})
	return
}
func (x *Exec) ghostHeap(name, sort string, nidx int) *heapDecl {
	return x.declHeap(&heapDecl{name: "G|" + name, sort: sort, nidx: nidx, ghost: true, kind: "G"})
}

func (x *Exec) H(heap map[string]*Term, epoch int, d *heapDecl) *Term {
	if t, ok := heap[d.name]; ok {
		return t
	}
	if d.kind == "GL" {
		if t := x.frozenTerm(d); t != nil {
			heap[d.name] = t
			return t
		}
	}
	k := fmt.Sprintf("%s@%d", d.name, epoch)
	t, ok := x.init[k]
	if !ok {
		nb := x.next0
		if epoch > 0 {
			nb = x.epochNext(epoch)
		}
		if d.ghost && epoch == 0 && strings.HasPrefix(d.name, "G|lock|") && (x.top == nil || x.top.Opts["locks"] == "") {
			t = x.ts.ConstArr(d.sort, x.ts.Int(0)) // no lock is held at entry
		} else {
			t = x.newHeapConst(d, k, nb)
		}
		x.init[k] = t
	}
	heap[d.name] = t
	return t
}

var _ = os.Stdout

func (x *Exec) epochNext(e int) *Term { return x.ts.Const(fmt.Sprintf("next@%d", e), SInt) }

// newHeapConst creates an unconstrained heap version whose contents are well-formed below nb.
func (x *Exec) newHeapConst(d *heapDecl, name string, nb *Term) *Term {
	ts := x.ts
	t := ts.Const(name, d.sort)
	if d.kind == "ML" {
		r := ts.BVar("r", SInt)
		x.axioms[t.id] = append(x.axioms[t.id], ts.Forall([]*Term{r}, ts.Le(ts.Int(0), ts.Select(t, r)), ts.Select(t, r)))
	}
	if d.kind == "MD" {
		// the nil map is empty
		ks, _ := arrParts(mustInner(d.sort))
		x.axioms[t.id] = append(x.axioms[t.id], ts.Eq(ts.Select(t, ts.Int(0)), ts.ConstArr(arr(ks, SBool), ts.False())))
	}
	if d.elem != nil {
		var vars []*Term
		cur := t
		s := d.sort
		for i := 0; i < d.nidx; i++ {
			ks, vs := arrParts(s)
			v := ts.BVar("r", ks)
			vars = append(vars, v)
			cur = ts.Select(cur, v)
			s = vs
		}
		w := x.wf(d.elem, cur, nb)
		if !w.isTrue() {
			x.axioms[t.id] = append(x.axioms[t.id], ts.Forall(vars, w, cur))
		}
	}
	return t
}

func mustInner(s string) string { _, v := arrParts(s); return v }

// wf is the well-formedness of a value of type t (references below nb).
func (x *Exec) wf(t types.Type, v *Term, nb *Term) *Term {
	ts := x.ts
	switch y := under(t).(type) {
	case *types.Basic:
		if y.Info()&types.IsInteger != 0 {
			lo, hi, ok := intRange(y)
			if ok {
				return ts.And(ts.Le(ts.BigInt(lo), v), ts.Le(v, ts.BigInt(hi)))
			}
			if y.Info()&types.IsUnsigned != 0 {
				return ts.Le(ts.Int(0), v)
			}
		}
		return ts.True()
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return ts.And(ts.Le(ts.Int(0), v), ts.Lt(v, nb))
	case *types.Slice:
		return x.wfSlice(v, nb)
	case *types.Interface:
		return ts.And(
			ts.Implies(ts.Is("aref", v), ts.And(ts.Le(ts.Int(0), ts.Acc("aref.v", "aref", 1, SInt, v)), ts.Lt(ts.Acc("aref.v", "aref", 1, SInt, v), nb))),
			ts.Implies(ts.Is("aslice", v), x.wfSlice(ts.Acc("aslice.v", "aslice", 1, SSlice, v), nb)))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < y.NumFields(); i++ {
			cs = append(cs, x.wf(y.Field(i).Type(), x.u.FieldAcc(t, i, v), nb))
		}
		return ts.And(cs...)
	}
	return ts.True()
}

func (x *Exec) wfSlice(v, nb *Term) *Term {
	ts := x.ts
	return ts.And(
		ts.Le(ts.Int(0), ts.SBase(v)), ts.Lt(ts.SBase(v), nb),
		ts.Le(ts.Int(0), ts.SOff(v)), ts.Le(ts.Int(0), ts.SLen(v)), ts.Le(ts.SLen(v), ts.SCap(v)),
		ts.Implies(ts.Eq(ts.SBase(v), ts.Int(0)), ts.And(ts.Eq(ts.SCap(v), ts.Int(0)), ts.Eq(ts.SOff(v), ts.Int(0)))))
}

func intRange(b *types.Basic) (string, string, bool) {
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	}
	return "", "", false
}

// wrap reduces an exact integer result into a sized type.
func (x *Exec) wrap(t types.Type, v *Term) *Term {
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return v
	}
	lo, hi, sized := intRange(b)
	if !sized && x.top != nil && x.top.Opts["wrap64"] != "" && (b.Kind() == types.Int || b.Kind() == types.Int64) {
		lo, hi, sized = "-9223372036854775808", "9223372036854775807", true
	}
	if !sized {
		return v
	}
	ts := x.ts
	l, _ := new(big.Int).SetString(lo, 10)
	h, _ := new(big.Int).SetString(hi, 10)
	if v.isInt() {
		vi := big.NewInt(v.ival)
		m := new(big.Int).Add(new(big.Int).Sub(h, l), big.NewInt(1))
		r := new(big.Int).Mod(new(big.Int).Sub(vi, l), m)
		r.Add(r, l)
		return ts.Int(r.Int64())
	}
	m := new(big.Int).Add(new(big.Int).Sub(h, l), big.NewInt(1))
	inr := ts.And(ts.Le(ts.BigInt(lo), v), ts.Le(v, ts.BigInt(hi)))
	md := ts.mk("mod", SInt, ts.Sub(v, ts.BigInt(lo)), ts.BigInt(m.String()))
	return ts.Ite(inr, v, ts.Add(md, ts.BigInt(lo)))
}

// ---------- reading and writing

func (x *Exec) logWrite(d *heapDecl, idx *Term) {
	for _, w := range x.wlogs {
		w.recs = append(w.recs, writeRec{heap: d.name, idx: idx})
	}
}

func (x *Exec) readHeap(heap map[string]*Term, epoch int, a *Addr) *Term {
	d := x.heaps[a.heap]
	v := x.H(heap, epoch, d)
	for _, i := range a.idx {
		v = x.ts.Select(v, i)
	}
	return x.accPath(a.path, v)
}

func (x *Exec) accPath(path []pathStep, v *Term) *Term {
	for _, p := range path {
		if p.fld >= 0 {
			v = x.u.FieldAcc(p.T, p.fld, v)
		} else {
			v = x.ts.Select(v, p.idx)
		}
	}
	return v
}

func (x *Exec) updPath(path []pathStep, v, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.fld >= 0 {
		return x.u.FieldUpd(p.T, p.fld, v, x.updPath(path[1:], x.u.FieldAcc(p.T, p.fld, v), nv))
	}
	return x.ts.Store(v, p.idx, x.updPath(path[1:], x.ts.Select(v, p.idx), nv))
}

func (x *Exec) writeHeap(st *State, a *Addr, nv *Term) {
	d := x.heaps[a.heap]
	h := x.H(st.heap, st.epoch, d)
	var rec func(h *Term, idx []*Term) *Term
	rec = func(h *Term, idx []*Term) *Term {
		if len(idx) == 0 {
			return x.updPath(a.path, h, nv)
		}
		return x.ts.Store(h, idx[0], rec(x.ts.Select(h, idx[0]), idx[1:]))
	}
	st.heap[a.heap] = rec(h, a.idx)
	var i0 *Term
	if len(a.idx) > 0 {
		i0 = a.idx[0]
	}
	x.logWrite(d, i0)
}

// toAddr views pointer value p (pointee not a bare struct/array) as an address.
func (x *Exec) toAddr(p Val) *Addr {
	if p.addr != nil {
		return p.addr
	}
	if a, ok := x.ifaceAddr[p.t]; ok {
		return a
	}
	el := deref(p.T)
	if el == nil {
		unsup("address of non-pointer %s", p.T)
	}
	if isStruct(el) {
		return nil
	}
	if at, ok := under(el).(*types.Array); ok {
		_ = at
		return nil
	}
	d := x.cellHeap(el)
	return &Addr{heap: d.name, idx: []*Term{p.t}, T: el}
}

// fieldAddr is &p.f
func (x *Exec) fieldAddr(p Val, i int) Val {
	el := deref(p.T)
	st := under(el).(*types.Struct)
	ft := st.Field(i).Type()
	if a := x.toAddr(p); a != nil {
		na := &Addr{heap: a.heap, idx: a.idx, path: append(a.path[:len(a.path):len(a.path)], pathStep{T: el, fld: i}), T: ft}
		return Val{T: types.NewPointer(ft), addr: na}
	}
	d := x.fieldHeap(el, i)
	return Val{T: types.NewPointer(ft), addr: &Addr{heap: d.name, idx: []*Term{p.t}, T: ft}}
}

func (x *Exec) load(heap map[string]*Term, epoch int, p Val) Val {
	el := deref(p.T)
	if a := x.toAddr(p); a != nil {
		return Val{T: el, t: x.readHeap(heap, epoch, a)}
	}
	if isStruct(el) {
		si := x.u.structInfo(el)
		st := under(el).(*types.Struct)
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			d := x.fieldHeap(el, i)
			as = append(as, x.ts.Select(x.H(heap, epoch, d), p.t))
		}
		return Val{T: el, t: x.ts.mk(si.ctor, si.name, as...)}
	}
	at := under(el).(*types.Array)
	d := x.memHeap(at.Elem())
	return Val{T: el, t: x.ts.Select(x.H(heap, epoch, d), p.t)}
}

func (x *Exec) store(st *State, p Val, v Val) {
	el := deref(p.T)
	nv := x.term(v)
	if a := x.toAddr(p); a != nil {
		x.writeHeap(st, a, nv)
		return
	}
	if isStruct(el) {
		s := under(el).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			d := x.fieldHeap(el, i)
			x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{p.t}, T: s.Field(i).Type()}, x.u.FieldAcc(el, i, nv))
		}
		return
	}
	at := under(el).(*types.Array)
	d := x.memHeap(at.Elem())
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{p.t}}, nv)
}

// term forces a value to an SMT term.
func (x *Exec) term(v Val) *Term {
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		// interior pointer escaping to a term
		name := "iptr@" + v.addr.heap
		for _, p := range v.addr.path {
			name += fmt.Sprintf(".%d", p.fld)
		}
		args := append([]*Term{}, v.addr.idx...)
		if len(args) == 0 {
			args = []*Term{x.ts.Int(0)}
		}
		// interior pointers are negative: disjoint from every allocated object and from nil
		t := x.ts.App(name, SInt, args...)
		x.ifaceAddr[t] = v.addr
		if _, ok := x.axioms[-1-len(x.baseAx)]; !ok {
			var vars []*Term
			for _, a := range args {
				vars = append(vars, x.ts.BVar("p", a.sort))
			}
			app := x.ts.App(name, SInt, vars...)
			x.addBase("iptr "+name, x.ts.Forall(vars, x.ts.Lt(app, x.ts.Int(0)), app))
		}
		return t
	}
	if v.tup != nil {
		unsup("tuple as term")
	}
	unsup("value without term (type %v)", v.T)
	return nil
}

func (x *Exec) addBase(key string, t *Term) {
	if x.used["ax:"+key] {
		return
	}
	x.used["ax:"+key] = true
	x.baseAx = append(x.baseAx, t)
}

// ---------- allocation

func (x *Exec) alloc(st *State, prefix string) *Term {
	r := x.ts.FreshConst("new_"+prefix, SInt)
	r.fresh = true
	st.assume(x.ts.Le(st.next, r))
	st.next = x.ts.Add(r, x.ts.Int(1))
	for _, w := range x.wlogs {
		w.allocs = true
	}
	return r
}

func (x *Exec) fresh(st *State, prefix string, t types.Type) Val {
	c := x.ts.FreshConst(prefix, x.u.Sort(t))
	st.assume(x.wf(t, c, st.next))
	return Val{T: t, t: c}
}

// ---------- obligations

func (x *Exec) query(asserts []*Term) string {
	return x.ts.Script(func(used map[string]bool) string {
		return x.u.Prelude() + x.rawPrelude()
	}, asserts)
}

func (x *Exec) rawPrelude() string { return "" }

// closeAxioms adds axioms attached to the constants mentioned.
func (x *Exec) closeAxioms(as []*Term) []*Term {
	out := append([]*Term{}, as...)
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range x.axioms[t.id] {
			out = append(out, a)
			visit(a)
		}
		if t.op == "impl" {
			_ = t
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range x.baseAx {
		out = append(out, a)
		visit(a)
	}
	for _, a := range as {
		visit(a)
	}
	// interface implementation facts
	var inames []string
	for name := range x.implQ {
		inames = append(inames, name)
	}
	sort.Strings(inames)
	for _, name := range inames {
		it := x.implQ[name]
		iface := it.Underlying().(*types.Interface)
		out = append(out, x.ts.Not(x.ts.App(name, SBool, x.ts.Int(0))))
		for n := 1; n <= len(x.u.tags); n++ {
			f := x.ts.App(name, SBool, x.ts.Int(int64(n)))
			if types.Implements(x.u.tagTyp[n], iface) {
				out = append(out, f)
			} else {
				out = append(out, x.ts.Not(f))
			}
		}
	}
	return out
}

func (x *Exec) feasible(st *State, extra *Term) bool {
	if extra.isFalse() {
		return false
	}
	if time.Now().After(x.deadline) {
		unsup("time budget exceeded")
	}
	as := x.closeAxioms(append(st.pc[:len(st.pc):len(st.pc)], extra))
	ans := x.eng.pool.RunIn(x.sol, x.query(as), x.eng.feasMs)
	if ans == "unsat" {
		x.infeasN++
	}
	return ans != "unsat"
}

// has reports whether g is literally one of the facts of the state.
func (st *State) has(g *Term) bool {
	for _, f := range st.pc {
		if f == g {
			return true
		}
		if f.op == "and" {
			for _, a := range f.args {
				if a == g {
					return true
				}
			}
		}
	}
	return false
}

// provesJob asks (in the background) whether goal follows from the state (used for Houdini); nil when trivially true.
func (x *Exec) provesJob(st *State, goal *Term, ms int) *Job {
	if goal.isTrue() || st.has(goal) {
		return nil
	}
	as := x.closeAxioms(append(st.pc[:len(st.pc):len(st.pc)], x.ts.Not(goal)))
	x.jobs++
	return x.eng.pool.submit(&Job{script: x.query(as), ms: ms, deadline: x.deadline})
}

func (x *Exec) proved(j *Job) bool {
	if j == nil {
		return true
	}
	<-j.done
	if j.ans != "unsat" {
		dumpScript("hou-"+sanitize(x.topName), j.script+"(check-sat)\n")
	}
	x.jobMs += j.took
	j.script = ""
	return j.ans == "unsat"
}

func (x *Exec) check(st *State, kind, label string, pos token.Pos, goal *Term) {
	if x.mute > 0 {
		if !goal.isTrue() {
			x.mutedN++
		}
		st.assume(goal)
		return
	}
	if time.Now().After(x.deadline) {
		unsup("time budget exceeded")
	}
	// split conjunctions for sharper results
	if goal.op == "and" {
		for _, g := range goal.args {
			x.check1(st, kind, label, pos, g)
		}
		return
	}
	x.check1(st, kind, label, pos, goal)
}

func (x *Exec) check1(st *State, kind, label string, pos token.Pos, goal *Term) {
	o := &Oblig{Func: x.topName, Kind: kind, Label: label, Pos: x.pos(pos)}
	if goal.isTrue() || st.has(goal) {
		o.Result, o.Back = "proved", "syntactic"
	} else {
		as := x.closeAxioms(append(st.pc[:len(st.pc):len(st.pc)], x.ts.Not(goal)))
		j := &Job{script: x.query(as), ms: x.eng.obMs, model: true, deadline: x.deadline}
		if x.eng.undecided() > 12 {
			j.ms = min(j.ms, 1500)
		}
		j.post = func(j *Job) {
			if j.ans == "unknown" && x.eng.fbMs > 0 && x.nfallback() {
				a2, b2 := fallback(j.script, time.Duration(x.eng.fbMs)*time.Millisecond)
				if a2 != "unknown" {
					j.ans, j.back = a2, b2
				}
			}
			if j.ans != "unsat" {
				x.eng.addUndecided()
			}
		}
		x.jobs++
		x.pending = append(x.pending, pendCheck{o, x.eng.pool.submit(j), st.trace, goal, kind, label})
		if len(x.pending) > 48 {
			x.settle(24)
		}
	}
	x.res = append(x.res, o)
	st.assume(goal)
}

type pendCheck struct {
	o           *Oblig
	j           *Job
	trace       []string
	goal        *Term
	kind, label string
}

// settle waits until at most n obligations are in flight and records the answers of the others.
func (x *Exec) settle(n int) {
	for len(x.pending) > n {
		p := x.pending[0]
		x.pending = x.pending[1:]
		<-p.j.done
		o := p.o
		o.Back = p.j.back
		switch p.j.ans {
		case "unsat":
			o.Result = "proved"
		case "sat":
			o.Result = "failed"
		default:
			o.Result = "unknown"
			o.Detail = p.j.err
		}
		if o.Result != "proved" {
			dumpScript(fmt.Sprintf("%s-%s-%s", sanitize(x.topName), p.kind, sanitize(p.label)), p.j.script+"(check-sat)\n")
			o.Model = p.j.modelTxt
			o.Trace = p.trace
			o.Goal = p.goal.String()
		}
		o.Ms = p.j.took.Milliseconds()
		x.jobMs += p.j.took
	}
}

func (e *Engine) undecided() int { e.mu.Lock(); defer e.mu.Unlock(); return e.nUndecided }
func (e *Engine) addUndecided()  { e.mu.Lock(); e.nUndecided++; e.mu.Unlock() }
func (x *Exec) nfallback() bool {
	x.eng.mu.Lock()
	defer x.eng.mu.Unlock()
	if x.eng.fbLeft <= 0 || x.eng.nUndecided > 12 {
		return false
	}
	x.eng.fbLeft--
	return true
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, x.eng.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) nonnil(st *State, v Val, what string, pos token.Pos) {
	if v.addr != nil {
		return
	}
	if v.t == nil || v.t.fresh {
		return
	}
	if _, ok := x.ifaceAddr[v.t]; ok {
		return
	}
	g := x.ts.Not(x.ts.Eq(v.t, x.ts.Int(0)))
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == g {
			return
		}
	}
	x.safety(st, "nil-dereference", what, pos, g)
}

func (x *Exec) safety(st *State, label, what string, pos token.Pos, g *Term) {
	if x.top != nil && x.top.Opts["maypanic"] != "" {
		st.assume(g)
		return
	}
	x.check(st, "nopanic", label, pos, g)
}

// ---------- constants

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	ts := x.ts
	if c.Value == nil {
		return Val{T: t, t: x.u.Zero(t)}
	}
	return Val{T: t, t: x.constTerm(c.Value, t, ts)}
}

func (x *Exec) constTerm(v constant.Value, t types.Type, ts *Terms) *Term {
	switch x.u.Sort(t) {
	case SBool:
		return ts.Bool(constant.BoolVal(v))
	case SInt:
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return ts.Int(i)
		}
		return ts.BigInt(constant.ToInt(v).ExactString())
	case SReal:
		f := constant.ToFloat(v)
		r, ok := constant.Val(f).(*big.Rat)
		if !ok {
			switch y := constant.Val(f).(type) {
			case *big.Float:
				r, _ = y.Rat(nil)
			case int64:
				r = big.NewRat(y, 1)
			case *big.Int:
				r = new(big.Rat).SetInt(y)
			}
		}
		return ts.RealLit(r)
	case "Opq":
		return ts.Const("const$"+v.ExactString(), "Opq")
	}
	return ts.Str(constant.StringVal(v))
}

func (x *Exec) get(fr *Frame, v ssa.Value) Val {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(y)
	case *ssa.Function:
		return x.funcVal(y)
	case *ssa.Global:
		el := deref(y.Type())
		n := "GL|" + y.Pkg.Pkg.Path() + "." + y.Name()
		x.declHeap(&heapDecl{name: n, sort: x.u.Sort(el), nidx: 0, elem: el, kind: "GL"})
		return Val{T: y.Type(), addr: &Addr{heap: n, T: el}}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s not available in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) funcVal(f *ssa.Function) Val {
	t := x.ts.Const("fn$"+f.String(), SInt)
	if _, ok := x.closures[t]; !ok {
		x.closures[t] = &Closure{fn: f}
		// static functions live at negative addresses, distinct by construction
		x.addBase("fn"+f.String(), x.ts.Eq(t, x.ts.Int(-1000-int64(len(x.closures)))))
	}
	return Val{T: f.Signature, t: t}
}

// ---------- block execution

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

var loopCache = map[*ssa.Function][]*loopInfo{}

func (e *Engine) loopsOf(f *ssa.Function) []*loopInfo {
	e.mu.Lock()
	defer e.mu.Unlock()
	if l, ok := loopCache[f]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	var out []*loopInfo
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := m[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
					out = append(out, li)
				}
				var work []*ssa.BasicBlock
				if !li.blocks[b] {
					li.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range n.Preds {
						if !li.blocks[p] {
							li.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	for i := range out {
		out[i].ord = i
	}
	loopCache[f] = out
	return out
}

func (x *Exec) loopAt(f *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	for _, l := range x.eng.loopsOf(f) {
		if l.head == b {
			return l
		}
	}
	return nil
}

// goTo transfers control along edge from->to.
func (x *Exec) goTo(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	// leaving cut loops?
	for h, lc := range fr.loops {
		if !lc.info.blocks[to] {
			if lc.cutExits {
				return
			}
			if h != to {
				delete(fr.loops, h)
			}
		}
	}
	if lc, ok := fr.loops[to]; ok {
		lc.onBack(st, fr, from)
		return
	}
	if li := x.loopAt(fr.fn, to); li != nil {
		x.enterLoop(fr, st, li, from)
		return
	}
	x.phis(fr, st, from, to)
	x.runBlock(fr, st, to, x.skipPhis(to))
}

func (x *Exec) skipPhis(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			if _, ok := in.(*ssa.DebugRef); !ok {
				return i
			}
		}
	}
	return len(b.Instrs)
}

func (x *Exec) phis(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	vals := x.phiVals(fr, from, to)
	for p, v := range vals {
		fr.env[p] = v
	}
}

func (x *Exec) phiVals(fr *Frame, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	out := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			break
		}
		if _, ok := fr.env[p.Edges[pi]]; !ok {
			if _, isPhi := p.Edges[pi].(*ssa.Phi); isPhi {
				// value undefined on this path
				continue
			}
		}
		v := x.get(fr, p.Edges[pi])
		v.T = p.Type()
		out[p] = v
	}
	return out
}

func (x *Exec) runBlock(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.nsteps++
		if x.nsteps > x.eng.maxSteps {
			unsup("step budget exceeded")
		}
		in := b.Instrs[i]
		switch y := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			unsup("phi in the middle of a block")
		case *ssa.If:
			x.branch(fr, st, b, y)
			return
		case *ssa.Jump:
			x.goTo(fr, st, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range y.Results {
				rs = append(rs, x.get(fr, r))
			}
			fr.ret(st, fr, rs)
			return
		case *ssa.Panic:
			v := x.get(fr, y.X)
			_ = v
			x.safety(st, "explicit-panic", "", y.Pos(), x.ts.False())
			return
		case *ssa.Call:
			ii := i
			x.call(fr, st, y.Common(), y, y.Pos(), func(st2 *State, fr2 *Frame, v Val) {
				fr2.env[y] = v
				x.runBlock(fr2, st2, b, ii+1)
			})
			return
		case *ssa.RunDefers:
			ii := i
			x.runDefers(fr, st, func(st2 *State, fr2 *Frame) {
				x.runBlock(fr2, st2, b, ii+1)
			})
			return
		case *ssa.Defer:
			d := deferred{call: y}
			if !y.Call.IsInvoke() {
				if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
					d.fn = x.get(fr, y.Call.Value)
				}
			} else {
				d.fn = x.get(fr, y.Call.Value)
			}
			for _, a := range y.Call.Args {
				d.args = append(d.args, x.get(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Next:
			ii := i
			x.mapNext(fr, st, y, func(st2 *State, fr2 *Frame) { x.runBlock(fr2, st2, b, ii+1) })
			return
		case *ssa.Select:
			ii := i
			x.selectStmt(fr, st, y, func(st2 *State, fr2 *Frame) { x.runBlock(fr2, st2, b, ii+1) })
			return
		case *ssa.TypeAssert:
			ii := i
			if x.typeAssert(fr, st, y, func(st2 *State, fr2 *Frame) { x.runBlock(fr2, st2, b, ii+1) }) {
				return
			}
		default:
			x.simple(fr, st, in)
		}
	}
	unsup("block without terminator")
}

func (x *Exec) branch(fr *Frame, st *State, b *ssa.BasicBlock, y *ssa.If) {
	c := x.term(x.get(fr, y.Cond))
	if c.isTrue() {
		x.goTo(fr, st, b, b.Succs[0])
		return
	}
	if c.isFalse() {
		x.goTo(fr, st, b, b.Succs[1])
		return
	}
	nc := x.ts.Not(c)
	// already decided on this path?
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == c {
			x.goTo(fr, st, b, b.Succs[0])
			return
		}
		if st.pc[i] == nc {
			x.goTo(fr, st, b, b.Succs[1])
			return
		}
	}
	p := x.pos(y.Cond.Pos())
	t, f := x.feasible(st, c), true
	if t {
		f = x.feasible(st, nc)
	}
	if !t && !f {
		f = true
	}
	x.npaths++
	if x.npaths > x.eng.maxPaths {
		unsup("path budget exceeded")
	}
	if t {
		st2, fr2 := st, fr
		if f {
			st2, fr2 = st.fork(), fr.clone()
		}
		st2.assume(c)
		fr2.decide(c, true)
		st2.trace = append(st2.trace, p+" true")
		x.goTo(fr2, st2, b, b.Succs[0])
	}
	if f {
		st.assume(nc)
		fr.decide(c, false)
		st.trace = append(st.trace, p+" false")
		x.goTo(fr, st, b, b.Succs[1])
	}
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*State, *Frame)) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.callVals(fr, st, &d.call.Call, d.fn, d.args, d.call.Pos(), func(st2 *State, fr2 *Frame, v Val) {
		x.runDefers(fr2, st2, k)
	})
}

func (x *Exec) ix(off, i *Term) *Term {
	if off.isInt() && off.ival == 0 {
		return i
	}
	x.addBaseIx()
	return x.ts.App("ix", SInt, off, i)
}

func (x *Exec) addBaseIx() {
	if x.used["ax:ix"] {
		return
	}
	ts := x.ts
	o, i := ts.BVar("o", SInt), ts.BVar("i", SInt)
	app := ts.App("ix", SInt, o, i)
	x.addBase("ix", ts.Forall([]*Term{o, i}, ts.Eq(app, ts.mk("+", SInt, o, i)), app))
}

// elemAt reads s[i] in the given heap.
func (x *Exec) elemAt(heap map[string]*Term, epoch int, elem types.Type, s, i *Term) *Term {
	d := x.memHeap(elem)
	return x.ts.Select(x.ts.Select(x.H(heap, epoch, d), x.ts.SBase(s)), x.ix(x.ts.SOff(s), i))
}

func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) {
	ts := x.ts
	switch y := in.(type) {
	case *ssa.Alloc:
		el := deref(y.Type())
		r := x.alloc(st, sanitize(y.Comment))
		p := Val{T: y.Type(), t: r}
		x.store(st, p, Val{T: el, t: x.u.Zero(el)})
		fr.env[y] = p
	case *ssa.Store:
		p := x.get(fr, y.Addr)
		x.nonnil(st, p, "store", y.Pos())
		x.guardCheck(st, p, true, y.Pos())
		x.store(st, p, x.get(fr, y.Val))
	case *ssa.UnOp:
		fr.env[y] = x.unop(fr, st, y)
	case *ssa.BinOp:
		fr.env[y] = x.binop(st, y.Op, x.get(fr, y.X), x.get(fr, y.Y), y.Type(), y.Pos())
	case *ssa.FieldAddr:
		p := x.get(fr, y.X)
		x.nonnil(st, p, "field", y.Pos())
		v := x.fieldAddr(p, y.Field)
		v.T = y.Type()
		fr.env[y] = v
	case *ssa.Field:
		s := x.get(fr, y.X)
		fr.env[y] = Val{T: y.Type(), t: x.u.FieldAcc(s.T, y.Field, x.term(s))}
	case *ssa.IndexAddr:
		b := x.get(fr, y.X)
		i := x.term(x.get(fr, y.Index))
		fr.env[y] = x.indexAddr(st, b, i, y.Type(), y.Pos())
	case *ssa.Index:
		b := x.get(fr, y.X)
		i := x.term(x.get(fr, y.Index))
		switch bt := under(b.T).(type) {
		case *types.Array:
			x.safety(st, "index-out-of-range", "", y.Pos(), ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Int(bt.Len()))))
			fr.env[y] = Val{T: y.Type(), t: ts.Select(x.term(b), i)}
		default: // string
			s := x.term(b)
			x.safety(st, "index-out-of-range", "", y.Pos(), ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, x.strLen(s))))
			fr.env[y] = Val{T: y.Type(), t: x.strAt(st, s, i)}
		}
	case *ssa.Slice:
		fr.env[y] = x.sliceOp(fr, st, y)
	case *ssa.MakeSlice:
		n := x.term(x.get(fr, y.Len))
		c := x.term(x.get(fr, y.Cap))
		x.safety(st, "makeslice-len", "", y.Pos(), ts.And(ts.Le(ts.Int(0), n), ts.Le(n, c)))
		el := under(y.Type()).(*types.Slice).Elem()
		r := x.alloc(st, "slice")
		d := x.memHeap(el)
		x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{r}}, ts.ConstArr(arr(SInt, x.u.Sort(el)), x.u.Zero(el)))
		fr.env[y] = Val{T: y.Type(), t: ts.MkSlice(r, ts.Int(0), n, c)}
	case *ssa.MakeMap:
		fr.env[y] = x.makeMap(st, y.Type())
	case *ssa.MakeChan:
		r := x.alloc(st, "chan")
		x.chanInit(st, r, x.term(x.get(fr, y.Size)))
		fr.env[y] = Val{T: y.Type(), t: r}
	case *ssa.MakeClosure:
		c := &Closure{fn: y.Fn.(*ssa.Function)}
		for _, b := range y.Bindings {
			c.binds = append(c.binds, x.get(fr, b))
		}
		r := x.alloc(st, "clo")
		x.closures[r] = c
		fr.env[y] = Val{T: y.Type(), t: r}
		if x.sf.UsesYields {
			x.closureYields(fr, st, c, r, y.Pos())
		}
	case *ssa.MakeInterface:
		v := x.get(fr, y.X)
		fr.env[y] = Val{T: y.Type(), t: x.box(v)}
	case *ssa.ChangeInterface:
		v := x.get(fr, y.X)
		v.T = y.Type()
		fr.env[y] = v
	case *ssa.ChangeType:
		v := x.get(fr, y.X)
		v = x.changeType(v, y.Type())
		fr.env[y] = v
	case *ssa.Convert:
		fr.env[y] = x.convert(st, x.get(fr, y.X), y.Type(), y.Pos())
	case *ssa.MultiConvert:
		fr.env[y] = x.convert(st, x.get(fr, y.X), y.Type(), y.Pos())
	case *ssa.Extract:
		t := x.get(fr, y.Tuple)
		if t.tup == nil {
			unsup("extract from non-tuple")
		}
		v := t.tup[y.Index]
		fr.env[y] = v
	case *ssa.Lookup:
		fr.env[y] = x.lookup(fr, st, y)
	case *ssa.MapUpdate:
		m := x.get(fr, y.Map)
		x.mapUpdate(st, m, x.get(fr, y.Key), x.get(fr, y.Value), y.Pos())
	case *ssa.Range:
		m := x.get(fr, y.X)
		if _, ok := under(m.T).(*types.Map); !ok {
			unsup("range over %s", m.T)
		}
		dom, _, _ := x.mapHeaps(m.T)
		ks, _ := arrParts(mustInner(dom.sort))
		vs := x.ghostHeap("visited|"+fr.fn.String()+"|"+y.Name(), arr(ks, SBool), 0)
		d0 := x.ghostHeap("dom0|"+fr.fn.String()+"|"+y.Name(), arr(ks, SBool), 0)
		vc := x.ghostHeap("vcount|"+fr.fn.String()+"|"+y.Name(), SInt, 0)
		x.writeHeap(st, &Addr{heap: vs.name}, ts.ConstArr(arr(ks, SBool), ts.False()))
		x.writeHeap(st, &Addr{heap: vc.name}, ts.Int(0))
		x.guardMap(st, m, false, y.Pos())
		x.writeHeap(st, &Addr{heap: d0.name}, ts.Select(x.H(st.heap, st.epoch, dom), x.term(m)))
		fr.env[y] = Val{T: m.T, t: x.term(m)}
	case *ssa.Send:
		x.chanSend(st, x.get(fr, y.Chan), x.get(fr, y.X), y.Pos())
	case *ssa.Go:
		x.goStmt(fr, st, y)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", in)
	}
}

func (x *Exec) changeType(v Val, t types.Type) Val {
	if v.addr != nil || v.t == nil {
		v.T = t
		return v
	}
	from, to := x.u.Sort(v.T), x.u.Sort(t)
	if from == to {
		return Val{T: t, t: v.t}
	}
	if _, ok := types.Unalias(v.T).(*types.TypeParam); ok && isIface(t) {
		return Val{T: t, t: x.box(v)}
	}
	// struct to structurally identical struct
	if isStruct(v.T) && isStruct(t) {
		si := x.u.structInfo(t)
		st := under(v.T).(*types.Struct)
		tt := under(t).(*types.Struct)
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			f := x.changeType(Val{T: st.Field(i).Type(), t: x.u.FieldAcc(v.T, i, v.t)}, tt.Field(i).Type())
			as = append(as, f.t)
		}
		return Val{T: t, t: x.ts.mk(si.ctor, si.name, as...)}
	}
	unsup("change type %s to %s", v.T, t)
	return v
}

func (x *Exec) box(v Val) *Term {
	if isIface(v.T) {
		return x.term(v)
	}
	if tp, ok := types.Unalias(v.T).(*types.TypeParam); ok {
		// the type argument may itself be an interface, so the result may be nil or of any type
		return x.ts.App("tpbox$"+tp.Obj().Name(), SAny, x.term(v))
	}
	if _, ok := under(v.T).(*types.Array); ok {
		return x.ts.mk("aopq", SAny, x.u.Tag(v.T), x.ts.App("arrbox$"+typeKey(v.T), "Opq", x.term(v)))
	}
	return x.u.Box(v.T, x.term(v))
}

func (x *Exec) indexAddr(st *State, b Val, i *Term, pt types.Type, pos token.Pos) Val {
	ts := x.ts
	switch bt := under(b.T).(type) {
	case *types.Slice:
		s := x.term(b)
		x.safety(st, "index-out-of-range", "", pos, ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.SLen(s))))
		d := x.memHeap(bt.Elem())
		return Val{T: pt, addr: &Addr{heap: d.name, idx: []*Term{ts.SBase(s), x.ix(ts.SOff(s), i)}, T: bt.Elem()}}
	case *types.Pointer:
		at := under(bt.Elem()).(*types.Array)
		x.safety(st, "index-out-of-range", "", pos, ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Int(at.Len()))))
		if b.addr != nil {
			a := b.addr
			return Val{T: pt, addr: &Addr{heap: a.heap, idx: a.idx, path: append(a.path[:len(a.path):len(a.path)], pathStep{T: bt.Elem(), fld: -1, idx: i}), T: at.Elem()}}
		}
		d := x.memHeap(at.Elem())
		return Val{T: pt, addr: &Addr{heap: d.name, idx: []*Term{b.t, i}, T: at.Elem()}}
	}
	unsup("index of %s", b.T)
	return Val{}
}

func (x *Exec) sliceOp(fr *Frame, st *State, y *ssa.Slice) Val {
	ts := x.ts
	b := x.get(fr, y.X)
	lo := ts.Int(0)
	if y.Low != nil {
		lo = x.term(x.get(fr, y.Low))
	}
	switch bt := under(b.T).(type) {
	case *types.Basic: // string
		s := x.term(b)
		hi := x.strLen(s)
		if y.High != nil {
			hi = x.term(x.get(fr, y.High))
		}
		x.safety(st, "slice-bounds", "", y.Pos(), ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, x.strLen(s))))
		return Val{T: y.Type(), t: x.substr(s, lo, hi)}
	case *types.Slice:
		s := x.term(b)
		hi := ts.SLen(s)
		if y.High != nil {
			hi = x.term(x.get(fr, y.High))
		}
		mx := ts.SCap(s)
		if y.Max != nil {
			mx = x.term(x.get(fr, y.Max))
		}
		x.safety(st, "slice-bounds", "", y.Pos(), ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, mx), ts.Le(mx, ts.SCap(s))))
		return Val{T: y.Type(), t: ts.MkSlice(ts.SBase(s), ts.Add(ts.SOff(s), lo), ts.Sub(hi, lo), ts.Sub(mx, lo))}
	case *types.Pointer:
		at := under(bt.Elem()).(*types.Array)
		if b.addr != nil {
			unsup("slicing an interior array")
		}
		n := ts.Int(at.Len())
		hi := n
		if y.High != nil {
			hi = x.term(x.get(fr, y.High))
		}
		x.safety(st, "slice-bounds", "", y.Pos(), ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, n)))
		return Val{T: y.Type(), t: ts.MkSlice(b.t, lo, ts.Sub(hi, lo), ts.Sub(n, lo))}
	}
	unsup("slice of %s", b.T)
	return Val{}
}

func (x *Exec) unop(fr *Frame, st *State, y *ssa.UnOp) Val {
	ts := x.ts
	v := x.get(fr, y.X)
	switch y.Op {
	case token.MUL:
		x.nonnil(st, v, "load", y.Pos())
		x.guardCheck(st, v, false, y.Pos())
		r := x.load(st.heap, st.epoch, v)
		r.T = y.Type()
		return r
	case token.NOT:
		return Val{T: y.Type(), t: ts.Not(x.term(v))}
	case token.SUB:
		if x.u.Sort(y.Type()) == SReal {
			return Val{T: y.Type(), t: ts.mk("-", SReal, x.term(v))}
		}
		return Val{T: y.Type(), t: x.wrap(y.Type(), ts.Sub(ts.Int(0), x.term(v)))}
	case token.ARROW:
		return x.chanRecv(st, v, y.CommaOk, y.Type(), y.Pos())
	case token.XOR:
		return Val{T: y.Type(), t: ts.App("bitnot", SInt, x.term(v))}
	}
	unsup("unop %s", y.Op)
	return Val{}
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, rt types.Type, pos token.Pos) Val {
	ts := x.ts
	switch op {
	case token.EQL:
		return Val{T: rt, t: x.equal(st, a, b)}
	case token.NEQ:
		return Val{T: rt, t: ts.Not(x.equal(st, a, b))}
	}
	s, t := x.term(a), x.term(b)
	isStr := x.u.Sort(a.T) == ts.SStr()
	switch op {
	case token.ADD:
		if isStr {
			return Val{T: rt, t: x.concat(s, t)}
		}
		return Val{T: rt, t: x.wrap(rt, ts.Add(s, t))}
	case token.SUB:
		return Val{T: rt, t: x.wrap(rt, ts.Sub(s, t))}
	case token.MUL:
		return Val{T: rt, t: x.wrap(rt, ts.Mul(s, t))}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			return Val{T: rt, t: x.strCmp(op, s, t)}
		}
		m := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}
		return Val{T: rt, t: ts.Cmp(m[op], s, t)}
	case token.QUO:
		if s.sort == SReal {
			return Val{T: rt, t: ts.mk("/", SReal, s, t)}
		}
		x.safety(st, "divide-by-zero", "", pos, ts.Not(ts.Eq(t, ts.Int(0))))
		return Val{T: rt, t: x.wrap(rt, x.tdiv(s, t))}
	case token.REM:
		x.safety(st, "divide-by-zero", "", pos, ts.Not(ts.Eq(t, ts.Int(0))))
		if s.isInt() && t.isInt() {
			return Val{T: rt, t: ts.Int(s.ival % t.ival)}
		}
		return Val{T: rt, t: ts.Sub(s, ts.Mul(t, x.tdiv(s, t)))}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return Val{T: rt, t: ts.App("bit"+sanitize(op.String())+fmt.Sprint(int(op)), SInt, s, t)}
	case token.SHL:
		if t.isInt() && t.ival < 62 {
			return Val{T: rt, t: x.wrap(rt, ts.Mul(s, ts.Int(1<<uint(t.ival))))}
		}
		return Val{T: rt, t: ts.App("shl", SInt, s, t)}
	case token.SHR:
		if t.isInt() && t.ival < 62 {
			return Val{T: rt, t: ts.mk("div", SInt, s, ts.Int(1<<uint(t.ival)))}
		}
		return Val{T: rt, t: ts.App("shr", SInt, s, t)}
	}
	unsup("binop %s", op)
	return Val{}
}

// tdiv is Go's truncated division.
func (x *Exec) tdiv(a, b *Term) *Term {
	ts := x.ts
	if a.isInt() && b.isInt() && b.ival != 0 {
		return ts.Int(a.ival / b.ival)
	}
	d := func(p, q *Term) *Term { return ts.mk("div", SInt, p, q) }
	neg := func(p *Term) *Term { return ts.Sub(ts.Int(0), p) }
	return ts.Ite(ts.Le(ts.Int(0), a), d(a, b), neg(d(neg(a), b)))
}

func (x *Exec) equal(st *State, a, b Val) *Term {
	ts := x.ts
	if a.addr != nil || b.addr != nil {
		if a.addr == nil && a.t.isInt() && a.t.ival == 0 || b.addr == nil && b.t.isInt() && b.t.ival == 0 {
			return ts.False()
		}
		return ts.Eq(x.term(a), x.term(b))
	}
	if isIface(a.T) && !isIface(b.T) {
		return ts.Eq(x.term(a), x.box(b))
	}
	if !isIface(a.T) && isIface(b.T) {
		return ts.Eq(x.box(a), x.term(b))
	}
	if _, ok := under(a.T).(*types.Slice); ok {
		// only comparison with nil
		if a.t.op == "mkS" && a.t.args[0].isInt() && a.t.args[0].ival == 0 {
			return ts.Eq(ts.SBase(b.t), ts.Int(0))
		}
		return ts.Eq(ts.SBase(a.t), ts.Int(0))
	}
	if isStruct(a.T) && typeKey(a.T) != typeKey(b.T) {
		b = x.changeType(b, a.T)
	}
	return ts.Eq(x.term(a), x.term(b))
}

func (x *Exec) convert(st *State, v Val, t types.Type, pos token.Pos) Val {
	ts := x.ts
	from, to := under(v.T), under(t)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			r := x.wrap(t, x.term(v))
			if ti&types.IsUnsigned != 0 && fi&types.IsUnsigned == 0 {
				if _, _, sized := intRange(tb); !sized {
					// int -> uint64
					r = ts.Ite(ts.Le(ts.Int(0), r), r, ts.Add(r, ts.BigInt("18446744073709551616")))
				}
			}
			return Val{T: t, t: r}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if x.term(v).isInt() {
				return Val{T: t, t: ts.RealLit(big.NewRat(v.t.ival, 1))}
			}
			return Val{T: t, t: ts.mk("to_real", SReal, x.term(v))}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := x.term(v)
			tr := ts.Ite(ts.Cmp("<=", ts.mk("0.0", SReal), r), ts.mk("to_int", SInt, r), ts.Sub(ts.Int(0), ts.mk("to_int", SInt, ts.mk("-", SReal, r))))
			return Val{T: t, t: x.wrap(t, tr)}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return Val{T: t, t: x.term(v)}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return Val{T: t, t: x.term(v)}
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return Val{T: t, t: ts.App("str.fromrune", ts.SStr(), x.term(v))}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok {
			s := x.term(v)
			r := x.alloc(st, "bytes")
			d := x.memHeap(sl.Elem())
			nm := "str.bytes"
			if bb, ok := under(sl.Elem()).(*types.Basic); ok && bb.Kind() == types.Int32 {
				nm = "str.runes"
			}
			x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{r}}, ts.App(nm, arr(SInt, SInt), s))
			n := x.strLen(s)
			if nm == "str.runes" {
				n = ts.App("str.nrunes", SInt, s)
				st.assume(ts.Le(ts.Int(0), n))
			}
			return Val{T: t, t: ts.MkSlice(r, ts.Int(0), n, n)}
		}
	}
	if sl, ok := from.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		s := x.term(v)
		d := x.memHeap(sl.Elem())
		c := ts.Select(x.H(st.heap, st.epoch, d), ts.SBase(s))
		nm := "str.ofbytes"
		if bb, ok := under(sl.Elem()).(*types.Basic); ok && bb.Kind() == types.Int32 {
			nm = "str.ofrunes"
		}
		// string(f(s)) for the whole converted array
		if ts.SOff(s).isInt() && ts.SOff(s).ival == 0 {
			if (c.op == "str.bytes" && nm == "str.ofbytes" || c.op == "str.runes" && nm == "str.ofrunes") && (ts.SLen(s) == x.strLen(c.args[0]) || ts.SLen(s) == ts.App("str.nrunes", SInt, c.args[0])) {
				return Val{T: t, t: c.args[0]}
			}
		}
		return Val{T: t, t: ts.App(nm, ts.SStr(), c, ts.SOff(s), ts.SLen(s))}
	}
	if x.u.Sort(v.T) == x.u.Sort(t) {
		return Val{T: t, t: v.t, addr: v.addr}
	}
	unsup("conversion %s -> %s", v.T, t)
	return Val{}
}

// ---------- strings

func (x *Exec) strLen(s *Term) *Term {
	if s.isStr {
		return x.ts.Int(int64(len(s.sval)))
	}
	return x.ts.App2("str.len", SInt, s)
}

func (ts *Terms) App2(name, ret string, args ...*Term) *Term {
	if ts.smtStr && (name == "str.len") {
		return ts.mk(name, ret, args...)
	}
	return ts.App(name, ret, args...)
}

func (x *Exec) concat(a, b *Term) *Term {
	ts := x.ts
	if a.isStr && b.isStr {
		return ts.Str(a.sval + b.sval)
	}
	if a.isStr && a.sval == "" {
		return b
	}
	if b.isStr && b.sval == "" {
		return a
	}
	if ts.smtStr {
		return ts.mk("str.++", "String", a, b)
	}
	return ts.App("str.cat", "Str", a, b)
}
func (x *Exec) strAt(st *State, s, i *Term) *Term {
	ts := x.ts
	if ts.smtStr {
		c := ts.mk("str.to_code", SInt, ts.mk("str.at", "String", s, i))
		return c
	}
	c := ts.App("str.byteat", SInt, s, i)
	st.assume(ts.And(ts.Le(ts.Int(0), c), ts.Le(c, ts.Int(255))))
	return c
}
func (x *Exec) substr(s, lo, hi *Term) *Term {
	ts := x.ts
	if ts.smtStr {
		return ts.mk("str.substr", "String", s, lo, ts.Sub(hi, lo))
	}
	if lo.isInt() && lo.ival == 0 && hi == x.strLen(s) {
		return s
	}
	return ts.App("str.sub", "Str", s, lo, hi)
}
func (x *Exec) strCmp(op token.Token, a, b *Term) *Term {
	ts := x.ts
	switch op {
	case token.GTR:
		a, b = b, a
		op = token.LSS
	case token.GEQ:
		a, b = b, a
		op = token.LEQ
	}
	if ts.smtStr {
		if op == token.LSS {
			return ts.mk("str.<", SBool, a, b)
		}
		return ts.mk("str.<=", SBool, a, b)
	}
	lt := ts.App("str.lt", SBool, a, b)
	if !x.used["ax:strlt"] {
		p, q, r := ts.BVar("p", "Str"), ts.BVar("q", "Str"), ts.BVar("r", "Str")
		pq, qr, pr, qp := ts.App("str.lt", SBool, p, q), ts.App("str.lt", SBool, q, r), ts.App("str.lt", SBool, p, r), ts.App("str.lt", SBool, q, p)
		x.baseAx = append(x.baseAx, ts.Forall([]*Term{p, q, r}, ts.Implies(ts.And(pq, qr), pr), ts.mk("@multipat", SBool, pq, qr)))
		x.baseAx = append(x.baseAx, ts.Forall([]*Term{p, q}, ts.And(ts.Not(ts.And(pq, qp)), ts.Or(pq, qp, ts.Eq(p, q))), pq))
		x.used["ax:strlt"] = true
	}
	if op == token.LSS {
		return lt
	}
	return ts.Or(lt, ts.Eq(a, b))
}

// ---------- maps

func (x *Exec) makeMap(st *State, t types.Type) Val {
	ts := x.ts
	r := x.alloc(st, "map")
	dom, _, ln := x.mapHeaps(t)
	_, ds := arrParts(dom.sort)
	x.writeHeap(st, &Addr{heap: dom.name, idx: []*Term{r}}, ts.ConstArr(ds, ts.False()))
	x.writeHeap(st, &Addr{heap: ln.name, idx: []*Term{r}}, ts.Int(0))
	return Val{T: t, t: r}
}

func (x *Exec) mapHas(heap map[string]*Term, epoch int, mt types.Type, m, k *Term) *Term {
	dom, _, _ := x.mapHeaps(mt)
	return x.ts.Select(x.ts.Select(x.H(heap, epoch, dom), m), k)
}
func (x *Exec) mapGet(heap map[string]*Term, epoch int, mt types.Type, m, k *Term) *Term {
	_, val, _ := x.mapHeaps(mt)
	return x.ts.Select(x.ts.Select(x.H(heap, epoch, val), m), k)
}

func (x *Exec) mapKey(mt types.Type, k Val) *Term {
	kt := under(mt).(*types.Map).Key()
	if isIface(kt) {
		return x.box(k)
	}
	return x.term(k)
}

func (x *Exec) lookup(fr *Frame, st *State, y *ssa.Lookup) Val {
	ts := x.ts
	m := x.get(fr, y.X)
	if _, ok := under(m.T).(*types.Map); !ok {
		s := x.term(m)
		i := x.term(x.get(fr, y.Index))
		x.safety(st, "index-out-of-range", "", y.Pos(), ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, x.strLen(s))))
		return Val{T: y.Type(), t: x.strAt(st, s, i)}
	}
	x.guardMap(st, m, false, y.Pos())
	mt := under(m.T).(*types.Map)
	k := x.mapKey(m.T, x.get(fr, y.Index))
	has := x.mapHas(st.heap, st.epoch, m.T, x.term(m), k)
	v := ts.Ite(has, x.mapGet(st.heap, st.epoch, m.T, x.term(m), k), x.u.Zero(mt.Elem()))
	if y.CommaOk {
		return Val{T: y.Type(), tup: []Val{{T: mt.Elem(), t: v}, {T: types.Typ[types.Bool], t: has}}}
	}
	return Val{T: mt.Elem(), t: v}
}

func (x *Exec) mapUpdate(st *State, m, k, v Val, pos token.Pos) {
	ts := x.ts
	r := x.term(m)
	x.nonnil(st, m, "map", pos)
	x.guardMap(st, m, true, pos)
	dom, val, ln := x.mapHeaps(m.T)
	kt := x.mapKey(m.T, k)
	has := x.mapHas(st.heap, st.epoch, m.T, r, kt)
	l := ts.Select(x.H(st.heap, st.epoch, ln), r)
	x.writeHeap(st, &Addr{heap: ln.name, idx: []*Term{r}}, ts.Ite(has, l, ts.Add(l, ts.Int(1))))
	x.writeHeap(st, &Addr{heap: dom.name, idx: []*Term{r, kt}}, ts.True())
	x.writeHeap(st, &Addr{heap: val.name, idx: []*Term{r, kt}}, x.term(v))
}

func (x *Exec) mapDelete(st *State, m, k Val, pos token.Pos) {
	ts := x.ts
	r := x.term(m)
	x.guardMap(st, m, true, pos)
	dom, _, ln := x.mapHeaps(m.T)
	kt := x.mapKey(m.T, k)
	has := x.mapHas(st.heap, st.epoch, m.T, r, kt)
	l := ts.Select(x.H(st.heap, st.epoch, ln), r)
	x.writeHeap(st, &Addr{heap: ln.name, idx: []*Term{r}}, ts.Ite(has, ts.Sub(l, ts.Int(1)), l))
	x.writeHeap(st, &Addr{heap: dom.name, idx: []*Term{r, kt}}, ts.False())
}

func (x *Exec) mapNext(fr *Frame, st *State, y *ssa.Next, k func(*State, *Frame)) {
	ts := x.ts
	if y.IsString {
		unsup("range over string")
	}
	rg := y.Iter.(*ssa.Range)
	m := x.get(fr, rg)
	mt := under(m.T).(*types.Map)
	x.guardMap(st, m, false, y.Pos())
	dom, _, ln := x.mapHeaps(m.T)
	vname := "G|visited|" + fr.fn.String() + "|" + rg.Name()
	d0name := "G|dom0|" + fr.fn.String() + "|" + rg.Name()
	cname := "G|vcount|" + fr.fn.String() + "|" + rg.Name()
	cnt := x.H(st.heap, st.epoch, x.heaps[cname])
	vis := x.H(st.heap, st.epoch, x.heaps[vname])
	d0 := x.H(st.heap, st.epoch, x.heaps[d0name])
	now := ts.Select(x.H(st.heap, st.epoch, dom), x.term(m))
	ks := x.u.Sort(mt.Key())
	// done
	st1, fr1 := st.fork(), fr.clone()
	q := ts.BVar("k", ks)
	st1.assume(ts.Forall([]*Term{q}, ts.Implies(ts.And(ts.Select(d0, q), ts.Select(now, q)), ts.Select(vis, q)), ts.Select(now, q)))
	// every key of a map that did not change was visited once
	st1.assume(ts.Implies(ts.Eq(d0, now), ts.Eq(cnt, ts.Select(x.H(st.heap, st.epoch, ln), x.term(m)))))
	fr1.env[y] = Val{T: y.Type(), tup: []Val{{T: types.Typ[types.Bool], t: ts.False()}, {T: mt.Key(), t: x.u.Zero(mt.Key())}, {T: mt.Elem(), t: x.u.Zero(mt.Elem())}}}
	st1.trace = append(st1.trace, "map iteration done")
	// one more
	key := x.fresh(st, "key", mt.Key())
	st.assume(ts.Select(now, key.t))
	st.assume(ts.Not(ts.Select(vis, key.t)))
	x.writeHeap(st, &Addr{heap: vname, idx: nil}, ts.Store(vis, key.t, ts.True()))
	x.writeHeap(st, &Addr{heap: cname, idx: nil}, ts.Add(cnt, ts.Int(1)))
	v := x.mapGet(st.heap, st.epoch, m.T, x.term(m), key.t)
	fr.env[y] = Val{T: y.Type(), tup: []Val{{T: types.Typ[types.Bool], t: ts.True()}, key, {T: mt.Elem(), t: v}}}
	x.npaths++
	if x.feasible(st, ts.True()) {
		k(st, fr)
	}
	k(st1, fr1)
}

// ---------- type assertions

func (x *Exec) implName(t types.Type) string {
	n := "impl$" + typeKey(t)
	x.implQ[n] = t
	return n
}

func (x *Exec) hasType(v *Term, t types.Type) *Term {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return x.ts.App("is$"+tp.Obj().Name(), SBool, v)
	}
	if isIface(t) {
		it := under(t).(*types.Interface)
		nn := x.ts.Not(x.ts.Eq(v, x.ts.mk("anil", SAny)))
		if it.NumMethods() == 0 {
			return nn
		}
		tg := x.u.TagOf(v)
		if tg.isInt() {
			if tg.ival == 0 {
				return x.ts.False()
			}
			return x.ts.Bool(types.Implements(x.u.tagTyp[int(tg.ival)], it))
		}
		return x.ts.And(nn, x.ts.App(x.implName(t), SBool, tg))
	}
	return x.u.IsType(t, v)
}

// typeAssert handles y; returns true when it took over control.
func (x *Exec) typeAssert(fr *Frame, st *State, y *ssa.TypeAssert, k func(*State, *Frame)) bool {
	ts := x.ts
	v := x.get(fr, y.X)
	a := x.term(v)
	if tp, ok := types.Unalias(y.X.Type()).(*types.TypeParam); ok {
		_ = tp
		unsup("assert on type parameter")
	}
	var ok *Term
	var res *Term
	if tp, isTP := types.Unalias(y.AssertedType).(*types.TypeParam); isTP {
		_ = tp
		// the asserted type parameter may be an interface or a concrete type: an uninterpreted predicate decides
		ok = ts.App("is$"+tp.Obj().Name(), SBool, a)
		res = ts.App("as$"+tp.Obj().Name(), "Opq", a)
	} else if isIface(y.AssertedType) {
		ok = x.hasType(a, y.AssertedType)
		res = a
	} else {
		ok = x.u.IsType(y.AssertedType, a)
		res = x.u.Unbox(y.AssertedType, a)
	}
	if !y.CommaOk {
		x.safety(st, "type-assertion", "", y.Pos(), ok)
		fr.env[y] = Val{T: y.AssertedType, t: res}
		return false
	}
	zero := x.u.Zero(y.AssertedType)
	mk := func(f *Frame, okT, r *Term) {
		f.env[y] = Val{T: y.Type(), tup: []Val{{T: y.AssertedType, t: r}, {T: types.Typ[types.Bool], t: okT}}}
	}
	if ok.isTrue() {
		mk(fr, ok, res)
		return false
	}
	if ok.isFalse() {
		mk(fr, ok, zero)
		return false
	}
	// no fork: the result is an ite only when needed; the branch on ok follows
	mk(fr, ok, ts.Ite(ok, res, zero))
	return false
}

var _ = strings.Join
