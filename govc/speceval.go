package main

// Evaluation of contract expressions to SMT terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// MathMap is the specification-only total map type gmap[K]V.
type MathMap struct{ K, V types.Type }

func (m *MathMap) Underlying() types.Type { return m }
func (m *MathMap) String() string         { return "gmap[" + m.K.String() + "]" + m.V.String() }

type SpecEnv struct {
	x       *Exec
	heap    map[string]*Term
	ep      int
	next    *Term
	old     *Snap
	vars    map[string]Val
	pkg     string
	k       *Term // iteration counter
	vis     map[string]*Term
	depth   int
	preNext *Term
}

func (e *SpecEnv) with(n string, v Val) *SpecEnv {
	c := *e
	c.vars = make(map[string]Val, len(e.vars)+1)
	for k, q := range e.vars {
		c.vars[k] = q
	}
	c.vars[n] = v
	return &c
}

func (e *SpecEnv) inOld() *SpecEnv {
	if e.old == nil {
		unsup("old() not available here")
	}
	c := *e
	c.heap, c.ep, c.next = e.old.heap, e.old.epoch, e.old.next
	return &c
}

func specSort(x *Exec, t types.Type) string {
	if m, ok := t.(*MathMap); ok {
		return arr(specSort(x, m.K), specSort(x, m.V))
	}
	return x.u.Sort(t)
}

func (e *SpecEnv) typ(t *TExpr) types.Type { return e.x.eng.resolveType(e.x.sf, t, e.pkg, e.x.topFn) }

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]
var tAny types.Type = types.NewInterfaceType(nil, nil)

func (e *SpecEnv) Bool(ex *Expr) *Term {
	v := e.Eval(ex)
	t := e.x.term(v)
	if t.sort != SBool {
		unsup("contract expression is not boolean: %s", ex.Src)
	}
	return t
}

func (e *SpecEnv) field(v Val, name string) Val {
	x := e.x
	t := v.T
	if p := deref(t); p != nil {
		path, ft := findField(p, name)
		if path == nil {
			unsup("no field %s in %s", name, t)
		}
		cur := v
		for n, i := range path {
			a := x.fieldAddr(cur, i)
			last := n == len(path)-1
			if last {
				r := x.load(e.heap, e.ep, a)
				r.T = ft
				return r
			}
			if isPtr(deref(a.T)) {
				cur = x.load(e.heap, e.ep, a)
			} else {
				cur = a
			}
		}
	}
	if isStruct(t) {
		path, ft := findField(t, name)
		if path == nil {
			unsup("no field %s in %s", name, t)
		}
		cur := v
		for _, i := range path {
			if isPtr(cur.T) {
				a := x.fieldAddr(cur, i)
				cur = x.load(e.heap, e.ep, a)
			} else {
				st := under(cur.T).(*types.Struct)
				cur = Val{T: st.Field(i).Type(), t: x.u.FieldAcc(cur.T, i, x.term(cur))}
			}
		}
		cur.T = ft
		return cur
	}
	unsup("field %s of %s", name, t)
	return Val{}
}

func findField(t types.Type, name string) ([]int, types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if v, ok := obj.(*types.Var); ok {
		return idx, v.Type()
	}
	// unexported: search with package
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		if v, ok := obj.(*types.Var); ok {
			return idx, v.Type()
		}
	}
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}, st.Field(i).Type()
			}
		}
	}
	return nil, nil
}

// addrOf resolves an lvalue expression to an address (for modifies, held, guards).
func (e *SpecEnv) addrOf(ex *Expr) *Addr {
	x := e.x
	switch ex.Kind {
	case "sel":
		base := e.Eval(ex.A[0])
		if p := deref(base.T); p != nil {
			path, _ := findField(p, ex.S)
			if path == nil {
				unsup("no field %s", ex.S)
			}
			cur := base
			for n, i := range path {
				a := x.fieldAddr(cur, i)
				if n == len(path)-1 {
					return a.addr
				}
				if isPtr(deref(a.T)) {
					cur = x.load(e.heap, e.ep, a)
				} else {
					cur = a
				}
			}
		}
	case "un":
		if ex.S == "*" {
			v := e.Eval(ex.A[0])
			return x.toAddr(v)
		}
	}
	unsup("not an lvalue: %s", ex.Src)
	return nil
}

func (e *SpecEnv) coerce(a, b Val) (Val, Val) {
	x := e.x
	// untyped nil
	an, bn := a.T == nil, b.T == nil
	if an && bn {
		return Val{T: tInt, t: x.ts.Int(0)}, Val{T: tInt, t: x.ts.Int(0)}
	}
	if an {
		a = Val{T: b.T, t: e.nilOf(b)}
	}
	if bn {
		b = Val{T: a.T, t: e.nilOf(a)}
	}
	if x.sortOf(a) != x.sortOf(b) {
		as, bs := x.sortOf(a), x.sortOf(b)
		switch {
		case as == SAny:
			b = Val{T: a.T, t: x.box(b)}
		case bs == SAny:
			a = Val{T: b.T, t: x.box(a)}
		case as == SInt && bs == SReal:
			a = Val{T: b.T, t: x.ts.mk("to_real", SReal, a.t)}
		case as == SReal && bs == SInt:
			b = Val{T: a.T, t: x.ts.mk("to_real", SReal, b.t)}
		}
	}
	return a, b
}

func (x *Exec) sortOf(v Val) string {
	if v.t != nil {
		return v.t.sort
	}
	if v.addr != nil {
		return SInt
	}
	return "?"
}

func (e *SpecEnv) nilOf(v Val) *Term {
	if _, ok := v.T.(*MathMap); ok {
		unsup("nil gmap")
	}
	return e.x.u.Zero(v.T)
}

func (e *SpecEnv) Eval(ex *Expr) Val {
	x := e.x
	ts := x.ts
	switch ex.Kind {
	case "int":
		return Val{T: tInt, t: ts.BigInt(ex.S)}
	case "real":
		r, _ := new(big.Rat).SetString(ex.S)
		return Val{T: types.Typ[types.Float64], t: ts.RealLit(r)}
	case "str":
		return Val{T: tString, t: ts.Str(ex.S)}
	case "bool":
		return Val{T: tBool, t: ts.Bool(ex.S == "true")}
	case "nil":
		return Val{}
	case "ident":
		if v, ok := e.vars[ex.S]; ok {
			return v
		}
		switch ex.S {
		case "$k":
			if e.k == nil {
				unsup("$k outside a loop")
			}
			return Val{T: tInt, t: e.k}
		case "$next":
			return Val{T: tInt, t: e.next}
		}
		if strings.HasPrefix(ex.S, "$visited") && e.vis != nil {
			if v, ok := e.vis[ex.S]; ok {
				return Val{T: &MathMap{K: tAny, V: tBool}, t: v}
			}
			unsup("%s not available", ex.S)
		}
		for _, g := range x.sf.Ghosts {
			if g.Name == ex.S {
				t := e.typ(g.T)
				d := x.ghostHeap("user|"+g.Name, specSort(x, t), 0)
				return Val{T: t, t: x.H(e.heap, e.ep, d)}
			}
		}
		if d, ok := x.sf.Defines[ex.S]; ok && len(d.Params) == 0 {
			return e.applyDefine(d, nil)
		}
		if v, ok := e.global(e.pkg, ex.S); ok {
			return v
		}
		unsup("unknown name %q in contract", ex.S)
	case "sel":
		if ex.A[0].Kind == "ident" {
			if _, isVar := e.vars[ex.A[0].S]; !isVar {
				if p, ok := x.sf.Alias[ex.A[0].S]; ok {
					if v, ok := e.global(p, ex.S); ok {
						return v
					}
					unsup("no global %s.%s", ex.A[0].S, ex.S)
				}
			}
		}
		return e.field(e.Eval(ex.A[0]), ex.S)
	case "un":
		v := Val{}
		if ex.S != "&" {
			v = e.Eval(ex.A[0])
		}
		switch ex.S {
		case "!":
			return Val{T: tBool, t: ts.Not(x.term(v))}
		case "-":
			if v.t.sort == SReal {
				return Val{T: v.T, t: ts.mk("-", SReal, v.t)}
			}
			return Val{T: v.T, t: ts.Sub(ts.Int(0), v.t)}
		case "*":
			r := x.load(e.heap, e.ep, v)
			return r
		case "&":
			a := e.addrOf(ex.A[0])
			return Val{T: types.NewPointer(a.T), addr: a}
		}
	case "bin":
		return e.bin(ex)
	case "let":
		return e.with(ex.S, e.Eval(ex.A[0])).Eval(ex.A[1])
	case "quant":
		c := e
		var vars []*Term
		guard := []*Term{}
		for _, q := range ex.Vars {
			t := e.typ(q.T)
			bv := ts.BVar(q.Name, specSort(x, t))
			vars = append(vars, bv)
			c = c.with(q.Name, Val{T: t, t: bv})
			_ = guard
		}
		body := c.Bool(ex.A[0])
		var pats []*Term
		for _, p := range ex.Pats {
			var ps []*Term
			for _, q := range p {
				ps = append(ps, x.term(c.Eval(q)))
			}
			if len(ps) == 1 {
				pats = append(pats, ps[0])
			} else {
				pats = append(pats, ts.mk("@multipat", SBool, ps...))
			}
		}
		// ite at top of patterns is not allowed; drop such patterns
		var okp []*Term
		for _, p := range pats {
			if !hasOp(p, "ite") && !hasOp(p, "and") && !hasOp(p, "not") {
				okp = append(okp, p)
			}
		}
		if ex.S == "forall" {
			return Val{T: tBool, t: ts.Forall(vars, body, okp...)}
		}
		return Val{T: tBool, t: ts.Quant("exists", vars, okp, body)}
	case "idx":
		b := e.Eval(ex.A[0])
		return e.index(b, e.Eval(ex.A[1]))
	case "upd":
		b := e.Eval(ex.A[0])
		i := e.Eval(ex.A[1])
		v := e.Eval(ex.A[2])
		mm, ok := b.T.(*MathMap)
		if !ok {
			unsup("update of non-gmap")
		}
		return Val{T: mm, t: ts.Store(b.t, e.as(i, mm.K), e.as(v, mm.V))}
	case "assert":
		v := e.Eval(ex.A[0])
		t := e.typ(ex.T)
		if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
			return Val{T: t, t: x.ts.App("as$"+tp.Obj().Name(), "Opq", x.term(v))}
		}
		if isIface(t) {
			return Val{T: t, t: x.term(v)}
		}
		return Val{T: t, t: x.u.Unbox(t, x.term(v))}
	case "call":
		return e.call(ex)
	}
	unsup("cannot evaluate contract expression %s (%s)", ex.Src, ex.Kind)
	return Val{}
}

func hasOp(t *Term, op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if hasOp(a, op) {
			return true
		}
	}
	return false
}

// as coerces v to type t (boxing when needed).
func (e *SpecEnv) as(v Val, t types.Type) *Term {
	if v.T == nil {
		return e.x.u.Zero(t)
	}
	want := specSort(e.x, t)
	if want == SAny && e.x.sortOf(v) != SAny {
		return e.x.box(v)
	}
	tm := e.x.term(v)
	if want == SReal && tm.sort == SInt {
		return e.x.ts.mk("to_real", SReal, tm)
	}
	if tm.sort != want {
		unsup("contract type mismatch: %s where %s (%s) is wanted", tm.sort, want, t)
	}
	return tm
}

func (e *SpecEnv) index(b, i Val) Val {
	x := e.x
	ts := x.ts
	if mm, ok := b.T.(*MathMap); ok {
		if ks, _ := arrParts(b.t.sort); ks != SAny {
			if mm.K == tAny { // $visited
				return Val{T: mm.V, t: ts.Select(b.t, x.term(i))}
			}
		}
		return Val{T: mm.V, t: ts.Select(b.t, e.as(i, mm.K))}
	}
	switch bt := under(b.T).(type) {
	case *types.Slice:
		return Val{T: bt.Elem(), t: x.elemAt(e.heap, e.ep, bt.Elem(), x.term(b), x.term(i))}
	case *types.Map:
		k := e.as(i, bt.Key())
		return Val{T: bt.Elem(), t: x.mapGet(e.heap, e.ep, b.T, x.term(b), k)}
	case *types.Array:
		return Val{T: bt.Elem(), t: ts.Select(x.term(b), x.term(i))}
	case *types.Basic:
		if ts.smtStr {
			return Val{T: types.Typ[types.Byte], t: ts.mk("str.to_code", SInt, ts.mk("str.at", "String", x.term(b), x.term(i)))}
		}
		return Val{T: types.Typ[types.Byte], t: ts.App("str.byteat", SInt, x.term(b), x.term(i))}
	}
	unsup("index of %s", b.T)
	return Val{}
}

func (e *SpecEnv) bin(ex *Expr) Val {
	x := e.x
	ts := x.ts
	switch ex.S {
	case "&&", "||", "==>", "<==>":
		a := e.Bool(ex.A[0])
		// short-circuit helps partial definitions
		if ex.S == "&&" && a.isFalse() {
			return Val{T: tBool, t: a}
		}
		if ex.S == "==>" && a.isFalse() {
			return Val{T: tBool, t: ts.True()}
		}
		if ex.S == "||" && a.isTrue() {
			return Val{T: tBool, t: a}
		}
		b := e.Bool(ex.A[1])
		switch ex.S {
		case "&&":
			return Val{T: tBool, t: ts.And(a, b)}
		case "||":
			return Val{T: tBool, t: ts.Or(a, b)}
		case "==>":
			return Val{T: tBool, t: ts.Implies(a, b)}
		}
		return Val{T: tBool, t: ts.Eq(a, b)}
	}
	a, b := e.Eval(ex.A[0]), e.Eval(ex.A[1])
	if ex.S == "==" || ex.S == "!=" {
		// slice == nil
		var r *Term
		if a.T != nil && b.T == nil && isSliceT(a.T) {
			r = ts.Eq(ts.SBase(x.term(a)), ts.Int(0))
		} else if b.T != nil && a.T == nil && isSliceT(b.T) {
			r = ts.Eq(ts.SBase(x.term(b)), ts.Int(0))
		} else {
			a, b = e.coerce(a, b)
			r = ts.Eq(x.term(a), x.term(b))
		}
		if ex.S == "!=" {
			r = ts.Not(r)
		}
		return Val{T: tBool, t: r}
	}
	a, b = e.coerce(a, b)
	s, t := x.term(a), x.term(b)
	switch ex.S {
	case "<", "<=", ">", ">=":
		if s.sort == ts.SStr() {
			op := map[string]int{"<": 40, "<=": 44, ">": 41, ">=": 45}[ex.S]
			_ = op
			unsup("string comparison in contract")
		}
		return Val{T: tBool, t: ts.Cmp(ex.S, s, t)}
	case "+":
		if s.sort == ts.SStr() {
			return Val{T: a.T, t: x.concat(s, t)}
		}
		return Val{T: a.T, t: ts.Add(s, t)}
	case "-":
		return Val{T: a.T, t: ts.Sub(s, t)}
	case "*":
		return Val{T: a.T, t: ts.Mul(s, t)}
	case "/":
		if s.sort == SReal {
			return Val{T: a.T, t: ts.mk("/", SReal, s, t)}
		}
		return Val{T: a.T, t: ts.mk("div", SInt, s, t)}
	case "%":
		return Val{T: a.T, t: ts.mk("mod", SInt, s, t)}
	}
	unsup("operator %s", ex.S)
	return Val{}
}

func isSliceT(t types.Type) bool {
	if _, ok := t.(*MathMap); ok {
		return false
	}
	_, ok := under(t).(*types.Slice)
	return ok
}

func (e *SpecEnv) call(ex *Expr) Val {
	x := e.x
	ts := x.ts
	fn := ex.A[0]
	args := ex.A[1:]
	if fn.Kind == "ident" {
		switch fn.S {
		case "len":
			v := e.Eval(args[0])
			switch under(v.T).(type) {
			case *types.Slice:
				return Val{T: tInt, t: ts.SLen(x.term(v))}
			case *types.Map:
				_, _, ln := x.mapHeaps(v.T)
				x.mapLenFact(e.heap, e.ep, v.T, x.term(v))
				return Val{T: tInt, t: ts.Select(x.H(e.heap, e.ep, ln), x.term(v))}
			case *types.Basic:
				return Val{T: tInt, t: x.strLen(x.term(v))}
			}
			unsup("len of %s", v.T)
		case "cap":
			v := e.Eval(args[0])
			return Val{T: tInt, t: ts.SCap(x.term(v))}
		case "base":
			v := e.Eval(args[0])
			return Val{T: tInt, t: ts.SBase(x.term(v))}
		case "offset":
			v := e.Eval(args[0])
			return Val{T: tInt, t: ts.SOff(x.term(v))}
		case "old":
			return e.inOld().Eval(args[0])
		case "in":
			k, m := e.Eval(args[0]), e.Eval(args[1])
			mt := under(m.T).(*types.Map)
			return Val{T: tBool, t: x.mapHas(e.heap, e.ep, m.T, x.term(m), e.as(k, mt.Key()))}
		case "is":
			v := e.Eval(args[0])
			return Val{T: tBool, t: x.hasType(x.term(v), e.typ(ex.T))}
		case "typetag":
			return Val{T: tInt, t: x.u.Tag(e.typ(ex.T))}
		case "tagof":
			return Val{T: tInt, t: x.u.TagOf(x.term(e.Eval(args[0])))}
		case "box":
			// box(T, e)
			t := e.typ(ex.T)
			if len(args) == 0 {
				unsup("box")
			}
			v := e.Eval(args[0])
			if v.T == nil {
				return Val{T: tAny, t: x.box(Val{T: t, t: x.u.Zero(t)})}
			}
			return Val{T: tAny, t: x.box(Val{T: t, t: e.as(v, t)})}
		case "any":
			v := e.Eval(args[0])
			if v.T == nil {
				return Val{T: tAny, t: ts.mk("anil", SAny)}
			}
			return Val{T: tAny, t: x.box(v)}
		case "zero":
			t := e.typ(ex.T)
			return Val{T: t, t: x.u.Zero(t)}
		case "ite":
			c := e.Bool(args[0])
			a, b := e.coerce(e.Eval(args[1]), e.Eval(args[2]))
			return Val{T: a.T, t: ts.Ite(c, x.term(a), x.term(b))}
		case "fresh":
			v := e.Eval(args[0])
			t := x.term(v)
			if t.sort == SSlice {
				t = ts.SBase(t)
			} else if t.sort == SAny {
				t = ts.Acc("aref.v", "aref", 1, SInt, t)
			}
			return Val{T: tBool, t: ts.Le(e.old.next, t)}
		case "foreign":
			// foreign(s): not memory the function under verification has allocated itself so far
			v := e.Eval(args[0])
			t := x.term(v)
			if t.sort == SSlice {
				t = ts.SBase(t)
			}
			return Val{T: tBool, t: ts.Or(ts.Lt(t, x.entry.next), ts.Le(e.old.next, t))}
		case "allocated":
			v := e.Eval(args[0])
			t := x.term(v)
			if t.sort == SSlice {
				t = ts.SBase(t)
			}
			return Val{T: tBool, t: ts.And(ts.Lt(ts.Int(0), t), ts.Lt(t, e.next))}
		case "ref":
			v := e.Eval(args[0])
			t := x.term(v)
			if t.sort == SAny {
				t = ts.Acc("aref.v", "aref", 1, SInt, t)
			}
			return Val{T: tInt, t: t}
		case "held":
			// held(x.mu): 0 free, 1 read, 2 write
			a := e.addrOf(args[0])
			d := x.lockHeap(a)
			return Val{T: tInt, t: ts.Select(x.H(e.heap, e.ep, d), a.idx[0])}
		case "chan_sends", "chan_recvs", "chan_len", "chan_cap", "chan_closed":
			v := e.Eval(args[0])
			d := x.ghostHeap(fn.S, arr(SInt, SInt), 1)
			return Val{T: tInt, t: ts.Select(x.H(e.heap, e.ep, d), x.term(v))}
		case "chan_sent", "chan_recvd":
			v := e.Eval(args[0])
			el := under(v.T).(*types.Chan).Elem()
			d := x.chanLog(fn.S, el)
			i := x.term(e.Eval(args[1]))
			return Val{T: el, t: ts.Select(ts.Select(x.H(e.heap, e.ep, d), x.term(v)), i)}
		case "ctxDone":
			// how often this call has seen the context's Done channel ready
			v := e.Eval(args[0])
			d := x.ghostHeap("chan_recvs", arr(SInt, SInt), 1)
			return Val{T: tInt, t: ts.Select(x.H(e.heap, e.ep, d), ts.App("ctx.Done", SInt, x.term(v)))}
		case "calls":
			v := e.Eval(args[0])
			d := x.ghostHeap("calls", arr(SInt, SInt), 1)
			return Val{T: tInt, t: ts.Select(x.H(e.heap, e.ep, d), x.term(v))}
		case "ghostv":
			// ghostv("name", idx): integer ghost array
			d := x.ghostHeap(args[0].S, arr(SInt, SInt), 1)
			i := e.Eval(args[1])
			return Val{T: tInt, t: ts.Select(x.H(e.heap, e.ep, d), x.term(i))}
		case "acquires":
			d := x.ghostHeap("acquires", SInt, 0)
			return Val{T: tInt, t: x.H(e.heap, e.ep, d)}
		case "yields":
			// yields(f, i): the i-th result (as any) that every call of the function value f returns
			v := e.Eval(args[0])
			n, err := strconv.Atoi(args[1].S)
			if err != nil {
				unsup("yields: constant index expected")
			}
			return Val{T: types.NewInterfaceType(nil, nil), t: ts.App(fmt.Sprintf("yields%d", n), x.u.Sort(tAny), x.term(v))}
		case "closure":
			// closure(v, "suffix"): v is a closure of a function whose name ends in suffix
			v := e.Eval(args[0])
			c := x.closures[x.term(v)]
			return Val{T: tBool, t: ts.Bool(c != nil && strings.HasSuffix(c.fn.String(), args[1].S))}
		case "captured":
			v := e.Eval(args[0])
			c := x.closures[x.term(v)]
			if c == nil {
				unsup("captured() of an unknown function value")
			}
			name := args[1].S
			for i, fv := range c.fn.FreeVars {
				if fv.Name() == name {
					return c.binds[i]
				}
			}
			n, err := strconv.Atoi(name)
			if err == nil && n < len(c.binds) {
				return c.binds[n]
			}
			unsup("no captured variable %s", name)
		case "fnid":
			v := e.Eval(args[0])
			return Val{T: tInt, t: x.term(v)}
		case "fnname":
			f := x.eng.findFunc(resolveKey(x.sf, args[0].S, e.pkg))
			if f == nil {
				unsup("fnname: no function %s", args[0].S)
			}
			return x.funcVal(f)
		case "int", "int64", "float64", "real":
			v := e.Eval(args[0])
			if fn.S == "real" || fn.S == "float64" {
				if v.t.sort == SInt {
					return Val{T: types.Typ[types.Float64], t: ts.mk("to_real", SReal, v.t)}
				}
				return v
			}
			return Val{T: v.T, t: v.t}
		case "substr":
			// substr(s, lo, hi)
			v := x.term(e.Eval(args[0]))
			return Val{T: tString, t: x.substr(v, x.term(e.Eval(args[1])), x.term(e.Eval(args[2])))}
		case "upper":
			return Val{T: tString, t: ts.App("str.upper", ts.SStr(), x.term(e.Eval(args[0])))}
		case "smt":
			// smt("op", "Sort", args...)
			var as []*Term
			for _, a := range args[2:] {
				as = append(as, x.term(e.Eval(a)))
			}
			var t types.Type = tInt
			switch args[1].S {
			case SBool:
				t = tBool
			case "String", "Str":
				t = tString
			}
			srt := args[1].S
			if len(as) == 0 {
				return Val{T: t, t: ts.mk(args[0].S, srt)}
			}
			return Val{T: t, t: ts.mk(args[0].S, srt, as...)}
		}
		if d, ok := x.sf.Defines[fn.S]; ok {
			var vs []Val
			for _, a := range args {
				vs = append(vs, e.Eval(a))
			}
			return e.applyDefine(d, vs)
		}
		unsup("unknown contract function %s", fn.S)
	}
	unsup("call in contract: %s", ex.Src)
	return Val{}
}

func (e *SpecEnv) applyDefine(d *Define, vs []Val) Val {
	x := e.x
	if len(vs) != len(d.Params) {
		unsup("%s: want %d arguments, got %d", d.Name, len(d.Params), len(vs))
	}
	ce := *e
	ce.pkg = d.Pkg
	rt := ce.typ(d.Ret)
	if d.Body == nil {
		var as []*Term
		for i, v := range vs {
			as = append(as, e.as(v, ce.typ(d.Params[i].T)))
		}
		return Val{T: rt, t: x.ts.App("u."+d.Name, specSort(x, rt), as...)}
	}
	ce.vars = map[string]Val{}
	for i, v := range vs {
		pt := ce.typ(d.Params[i].T)
		if v.addr != nil {
			ce.vars[d.Params[i].Name] = v
			continue
		}
		tm := e.as(v, pt)
		ce.vars[d.Params[i].Name] = Val{T: pt, t: tm}
	}
	ce.depth++
	if ce.depth > 40 {
		unsup("recursive define %s", d.Name)
	}
	r := ce.Eval(d.Body)
	if r.T == nil {
		return Val{T: rt, t: x.u.Zero(rt)}
	}
	if specSort(x, rt) == SAny && x.sortOf(r) != SAny {
		return Val{T: rt, t: x.box(r)}
	}
	r.T = rt
	return r
}

// global resolves a package-level variable, constant or function.
func (e *SpecEnv) global(pkg, name string) (Val, bool) {
	x := e.x
	p := x.eng.pkgByPath(pkg)
	if p == nil {
		return Val{}, false
	}
	o := p.Scope().Lookup(name)
	switch y := o.(type) {
	case *types.Const:
		return Val{T: y.Type(), t: x.constTerm(y.Val(), y.Type(), x.ts)}, true
	case *types.Var:
		n := "GL|" + pkg + "." + name
		d := x.declHeap(&heapDecl{name: n, sort: x.u.Sort(y.Type()), nidx: 0, elem: y.Type(), kind: "GL"})
		return Val{T: y.Type(), t: x.H(e.heap, e.ep, d)}, true
	case *types.Func:
		f := x.prog.FuncValue(y)
		if f != nil {
			return x.funcVal(f), true
		}
	}
	return Val{}, false
}

var _ = fmt.Sprint
