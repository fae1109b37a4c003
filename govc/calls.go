package main

// Calls: contracts, inlining, built-in models of locks, channels and atomics.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cont = func(*State, *Frame, Val)

func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, site ssa.Instruction, pos token.Pos, k cont) {
	var fn Val
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var args []Val
		for _, a := range c.Args {
			args = append(args, x.get(fr, a))
		}
		x.builtin(fr, st, b.Name(), args, c.Signature(), pos, k)
		return
	}
	fn = x.get(fr, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	x.callVals(fr, st, c, fn, args, pos, k)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) mkResult(sig *types.Signature, rs []Val) Val {
	switch len(rs) {
	case 0:
		return Val{T: types.NewTuple(), tup: []Val{}}
	case 1:
		return rs[0]
	}
	return Val{T: sig.Results(), tup: rs}
}

func (x *Exec) callVals(fr *Frame, st *State, c *ssa.CallCommon, fn Val, args []Val, pos token.Pos, k cont) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		x.builtin(fr, st, b.Name(), args, c.Signature(), pos, k)
		return
	}
	if c.IsInvoke() {
		x.invoke(fr, st, fn, c.Method, args, pos, k)
		return
	}
	if sf := c.StaticCallee(); sf != nil && fn.t != nil {
		if cl, ok := x.closures[fn.t]; ok {
			x.callFn(fr, st, cl.fn, append(append([]Val{}, args...)), cl.binds, pos, k)
			return
		}
		x.callFn(fr, st, sf, args, nil, pos, k)
		return
	}
	// dynamic function value
	if cl, ok := x.closures[fn.t]; ok {
		x.callFn(fr, st, cl.fn, args, cl.binds, pos, k)
		return
	}
	x.nonnil(st, fn, "call", pos)
	key := "functype " + x.funcTypeKey(fn.T)
	con := x.sf.Contracts[key]
	if con == nil {
		for _, kk := range []string{"functype " + types.TypeString(fn.T, func(p *types.Package) string { return p.Path() })} {
			con = x.sf.Contracts[kk]
		}
	}
	// ghost call counter
	d := x.ghostHeap("calls", arr(SInt, SInt), 1)
	n := x.ts.Select(x.H(st.heap, st.epoch, d), fn.t)
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{fn.t}}, x.ts.Add(n, x.ts.Int(1)))
	if con == nil {
		unsup("call through unknown function value of type %s without contract", fn.T)
	}
	x.useContract(fr, st, con, c.Signature(), append([]Val{fn}, args...), pos, k)
}

func (x *Exec) funcTypeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return "any"
}

func (x *Exec) invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, pos token.Pos, k cont) {
	a := x.term(recv)
	x.safetyNonNilIface(st, a, pos)
	tg := x.u.TagOf(a)
	if !tg.isInt() {
		// decided earlier on the path?
		for n, t := range x.u.tagTyp {
			q := x.u.IsType(t, a)
			for i := len(st.pc) - 1; i >= 0; i-- {
				if st.pc[i] == q || st.pc[i].op == "and" && q.op == "and" && containsAll(st.pc[i].args, q.args) {
					tg = x.ts.Int(int64(n))
				}
			}
		}
	}
	if tg.isInt() && tg.ival > 0 {
		ct := x.u.tagTyp[int(tg.ival)]
		sel := x.prog.MethodSets.MethodSet(ct).Lookup(m.Pkg(), m.Name())
		if sel != nil {
			f := x.prog.MethodValue(sel)
			r := Val{T: ct, t: x.u.Unbox(ct, a)}
			x.callFn(fr, st, f, append([]Val{r}, args...), nil, pos, k)
			return
		}
	}
	con := x.ifaceContract(recv.T, m)
	if con == nil {
		if x.builtinInvoke(fr, st, recv, m, args, pos, k) {
			return
		}
		unsup("interface method %s without contract", m.FullName())
	}
	x.useContract(fr, st, con, m.Type().(*types.Signature), append([]Val{recv}, args...), pos, k)
}

func containsAll(a, b []*Term) bool {
	for _, q := range b {
		ok := false
		for _, p := range a {
			if p == q {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (x *Exec) ifaceContract(t types.Type, m *types.Func) *Contract {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if c, ok := x.sf.Contracts["("+n.Obj().Pkg().Path()+"."+n.Obj().Name()+")."+m.Name()]; ok {
			return c
		}
	}
	if c, ok := x.sf.Contracts[m.FullName()]; ok {
		return c
	}
	if t.String() == "error" || m.FullName() == "(error).Error" {
		return &Contract{Key: "(error).Error", Params: []string{"e"}, Results: []string{"s"}, Trusted: true, Pure: true, Kind: "extern", Opts: map[string]string{}}
	}
	return nil
}

func (x *Exec) safetyNonNilIface(st *State, a *Term, pos token.Pos) {
	if isCtor(a.op) && a.op != "anil" {
		return
	}
	g := x.ts.Not(x.ts.Eq(a, x.ts.mk("anil", SAny)))
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == g {
			return
		}
	}
	x.safety(st, "nil-interface-call", "", pos, g)
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.String()
	// generic receivers print as (*pkg.T[T]).M
	if i := strings.IndexByte(s, '['); i >= 0 {
		d := 0
		j := i
		for ; j < len(s); j++ {
			if s[j] == '[' {
				d++
			} else if s[j] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j < len(s) {
			s = s[:i] + s[j+1:]
		}
	}
	return s
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, args []Val, binds []Val, pos token.Pos, k cont) {
	key := fnKey(f)
	if x.modelCall(fr, st, f, key, args, pos, k) {
		return
	}
	if con, ok := x.sf.Contracts[key]; ok && binds == nil {
		x.useContract(fr, st, con, f.Signature, args, pos, k)
		return
	}
	if con, ok := x.sf.Contracts[key]; ok && con.Trusted {
		x.useContract(fr, st, con, f.Signature, args, pos, k)
		return
	}
	if len(f.Blocks) == 0 {
		unsup("call to %s: no body and no contract", key)
	}
	if !x.inlinable(f) {
		unsup("call to %s: outside the repository and no contract", key)
	}
	if fr.depth > 24 {
		unsup("inlining too deep at %s", key)
	}
	for _, g := range fr.stack {
		if g == f {
			unsup("recursive call to %s without contract", key)
		}
	}
	x.inlined[key] = true
	nf := &Frame{fn: f, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: fr.depth + 1, con: fr.con, stack: append(fr.stack[:len(fr.stack):len(fr.stack)], f)}
	for i, p := range f.Params {
		if i >= len(args) {
			unsup("argument mismatch calling %s", key)
		}
		v := args[i]
		v.T = p.Type()
		nf.env[p] = v
	}
	for i, fv := range f.FreeVars {
		if i < len(binds) {
			nf.env[fv] = binds[i]
		}
	}
	caller := fr
	nf.ret = func(st2 *State, _ *Frame, rs []Val) {
		c2 := caller.clone()
		x.dropDead(c2)
		for i := range rs {
			rs[i].T = f.Signature.Results().At(i).Type()
		}
		k(st2, c2, x.mkResult(f.Signature, rs))
	}
	if li := x.loopAt(f, f.Blocks[0]); li != nil {
		unsup("loop at function entry")
	}
	x.runBlock(nf, st, f.Blocks[0], 0)
}

func (x *Exec) dropDead(f *Frame) {}

func (x *Exec) inlinable(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
		return x.eng.inlinePkg(f.Object().Pkg().Path())
	}
	if p == nil {
		return true // synthetic wrappers, bound methods
	}
	return x.eng.inlinePkg(p.Pkg.Path())
}

// ---------- contracts at call sites

func (x *Exec) specEnv(st *State, pkg string, vars map[string]Val, old *Snap) *SpecEnv {
	return &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, old: old, vars: vars, pkg: pkg}
}

func (x *Exec) useContract(fr *Frame, st *State, con *Contract, sig *types.Signature, args []Val, pos token.Pos, k cont) {
	x.used[con.Key] = true
	vars := map[string]Val{}
	for i, n := range con.Params {
		if i < len(args) {
			vars[n] = args[i]
		}
	}
	short := con.Key
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	for _, r := range con.Requires {
		if strings.HasPrefix(r.Label, "unfold") && r.E.isMarker() {
			continue // a trigger for the definitions used inside the callee, true everywhere
		}
		e := x.specEnv(st, con.Pkg, vars, nil)
		x.check(st, "call-requires", short+"."+r.Label, pos, e.Bool(r.E))
	}
	old := st.snap()
	if con.Opts["noreturn"] != "" {
		return
	}
	// effects
	x.havocModifies(st, con, vars, old)
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var v Val
		if con.Opts["fun"] != "" {
			var as []*Term
			for _, a := range args {
				as = append(as, x.term(a))
			}
			nm := fmt.Sprintf("fun$%s$%d", con.Key, i)
			v = Val{T: rt, t: x.ts.App(nm, x.u.Sort(rt), as...)}
			if con.Opts["fun"] == "wf" {
				st.assume(x.wf(rt, v.t, st.next))
			}
		} else {
			v = x.fresh(st, "ret_"+sanitize(short), rt)
		}
		rs = append(rs, v)
		if i < len(con.Results) {
			vars[con.Results[i]] = v
		}
	}
	e := x.specEnv(st, con.Pkg, vars, old)
	for _, q := range con.Ensures {
		if q.Label != "" && strings.HasPrefix(q.Label, "internal") {
			continue
		}
		st.assume(e.Bool(q.E))
	}
	k(st, fr, x.mkResult(sig, rs))
}

// havocModifies applies the frame of con.
func (x *Exec) havocModifies(st *State, con *Contract, vars map[string]Val, old *Snap) {
	if con.Pure {
		return
	}
	ts := x.ts
	// allocation may happen
	nn := ts.FreshConst("next", SInt)
	st.assume(ts.Le(st.next, nn))
	for _, w := range x.wlogs {
		w.allocs = true
	}
	st.next = nn
	if con.ModAll {
		// every heap becomes unknown except ghost lock state
		x.eng.mu.Lock()
		x.epochs++
		ep := x.epochs
		x.eng.mu.Unlock()
		nh := map[string]*Term{}
		for n, t := range st.heap {
			d := x.heaps[n]
			if d.ghost && !strings.HasPrefix(n, "G|user|") {
				nh[n] = t
			}
		}
		st.heap = nh
		st.epoch = ep
		st.assume(ts.Le(x.epochNext(ep), nn))
		st.assume(ts.Le(nn, x.epochNext(ep)))
		for _, w := range x.wlogs {
			w.epoch = true
		}
		return
	}
	ms := x.modEntries(con, vars, old)
	for hn, es := range ms {
		d := x.heaps[hn]
		h := x.H(st.heap, st.epoch, d)
		all := false
		for _, e := range es {
			if e.all {
				all = true
			}
		}
		if all || d.nidx == 0 {
			st.heap[hn] = x.newHeapConst(d, fmt.Sprintf("%s!h%d", hn, x.tick()), nn)
			x.logWrite(d, nil)
			if d.nidx > 0 {
				x.logWriteAll(d)
			}
			continue
		}
		for _, e := range es {
			c := x.newHeapConst(d, fmt.Sprintf("%s!h%d", hn, x.tick()), nn)
			part := func(old, nu *Term) *Term {
				if len(e.path) == 0 {
					return nu
				}
				return x.updPath(e.path, old, x.accPath(e.path, nu))
			}
			if e.idx2 != nil {
				h = ts.Store(h, e.idx, ts.Store(ts.Select(h, e.idx), e.idx2, part(ts.Select(ts.Select(h, e.idx), e.idx2), ts.Select(ts.Select(c, e.idx), e.idx2))))
			} else {
				h = ts.Store(h, e.idx, part(ts.Select(h, e.idx), ts.Select(c, e.idx)))
			}
			x.logWrite(d, e.idx)
		}
		// cells of objects allocated by the callee are unknown
		st.heap[hn] = h
	}
	// objects allocated by the callee: contents unconstrained (they are above old next: never assumed)
	_ = old
}

func (x *Exec) logWriteAll(d *heapDecl) {
	for _, w := range x.wlogs {
		w.recs = append(w.recs, writeRec{heap: d.name, idx: nil, lvl: 1})
	}
}

func (x *Exec) tick() int { x.ts.nfresh++; return x.ts.nfresh }

// modEntries evaluates a modifies list in the pre-state.
func (x *Exec) modEntries(con *Contract, vars map[string]Val, old *Snap) map[string][]modEntry {
	out := map[string][]modEntry{}
	e := &SpecEnv{x: x, heap: old.heap, ep: old.epoch, next: old.next, vars: vars, pkg: con.Pkg}
	for _, m := range con.Modifies {
		x.modEntry(e, m, out)
	}
	return out
}

func (x *Exec) modEntry(e *SpecEnv, m *Expr, out map[string][]modEntry) {
	add := func(h string, en modEntry) { out[h] = append(out[h], en) }
	if m.Kind == "call" && m.A[0].Kind == "ident" {
		switch m.A[0].S {
		case "contents":
			v := e.Eval(m.A[1])
			switch vt := under(v.T).(type) {
			case *types.Map:
				a, b, c := x.mapHeaps(v.T)
				for _, d := range []*heapDecl{a, b, c} {
					add(d.name, modEntry{idx: x.term(v)})
				}
			case *types.Slice:
				d := x.memHeap(vt.Elem())
				add(d.name, modEntry{idx: x.ts.SBase(x.term(v))})
			case *types.Pointer:
				x.addFields(v, out)
			default:
				unsup("contents of %s", v.T)
			}
			return
		case "allcontents":
			t := e.typ(m.T)
			switch vt := under(t).(type) {
			case *types.Map:
				a, b, c := x.mapHeaps(t)
				for _, d := range []*heapDecl{a, b, c} {
					add(d.name, modEntry{all: true})
				}
			case *types.Slice:
				add(x.memHeap(vt.Elem()).name, modEntry{all: true})
			case *types.Pointer:
				add(x.cellHeap(vt.Elem()).name, modEntry{all: true})
			}
			return
		case "all":
			// all(T, field)
			t := e.typ(m.T)
			st := under(t).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if m.S == "" || st.Field(i).Name() == m.S {
					add(x.fieldHeap(t, i).name, modEntry{all: true})
				}
			}
			return
		case "calls":
			v := e.Eval(m.A[1])
			d := x.ghostHeap("calls", arr(SInt, SInt), 1)
			add(d.name, modEntry{idx: x.term(v)})
			return
		case "allcalls":
			d := x.ghostHeap("calls", arr(SInt, SInt), 1)
			add(d.name, modEntry{all: true})
			return
		case "allghost":
			d := x.ghostHeap(m.A[1].S, arr(SInt, SInt), 1)
			add(d.name, modEntry{all: true})
			return
		case "ghostv":
			d := x.ghostHeap(m.A[1].S, arr(SInt, SInt), 1)
			if len(m.A) > 2 {
				add(d.name, modEntry{idx: x.term(e.Eval(m.A[2]))})
			} else {
				add(d.name, modEntry{all: true})
			}
			return
		case "chan":
			v := e.Eval(m.A[1])
			el := under(v.T).(*types.Chan).Elem()
			for _, n := range []string{"chan_sends", "chan_recvs", "chan_len", "chan_closed"} {
				add(x.ghostHeap(n, arr(SInt, SInt), 1).name, modEntry{idx: x.term(v)})
			}
			add(x.chanLog("chan_sent", el).name, modEntry{idx: x.term(v)})
			add(x.chanLog("chan_recvd", el).name, modEntry{idx: x.term(v)})
			return
		}
	}
	if m.Kind == "ident" {
		for _, g := range x.sf.Ghosts {
			if g.Name == m.S {
				d := x.ghostHeap("user|"+g.Name, specSort(x, e.typ(g.T)), 0)
				add(d.name, modEntry{all: true})
				return
			}
		}
		if v, ok := e.vars[m.S]; ok && isPtr(v.T) {
			x.addFields(v, out)
			return
		}
		if _, ok := e.global(e.pkg, m.S); ok {
			add("GL|"+e.pkg+"."+m.S, modEntry{all: true})
			return
		}
	}
	a := e.addrOf(m)
	if len(a.idx) == 0 {
		add(a.heap, modEntry{all: true})
		return
	}
	en := modEntry{idx: a.idx[0]}
	if len(a.idx) > 1 && x.heaps[a.heap].nidx == 2 {
		en.idx2 = a.idx[1]
	}
	if len(a.idx) == x.heaps[a.heap].nidx {
		en.path = a.path
	}
	add(a.heap, en)
}

func (x *Exec) addFields(v Val, out map[string][]modEntry) {
	el := deref(v.T)
	if a := x.toAddr(v); a != nil {
		out[a.heap] = append(out[a.heap], modEntry{idx: a.idx[0]})
		return
	}
	if isStruct(el) {
		st := under(el).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			d := x.fieldHeap(el, i)
			out[d.name] = append(out[d.name], modEntry{idx: v.t})
		}
		return
	}
	unsup("contents of %s", v.T)
}

// ---------- Go builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, args []Val, sig *types.Signature, pos token.Pos, k cont) {
	ts := x.ts
	switch name {
	case "len":
		v := args[0]
		switch vt := under(v.T).(type) {
		case *types.Slice:
			k(st, fr, Val{T: tInt, t: ts.SLen(x.term(v))})
		case *types.Map:
			x.guardMap(st, v, false, pos)
			_, _, ln := x.mapHeaps(v.T)
			l := ts.Select(x.H(st.heap, st.epoch, ln), x.term(v))
			x.mapLenFact(st.heap, st.epoch, v.T, x.term(v))
			l = ts.Ite(ts.Eq(x.term(v), ts.Int(0)), ts.Int(0), l)
			k(st, fr, Val{T: tInt, t: l})
		case *types.Basic:
			k(st, fr, Val{T: tInt, t: x.strLen(x.term(v))})
		case *types.Array:
			k(st, fr, Val{T: tInt, t: ts.Int(vt.Len())})
		case *types.Pointer:
			k(st, fr, Val{T: tInt, t: ts.Int(under(vt.Elem()).(*types.Array).Len())})
		case *types.Chan:
			d := x.ghostHeap("chan_len", arr(SInt, SInt), 1)
			if x.conc {
				n := ts.FreshConst("chanlen", SInt)
				st.assume(ts.Le(ts.Int(0), n))
				k(st, fr, Val{T: tInt, t: n})
				return
			}
			k(st, fr, Val{T: tInt, t: ts.Select(x.H(st.heap, st.epoch, d), x.term(v))})
		default:
			unsup("len of %s", v.T)
		}
	case "cap":
		v := args[0]
		switch under(v.T).(type) {
		case *types.Slice:
			k(st, fr, Val{T: tInt, t: ts.SCap(x.term(v))})
		case *types.Chan:
			d := x.ghostHeap("chan_cap", arr(SInt, SInt), 1)
			k(st, fr, Val{T: tInt, t: ts.Select(x.H(st.heap, st.epoch, d), x.term(v))})
		default:
			unsup("cap of %s", v.T)
		}
	case "append":
		x.appendB(fr, st, args, sig, pos, k)
	case "copy":
		x.copyB(fr, st, args, pos, k)
	case "delete":
		x.mapDelete(st, args[0], args[1], pos)
		k(st, fr, Val{tup: []Val{}})
	case "close":
		d := x.ghostHeap("chan_closed", arr(SInt, SInt), 1)
		c := x.term(args[0])
		x.safety(st, "close-closed-channel", "", pos, ts.Eq(ts.Select(x.H(st.heap, st.epoch, d), c), ts.Int(0)))
		x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{c}}, ts.Int(1))
		k(st, fr, Val{tup: []Val{}})
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			b := x.term(a)
			if name == "min" {
				r = ts.Ite(ts.Lt(b, r), b, r)
			} else {
				r = ts.Ite(ts.Lt(r, b), b, r)
			}
		}
		k(st, fr, Val{T: args[0].T, t: r})
	case "print", "println":
		k(st, fr, Val{tup: []Val{}})
	case "recover":
		k(st, fr, Val{T: tAny, t: ts.mk("anil", SAny)})
	case "clear":
		v := args[0]
		if _, ok := under(v.T).(*types.Map); ok {
			x.guardMap(st, v, true, pos)
			dom, _, ln := x.mapHeaps(v.T)
			_, ds := arrParts(dom.sort)
			x.writeHeap(st, &Addr{heap: dom.name, idx: []*Term{x.term(v)}}, ts.ConstArr(ds, ts.False()))
			x.writeHeap(st, &Addr{heap: ln.name, idx: []*Term{x.term(v)}}, ts.Int(0))
			k(st, fr, Val{tup: []Val{}})
			return
		}
		unsup("clear")
	case "ssa:wrapnilchk":
		x.nonnil(st, args[0], "wrapper", pos)
		k(st, fr, args[0])
	default:
		unsup("builtin %s", name)
	}
}

func (x *Exec) appendB(fr *Frame, st *State, args []Val, sig *types.Signature, pos token.Pos, k cont) {
	ts := x.ts
	s := args[0]
	slt := under(s.T).(*types.Slice)
	el := slt.Elem()
	d := x.memHeap(el)
	sv := x.term(s)
	var tv *Term
	if _, isStr := under(args[1].T).(*types.Basic); isStr {
		// append([]byte, string...)
		b := x.convert(st, args[1], s.T, pos)
		tv = b.t
	} else {
		tv = x.term(args[1])
	}
	n := ts.SLen(tv)
	ln := ts.SLen(sv)
	nl := ts.Add(ln, n)
	rt := s.T
	if n.isInt() && n.ival == 0 {
		k(st, fr, s)
		return
	}
	mem := x.H(st.heap, st.epoch, d)
	src := ts.Select(mem, ts.SBase(tv))
	srcAt := func(i *Term) *Term { return ts.Select(src, x.ix(ts.SOff(tv), i)) }
	old := ts.Select(mem, ts.SBase(sv))
	fits := ts.Le(nl, ts.SCap(sv))
	// in place
	inplace := func(st *State, fr *Frame) {
		a := ts.Select(x.H(st.heap, st.epoch, d), ts.SBase(sv))
		if n.isInt() && n.ival <= 8 {
			for i := int64(0); i < n.ival; i++ {
				a = ts.Store(a, x.ix(ts.SOff(sv), ts.Add(ln, ts.Int(i))), srcAt(ts.Int(i)))
			}
		} else {
			na := ts.FreshConst("arr", a.sort)
			i := ts.BVar("i", SInt)
			lo := ts.Add(ts.SOff(sv), ln)
			inr := ts.And(ts.Le(lo, i), ts.Lt(i, ts.Add(lo, n)))
			st.assume(ts.Forall([]*Term{i}, ts.Eq(ts.Select(na, i), ts.Ite(inr, ts.Select(src, ts.Add(ts.SOff(tv), ts.Sub(i, lo))), ts.Select(a, i))), ts.Select(na, i)))
			j := ts.BVar("j", SInt)
			st.assume(ts.Forall([]*Term{j}, ts.Implies(ts.And(ts.Le(ts.Int(0), j), ts.Lt(j, n)), ts.Eq(ts.Select(na, x.ix(ts.SOff(sv), ts.Add(ln, j))), srcAt(j))), srcAt(j)))
			j2 := ts.BVar("j", SInt)
			at := ts.Select(na, x.ix(ts.SOff(sv), j2))
			st.assume(ts.Forall([]*Term{j2}, ts.Implies(ts.And(ts.Le(ln, j2), ts.Lt(j2, nl)), ts.Eq(at, ts.Select(src, x.ix(ts.SOff(tv), ts.Sub(j2, ln))))), at))
			a = na
		}
		x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{ts.SBase(sv)}}, a)
		k(st, fr, Val{T: rt, t: ts.MkSlice(ts.SBase(sv), ts.SOff(sv), nl, ts.SCap(sv))})
	}
	grow := func(st *State, fr *Frame) {
		r := x.alloc(st, "grow")
		cp := ts.FreshConst("cap", SInt)
		st.assume(ts.Le(nl, cp))
		_, as := arrParts(d.sort)
		na := ts.FreshConst("arr", as)
		i := ts.BVar("i", SInt)
		zero := x.u.Zero(el)
		oldAt := ts.Select(old, x.ix(ts.SOff(sv), i))
		if ln.isInt() && ln.ival == 0 {
			// nothing to copy
		} else if ln.isInt() && ln.ival <= 8 {
			for q := int64(0); q < ln.ival; q++ {
				st.assume(ts.Eq(ts.Select(na, ts.Int(q)), ts.Select(old, x.ix(ts.SOff(sv), ts.Int(q)))))
			}
		} else {
			st.assume(ts.Forall([]*Term{i}, ts.Implies(ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ln)), ts.Eq(ts.Select(na, i), oldAt)), ts.Select(na, i)))
			if !(ts.SOff(sv).isInt() && ts.SOff(sv).ival == 0) || true {
				i2 := ts.BVar("i", SInt)
				o2 := ts.Select(old, x.ix(ts.SOff(sv), i2))
				st.assume(ts.Forall([]*Term{i2}, ts.Implies(ts.And(ts.Le(ts.Int(0), i2), ts.Lt(i2, ln)), ts.Eq(ts.Select(na, i2), o2)), o2))
			}
		}
		if n.isInt() && n.ival <= 8 {
			for q := int64(0); q < n.ival; q++ {
				st.assume(ts.Eq(ts.Select(na, ts.Add(ln, ts.Int(q))), srcAt(ts.Int(q))))
			}
		} else {
			j := ts.BVar("j", SInt)
			st.assume(ts.Forall([]*Term{j}, ts.Implies(ts.And(ts.Le(ts.Int(0), j), ts.Lt(j, n)), ts.Eq(ts.Select(na, ts.Add(ln, j)), srcAt(j))), srcAt(j)))
			j2 := ts.BVar("j", SInt)
			st.assume(ts.Forall([]*Term{j2}, ts.Implies(ts.And(ts.Le(ln, j2), ts.Lt(j2, nl)), ts.And(ts.Eq(ts.Select(na, j2), ts.Select(src, x.ix(ts.SOff(tv), ts.Sub(j2, ln)))), ts.Eq(ts.Select(na, j2), ts.Select(src, ts.Add(ts.SOff(tv), ts.Sub(j2, ln)))))), ts.Select(na, j2)))
		}
		z := ts.BVar("i", SInt)
		st.assume(ts.Forall([]*Term{z}, ts.Implies(ts.Le(nl, z), ts.Eq(ts.Select(na, z), zero)), ts.Select(na, z)))
		x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{r}}, na)
		k(st, fr, Val{T: rt, t: ts.MkSlice(r, ts.Int(0), nl, cp)})
	}
	if fits.isTrue() {
		inplace(st, fr)
		return
	}
	if fits.isFalse() || ts.SCap(sv).isInt() && ts.SCap(sv).ival == 0 && n.isInt() {
		grow(st, fr)
		return
	}
	if !n.isInt() {
		// appending nothing returns the slice itself: covered by in-place (nl <= cap always holds then)
		_ = n
	}
	st2, fr2 := st.fork(), fr.clone()
	x.npaths++
	if x.npaths > x.eng.maxPaths {
		unsup("path budget exceeded")
	}
	if x.feasible(st, fits) {
		st.assume(fits)
		st.trace = append(st.trace, x.pos(pos)+" append in place")
		inplace(st, fr)
	}
	nf := ts.Not(fits)
	if x.feasible(st2, nf) {
		st2.assume(nf)
		st2.trace = append(st2.trace, x.pos(pos)+" append grows")
		grow(st2, fr2)
	}
}

func (x *Exec) copyB(fr *Frame, st *State, args []Val, pos token.Pos, k cont) {
	ts := x.ts
	dst, src := args[0], args[1]
	el := under(dst.T).(*types.Slice).Elem()
	d := x.memHeap(el)
	if _, isStr := under(src.T).(*types.Basic); isStr {
		src = x.convert(st, src, dst.T, pos)
	}
	dv, sv := x.term(dst), x.term(src)
	n := ts.Ite(ts.Lt(ts.SLen(dv), ts.SLen(sv)), ts.SLen(dv), ts.SLen(sv))
	mem := x.H(st.heap, st.epoch, d)
	a, s := ts.Select(mem, ts.SBase(dv)), ts.Select(mem, ts.SBase(sv))
	na := ts.FreshConst("arr", a.sort)
	i := ts.BVar("i", SInt)
	lo := ts.SOff(dv)
	st.assume(ts.Forall([]*Term{i}, ts.Eq(ts.Select(na, i), ts.Ite(ts.And(ts.Le(lo, i), ts.Lt(i, ts.Add(lo, n))), ts.Select(s, ts.Add(ts.SOff(sv), ts.Sub(i, lo))), ts.Select(a, i))), ts.Select(na, i)))
	j := ts.BVar("j", SInt)
	sj := ts.Select(s, x.ix(ts.SOff(sv), j))
	st.assume(ts.Forall([]*Term{j}, ts.Implies(ts.And(ts.Le(ts.Int(0), j), ts.Lt(j, n)), ts.Eq(ts.Select(na, x.ix(lo, j)), sj)), sj))
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{ts.SBase(dv)}}, na)
	k(st, fr, Val{T: tInt, t: n})
}

// ---------- locks

func (x *Exec) lockHeap(a *Addr) *heapDecl {
	n := "lock|" + a.heap
	for _, p := range a.path {
		n += fmt.Sprintf(".%d", p.fld)
	}
	return x.ghostHeap(n, arr(SInt, SInt), 1)
}

// lockDecl finds the declaration matching the mutex at address a.
func (x *Exec) lockDecl(a *Addr) *LockDecl {
	for _, l := range x.sf.Locks {
		if a.heap == "F|"+l.TypePkg+"."+l.TypeName+"|"+l.Field {
			return l
		}
	}
	return nil
}

func (x *Exec) lockAddr(v Val) *Addr {
	a := x.toAddr(v)
	if a == nil {
		// a mutex object of its own
		el := deref(v.T)
		d := x.declHeap(&heapDecl{name: "F|" + typeKey(el) + "|", sort: arr(SInt, SInt), nidx: 1, kind: "L"})
		return &Addr{heap: d.name, idx: []*Term{v.t}}
	}
	if len(a.idx) == 0 {
		return &Addr{heap: a.heap, idx: []*Term{x.ts.Int(0)}, path: a.path}
	}
	return a
}

func (x *Exec) acquire(st *State, v Val, mode int64, pos token.Pos) {
	ts := x.ts
	a := x.lockAddr(v)
	d := x.lockHeap(a)
	cur := ts.Select(x.H(st.heap, st.epoch, d), a.idx[0])
	x.check(st, "lock", "not-already-held", pos, ts.Eq(cur, ts.Int(0)))
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{a.idx[0]}}, ts.Int(mode))
	ac := x.ghostHeap("acquires", SInt, 0)
	x.writeHeap(st, &Addr{heap: ac.name}, ts.Add(x.H(st.heap, st.epoch, ac), ts.Int(1)))
	if l := x.lockDecl(a); l != nil {
		owner := Val{T: x.lockOwnerType(l), t: a.idx[0]}
		if x.conc {
			// other callers may have changed the guarded state
			out := map[string][]modEntry{}
			e := &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, vars: map[string]Val{l.Var: owner}, pkg: l.TypePkg}
			for _, g := range l.Guards {
				x.modEntry(e, g, out)
			}
			nn := ts.FreshConst("next", SInt)
			st.assume(ts.Le(st.next, nn))
			st.next = nn
			for hn, es := range out {
				hd := x.heaps[hn]
				for _, en := range es {
					if en.idx == nil {
						unsup("guards must name specific objects")
					}
					c := x.newHeapConst(hd, fmt.Sprintf("%s!acq%d", hn, x.tick()), nn)
					st.heap[hn] = ts.Store(x.H(st.heap, st.epoch, hd), en.idx, ts.Select(c, en.idx))
					x.logWrite(hd, en.idx)
				}
			}
			st.acq = st.snap()
			st.nacq++
		}
		e := &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, vars: map[string]Val{l.Var: owner}, pkg: l.TypePkg}
		for _, inv := range l.Inv {
			st.assume(e.Bool(inv.E))
		}
	}
}

func (x *Exec) lockOwnerType(l *LockDecl) types.Type {
	p := x.eng.pkgByPath(l.TypePkg)
	o := p.Scope().Lookup(l.TypeName)
	return types.NewPointer(o.Type())
}

func (x *Exec) release(st *State, v Val, mode int64, pos token.Pos) {
	ts := x.ts
	a := x.lockAddr(v)
	d := x.lockHeap(a)
	cur := ts.Select(x.H(st.heap, st.epoch, d), a.idx[0])
	x.check(st, "lock", "held-at-release", pos, ts.Eq(cur, ts.Int(mode)))
	if l := x.lockDecl(a); l != nil {
		owner := Val{T: x.lockOwnerType(l), t: a.idx[0]}
		e := &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, vars: map[string]Val{l.Var: owner}, pkg: l.TypePkg, old: x.entry}
		for _, inv := range l.Inv {
			x.check(st, "lock-invariant", inv.Label, pos, e.Bool(inv.E))
		}
	}
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{a.idx[0]}}, ts.Int(0))
}

// guardCheck: accesses to guarded fields need the lock.
func (x *Exec) guardCheck(st *State, p Val, write bool, pos token.Pos) {
	if len(x.sf.Atomics) > 0 && p.addr != nil && len(p.addr.idx) > 0 {
		if l := x.atomicByHeap(p.addr.heap); l != nil && !p.addr.idx[0].fresh {
			// objects allocated by this call are still private
			x.check(st, "race", "plain-access-to-atomic-field:"+l.Field, pos, x.ts.Le(x.next0, p.addr.idx[0]))
		}
	}
	if len(x.sf.Locks) == 0 || p.addr == nil || len(p.addr.idx) == 0 {
		return
	}
	for _, l := range x.sf.Locks {
		for _, g := range l.Guards {
			if g.Kind == "sel" && g.A[0].Kind == "ident" && p.addr.heap == "F|"+l.TypePkg+"."+l.TypeName+"|"+g.S {
				x.guardOblig(st, l, p.addr.idx[0], nil, write, pos)
			}
			if g.Kind == "call" && g.A[0].Kind == "ident" && g.A[0].S == "contents" && strings.HasPrefix(p.addr.heap, "Mem|") {
				x.guardContents(st, l, g, p.addr.heap, p.addr.idx[0], write, pos)
			}
		}
	}
}

func (x *Exec) guardMap(st *State, m Val, write bool, pos token.Pos) {
	if len(x.sf.Locks) == 0 {
		return
	}
	dom, _, _ := x.mapHeaps(m.T)
	for _, l := range x.sf.Locks {
		for _, g := range l.Guards {
			if g.Kind == "call" && g.A[0].S == "contents" {
				x.guardContents(st, l, g, dom.name, x.term(m), write, pos)
			}
		}
	}
}

// guardContents: if the accessed container belongs to a known owner object, its lock must be held.
func (x *Exec) guardContents(st *State, l *LockDecl, g *Expr, heap string, ref *Term, write bool, pos token.Pos) {
	ot := x.lockOwnerType(l)
	// owners: every term of the owner type we know of: parameters
	for _, v := range x.topVars {
		if v.T == nil || typeKey(v.T) != typeKey(ot) || v.t == nil {
			continue
		}
		e := &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, vars: map[string]Val{l.Var: v}, pkg: l.TypePkg}
		c := e.Eval(g.A[1])
		var cref *Term
		switch ct := under(c.T).(type) {
		case *types.Map:
			dom, _, _ := x.mapHeaps(c.T)
			if dom.name != heap {
				continue
			}
			cref = x.term(c)
		case *types.Slice:
			if x.memHeap(ct.Elem()).name != heap {
				continue
			}
			cref = x.ts.SBase(x.term(c))
		default:
			continue
		}
		x.guardOblig(st, l, v.t, x.ts.Eq(ref, cref), write, pos)
	}
}

func (x *Exec) guardOblig(st *State, l *LockDecl, owner *Term, cond *Term, write bool, pos token.Pos) {
	if owner.fresh {
		return
	}
	ts := x.ts
	d := x.ghostHeap("lock|F|"+l.TypePkg+"."+l.TypeName+"|"+l.Field, arr(SInt, SInt), 1)
	cur := ts.Select(x.H(st.heap, st.epoch, d), owner)
	var g *Term
	if write {
		g = ts.Eq(cur, ts.Int(2))
	} else {
		g = ts.Le(ts.Int(1), cur)
	}
	if cond != nil {
		g = ts.Implies(cond, g)
	}
	// objects allocated by this call are still private
	g = ts.Or(ts.Le(x.next0, owner), g)
	kind := "guarded-read"
	if write {
		kind = "guarded-write"
	}
	x.check(st, "lock", kind+":"+l.TypeName+"."+l.Field, pos, g)
}

// ---------- channels

func (x *Exec) chanLog(name string, el types.Type) *heapDecl {
	s := x.u.Sort(el)
	return x.ghostHeap(name+"|"+s, arr(SInt, arr(SInt, s)), 1)
}

func (x *Exec) chanInit(st *State, r, capT *Term) {
	ts := x.ts
	x.check(st, "nopanic", "makechan-size", token.NoPos, ts.Le(ts.Int(0), capT))
	for _, n := range []string{"chan_sends", "chan_recvs", "chan_len", "chan_closed"} {
		d := x.ghostHeap(n, arr(SInt, SInt), 1)
		x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{r}}, ts.Int(0))
	}
	d := x.ghostHeap("chan_cap", arr(SInt, SInt), 1)
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{r}}, capT)
}

func (x *Exec) bump(st *State, name string, c *Term, by int64) *Term {
	d := x.ghostHeap(name, arr(SInt, SInt), 1)
	n := x.ts.Select(x.H(st.heap, st.epoch, d), c)
	x.writeHeap(st, &Addr{heap: d.name, idx: []*Term{c}}, x.ts.Add(n, x.ts.Int(by)))
	return n
}

func (x *Exec) chanSend(st *State, c, v Val, pos token.Pos) {
	ct := x.term(c)
	el := under(c.T).(*types.Chan).Elem()
	d := x.ghostHeap("chan_closed", arr(SInt, SInt), 1)
	x.safety(st, "send-on-closed-channel", "", pos, x.ts.Eq(x.ts.Select(x.H(st.heap, st.epoch, d), ct), x.ts.Int(0)))
	n := x.bump(st, "chan_sends", ct, 1)
	x.bump(st, "chan_len", ct, 1)
	lg := x.chanLog("chan_sent", el)
	vt := x.term(v)
	if isIface(el) {
		vt = x.box(v)
	}
	x.writeHeap(st, &Addr{heap: lg.name, idx: []*Term{ct, n}}, vt)
	if con := x.sf.Contracts["functype chan-send"]; con != nil {
		_ = con
	}
}

func (x *Exec) chanRecv(st *State, c Val, commaOk bool, t types.Type, pos token.Pos) Val {
	ct := x.term(c)
	el := under(c.T).(*types.Chan).Elem()
	n := x.bump(st, "chan_recvs", ct, 1)
	x.bump(st, "chan_len", ct, -1)
	lg := x.chanLog("chan_recvd", el)
	v := x.fresh(st, "recv", el)
	x.writeHeap(st, &Addr{heap: lg.name, idx: []*Term{ct, n}}, v.t)
	if commaOk {
		ok := x.ts.FreshConst("recvok", SBool)
		return Val{T: t, tup: []Val{v, {T: tBool, t: ok}}}
	}
	return v
}

func (x *Exec) selectStmt(fr *Frame, st *State, y *ssa.Select, k func(*State, *Frame)) {
	ts := x.ts
	// result tuple: index, recvOk, r0..rn-1
	var nrecv []types.Type
	for _, s := range y.States {
		if s.Dir == types.RecvOnly {
			nrecv = append(nrecv, under(s.Chan.Type()).(*types.Chan).Elem())
		}
	}
	mk := func(fr *Frame, idx int64, ok *Term, vals []Val) {
		tup := []Val{{T: tInt, t: ts.Int(idx)}, {T: tBool, t: ok}}
		tup = append(tup, vals...)
		fr.env[y] = Val{T: y.Type(), tup: tup}
	}
	zeros := func() []Val {
		var vs []Val
		for _, t := range nrecv {
			vs = append(vs, Val{T: t, t: x.u.Zero(t)})
		}
		return vs
	}
	type alt struct {
		st *State
		fr *Frame
	}
	n := len(y.States)
	if !y.Blocking {
		n++
	}
	ri := 0
	for i, s := range y.States {
		s2, f2 := st.fork(), fr.clone()
		s2.trace = append(s2.trace, fmt.Sprintf("%s select case %d", x.pos(y.Pos()), i))
		c := x.get(f2, s.Chan)
		vs := zeros()
		if s.Dir == types.SendOnly {
			x.chanSend(s2, c, x.get(f2, s.Send), s.Pos)
			mk(f2, int64(i), ts.False(), vs)
		} else {
			r := x.chanRecv(s2, c, true, types.NewTuple(), s.Pos)
			vs[ri] = r.tup[0]
			mk(f2, int64(i), r.tup[1].t, vs)
			ri++
		}
		x.npaths++
		k(s2, f2)
	}
	if !y.Blocking {
		st.trace = append(st.trace, x.pos(y.Pos())+" select default")
		mk(fr, -1, ts.False(), zeros())
		k(st, fr)
	}
}

func (x *Exec) goStmt(fr *Frame, st *State, y *ssa.Go) {
	if x.top == nil || x.top.Opts["go"] == "" {
		unsup("go statement")
	}
	// the spawned function is verified on its own; its effects on this function's view are assumed absent
	d := x.ghostHeap("spawns", SInt, 0)
	x.writeHeap(st, &Addr{heap: d.name}, x.ts.Add(x.H(st.heap, st.epoch, d), x.ts.Int(1)))
	x.assumed["goroutine started at "+x.pos(y.Pos())+" does not write state read by the starting function"] = true
}

// builtinInvoke models a few ubiquitous interface methods.
func (x *Exec) builtinInvoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, pos token.Pos, k cont) bool {
	sig := m.Type().(*types.Signature)
	switch m.FullName() {
	case "(context.Context).Done":
		t := x.ts.App("ctx.Done", SInt, x.term(recv))
		st.assume(x.ts.Lt(t, x.ts.Int(0)))
		k(st, fr, Val{T: sig.Results().At(0).Type(), t: t})
		return true
	}
	return false
}

// modelCall models library functions whose meaning matters to the executor.
func (x *Exec) modelCall(fr *Frame, st *State, f *ssa.Function, key string, args []Val, pos token.Pos, k cont) bool {
	ts := x.ts
	unit := Val{tup: []Val{}}
	switch key {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x.nonnil(st, args[0], "lock", pos)
		x.acquire(st, args[0], 2, pos)
		k(st, fr, unit)
		return true
	case "(*sync.RWMutex).RLock":
		x.nonnil(st, args[0], "lock", pos)
		x.acquire(st, args[0], 1, pos)
		k(st, fr, unit)
		return true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		x.release(st, args[0], 2, pos)
		k(st, fr, unit)
		return true
	case "(*sync.RWMutex).RUnlock":
		x.release(st, args[0], 1, pos)
		k(st, fr, unit)
		return true
	case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64":
		el := deref(args[0].T)
		x.atomicHavoc(st, args[0], pos)
		o := x.load(st.heap, st.epoch, args[0])
		nv := Val{T: el, t: x.wrap(el, ts.Add(x.term(o), x.term(args[1])))}
		x.atomicPre(st)
		x.store(st, args[0], nv)
		x.atomicPost(st, args[0], pos)
		k(st, fr, nv)
		return true
	case "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint64":
		x.atomicHavoc(st, args[0], pos)
		k(st, fr, x.load(st.heap, st.epoch, args[0]))
		return true
	case "sync/atomic.StoreInt64", "sync/atomic.StoreInt32", "sync/atomic.StoreUint64":
		x.atomicHavoc(st, args[0], pos)
		x.atomicPre(st)
		x.store(st, args[0], args[1])
		x.atomicPost(st, args[0], pos)
		k(st, fr, unit)
		return true
	case "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapInt32":
		x.atomicHavoc(st, args[0], pos)
		o := x.load(st.heap, st.epoch, args[0])
		eq := ts.Eq(x.term(o), x.term(args[1]))
		st2, fr2 := st.fork(), fr.clone()
		x.npaths++
		if x.feasible(st, eq) {
			st.assume(eq)
			st.trace = append(st.trace, x.pos(pos)+" CAS succeeds")
			x.atomicPre(st)
			x.store(st, args[0], args[2])
			x.atomicPost(st, args[0], pos)
			k(st, fr, Val{T: tBool, t: ts.True()})
		}
		if ne := ts.Not(eq); x.feasible(st2, ne) {
			st2.assume(ne)
			st2.trace = append(st2.trace, x.pos(pos)+" CAS fails")
			k(st2, fr2, Val{T: tBool, t: ts.False()})
		}
		return true
	}
	return x.modelLib(fr, st, f, key, args, pos, k)
}

// atomicDecl finds the declaration of the shared atomic field at address v.
func (x *Exec) atomicDecl(v Val) (*LockDecl, *Addr) {
	if len(x.sf.Atomics) == 0 {
		return nil, nil
	}
	a := x.toAddr(v)
	if a == nil || len(a.idx) == 0 || len(a.path) > 0 {
		return nil, nil
	}
	return x.atomicByHeap(a.heap), a
}

func (x *Exec) atomicByHeap(h string) *LockDecl {
	if i := strings.IndexByte(h, '['); i > 0 {
		if j := strings.LastIndexByte(h, ']'); j > i {
			h = h[:i] + h[j+1:]
		}
	}
	for _, l := range x.sf.Atomics {
		if h == "F|"+l.TypePkg+"."+l.TypeName+"|"+l.Field {
			return l
		}
	}
	return nil
}

func (x *Exec) atomicOwner(l *LockDecl, a *Addr) Val {
	d := x.heaps[a.heap]
	_ = d
	for _, v := range x.topVars {
		if v.T != nil && deref(v.T) != nil {
			if n, ok := types.Unalias(deref(v.T)).(*types.Named); ok && n.Obj().Name() == l.TypeName && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == l.TypePkg {
				return Val{T: v.T, t: a.idx[0]}
			}
		}
	}
	return Val{T: x.lockOwnerType(l), t: a.idx[0]}
}

func (x *Exec) tokensHeap(l *LockDecl) *heapDecl { return x.ghostHeap("user|"+l.Tokens, SInt, 0) }

// atomicHavoc: before an atomic access other callers may have changed the field, within its invariant.
func (x *Exec) atomicHavoc(st *State, v Val, pos token.Pos) {
	l, a := x.atomicDecl(v)
	if l == nil {
		return
	}
	ts := x.ts
	n := ts.FreshConst("shared_"+l.Field, SInt)
	x.writeHeap(st, a, n)
	e := &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, vars: map[string]Val{l.Var: x.atomicOwner(l, a)}, pkg: l.TypePkg}
	for _, inv := range l.Inv {
		st.assume(e.Bool(inv.E))
	}
	if l.Tokens != "" {
		if l.Floor {
			// the field is the sum of every caller's contribution, none of which is negative
			d := x.tokensHeap(l)
			st.assume(ts.Le(x.H(st.heap, st.epoch, d), n))
		}
		d := x.ghostHeap("before:"+l.Field, SInt, 0)
		x.writeHeap(st, &Addr{heap: d.name}, n)
	}
}

func (x *Exec) atomicPre(st *State) {}

// atomicPost: the access keeps the invariant and is charged to this caller.
func (x *Exec) atomicPost(st *State, v Val, pos token.Pos) {
	l, a := x.atomicDecl(v)
	if l == nil {
		return
	}
	ts := x.ts
	e := &SpecEnv{x: x, heap: st.heap, ep: st.epoch, next: st.next, vars: map[string]Val{l.Var: x.atomicOwner(l, a)}, pkg: l.TypePkg}
	for _, inv := range l.Inv {
		x.check(st, "atomic-invariant", l.Field+"."+inv.Label, pos, e.Bool(inv.E))
	}
	if l.Tokens != "" {
		d := x.tokensHeap(l)
		b := x.ghostHeap("before:"+l.Field, SInt, 0)
		now := x.readHeap(st.heap, st.epoch, a)
		t := ts.Add(x.H(st.heap, st.epoch, d), ts.Sub(now, x.H(st.heap, st.epoch, b)))
		x.writeHeap(st, &Addr{heap: d.name}, t)
		if l.Floor {
			x.check(st, "atomic-invariant", l.Field+".own-contribution-not-negative", pos, ts.Le(ts.Int(0), t))
		}
	}
}

// mapLenFact records that a map's length is zero exactly when it has no key.
func (x *Exec) mapLenFact(heap map[string]*Term, ep int, mt types.Type, m *Term) {
	ts := x.ts
	dom, _, ln := x.mapHeaps(mt)
	l := ts.Select(x.H(heap, ep, ln), m)
	if l.open {
		return
	}
	d := ts.Select(x.H(heap, ep, dom), m)
	_, ds := arrParts(dom.sort)
	f := ts.And(ts.Le(ts.Int(0), l), ts.Eq(ts.Eq(l, ts.Int(0)), ts.Eq(d, ts.ConstArr(ds, ts.False()))))
	if !x.used["ax:maplen"+fmt.Sprint(l.id)] {
		x.used["ax:maplen"+fmt.Sprint(l.id)] = true
		x.axioms[l.id] = append(x.axioms[l.id], f)
	}
}
