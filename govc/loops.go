package main

// Loops: cut at headers with invariants inferred from candidate clauses (Houdini) plus automatic ones.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	info     *loopInfo
	cutExits bool
	onBack   func(st *State, fr *Frame, from *ssa.BasicBlock)
}

type cand struct {
	label string
	eval  func(st *State, fr *Frame, k *Term) *Term // at a header state (phis bound)
	auto  bool
}

type affine struct {
	init *Term
	step int64
}

func (x *Exec) affinePhi(fr *Frame, li *loopInfo, p *ssa.Phi, init Val) *affine {
	if x.u.Sort(p.Type()) != SInt || init.t == nil {
		return nil
	}
	b, ok := under(p.Type()).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	if _, _, sized := intRange(b); sized {
		return nil
	}
	step := int64(0)
	seen := false
	for i, pred := range li.head.Preds {
		if !li.blocks[pred] {
			continue
		}
		e := p.Edges[i]
		bo, ok := e.(*ssa.BinOp)
		if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != p {
			return nil
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		s := c.Int64()
		if bo.Op == token.SUB {
			s = -s
		}
		if seen && s != step {
			return nil
		}
		step, seen = s, true
	}
	if !seen {
		return nil
	}
	return &affine{init.t, step}
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		}
	}
	return ps
}

type wset struct {
	stable map[string]map[*Term]bool
	fresh  map[string]bool
	all    map[string]bool
	allocs bool
	epoch  bool
}

func newWset() *wset {
	return &wset{stable: map[string]map[*Term]bool{}, fresh: map[string]bool{}, all: map[string]bool{}}
}

// merge adds a log; returns true when something new was added.
func (w *wset) merge(x *Exec, lg *wlog, idLimit int) bool {
	ch := false
	if lg.allocs && !w.allocs {
		w.allocs = true
		ch = true
	}
	if lg.epoch && !w.epoch {
		w.epoch = true
		ch = true
	}
	for _, r := range lg.recs {
		if w.all[r.heap] {
			continue
		}
		d := x.heaps[r.heap]
		switch {
		case d.nidx == 0 || r.idx == nil:
			w.all[r.heap] = true
			ch = true
		case r.idx.fresh && r.idx.id >= idLimit:
			if !w.fresh[r.heap] {
				w.fresh[r.heap] = true
				ch = true
			}
		case r.idx.id < idLimit:
			if w.stable[r.heap] == nil {
				w.stable[r.heap] = map[*Term]bool{}
			}
			if !w.stable[r.heap][r.idx] {
				w.stable[r.heap][r.idx] = true
				ch = true
			}
		default:
			w.all[r.heap] = true
			ch = true
		}
	}
	return ch
}

func (w *wset) heaps() []string {
	m := map[string]bool{}
	for h := range w.stable {
		m[h] = true
	}
	for h := range w.fresh {
		m[h] = true
	}
	for h := range w.all {
		m[h] = true
	}
	var out []string
	for h := range m {
		out = append(out, h)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) enterLoop(fr *Frame, st *State, li *loopInfo, from *ssa.BasicBlock) {
	ts := x.ts
	head := li.head
	entryPhi := x.phiVals(fr, from, head)
	for _, p := range headPhis(head) {
		if _, ok := entryPhi[p]; !ok {
			unsup("loop phi without entry value")
		}
	}
	idLimit := ts.next
	entrySt := st.fork()
	entryFr := fr.clone()
	for p, v := range entryPhi {
		entryFr.env[p] = v
	}
	aff := map[*ssa.Phi]*affine{}
	for p, v := range entryPhi {
		if a := x.affinePhi(fr, li, p, v); a != nil {
			aff[p] = a
		}
	}
	phis := headPhis(head)
	w := newWset()
	// propagate inner writes to enclosing logs is automatic: logs are stacked

	// mkHead builds an arbitrary-iteration header state.
	mkHead := func() (*State, *Frame, *Term) {
		s := entrySt.fork()
		f := entryFr.clone()
		k := ts.FreshConst("k", SInt)
		s.assume(ts.Le(ts.Int(0), k))
		if w.epoch {
			x.eng.mu.Lock()
			x.epochs++
			ep := x.epochs
			x.eng.mu.Unlock()
			nh := map[string]*Term{}
			for n, t := range s.heap {
				d := x.heaps[n]
				if d.ghost && !strings.HasPrefix(n, "G|user|") {
					nh[n] = t
				}
			}
			s.heap = nh
			s.epoch = ep
			nn := ts.FreshConst("next", SInt)
			s.assume(ts.Le(s.next, nn))
			s.next = nn
			s.assume(ts.Eq(x.epochNext(ep), nn))
		} else if w.allocs {
			nn := ts.FreshConst("next", SInt)
			s.assume(ts.Le(s.next, nn))
			s.next = nn
		}
		for _, hn := range w.heaps() {
			d := x.heaps[hn]
			if w.epoch && !d.ghost {
				continue
			}
			h0 := x.H(s.heap, s.epoch, d)
			if w.all[hn] {
				s.heap[hn] = x.newHeapConst(d, fmt.Sprintf("%s!l%d", hn, x.tick()), s.next)
				continue
			}
			nh := h0
			c := x.newHeapConst(d, fmt.Sprintf("%s!l%d", hn, x.tick()), s.next)
			if w.fresh[hn] {
				r := ts.BVar("r", SInt)
				conds := []*Term{ts.Lt(r, entrySt.next)}
				for t := range w.stable[hn] {
					conds = append(conds, ts.Not(ts.Eq(r, t)))
				}
				s.assume(ts.Forall([]*Term{r}, ts.Implies(ts.And(conds...), ts.Eq(ts.Select(c, r), ts.Select(h0, r))), ts.Select(c, r)))
				nh = c
			} else {
				var idx []*Term
				for t := range w.stable[hn] {
					idx = append(idx, t)
				}
				sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
				for _, t := range idx {
					nh = ts.Store(nh, t, ts.Select(c, t))
				}
			}
			s.heap[hn] = nh
		}
		for _, p := range phis {
			if a, ok := aff[p]; ok {
				f.env[p] = Val{T: p.Type(), t: ts.Add(a.init, ts.Mul(ts.Int(a.step), k))}
				continue
			}
			if isFuncT(p.Type()) && sameAllEdges(p) {
				continue
			}
			if entryPhi[p].addr != nil || entryPhi[p].tup != nil {
				unsup("loop-carried interior pointer")
			}
			f.env[p] = x.fresh(s, "phi_"+sanitize(p.Comment), p.Type())
		}
		return s, f, k
	}

	// run the body once from a header state; exits cut; calls back for each back edge
	runBody := func(s *State, f *Frame, back func(st *State, fr *Frame, from *ssa.BasicBlock)) *wlog {
		lg := &wlog{}
		x.wlogs = append(x.wlogs, lg)
		x.mute++
		saveN := x.nreturns
		f.loops[head] = &loopCtx{info: li, cutExits: true, onBack: back}
		x.runBlock(f, s, head, x.skipPhis(head))
		x.nreturns = saveN
		x.mute--
		x.wlogs = x.wlogs[:len(x.wlogs)-1]
		return lg
	}

	// 1. discover writes
	for iter := 0; ; iter++ {
		if iter > 8 {
			unsup("loop write-set did not stabilise")
		}
		s, f, _ := mkHead()
		x.discover++
		lg := runBody(s, f, func(*State, *Frame, *ssa.BasicBlock) {})
		x.discover--
		if !w.merge(x, lg, idLimit) {
			break
		}
	}

	// 2. candidates
	if x.discover > 0 {
		// an enclosing loop only collects writes: an arbitrary iteration suffices
		s, f, _ := mkHead()
		f.loops[head] = &loopCtx{info: li, onBack: func(*State, *Frame, *ssa.BasicBlock) {}}
		x.runBlock(f, s, head, x.skipPhis(head))
		return
	}
	cands := x.loopCands(fr, li, entrySt, entryFr, aff)
	key := fmt.Sprintf("%p %s ", head, strings.Join(entrySt.trace, ";"))
	for _, hn := range w.heaps() {
		d := x.heaps[hn]
		if w.epoch && !d.ghost || strings.HasPrefix(hn, "G|visited|") || strings.HasPrefix(hn, "G|dom0|") || strings.HasPrefix(hn, "G|vcount|") {
			continue
		}
		h0 := x.H(entrySt.heap, entrySt.epoch, d)
		if w.all[hn] {
			if d.nidx == 0 {
				cands = append(cands, &cand{auto: true, label: "auto:unchanged " + hn, eval: func(st *State, fr *Frame, k *Term) *Term {
					return ts.Eq(x.H(st.heap, st.epoch, d), h0)
				}})
			}
			if d.nidx >= 1 && !d.ghost {
				cands = append(cands, &cand{auto: true, label: "auto:old objects keep " + hn, eval: func(st *State, fr *Frame, k *Term) *Term {
					q := ts.BVar("r", SInt)
					now := ts.Select(x.H(st.heap, st.epoch, d), q)
					return ts.Forall([]*Term{q}, ts.Implies(ts.And(ts.Le(ts.Int(0), q), ts.Lt(q, x.next0)), ts.Eq(now, ts.Select(h0, q))), now)
				}})
			}
			continue
		}
		if d.nidx == 1 && !w.fresh[hn] {
			var ts0 []*Term
			for t := range w.stable[hn] {
				ts0 = append(ts0, t)
			}
			sort.Slice(ts0, func(i, j int) bool { return ts0[i].id < ts0[j].id })
			for _, t := range ts0 {
				t := t
				cands = append(cands, &cand{auto: true, label: "auto:unchanged " + hn, eval: func(st *State, fr *Frame, k *Term) *Term {
					return ts.Eq(ts.Select(x.H(st.heap, st.epoch, d), t), ts.Select(h0, t))
				}})
			}
		}
	}
	var alive []*cand
	// candidates dropped once under the same path stay dropped: enclosing invariants only get weaker
	var kept []*cand
	var jobs []*Job
	for _, c := range cands {
		if x.dropped[key+c.label] {
			continue
		}
		g, ok := x.tryEval(c, entrySt, entryFr, ts.Int(0))
		if !ok {
			continue
		}
		kept = append(kept, c)
		jobs = append(jobs, x.provesJob(entrySt, g, x.eng.houMs))
	}
	say := func(c *cand, what string) {
		if x.eng.verbose && (!c.auto || os.Getenv("GOVC_AUTO") != "") {
			fmt.Printf("  [loop %s] candidate %s %s\n", x.pos(blockPos(head)), c.label, what)
		}
	}
	for i, c := range kept {
		if x.proved(jobs[i]) {
			alive = append(alive, c)
		} else {
			x.dropped[key+c.label] = true
			say(c, "does not hold on entry")
		}
	}
	// 3. Houdini
	for iter := 0; len(alive) > 0; iter++ {
		if time.Now().After(x.deadline) {
			unsup("time budget exceeded")
		}
		s, f, k := mkHead()
		for _, c := range alive {
			g, ok := x.tryEval(c, s, f, k)
			if ok {
				s.assume(g)
			}
		}
		bad := map[*cand]bool{}
		pend := map[*cand][]*Job{}
		lg := runBody(s, f, func(st2 *State, fr2 *Frame, from2 *ssa.BasicBlock) {
			bp := x.phiVals(fr2, from2, head)
			f2 := fr2.clone()
			for p, v := range bp {
				f2.env[p] = v
			}
			for _, c := range alive {
				var open []*Job
				for _, j := range pend[c] {
					if j.finished() {
						if !x.proved(j) {
							bad[c] = true
						}
					} else {
						open = append(open, j)
					}
				}
				pend[c] = open
				if bad[c] {
					continue
				}
				g, ok := x.tryEval(c, st2, f2, ts.Add(k, ts.Int(1)))
				if !ok {
					bad[c] = true
				} else if j := x.provesJob(st2, g, x.eng.houMs); j != nil {
					pend[c] = append(pend[c], j)
				}
			}
		})
		for _, c := range alive {
			for _, j := range pend[c] {
				if !x.proved(j) {
					bad[c] = true
				}
			}
		}
		if w.merge(x, lg, idLimit) {
			continue
		}
		if len(bad) == 0 {
			break
		}
		var n []*cand
		for _, c := range alive {
			if !bad[c] {
				n = append(n, c)
			} else {
				x.dropped[key+c.label] = true
				say(c, "not preserved")
			}
		}
		alive = n
	}
	// 4. final pass
	s, f, k := mkHead()
	for _, c := range alive {
		if x.mute == 0 {
			g, _ := x.tryEval(c, entrySt, entryFr, ts.Int(0))
			if !c.auto {
				x.check(entrySt.fork(), "invariant-init", c.label, blockPos(head), g)
			}
		}
		if g, ok := x.tryEval(c, s, f, k); ok {
			s.assume(g)
		}
	}
	// the writes of the loop are visible to enclosing loops through the stacked logs
	f.loops[head] = &loopCtx{info: li, onBack: func(st2 *State, fr2 *Frame, from2 *ssa.BasicBlock) {
		if x.mute > 0 {
			return
		}
		bp := x.phiVals(fr2, from2, head)
		f2 := fr2.clone()
		for p, v := range bp {
			f2.env[p] = v
		}
		for _, c := range alive {
			g, ok := x.tryEval(c, st2, f2, ts.Add(k, ts.Int(1)))
			if !ok {
				unsup("invariant %s no longer evaluable", c.label)
			}
			if c.auto {
				continue
			}
			x.check(st2, "invariant", c.label, blockPos(head), g)
		}
	}}
	s.trace = append(s.trace, "loop at "+x.pos(blockPos(head)))
	x.runBlock(f, s, head, x.skipPhis(head))
}

func isFuncT(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }
func sameAllEdges(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e != p.Edges[0] {
			return false
		}
	}
	return true
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) tryEval(c *cand, st *State, fr *Frame, k *Term) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(Unsup); is {
				if x.eng.verbose && (!c.auto || os.Getenv("GOVC_AUTO") != "") {
					fmt.Printf("  candidate %s: %s\n", c.label, u.msg)
				}
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, fr, k), true
}

// localsOfType lists values usable for a metavariable of type t at the header.
func (x *Exec) localsOfType(fr *Frame, li *loopInfo, t types.Type) []ssa.Value {
	var out []ssa.Value
	seen := map[*Term]bool{}
	want := typeKey(t)
	add := func(v ssa.Value, val Val) {
		if val.t == nil || seen[val.t] {
			return
		}
		seen[val.t] = true
		out = append(out, v)
	}
	for _, p := range headPhis(li.head) {
		if typeKey(p.Type()) == want {
			out = append(out, p)
		}
	}
	var rest []ssa.Value
	for v := range fr.env {
		rest = append(rest, v)
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Name() < rest[j].Name() })
	for _, v := range rest {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == li.head {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && in.Parent() == fr.fn && li.blocks[in.Block()] {
			continue
		}
		if al, ok := v.(*ssa.Alloc); ok {
			if el := deref(al.Type()); el != nil && typeKey(el) == want {
				out = append(out, v)
				continue
			}
		}
		if v.Type() != nil && typeKey(v.Type()) == want {
			add(v, fr.env[v])
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return out
}

func (x *Exec) loopEnv(st *State, fr *Frame, k *Term, con *Contract, binds map[string]ssa.Value) *SpecEnv {
	vars := map[string]Val{}
	for n, v := range x.topVars {
		vars[n] = v
	}
	for n, v := range binds {
		val := fr.env[v]
		if al, ok := v.(*ssa.Alloc); ok {
			val = x.load(st.heap, st.epoch, fr.env[al])
		}
		vars[n] = val
	}
	e := x.specEnv(st, con.Pkg, vars, x.entry)
	e.k = k
	e.vis = map[string]*Term{}
	return e
}

func (x *Exec) loopCands(fr *Frame, li *loopInfo, entrySt *State, entryFr *Frame, aff map[*ssa.Phi]*affine) []*cand {
	var out []*cand
	ts := x.ts
	con := fr.con
	// map iteration ghost of this loop
	visName := ""
	for _, in := range li.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				visName = "G|visited|" + fr.fn.String() + "|" + r.Name()
			}
		}
	}
	// automatic candidates
	for _, p := range headPhis(li.head) {
		p := p
		if _, ok := aff[p]; ok {
			continue
		}
		iv := entryFr.env[p]
		switch {
		case x.u.Sort(p.Type()) == SInt && isIntT(p.Type()):
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + ">=init", eval: func(st *State, fr *Frame, k *Term) *Term {
				return ts.Le(iv.t, fr.env[p].t)
			}})
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + "<=init+k", eval: func(st *State, fr *Frame, k *Term) *Term {
				return ts.Le(fr.env[p].t, ts.Add(iv.t, k))
			}})
		case isSliceT(p.Type()):
			lim := x.entry.next
			le := entrySt.next
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + " own", eval: func(st *State, fr *Frame, k *Term) *Term {
				s := fr.env[p].t
				return ts.Or(ts.Eq(ts.SBase(s), ts.Int(0)), ts.Le(lim, ts.SBase(s)))
			}})
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + " own-loop", eval: func(st *State, fr *Frame, k *Term) *Term {
				s := fr.env[p].t
				return ts.Or(ts.Eq(ts.SBase(s), ts.SBase(iv.t)), ts.Le(le, ts.SBase(s)))
			}})
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + " off0", eval: func(st *State, fr *Frame, k *Term) *Term {
				return ts.Eq(ts.SOff(fr.env[p].t), ts.Int(0))
			}})
			out = append(out, &cand{auto: true, label: "auto:len " + p.Name(), eval: func(st *State, fr *Frame, k *Term) *Term {
				return ts.Le(ts.SLen(fr.env[p].t), ts.Add(ts.SLen(iv.t), k))
			}})
			out = append(out, &cand{auto: true, label: "auto:len= " + p.Name(), eval: func(st *State, fr *Frame, k *Term) *Term {
				return ts.Eq(ts.SLen(fr.env[p].t), ts.Add(ts.SLen(iv.t), k))
			}})
		case isPtr(p.Type()):
			lim := x.entry.next
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + " nonnil", eval: func(st *State, fr *Frame, k *Term) *Term {
				return ts.Not(ts.Eq(fr.env[p].t, ts.Int(0)))
			}})
			_ = lim
		}
	}
	if visName != "" {
		cname := strings.Replace(visName, "G|visited|", "G|vcount|", 1)
		out = append(out, &cand{auto: true, label: "auto:keys visited", eval: func(st *State, fr *Frame, k *Term) *Term {
			return ts.Eq(x.H(st.heap, st.epoch, x.heaps[cname]), k)
		}})
	}
	// slices built side by side do not share memory
	hp := headPhis(li.head)
	for i, p := range hp {
		if !isSliceT(p.Type()) {
			continue
		}
		for _, q := range hp[i+1:] {
			if !isSliceT(q.Type()) || typeKey(p.Type()) != typeKey(q.Type()) {
				continue
			}
			p, q := p, q
			out = append(out, &cand{auto: true, label: "auto:" + p.Name() + " apart from " + q.Name(), eval: func(st *State, fr *Frame, k *Term) *Term {
				a, b := ts.SBase(fr.env[p].t), ts.SBase(fr.env[q].t)
				return ts.Or(ts.Eq(a, ts.Int(0)), ts.Eq(b, ts.Int(0)), ts.Not(ts.Eq(a, b)))
			}})
		}
	}
	// comparisons in the header: a < b  gives  a <= b at the header
	for b := range li.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.NEQ, token.GTR, token.GEQ:
			default:
				continue
			}
			if x.u.Sort(bo.X.Type()) != SInt || !isIntT(bo.X.Type()) {
				continue
			}
			bo2 := bo
			mk := func(lhs, rhs ssa.Value, lab string) {
				out = append(out, &cand{auto: true, label: "auto:cmp " + bo2.Name() + lab, eval: func(st *State, fr *Frame, k *Term) *Term {
					return ts.Le(x.pureEval(lhs, st, fr, li), x.pureEval(rhs, st, fr, li))
				}})
			}
			// the comparison is evaluated with the header's phis
			mk(bo.X, bo.Y, "<=")
			mk(bo.Y, bo.X, ">=")
		}
	}
	if con == nil {
		return out
	}
	for _, c := range con.Invs {
		if c.Loop >= 0 && c.Loop != li.ord {
			continue
		}
		c := c
		combos := []map[string]ssa.Value{{}}
		okc := true
		for _, mv := range c.Meta {
			e := &SpecEnv{x: x, pkg: con.Pkg}
			var t types.Type
			func() {
				defer func() {
					if r := recover(); r != nil {
						okc = false
					}
				}()
				t = e.typ(mv.T)
			}()
			if !okc {
				break
			}
			locs := x.localsOfType(entryFr, li, t)
			var nc []map[string]ssa.Value
			for _, m := range combos {
				for _, l := range locs {
					m2 := map[string]ssa.Value{}
					for a, b := range m {
						m2[a] = b
					}
					m2[mv.Name] = l
					nc = append(nc, m2)
				}
			}
			combos = nc
		}
		if !okc {
			continue
		}
		for i, m := range combos {
			m := m
			lab := c.Label
			if len(combos) > 1 {
				lab = fmt.Sprintf("%s#%d", c.Label, i+1)
			}
			out = append(out, &cand{label: lab, eval: func(st *State, fr *Frame, k *Term) *Term {
				e := x.loopEnv(st, fr, k, con, m)
				if visName != "" {
					e.vis["$visited"] = x.H(st.heap, st.epoch, x.heaps[visName])
				}
				for n, d := range x.heaps {
					if strings.HasPrefix(n, "G|visited|") {
						_ = d
					}
				}
				return e.Bool(c.E)
			}})
		}
	}
	return out
}

func isIntT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// pureEval evaluates an SSA value from the header's phis (arithmetic and len only).
func (x *Exec) pureEval(v ssa.Value, st *State, fr *Frame, li *loopInfo) *Term {
	in, isInstr := v.(ssa.Instruction)
	if _, isPhi := v.(*ssa.Phi); isPhi || !isInstr || !li.blocks[in.Block()] {
		if p, ok := v.(*ssa.Phi); ok && li.blocks[p.Block()] && p.Block() != li.head {
			unsup("inner phi")
		}
		return x.term(x.get(fr, v))
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		a, b := x.pureEval(y.X, st, fr, li), x.pureEval(y.Y, st, fr, li)
		switch y.Op {
		case token.ADD:
			return x.ts.Add(a, b)
		case token.SUB:
			return x.ts.Sub(a, b)
		}
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := x.pureEval(y.Call.Args[0], st, fr, li)
			if a.sort == SSlice {
				return x.ts.SLen(a)
			}
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			p := x.pureAddr(y.X, st, fr, li)
			return x.load(st.heap, st.epoch, p).t
		}
	case *ssa.Convert:
		return x.pureEval(y.X, st, fr, li)
	}
	unsup("not pure")
	return nil
}

func (x *Exec) pureAddr(v ssa.Value, st *State, fr *Frame, li *loopInfo) Val {
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !li.blocks[in.Block()] {
		return x.get(fr, v)
	}
	if f, ok := v.(*ssa.FieldAddr); ok {
		b := x.pureAddr(f.X, st, fr, li)
		return x.fieldAddr(b, f.Field)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		p := x.pureAddr(u.X, st, fr, li)
		r := x.load(st.heap, st.epoch, p)
		r.T = u.Type()
		return r
	}
	unsup("not pure address")
	return Val{}
}
