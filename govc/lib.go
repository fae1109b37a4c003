package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// modelLib models library functions specified directly in the generator.
func (x *Exec) modelLib(fr *Frame, st *State, f *ssa.Function, key string, args []Val, pos token.Pos, k cont) bool {
	return false
}

// closureYields establishes what every call of a newly created closure returns, when its body is a single path
// that writes nothing, depends on no argument, and reads captured variables that are assigned only once.
func (x *Exec) closureYields(fr *Frame, st *State, c *Closure, ref *Term, pos token.Pos) {
	f := c.fn
	if len(f.Blocks) != 1 || f.Signature.Results().Len() == 0 {
		return
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			if s, ok := in.(*ssa.Store); ok {
				if _, local := baseAlloc(s.Addr); local {
					continue
				}
			}
			return
		}
	}
	for _, b := range c.binds {
		_ = b
	}
	for i, fv := range f.FreeVars {
		_ = i
		if !assignedOnce(f, fv) {
			return
		}
	}
	st2 := st.fork()
	n0 := len(st2.pc)
	var results [][]Val
	var final *State
	var args []Val
	for _, p := range f.Params {
		args = append(args, x.fresh(st2, "anyarg", p.Type()))
	}
	argTerms := map[*Term]bool{}
	for _, a := range args {
		argTerms[a.t] = true
	}
	x.mute++
	m0 := x.mutedN
	wl := x.wlogs
	x.wlogs = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Unsup); !ok {
					panic(r)
				}
				results = nil
			}
		}()
		nf := &Frame{fn: f, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: fr.depth + 1, con: fr.con, stack: append(fr.stack[:len(fr.stack):len(fr.stack)], f)}
		for i, p := range f.Params {
			nf.env[p] = args[i]
		}
		for i, fv := range f.FreeVars {
			nf.env[fv] = c.binds[i]
		}
		nf.ret = func(s *State, _ *Frame, rs []Val) { results = append(results, rs); final = s }
		x.runBlock(nf, st2, f.Blocks[0], 0)
	}()
	x.mute--
	x.wlogs = wl
	if len(results) != 1 || x.mutedN != m0 {
		return
	}
	if final.epoch != st.epoch {
		return
	}
	for i := range results[0] {
		v := results[0][i]
		v.T = f.Signature.Results().At(i).Type()
		t := x.box(v)
		if mentions(t, argTerms) {
			return
		}
		st.assume(x.ts.Eq(x.ts.App("yields"+string(rune('0'+i)), t.sort, ref), t))
	}
	for _, p := range final.pc[n0:] {
		if !mentions(p, argTerms) {
			st.assume(p)
		}
	}
	if x.ts.Le(st.next, final.next) != nil {
		st.next = final.next
	}
}

func baseAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch y := v.(type) {
		case *ssa.Alloc:
			return y, true
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		default:
			return nil, false
		}
	}
}

// assignedOnce: the variable captured as fv is stored exactly once in the enclosing function and never elsewhere.
func assignedOnce(f *ssa.Function, fv *ssa.FreeVar) bool {
	parent := f.Parent()
	if parent == nil {
		return false
	}
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	for _, b := range parent.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			al, ok := mc.Bindings[idx].(*ssa.Alloc)
			if !ok {
				return false
			}
			stores := 0
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Val == al {
						return false
					}
					stores++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					if y.Fn != f {
						return false
					}
				default:
					return false
				}
			}
			if stores > 1 {
				return false
			}
		}
	}
	for _, r := range *fv.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func mentions(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
