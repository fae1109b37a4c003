package main

// Package-level variables that nothing assigns after package initialisation hold their initial value for ever: their
// loads are replaced by that value. The scan covers every function of the variable's package; only unexported
// variables qualify (no other package can name them).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type frozenGlobal struct {
	ok  bool
	val ssa.Value // the value stored by init (nil: never stored, hence zero)
}

// frozenInfo reports, per global of the package, whether only init stores it.
func (e *Engine) frozenInfo(g *ssa.Global) frozenGlobal {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.frozen == nil {
		e.frozen = map[*ssa.Global]frozenGlobal{}
		e.frozenPkgs = map[*ssa.Package]bool{}
	}
	if !e.frozenPkgs[g.Pkg] {
		e.frozenPkgs[g.Pkg] = true
		e.scanGlobals(g.Pkg)
	}
	return e.frozen[g]
}

func (e *Engine) scanGlobals(p *ssa.Package) {
	info := map[*ssa.Global]*frozenGlobal{}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && !token.IsExported(g.Name()) {
			info[g] = &frozenGlobal{ok: true}
		}
	}
	stored := map[*ssa.Global]int{}
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Pkg != p && (f.Parent() == nil || f.Parent().Pkg != p) && (f.Origin() == nil || f.Origin().Pkg != p) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || info[g] == nil {
						continue
					}
					switch y := in.(type) {
					case *ssa.UnOp:
						if y.Op == token.MUL {
							continue
						}
					case *ssa.FieldAddr:
						if readOnly(y) {
							continue
						}
					case *ssa.Store:
						if f == p.Func("init") && y.Addr == g && y.Val != ssa.Value(g) {
							stored[g]++
							info[g].val = y.Val
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					info[g].ok = false
				}
			}
		}
	}
	for g, i := range info {
		if stored[g] > 1 {
			i.ok = false
		}
		e.frozen[g] = *i
	}
}

func readOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnly(y) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// frozenTerm is the value of a frozen global, or nil.
func (x *Exec) frozenTerm(d *heapDecl) *Term {
	name := strings.TrimPrefix(d.name, "GL|")
	i := strings.LastIndex(name, ".")
	p := x.prog.ImportedPackage(name[:i])
	if p == nil {
		return nil
	}
	g, ok := p.Members[name[i+1:]].(*ssa.Global)
	if !ok || p.Func("init") == nil || len(p.Func("init").Blocks) == 0 {
		return nil
	}
	fi := x.eng.frozenInfo(g)
	if !fi.ok {
		return nil
	}
	x.used["frozen global "+name] = true
	if fi.val == nil {
		return x.u.Zero(d.elem)
	}
	return x.initTerm(d.name, fi.val)
}

// initTerm evaluates a value computed by a package initialiser: constants and composite literals exactly, anything
// else as an unknown but fixed value.
func (x *Exec) initTerm(path string, v ssa.Value) *Term {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(y).t
	case *ssa.Call:
		// a regular expression compiled from a constant is a function of the pattern
		f := y.Call.StaticCallee()
		if f == nil || f.String() != "regexp.MustCompile" {
			break
		}
		if c, ok := y.Call.Args[0].(*ssa.Const); ok {
			return x.ts.App("u.compiled", x.u.Sort(v.Type()), x.constVal(c).t)
		}
	case *ssa.UnOp:
		a, ok := y.X.(*ssa.Alloc)
		if y.Op != token.MUL || !ok || !isStruct(deref(a.Type())) {
			break
		}
		st := under(deref(a.Type())).(*types.Struct)
		vals := make([]*Term, st.NumFields())
		for _, r := range *a.Referrers() {
			switch z := r.(type) {
			case *ssa.FieldAddr:
				rs := *z.Referrers()
				s, ok := rs[0].(*ssa.Store)
				if len(rs) != 1 || !ok || vals[z.Field] != nil || s.Addr != ssa.Value(z) || s.Block() != y.Block() {
					goto unknown
				}
				vals[z.Field] = x.initTerm(path+"."+st.Field(z.Field).Name(), s.Val)
			case *ssa.UnOp:
				if z != y {
					goto unknown
				}
			case *ssa.DebugRef:
			default:
				goto unknown
			}
		}
		{
			si := x.u.structInfo(deref(a.Type()))
			for i := range vals {
				if vals[i] == nil {
					vals[i] = x.u.Zero(st.Field(i).Type())
				}
			}
			return x.ts.mk(si.ctor, si.name, vals...)
		}
	}
unknown:
	return x.ts.Const("GI|"+path, x.u.Sort(v.Type()))
}
