package main

// Mapping of Go types to SMT sorts, and the boxed universe (Any) for interface values.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type StructInfo struct {
	T      *types.Struct
	name   string // sort name
	ctor   string
	fields []string // accessor names
	sorts  []string
}

// Universe is shared per verification context.
type Universe struct {
	ts      *Terms
	structs map[string]*StructInfo // by type key
	sorder  []*StructInfo
	busy    map[string]bool
	tags    map[string]int
	tagTyp  map[int]types.Type
	boxes   map[string]string // struct sort -> box ctor
	opaque  map[string]bool
	arrays  map[string]string // array value type key -> sort
	ghosts  map[string]bool   // ghost types treated as opaque
}

func NewUniverse(ts *Terms) *Universe {
	return &Universe{ts: ts, structs: map[string]*StructInfo{}, busy: map[string]bool{}, tags: map[string]int{}, tagTyp: map[int]types.Type{}, boxes: map[string]string{}, opaque: map[string]bool{}, arrays: map[string]string{}}
}

func typeKey(t types.Type) string {
	return types.TypeString(deepUnalias(t), func(p *types.Package) string { return p.Path() })
}

// deepUnalias replaces the aliases inside unnamed types as well ([]bson.D is []primitive.D).
func deepUnalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch y := t.(type) {
	case *types.Pointer:
		if e := deepUnalias(y.Elem()); e != y.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := deepUnalias(y.Elem()); e != y.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := deepUnalias(y.Elem()); e != y.Elem() {
			return types.NewArray(e, y.Len())
		}
	case *types.Chan:
		if e := deepUnalias(y.Elem()); e != y.Elem() {
			return types.NewChan(y.Dir(), e)
		}
	case *types.Map:
		k, e := deepUnalias(y.Key()), deepUnalias(y.Elem())
		if k != y.Key() || e != y.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Signature:
		ps, a := unaliasTuple(y.Params())
		rs, b := unaliasTuple(y.Results())
		if y.TypeParams() == nil && (a || b) {
			return types.NewSignatureType(nil, nil, nil, ps, rs, y.Variadic())
		}
	}
	return t
}

func unaliasTuple(tu *types.Tuple) (*types.Tuple, bool) {
	if tu == nil {
		return nil, false
	}
	var vs []*types.Var
	ch := false
	for i := 0; i < tu.Len(); i++ {
		v := tu.At(i)
		e := deepUnalias(v.Type())
		if e != v.Type() {
			ch = true
		}
		vs = append(vs, types.NewParam(v.Pos(), v.Pkg(), v.Name(), e))
	}
	return types.NewTuple(vs...), ch
}

func shortType(t types.Type) string {
	return types.TypeString(deepUnalias(t), func(p *types.Package) string { return p.Name() })
}

func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return tp
	}
	return t.Underlying()
}

func isIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}
func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isPtr(t types.Type) bool    { _, ok := under(t).(*types.Pointer); return ok }

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// Sort returns the SMT sort of values of Go type t.
func (u *Universe) Sort(t types.Type) string {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return SBool
		case x.Info()&types.IsString != 0:
			return u.ts.SStr()
		case x.Info()&types.IsInteger != 0:
			return SInt
		case x.Info()&types.IsFloat != 0:
			return SReal
		case x.Kind() == types.UnsafePointer, x.Kind() == types.UntypedNil:
			return SInt
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.TypeParam:
		return "Opq"
	case *types.Struct:
		return u.structInfo(t).name
	case *types.Array:
		return arr(SInt, u.Sort(x.Elem()))
	case *types.Tuple:
		return "Opq"
	}
	panic(fmt.Sprintf("no sort for %s", t))
}

func (u *Universe) structInfo(t types.Type) *StructInfo {
	k := typeKey(t)
	if si, ok := u.structs[k]; ok {
		return si
	}
	st := under(t).(*types.Struct)
	short := sanitize(shortType(t))
	if len(short) > 40 {
		short = short[:40]
	}
	si := &StructInfo{T: st, name: fmt.Sprintf("St@%s.%d", short, len(u.structs)), ctor: fmt.Sprintf("mk@%s.%d", short, len(u.structs))}
	u.structs[k] = si
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		si.fields = append(si.fields, fmt.Sprintf("%s@%s.%d", sanitize(f.Name()), si.name, i))
		si.sorts = append(si.sorts, u.Sort(f.Type()))
	}
	u.sorder = append(u.sorder, si)
	return si
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Tag is the integer identifying dynamic type t.
func (u *Universe) Tag(t types.Type) *Term {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return u.ts.Const("tag$"+tp.Obj().Name(), SInt)
	}
	k := typeKey(t)
	n, ok := u.tags[k]
	if !ok {
		n = len(u.tags) + 1
		u.tags[k] = n
		u.tagTyp[n] = t
	}
	return u.ts.Int(int64(n))
}

// Box wraps a value term of concrete type t into Any.
func (u *Universe) Box(t types.Type, v *Term) *Term {
	tag := u.Tag(t)
	ts := u.ts
	switch u.boxKind(t) {
	case "aint", "abool", "astr", "areal", "aref", "aslice", "aopq":
		return ts.mk(u.boxKind(t), SAny, tag, v)
	}
	c := u.boxKind(t)
	return ts.mk(c, SAny, tag, v)
}

func (u *Universe) boxKind(t types.Type) string {
	switch x := under(t).(type) {
	case *types.Basic:
		s := u.Sort(t)
		switch s {
		case SBool:
			return "abool"
		case SInt:
			return "aint"
		case SReal:
			return "areal"
		case "Opq":
			return "aopq"
		}
		return "astr"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "aref"
	case *types.Slice:
		return "aslice"
	case *types.TypeParam:
		return "aopq"
	case *types.Struct:
		si := u.structInfo(t)
		c := "ast@" + si.name
		u.boxes[si.name] = c
		return c
	case *types.Array:
		_ = x
		return "aopq"
	}
	panic("boxKind " + t.String())
}

var boxAcc = map[string][2]string{
	"aint": {"aint.t", "aint.v"}, "abool": {"abool.t", "abool.v"}, "astr": {"astr.t", "astr.v"},
	"areal": {"areal.t", "areal.v"}, "aref": {"aref.t", "aref.v"}, "aslice": {"aslice.t", "aslice.v"}, "aopq": {"aopq.t", "aopq.v"},
}

// Unbox extracts the payload of x, assumed of dynamic type t.
func (u *Universe) Unbox(t types.Type, x *Term) *Term {
	k := u.boxKind(t)
	a, ok := boxAcc[k]
	if !ok {
		a = [2]string{k + ".t", k + ".v"}
	}
	return u.ts.Acc(a[1], k, 1, u.Sort(t), x)
}

// IsType is the term "x holds dynamic type t" (t concrete).
func (u *Universe) IsType(t types.Type, x *Term) *Term {
	k := u.boxKind(t)
	a, ok := boxAcc[k]
	if !ok {
		a = [2]string{k + ".t", k + ".v"}
	}
	if x.op == k && isCtor(x.op) {
		return u.ts.Eq(x.args[0], u.Tag(t))
	}
	return u.ts.And(u.ts.Is(k, x), u.ts.Eq(u.ts.Acc(a[0], k, 0, SInt, x), u.Tag(t)))
}

// TagOf is the dynamic type tag of an Any (0 for nil).
func (u *Universe) TagOf(x *Term) *Term {
	if x.op == "anil" {
		return u.ts.Int(0)
	}
	if isCtor(x.op) {
		return x.args[0]
	}
	return u.ts.mk("any.tag", SInt, x)
}

func (u *Universe) Prelude() string {
	var b strings.Builder
	b.WriteString("(declare-sort Opq 0)\n")
	if !u.ts.smtStr {
		b.WriteString("(declare-sort Str 0)\n")
	}
	// which structs can be emitted: all registered
	names := []string{"Slice", "Any"}
	defs := []string{"((mkS (s.base Int) (s.off Int) (s.len Int) (s.cap Int)))"}
	ss := u.ts.SStr()
	anyd := "((anil) (aint (aint.t Int) (aint.v Int)) (abool (abool.t Int) (abool.v Bool)) (astr (astr.t Int) (astr.v " + ss + ")) (areal (areal.t Int) (areal.v Real)) (aref (aref.t Int) (aref.v Int)) (aslice (aslice.t Int) (aslice.v Slice)) (aopq (aopq.t Int) (aopq.v Opq))"
	var bs []string
	for s := range u.boxes {
		bs = append(bs, s)
	}
	sort.Strings(bs)
	for _, s := range bs {
		c := u.boxes[s]
		anyd += " (" + c + " (" + c + ".t Int) (" + c + ".v " + s + "))"
	}
	anyd += ")"
	defs = append(defs, anyd)
	for _, si := range u.sorder {
		names = append(names, si.name)
		d := "((" + si.ctor
		for i := range si.fields {
			d += " (" + si.fields[i] + " " + si.sorts[i] + ")"
		}
		d += "))"
		if len(si.fields) == 0 {
			d = "((" + si.ctor + "))"
		}
		defs = append(defs, d)
	}
	b.WriteString("(declare-datatypes (")
	for _, n := range names {
		b.WriteString("(" + n + " 0) ")
	}
	b.WriteString(") (\n")
	for _, d := range defs {
		b.WriteString("  " + d + "\n")
	}
	b.WriteString("))\n")
	// any.tag
	b.WriteString("(define-fun any.tag ((x Any)) Int (ite ((_ is anil) x) 0")
	n := 1
	for _, k := range []string{"aint", "abool", "astr", "areal", "aref", "aslice"} {
		fmt.Fprintf(&b, " (ite ((_ is %s) x) (%s.t x)", k, k)
		n++
	}
	for _, s := range bs {
		c := u.boxes[s]
		fmt.Fprintf(&b, " (ite ((_ is %s) x) (%s.t x)", c, c)
		n++
	}
	b.WriteString(" (aopq.t x)")
	b.WriteString(strings.Repeat(")", n+1) + "\n")
	return b.String()
}

// zero value term of Go type t
func (u *Universe) Zero(t types.Type) *Term {
	ts := u.ts
	switch x := under(t).(type) {
	case *types.Basic:
		switch u.Sort(t) {
		case SBool:
			return ts.False()
		case SInt:
			return ts.Int(0)
		case SReal:
			return ts.mk("0.0", SReal)
		case "Opq":
			return ts.Const("zero$"+typeKey(t), "Opq")
		}
		return ts.Str("")
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return ts.Int(0)
	case *types.Slice:
		return ts.MkSlice(ts.Int(0), ts.Int(0), ts.Int(0), ts.Int(0))
	case *types.Interface:
		return ts.mk("anil", SAny)
	case *types.TypeParam:
		return ts.Const("zero$"+x.Obj().Name(), "Opq")
	case *types.Struct:
		si := u.structInfo(t)
		var as []*Term
		for i := 0; i < x.NumFields(); i++ {
			as = append(as, u.Zero(x.Field(i).Type()))
		}
		return ts.mk(si.ctor, si.name, as...)
	case *types.Array:
		return ts.ConstArr(u.Sort(t), u.Zero(x.Elem()))
	}
	panic("zero of " + t.String())
}

func (u *Universe) FieldAcc(t types.Type, i int, v *Term) *Term {
	si := u.structInfo(t)
	return u.ts.Acc(si.fields[i], si.ctor, i, si.sorts[i], v)
}

func (u *Universe) FieldUpd(t types.Type, i int, v *Term, nv *Term) *Term {
	si := u.structInfo(t)
	var as []*Term
	for j := range si.fields {
		if j == i {
			as = append(as, nv)
		} else {
			as = append(as, u.FieldAcc(t, j, v))
		}
	}
	return u.ts.mk(si.ctor, si.name, as...)
}
