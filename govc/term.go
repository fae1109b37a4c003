package main

// Hash-consed SMT terms with light syntactic simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	op    string
	args  []*Term
	sort  string
	id    int
	open  bool // contains a bound variable
	bvs   []*Term
	qh    int // quantifier nesting height
	fresh bool // allocated reference constant
	lit   bool // integer/bool/real literal
	ival  int64
	sval  string // string literal payload
	isStr bool
}

// Terms is the term table of one verification context.
type Terms struct {
	tab     map[string]*Term
	next    int
	decls   []*Term // declared constants in order
	declSet map[string]bool
	funs    map[string]string // uninterpreted function -> declaration text
	funOrd  []string
	strs    map[string]*Term
	nfresh  int
	smtStr  bool
}

func NewTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, declSet: map[string]bool{}, funs: map[string]string{}, strs: map[string]*Term{}}
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SReal  = "Real"
	SSlice = "Slice"
	SAny   = "Any"
)

func (ts *Terms) SStr() string {
	if ts.smtStr {
		return "String"
	}
	return "Str"
}

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case '|':
			j := strings.IndexByte(body[i+1:], '|')
			i += j + 1
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func (ts *Terms) mk(op, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('\x00')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: srt, id: ts.next}
	ts.next++
	for _, a := range args {
		if a.open {
			t.open = true
		}
		t.qh = max(t.qh, a.qh)
	}
	ts.tab[k] = t
	return t
}

func (ts *Terms) Const(name, srt string) *Term {
	n := sym(name)
	t := ts.mk(n, srt)
	if !ts.declSet[n] {
		ts.declSet[n] = true
		ts.decls = append(ts.decls, t)
	}
	return t
}

func (ts *Terms) FreshConst(prefix, srt string) *Term {
	ts.nfresh++
	return ts.Const(fmt.Sprintf("%s!%d", prefix, ts.nfresh), srt)
}

func (ts *Terms) BVar(name, srt string) *Term {
	ts.nfresh++
	t := ts.mk(sym(fmt.Sprintf("%s?%d", name, ts.nfresh)), srt)
	t.open = true
	return t
}

func sym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!?.$@-", c)) {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	s = strings.ReplaceAll(s, "|", "!")
	s = strings.ReplaceAll(s, "\\", "/")
	return "|" + s + "|"
}

func (ts *Terms) Int(i int64) *Term {
	op := strconv.FormatInt(i, 10)
	if i < 0 {
		if i == -9223372036854775808 {
			op = "(- 9223372036854775808)"
		} else {
			op = "(- " + strconv.FormatInt(-i, 10) + ")"
		}
	}
	t := ts.mk(op, SInt)
	t.lit = true
	t.ival = i
	return t
}
func (ts *Terms) BigInt(s string) *Term {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return ts.Int(i)
	}
	if strings.HasPrefix(s, "-") {
		return ts.mk("(- "+s[1:]+")", SInt)
	}
	return ts.mk(s, SInt)
}
func (ts *Terms) RealLit(r *big.Rat) *Term {
	n, d := r.Num().String(), r.Denom().String()
	neg := false
	if strings.HasPrefix(n, "-") {
		neg = true
		n = n[1:]
	}
	s := n + ".0"
	if d != "1" {
		s = "(/ " + n + ".0 " + d + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	t := ts.mk(s, SReal)
	t.lit = true
	return t
}
func (ts *Terms) True() *Term  { t := ts.mk("true", SBool); t.lit = true; return t }
func (ts *Terms) False() *Term { t := ts.mk("false", SBool); t.lit = true; return t }
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True()
	}
	return ts.False()
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isInt() bool   { return t.lit && t.sort == SInt }

func (ts *Terms) Str(s string) *Term {
	if t, ok := ts.strs[s]; ok {
		return t
	}
	var t *Term
	if ts.smtStr {
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c == '"' {
				b.WriteString("\"\"")
			} else if c < 32 || c > 126 || c == '\\' {
				fmt.Fprintf(&b, "\\u{%x}", c)
			} else {
				b.WriteByte(c)
			}
		}
		b.WriteByte('"')
		t = ts.mk(b.String(), "String")
	} else {
		t = ts.Const(fmt.Sprintf("str$%d", len(ts.strs)), "Str")
	}
	t.isStr = true
	t.sval = s
	ts.strs[s] = t
	return t
}

// ---- boolean

func (ts *Terms) Not(a *Term) *Term {
	if a.isTrue() {
		return ts.False()
	}
	if a.isFalse() {
		return ts.True()
	}
	if a.op == "not" {
		return a.args[0]
	}
	return ts.mk("not", SBool, a)
}
func (ts *Terms) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() {
			continue
		}
		if a.isFalse() {
			return a
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return ts.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return ts.mk("and", SBool, out...)
}
func (ts *Terms) Or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.isFalse() {
			continue
		}
		if a.isTrue() {
			return a
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return ts.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return ts.mk("or", SBool, out...)
}
func (ts *Terms) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return ts.True()
	}
	if b.isFalse() {
		return ts.Not(a)
	}
	return ts.mk("=>", SBool, a, b)
}
func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.isTrue() && b.isFalse() {
		return c
	}
	if a.isFalse() && b.isTrue() {
		return ts.Not(c)
	}
	return ts.mk("ite", a.sort, c, a, b)
}

var ctorNames = map[string]bool{"mkS": true, "anil": true, "aint": true, "abool": true, "astr": true, "areal": true, "aref": true, "aslice": true, "aopq": true}

func isCtor(op string) bool {
	return ctorNames[op] || strings.HasPrefix(op, "mk@") || strings.HasPrefix(op, "|mk@") || strings.HasPrefix(op, "ast@") || strings.HasPrefix(op, "|ast@")
}

func (ts *Terms) distinctSyn(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.lit && b.lit && a.sort != SReal {
		return true
	}
	if a.isStr && b.isStr {
		return true
	}
	if a.fresh && b.fresh {
		return true
	}
	if a.fresh && (b.isInt() || !b.open && b.id < a.id) {
		return true
	}
	if b.fresh && (a.isInt() || !a.open && a.id < b.id) {
		return true
	}
	if isCtor(a.op) && isCtor(b.op) {
		if a.op != b.op {
			return true
		}
		for i := range a.args {
			if ts.distinctSyn(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	// x + c1 vs x + c2
	if a.sort == SInt {
		ax, ac := splitAdd(a)
		bx, bc := splitAdd(b)
		if ax == bx && ac != bc {
			return true
		}
	}
	return false
}

func splitAdd(a *Term) (*Term, int64) {
	if a.op == "+" && len(a.args) == 2 && a.args[1].isInt() {
		return a.args[0], a.args[1].ival
	}
	return a, 0
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if ts.distinctSyn(a, b) {
		return ts.False()
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return ts.Not(b)
		}
		if b.isFalse() {
			return ts.Not(a)
		}
	}
	if isCtor(a.op) && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, ts.Eq(a.args[i], b.args[i]))
		}
		return ts.And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk("=", SBool, a, b)
}

// ---- arithmetic

func (ts *Terms) Add(a, b *Term) *Term {
	if a.sort == SInt {
		if a.isInt() && b.isInt() {
			return ts.Int(a.ival + b.ival)
		}
		if a.isInt() {
			a, b = b, a
		}
		if b.isInt() {
			if b.ival == 0 {
				return a
			}
			x, c := splitAdd(a)
			if c != 0 {
				return ts.Add(x, ts.Int(c+b.ival))
			}
			return ts.mk("+", SInt, a, b)
		}
		ax, ac := splitAdd(a)
		bx, bc := splitAdd(b)
		if ac+bc != 0 || ac != 0 || bc != 0 {
			return ts.Add(ts.Add(ax, bx), ts.Int(ac+bc))
		}
		if ax.id > bx.id {
			ax, bx = bx, ax
		}
		return ts.mk("+", SInt, ax, bx)
	}
	return ts.mk("+", a.sort, a, b)
}
func (ts *Terms) Sub(a, b *Term) *Term {
	if a.sort == SInt {
		if b.isInt() {
			return ts.Add(a, ts.Int(-b.ival))
		}
		ax, ac := splitAdd(a)
		bx, bc := splitAdd(b)
		if ax == bx {
			return ts.Int(ac - bc)
		}
		// (x + y) - y
		if ax.op == "+" && len(ax.args) == 2 {
			if ax.args[0] == bx {
				return ts.Add(ax.args[1], ts.Int(ac-bc))
			}
			if ax.args[1] == bx {
				return ts.Add(ax.args[0], ts.Int(ac-bc))
			}
		}
	}
	return ts.mk("-", a.sort, a, b)
}
func (ts *Terms) Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return ts.Int(a.ival * b.ival)
	}
	if a.isInt() && a.ival == 1 {
		return b
	}
	if b.isInt() && b.ival == 1 {
		return a
	}
	return ts.mk("*", a.sort, a, b)
}
func (ts *Terms) Cmp(op string, a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		var r bool
		switch op {
		case "<":
			r = a.ival < b.ival
		case "<=":
			r = a.ival <= b.ival
		case ">":
			r = a.ival > b.ival
		case ">=":
			r = a.ival >= b.ival
		}
		return ts.Bool(r)
	}
	if a == b {
		return ts.Bool(op == "<=" || op == ">=")
	}
	switch op {
	case ">":
		op, a, b = "<", b, a
	case ">=":
		op, a, b = "<=", b, a
	}
	if a.sort == SInt {
		ax, ac := splitAdd(a)
		bx, bc := splitAdd(b)
		if ax == bx {
			if op == "<" {
				return ts.Bool(ac < bc)
			}
			return ts.Bool(ac <= bc)
		}
	}
	return ts.mk(op, SBool, a, b)
}
func (ts *Terms) Lt(a, b *Term) *Term { return ts.Cmp("<", a, b) }
func (ts *Terms) Le(a, b *Term) *Term { return ts.Cmp("<=", a, b) }

// ---- arrays

func (ts *Terms) Select(a, i *Term) *Term {
	_, v := arrParts(a.sort)
	cur := a
	for n := 0; n < 400; n++ {
		if cur.op == "store" {
			if cur.args[1] == i {
				return cur.args[2]
			}
			if ts.distinctSyn(cur.args[1], i) {
				cur = cur.args[0]
				continue
			}
		}
		break
	}
	if strings.HasPrefix(cur.op, "(as const ") {
		return cur.args[0]
	}
	return ts.mk("select", v, cur, i)
}
func (ts *Terms) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	_, vs := arrParts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("Store sort mismatch: array %s value %s:%s", a.sort, v, v.sort))
	}
	return ts.mk("store", a.sort, a, i, v)
}
func (ts *Terms) ConstArr(srt string, v *Term) *Term {
	return ts.mk("(as const "+srt+")", srt, v)
}

// ---- datatypes

func (ts *Terms) Ctor(name, srt string, args ...*Term) *Term { return ts.mk(name, srt, args...) }

// Acc applies accessor number i (named acc) of constructor ctor.
func (ts *Terms) Acc(acc, ctor string, i int, srt string, x *Term) *Term {
	if x.op == ctor {
		return x.args[i]
	}
	if x.op == "ite" {
		a, b := x.args[1], x.args[2]
		if a.op == ctor || b.op == ctor {
			return ts.Ite(x.args[0], ts.Acc(acc, ctor, i, srt, a), ts.Acc(acc, ctor, i, srt, b))
		}
	}
	return ts.mk(acc, srt, x)
}
func (ts *Terms) Is(ctor string, x *Term) *Term {
	if isCtor(x.op) {
		return ts.Bool(x.op == ctor)
	}
	return ts.mk("(_ is "+ctor+")", SBool, x)
}

// ---- slices
func (ts *Terms) MkSlice(base, off, ln, cp *Term) *Term {
	return ts.mk("mkS", SSlice, base, off, ln, cp)
}
func (ts *Terms) SBase(s *Term) *Term { return ts.Acc("s.base", "mkS", 0, SInt, s) }
func (ts *Terms) SOff(s *Term) *Term  { return ts.Acc("s.off", "mkS", 1, SInt, s) }
func (ts *Terms) SLen(s *Term) *Term  { return ts.Acc("s.len", "mkS", 2, SInt, s) }
func (ts *Terms) SCap(s *Term) *Term  { return ts.Acc("s.cap", "mkS", 3, SInt, s) }

// ---- uninterpreted functions
func (ts *Terms) DeclFun(name string, argSorts []string, ret string) {
	n := sym(name)
	if _, ok := ts.funs[n]; ok {
		return
	}
	ts.funs[n] = "(declare-fun " + n + " (" + strings.Join(argSorts, " ") + ") " + ret + ")"
	ts.funOrd = append(ts.funOrd, n)
}
func (ts *Terms) App(name, ret string, args ...*Term) *Term {
	if len(args) == 0 {
		return ts.Const(name, ret)
	}
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	ts.DeclFun(name, as, ret)
	return ts.mk(sym(name), ret, args...)
}

// ---- quantifiers
func (ts *Terms) Quant(q string, vars []*Term, pats []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	// bound variables are named by nesting height, so that alpha-equivalent quantifiers are one term
	h := body.qh
	for _, p := range pats {
		h = max(h, p.qh)
	}
	h++
	ren := map[*Term]*Term{}
	nv := make([]*Term, len(vars))
	for i, v := range vars {
		nv[i] = ts.mk(sym(fmt.Sprintf("q%d.%d", h, i)), v.sort)
		nv[i].open = true
		if nv[i] != v {
			ren[v] = nv[i]
		}
	}
	if len(ren) > 0 {
		memo := map[*Term]*Term{}
		body = ts.Subst(body, ren, memo)
		np := make([]*Term, len(pats))
		for i, p := range pats {
			np[i] = ts.Subst(p, ren, memo)
		}
		nb := max(body.qh, 0)
		for _, p := range np {
			nb = max(nb, p.qh)
		}
		if nb+1 != h || body.isTrue() || body.isFalse() {
			return ts.Quant(q, nv, np, body)
		}
		pats = np
	}
	vars = nv
	var b strings.Builder
	b.WriteString(q + " (")
	for _, v := range vars {
		b.WriteString("(" + v.op + " " + v.sort + ")")
	}
	b.WriteString(")")
	op := b.String()
	args := []*Term{body}
	args = append(args, pats...)
	t := ts.mk(op, SBool, args...)
	t.bvs = vars
	t.qh = h
	// openness: closed unless other bound vars occur
	free := map[int]bool{}
	for _, a := range args {
		freeVars(a, free, map[int]bool{})
	}
	for _, v := range vars {
		delete(free, v.id)
	}
	t.open = len(free) > 0
	return t
}
func (ts *Terms) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return ts.Quant("forall", vars, pats, body)
}
func (ts *Terms) Exists(vars []*Term, body *Term) *Term { return ts.Quant("exists", vars, nil, body) }

func freeVars(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.open || seen[t.id] {
		return
	}
	seen[t.id] = true
	if len(t.args) == 0 {
		out[t.id] = true
		return
	}
	for _, a := range t.args {
		freeVars(a, out, seen)
	}
	for _, v := range t.bvs {
		delete(out, v.id)
	}
}

// Subst replaces leaf terms.
func (ts *Terms) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = ts.Subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = ts.rebuild(t, as)
	}
	memo[t] = r
	return r
}
func (ts *Terms) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return ts.And(as...)
	case "or":
		return ts.Or(as...)
	case "not":
		return ts.Not(as[0])
	case "=>":
		return ts.Implies(as[0], as[1])
	case "ite":
		return ts.Ite(as[0], as[1], as[2])
	case "=":
		return ts.Eq(as[0], as[1])
	case "+":
		if len(as) == 2 {
			return ts.Add(as[0], as[1])
		}
	case "-":
		if len(as) == 2 {
			return ts.Sub(as[0], as[1])
		}
	case "<", "<=":
		return ts.Cmp(t.op, as[0], as[1])
	case "select":
		return ts.Select(as[0], as[1])
	case "store":
		return ts.Store(as[0], as[1], as[2])
	}
	if t.bvs != nil {
		q := "forall"
		if strings.HasPrefix(t.op, "exists") {
			q = "exists"
		}
		return ts.Quant(q, t.bvs, as[1:], as[0])
	}
	return ts.mk(t.op, t.sort, as...)
}

// ---- printing

func (t *Term) String() string {
	var b strings.Builder
	writeTerm(&b, t, nil, 0)
	s := b.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func writeTerm(b *strings.Builder, t *Term, names map[int]string, depth int) {
	if names != nil {
		if n, ok := names[t.id]; ok {
			b.WriteString(n)
			return
		}
	} else if depth > 12 {
		b.WriteString("…")
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	if t.bvs != nil {
		b.WriteString("(" + t.op + " ")
		if len(t.args) > 1 {
			b.WriteString("(! ")
			writeTerm(b, t.args[0], names, depth+1)
			// each pattern argument is one (multi-)pattern; op "pats" groups
			for _, p := range t.args[1:] {
				b.WriteString(" :pattern (")
				if p.op == "@multipat" {
					for i, q := range p.args {
						if i > 0 {
							b.WriteByte(' ')
						}
						writeTerm(b, q, names, depth+1)
					}
				} else {
					writeTerm(b, p, names, depth+1)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			writeTerm(b, t.args[0], names, depth+1)
		}
		b.WriteString(")")
		return
	}
	b.WriteString("(" + t.op)
	for _, a := range t.args {
		b.WriteByte(' ')
		writeTerm(b, a, names, depth+1)
	}
	b.WriteString(")")
}

// Script renders assertions as an SMT-LIB script body (declarations, sharing, asserts).
func (ts *Terms) Script(prelude func(used map[string]bool) string, asserts []*Term) string {
	refs := map[int]int{}
	consts := map[int]*Term{}
	usedFun := map[string]bool{}
	var order []*Term
	state := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t.id]++
		if state[t.id] {
			return
		}
		state[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		if len(t.args) == 0 {
			if ts.declSet[t.op] {
				consts[t.id] = t
			}
		} else {
			if _, ok := ts.funs[t.op]; ok {
				usedFun[t.op] = true
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	// abstract string literals: keep distinctness
	var strLits []*Term
	if !ts.smtStr {
		for _, t := range ts.strs {
			if consts[t.id] != nil {
				strLits = append(strLits, t)
			}
		}
		if usedFun["str.len"] || usedFun["str.cat"] {
			e := ts.Str("")
			if consts[e.id] == nil {
				consts[e.id] = e
				strLits = append(strLits, e)
			}
		}
		sort.Slice(strLits, func(i, j int) bool { return strLits[i].id < strLits[j].id })
	}
	var b strings.Builder
	b.WriteString(prelude(usedFun))
	for _, f := range ts.funOrd {
		if usedFun[f] {
			b.WriteString(ts.funs[f] + "\n")
		}
	}
	var cs []*Term
	for _, c := range consts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		b.WriteString("(declare-const " + c.op + " " + c.sort + ")\n")
	}
	if len(strLits) > 1 {
		b.WriteString("(assert (distinct")
		for _, t := range strLits {
			b.WriteString(" " + t.op)
		}
		b.WriteString("))\n")
	}
	if usedFun["str.cat"] && !usedFun["str.len"] {
		b.WriteString("(declare-fun str.len (Str) Int)\n")
		usedFun["str.len"] = true
	}
	if usedFun["str.len"] {
		for _, t := range strLits {
			fmt.Fprintf(&b, "(assert (= (str.len %s) %d))\n", t.op, len(t.sval))
		}
		e := ts.Str("")
		fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (and (>= (str.len s) 0) (=> (= (str.len s) 0) (= s %s))) :pattern ((str.len s)))))\n", e.op)
	}
	if usedFun["str.cat"] {
		e := ts.Str("")
		b.WriteString("(declare-fun str.pre (Str Int) Str)\n(declare-fun str.post (Str Int) Str)\n")
		b.WriteString("(assert (forall ((a Str) (b Str)) (! (and (= (str.len (str.cat a b)) (+ (str.len a) (str.len b))) (= (str.pre (str.cat a b) (str.len a)) a) (= (str.post (str.cat a b) (str.len a)) b)) :pattern ((str.cat a b)))))\n")
		fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (= (str.cat s %s) s) :pattern ((str.cat s %s)))))\n", e.op, e.op)
		fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (= (str.cat %s s) s) :pattern ((str.cat %s s)))))\n", e.op, e.op)
	}
	names := map[int]string{}
	for _, t := range order {
		if refs[t.id] > 1 && len(t.args) > 0 && !t.open {
			n := "t$" + strconv.Itoa(t.id)
			b.WriteString("(define-fun " + n + " () " + t.sort + " ")
			writeTerm(&b, t, names, 0)
			b.WriteString(")\n")
			names[t.id] = n
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		writeTerm(&b, a, names, 0)
		b.WriteString(")\n")
	}
	// Reads of a loop's heap that occur only inside quantified formulas are not ground terms for the solver, so the
	// loop's frame axioms are not instantiated for them: mention them outside (the predicate says nothing).
	said := map[string]bool{}
	for _, t := range loopReads(order) {
		if !said[t.sort] {
			said[t.sort] = true
			b.WriteString("(declare-fun " + sym("mention "+t.sort) + " (" + t.sort + ") Bool)\n")
		}
		b.WriteString("(assert (" + sym("mention "+t.sort) + " ")
		writeTerm(&b, t, names, 0)
		b.WriteString("))\n")
	}
	return b.String()
}

func loopReads(order []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "select" && !t.open {
			r := t.args[0]
			for r.op == "select" {
				r = r.args[0]
			}
			if len(r.args) == 0 && strings.Contains(r.op, "!l") {
				if !strings.HasPrefix(t.sort, "(Array") {
					out = append(out, t)
				}
				return
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range order {
		if len(t.bvs) > 0 {
			visit(t)
		}
	}
	return out
}
