package main

// Contract files: parsing.

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Expr struct {
	Kind string // ident int str real bool nil un bin call sel idx assert quant slice
	S    string // name / operator / literal
	A    []*Expr
	T    *TExpr
	Vars []QVar
	Pats [][]*Expr
	Src  string
}
type QVar struct {
	Name string
	T    *TExpr
}
type TExpr struct {
	Kind string // name ptr slice map gmap func
	S    string // name (maybe qualified)
	A    []*TExpr
}

func (t *TExpr) String() string {
	switch t.Kind {
	case "name":
		return t.S
	case "ptr":
		return "*" + t.A[0].String()
	case "slice":
		return "[]" + t.A[0].String()
	case "map":
		return "map[" + t.A[0].String() + "]" + t.A[1].String()
	case "gmap":
		return "gmap[" + t.A[0].String() + "]" + t.A[1].String()
	}
	return t.Kind
}

type Clause struct {
	Kind  string // requires ensures invariant
	Label string
	E     *Expr
	Meta  []QVar // metavariables for invariants
	Loop  int    // -1: any
	Src   string
	File  string
	Line  int
	Def   bool // assumed by callers, not proved: defines specification functions on a fresh object
}

type Contract struct {
	Key      string // function key
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Invs     []*Clause
	Modifies []*Expr
	ModAll   bool
	Trusted  bool   // body not verified
	Kind     string // func iface functype extern
	Atomic   bool
	Opts     map[string]string
	Pkg      string // package path for type resolution
	File     string
	Line     int
	Pure     bool
	Why      string
	Impls    []string
}

type LockDecl struct {
	TypePkg, TypeName, Field string
	Var                      string
	Guards                   []*Expr
	Tokens                   string // atomicfield: ghost counter of this caller's net additions
	Floor                    bool   // atomicfield: a decrement needs tokens of its own
	Inv                      []*Clause
}

type Define struct {
	Name   string
	Params []QVar
	Ret    *TExpr
	Body   *Expr // nil: uninterpreted
	Pkg    string
}

type SpecFile struct {
	Property   string
	Module     string
	Pkgs       []string          // packages to load
	Alias      map[string]string // alias -> path
	Contracts  map[string]*Contract
	Order      []string
	Defines    map[string]*Define
	Axioms     []*Clause
	AxiomPkg   []string
	Locks      []*LockDecl
	Atomics    []*LockDecl
	Ghosts     []QVar
	Strings    string
	Replays    []ReplaySpec
	Bounded    []ReplaySpec
	Opts       map[string]string
	Files      []string
	Notes      []string
	Inline     map[string]bool
	Raw        []string // raw smt axioms
	UsesYields bool
}

type ReplaySpec struct {
	Dir     string // package dir below /repo
	File    string // harness files (comma separated) in /verif/replay
	Run     string
	Race    bool
	Timeout int
	Note    string
}

// ---------- lexer

type tok struct {
	k string // id num str op eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (isId(s[j]) || s[j] == '.' && j+1 < len(s) && s[j+1] >= '0' && s[j+1] <= '9') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", u})
			i = j + 1
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":="} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t []tok
	p int
}

func (p *parser) peek() tok { return p.t[p.p] }
func (p *parser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Errorf("expected %q, found %q", s, p.peek().s))
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		panic(fmt.Errorf("expected identifier, found %q", t.s))
	}
	return t.s
}

func (p *parser) typ() *TExpr {
	if p.accept("*") {
		return &TExpr{Kind: "ptr", A: []*TExpr{p.typ()}}
	}
	if p.accept("[") {
		p.expect("]")
		return &TExpr{Kind: "slice", A: []*TExpr{p.typ()}}
	}
	n := p.ident()
	if n == "map" || n == "gmap" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		v := p.typ()
		return &TExpr{Kind: n, A: []*TExpr{k, v}}
	}
	if n == "struct" {
		p.expect("{")
		p.expect("}")
		return &TExpr{Kind: "struct0"}
	}
	if n == "chan" {
		return &TExpr{Kind: "chan", A: []*TExpr{p.typ()}}
	}
	if p.isOp(".") {
		p.next()
		n += "." + p.ident()
	}
	return &TExpr{Kind: "name", S: n}
}

func (p *parser) qvars() []QVar {
	var vs []QVar
	for {
		names := []string{p.ident()}
		for p.accept(",") {
			names = append(names, p.ident())
		}
		t := p.typ()
		for _, n := range names {
			vs = append(vs, QVar{n, t})
		}
		if !p.accept(";") {
			break
		}
	}
	return vs
}

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		r := p.imp()
		l = &Expr{Kind: "bin", S: "<==>", A: []*Expr{l, r}}
	}
	return l
}
func (p *parser) imp() *Expr {
	l := p.or()
	if p.accept("==>") {
		r := p.imp()
		return &Expr{Kind: "bin", S: "==>", A: []*Expr{l, r}}
	}
	return l
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = &Expr{Kind: "bin", S: "||", A: []*Expr{l, p.and()}}
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = &Expr{Kind: "bin", S: "&&", A: []*Expr{l, p.cmp()}}
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.add()
	var out *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.isOp(o) {
				op = o
			}
		}
		if op == "" {
			break
		}
		p.next()
		r := p.add()
		c := &Expr{Kind: "bin", S: op, A: []*Expr{l, r}}
		if out == nil {
			out = c
		} else {
			out = &Expr{Kind: "bin", S: "&&", A: []*Expr{out, c}}
		}
		l = r
	}
	if out == nil {
		return l
	}
	return out
}
func (p *parser) add() *Expr {
	l := p.mul()
	for p.isOp("+") || p.isOp("-") {
		op := p.next().s
		l = &Expr{Kind: "bin", S: op, A: []*Expr{l, p.mul()}}
	}
	return l
}
func (p *parser) mul() *Expr {
	l := p.un()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		op := p.next().s
		l = &Expr{Kind: "bin", S: op, A: []*Expr{l, p.un()}}
	}
	return l
}
func (p *parser) un() *Expr {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") || p.isOp("&") {
		op := p.next().s
		return &Expr{Kind: "un", S: op, A: []*Expr{p.un()}}
	}
	return p.post()
}
func (p *parser) post() *Expr {
	e := p.prim()
	for {
		switch {
		case p.isOp("."):
			p.next()
			if p.accept("(") {
				t := p.typ()
				p.expect(")")
				e = &Expr{Kind: "assert", A: []*Expr{e}, T: t}
			} else {
				e = &Expr{Kind: "sel", S: p.ident(), A: []*Expr{e}}
			}
		case p.isOp("["):
			p.next()
			i := p.expr()
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = &Expr{Kind: "upd", A: []*Expr{e, i, v}}
			} else {
				p.expect("]")
				e = &Expr{Kind: "idx", A: []*Expr{e, i}}
			}
		case p.isOp("("):
			p.next()
			c := &Expr{Kind: "call", A: []*Expr{e}}
			fn := ""
			if e.Kind == "ident" {
				fn = e.S
			}
			for !p.isOp(")") {
				if (fn == "is" || fn == "implements") && len(c.A) == 2 || (fn == "box" || fn == "zero" || fn == "typetag") && len(c.A) == 1 && c.T == nil || (fn == "all" || fn == "allcontents") {
					c.T = p.typ()
					if fn == "all" && p.accept(",") {
						c.S = p.ident()
					}
				} else {
					c.A = append(c.A, p.expr())
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func (p *parser) prim() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		if strings.Contains(t.s, ".") {
			return &Expr{Kind: "real", S: t.s}
		}
		return &Expr{Kind: "int", S: t.s}
	case "str":
		return &Expr{Kind: "str", S: t.s}
	case "id":
		switch t.s {
		case "true", "false":
			return &Expr{Kind: "bool", S: t.s}
		case "nil":
			return &Expr{Kind: "nil"}
		case "forall", "exists":
			vs := p.qvars()
			p.expect("::")
			var pats [][]*Expr
			for p.accept("{") {
				var pat []*Expr
				for {
					pat = append(pat, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				pats = append(pats, pat)
			}
			return &Expr{Kind: "quant", S: t.s, Vars: vs, Pats: pats, A: []*Expr{p.expr()}}
		case "let":
			n := p.ident()
			p.expect(":=")
			v := p.expr()
			if p.ident() != "in" {
				panic(fmt.Errorf("expected in"))
			}
			return &Expr{Kind: "let", S: n, A: []*Expr{v, p.expr()}}
		}
		return &Expr{Kind: "ident", S: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(fmt.Errorf("unexpected token %q", t.s))
}

func parseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{t: ts}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing input at %q", p.peek().s)
	}
	e.Src = s
	return e, nil
}

// splitTop splits a comma separated list at depth 0.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if r := strings.TrimSpace(s[st:]); r != "" {
		out = append(out, r)
	}
	return out
}

var kwords = map[string]bool{"property": true, "module": true, "package": true, "strings": true, "load": true, "extern": true, "define": true, "ufun": true, "axiom": true, "func": true, "trusted": true, "iface": true, "functype": true, "lock": true, "atomicfield": true, "requires": true, "ensures": true, "defines": true, "modifies": true, "invariant": true, "option": true, "ghost": true, "replay": true, "bounded": true, "atomic": true, "include": true, "guards": true, "lockinv": true, "pure": true, "why": true, "implements": true, "note": true, "inline": true, "smt": true, "in": true}

func NewSpecFile() *SpecFile {
	return &SpecFile{Alias: map[string]string{}, Contracts: map[string]*Contract{}, Defines: map[string]*Define{}, Opts: map[string]string{}, Strings: "abstract", Inline: map[string]bool{}}
}

func parseSpecInto(sf *SpecFile, path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	sf.Files = append(sf.Files, path)
	type item struct {
		kw, rest string
		line     int
	}
	var items []item
	for ln, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		tl := strings.TrimSpace(l)
		if tl == "" {
			continue
		}
		w := tl
		if i := strings.IndexAny(tl, " \t"); i >= 0 {
			w = tl[:i]
		}
		if kwords[w] && !(w == "in") {
			items = append(items, item{w, strings.TrimSpace(tl[len(w):]), ln + 1})
		} else if len(items) > 0 {
			items[len(items)-1].rest += " " + tl
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", path, ln+1, tl)
		}
	}
	var cur *Contract
	var lock *LockDecl
	curPkg := ""
	fail := func(it item, err error) error {
		return fmt.Errorf("%s:%d: %s %s: %v", path, it.line, it.kw, it.rest, err)
	}
	label := func(s string) (string, string) {
		if i := strings.IndexByte(s, ':'); i > 0 && i+1 < len(s) && s[i+1] != '=' && s[i+1] != ':' {
			l := strings.TrimSpace(s[:i])
			ok := true
			for _, c := range l {
				if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
					ok = false
				}
			}
			if ok {
				return l, strings.TrimSpace(s[i+1:])
			}
		}
		return "", s
	}
	for _, it := range items {
		switch it.kw {
		case "property":
			sf.Property = it.rest
		case "note":
			sf.Notes = append(sf.Notes, it.rest)
		case "module":
			sf.Module = it.rest
		case "include":
			if err := parseSpecInto(sf, filepath.Join(filepath.Dir(path), it.rest)); err != nil {
				return err
			}
		case "strings":
			sf.Strings = it.rest
		case "package", "load":
			// package alias = "path"
			parts := strings.SplitN(it.rest, "=", 2)
			if len(parts) != 2 {
				return fail(it, fmt.Errorf("want alias = \"path\""))
			}
			a := strings.TrimSpace(parts[0])
			pth := strings.Trim(strings.TrimSpace(parts[1]), "\"")
			sf.Alias[a] = pth
			sf.Pkgs = append(sf.Pkgs, pth)
			if it.kw == "package" {
				curPkg = pth
			}
		case "inline":
			for _, f := range strings.Fields(it.rest) {
				sf.Inline[f] = true
			}
		case "smt":
			sf.Raw = append(sf.Raw, it.rest)
		case "ghost":
			ts, err := lex(it.rest)
			if err != nil {
				return fail(it, err)
			}
			p := &parser{t: ts}
			sf.Ghosts = append(sf.Ghosts, p.qvars()...)
		case "define", "ufun":
			d, err := parseDefine(it.rest, it.kw == "define")
			if err != nil {
				return fail(it, err)
			}
			d.Pkg = curPkg
			sf.Defines[d.Name] = d
		case "axiom":
			l, s := label(it.rest)
			e, err := parseExpr(s)
			if err != nil {
				return fail(it, err)
			}
			sf.Axioms = append(sf.Axioms, &Clause{Kind: "axiom", Label: l, E: e, Src: s, File: path, Line: it.line})
			sf.AxiomPkg = append(sf.AxiomPkg, curPkg)
		case "lock":
			// lock (v *pkg.T).field
			l, err := parseLock(it.rest)
			if err != nil {
				return fail(it, err)
			}
			l.TypePkg = resolveAlias(sf, l.TypePkg, curPkg)
			sf.Locks = append(sf.Locks, l)
			lock = l
			cur = nil
		case "atomicfield":
			// atomicfield (v *T).field tokens=ghost floor=1
			f := strings.Fields(it.rest)
			n := 2
			for n < len(f) && strings.Contains(f[n], "=") == false {
				n++
			}
			l, err := parseLock(strings.Join(f[:n], " "))
			if err != nil {
				return fail(it, err)
			}
			for _, o := range f[n:] {
				if v, ok := strings.CutPrefix(o, "tokens="); ok {
					l.Tokens = v
				}
				if o == "floor=1" {
					l.Floor = true
				}
			}
			l.TypePkg = resolveAlias(sf, l.TypePkg, curPkg)
			sf.Atomics = append(sf.Atomics, l)
			lock = l
			cur = nil
		case "guards":
			for _, s := range splitTop(it.rest) {
				e, err := parseExpr(s)
				if err != nil {
					return fail(it, err)
				}
				lock.Guards = append(lock.Guards, e)
			}
		case "lockinv":
			l, s := label(it.rest)
			e, err := parseExpr(s)
			if err != nil {
				return fail(it, err)
			}
			lock.Inv = append(lock.Inv, &Clause{Kind: "lockinv", Label: l, E: e, Src: s, File: path, Line: it.line})
		case "func", "trusted", "iface", "functype", "extern":
			c, err := parseHeader(it.rest)
			if err != nil {
				return fail(it, err)
			}
			c.Kind = it.kw
			c.Trusted = it.kw != "func"
			c.Pkg = curPkg
			c.File, c.Line = path, it.line
			if !(it.kw == "functype" && c.Key == "any") {
				c.Key = resolveKey(sf, c.Key, curPkg)
			}
			if it.kw == "functype" {
				c.Key = "functype " + c.Key
			}
			if it.kw == "extern" && strings.Contains(c.Key, "*wild*") {
				return fail(it, fmt.Errorf("bad"))
			}
			sf.Contracts[c.Key] = c
			sf.Order = append(sf.Order, c.Key)
			cur = c
		case "requires", "ensures", "defines", "invariant":
			if cur == nil {
				return fail(it, fmt.Errorf("no function"))
			}
			cl := &Clause{Kind: it.kw, Loop: -1, File: path, Line: it.line}
			rest := it.rest
			if it.kw == "invariant" {
				if strings.HasPrefix(rest, "loop ") {
					f := strings.Fields(rest)
					n, err := strconv.Atoi(f[1])
					if err != nil {
						return fail(it, err)
					}
					cl.Loop = n
					rest = strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(rest, "loop"), " "))
					rest = strings.TrimSpace(rest[len(f[1]):])
				}
				if strings.HasPrefix(rest, "<") {
					j := strings.IndexByte(rest, '>')
					ts, err := lex(rest[1:j])
					if err != nil {
						return fail(it, err)
					}
					p := &parser{t: ts}
					cl.Meta = p.qvars()
					rest = strings.TrimSpace(rest[j+1:])
				}
			}
			l, s := label(rest)
			e, err := parseExpr(s)
			if err != nil {
				return fail(it, err)
			}
			cl.Label, cl.E, cl.Src = l, e, s
			if strings.Contains(s, "yields(") {
				sf.UsesYields = true
			}
			switch it.kw {
			case "requires":
				if l == "" {
					cl.Label = fmt.Sprintf("pre%d", len(cur.Requires)+1)
				}
				cur.Requires = append(cur.Requires, cl)
			case "defines":
				cl.Def = true
				if l == "" {
					cl.Label = fmt.Sprintf("def%d", len(cur.Ensures)+1)
				}
				cur.Ensures = append(cur.Ensures, cl)
			case "ensures":
				if l == "" {
					cl.Label = fmt.Sprintf("post%d", len(cur.Ensures)+1)
				}
				cur.Ensures = append(cur.Ensures, cl)
			default:
				if l == "" {
					cl.Label = fmt.Sprintf("inv%d", len(cur.Invs)+1)
				}
				cur.Invs = append(cur.Invs, cl)
			}
		case "modifies":
			if it.rest == "everything" {
				cur.ModAll = true
				continue
			}
			if it.rest == "nothing" {
				continue
			}
			for _, s := range splitTop(it.rest) {
				e, err := parseExpr(s)
				if err != nil {
					return fail(it, err)
				}
				cur.Modifies = append(cur.Modifies, e)
			}
		case "atomic":
			cur.Atomic = true
		case "pure":
			cur.Pure = true
		case "why":
			cur.Why = it.rest
		case "implements":
			cur.Impls = append(cur.Impls, resolveKey(sf, it.rest, curPkg))
		case "option":
			kv := strings.SplitN(it.rest, "=", 2)
			v := "true"
			if len(kv) == 2 {
				v = strings.TrimSpace(kv[1])
			}
			if cur != nil {
				cur.Opts[strings.TrimSpace(kv[0])] = v
			} else {
				sf.Opts[strings.TrimSpace(kv[0])] = v
			}
		case "replay", "bounded":
			// replay dir=... file=... run=... note=...
			r := ReplaySpec{}
			for _, f := range strings.Fields(it.rest) {
				kv := strings.SplitN(f, "=", 2)
				if len(kv) != 2 {
					r.Note += " " + f
					continue
				}
				switch kv[0] {
				case "dir":
					r.Dir = kv[1]
				case "file":
					r.File = kv[1]
				case "run":
					r.Run = kv[1]
				case "race":
					r.Race = kv[1] == "1"
				case "timeout":
					r.Timeout, _ = strconv.Atoi(kv[1])
				default:
					r.Note += " " + f
				}
			}
			if it.kw == "replay" {
				sf.Replays = append(sf.Replays, r)
			} else {
				sf.Bounded = append(sf.Bounded, r)
			}
		}
	}
	return nil
}

func resolveAlias(sf *SpecFile, a, cur string) string {
	if a == "" {
		return cur
	}
	if p, ok := sf.Alias[a]; ok {
		return p
	}
	return a
}

// Key forms accepted: Name, alias.Name, (*T).M, (T).M, alias.(*T).M, alias.T.M (iface), "path".Name
// Canonical: path.Name | (*path.T).M | (path.T).M
func resolveKey(sf *SpecFile, k, cur string) string {
	k = strings.TrimSpace(k)
	pre := ""
	if strings.HasPrefix(k, "\"") {
		j := strings.Index(k[1:], "\"") + 1
		pre = k[1:j]
		k = strings.TrimPrefix(k[j+1:], ".")
	} else if !strings.HasPrefix(k, "(") {
		if i := strings.IndexByte(k, '.'); i > 0 {
			if p, ok := sf.Alias[k[:i]]; ok {
				pre = p
				k = k[i+1:]
			}
		}
	}
	if pre == "" {
		pre = cur
	}
	if strings.HasPrefix(k, "(") {
		j := strings.IndexByte(k, ')')
		recv := k[1:j]
		rest := k[j+1:]
		if strings.HasPrefix(recv, "*") {
			return "(*" + pre + "." + recv[1:] + ")" + rest
		}
		return "(" + pre + "." + recv + ")" + rest
	}
	if strings.Count(k, ".") == 1 { // T.M : interface method
		p := strings.SplitN(k, ".", 2)
		return "(" + pre + "." + p[0] + ")." + p[1]
	}
	return pre + "." + k
}

func parseHeader(s string) (*Contract, error) {
	c := &Contract{Opts: map[string]string{}}
	s = strings.TrimSpace(s)
	// results
	i := 0
	// find the parameter list: the last or second to last paren group not directly followed by '.'
	depth := 0
	type grp struct{ a, b int }
	var gs []grp
	st := 0
	inq := false
	for i = 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inq = !inq
		case '(':
			if inq {
				continue
			}
			if depth == 0 {
				st = i
			}
			depth++
		case ')':
			if inq {
				continue
			}
			depth--
			if depth == 0 {
				if i+1 < len(s) && s[i+1] == '.' {
					continue // receiver
				}
				gs = append(gs, grp{st, i})
			}
		}
	}
	if len(gs) == 0 {
		return nil, fmt.Errorf("no parameter list")
	}
	c.Key = strings.TrimSpace(s[:gs[0].a])
	c.Params = splitTop(s[gs[0].a+1 : gs[0].b])
	if len(gs) > 1 {
		c.Results = splitTop(s[gs[1].a+1 : gs[1].b])
	}
	return c, nil
}

func parseDefine(s string, body bool) (d *Define, err error) {
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{t: ts}
	d = &Define{Name: p.ident()}
	p.expect("(")
	if !p.isOp(")") {
		for {
			names := []string{p.ident()}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			t := p.typ()
			for _, n := range names {
				d.Params = append(d.Params, QVar{n, t})
			}
			if !p.accept(";") {
				break
			}
		}
	}
	p.expect(")")
	d.Ret = p.typ()
	if body {
		p.expect("=")
		d.Body = p.expr()
	}
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q", p.peek().s)
	}
	return d, nil
}

func parseLock(s string) (*LockDecl, error) {
	// (v *pkg.T).field   or (v *T).field
	s = strings.TrimSpace(s)
	j := strings.IndexByte(s, ')')
	if !strings.HasPrefix(s, "(") || j < 0 {
		return nil, fmt.Errorf("want (v *T).field")
	}
	f := strings.Fields(s[1:j])
	l := &LockDecl{Var: f[0], Field: strings.TrimPrefix(s[j+1:], ".")}
	t := strings.TrimPrefix(f[1], "*")
	if i := strings.IndexByte(t, '.'); i > 0 {
		l.TypePkg, t = t[:i], t[i+1:]
	}
	l.TypeName = t
	return l, nil
}

// isMarker: an application of a specification function that is only used in triggers
func (e *Expr) isMarker() bool {
	return e != nil && e.Kind == "call" && (strings.HasPrefix(e.S, "open") || len(e.A) > 0 && strings.HasPrefix(e.A[0].S, "open"))
}
