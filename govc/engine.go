package main

// Loading of the code under verification and the per-function driver.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPrefix = "github.com/blueprint-uservices/blueprint/"

type Engine struct {
	frozen     map[*ssa.Global]frozenGlobal
	frozenPkgs map[*ssa.Package]bool

	pool       *Pool
	repo       string
	work       string
	overlay    string
	genExtra   map[string]string
	mu         sync.Mutex
	feasMs     int
	obMs       int
	houMs      int
	fbMs       int
	fbLeft     int
	nUndecided int
	maxSteps   int
	maxPaths   int
	funcSec    int
	verbose    bool
	prog       *ssa.Program
	sf         *SpecFile
	pkgs       map[string]*types.Package
	loadSec    float64
	built      map[string]bool
}

func NewEngine(repo, work string) *Engine {
	return &Engine{repo: repo, work: work, feasMs: 400, obMs: 8000, houMs: 2500, fbMs: 10000, fbLeft: 40, maxSteps: 3000000, maxPaths: 60000, funcSec: 240, pkgs: map[string]*types.Package{}}
}

const missingDep = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go"

// writeOverlay makes the go overlay that drops the one requirement that cannot be fetched offline.
func (e *Engine) goOverlay(extra map[string]string, name string) (string, error) {
	rep := map[string]string{}
	re := regexp.MustCompile(`(?m)^\s*(?:require\s+)?` + regexp.QuoteMeta(missingDep) + `\s.*\n`)
	err := filepath.Walk(e.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && fi.Name() == ".git" {
			return filepath.SkipDir
		}
		if fi.Name() == "go.mod" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			n := re.ReplaceAll(b, nil)
			if string(n) != string(b) {
				rel, _ := filepath.Rel(e.repo, p)
				dst := filepath.Join(e.work, strings.ReplaceAll(rel, "/", "_"))
				if err := os.WriteFile(dst, n, 0o644); err != nil {
					return err
				}
				rep[p] = dst
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	for k, v := range e.genExtra {
		rep[k] = v
	}
	for k, v := range extra {
		rep[k] = v
	}
	out := filepath.Join(e.work, name)
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	return out, os.WriteFile(out, b, 0o644)
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOPACKAGESDRIVER":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOPROXY=off", "GOTOOLCHAIN=local", "GOPACKAGESDRIVER=off")
}

func (e *Engine) Load(sf *SpecFile) error {
	t0 := time.Now()
	e.sf = sf
	ov, err := e.goOverlay(nil, "overlay.json")
	if err != nil {
		return err
	}
	e.overlay = ov
	dir := e.repo
	env := append(goEnv(), "GOFLAGS=-overlay="+ov)
	for _, p := range sf.Opts {
		_ = p
	}
	if d := sf.Opts["dir"]; d != "" {
		dir = d
		env = append(goEnv(), "GOFLAGS=-overlay="+ov)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  env,
	}
	if len(e.genExtra) > 0 {
		// packages.Load reads source files itself, so it needs the overlay's contents too
		b, err := os.ReadFile(ov)
		if err != nil {
			return err
		}
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(b, &o); err != nil {
			return err
		}
		cfg.Overlay = map[string][]byte{}
		for k, v := range o.Replace {
			if cfg.Overlay[k], err = os.ReadFile(v); err != nil {
				return err
			}
		}
	}
	seen := map[string]bool{}
	var pats []string
	for _, p := range sf.Pkgs {
		if !seen[p] {
			seen[p] = true
			pats = append(pats, p)
		}
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if p.Types != nil {
			e.pkgs[p.PkgPath] = p.Types
		}
		if strings.HasPrefix(p.PkgPath, modPrefix) || seen[p.PkgPath] {
			for _, er := range p.Errors {
				errs = append(errs, er.Error())
			}
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	e.prog = prog
	for _, p := range prog.AllPackages() {
		if e.inlinePkg(p.Pkg.Path()) {
			p.Build()
		}
	}
	e.loadSec = time.Since(t0).Seconds()
	return nil
}

func (e *Engine) inlinePkg(path string) bool {
	return strings.HasPrefix(path, modPrefix) || strings.HasPrefix(path, "govcgen/") || e.sf.Inline[path]
}

func (e *Engine) pkgByPath(p string) *types.Package { return e.pkgs[p] }

// resolveType interprets a type written in a contract.
func (e *Engine) resolveType(sf *SpecFile, t *TExpr, pkg string, fn *ssa.Function) types.Type {
	switch t.Kind {
	case "struct0":
		return types.NewStruct(nil, nil)
	case "ptr":
		return types.NewPointer(e.resolveType(sf, t.A[0], pkg, fn))
	case "slice":
		return types.NewSlice(e.resolveType(sf, t.A[0], pkg, fn))
	case "map":
		return types.NewMap(e.resolveType(sf, t.A[0], pkg, fn), e.resolveType(sf, t.A[1], pkg, fn))
	case "gmap":
		return &MathMap{e.resolveType(sf, t.A[0], pkg, fn), e.resolveType(sf, t.A[1], pkg, fn)}
	case "chan":
		return types.NewChan(types.SendRecv, e.resolveType(sf, t.A[0], pkg, fn))
	}
	n := t.S
	switch n {
	case "any":
		return tAny
	case "error":
		return types.Universe.Lookup("error").Type()
	case "ref":
		return tInt
	}
	if fn != nil {
		for f := fn; f != nil; f = f.Parent() {
			sig := f.Signature
			for _, l := range []*types.TypeParamList{sig.TypeParams(), sig.RecvTypeParams(), f.TypeParams()} {
				if l == nil {
					continue
				}
				for i := 0; i < l.Len(); i++ {
					if l.At(i).Obj().Name() == n {
						return l.At(i)
					}
				}
			}
		}
	}
	if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	path, name := pkg, n
	if i := strings.IndexByte(n, '.'); i > 0 {
		a := n[:i]
		name = n[i+1:]
		if p, ok := sf.Alias[a]; ok {
			path = p
		} else {
			path = a
		}
	}
	p := e.pkgByPath(path)
	if p == nil {
		unsup("contract names unknown package %q (type %s)", path, n)
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		unsup("contract names unknown type %s.%s", path, name)
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		unsup("%s.%s is not a type", path, name)
	}
	tt := tn.Type()
	// a generic type written without arguments: the receiver's own instance
	if nt, ok := tt.(*types.Named); ok && nt.TypeParams().Len() > 0 && fn != nil {
		if r := fn.Signature.Recv(); r != nil {
			rt := r.Type()
			if d := deref(rt); d != nil {
				rt = d
			}
			if rn, ok := rt.(*types.Named); ok && rn.Obj() == nt.Obj() {
				return rn
			}
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			rt := fn.Signature.Params().At(i).Type()
			if d := deref(rt); d != nil {
				rt = d
			}
			if rn, ok := types.Unalias(rt).(*types.Named); ok && rn.Obj() == nt.Obj() {
				return rn
			}
		}
	}
	return tt
}

// findFunc resolves a canonical contract key.
func (e *Engine) findFunc(key string) *ssa.Function {
	anon := ""
	k := key
	if i := strings.IndexByte(k, '$'); i > 0 {
		anon = k[i:]
		k = k[:i]
	}
	var fn *ssa.Function
	if strings.HasPrefix(k, "(") {
		j := strings.LastIndexByte(k, ')')
		recv, m := k[1:j], strings.TrimPrefix(k[j+1:], ".")
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		d := strings.LastIndexByte(recv, '.')
		p := e.pkgByPath(recv[:d])
		if p == nil {
			return nil
		}
		o := p.Scope().Lookup(recv[d+1:])
		if o == nil {
			return nil
		}
		t := o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		obj, _, _ := types.LookupFieldOrMethod(t, true, p, m)
		f, ok := obj.(*types.Func)
		if !ok {
			return nil
		}
		fn = e.prog.FuncValue(f)
	} else {
		d := strings.LastIndexByte(k, '.')
		p := e.pkgByPath(k[:d])
		if p == nil {
			return nil
		}
		f, ok := p.Scope().Lookup(k[d+1:]).(*types.Func)
		if !ok {
			return nil
		}
		fn = e.prog.FuncValue(f)
	}
	for anon != "" && fn != nil {
		n := 0
		fmt.Sscanf(anon[1:], "%d", &n)
		if n < 1 || n > len(fn.AnonFuncs) {
			return nil
		}
		fn = fn.AnonFuncs[n-1]
		anon = anon[1:]
		if i := strings.IndexByte(anon, '$'); i >= 0 {
			anon = anon[i:]
		} else {
			anon = ""
		}
	}
	return fn
}

func shortKey(k string) string {
	i := strings.LastIndexByte(k, '/')
	if i < 0 {
		return k
	}
	pre := ""
	for _, c := range k {
		if c == '(' || c == '*' {
			pre += string(c)
		} else {
			break
		}
	}
	return pre + k[i+1:]
}

func (e *Engine) newExec(sol *Solver, con *Contract, fn *ssa.Function) *Exec {
	ts := NewTerms()
	ts.smtStr = e.sf.Strings == "smt"
	x := &Exec{eng: e, prog: e.prog, sf: e.sf, ts: ts, u: NewUniverse(ts), sol: sol, top: con, topFn: fn, topName: shortKey(con.Key),
		heaps: map[string]*heapDecl{}, init: map[string]*Term{}, axioms: map[int][]*Term{}, closures: map[*Term]*Closure{}, ifaceAddr: map[*Term]*Addr{},
		topVars: map[string]Val{}, dropped: map[string]bool{}, assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, implQ: map[string]types.Type{}}
	x.deadline = time.Now().Add(time.Duration(e.funcSec) * time.Second)
	return x
}

type FuncResult struct {
	Key      string
	Obligs   []*Oblig
	Used     []string
	Inlined  []string
	Assumed  []string
	Paths    int
	Returns  int
	Queries  int
	Ms       int64
	SolverMs int64
	Modes    []string
	Infeas   int
	Ssa      int
}

// VerifyFunc discharges every obligation of one contract.
func (e *Engine) VerifyFunc(sol *Solver, con *Contract) *FuncResult {
	r := &FuncResult{Key: con.Key}
	t0 := time.Now()
	q0, s0 := sol.nq, sol.spent
	jobs, jobMs := 0, time.Duration(0)
	defer func() {
		r.Ms = time.Since(t0).Milliseconds()
		r.Queries = sol.nq - q0 + jobs
		r.SolverMs = (sol.spent - s0 + jobMs).Milliseconds()
	}()
	fn := e.findFunc(con.Key)
	if fn == nil {
		// an unexported helper that no longer exists has no callers left either; whoever took over its work is
		// executed through its callers
		n := con.Key[strings.LastIndexByte(con.Key, '.')+1:]
		if n != "" && n[0] >= 'a' && n[0] <= 'z' && !strings.Contains(n, "$") {
			r.Assumed = append(r.Assumed, "contract of "+shortKey(con.Key)+" retired: the current source has no such helper")
			return r
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		r.Obligs = append(r.Obligs, &Oblig{Func: shortKey(con.Key), Kind: "exists", Label: "function", Result: "failed", Detail: "function under contract not found in the current source"})
		return r
	}
	modes := []bool{false}
	if con.Atomic {
		modes = []bool{false, true}
	}
	for _, conc := range modes {
		x := e.newExec(sol, con, fn)
		x.conc = conc
		m := "sequential"
		if conc {
			m = "concurrent"
		}
		r.Modes = append(r.Modes, m)
		func() {
			defer func() {
				if rec := recover(); rec != nil {
					u, ok := rec.(Unsup)
					if !ok {
						if os.Getenv("GOVC_PANIC") != "" {
							panic(rec)
						}
						u = Unsup{fmt.Sprintf("internal error: %v", rec)}
					}
					x.res = append(x.res, &Oblig{Func: x.topName, Kind: "translate", Label: "body", Result: "unknown", Detail: u.msg})
				}
			}()
			x.verify(con, fn)
		}()
		x.settle(0)
		jobs += x.jobs
		jobMs += x.jobMs
		for _, o := range x.res {
			if conc {
				o.Kind += "@conc"
			}
		}
		r.Obligs = append(r.Obligs, x.res...)
		r.Used = append(r.Used, mkeys(x.used)...)
		r.Inlined = append(r.Inlined, mkeys(x.inlined)...)
		r.Assumed = append(r.Assumed, mkeys(x.assumed)...)
		r.Paths += x.npaths
		r.Returns += x.nreturns
		r.Infeas += x.infeasN
		r.Ssa += x.nsteps
	}
	return r
}

func mkeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) verify(con *Contract, fn *ssa.Function) {
	ts := x.ts
	st := &State{heap: map[string]*Term{}}
	x.next0 = ts.Const("next0", SInt)
	st.next = x.next0
	st.assume(ts.Le(ts.Int(1), x.next0))
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, con: con, stack: []*ssa.Function{fn}}
	if len(con.Params) != len(fn.Params) {
		unsup("contract of %s lists %d parameters, the function has %d", con.Key, len(con.Params), len(fn.Params))
	}
	for i, p := range fn.Params {
		c := ts.Const("p_"+con.Params[i], x.u.Sort(p.Type()))
		st.assume(x.wf(p.Type(), c, x.next0))
		v := Val{T: p.Type(), t: c}
		fr.env[p] = v
		x.topVars[con.Params[i]] = v
	}
	var caps []*Term
	for _, fv := range fn.FreeVars {
		c := ts.Const("fv_"+fv.Name(), x.u.Sort(fv.Type()))
		st.assume(x.wf(fv.Type(), c, x.next0))
		v := Val{T: fv.Type(), t: c}
		if isPtr(fv.Type()) {
			st.assume(ts.Lt(ts.Int(0), c))
			for _, o := range caps {
				st.assume(ts.Not(ts.Eq(o, c)))
			}
			caps = append(caps, c)
		}
		fr.env[fv] = v
		x.topVars[fv.Name()] = v
	}
	// user axioms
	x.entry = st.snap()
	pre := x.specEnv(st, con.Pkg, x.topVars, nil)
	for i, a := range x.sf.Axioms {
		ae := *pre
		ae.pkg = x.sf.AxiomPkg[i]
		ae.vars = map[string]Val{}
		x.addBase("user:"+a.Label+a.Src, ae.Bool(a.E))
	}
	for _, raw := range x.sf.Raw {
		_ = raw
	}
	for _, r := range con.Requires {
		st.assume(pre.Bool(r.E))
	}
	// heaps mentioned by requires belong to the entry snapshot
	x.entry = st.snap()
	if len(st.pc) > 0 {
		o := &Oblig{Func: x.topName, Kind: "vacuity", Label: "precondition-satisfiable", Result: "proved", Back: "z3-new"}
		if !x.feasible(st, ts.True()) {
			o.Result = "failed"
			o.Detail = "the precondition is contradictory"
		}
		x.res = append(x.res, o)
	}
	fr.ret = func(st2 *State, fr2 *Frame, rs []Val) { x.atReturn(con, st2, rs) }
	if len(fn.Blocks) == 0 {
		unsup("no body")
	}
	if li := x.loopAt(fn, fn.Blocks[0]); li != nil {
		unsup("loop at function entry")
	}
	x.runBlock(fr, st, fn.Blocks[0], 0)
	if con.Opts["noreturn"] == "" {
		o := &Oblig{Func: x.topName, Kind: "vacuity", Label: "some-path-returns", Result: "proved", Back: "z3-new"}
		if x.nreturns == 0 {
			o.Result = "failed"
			o.Detail = "no path reaches a return"
		}
		x.res = append(x.res, o)
	}
}

func (x *Exec) atReturn(con *Contract, st *State, rs []Val) {
	ts := x.ts
	x.nreturns++
	if x.mute > 0 {
		return
	}
	fn := x.topFn
	vars := map[string]Val{}
	for n, v := range x.topVars {
		vars[n] = v
	}
	for i := range rs {
		rs[i].T = fn.Signature.Results().At(i).Type()
		if i < len(con.Results) {
			vars[con.Results[i]] = rs[i]
		}
	}
	old := x.entry
	if x.conc && st.acq != nil {
		old = st.acq
	}
	st.trace = append(st.trace, "return")
	e := x.specEnv(st, con.Pkg, vars, old)
	for _, q := range con.Ensures {
		if x.conc && strings.HasPrefix(q.Label, "seq") {
			continue
		}
		if q.Def {
			continue
		}
		x.checkEns(st.fork(), "ensures", q.Label, fn, e.Bool(q.E))
	}
	for _, ik := range con.Impls {
		ic := x.sf.Contracts[ik]
		if ic == nil {
			unsup("implements: no contract %s", ik)
		}
		iv := map[string]Val{}
		for i, n := range ic.Params {
			if i < len(fn.Params) {
				v := x.topVars[con.Params[i]]
				if i == 0 && x.sortOf(v) != SAny {
					v = Val{T: tAny, t: x.box(v)}
				}
				iv[n] = v
			}
		}
		for i, n := range ic.Results {
			if i < len(rs) {
				iv[n] = rs[i]
			}
		}
		ie := x.specEnv(st, ic.Pkg, iv, old)
		for _, q := range ic.Ensures {
			x.checkEns(st.fork(), "implements", shortKey(ik)+"."+q.Label, fn, ie.Bool(q.E))
		}
	}
	// locks as found
	names := mkeysHeap(x.heaps)
	for _, n := range names {
		d := x.heaps[n]
		if !strings.HasPrefix(n, "G|lock|") {
			continue
		}
		cur, ok := st.heap[n]
		if !ok {
			continue
		}
		was := x.H(x.entry.heap, x.entry.epoch, d)
		if cur == was {
			continue
		}
		r := ts.FreshConst("r", SInt)
		x.check(st.fork(), "lock", "released-at-return:"+strings.TrimPrefix(n[strings.LastIndexByte(n, '.')+1:], "."), fn.Pos(), ts.Implies(ts.Lt(r, x.next0), ts.Eq(ts.Select(cur, r), ts.Select(was, r))))
	}
	if x.conc || con.ModAll || con.Opts["noframe"] != "" {
		return
	}
	// frame
	ms := x.modEntries(con, x.topVars, x.entry)
	for _, n := range names {
		d := x.heaps[n]
		if strings.HasPrefix(n, "G|lock|") || strings.HasPrefix(n, "G|visited|") || strings.HasPrefix(n, "G|dom0|") || strings.HasPrefix(n, "G|vcount|") || strings.HasPrefix(n, "G|before:") || n == "G|acquires" || n == "G|spawns" {
			continue
		}
		if d.kind == "L" {
			continue
		}
		cur, ok := st.heap[n]
		if !ok {
			if st.epoch == x.entry.epoch || d.ghost {
				continue
			}
			cur = x.H(st.heap, st.epoch, d)
		}
		was := x.H(x.entry.heap, x.entry.epoch, d)
		if cur == was {
			continue
		}
		all := false
		var idx []*Term
		var cells []modEntry
		for _, m := range ms[n] {
			if m.all || m.idx == nil {
				all = true
			} else if m.idx2 != nil {
				cells = append(cells, m)
				if len(m.path) > 0 {
					a, b := ts.Select(ts.Select(was, m.idx), m.idx2), ts.Select(ts.Select(cur, m.idx), m.idx2)
					x.check(st.fork(), "frame", n+" part", fn.Pos(), ts.Eq(b, x.updPath(m.path, a, x.accPath(m.path, b))))
				}
			} else {
				if len(m.path) > 0 && d.nidx > 0 {
					a, b := ts.Select(was, m.idx), ts.Select(cur, m.idx)
					x.check(st.fork(), "frame", n+" part", fn.Pos(), ts.Eq(b, x.updPath(m.path, a, x.accPath(m.path, b))))
				}
				idx = append(idx, m.idx)
			}
		}
		if all {
			continue
		}
		lab := n
		if i := strings.LastIndexByte(lab, '/'); i >= 0 {
			lab = lab[:strings.IndexByte(lab, '|')+1] + lab[i+1:]
		}
		if d.nidx == 0 {
			x.check(st.fork(), "frame", lab, fn.Pos(), ts.Eq(cur, was))
			continue
		}
		ks, _ := arrParts(d.sort)
		r := ts.FreshConst("r", ks)
		cs := []*Term{}
		if ks == SInt {
			lo := int64(0)
			if strings.HasPrefix(n, "C|") || strings.HasPrefix(n, "F|") {
				lo = 1 // nothing is stored at the nil pointer
			}
			cs = append(cs, ts.Lt(r, x.next0), ts.Le(ts.Int(lo), r))
		}
		for _, i := range idx {
			cs = append(cs, ts.Not(ts.Eq(r, i)))
		}
		if len(cells) > 0 {
			ks2, _ := arrParts(mustInner(d.sort))
			r2 := ts.FreshConst("r", ks2)
			for _, m := range cells {
				cs = append(cs, ts.Not(ts.And(ts.Eq(r, m.idx), ts.Eq(r2, m.idx2))))
			}
			x.check(st.fork(), "frame", lab, fn.Pos(), ts.Implies(ts.And(cs...), ts.Eq(ts.Select(ts.Select(cur, r), r2), ts.Select(ts.Select(was, r), r2))))
			continue
		}
		x.check(st.fork(), "frame", lab, fn.Pos(), ts.Implies(ts.And(cs...), ts.Eq(ts.Select(cur, r), ts.Select(was, r))))
	}
}

func (x *Exec) checkEns(st *State, kind, label string, fn *ssa.Function, g *Term) {
	x.check(st, kind, label, fn.Pos(), g)
}

func mkeysHeap(m map[string]*heapDecl) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
