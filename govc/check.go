package main

// The check command: verify the contracts of one property against the current source, replay violations on the real
// code, and write the evidence file.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type known struct{ prop, oblig, text string }

func loadKnown(path, prop string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	re := regexp.MustCompile(`^finding: property=(\S+) (obligation|input)=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			out = append(out, known{m[1], m[3], m[4]})
		}
	}
	return out
}

type replayRes struct {
	Spec    ReplaySpec
	Inputs  []string // failing inputs reported by the harness
	Ran     bool     // compiled and ran
	Passed  bool
	Output  string
	Summary []string
	Secs    float64
}

// runHarness runs an in-package test of /repo through an overlay.
func (e *Engine) runHarness(verif string, r ReplaySpec, n int, env []string) *replayRes {
	t0 := time.Now()
	out := &replayRes{Spec: r}
	defer func() { out.Secs = time.Since(t0).Seconds() }()
	extra := map[string]string{}
	dir := filepath.Join(e.repo, r.Dir)
	for _, f := range strings.Split(r.File, ",") {
		extra[filepath.Join(dir, "govc_"+filepath.Base(f))] = filepath.Join(verif, "replay", f)
	}
	ov, err := e.goOverlay(extra, fmt.Sprintf("overlay-replay%d.json", n))
	if err != nil {
		out.Output = err.Error()
		return out
	}
	to := r.Timeout
	if to == 0 {
		to = 150
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(to+120)*time.Second)
	defer cancel()
	args := []string{"test", "-vet=off", "-count=1", "-v", fmt.Sprintf("-timeout=%ds", to), "-run", r.Run}
	if r.Race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	c := exec.CommandContext(ctx, "go", args...)
	c.Dir = dir
	c.Env = append(append(goEnv(), "GOFLAGS=-overlay="+ov, "CGO_ENABLED=1"), env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 5 * time.Second
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err = c.Run()
	s := buf.String()
	out.Passed = err == nil
	out.Ran = strings.Contains(s, "=== RUN")
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "FAILING-INPUT:"); i >= 0 {
			out.Inputs = append(out.Inputs, strings.TrimSpace(l[i:]))
		}
		if i := strings.Index(l, "COVERED:"); i >= 0 {
			out.Summary = append(out.Summary, strings.TrimSpace(l[i+8:]))
		}
	}
	if out.Ran && !out.Passed {
		for _, m := range []string{"WARNING: DATA RACE", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "panic: test timed out"} {
			if strings.Contains(s, m) {
				out.Inputs = append(out.Inputs, "FAILING-INPUT: schedule: "+m)
			}
		}
	}
	if len(s) > 60000 {
		s = s[:30000] + "\n...\n" + s[len(s)-30000:]
	}
	out.Output = s
	return out
}

// modelHints extracts constants from counterexample models to seed the replay search.
func modelHints(fails []*Oblig) string {
	ints, strs := map[string]bool{}, map[string]bool{}
	ri := regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`)
	rs := regexp.MustCompile(`"((?:[^"]|"")*)"`)
	for _, o := range fails {
		for _, m := range ri.FindAllStringSubmatch(o.Model, 400) {
			if m[1] != "" {
				ints["-"+m[1]] = true
			} else if len(m[2]) < 19 {
				ints[m[2]] = true
			}
		}
		for _, m := range rs.FindAllStringSubmatch(o.Model, 400) {
			strs[m[1]] = true
		}
	}
	b, _ := json.Marshal(map[string]any{"ints": mkeys(ints), "strs": mkeys(strs)})
	return string(b)
}

func cmdCheck(args []string) {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	nj := fs.Int("j", 8, "")
	force := fs.Bool("harness", false, "run the replay harnesses even if everything is proved")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	work, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	exit := func(n int) { os.RemoveAll(work); os.Exit(n) }
	fail := func(err error) { fmt.Println("ERROR:", err); exit(2) }
	specs, _ := filepath.Glob(filepath.Join(*verif, "contracts", *prop+"*.spec"))
	sort.Strings(specs)
	if len(specs) == 0 {
		fail(fmt.Errorf("no contracts for %s", *prop))
	}
	var rs []*FuncResult
	var sfs []*SpecFile
	var engines []*Engine
	var replays, bounded []ReplaySpec
	loadSec := 0.0
	for i, sp := range specs {
		sf := NewSpecFile()
		if err := parseSpecInto(sf, sp); err != nil {
			fail(err)
		}
		w := filepath.Join(work, strconv.Itoa(i))
		os.MkdirAll(w, 0o755)
		e := NewEngine(*repo, w)
		if tier == "thorough" {
			e.obMs, e.houMs, e.fbMs, e.fbLeft, e.funcSec = 40000, 6000, 60000, 60, 900
		}
		if len(sf.Pkgs) > 0 {
			if g := sf.Opts["generate"]; g != "" {
				if err := e.generate(*verif, g, sf); err != nil {
					fail(err)
				}
			}
			if err := e.Load(sf); err != nil {
				fail(err)
			}
			loadSec += e.loadSec
			rs = append(rs, e.VerifyAll(*nj, func(c *Contract) bool { return true })...)
		}
		engines = append(engines, e)
		sfs = append(sfs, sf)
		replays = append(replays, sf.Replays...)
		bounded = append(bounded, sf.Bounded...)
	}
	e := engines[0]
	var fails []*Oblig
	nob, ndis := 0, 0
	byBack := map[string]int{}
	var solverMs int64
	var maxMs int64
	for _, r := range rs {
		solverMs += r.SolverMs
		for _, o := range r.Obligs {
			nob++
			if o.Ms > maxMs {
				maxMs = o.Ms
			}
			if o.Result == "proved" {
				ndis++
				byBack[o.Back]++
			} else {
				fails = append(fails, o)
			}
		}
	}
	kn := loadKnown(filepath.Join(*verif, "known-findings.txt"), *prop)
	var open []*Oblig
	knownHit := map[string]bool{}
	for _, o := range fails {
		hit := false
		for _, k := range kn {
			if k.oblig == o.Name() {
				hit = true
				if !knownHit[k.text] {
					knownHit[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
				}
			}
		}
		if !hit {
			open = append(open, o)
		}
	}
	env := []string{"GOVC_HINTS=" + modelHints(open), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER=" + tier}
	var bres, rres []*replayRes
	for i, b := range bounded {
		bres = append(bres, e.runHarness(*verif, b, 100+i, env))
	}
	if len(open) > 0 || *force || tier == "thorough" {
		for i, b := range replays {
			rres = append(rres, e.runHarness(*verif, b, i, env))
		}
	}
	var inputs []string
	harnessErr := ""
	for _, r := range append(append([]*replayRes{}, bres...), rres...) {
		inputs = append(inputs, r.Inputs...)
		if !r.Passed && len(r.Inputs) == 0 {
			harnessErr += fmt.Sprintf("harness %s did not run to an answer:\n%s\n", r.Spec.File, r.Output)
		}
	}
	if harnessErr != "" && os.Getenv("GOVC_V") != "" {
		fmt.Println(harnessErr)
	}
	boundedBroken := false
	for _, r := range bres {
		// a harness that no longer compiles gives no evidence for or against the property; one that ran and
		// ended without an answer (deadlock, crash) does
		if r.Ran && !r.Passed && len(r.Inputs) == 0 {
			boundedBroken = true
		}
		if !r.Ran && !r.Passed {
			fmt.Printf("NOTE: harness %s did not run (no bounded evidence from it)\n", r.Spec.File)
		}
	}
	violated := len(open) > 0 || len(inputs) > 0 || boundedBroken
	rp := ""
	if violated {
		os.MkdirAll(filepath.Join(*verif, "evidence", "replay"), 0o755)
		rp = filepath.Join("evidence", "replay", *prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", *prop)
		if len(inputs) > 0 {
			fmt.Fprintf(&b, "\n== failing inputs on the real code\n")
			for _, i := range inputs {
				fmt.Fprintln(&b, i)
			}
		} else {
			fmt.Fprintf(&b, "\nno failing input found\n")
		}
		fmt.Fprintf(&b, "\n== obligations the verifier did not accept\n")
		seen := map[string]bool{}
		for _, o := range open {
			fmt.Fprintf(&b, "%s %s [%s] %s %s\n", o.Result, o.Name(), o.Pos, o.Detail, o.Back)
			if seen[o.Name()] {
				continue
			}
			seen[o.Name()] = true
			if len(o.Trace) > 0 {
				fmt.Fprintf(&b, "  path: %s\n", strings.Join(o.Trace, "; "))
			}
			if o.Goal != "" {
				g := o.Goal
				if len(g) > 3000 {
					g = g[:3000] + "..."
				}
				fmt.Fprintf(&b, "  goal: %s\n", g)
			}
			if o.Model != "" {
				m := o.Model
				if len(m) > 6000 {
					m = m[:6000] + "..."
				}
				fmt.Fprintf(&b, "  solver model:\n%s\n", m)
			}
		}
		for _, r := range append(append([]*replayRes{}, bres...), rres...) {
			fmt.Fprintf(&b, "\n== harness %s in %s (go test -overlay, -run %s): ran=%v passed=%v\n%s\n", r.Spec.File, r.Spec.Dir, r.Spec.Run, r.Ran, r.Passed, r.Output)
		}
		os.WriteFile(filepath.Join(*verif, rp), []byte(b.String()), 0o644)
		seenO := map[string]bool{}
		for _, o := range open {
			if !seenO[o.Name()] {
				seenO[o.Name()] = true
				fmt.Printf("obligation not discharged: %s %s [%s] %s\n", o.Result, o.Name(), o.Pos, o.Detail)
			}
		}
		for i, in := range inputs {
			if i < 5 {
				fmt.Println(in)
			}
		}
	}
	e.writeEvidence(*verif, *prop, tier, seed, sfs, rs, fails, nob, ndis, byBack, solverMs, maxMs, loadSec, bres, rres, len(open), violated, time.Since(t0).Seconds())
	for _, r := range rs {
		np := 0
		for _, o := range r.Obligs {
			if o.Result == "proved" {
				np++
			}
		}
		fmt.Printf("%s: %d/%d obligations discharged (%d paths, %d ms)\n", shortKey(r.Key), np, len(r.Obligs), r.Returns, r.Ms)
	}
	for _, r := range append(append([]*replayRes{}, bres...), rres...) {
		fmt.Printf("harness %s: ran=%v passed=%v %.1fs %s\n", r.Spec.File, r.Ran, r.Passed, r.Secs, strings.Join(r.Summary, "; "))
	}
	fmt.Printf("property %s: %d/%d obligations discharged, %.1fs\n", *prop, ndis, nob, time.Since(t0).Seconds())
	if violated {
		suffix := ""
		if len(inputs) == 0 {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, rp, suffix)
		exit(1)
	}
	exit(0)
}

func (e *Engine) writeEvidence(verif, prop, tier string, seed int, sfs []*SpecFile, rs []*FuncResult, fails []*Oblig, nob, ndis int, byBack map[string]int, solverMs, maxMs int64, loadSec float64, bres, rres []*replayRes, open int, violated bool, wall float64) {
	type fe struct {
		Function    string         `json:"function"`
		Modes       []string       `json:"modes"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Kinds       map[string]int `json:"kinds"`
		Paths       int            `json:"return_paths"`
		Queries     int            `json:"solver_queries"`
		SolverMs    int64          `json:"solver_ms"`
		Inlined     []string       `json:"inlined,omitempty"`
		Relied      []string       `json:"callee_contracts,omitempty"`
		Instrs      int            `json:"instructions_executed"`
	}
	var funcs []fe
	assumed := map[string]bool{}
	usedTrusted := map[string]bool{}
	var ensured []string
	for _, r := range rs {
		f := fe{Function: shortKey(r.Key), Modes: r.Modes, Obligations: len(r.Obligs), Kinds: map[string]int{}, Paths: r.Returns, Queries: r.Queries, SolverMs: r.SolverMs, Instrs: r.Ssa}
		seen := map[string]bool{}
		for _, o := range r.Obligs {
			f.Kinds[o.Kind]++
			if o.Result == "proved" {
				f.Discharged++
			}
		}
		for _, k := range r.Inlined {
			if !seen[k] {
				seen[k] = true
				f.Inlined = append(f.Inlined, shortKey(k))
			}
		}
		for _, k := range r.Used {
			if strings.HasPrefix(k, "ax:") {
				continue
			}
			for _, sf := range sfs {
				if c := sf.Contracts[k]; c != nil && c.Trusted {
					t := c.Kind + " " + shortKey(k)
					if c.Why != "" {
						t += ": " + c.Why
					}
					usedTrusted[t] = true
				}
			}
			if !seen["u"+k] {
				seen["u"+k] = true
				f.Relied = append(f.Relied, shortKey(k))
			}
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		funcs = append(funcs, f)
	}
	var axioms, notes []string
	replayed := map[string]bool{}
	for _, sf := range sfs {
		for _, a := range sf.Axioms {
			axioms = append(axioms, a.Label+": "+a.Src)
		}
		for _, k := range sf.Order {
			c := sf.Contracts[k]
			if c.Kind == "func" {
				for _, q := range c.Ensures {
					if q.Def {
						notes = append(notes, "definition of a specification function on the object built by "+shortKey(k)+", whose fields are never changed afterwards: "+q.Src)
						continue
					}
					ensured = append(ensured, shortKey(k)+"/"+q.Label)
				}
			}
		}
		notes = append(notes, sf.Notes...)
	}
	_ = replayed
	assumptions := []string{
		"Go int, int64 and uint64 arithmetic is treated as mathematical (no overflow obligations); narrower integer types wrap as in Go",
		"float arithmetic is treated as exact real arithmetic without NaN or infinities",
		"the translation of Go SSA (golang.org/x/tools/go/ssa) to verification conditions by /verif/govc and the SMT solvers (z3 4.x new, z3 4.8.12, cvc5 1.1.2) are trusted",
		"partial correctness: termination of loops and calls is not proved; out-of-memory and stack exhaustion are not modelled",
	}
	for k := range usedTrusted {
		assumptions = append(assumptions, "assumed contract: "+k)
	}
	for k := range assumed {
		assumptions = append(assumptions, k)
	}
	for _, a := range axioms {
		assumptions = append(assumptions, "axiom: "+a)
	}
	assumptions = append(assumptions, notes...)
	sort.Strings(assumptions[4:])
	var undis []string
	for _, o := range fails {
		undis = append(undis, o.Result+" "+o.Name()+" ["+o.Pos+"]")
	}
	hs := func(rr []*replayRes) []map[string]any {
		out := []map[string]any{}
		for _, r := range rr {
			out = append(out, map[string]any{"harness": r.Spec.File, "dir": r.Spec.Dir, "passed": r.Passed, "ran": r.Ran, "covered": r.Summary, "seconds": r.Secs, "note": strings.TrimSpace(r.Spec.Note), "failing_inputs": len(r.Inputs)})
		}
		return out
	}
	cov := map[string]any{
		"obligations":              nob,
		"discharged":               ndis,
		"checker_cmd":              "/verif/check " + prop,
		"trusted_base":             []string{"govc (/verif/govc)", "golang.org/x/tools/go/ssa", "z3-new", "z3", "cvc5", "go compiler front end"},
		"functions_under_contract": funcs,
		"postconditions":           ensured,
		"discharged_by_back_end":   byBack,
		"solver_ms_total":          solverMs,
		"slowest_obligation_ms":    maxMs,
		"load_seconds":             loadSec,
		"undischarged":             undis,
		"bounded_stand_ins":        hs(bres),
		"replay_harnesses_run":     hs(rres),
		"source":                   "translated from /repo's working tree on this run; no text is copied or dropped: every instruction of the functions under contract and of the inlined callees is executed symbolically",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": wall, "assumptions": assumptions,
	}
	if violated {
		ev["violations"] = max(1, open)
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

// generate prepares generated sources (used by properties about generated code).
// generate runs a generator program inside /repo's plugins module (through an overlay) and adds the
// code that /repo's plugins generate to the packages of the overlay, so that it is loaded, typechecked and
// verified like any other package.  what names a directory of /verif: its files are placed in
// plugins/zzgen, its package gen is run with an output directory, and every Go file written there becomes a
// file of plugins/zzgen/out.
func (e *Engine) generate(verif, what string, sf *SpecFile) error {
	src := filepath.Join(verif, what)
	root := filepath.Join(e.repo, "plugins", "zzgen")
	e.genExtra = map[string]string{}
	add := func(from, to string) error {
		return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			rel, _ := filepath.Rel(from, p)
			e.genExtra[filepath.Join(to, rel)] = p
			return nil
		})
	}
	if err := add(src, root); err != nil {
		return err
	}
	ov, err := e.goOverlay(nil, "overlay-gen.json")
	if err != nil {
		return err
	}
	out := filepath.Join(e.work, "zzgen")
	os.MkdirAll(out, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", "run", "./zzgen/gen", out)
	c.Dir = filepath.Join(e.repo, "plugins")
	c.Env = append(goEnv(), "GOFLAGS=-overlay="+ov)
	b, err := c.CombinedOutput()
	if err != nil {
		s := string(b)
		if len(s) > 6000 {
			s = s[len(s)-6000:]
		}
		return fmt.Errorf("generator: %v\n%s", err, s)
	}
	if os.Getenv("GOVC_KEEPGEN") != "" {
		exec.Command("cp", "-r", out, os.Getenv("GOVC_KEEPGEN")).Run()
	}
	return add(out, filepath.Join(root, "out"))
}
