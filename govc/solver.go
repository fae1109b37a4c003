package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	bin    string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	nq     int
	spent  time.Duration
	byBack map[string]int
	alt    *Solver // the older release of z3, asked second
	back   string  // who gave the last answer
}

func NewSolver() *Solver { return &Solver{bin: "z3-new", byBack: map[string]int{}} }

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	return nil
}

func (s *Solver) Close() {
	if s.alt != nil {
		s.alt.Close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

var dumpN int64

// Run asks z3 about script; returns "sat", "unsat" or "unknown" and, when wanted and available, the model text.
// It first instantiates quantifiers by their patterns only, then lets z3 configure itself.
// round1: how long (ms) the first, pattern-only round may take.
const round1 = 1000

func (s *Solver) Run(script string, timeoutMs int, wantModel bool) (string, string) {
	s.back = s.bin
	if a, _ := s.run(script, min(timeoutMs, round1), false, true); a == "unsat" {
		return a, ""
	}
	if s.alt == nil {
		s.alt = &Solver{bin: "z3", byBack: map[string]int{}}
	}
	if a, _ := s.alt.run(script, min(timeoutMs, round1), false, true); a == "unsat" {
		s.back = s.alt.bin
		return a, ""
	}
	return s.run(script, timeoutMs, wantModel, false)
}

func (s *Solver) run(script string, timeoutMs int, wantModel, patterns bool) (string, string) {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0); s.nq++ }()
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	var b bytes.Buffer
	b.WriteString("(reset)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMs)
	b.WriteString("(set-option :smt.random_seed 1)\n")
	fmt.Fprintf(&b, "(set-option :auto_config %v)\n(set-option :smt.mbqi %v)\n", !patterns, !patterns)
	if wantModel {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString(script)
	b.WriteString("(check-sat)\n(echo \"@@1\")\n")
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := s.in.Write(b.Bytes()); err != nil {
			ch <- res{"", err}
			return
		}
		r, err := s.readUntil("@@1")
		ch <- res{r, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.Close()
			return "unknown", ""
		}
		out := strings.TrimSpace(r.s)
		ans := "unknown"
		for _, l := range strings.Split(out, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "(error") {
				dumpScript("error", b.String()+"\n;"+out)
				panic(Unsup{"solver error: " + l})
			}
			if l == "sat" || l == "unsat" || l == "unknown" {
				ans = l
			}
		}
		model := ""
		if wantModel && ans != "unsat" {
			io.WriteString(s.in, "(get-model)\n(echo \"@@2\")\n")
			m, err := s.readUntilTimeout("@@2", 5*time.Second)
			if err == nil {
				model = m
			}
		}
		return ans, model
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 3*time.Second):
		s.Close()
		return "unknown", ""
	}
}

func (s *Solver) readUntil(mark string) (string, error) {
	var b strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return b.String(), err
		}
		if strings.TrimSpace(l) == mark {
			return b.String(), nil
		}
		b.WriteString(l)
	}
}
func (s *Solver) readUntilTimeout(mark string, d time.Duration) (string, error) {
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() { r, err := s.readUntil(mark); ch <- res{r, err} }()
	select {
	case r := <-ch:
		return r.s, r.err
	case <-time.After(d):
		s.Close()
		return "", fmt.Errorf("timeout")
	}
}

var dumpDir = os.Getenv("GOVC_DUMP")
var dumpMu sync.Mutex

func dumpScript(kind, s string) {
	if dumpDir == "" {
		return
	}
	n := atomic.AddInt64(&dumpN, 1)
	os.WriteFile(fmt.Sprintf("%s/%04d-%s.smt2", dumpDir, n, kind), []byte(s), 0o644)
}

var ixAxiom = regexp.MustCompile(`(?m)^\(assert \(forall \(\([^ ]+ Int\)\([^ ]+ Int\)\) \(! \(= \(ix [^\n]*$`)

func dropIx(s string) string { return ixAxiom.ReplaceAllString(s, "") }

// fallback tries other back ends on a script that z3-new did not decide.
func fallback(script string, timeout time.Duration) (string, string) {
	type r struct{ ans, back string }
	ch := make(chan r, 4)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	full := "(set-logic ALL)\n" + script + "(check-sat)\n"
	run := func(name string, args ...string) {
		c := exec.CommandContext(ctx, name, args...)
		in := full
		if name == "z3-new" && args[0] == "-noix" {
			// the same query without the arithmetic meaning of ix (an answer from fewer assumptions is an answer)
			in, args = dropIx(full), args[1:]
			c = exec.CommandContext(ctx, name, args...)
			name = "z3-new/fewer-axioms"
		}
		c.Stdin = strings.NewReader(in)
		out, _ := c.Output()
		ans := "unknown"
		for _, l := range strings.Split(string(out), "\n") {
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" {
				ans = l
				break
			}
		}
		ch <- r{ans, name}
	}
	go run("cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	go run("z3", "-in", "-smt2", "-memory:2000", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1))
	go run("z3-new", "-in", "-smt2", "-memory:2000", "smt.random_seed=7", "smt.mbqi=false", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1))
	go run("z3-new", "-noix", "-in", "-smt2", "-memory:2000", fmt.Sprintf("-T:%d", int(timeout.Seconds())+1))
	ans, back := "unknown", ""
	for i := 0; i < 4; i++ {
		x := <-ch
		if x.ans == "unsat" {
			return x.ans, x.back
		}
		if x.ans == "sat" && !strings.HasPrefix(x.back, "z3-new") {
			ans, back = x.ans, x.back
		}
	}
	return ans, back
}

// ---------- solver pool: independent queries of one function run side by side

type Job struct {
	script   string
	ms       int
	model    bool
	deadline time.Time
	post     func(j *Job) // runs in the pool after the first answer (fallbacks)
	ans      string
	modelTxt string
	back     string
	err      string
	took     time.Duration
	done     chan struct{}
}

func (j *Job) finished() bool {
	select {
	case <-j.done:
		return true
	default:
		return false
	}
}

type Pool struct {
	mu   sync.Mutex
	cond *sync.Cond
	q    []*Job
	quit bool
	wg   sync.WaitGroup
	sem  chan struct{}
}

func NewPool(n int) *Pool {
	p := &Pool{sem: make(chan struct{}, n)}
	p.cond = sync.NewCond(&p.mu)
	for i := 0; i < n; i++ {
		p.wg.Add(1)
		go p.work()
	}
	return p
}

func (p *Pool) submit(j *Job) *Job {
	j.done = make(chan struct{})
	p.mu.Lock()
	p.q = append(p.q, j)
	p.mu.Unlock()
	p.cond.Signal()
	return j
}

func (p *Pool) work() {
	defer p.wg.Done()
	s := NewSolver()
	defer s.Close()
	for {
		p.mu.Lock()
		for len(p.q) == 0 && !p.quit {
			p.cond.Wait()
		}
		if len(p.q) == 0 {
			p.mu.Unlock()
			return
		}
		j := p.q[0]
		p.q = p.q[1:]
		p.mu.Unlock()
		p.run(s, j)
		close(j.done)
	}
}

func (p *Pool) run(s *Solver, j *Job) {
	defer func() {
		if r := recover(); r != nil {
			j.ans = "unknown"
			if u, ok := r.(Unsup); ok {
				j.err = u.msg
			} else {
				j.err = fmt.Sprint(r)
			}
			s.Close()
		}
	}()
	if !j.deadline.IsZero() && time.Now().After(j.deadline) {
		j.ans, j.err = "unknown", "time budget exceeded"
		return
	}
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	t0 := time.Now()
	j.ans, j.modelTxt = s.Run(j.script, j.ms, j.model)
	j.back = s.back
	if j.post != nil {
		j.post(j)
	}
	j.took = time.Since(t0)
}

func (p *Pool) Close() {
	p.mu.Lock()
	p.quit = true
	p.mu.Unlock()
	p.cond.Broadcast()
	p.wg.Wait()
}

// RunIn runs a query on solver s under the pool's limit on simultaneous queries.
func (p *Pool) RunIn(s *Solver, script string, ms int) string {
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	a, _ := s.run(script, ms, false, true)
	return a
}
