package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	fsel := fs.String("f", "", "function filter")
	v := fs.Bool("v", false, "")
	all := fs.Bool("a", false, "list proved obligations")
	n := fs.Int("j", 8, "")
	fs.Parse(args)
	work, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(work)
	sf := NewSpecFile()
	p, _ := filepath.Abs(fs.Arg(0))
	if err := parseSpecInto(sf, p); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e := NewEngine(*repo, work)
	e.verbose = *v
	if g := sf.Opts["generate"]; g != "" {
		verif, _ := filepath.Abs(filepath.Join(filepath.Dir(fs.Arg(0)), ".."))
		if err := e.generate(verif, g, sf); err != nil {
			fmt.Println("ERROR:", err)
			os.Exit(2)
		}
	}
	if err := e.Load(sf); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", e.loadSec)
	rs := e.VerifyAll(*n, func(c *Contract) bool { return *fsel == "" || strings.Contains(c.Key, *fsel) })
	bad := 0
	for _, r := range rs {
		np := 0
		for _, o := range r.Obligs {
			if o.Result == "proved" {
				np++
			}
		}
		fmt.Printf("%s: %d/%d proved, paths %d, returns %d, queries %d, %d ms (solver %d), inlined %d\n", shortKey(r.Key), np, len(r.Obligs), r.Paths, r.Returns, r.Queries, r.Ms, r.SolverMs, len(r.Inlined))
		seen := map[string]bool{}
		for _, o := range r.Obligs {
			if o.Result == "proved" {
				if *all && !seen[o.Name()] {
					seen[o.Name()] = true
					fmt.Printf("   ok %s\n", o.Name())
				}
				continue
			}
			bad++
			if seen[o.Name()+o.Result+o.Pos] && !*v {
				continue
			}
			seen[o.Name()+o.Result+o.Pos] = true
			fmt.Printf("   %s %s [%s] %s %dms\n", strings.ToUpper(o.Result), o.Name(), o.Pos, o.Detail, o.Ms)
			if *v {
				fmt.Printf("      goal %s\n      trace %s\n", o.Goal, strings.Join(o.Trace, "; "))
			}
		}
	}
	if bad > 0 {
		fmt.Println("NOT VERIFIED", bad)
		os.Exit(1)
	}
	fmt.Println("VERIFIED")
}

func (e *Engine) VerifyAll(n int, sel func(*Contract) bool) []*FuncResult {
	var todo []*Contract
	seen := map[string]bool{}
	for _, k := range e.sf.Order {
		c := e.sf.Contracts[k]
		if c.Kind == "func" && !seen[k] && sel(c) {
			seen[k] = true
			todo = append(todo, c)
		}
	}
	out := make([]*FuncResult, len(todo))
	e.pool = NewPool(n)
	defer e.pool.Close()
	var wg sync.WaitGroup
	ch := make(chan int)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := NewSolver()
			defer s.Close()
			for j := range ch {
				t0 := time.Now()
				out[j] = e.VerifyFunc(s, todo[j])
				_ = t0
			}
		}()
	}
	for i := range todo {
		ch <- i
	}
	close(ch)
	wg.Wait()
	sort.SliceStable(out, func(i, j int) bool { return false })
	return out
}
