package gogen_test

// Replay harness for property P17: random sequences of imports and type names are given to a real import table, and
// the import declaration it prints is parsed and compared with the names that it handed out.

import (
	"fmt"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
)

var p17pkgs = []string{
	"context", "x", "a/x", "b/x", "c/d/x", "x2", "q/x2", "x/x3", "y", "z/y", "y2", "w/y2", "example.com/m/x", "example.com/m/x/x22", "x22", "k/x1", "my/home", "other/home",
}

type p17world struct {
	r     *rand.Rand
	im    *gogen.Imports
	home  string
	names map[string]string // package -> local name handed out
	log   []string
}

func (w *p17world) typ(depth int) gocode.TypeName {
	n := 9
	if depth <= 0 {
		n = 2
	}
	switch w.r.Intn(n) {
	case 0:
		return &gocode.BasicType{Name: []string{"int", "string", "error", "bool"}[w.r.Intn(4)]}
	case 1:
		return &gocode.UserType{Package: p17pkgs[w.r.Intn(len(p17pkgs))], Name: []string{"T", "Context", "Leaf"}[w.r.Intn(3)]}
	case 2:
		return &gocode.Pointer{PointerTo: w.typ(depth - 1)}
	case 3:
		return &gocode.Slice{SliceOf: w.typ(depth - 1)}
	case 4:
		return &gocode.Ellipsis{EllipsisOf: w.typ(depth - 1)}
	case 5:
		return &gocode.Map{KeyType: w.typ(depth - 1), ValueType: w.typ(depth - 1)}
	case 6:
		return &gocode.Chan{ChanOf: w.typ(depth - 1)}
	case 7:
		return &gocode.ReceiveChan{ReceiveType: w.typ(depth - 1)}
	default:
		return &gocode.SendChan{SendType: w.typ(depth - 1)}
	}
}

func p17mentions(t gocode.TypeName, out map[string]bool) {
	switch t := t.(type) {
	case *gocode.UserType:
		out[t.Package] = true
	case *gocode.Pointer:
		p17mentions(t.PointerTo, out)
	case *gocode.Slice:
		p17mentions(t.SliceOf, out)
	case *gocode.Ellipsis:
		p17mentions(t.EllipsisOf, out)
	case *gocode.Map:
		p17mentions(t.KeyType, out)
		p17mentions(t.ValueType, out)
	case *gocode.Chan:
		p17mentions(t.ChanOf, out)
	case *gocode.ReceiveChan:
		p17mentions(t.ReceiveType, out)
	case *gocode.SendChan:
		p17mentions(t.SendType, out)
	}
}

// the spelling that the model expects, with the names that the import declaration binds
func (w *p17world) spell(t gocode.TypeName, bound map[string]string) string {
	switch t := t.(type) {
	case *gocode.BasicType:
		return t.Name
	case *gocode.UserType:
		if t.Package == w.home {
			return t.Name
		}
		return bound[t.Package] + "." + t.Name
	case *gocode.Pointer:
		return "*" + w.spell(t.PointerTo, bound)
	case *gocode.Slice:
		return "[]" + w.spell(t.SliceOf, bound)
	case *gocode.Ellipsis:
		return "..." + w.spell(t.EllipsisOf, bound)
	case *gocode.Map:
		return "map[" + w.spell(t.KeyType, bound) + "]" + w.spell(t.ValueType, bound)
	case *gocode.Chan:
		return "chan " + w.spell(t.ChanOf, bound)
	case *gocode.ReceiveChan:
		return "<-chan " + w.spell(t.ReceiveType, bound)
	case *gocode.SendChan:
		return "chan<- " + w.spell(t.SendType, bound)
	}
	return "?"
}

// the names that the printed import declaration binds; a plain import binds the last element of its path
func (w *p17world) bound() (map[string]string, error) {
	src := w.im.String()
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\n"+src+"\n", parser.ImportsOnly)
	if err != nil {
		return nil, fmt.Errorf("the import declaration does not parse: %v\n%s", err, src)
	}
	byPkg, byName := map[string]string{}, map[string]string{}
	for _, s := range f.Imports {
		pkg, _ := strconv.Unquote(s.Path.Value)
		name := path.Base(pkg)
		if s.Name != nil {
			name = s.Name.Name
		}
		if _, dup := byPkg[pkg]; dup {
			return nil, fmt.Errorf("package %s is imported twice\n%s", pkg, src)
		}
		if other, dup := byName[name]; dup {
			return nil, fmt.Errorf("packages %s and %s are both called %s\n%s", other, pkg, name, src)
		}
		byPkg[pkg], byName[name] = name, pkg
	}
	return byPkg, nil
}

func (w *p17world) check(must map[string]bool) error {
	bound, err := w.bound()
	if err != nil {
		return err
	}
	for p := range must {
		if p != w.home && bound[p] == "" {
			return fmt.Errorf("package %s is used but not imported\n%s", p, w.im.String())
		}
	}
	for p, n := range bound {
		if p == w.home {
			return fmt.Errorf("the file imports its own package %s", p)
		}
		if old, ok := w.names[p]; ok && old != n {
			return fmt.Errorf("package %s was called %s and is now called %s", p, old, n)
		}
		w.names[p] = n
	}
	for p := range w.names {
		if bound[p] == "" {
			return fmt.Errorf("package %s is no longer imported", p)
		}
	}
	return nil
}

func (w *p17world) step() error {
	switch w.r.Intn(5) {
	case 0:
		p := p17pkgs[w.r.Intn(len(p17pkgs))]
		got := w.im.AddPackage(p)
		w.log = append(w.log, fmt.Sprintf("AddPackage(%q) = %q", p, got))
		if err := w.check(map[string]bool{p: true}); err != nil {
			return err
		}
		want := w.names[p]
		if got != want {
			return fmt.Errorf("AddPackage(%q) returned %q but the declaration binds %q", p, got, want)
		}
	case 1:
		var ps []string
		must := map[string]bool{}
		for i := w.r.Intn(4); i > 0; i-- {
			p := p17pkgs[w.r.Intn(len(p17pkgs))]
			ps = append(ps, p)
			must[p] = true
		}
		w.im.AddPackages(ps...)
		w.log = append(w.log, fmt.Sprintf("AddPackages(%q)", ps))
		return w.check(must)
	case 2:
		t := w.typ(3)
		w.im.AddType(t)
		w.log = append(w.log, fmt.Sprintf("AddType(%v)", t))
		must := map[string]bool{}
		p17mentions(t, must)
		return w.check(must)
	case 3:
		p := p17pkgs[w.r.Intn(len(p17pkgs))]
		got := w.im.Qualify(p, "Name")
		w.log = append(w.log, fmt.Sprintf("Qualify(%q, Name) = %q", p, got))
		if err := w.check(nil); err != nil {
			return err
		}
		want := p + ".Name"
		if n, ok := w.names[p]; ok {
			want = n + ".Name"
		}
		if p == w.home {
			want = "Name"
		}
		if got != want {
			return fmt.Errorf("Qualify(%q, Name) = %q, want %q", p, got, want)
		}
	case 4:
		t := w.typ(4)
		got := w.im.NameOf(t)
		w.log = append(w.log, fmt.Sprintf("NameOf(%v) = %q", t, got))
		must := map[string]bool{}
		p17mentions(t, must)
		if err := w.check(must); err != nil {
			return err
		}
		if want := w.spell(t, w.names); got != want {
			return fmt.Errorf("NameOf(%v) = %q, want %q", t, got, want)
		}
	}
	return nil
}

func p17run(seed int64) (log []string, err error) {
	r := rand.New(rand.NewSource(seed))
	w := &p17world{r: r, names: map[string]string{}}
	if r.Intn(3) == 0 {
		w.home = p17pkgs[r.Intn(len(p17pkgs))]
	} else {
		w.home = "my/home"
	}
	w.im = gogen.NewImports(w.home)
	w.log = append(w.log, fmt.Sprintf("NewImports(%q)", w.home))
	defer func() {
		if p := recover(); p != nil {
			log, err = w.log, fmt.Errorf("panic: %v", p)
		}
	}()
	for i := 0; i < 14; i++ {
		if err := w.step(); err != nil {
			return w.log, err
		}
	}
	return w.log, nil
}

func TestVerifP17Imports(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 90 * time.Second
	}
	start, n := time.Now(), 0
	for ; time.Since(start) < budget; n++ {
		if log, err := p17run(seed*1000003 + int64(n)); err != nil {
			t.Errorf("FAILING-INPUT: seed %d\n%s\n%v", seed*1000003+int64(n), strings.Join(log, "\n"), err)
			return
		}
	}
	fmt.Printf("COVERED: %d random histories of up to 14 imports and type names over %d packages\n", n, len(p17pkgs))
}
