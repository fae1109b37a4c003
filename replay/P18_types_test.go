package gocode_test

// Replay harness for property P18: random type descriptions, methods and interfaces are compared with the real code
// and with a structural model, and copies of interfaces are extended while the originals are watched.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
)

func p18tree(t gocode.TypeName) string {
	switch t := t.(type) {
	case *gocode.BasicType:
		return "basic(" + t.Name + ")"
	case *gocode.UserType:
		return "user(" + t.Package + ";" + t.Name + ")"
	case *gocode.Pointer:
		return "ptr(" + p18tree(t.PointerTo) + ")"
	case *gocode.Slice:
		return "slice(" + p18tree(t.SliceOf) + ")"
	case *gocode.Ellipsis:
		return "variadic(" + p18tree(t.EllipsisOf) + ")"
	case *gocode.Map:
		return "map(" + p18tree(t.KeyType) + ";" + p18tree(t.ValueType) + ")"
	case *gocode.Chan:
		return "chan(" + p18tree(t.ChanOf) + ")"
	case *gocode.ReceiveChan:
		return "recv(" + p18tree(t.ReceiveType) + ")"
	case *gocode.SendChan:
		return "send(" + p18tree(t.SendType) + ")"
	case *gocode.AnyType:
		return "any"
	case *gocode.GenericType:
		return "generic(" + p18tree(t.BaseType) + ";" + p18tree(t.TypeParam) + ")"
	case *gocode.GenericTypeParam:
		return "param(" + t.ParamName + ")"
	}
	return fmt.Sprintf("%T", t)
}

func p18type(r *rand.Rand, depth int) gocode.TypeName {
	n := 15
	if depth <= 0 {
		n = 7
	}
	sub := func() gocode.TypeName { return p18type(r, depth-1) }
	switch r.Intn(n) {
	case 0:
		return &gocode.BasicType{Name: []string{"int", "string"}[r.Intn(2)]}
	case 1:
		return &gocode.UserType{Package: []string{"a/x", "b/x"}[r.Intn(2)], Name: []string{"int", "T"}[r.Intn(2)]}
	case 2:
		return &gocode.AnyType{}
	case 3:
		return &gocode.InterfaceType{}
	case 4:
		return &gocode.FuncType{}
	case 5:
		return &gocode.StructType{}
	case 6:
		return &gocode.GenericTypeParam{ParamName: []string{"int", "T"}[r.Intn(2)]}
	case 7:
		return &gocode.Pointer{PointerTo: sub()}
	case 8:
		return &gocode.Slice{SliceOf: sub()}
	case 9:
		return &gocode.Ellipsis{EllipsisOf: sub()}
	case 10:
		return &gocode.Map{KeyType: sub(), ValueType: sub()}
	case 11:
		return &gocode.Chan{ChanOf: sub()}
	case 12:
		return &gocode.ReceiveChan{ReceiveType: sub()}
	case 13:
		return &gocode.SendChan{SendType: sub()}
	default:
		return &gocode.GenericType{BaseType: sub(), TypeParam: sub()}
	}
}

func p18vars(r *rand.Rand) []gocode.Variable {
	var vs []gocode.Variable
	for i := r.Intn(4); i > 0; i-- {
		vs = append(vs, gocode.Variable{Name: fmt.Sprintf("v%d", r.Intn(3)), Type: p18type(r, r.Intn(2))})
	}
	return vs
}

func p18sig(vs []gocode.Variable) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, p18tree(v.Type))
	}
	return strings.Join(ss, ",")
}

func p18fun(f gocode.Func) string {
	return f.Name + "(" + p18sig(f.Arguments) + ")(" + p18sig(f.Returns) + ")"
}

func p18named(vs []gocode.Variable) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, v.Name+" "+p18tree(v.Type))
	}
	return strings.Join(ss, ",")
}

func p18show(s *gocode.ServiceInterface) string {
	var ms []string
	for n, m := range s.Methods {
		ms = append(ms, n+"="+m.Name+"("+p18named(m.Arguments)+")("+p18named(m.Returns)+")")
	}
	sort.Strings(ms)
	return s.Package + "." + s.Name + "/" + s.BaseName + "{" + strings.Join(ms, ";") + "}"
}

func p18random(r *rand.Rand, pool []gocode.Func) *gocode.ServiceInterface {
	s := &gocode.ServiceInterface{BaseName: "B", Methods: map[string]gocode.Func{}}
	s.UserType.Package, s.UserType.Name = "p", "S"
	for _, f := range pool {
		if r.Intn(3) > 0 {
			s.Methods[f.Name] = f
		}
	}
	return s
}

func p18run(seed int64) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	// types
	for i := 0; i < 6; i++ {
		d := r.Intn(4)
		a, b := p18type(r, d), p18type(r, d)
		if r.Intn(3) == 0 {
			s := r.Int63()
			a, b = p18type(rand.New(rand.NewSource(s)), 4), p18type(rand.New(rand.NewSource(s)), 4)
		}
		want := p18tree(a) == p18tree(b)
		if a.Equals(b) != want || b.Equals(a) != want {
			return fmt.Errorf("%s and %s: Equals is %v and %v, want %v", p18tree(a), p18tree(b), a.Equals(b), b.Equals(a), want)
		}
		if !a.Equals(a) {
			return fmt.Errorf("%s does not equal itself", p18tree(a))
		}
		if a.Equals(nil) {
			return fmt.Errorf("%s equals nil", p18tree(a))
		}
	}
	// methods
	f, g := gocode.Func{Name: "F", Arguments: p18vars(r), Returns: p18vars(r)}, gocode.Func{Name: "F", Arguments: p18vars(r), Returns: p18vars(r)}
	if r.Intn(2) == 0 {
		g.Arguments = append([]gocode.Variable{}, f.Arguments...)
	}
	if r.Intn(2) == 0 {
		g.Returns = append([]gocode.Variable{}, f.Returns...)
	}
	if r.Intn(4) == 0 {
		g.Name = "G"
	}
	if want := p18fun(f) == p18fun(g); f.Equals(g) != want || g.Equals(f) != want {
		return fmt.Errorf("%s and %s: Equals is %v and %v, want %v", p18fun(f), p18fun(g), f.Equals(g), g.Equals(f), want)
	}
	// the generic views
	args, rets := f.GetArguments(), f.GetReturns()
	if len(args) != len(f.Arguments) || len(rets) != len(f.Returns) {
		return fmt.Errorf("%s lists %d arguments and %d results", p18fun(f), len(args), len(rets))
	}
	for i := range args {
		if args[i].GetName() != f.Arguments[i].Name || args[i].GetType() != f.Arguments[i].Type.String() {
			return fmt.Errorf("argument %d of %s is listed as %s %s", i, p18named(f.Arguments), args[i].GetName(), args[i].GetType())
		}
	}
	for i := range rets {
		if rets[i].GetName() != f.Returns[i].Name || rets[i].GetType() != f.Returns[i].Type.String() {
			return fmt.Errorf("result %d of %s is listed as %s %s", i, p18named(f.Returns), rets[i].GetName(), rets[i].GetType())
		}
	}
	// interfaces
	var pool []gocode.Func
	for i := 0; i < 6; i++ {
		pool = append(pool, gocode.Func{Name: fmt.Sprintf("M%d", i%4), Arguments: p18vars(r), Returns: p18vars(r)})
	}
	si, sj := p18random(r, pool), p18random(r, pool)
	if r.Intn(3) == 0 {
		sj = gocode.CopyServiceInterface("copy", "q", si)
		if r.Intn(2) == 0 {
			delete(sj.Methods, "M0")
		}
	}
	want := true
	for n, m := range sj.Methods {
		if im, ok := si.Methods[n]; !ok || p18fun(im) != p18fun(m) {
			want = false
		}
	}
	if got := si.Contains(sj); got != want {
		return fmt.Errorf("%s contains %s: %v, want %v", p18show(si), p18show(sj), got, want)
	}
	if !si.Contains(si) || si.Contains(nil) {
		return fmt.Errorf("%s contains itself: %v, contains nil: %v", p18show(si), si.Contains(si), si.Contains(nil))
	}
	seen := map[string]bool{}
	for _, m := range si.GetMethods() {
		seen[m.GetName()] = true
		d, ok := si.Methods[m.GetName()]
		if !ok || len(d.Arguments) != len(m.GetArguments()) || len(d.Returns) != len(m.GetReturns()) {
			return fmt.Errorf("GetMethods of %s lists %v", p18show(si), m)
		}
	}
	if len(seen) != len(si.Methods) || len(si.GetMethods()) != len(si.Methods) {
		return fmt.Errorf("GetMethods of %s lists only %v", p18show(si), seen)
	}
	// copies are independent of each other
	copies := []*gocode.ServiceInterface{si}
	models := []string{p18show(si)}
	for i := 0; i < 8; i++ {
		k := r.Intn(len(copies))
		if r.Intn(3) == 0 {
			c := gocode.CopyServiceInterface(fmt.Sprintf("C%d", i), fmt.Sprintf("p%d", i), copies[k])
			cp := *copies[k]
			cp.UserType.Package, cp.UserType.Name = fmt.Sprintf("p%d", i), fmt.Sprintf("C%d", i)
			if p18show(c) != p18show(&cp) {
				return fmt.Errorf("copy of %s is %s", p18show(&cp), p18show(c))
			}
			copies, models = append(copies, c), append(models, p18show(c))
			continue
		}
		names := []string{}
		for n := range copies[k].Methods {
			names = append(names, n)
		}
		sort.Strings(names)
		names = append(names, "New")
		n := names[r.Intn(len(names))]
		m := copies[k].Methods[n]
		m.Name = n
		wantArgs, wantRets := append([]gocode.Variable{}, m.Arguments...), append([]gocode.Variable{}, m.Returns...)
		v := gocode.Variable{Name: fmt.Sprintf("x%d", i), Type: p18type(r, 1)}
		if r.Intn(2) == 0 {
			m.AddArgument(v)
			wantArgs = append(wantArgs, v)
		} else {
			m.AddRetVar(v)
			wantRets = append(wantRets, v)
		}
		if p18named(m.Arguments) != p18named(wantArgs) || p18named(m.Returns) != p18named(wantRets) {
			return fmt.Errorf("adding %s gives (%s)(%s), want (%s)(%s)", v.Name, p18named(m.Arguments), p18named(m.Returns), p18named(wantArgs), p18named(wantRets))
		}
		copies[k].AddMethod(m)
		if got := copies[k].Methods[n]; p18named(got.Arguments)+"/"+p18named(got.Returns) != p18named(m.Arguments)+"/"+p18named(m.Returns) {
			return fmt.Errorf("AddMethod stored %v for %v", got, m)
		}
		models[k] = p18show(copies[k])
		for l := range copies {
			if now := p18show(copies[l]); now != models[l] {
				return fmt.Errorf("adding %s to method %s of copy %d changed copy %d from\n%s to\n%s", v.Name, n, k, l, models[l], now)
			}
		}
	}
	return nil
}

type p18T struct{}

// descriptions taken from Go types
func p18typeof() error {
	home := "github.com/blueprint-uservices/blueprint/plugins/golang/gocode_test"
	got := []gocode.TypeName{
		gocode.TypeOf[int](), gocode.TypeOf[error](), gocode.TypeOf[*p18T](), gocode.TypeOf[context.Context](), gocode.TypeOf[map[string][]p18T](),
		gocode.TypeOf[chan int](), gocode.TypeOf[<-chan int](), gocode.TypeOf[chan<- int](), gocode.TypeOf[[4]byte](), gocode.TypeOf[func()](), gocode.TypeOf[struct{}](),
	}
	want := []string{
		"basic(int)", "basic(error)", "ptr(user(" + home + ";p18T))", "user(context;Context)", "map(basic(string);slice(user(" + home + ";p18T)))",
		"chan(basic(int))", "recv(basic(int))", "send(basic(int))", "slice(basic(uint8))", "*gocode.FuncType", "*gocode.StructType",
	}
	for i := range got {
		if p18tree(got[i]) != want[i] {
			return fmt.Errorf("TypeOf: %s, want %s", p18tree(got[i]), want[i])
		}
	}
	return nil
}

func TestVerifP18Types(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 90 * time.Second
	}
	if err := p18typeof(); err != nil {
		t.Errorf("FAILING-INPUT: %v", err)
		return
	}
	start, n := time.Now(), 0
	for ; time.Since(start) < budget; n++ {
		if err := p18run(seed*1000003 + int64(n)); err != nil {
			t.Errorf("FAILING-INPUT: seed %d\n%v", seed*1000003+int64(n), err)
			return
		}
	}
	fmt.Printf("COVERED: %d random sets of type, method and interface descriptions\n", n)
}
