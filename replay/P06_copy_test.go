package backend

// Replay harness for property P06: random values copied into random destinations, against an independent statement of
// what a copy is.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"
)

type p06 struct {
	t   *testing.T
	r   *rand.Rand
	bad int
	ok  int
	err int
}

func (p *p06) fail(f string, a ...any) {
	p.t.Errorf("FAILING-INPUT: "+f, a...)
	p.bad++
	if p.bad > 8 {
		p.t.FailNow()
	}
}

type p06Str string
type p06Ints []int
type p06Struct struct {
	A int
	B []string
	c *int
}
type p06Err struct{ s string }

func (e p06Err) Error() string { return e.s }

type p06Shape interface{ Area() int }
type p06Sq struct{ n int }

func (s *p06Sq) Area() int { return s.n * s.n }

var p06basic = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(""), reflect.TypeOf(p06Str("")),
	reflect.TypeOf(1.5), reflect.TypeOf(true), reflect.TypeOf(p06Struct{}), reflect.TypeOf(p06Err{}), reflect.TypeOf(&p06Sq{}),
	reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*p06Shape)(nil)).Elem(),
	reflect.TypeOf(p06Ints{}), reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(make(<-chan int)), reflect.TypeOf([2]int{}),
}

func (p *p06) typ(depth int) reflect.Type {
	if depth > 0 {
		switch p.r.Intn(8) {
		case 0, 1, 2:
			return reflect.SliceOf(p.typ(depth - 1))
		case 3:
			return reflect.PointerTo(p.typ(depth - 1))
		case 4:
			return reflect.MapOf(reflect.TypeOf(""), p.typ(depth-1))
		}
	}
	return p06basic[p.r.Intn(len(p06basic))]
}

// a random value of type t
func (p *p06) value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int64:
		v.SetInt(int64(p.r.Intn(100)))
	case reflect.Uint8:
		v.SetUint(uint64(p.r.Intn(100)))
	case reflect.Float64:
		v.SetFloat(float64(p.r.Intn(100)) / 2)
	case reflect.String:
		v.SetString(strconv.Itoa(p.r.Intn(100)))
	case reflect.Bool:
		v.SetBool(p.r.Intn(2) == 0)
	case reflect.Slice:
		if p.r.Intn(6) > 0 {
			n := p.r.Intn(4)
			v.Set(reflect.MakeSlice(t, n, n+p.r.Intn(2)))
			for i := 0; i < n; i++ {
				v.Index(i).Set(p.value(t.Elem(), depth-1))
			}
		}
	case reflect.Map:
		if p.r.Intn(6) > 0 {
			v.Set(reflect.MakeMap(t))
			for i := p.r.Intn(3); i > 0; i-- {
				v.SetMapIndex(reflect.ValueOf(strconv.Itoa(i)), p.value(t.Elem(), depth-1))
			}
		}
	case reflect.Pointer:
		if p.r.Intn(6) > 0 {
			e := reflect.New(t.Elem())
			if t.Elem().Kind() != reflect.Struct {
				e.Elem().Set(p.value(t.Elem(), depth-1))
			}
			v.Set(e)
		}
	case reflect.Interface:
		var x any
		if depth > 0 {
			x = p.any(depth - 1)
		}
		if x != nil && reflect.TypeOf(x).AssignableTo(t) {
			v.Set(reflect.ValueOf(x))
		} else if t.NumMethod() == 1 && p.r.Intn(2) == 0 {
			for _, c := range []any{p06Err{"e"}, &p06Sq{3}, errors.New("x")} {
				if reflect.TypeOf(c).Implements(t) {
					v.Set(reflect.ValueOf(c))
				}
			}
		}
	case reflect.Struct:
		if t == reflect.TypeOf(p06Struct{}) {
			n := p.r.Intn(5)
			v.Set(reflect.ValueOf(p06Struct{A: n, B: []string{"x"}, c: &n}))
		}
	case reflect.Func:
		if p.r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(func() {}))
		}
	case reflect.Chan:
		if p.r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(make(chan int)))
		}
	}
	return v
}

func (p *p06) any(depth int) any {
	if p.r.Intn(8) == 0 {
		return nil
	}
	return p.value(p.typ(depth), depth).Interface()
}

func p06nillable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice:
		return true
	}
	return false
}

// the same value, of the same type
func p06same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Func:
		return a.IsNil() == b.IsNil() && a.Pointer() == b.Pointer()
	case reflect.Chan, reflect.Pointer:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		return p06same(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !p06same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !p06same(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// the value that a destination of type t holds for src; invalid if there is none
func p06want(src any, t reflect.Type) (reflect.Value, bool) {
	if src == nil {
		return reflect.Zero(t), p06nillable(t)
	}
	s := reflect.ValueOf(src)
	if s.Kind() == reflect.Slice && t.Kind() == reflect.Slice {
		if s.IsNil() {
			return reflect.Zero(t), true
		}
		out := reflect.MakeSlice(t, 0, 0)
		for i := 0; i < s.Len(); i++ {
			e, ok := p06want(s.Index(i).Interface(), t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out = reflect.Append(out, e)
		}
		return out, true
	}
	if !s.Type().AssignableTo(t) {
		return reflect.Value{}, false
	}
	d := reflect.New(t).Elem()
	d.Set(s)
	return d, true
}

// a copy that shares no slices
func p06snapshot(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	if v.Kind() == reflect.Slice && !v.IsNil() {
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(p06snapshot(v.Index(i)))
		}
	}
	if v.Kind() == reflect.Interface && !v.IsNil() {
		out.Set(p06snapshot(v.Elem()))
	}
	return out
}

func p06guard(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func p06show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return fmt.Sprintf("%v(%#v)", v.Type(), v.Interface())
}

func (p *p06) copy() {
	src := p.any(3)
	if p.r.Intn(40) == 0 {
		bad := []any{nil, 1, "x", []int{1}, (*int)(nil), (*any)(nil), (*[]string)(nil), map[string]int{}, p06Struct{}, (func())(nil)}[p.r.Intn(10)]
		var err error
		if pan := p06guard(func() { err = CopyResult(src, bad) }); pan != nil || err == nil {
			p.fail("CopyResult(%#v, %#v): panic %v, error %v; want an error", src, bad, pan, err)
		}
		if pan := p06guard(func() { err = SetZero(bad) }); pan != nil || err == nil {
			p.fail("SetZero(%#v): panic %v, error %v; want an error", bad, pan, err)
		}
		if pan := p06guard(func() { _, err = GetPointerValue(bad) }); pan != nil || err == nil {
			p.fail("GetPointerValue(%#v): panic %v, error %v; want an error", bad, pan, err)
		}
		p.err++
		return
	}
	t := p.typ(3)
	if src != nil && p.r.Intn(2) == 0 {
		t = reflect.TypeOf(src)
	}
	if src != nil && reflect.TypeOf(src).Kind() == reflect.Slice && p.r.Intn(2) == 0 {
		t = reflect.SliceOf(p.typ(1))
	}
	dst := reflect.New(t)
	dst.Elem().Set(p.value(t, 2))
	before := p06snapshot(dst.Elem())
	srcBefore := p06snapshot(reflect.ValueOf(src))
	want, ok := p06want(src, t)

	var got any
	var err error
	if pan := p06guard(func() { got, err = GetPointerValue(dst.Interface()) }); pan != nil || err != nil {
		p.fail("GetPointerValue(%v): panic %v, error %v", dst.Type(), pan, err)
		return
	}
	if !p06same(reflect.ValueOf(&got).Elem(), p06any(dst.Elem())) {
		p.fail("GetPointerValue gives %#v for a pointer to %s", got, p06show(dst.Elem()))
		return
	}
	if pan := p06guard(func() { err = CopyResult(src, dst.Interface()) }); pan != nil {
		p.fail("CopyResult(%#v, %v) panics: %v", src, dst.Type(), pan)
		return
	}
	if (err == nil) != ok {
		p.fail("CopyResult(%#v, %v): error %v, want success=%v", src, dst.Type(), err, ok)
		return
	}
	if !ok {
		want = before
		p.err++
	} else {
		p.ok++
	}
	if !p06same(dst.Elem(), want) {
		p.fail("CopyResult(%#v, %v) with error %v leaves %s, want %s", src, dst.Type(), err, p06show(dst.Elem()), p06show(want))
		return
	}
	if !p06same(reflect.ValueOf(src), srcBefore) {
		p.fail("CopyResult into %v changed the source from %s to %#v", dst.Type(), p06show(srcBefore), src)
		return
	}
	// the elements of a copied slice are the destination's own
	if ok && t.Kind() == reflect.Slice && dst.Elem().Len() > 0 {
		dst.Elem().Index(0).SetZero()
		if !p06same(reflect.ValueOf(src), srcBefore) {
			p.fail("CopyResult(%s, %v): the copy shares its elements with the source", p06show(srcBefore), dst.Type())
			return
		}
	}
	if pan := p06guard(func() { err = SetZero(dst.Interface()) }); pan != nil || err != nil || !p06same(dst.Elem(), reflect.Zero(t)) {
		p.fail("SetZero(%v): panic %v, error %v, leaves %s", dst.Type(), pan, err, p06show(dst.Elem()))
	}
}

func p06any(v reflect.Value) reflect.Value {
	x := v.Interface()
	return reflect.ValueOf(&x).Elem()
}

func TestVerifP06Copy(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 3 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 60 * time.Second
	}
	p := &p06{t: t, r: rand.New(rand.NewSource(seed + 6))}
	for end := time.Now().Add(d); time.Now().Before(end); {
		p.copy()
	}
	fmt.Printf("COVERED: %d random values copied, %d rejected\n", p.ok, p.err)
}
