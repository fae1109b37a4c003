package simplenosqldb_test

// Replay harness for property P07: random documents and filters, alone and through the collection, against an
// independent model of the supported subset of the query language.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
	"go.mongodb.org/mongo-driver/bson"
)

type p07 struct {
	t    *testing.T
	r    *rand.Rand
	bad  int
	keys []string
}

func (p *p07) fail(f string, a ...any) {
	p.t.Errorf("FAILING-INPUT: "+f, a...)
	p.bad++
	if p.bad > 8 {
		p.t.FailNow()
	}
}

// ---- the model: the values a path reaches, and conditions over the values reached

func p07num(v any) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int8:
		return float64(x), true
	case int16:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func p07get(d bson.D, key string) (any, bool) {
	for _, e := range d {
		if e.Key == key {
			return e.Value, true
		}
	}
	return nil, false
}

func p07reach(x any, parts []string, first bool) []any {
	if len(parts) == 0 {
		return []any{x}
	}
	if n, err := strconv.Atoi(parts[0]); err == nil {
		if a, ok := x.(bson.A); ok && n >= 0 && n < len(a) {
			return p07reach(a[n], parts[1:], false)
		}
		return nil
	}
	var out []any
	if d, ok := x.(bson.D); ok {
		if v, ok := p07get(d, parts[0]); ok {
			out = append(out, p07reach(v, parts[1:], false)...)
		}
	}
	if a, ok := x.(bson.A); ok && !first {
		for _, e := range a {
			if d, ok := e.(bson.D); ok {
				if v, ok := p07get(d, parts[0]); ok {
					out = append(out, p07reach(v, parts[1:], false)...)
				}
			}
		}
	}
	return out
}

func p07eq(want, x any) bool {
	switch w := want.(type) {
	case bson.D:
		d, ok := x.(bson.D)
		if !ok {
			return false
		}
		for _, e := range w {
			v, ok := p07get(d, e.Key)
			if !ok || !p07eq(e.Value, v) {
				return false
			}
		}
		for _, e := range d {
			if _, ok := p07get(w, e.Key); !ok {
				return false
			}
		}
		return true
	case bson.A:
		a, ok := x.(bson.A)
		if !ok || len(a) != len(w) {
			return false
		}
		for i := range w {
			if !p07eq(w[i], a[i]) {
				return false
			}
		}
		return true
	}
	if n, ok := p07num(want); ok {
		m, ok := p07num(x)
		return ok && n == m
	}
	return reflect.DeepEqual(want, x)
}

// x or, if x is an array, one of its elements
func p07any(x any, c func(any) bool) bool {
	if c(x) {
		return true
	}
	a, _ := x.(bson.A)
	for _, e := range a {
		if c(e) {
			return true
		}
	}
	return false
}

func p07op(k string, v, x any) bool {
	if n, ok := p07num(v); ok && k != "$in" {
		m, ok := p07num(x)
		switch k {
		case "$eq":
			return ok && m == n
		case "$gt":
			return ok && m > n
		case "$gte":
			return ok && m >= n
		case "$lt":
			return ok && m < n
		case "$lte":
			return ok && m <= n
		}
	}
	switch k {
	case "$eq":
		return p07eq(v, x)
	case "$in":
		rv := reflect.ValueOf(v)
		for i := 0; i < rv.Len(); i++ {
			if p07eq(rv.Index(i).Interface(), x) {
				return true
			}
		}
		return false
	case "$regex":
		s, ok := x.(string)
		return ok && regexp.MustCompile(v.(string)).MatchString(s)
	}
	panic("model: " + k)
}

func p07match(f bson.D, x any) bool {
	for _, e := range f {
		if !p07cond(e, x) {
			return false
		}
	}
	return true
}

func p07cond(e bson.E, x any) bool {
	switch e.Key {
	case "$and":
		for _, d := range e.Value.(bson.A) {
			if !p07match(d.(bson.D), x) {
				return false
			}
		}
		return true
	case "$or", "$nor":
		for _, d := range e.Value.(bson.A) {
			if p07match(d.(bson.D), x) {
				return e.Key == "$or"
			}
		}
		return e.Key == "$nor"
	case "$not":
		return !p07match(e.Value.(bson.D), x)
	}
	reached := p07reach(x, strings.Split(e.Key, "."), true)
	some := func(c func(any) bool) bool {
		for _, v := range reached {
			if c(v) {
				return true
			}
		}
		return false
	}
	if d, ok := e.Value.(bson.D); ok {
		ops, arr := false, false
		for _, o := range d {
			ops = ops || strings.HasPrefix(o.Key, "$")
			arr = arr || o.Key == "$all" || o.Key == "$elemMatch"
		}
		if arr {
			return some(func(v any) bool {
				for _, o := range d {
					if o.Key == "$all" {
						as := o.Value.(bson.A)
						if len(as) == 0 {
							return false
						}
						for _, w := range as {
							if !p07any(v, func(y any) bool { return p07eq(w, y) }) {
								return false
							}
						}
						continue
					}
					a, _ := v.(bson.A)
					found := false
					for _, y := range a {
						found = found || p07match(o.Value.(bson.D), y)
					}
					if !found {
						return false
					}
				}
				return true
			})
		}
		if ops {
			for _, o := range d {
				switch o.Key {
				case "$ne":
					if some(func(v any) bool { return p07any(v, func(y any) bool { return p07eq(o.Value, y) }) }) {
						return false
					}
				case "$exists":
					if (len(reached) > 0) != o.Value.(bool) {
						return false
					}
				default:
					if !some(func(v any) bool { return p07any(v, func(y any) bool { return p07op(o.Key, o.Value, y) }) }) {
						return false
					}
				}
			}
			return true
		}
	}
	return some(func(v any) bool { return p07any(v, func(y any) bool { return p07eq(e.Value, y) }) })
}

// ---- which filters are well formed

func p07okval(v any) bool {
	switch w := v.(type) {
	case bson.D:
		for _, e := range w {
			if strings.HasPrefix(e.Key, "$") || strings.Contains(e.Key, ".") || !p07okval(e.Value) {
				return false
			}
		}
	case bson.A:
		for _, e := range w {
			if _, nested := e.(bson.A); nested || !p07okval(e) {
				return false
			}
		}
	case bson.E, bson.M:
		return false
	}
	return true
}

func p07okfilter(f bson.D) bool {
	for _, e := range f {
		if !p07okcond(e) {
			return false
		}
	}
	return true
}

func p07okcond(e bson.E) bool {
	switch e.Key {
	case "$and", "$or", "$nor":
		a, ok := e.Value.(bson.A)
		if !ok || len(a) == 0 {
			return false
		}
		for _, q := range a {
			if d, ok := q.(bson.D); !ok || !p07okfilter(d) {
				return false
			}
		}
		return true
	case "$not":
		d, ok := e.Value.(bson.D)
		return ok && p07okfilter(d)
	}
	if strings.HasPrefix(e.Key, "$") {
		return false
	}
	d, ok := e.Value.(bson.D)
	if !ok {
		return p07okval(e.Value)
	}
	ops, arrs := 0, 0
	for _, o := range d {
		if strings.HasPrefix(o.Key, "$") {
			ops++
		}
		if o.Key == "$all" || o.Key == "$elemMatch" {
			arrs++
		}
	}
	if ops == 0 {
		return p07okval(e.Value)
	}
	if arrs > 0 && arrs < len(d) {
		return false
	}
	for _, o := range d {
		_, num := p07num(o.Value)
		switch o.Key {
		case "$all":
			a, ok := o.Value.(bson.A)
			if !ok {
				return false
			}
			for _, v := range a {
				if !p07okval(v) {
					return false
				}
			}
		case "$elemMatch":
			d, ok := o.Value.(bson.D)
			if !ok || !p07okfilter(d) {
				return false
			}
		case "$gt", "$gte", "$lt", "$lte":
			if !num {
				return false
			}
		case "$eq", "$ne":
			if !p07okval(o.Value) {
				return false
			}
		case "$in":
			rv := reflect.ValueOf(o.Value)
			if rv.Kind() != reflect.Slice {
				return false
			}
			for i := 0; i < rv.Len(); i++ {
				if !p07okval(rv.Index(i).Interface()) {
					return false
				}
			}
		case "$exists":
			if _, ok := o.Value.(bool); !ok {
				return false
			}
		case "$regex":
			s, ok := o.Value.(string)
			if !ok {
				return false
			}
			if _, err := regexp.Compile(s); err != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ---- generation

func (p *p07) scalar() any {
	switch p.r.Intn(14) {
	case 0, 1, 2, 3:
		return p.r.Intn(4) - 1
	case 4:
		return int64(p.r.Intn(3))
	case 5:
		return int32(p.r.Intn(3))
	case 6:
		return float64(p.r.Intn(5)) / 2
	case 7:
		return float32(p.r.Intn(3))
	case 8:
		return []any{true, false, nil, int8(1), int16(2)}[p.r.Intn(5)]
	default:
		return []string{"", "a", "b", "ab", "ba"}[p.r.Intn(5)]
	}
}

func (p *p07) doc(depth int) bson.D {
	d := bson.D{}
	n := p.r.Intn(4)
	for _, i := range p.r.Perm(len(p.keys))[:n] {
		d = append(d, bson.E{Key: p.keys[i], Value: p.value(depth - 1)})
	}
	return d
}

func (p *p07) value(depth int) any {
	k := p.r.Intn(6)
	switch {
	case depth <= 0 || k < 2:
		return p.scalar()
	case k < 4:
		return p.doc(depth)
	default:
		a := bson.A{}
		for n := p.r.Intn(4); n > 0; n-- {
			a = append(a, p.value(depth-1))
		}
		return a
	}
}

// a value of, or below, the document, so that conditions on it are often satisfied
func (p *p07) pick(x any) any {
	for p.r.Intn(3) > 0 {
		switch v := x.(type) {
		case bson.D:
			if len(v) == 0 {
				return x
			}
			x = v[p.r.Intn(len(v))].Value
		case bson.A:
			if len(v) == 0 {
				return x
			}
			x = v[p.r.Intn(len(v))]
		default:
			return x
		}
	}
	return x
}

// a path of the document and a value at or near its end
func (p *p07) path(doc any) (string, any) {
	var parts []string
	x := doc
	for {
		switch v := x.(type) {
		case bson.D:
			if len(v) == 0 || p.r.Intn(6) == 0 {
				parts = append(parts, p.keys[p.r.Intn(len(p.keys))])
				x, _ = p07get(v, parts[len(parts)-1])
			} else {
				e := v[p.r.Intn(len(v))]
				parts = append(parts, e.Key)
				x = e.Value
			}
		case bson.A:
			if len(v) == 0 {
				return strings.Join(parts, "."), x
			}
			i := p.r.Intn(len(v))
			if p.r.Intn(2) == 0 {
				parts = append(parts, strconv.Itoa(i-p.r.Intn(2)+p.r.Intn(2)))
			} else if _, ok := v[i].(bson.D); !ok {
				return strings.Join(parts, "."), v[i]
			}
			x = v[i]
		}
		if len(parts) == 0 {
			parts = append(parts, p.keys[p.r.Intn(len(p.keys))])
		}
		if _, ok := x.(bson.D); ok && p.r.Intn(4) > 0 {
			continue
		}
		if _, ok := x.(bson.A); ok && p.r.Intn(3) > 0 {
			continue
		}
		return strings.Join(parts, "."), x
	}
}

func (p *p07) near(x any) any {
	switch p.r.Intn(8) {
	case 0:
		return p.value(2)
	case 1:
		return p.scalar()
	case 2:
		if n, ok := p07num(x); ok {
			return []any{int(n), n, int64(n), float32(n)}[p.r.Intn(4)]
		}
	case 3:
		if d, ok := x.(bson.D); ok && len(d) > 0 { // another order, or a field more or less
			c := append(bson.D{}, d...)
			p.r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
			if p.r.Intn(3) == 0 {
				c = c[1:]
			}
			return c
		}
		if a, ok := x.(bson.A); ok && len(a) > 0 {
			return a[:len(a)-1]
		}
	}
	return x
}

func (p *p07) cond(doc any, depth int) bson.E {
	bad := p.r.Intn(40) == 0
	if depth > 0 && p.r.Intn(4) == 0 {
		k := []string{"$and", "$or", "$nor", "$not"}[p.r.Intn(4)]
		if k == "$not" {
			if bad {
				return bson.E{Key: k, Value: p.value(1)}
			}
			return bson.E{Key: k, Value: p.filter(doc, depth-1)}
		}
		a := bson.A{}
		for n := p.r.Intn(3); n >= 0; n-- {
			a = append(a, p.filter(doc, depth-1))
		}
		if bad {
			if p.r.Intn(2) == 0 {
				return bson.E{Key: k, Value: bson.A{}}
			}
			a = append(a, p.value(1))
		}
		return bson.E{Key: k, Value: a}
	}
	sel, x := p.path(doc)
	if bad && p.r.Intn(4) == 0 {
		sel = []string{"$x", "$eq", "$where", "$gt"}[p.r.Intn(4)]
	}
	switch p.r.Intn(4) {
	case 0:
		return bson.E{Key: sel, Value: p.near(x)}
	case 1: // array operators
		d := bson.D{}
		for n := p.r.Intn(2); n >= 0; n-- {
			if p.r.Intn(2) == 0 {
				a := bson.A{}
				xs, _ := x.(bson.A)
				for m := p.r.Intn(3); m > 0; m-- {
					if len(xs) > 0 {
						a = append(a, p.near(xs[p.r.Intn(len(xs))]))
					} else {
						a = append(a, p.near(x))
					}
				}
				d = append(d, bson.E{Key: "$all", Value: a})
			} else {
				var el any = x
				if xs, ok := x.(bson.A); ok && len(xs) > 0 {
					el = xs[p.r.Intn(len(xs))]
				}
				if _, ok := el.(bson.D); !ok {
					el = p.doc(2)
				}
				d = append(d, bson.E{Key: "$elemMatch", Value: p.filter(el, depth-1)})
			}
		}
		if bad {
			d = append(d, bson.E{Key: []string{"$eq", "$size", "a"}[p.r.Intn(3)], Value: p.scalar()})
		}
		return bson.E{Key: sel, Value: d}
	}
	d := bson.D{}
	for n := p.r.Intn(3); n >= 0; n-- {
		k := []string{"$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$exists", "$regex"}[p.r.Intn(9)]
		var v any
		switch k {
		case "$in":
			a := bson.A{}
			for m := p.r.Intn(3); m > 0; m-- {
				a = append(a, p.near(x))
			}
			v = a
			switch p.r.Intn(4) {
			case 0:
				v = []int{p.r.Intn(3), p.r.Intn(3)}
			case 1:
				v = []string{"a", "ab"}
			}
		case "$exists":
			v = p.r.Intn(2) == 0
		case "$regex":
			v = []string{"a", "^a", "b$", "^ab$", ".", "^$"}[p.r.Intn(6)]
		case "$eq", "$ne":
			v = p.near(x)
		default:
			v = p.near(x)
			for _, ok := p07num(v); !ok; _, ok = p07num(v) {
				v = p.scalar()
			}
		}
		if bad && p.r.Intn(2) == 0 {
			v = []any{bson.M{"a": 1}, bson.E{Key: "a", Value: 1}, "[", bson.A{bson.A{1}}, bson.D{{Key: "a.b", Value: 1}}, bson.D{{Key: "$x", Value: 1}}, 1, true, "a"}[p.r.Intn(9)]
		} else if bad {
			k = []string{"$nin", "$not", "$size", "$type", "$x", "a", "$where"}[p.r.Intn(7)]
		}
		d = append(d, bson.E{Key: k, Value: v})
	}
	return bson.E{Key: sel, Value: d}
}

func (p *p07) filter(doc any, depth int) bson.D {
	f := bson.D{}
	for n := []int{0, 1, 1, 1, 2, 2, 3}[p.r.Intn(7)]; n > 0; n-- {
		f = append(f, p.cond(doc, depth))
	}
	return f
}

func p07copy(x any) any {
	switch v := x.(type) {
	case bson.D:
		c := bson.D{}
		for _, e := range v {
			c = append(c, bson.E{Key: e.Key, Value: p07copy(e.Value)})
		}
		return c
	case bson.A:
		c := bson.A{}
		for _, e := range v {
			c = append(c, p07copy(e))
		}
		return c
	}
	return x
}

func p07guard(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

// tries the filter on the document; reports whether the filter was accepted and matched
func (p *p07) try(f, doc bson.D) (accepted, matched bool) {
	before := p07copy(doc)
	var q query.Filter
	var err error
	if r := p07guard(func() { q, err = query.ParseFilter(f) }); r != nil {
		p.fail("parsing filter %v panics: %v", f, r)
		return
	}
	if ok := p07okfilter(f); ok != (err == nil) {
		p.fail("filter %v: well formed %v but ParseFilter returns error %v", f, ok, err)
		return
	}
	if err != nil {
		return
	}
	want := p07match(f, doc)
	for i := 0; i < 2; i++ {
		var got bool
		if r := p07guard(func() { got = q.Apply(doc) }); r != nil {
			p.fail("filter %v on %v panics: %v", f, doc, r)
			return true, false
		}
		if got != want {
			p.fail("filter %v on document %v: matches %v, want %v (evaluation %d)", f, doc, got, want, i)
		}
		if !reflect.DeepEqual(before, any(doc)) {
			p.fail("filter %v changes the document %v to %v", f, before, doc)
		}
	}
	return true, want
}

func TestVerifP07Filters(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	p := &p07{t: t, r: rand.New(rand.NewSource(seed)), keys: []string{"a", "b", "c", "name"}}
	budget := 5 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 75 * time.Second
	}
	// every shape the language distinguishes, against every small document
	var docs []bson.D
	vals := []any{nil, 0, 1, 2.0, "a", bson.D{}, bson.D{{Key: "b", Value: 1}}, bson.D{{Key: "b", Value: bson.A{1, 2}}}, bson.A{}, bson.A{1}, bson.A{1, 2}, bson.A{2, 1}, bson.A{1, 2, 3},
		bson.A{bson.D{{Key: "b", Value: 1}}}, bson.A{bson.D{{Key: "b", Value: 2}}, bson.D{{Key: "b", Value: 1}}}, bson.A{bson.A{1, 2}, 3},
		bson.D{{Key: "b", Value: 1}, {Key: "c", Value: 2}}, bson.D{{Key: "c", Value: 2}, {Key: "b", Value: 1}},
		bson.D{{Key: "b", Value: bson.D{{Key: "c", Value: 1}}}}, bson.A{bson.D{{Key: "b", Value: bson.D{{Key: "c", Value: 1}}}}, 1}}
	docs = append(docs, bson.D{}, bson.D{{Key: "c", Value: 1}})
	for _, v := range vals {
		docs = append(docs, bson.D{{Key: "a", Value: v}}, bson.D{{Key: "c", Value: 1}, {Key: "a", Value: v}})
	}
	var conds []any
	conds = append(conds, vals...)
	for _, v := range vals {
		conds = append(conds, bson.D{{Key: "$eq", Value: v}}, bson.D{{Key: "$ne", Value: v}}, bson.D{{Key: "$in", Value: bson.A{v, "z"}}}, bson.D{{Key: "$all", Value: bson.A{v}}}, bson.D{{Key: "$all", Value: bson.A{v, 1}}})
	}
	for _, n := range []any{0, 1, 1.0, 1.5, 2, int64(2)} {
		for _, k := range []string{"$eq", "$gt", "$gte", "$lt", "$lte"} {
			conds = append(conds, bson.D{{Key: k, Value: n}}, bson.D{{Key: "$elemMatch", Value: bson.D{{Key: "b", Value: bson.D{{Key: k, Value: n}}}}}}, bson.D{{Key: k, Value: n}, {Key: "$ne", Value: 2}}, bson.D{{Key: "$lt", Value: 2}, {Key: k, Value: n}})
		}
	}
	conds = append(conds, bson.D{{Key: "$exists", Value: true}}, bson.D{{Key: "$exists", Value: false}}, bson.D{{Key: "$exists", Value: true}, {Key: "$ne", Value: 1}}, bson.D{{Key: "$regex", Value: "^a"}}, bson.D{{Key: "$in", Value: bson.A{}}}, bson.D{{Key: "$all", Value: bson.A{}}},
		bson.D{{Key: "$nin", Value: bson.A{1}}}, bson.D{{Key: "$size", Value: 1}}, bson.D{{Key: "$all", Value: bson.A{1}}, {Key: "$gt", Value: 0}}, bson.D{{Key: "$elemMatch", Value: bson.D{}}}, bson.D{{Key: "$bogus", Value: 1}}, bson.D{{Key: "b", Value: 1}, {Key: "$gt", Value: 0}}, bson.M{"$gt": 1})
	n, hits := 0, 0
	run := func(f, d bson.D) {
		n++
		if _, m := p.try(f, d); m {
			hits++
		}
	}
	for _, sel := range []string{"a", "a.b", "a.0", "a.-1", "a.b.c", "a.0.b", "a.b.0", "a.1.b", "0", "c"} {
		for _, c := range conds {
			f := bson.D{{Key: sel, Value: c}}
			for _, d := range docs {
				run(f, d)
			}
		}
	}
	for _, l := range []string{"$and", "$or", "$nor"} {
		for _, c1 := range []any{1, bson.D{{Key: "$gt", Value: 1}}, "a"} {
			for _, c2 := range []any{1, bson.D{{Key: "$lt", Value: 2}}, bson.D{{Key: "$exists", Value: false}}} {
				for _, d := range docs {
					run(bson.D{{Key: l, Value: bson.A{bson.D{{Key: "a", Value: c1}}, bson.D{{Key: "a", Value: c2}}}}}, d)
					run(bson.D{{Key: "$not", Value: bson.D{{Key: l, Value: bson.A{bson.D{{Key: "a", Value: c1}, {Key: "a", Value: c2}}}}}}}, d)
				}
			}
		}
	}
	// random filters drawn near the document
	ran, acc, rhits := 0, 0, 0
	end := time.Now().Add(budget)
	for time.Now().Before(end) {
		d := p.doc(4)
		for i := 0; i < 6; i++ {
			f := p.filter(d, 2)
			a, m := p.try(f, d)
			ran++
			if a {
				acc++
			}
			if m {
				rhits++
			}
		}
		// and through a collection: exactly the matching documents, in insertion order
		if ran%60 == 0 {
			p.collection()
		}
	}
	fmt.Printf("COVERED: %d fixed and %d random (filter, document) pairs; %d and %d matched, %d random filters well formed\n", n, ran, hits, rhits, acc)
}

func (p *p07) collection() {
	ctx := context.Background()
	db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
	c, _ := db.GetCollection(ctx, "db", "c")
	var docs []bson.D
	for i := 0; i < 12; i++ {
		d := append(bson.D{{Key: "_id", Value: i}}, p.doc(3)...)
		docs = append(docs, d)
		if err := c.InsertOne(ctx, p07copy(d)); err != nil {
			p.fail("InsertOne(%v): %v", d, err)
			return
		}
	}
	for i := 0; i < 6; i++ {
		f := p.filter(docs[p.r.Intn(len(docs))], 2)
		ok := p07okfilter(f)
		var want []int
		if ok {
			for j, d := range docs {
				if p07match(f, d) {
					want = append(want, j)
				}
			}
		}
		if r := p07guard(func() {
			cur, err := c.FindMany(ctx, f)
			if ok != (err == nil) {
				p.fail("FindMany(%v): well formed %v but error %v", f, ok, err)
				return
			}
			one, err1 := c.FindOne(ctx, f)
			if ok != (err1 == nil) {
				p.fail("FindOne(%v): well formed %v but error %v", f, ok, err1)
				return
			}
			if !ok {
				return
			}
			var got []struct {
				ID int `bson:"_id"`
			}
			if err := cur.All(ctx, &got); err != nil {
				p.fail("FindMany(%v).All: %v", f, err)
				return
			}
			var ids []int
			for _, g := range got {
				ids = append(ids, g.ID)
			}
			if !reflect.DeepEqual(ids, want) {
				p.fail("FindMany(%v) over %v returns documents %v, want %v", f, docs, ids, want)
			}
			first := struct {
				ID int `bson:"_id"`
			}{-1}
			found, err := one.One(ctx, &first)
			if err != nil || found != (len(want) > 0) || found && first.ID != want[0] {
				p.fail("FindOne(%v) over %v returns %v, %v, %v, want the first of %v", f, docs, found, first.ID, err, want)
			}
		}); r != nil {
			p.fail("find %v over %v panics: %v", f, docs, r)
		}
	}
}
