package simplenosqldb_test

// Replay harness for property P08: random documents and random update documents, applied directly and through a
// collection, against an independent model of what an update does.

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
	"go.mongodb.org/mongo-driver/bson"
)

type p08 struct {
	t    *testing.T
	r    *rand.Rand
	bad  int
	done map[string]int
}

func (p *p08) fail(f string, a ...any) {
	p.t.Errorf("FAILING-INPUT: "+f, a...)
	p.bad++
	if p.bad > 8 {
		p.t.FailNow()
	}
}

func p08guard(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

// ---- values

func p08copy(v any) any {
	switch x := v.(type) {
	case bson.D:
		out := bson.D{}
		for _, e := range x {
			out = append(out, bson.E{Key: e.Key, Value: p08copy(e.Value)})
		}
		return out
	case bson.A:
		out := bson.A{}
		for _, e := range x {
			out = append(out, p08copy(e))
		}
		return out
	}
	return v
}

// what a value becomes when it is stored
func p08stored(v any) any {
	switch x := v.(type) {
	case bson.D:
		out := bson.D{}
		for _, e := range x {
			out = append(out, bson.E{Key: e.Key, Value: p08stored(e.Value)})
		}
		return out
	case bson.A:
		out := bson.A{}
		for _, e := range x {
			out = append(out, p08stored(e))
		}
		return out
	case int:
		if x >= math.MinInt32 && x <= math.MaxInt32 {
			return int32(x)
		}
		return int64(x)
	case int8:
		return int32(x)
	case int16:
		return int32(x)
	case float32:
		return float64(x)
	}
	return v
}

func p08int(v any) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

func p08num(v any) (float64, bool) {
	if n, ok := p08int(v); ok {
		return float64(n), true
	}
	switch x := v.(type) {
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// the same element of a set
func p08same(a, b any) bool {
	switch x := a.(type) {
	case bson.D:
		y, ok := b.(bson.D)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Key != y[i].Key || !p08same(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case bson.A:
		y, ok := b.(bson.A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !p08same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if m, ok := p08int(a); ok {
		if n, ok := p08int(b); ok {
			return m == n
		}
	}
	if m, ok := p08num(a); ok {
		n, ok := p08num(b)
		return ok && m == n
	}
	return reflect.DeepEqual(a, b)
}

// the value with the types of its integers
func p08show(v any) string {
	switch x := v.(type) {
	case bson.D:
		out := ""
		for _, e := range x {
			out += fmt.Sprintf("%q: %s ", e.Key, p08show(e.Value))
		}
		return "{" + out + "}"
	case bson.A:
		out := ""
		for _, e := range x {
			out += p08show(e) + " "
		}
		return "[" + out + "]"
	case string, bool, nil:
		return fmt.Sprintf("%#v", x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// ---- the model

type p08leaf func(any) (any, bool)

func p08at(x any, parts []string, create bool, leaf p08leaf) (any, bool) {
	if len(parts) == 0 {
		return leaf(x)
	}
	if n, err := strconv.Atoi(parts[0]); err == nil {
		if x == nil && !create {
			return x, true
		}
		a, ok := x.(bson.A)
		if (x != nil && !ok) || n < 0 {
			return nil, false
		}
		if n >= len(a) && !create {
			return x, true
		}
		out := append(bson.A{}, a...)
		for len(out) <= n {
			out = append(out, nil)
		}
		v, ok := p08at(out[n], parts[1:], create, leaf)
		if !ok {
			return nil, false
		}
		out[n] = v
		return out, true
	}
	d, ok := x.(bson.D)
	if x != nil && !ok {
		return nil, false
	}
	out := append(bson.D{}, d...)
	for i := range out {
		if out[i].Key == parts[0] {
			v, ok := p08at(out[i].Value, parts[1:], create, leaf)
			if !ok {
				return nil, false
			}
			out[i].Value = v
			return out, true
		}
	}
	if !create {
		return x, true
	}
	v, ok := p08at(nil, parts[1:], create, leaf)
	if !ok {
		return nil, false
	}
	return append(out, bson.E{Key: parts[0], Value: v}), true
}

func p08array(x any) (bson.A, bool) {
	if x == nil {
		return bson.A{}, true
	}
	a, ok := x.(bson.A)
	return append(bson.A{}, a...), ok
}

func p08matches(cond, x any) bool {
	d, ok := cond.(bson.D)
	if !ok {
		return p08same(cond, x)
	}
	for _, e := range d {
		xd, _ := x.(bson.D)
		found := false
		one := func(v any) bool {
			if gt, ok := e.Value.(bson.D); ok {
				m, ok := p08num(v)
				n, _ := p08num(gt[0].Value)
				return ok && m > n
			}
			return p08same(e.Value, v)
		}
		for _, f := range xd {
			if f.Key == e.Key {
				found = one(f.Value)
				if a, ok := f.Value.(bson.A); ok {
					for _, el := range a {
						found = found || one(el)
					}
				}
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func p08apply(x any, op, path string, v any) (any, bool) {
	parts := strings.Split(path, ".")
	switch op {
	case "$set":
		return p08at(x, parts, true, func(any) (any, bool) { return p08stored(v), true })
	case "$unset":
		last := parts[len(parts)-1]
		return p08at(x, parts[:len(parts)-1], false, func(y any) (any, bool) {
			if y == nil {
				return y, true
			}
			if n, err := strconv.Atoi(last); err == nil {
				a, ok := y.(bson.A)
				if !ok || n < 0 {
					return nil, false
				}
				a = append(bson.A{}, a...)
				if n < len(a) {
					a[n] = nil
				}
				return a, true
			}
			d, ok := y.(bson.D)
			if !ok {
				return nil, false
			}
			for i := range d {
				if d[i].Key == last {
					return append(append(bson.D{}, d[:i]...), d[i+1:]...), true
				}
			}
			return d, true
		})
	case "$inc":
		n, _ := p08int(v)
		return p08at(x, parts, true, func(y any) (any, bool) {
			switch f := y.(type) {
			case nil:
				return n, true
			case float64:
				return f + float64(n), true
			case float32:
				return f + float32(n), true
			}
			m, ok := p08int(y)
			if !ok || (n > 0 && m > math.MaxInt64-n) || (n < 0 && m < math.MinInt64-n) {
				return nil, false
			}
			s := m + n
			switch y.(type) {
			case int8:
				if s >= math.MinInt8 && s <= math.MaxInt8 {
					return int8(s), true
				}
			case int16:
				if s >= math.MinInt16 && s <= math.MaxInt16 {
					return int16(s), true
				}
			case int32:
				if s >= math.MinInt32 && s <= math.MaxInt32 {
					return int32(s), true
				}
			case int:
				return int(s), true
			}
			return s, true
		})
	case "$push":
		return p08at(x, parts, true, func(y any) (any, bool) {
			a, ok := p08array(y)
			return append(a, p08stored(v)), ok
		})
	case "$addToSet":
		return p08at(x, parts, true, func(y any) (any, bool) {
			a, ok := p08array(y)
			for _, e := range a {
				if p08same(p08stored(v), e) {
					return y, ok
				}
			}
			return append(a, p08stored(v)), ok
		})
	case "$pull":
		return p08at(x, parts, false, func(y any) (any, bool) {
			a, ok := p08array(y)
			if !ok {
				return nil, false
			}
			out := bson.A{}
			for _, e := range a {
				if !p08matches(v, e) {
					out = append(out, e)
				}
			}
			if len(out) == len(a) {
				return y, true
			}
			return out, true
		})
	}
	return nil, false
}

func p08update(x any, u bson.D) (any, bool) {
	for _, op := range u {
		for _, e := range op.Value.(bson.D) {
			y, ok := p08apply(x, op.Key, e.Key, e.Value)
			if !ok {
				return nil, false
			}
			x = y
		}
	}
	return x, true
}

// ---- generators

var p08keys = []string{"a", "b", "c", "n", ""}

func (p *p08) number() any {
	switch p.r.Intn(9) {
	case 0:
		return int64(p.r.Intn(5))
	case 1:
		return int32(p.r.Intn(5))
	case 2:
		return int32(math.MaxInt32 - p.r.Intn(3))
	case 3:
		return int32(math.MinInt32 + p.r.Intn(3))
	case 4:
		return int64(math.MaxInt64 - p.r.Intn(3))
	case 5:
		return int64(math.MinInt64 + p.r.Intn(3))
	case 6:
		return float64(p.r.Intn(6)) / 2
	case 7:
		return int64(math.MaxInt32) + int64(p.r.Intn(3))
	}
	return p.r.Intn(4)
}

func (p *p08) scalar() any {
	switch p.r.Intn(6) {
	case 0:
		return "s" + strconv.Itoa(p.r.Intn(2))
	case 1:
		return p.r.Intn(2) == 0
	case 2:
		return nil
	}
	return p.number()
}

func (p *p08) value(depth int) any {
	if depth > 0 {
		switch p.r.Intn(4) {
		case 0:
			return p.doc(depth-1, 3)
		case 1:
			return p.array(depth - 1)
		}
	}
	return p.scalar()
}

func (p *p08) array(depth int) bson.A {
	a := bson.A{}
	for i := p.r.Intn(4); i > 0; i-- {
		a = append(a, p.value(depth))
	}
	return a
}

func (p *p08) doc(depth, n int) bson.D {
	d := bson.D{}
	for _, i := range p.r.Perm(len(p08keys))[:p.r.Intn(n+1)] {
		d = append(d, bson.E{Key: p08keys[i], Value: p.value(depth)})
	}
	return d
}

// small integer types, which only documents that do not come from a collection have
func (p *p08) shrink(v any) any {
	switch x := v.(type) {
	case bson.D:
		for i := range x {
			x[i].Value = p.shrink(x[i].Value)
		}
	case bson.A:
		for i := range x {
			x[i] = p.shrink(x[i])
		}
	case int32:
		switch p.r.Intn(4) {
		case 0:
			return int8(127 - p.r.Intn(3))
		case 1:
			return int16(-32768 + p.r.Intn(3))
		case 2:
			return int(x)
		}
	}
	return v
}

// a path; mostly one that exists in x
func (p *p08) path(x any) string {
	var parts []string
	for {
		key := p08keys[p.r.Intn(4)]
		switch v := x.(type) {
		case bson.D:
			x = nil
			if len(v) > 0 && p.r.Intn(6) > 0 {
				if e := v[p.r.Intn(len(v))]; e.Key != "_id" {
					key, x = e.Key, e.Value
				}
			}
			if p.r.Intn(40) == 0 {
				key = "0"
			}
		case bson.A:
			x = nil
			switch n := p.r.Intn(8); {
			case n < 5 && len(v) > 0:
				i := p.r.Intn(len(v))
				key, x = strconv.Itoa(i), v[i]
			case n == 5:
				key = strconv.Itoa(len(v) + p.r.Intn(3))
			case n == 6:
				key = "-1"
			}
		default:
			if p.r.Intn(2) == 0 {
				key = strconv.Itoa(p.r.Intn(3))
			}
			x = nil
		}
		parts = append(parts, key)
		stop := 3
		if x == nil {
			stop = 2
		}
		if len(parts) > 4 || p.r.Intn(stop) == 0 {
			return strings.Join(parts, ".")
		}
	}
}

func (p *p08) cond(x any) any {
	switch p.r.Intn(4) {
	case 0:
		return bson.D{{Key: p08keys[p.r.Intn(4)], Value: bson.D{{Key: "$gt", Value: p.r.Intn(4)}}}}
	case 1:
		return bson.D{{Key: p08keys[p.r.Intn(4)], Value: p.r.Intn(4)}}
	case 2:
		return "s" + strconv.Itoa(p.r.Intn(2))
	}
	return p.r.Intn(4)
}

var p08ops = []string{"$set", "$unset", "$inc", "$push", "$addToSet", "$pull"}

func (p *p08) amount() any {
	n := p.r.Intn(7) - 3
	switch p.r.Intn(7) {
	case 0:
		return int64(n)
	case 1:
		return int32(n)
	case 2:
		return int16(n)
	case 3:
		return int8(n)
	case 4:
		return int64(math.MinInt64)
	case 5:
		return int64(math.MaxInt64)
	}
	return n
}

func (p *p08) update(x any) bson.D {
	u := bson.D{}
	for i := 1 + p.r.Intn(2)*p.r.Intn(3); i > 0; i-- {
		op := p08ops[p.r.Intn(len(p08ops))]
		args := bson.D{}
		for j := 1 + p.r.Intn(2)*p.r.Intn(2); j > 0; j-- {
			path := p.path(x)
			var v any
			switch op {
			case "$inc":
				v = p.amount()
			case "$pull":
				v = p.cond(x)
			case "$addToSet":
				v = p.value(p.r.Intn(2))
			default:
				v = p.value(2)
			}
			args = append(args, bson.E{Key: path, Value: v})
		}
		u = append(u, bson.E{Key: op, Value: args})
	}
	return u
}

// a single update aimed at an array or a number of the document, where the operators differ most
func (p *p08) aimed(x any) bson.D {
	var arrays, numbers []string
	var walk func(path string, v any)
	walk = func(path string, v any) {
		switch y := v.(type) {
		case bson.D:
			for _, e := range y {
				if e.Key != "" {
					walk(path+"."+e.Key, e.Value)
				}
			}
		case bson.A:
			arrays = append(arrays, path)
			for i := range y {
				walk(path+"."+strconv.Itoa(i), y[i])
			}
		default:
			if _, ok := p08num(v); ok {
				numbers = append(numbers, path)
			}
		}
	}
	walk("", x)
	if len(numbers) > 0 && p.r.Intn(3) == 0 {
		return bson.D{{Key: "$inc", Value: bson.D{{Key: numbers[p.r.Intn(len(numbers))][1:], Value: p.amount()}}}}
	}
	if len(arrays) == 0 {
		return p.update(x)
	}
	path := arrays[p.r.Intn(len(arrays))][1:]
	switch p.r.Intn(5) {
	case 0:
		return bson.D{{Key: "$pull", Value: bson.D{{Key: path, Value: p.cond(x)}}}}
	case 1:
		return bson.D{{Key: "$addToSet", Value: bson.D{{Key: path, Value: p.value(1)}}}}
	case 2:
		return bson.D{{Key: "$push", Value: bson.D{{Key: path, Value: p.value(1)}}}}
	case 3:
		return bson.D{{Key: "$unset", Value: bson.D{{Key: path + "." + strconv.Itoa(p.r.Intn(3)), Value: ""}}}}
	}
	return bson.D{{Key: "$set", Value: bson.D{{Key: path + "." + strconv.Itoa(p.r.Intn(5)), Value: p.value(1)}}}}
}

func (p *p08) next(x any) bson.D {
	if p.r.Intn(2) == 0 {
		return p.aimed(x)
	}
	return p.update(x)
}

// an update document that has to be rejected
func (p *p08) invalid(x any) bson.D {
	u := bson.D{}
	if p.r.Intn(2) == 0 {
		u = p.update(x)
	}
	path := p.path(x)
	var e bson.E
	switch p.r.Intn(7) {
	case 0:
		e = bson.E{Key: []string{"$rename", "$mul", "a", "", "$Set", "set"}[p.r.Intn(6)], Value: bson.D{{Key: path, Value: 1}}}
	case 1:
		e = bson.E{Key: p08ops[p.r.Intn(6)], Value: []any{1, "x", nil, bson.A{}}[p.r.Intn(4)]}
	case 2:
		e = bson.E{Key: "$inc", Value: bson.D{{Key: path, Value: []any{"1", nil, bson.A{}, 1.5}[p.r.Intn(4)]}}}
	case 3:
		e = bson.E{Key: []string{"$push", "$addToSet"}[p.r.Intn(2)], Value: bson.D{{Key: path, Value: bson.D{{Key: "$each", Value: bson.A{1, 2}}}}}}
	case 4:
		e = bson.E{Key: []string{"$push", "$addToSet"}[p.r.Intn(2)], Value: bson.D{{Key: path, Value: bson.D{{Key: "a", Value: 1}, {Key: "$position", Value: 0}}}}}
	case 5:
		e = bson.E{Key: []string{"$set", "$push", "$addToSet"}[p.r.Intn(3)], Value: bson.D{{Key: path, Value: make(chan int)}}}
	case 6:
		e = bson.E{Key: "$inc", Value: bson.D{{Key: path, Value: 1}, {Key: path, Value: "x"}}}
	}
	u = append(u, e)
	return u
}

// ---- checks

func (p *p08) direct(i int) {
	d := p.doc(3, 4)
	if p.r.Intn(2) == 0 {
		d = p08stored(d).(bson.D)
	}
	if p.r.Intn(3) == 0 {
		d = p.shrink(d).(bson.D)
	}
	if p.r.Intn(12) == 0 {
		u := p.invalid(d)
		var err error
		if pan := p08guard(func() { _, err = query.ParseUpdate(u) }); pan != nil {
			p.fail("ParseUpdate(%v) panics: %v", u, pan)
		} else if err == nil {
			p.fail("ParseUpdate(%v) accepts an update that is not supported", u)
		}
		p.done["rejected"]++
		return
	}
	u := p.next(d)
	up, err := query.ParseUpdate(u)
	if err != nil {
		p.fail("ParseUpdate(%v) fails: %v", u, err)
		return
	}
	// the same update is applied to two documents that share their parts
	for k := 0; k < 2; k++ {
		before := p08copy(d).(bson.D)
		read := d
		want, ok := p08update(before, u)
		x := append(bson.D{}, d...)
		if len(d) == 0 {
			x = d
		}
		if pan := p08guard(func() { err = up.Apply(&x) }); pan != nil {
			p.fail("applying %v to %#v panics: %v", u, before, pan)
			return
		}
		if (err == nil) != ok {
			p.fail("applying %v to %#v: error %v, want success=%v", u, before, err, ok)
			return
		}
		if !ok {
			want = before
			p.done["error"]++
		}
		if !p.equal(x, want) {
			p.fail("applying %v to %#v gives %#v, want %#v", u, before, x, want)
			return
		}
		if !p.equal(read, before) {
			p.fail("applying %v to %#v changes a document that was read earlier: it is now %#v", u, before, read)
			return
		}
		if ok && p.r.Intn(2) == 0 {
			d = x // apply the update again to its result
		}
	}
	for _, op := range u {
		p.done[op.Key]++
	}
}

func (p *p08) equal(a, b any) bool {
	switch x := a.(type) {
	case bson.D:
		y, ok := b.(bson.D)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Key != y[i].Key || !p.equal(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case bson.A:
		y, ok := b.(bson.A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !p.equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func (p *p08) collection(i int) {
	ctx := context.Background()
	db, err := simplenosqldb.NewSimpleNoSQLDB(ctx)
	if err != nil {
		p.t.Fatal(err)
	}
	coll, err := db.GetCollection(ctx, "db", "c"+strconv.Itoa(i))
	if err != nil {
		p.t.Fatal(err)
	}
	other := bson.D{{Key: "_id", Value: "other"}, {Key: "a", Value: bson.A{int32(1), int32(2)}}}
	first := append(bson.D{{Key: "_id", Value: "x"}}, p.doc(3, 4)...)
	if coll.InsertOne(ctx, first) != nil || coll.InsertOne(ctx, other) != nil {
		p.t.Fatal("insert")
	}
	find := func(id string) bson.D {
		cur, err := coll.FindOne(ctx, bson.D{{Key: "_id", Value: id}})
		if err != nil {
			p.t.Fatal(err)
		}
		var d bson.D
		if ok, err := cur.One(ctx, &d); err != nil || !ok {
			p.t.Fatalf("document %q is gone: %v %v", id, ok, err)
		}
		return d
	}
	model := any(p08copy(first)) // a collection keeps the Go types of what is inserted
	var hist []string
	type rd struct{ got, want bson.D }
	var reads []rd
	for k := 0; k < 8; k++ {
		u := p.next(model)
		if p.r.Intn(10) == 0 {
			u = p.invalid(model)
		}
		hist = append(hist, fmt.Sprint(u))
		want, ok := any(nil), false
		if _, e := query.ParseUpdate(u); e == nil {
			want, ok = p08update(model, u)
		}
		var n int
		if pan := p08guard(func() { n, err = coll.UpdateOne(ctx, bson.D{{Key: "_id", Value: "x"}}, u) }); pan != nil {
			p.fail("UpdateOne panics: %v; history %v from %v", pan, hist, first)
			return
		}
		if (err == nil) != ok || (ok && n != 1) {
			p.fail("UpdateOne returns %v, %v, want success=%v; document %#v; history %v", n, err, ok, model, hist)
			return
		}
		if ok {
			model = want
		}
		got := find("x")
		if !p.equal(got, p08stored(model)) {
			p.fail("the document is %s, want %s; history %v", p08show(got), p08show(model), hist)
			return
		}
		for _, r := range reads {
			if !p.equal(r.got, r.want) {
				p.fail("a document that was read earlier changed from %v to %v; history %v", r.want, r.got, hist)
				return
			}
		}
		reads = append(reads, rd{got, p08copy(got).(bson.D)})
		p.done["through the collection"]++
	}
	if !p.equal(find("other"), other) {
		p.fail("another document changed to %v; history %v", find("other"), hist)
	}
}

func TestVerifP08Updates(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 5 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 80 * time.Second
	}
	p := &p08{t: t, r: rand.New(rand.NewSource(seed + 8)), done: map[string]int{}}
	end := time.Now().Add(d)
	n := 0
	for ; time.Now().Before(end); n++ {
		p.direct(n)
		if n%4 == 0 {
			p.collection(n)
		}
	}
	fmt.Printf("COVERED: %d random documents and updates (%v)\n", n, p.done)
}
