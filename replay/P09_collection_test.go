package simplenosqldb_test

// Replay harness for property P09: random histories of operations on two collections of the in-memory NoSQL
// database against a list of documents.  Filters and updates come from a small fixed family whose meaning is
// spelled out here, so that what is judged is what the collection does with them.

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

type p09item struct {
	ID   primitive.ObjectID `bson:"_id,omitempty"`
	Name string
	N    int64
	Tags []string
}

type p09coll struct {
	c     backend.NoSQLCollection
	model []bson.D
}

type p09cursor struct {
	cur  backend.NoSQLCursor
	want []bson.D
	what string
}

type p09 struct {
	t     *testing.T
	r     *rand.Rand
	bad   int
	hist  []string
	curs  []p09cursor
	stop  bool
	ops   map[string]int
	empty int
}

func (p *p09) fail(f string, a ...any) {
	h := p.hist
	if len(h) > 14 {
		h = h[len(h)-14:]
	}
	p.t.Errorf("FAILING-INPUT: %s; history (last operations): %v", fmt.Sprintf(f, a...), h)
	p.bad++
	p.stop = true
	if p.bad > 6 {
		p.t.FailNow()
	}
}

func p09guard(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

// norm converts a value to what reading it back from BSON gives
func p09norm(x any) bson.D {
	b, err := bson.Marshal(x)
	if err != nil {
		return nil
	}
	var d bson.D
	if bson.Unmarshal(b, &d) != nil {
		return nil
	}
	return d
}

func p09eqD(a, b bson.D) bool {
	x, e1 := bson.Marshal(a)
	y, e2 := bson.Marshal(b)
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

func p09get(d bson.D, k string) (any, bool) {
	for _, e := range d {
		if e.Key == k {
			return e.Value, true
		}
	}
	return nil, false
}

func p09int(v any) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

// ---- filters

type p09filter struct {
	d     bson.D
	match func(d bson.D) bool // nil: the filter is not valid
}

var p09names = []string{"a", "b", "c", "d"}

func (p *p09) filter(c *p09coll) p09filter {
	nm := p09names[p.r.Intn(len(p09names))]
	n := int64(p.r.Intn(4))
	isName := func(d bson.D, s string) bool { v, _ := p09get(d, "name"); x, ok := v.(string); return ok && x == s }
	switch p.r.Intn(10) {
	case 0:
		return p09filter{bson.D{}, func(bson.D) bool { return true }}
	case 1, 2, 3:
		return p09filter{bson.D{{"name", nm}}, func(d bson.D) bool { return isName(d, nm) }}
	case 4:
		return p09filter{bson.D{{"n", bson.D{{"$gte", n}}}}, func(d bson.D) bool {
			v, _ := p09get(d, "n")
			x, ok := p09int(v)
			return ok && x >= n
		}}
	case 5:
		nm2 := p09names[p.r.Intn(len(p09names))]
		return p09filter{bson.D{{"$or", bson.A{bson.D{{"name", nm}}, bson.D{{"name", nm2}}}}}, func(d bson.D) bool { return isName(d, nm) || isName(d, nm2) }}
	case 6:
		return p09filter{bson.D{{"n", bson.D{{"$exists", true}}}}, func(d bson.D) bool { _, ok := p09get(d, "n"); return ok }}
	case 7:
		if len(c.model) > 0 {
			id, _ := p09get(c.model[p.r.Intn(len(c.model))], "_id")
			if oid, ok := id.(primitive.ObjectID); ok {
				return p09filter{bson.D{{"_id", oid}}, func(d bson.D) bool { x, _ := p09get(d, "_id"); return x == any(oid) }}
			}
		}
		return p09filter{bson.D{{"name", "nobody"}}, func(d bson.D) bool { return isName(d, "nobody") }}
	case 8:
		return p09filter{bson.D{{"name", "nobody"}}, func(d bson.D) bool { return isName(d, "nobody") }}
	}
	return p09filter{[]bson.D{{{"$bogus", 1}}, {{"name", bson.D{{"$bogus", 1}}}}, {{"$or", 3}}}[p.r.Intn(3)], nil}
}

// ---- updates

type p09update struct {
	d     bson.D
	apply func(d bson.D) (bson.D, bool) // nil: the update is not valid
}

func p09set(d bson.D, k string, v any) bson.D {
	out := append(bson.D{}, d...)
	for i := range out {
		if out[i].Key == k {
			out[i].Value = v
			return out
		}
	}
	return append(out, bson.E{Key: k, Value: v})
}

func (p *p09) update() p09update {
	nm := p09names[p.r.Intn(len(p09names))]
	n := int64(p.r.Intn(4))
	set := func(d bson.D) (bson.D, bool) { return p09set(d, "name", nm), true }
	inc := func(d bson.D) (bson.D, bool) {
		v, ok := p09get(d, "n")
		if !ok || v == nil {
			return p09set(d, "n", n), true
		}
		switch x := v.(type) {
		case int64:
			return p09set(d, "n", x+n), true
		case int32:
			return p09set(d, "n", x+int32(n)), true
		case int:
			return p09set(d, "n", x+int(n)), true
		}
		return nil, false
	}
	push := func(d bson.D) (bson.D, bool) {
		v, _ := p09get(d, "tags")
		if v == nil {
			return p09set(d, "tags", bson.A{nm}), true
		}
		a, ok := v.(bson.A)
		if !ok {
			return nil, false
		}
		return p09set(d, "tags", append(append(bson.A{}, a...), nm)), true
	}
	unset := func(d bson.D) (bson.D, bool) {
		out := bson.D{}
		for _, e := range d {
			if e.Key != "n" {
				out = append(out, e)
			}
		}
		return out, true
	}
	switch p.r.Intn(8) {
	case 0, 1:
		return p09update{bson.D{{"$set", bson.D{{"name", nm}}}}, set}
	case 2:
		return p09update{bson.D{{"$inc", bson.D{{"n", n}}}}, inc}
	case 3:
		return p09update{bson.D{{"$push", bson.D{{"tags", nm}}}}, push}
	case 4:
		return p09update{bson.D{{"$unset", bson.D{{"n", ""}}}}, unset}
	case 5, 6: // the first part changes the document, the second might fail
		return p09update{bson.D{{"$set", bson.D{{"name", nm}}}, {"$inc", bson.D{{"n", n}}}}, func(d bson.D) (bson.D, bool) {
			d, _ = set(d)
			return inc(d)
		}}
	}
	return p09update{[]bson.D{{{"$bogus", bson.D{{"n", 1}}}}, {{"$set", 3}}, {{"$inc", bson.D{{"n", "x"}}}}}[p.r.Intn(3)], nil}
}

// ---- documents

func (p *p09) n() any {
	switch p.r.Intn(8) {
	case 0:
		return "three" // $inc fails on this one
	case 1:
		return int32(p.r.Intn(4))
	}
	return int64(p.r.Intn(4))
}

// doc makes a document; want is nil if it cannot be inserted
func (p *p09) doc() (doc any, want bson.D) {
	nm := p09names[p.r.Intn(len(p09names))]
	switch p.r.Intn(12) {
	case 0:
		return make(chan int), nil
	case 1:
		return 17, nil
	case 2, 3:
		it := p09item{Name: nm, N: int64(p.r.Intn(4))}
		for i := p.r.Intn(3); i > 0; i-- {
			it.Tags = append(it.Tags, p09names[p.r.Intn(4)])
		}
		if p.r.Intn(2) == 0 {
			it.ID = primitive.NewObjectID()
		}
		if p.r.Intn(2) == 0 {
			return &it, p09norm(&it)
		}
		return it, p09norm(it)
	case 4:
		return bson.M{"name": nm}, bson.D{{"name", nm}}
	}
	d := bson.D{{"name", nm}}
	if p.r.Intn(4) > 0 {
		d = append(d, bson.E{Key: "n", Value: p.n()})
	}
	if p.r.Intn(2) == 0 {
		d = append(d, bson.E{Key: "tags", Value: bson.A{"x", bson.D{{"deep", "y"}}}})
	}
	if p.r.Intn(2) == 0 {
		d = append(d, bson.E{Key: "sub", Value: bson.D{{"k", "v"}, {"l", bson.A{"p", "q"}}}})
	}
	if p.r.Intn(3) == 0 {
		e := bson.E{Key: "_id", Value: primitive.NewObjectID()}
		i := p.r.Intn(len(d) + 1)
		d = append(d[:i:i], append(bson.D{e}, d[i:]...)...)
	}
	return d, p09norm(d)
}

// scribble changes everything reachable from a document the caller still has
func p09scribble(x any) {
	switch v := x.(type) {
	case bson.D:
		for i := range v {
			p09scribble(v[i].Value)
			if v[i].Key != "_id" {
				switch v[i].Value.(type) {
				case bson.D, bson.A:
				default:
					v[i].Value = "scribbled"
				}
			} else {
				v[i].Value = "no id"
			}
		}
	case bson.A:
		for i := range v {
			p09scribble(v[i])
			if _, ok := v[i].(string); ok {
				v[i] = "scribbled"
			}
		}
	}
}

func p09show(d any) string { return fmt.Sprintf("%v", d) }

// ---- checks

func (p *p09) all(cur backend.NoSQLCursor, want []bson.D, what string) {
	var got []bson.D
	var err error
	if r := p09guard(func() { err = cur.All(context.Background(), &got) }); r != nil || err != nil {
		p.fail("%s: reading the results failed: %v %v", what, r, err)
		return
	}
	if len(got) != len(want) {
		p.fail("%s: %d documents, expected %d: got %v, expected %v", what, len(got), len(want), got, want)
		return
	}
	for i := range got {
		if !p09eqD(got[i], want[i]) {
			p.fail("%s: document %d is %v, expected %v", what, i, got[i], want[i])
			return
		}
	}
	var one bson.D
	ok := false
	if r := p09guard(func() { ok, err = cur.One(context.Background(), &one) }); r != nil || err != nil {
		p.fail("%s: reading one result failed: %v %v", what, r, err)
		return
	}
	if ok != (len(want) > 0) || ok && !p09eqD(one, want[0]) {
		p.fail("%s: One gives %v %v, expected the first of %v", what, ok, one, want)
	}
}

func (p *p09) check(c *p09coll, what string) {
	var cur backend.NoSQLCursor
	var err error
	if r := p09guard(func() { cur, err = c.c.FindMany(context.Background(), bson.D{}) }); r != nil || err != nil {
		p.fail("%s: FindMany of everything failed: %v %v", what, r, err)
		return
	}
	p.all(cur, c.model, "contents after "+what)
}

// adopt fills in the _id that an inserted document was given
func (p *p09) adopt(c *p09coll, from int, what string) {
	var got []bson.D
	var cur backend.NoSQLCursor
	var err error
	if r := p09guard(func() {
		cur, err = c.c.FindMany(context.Background(), bson.D{})
		if err == nil {
			err = cur.All(context.Background(), &got)
		}
	}); r != nil || err != nil {
		p.fail("%s: reading back failed: %v %v", what, r, err)
		return
	}
	if len(got) != len(c.model) {
		p.fail("%s: %d documents, expected %d", what, len(got), len(c.model))
		return
	}
	for i := from; i < len(c.model); i++ {
		if _, ok := p09get(c.model[i], "_id"); ok {
			continue
		}
		id, ok := p09get(got[i], "_id")
		if oid, is := id.(primitive.ObjectID); !ok || !is || oid.IsZero() {
			p.fail("%s: inserted document %v has no ID", what, got[i])
			return
		}
		for j := range c.model {
			if x, ok := p09get(c.model[j], "_id"); ok && x == id {
				p.fail("%s: inserted document %v has the ID of document %d", what, got[i], j)
				return
			}
		}
		c.model[i] = append(bson.D{{"_id", id}}, c.model[i]...)
	}
}

func (c *p09coll) first(f p09filter) int {
	for i, d := range c.model {
		if f.match(d) {
			return i
		}
	}
	return -1
}

// replaced keeps the ID of the document replaced
func p09replace(old, d bson.D) bson.D {
	if _, ok := p09get(d, "_id"); ok {
		return d
	}
	if id, ok := p09get(old, "_id"); ok {
		return append(bson.D{{"_id", id}}, d...)
	}
	return d
}

func (p *p09) step(c *p09coll, name string) {
	ctx := context.Background()
	model := append([]bson.D{}, c.model...)
	var err error
	op := p.r.Intn(15)
	run := func(what string, f func()) bool {
		p.hist = append(p.hist, name+"."+what)
		p.ops[what[:bytes.IndexByte([]byte(what+"("), '(')]]++
		if r := p09guard(f); r != nil {
			p.fail("%s panics: %v", what, r)
			return false
		}
		return true
	}
	expect := func(what string, want bool) {
		if (err == nil) != want {
			p.fail("%s: error %v, expected success: %v", what, err, want)
		}
	}
	switch op {
	case 0, 1, 2:
		doc, want := p.doc()
		what := fmt.Sprintf("InsertOne(%s)", p09show(doc))
		if !run(what, func() { err = c.c.InsertOne(ctx, doc) }) {
			return
		}
		expect(what, want != nil)
		if want != nil && !p.stop {
			c.model = append(c.model, want)
			p.adopt(c, len(model), what)
		}
		p09scribble(doc)
		p.check(c, what)
	case 3:
		var docs []any
		ok := true
		var wants []bson.D
		for i := p.r.Intn(4); i > 0; i-- {
			doc, want := p.doc()
			docs = append(docs, doc)
			if want == nil {
				ok = false
			}
			wants = append(wants, want)
		}
		what := fmt.Sprintf("InsertMany(%s)", p09show(docs))
		if !run(what, func() { err = c.c.InsertMany(ctx, docs) }) {
			return
		}
		expect(what, ok)
		if ok && !p.stop {
			c.model = append(c.model, wants...)
			p.adopt(c, len(model), what)
		}
		for _, d := range docs {
			p09scribble(d)
		}
		p.check(c, what)
	case 4, 5, 6:
		f := p.filter(c)
		one := op == 4
		var cur backend.NoSQLCursor
		what := fmt.Sprintf("FindMany(%v)", f.d)
		if one {
			what = fmt.Sprintf("FindOne(%v)", f.d)
		}
		if !run(what, func() {
			if one {
				cur, err = c.c.FindOne(ctx, f.d)
			} else {
				cur, err = c.c.FindMany(ctx, f.d)
			}
		}) {
			return
		}
		expect(what, f.match != nil)
		if f.match == nil || p.stop {
			return
		}
		var want []bson.D
		for _, d := range c.model {
			if f.match(d) {
				want = append(want, d)
				if one {
					break
				}
			}
		}
		p.all(cur, want, what)
		if len(want) == 0 {
			p.empty++
		}
		if p.r.Intn(2) == 0 && len(p.curs) < 6 {
			p.curs = append(p.curs, p09cursor{cur, want, what})
		}
	case 7, 8:
		f := p.filter(c)
		one := p.r.Intn(3) > 0
		what := fmt.Sprintf("DeleteMany(%v)", f.d)
		if one {
			what = fmt.Sprintf("DeleteOne(%v)", f.d)
		}
		if !run(what, func() {
			if one {
				err = c.c.DeleteOne(ctx, f.d)
			} else {
				err = c.c.DeleteMany(ctx, f.d)
			}
		}) {
			return
		}
		expect(what, f.match != nil)
		if f.match != nil {
			var left []bson.D
			n := 0
			for _, d := range c.model {
				if f.match(d) && (n == 0 || !one) {
					n++
				} else {
					left = append(left, d)
				}
			}
			c.model = left
		}
		p.check(c, what)
	case 9, 10, 11:
		f, u := p.filter(c), p.update()
		one := op == 9
		n := 0
		what := fmt.Sprintf("UpdateMany(%v, %v)", f.d, u.d)
		if one {
			what = fmt.Sprintf("UpdateOne(%v, %v)", f.d, u.d)
		}
		if !run(what, func() {
			if one {
				n, err = c.c.UpdateOne(ctx, f.d, u.d)
			} else {
				n, err = c.c.UpdateMany(ctx, f.d, u.d)
			}
		}) {
			return
		}
		ok := f.match != nil && u.apply != nil
		want := 0
		if ok {
			for i, d := range model {
				if f.match(d) {
					nd, can := u.apply(d)
					if !can {
						ok = false
						break
					}
					model[i] = nd
					want++
					if one {
						break
					}
				}
			}
		}
		expect(what, ok)
		if !ok {
			want = 0
		} else {
			c.model = model
		}
		if n != want && !p.stop {
			p.fail("%s reports %d updated, expected %d", what, n, want)
		}
		p.check(c, what)
	case 12:
		f := p.filter(c)
		doc, want := p.doc()
		n := 0
		what := fmt.Sprintf("ReplaceOne(%v, %s)", f.d, p09show(doc))
		if !run(what, func() { n, err = c.c.ReplaceOne(ctx, f.d, doc) }) {
			return
		}
		ok := f.match != nil
		k := 0
		if ok {
			if i := c.first(f); i >= 0 {
				if want == nil {
					ok = false
				} else {
					c.model = model
					c.model[i] = p09replace(model[i], want)
					k = 1
				}
			}
		}
		expect(what, ok)
		if n != k && !p.stop {
			p.fail("%s reports %d replaced, expected %d", what, n, k)
		}
		p09scribble(doc)
		p.check(c, what)
	case 13:
		f := p.filter(c)
		var docs []any
		var wants []bson.D
		for i := p.r.Intn(4); i > 0; i-- {
			doc, want := p.doc()
			docs = append(docs, doc)
			wants = append(wants, want)
		}
		n := 0
		what := fmt.Sprintf("ReplaceMany(%v, %s)", f.d, p09show(docs))
		if !run(what, func() { n, err = c.c.ReplaceMany(ctx, f.d, docs...) }) {
			return
		}
		ok := f.match != nil
		k := 0
		if ok {
			for i, d := range model {
				if k < len(docs) && f.match(d) {
					if wants[k] == nil {
						ok = false
						break
					}
					model[i] = p09replace(d, wants[k])
					k++
				}
			}
		}
		if !ok {
			k = 0
		} else {
			c.model = model
		}
		expect(what, ok)
		if n != k && !p.stop {
			p.fail("%s reports %d replaced, expected %d", what, n, k)
		}
		for _, d := range docs {
			p09scribble(d)
		}
		p.check(c, what)
	case 14:
		f := p.filter(c)
		doc, want := p.doc()
		byId := p.r.Intn(3) == 0
		oid := primitive.NewObjectID()
		if byId {
			// the document needs an _id; the ID of the document that it replaces
			if want == nil {
				return
			}
			if len(model) > 0 && p.r.Intn(2) == 0 {
				if x, ok := p09get(model[p.r.Intn(len(model))], "_id"); ok {
					if y, is := x.(primitive.ObjectID); is {
						oid = y
					}
				}
			}
			rest := bson.D{}
			for _, e := range want {
				if e.Key != "_id" {
					rest = append(rest, e)
				}
			}
			d := append(bson.D{{"_id", oid}}, rest...)
			doc, want = d, p09norm(d)
			f = p09filter{bson.D{{"_id", oid}}, func(d bson.D) bool { x, _ := p09get(d, "_id"); return x == any(oid) }}
		}
		upd := false
		what := fmt.Sprintf("Upsert(%v, %s)", f.d, p09show(doc))
		if byId {
			what = fmt.Sprintf("UpsertID(%v, %s)", oid, p09show(doc))
		}
		if !run(what, func() {
			if byId {
				upd, err = c.c.UpsertID(ctx, oid, doc)
			} else {
				upd, err = c.c.Upsert(ctx, f.d, doc)
			}
		}) {
			return
		}
		ok := f.match != nil && want != nil
		expect(what, ok)
		wasThere := false
		if ok && !p.stop {
			if i := c.first(f); i >= 0 {
				wasThere = true
				c.model = model
				c.model[i] = p09replace(model[i], want)
			} else {
				c.model = append(model, want)
				p.adopt(c, len(model), what)
			}
		}
		if upd != wasThere && !p.stop {
			p.fail("%s reports updated %v, expected %v", what, upd, wasThere)
		}
		p09scribble(doc)
		p.check(c, what)
	}
}

func TestVerifP09Collections(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	p := &p09{t: t, r: rand.New(rand.NewSource(seed*77 + 9)), ops: map[string]int{}}
	limit := 7 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 75 * time.Second
	}
	start := time.Now()
	runs, steps, cursors := 0, 0, 0
	ctx := context.Background()
	for time.Since(start) < limit && p.bad < 6 {
		runs++
		p.hist, p.curs, p.stop = nil, nil, false
		db, err := simplenosqldb.NewSimpleNoSQLDB(ctx)
		if err != nil {
			p.fail("NewSimpleNoSQLDB: %v", err)
			break
		}
		names := [][2]string{{"db", "x"}, {"db", "y"}, {"x", "db"}}
		colls := map[[2]string]*p09coll{}
		for i := 0; i < 40 && !p.stop; i++ {
			nm := names[p.r.Intn(len(names))]
			h, err := db.GetCollection(ctx, nm[0], nm[1])
			if err != nil {
				p.fail("GetCollection: %v", err)
				break
			}
			c := colls[nm]
			if c == nil {
				c = &p09coll{}
				colls[nm] = c
			}
			if c.c == nil || p.r.Intn(4) > 0 { // the handle of an earlier call refers to the same collection
				c.c = h
			}
			p.step(c, nm[0]+"/"+nm[1])
			steps++
			if !p.stop && p.r.Intn(8) == 0 {
				for n, o := range colls {
					if o != c {
						p.check(o, "an operation on another collection than "+n[0]+"/"+n[1])
					}
				}
			}
			// results found earlier stay as they were found
			if !p.stop && len(p.curs) > 0 && p.r.Intn(3) == 0 {
				k := p.r.Intn(len(p.curs))
				q := p.curs[k]
				p.all(q.cur, q.want, "results of the earlier "+q.what)
				p.curs = append(p.curs[:k], p.curs[k+1:]...)
				cursors++
			}
		}
	}
	fmt.Printf("COVERED: %d histories of up to 40 operations on 3 collections (%d operations: %v), %d earlier results read again, %d searches without a match\n", runs, steps, p.ops, cursors, p.empty)
}
