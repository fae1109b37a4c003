package simplecache_test

// Replay harness for property P01: drives the real cache against a reference map, alone and under concurrent callers.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
)

var p01n int

func p01fail(t *testing.T, f string, a ...any) {
	t.Errorf("FAILING-INPUT: "+f, a...)
	p01n++
	if p01n > 10 {
		t.FailNow()
	}
}

func p01seed() int64 { n, _ := strconv.Atoi(os.Getenv("VERIF_SEED")); return int64(n) }

func p01try(t *testing.T, what string, f func()) (ok bool) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			p01fail(t, "%s panics: %v", what, r)
			return false
		}
		return true
	case <-time.After(20 * time.Second):
		p01fail(t, "%s does not return", what)
		t.FailNow()
		return false
	}
}

type p01s struct{ A, B int }

func TestGovcP01Sequential(t *testing.T) {
	ctx := context.Background()
	rnd := rand.New(rand.NewSource(p01seed()))
	keys := []string{"", "a", "b", "c", "A", "a ", "key-3", "k.4", "日本", "x", "y", "z", "aa"}
	mk := func() any {
		switch rnd.Intn(9) {
		case 0:
			return nil
		case 1:
			return rnd.Intn(5) - 2
		case 2:
			return int64(rnd.Intn(7) - 3)
		case 3:
			return "s" + strconv.Itoa(rnd.Intn(4))
		case 4:
			return []string{"p", "q"}[:rnd.Intn(3)]
		case 5:
			return p01s{rnd.Intn(3), 2}
		case 6:
			return map[string]int{"m": rnd.Intn(3)}
		case 7:
			return rnd.Intn(2) == 0
		}
		return int64(1)<<40 + int64(rnd.Intn(3))
	}
	runs, ops := 0, 0
	for r := 0; r < 400; r++ {
		runs++
		c, err := simplecache.NewSimpleCache(ctx)
		if err != nil || c == nil {
			p01fail(t, "NewSimpleCache: %v %v", c, err)
			return
		}
		model := map[string]any{}
		var log []string
		check := func() {
			for _, k := range keys {
				var got any = "untouched"
				var ok bool
				var err error
				if !p01try(t, fmt.Sprintf("Get(%q) after %v", k, log), func() { ok, err = c.Get(ctx, k, &got) }) {
					return
				}
				want, in := model[k]
				if ok != in || err != nil {
					p01fail(t, "after %v: Get(%q) = (%v, %v), the key is present: %v", log, k, ok, err, in)
				} else if in && !reflect.DeepEqual(got, want) {
					p01fail(t, "after %v: Get(%q) delivers %#v, stored %#v", log, k, got, want)
				} else if !in && got != any("untouched") {
					p01fail(t, "after %v: Get(%q) of an absent key wrote %#v", log, k, got)
				}
			}
		}
		for i := 0; i < 12; i++ {
			ops++
			k := keys[rnd.Intn(len(keys))]
			switch rnd.Intn(7) {
			case 0, 1:
				v := mk()
				log = append(log, fmt.Sprintf("Put(%q,%#v)", k, v))
				var err error
				p01try(t, fmt.Sprint(log), func() { err = c.Put(ctx, k, v) })
				if err != nil {
					p01fail(t, "%v: error %v", log, err)
				}
				model[k] = v
			case 2:
				log = append(log, fmt.Sprintf("Delete(%q)", k))
				var err error
				p01try(t, fmt.Sprint(log), func() { err = c.Delete(ctx, k) })
				if err != nil {
					p01fail(t, "%v: error %v", log, err)
				}
				delete(model, k)
			case 3, 4:
				log = append(log, fmt.Sprintf("Incr(%q)", k))
				var n int64
				var err error
				p01try(t, fmt.Sprint(log), func() { n, err = c.Incr(ctx, k) })
				cur, in := model[k]
				iv, isInt := cur.(int64)
				if !in || isInt {
					if err != nil || n != iv+1 {
						p01fail(t, "%v: returned (%v, %v), want %d", log, n, err, iv+1)
					}
					model[k] = iv + 1
				} else if err == nil {
					// any numeric interpretation must be previous value plus one
					if p, ok := cur.(int); !ok || n != int64(p)+1 {
						p01fail(t, "%v: returned (%v, nil) for stored %#v", log, n, cur)
					}
					model[k] = n
				}
			case 5:
				n := rnd.Intn(4)
				var ks []string
				var vs []any
				for j := 0; j < n; j++ {
					ks = append(ks, keys[rnd.Intn(len(keys))])
					vs = append(vs, mk())
				}
				bad := rnd.Intn(4) == 0
				if bad {
					if rnd.Intn(2) == 0 {
						ks = append(ks, "a")
					} else {
						vs = append(vs, 1)
					}
				}
				log = append(log, fmt.Sprintf("Mset(%q,%#v)", ks, vs))
				var err error
				p01try(t, fmt.Sprint(log), func() { err = c.Mset(ctx, ks, vs) })
				if (err != nil) != bad {
					p01fail(t, "%v: error %v", log, err)
				}
				if !bad {
					for j := range ks {
						model[ks[j]] = vs[j]
					}
				}
			case 6:
				n := rnd.Intn(4)
				var ks []string
				out := make([]any, n+1)
				var dst []any
				for j := 0; j < n; j++ {
					ks = append(ks, keys[rnd.Intn(len(keys))])
					out[j] = "untouched"
					dst = append(dst, &out[j])
				}
				bad := rnd.Intn(4) == 0
				if bad {
					if rnd.Intn(2) == 0 {
						ks = append(ks, "a")
					} else {
						dst = append(dst, &out[n])
					}
				}
				log = append(log, fmt.Sprintf("Mget(%q, %d destinations)", ks, len(dst)))
				var err error
				p01try(t, fmt.Sprint(log), func() { err = c.Mget(ctx, ks, dst) })
				if (err != nil) != bad {
					p01fail(t, "%v: error %v", log, err)
				}
				for j := 0; j < n; j++ {
					want, in := model[ks[j]]
					if bad || !in {
						want = any("untouched")
					}
					if !reflect.DeepEqual(out[j], want) {
						p01fail(t, "%v: destination %d holds %#v, want %#v", log, j, out[j], want)
					}
				}
			}
		}
		check()
		// a destination of the wrong type is an error, not a panic
		for _, k := range keys {
			if v, in := model[k]; in {
				var f float32
				var err error
				var ok bool
				p01try(t, fmt.Sprintf("Get(%q,*float32) of %#v", k, v), func() { ok, err = c.Get(ctx, k, &f) })
				if !ok || err == nil {
					p01fail(t, "Get(%q) of stored %#v into *float32 = (%v, %v)", k, v, ok, err)
				}
			}
		}
	}
	t.Logf("COVERED: %d random histories, %d operations against a reference map", runs, ops)
}

func TestGovcP01Concurrent(t *testing.T) {
	ctx := context.Background()
	for r := 0; r < 30; r++ {
		c, _ := simplecache.NewSimpleCache(ctx)
		const G, N = 8, 400
		var wg sync.WaitGroup
		got := make([][]int64, G)
		var bad atomic.Value
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad.Store(fmt.Sprint("panic: ", p))
					}
				}()
				mine := "own" + strconv.Itoa(g)
				for i := 0; i < N; i++ {
					n, err := c.Incr(ctx, "n")
					if err != nil {
						bad.Store("Incr: " + err.Error())
					}
					got[g] = append(got[g], n)
					c.Put(ctx, mine, i)
					c.Put(ctx, "shared", [2]int{g, g})
					var v int
					if ok, err := c.Get(ctx, mine, &v); !ok || err != nil || v != i {
						bad.Store(fmt.Sprintf("Get of own key %s after Put(%d): (%v,%v) %d", mine, i, ok, err, v))
					}
					var s [2]int
					if ok, err := c.Get(ctx, "shared", &s); !ok || err != nil || s[0] != s[1] {
						bad.Store(fmt.Sprintf("Get of shared key: (%v,%v) %v", ok, err, s))
					}
					if i%5 == 0 {
						c.Delete(ctx, mine)
						if ok, _ := c.Get(ctx, mine, &v); ok {
							bad.Store("own key present after Delete")
						}
					}
					c.Mset(ctx, []string{mine, "other"}, []any{i, g})
					var o int
					if err := c.Mget(ctx, []string{mine, "other"}, []any{&v, &o}); err != nil || v != i {
						bad.Store(fmt.Sprintf("Mget after Mset(%d): %v %d", i, err, v))
					}
				}
			}(g)
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			p01fail(t, "%d concurrent callers do not finish", G)
			t.FailNow()
		}
		if b := bad.Load(); b != nil {
			p01fail(t, "concurrent run %d: %v", r, b)
		}
		seen := map[int64]int{}
		for _, l := range got {
			for _, n := range l {
				seen[n]++
			}
		}
		for i := int64(1); i <= G*N; i++ {
			if seen[i] != 1 {
				p01fail(t, "%d concurrent increments of one key: the result %d was returned %d times", G*N, i, seen[i])
				break
			}
		}
	}
	t.Logf("COVERED: 30 rounds of 8 concurrent callers, 400 iterations each")
}
