package simplequeue_test

// Replay harness for property P02: drives the real queue sequentially and under concurrent producers, consumers and cancellations.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
)

var p02n int

func p02fail(t *testing.T, f string, a ...any) {
	t.Errorf("FAILING-INPUT: "+f, a...)
	p02n++
	if p02n > 10 {
		t.FailNow()
	}
}

func p02call(t *testing.T, what string, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			p02fail(t, "%s panics: %v", what, r)
			return false
		}
		return true
	case <-time.After(15 * time.Second):
		p02fail(t, "%s does not return", what)
		t.FailNow()
		return false
	}
}

type p02item struct{ P, N int }

func TestGovcP02Sequential(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	ops := 0
	for r := 0; r < 300; r++ {
		q, err := simplequeue.NewSimpleQueue(context.Background())
		if err != nil {
			p02fail(t, "NewSimpleQueue: %v", err)
			return
		}
		var model []any
		var log []string
		for i := 0; i < 40; i++ {
			ops++
			ctx, ctxn := context.Background(), "background"
			kind := rnd.Intn(3)
			var stop context.CancelFunc = func() {}
			switch kind {
			case 1:
				ctx, ctxn = cancelled, "cancelled"
			case 2:
				ctx, stop = context.WithTimeout(context.Background(), 2*time.Millisecond)
				ctxn = "2ms timeout"
			}
			if rnd.Intn(100) < 50 {
				if kind == 0 && len(model) == 10 {
					stop()
					continue
				}
				var item any = p02item{r, i}
				switch rnd.Intn(4) {
				case 0:
					item = nil
				case 1:
					item = "s" + strconv.Itoa(i)
				}
				log = append(log, fmt.Sprintf("Push(%s,%#v) with %d queued", ctxn, item, len(model)))
				var ok bool
				var err error
				p02call(t, fmt.Sprint(log), func() { ok, err = q.Push(ctx, item) })
				if err != nil {
					p02fail(t, "%v: error %v", log, err)
				}
				if ok {
					if len(model) == 10 {
						p02fail(t, "%v: accepted although ten items are queued", log)
					}
					model = append(model, item)
				} else if kind == 0 {
					p02fail(t, "%v: not done without cancellation", log)
				}
			} else {
				if kind == 0 && len(model) == 0 {
					stop()
					continue
				}
				log = append(log, fmt.Sprintf("Pop(%s) with %d queued", ctxn, len(model)))
				var dst any = "untouched"
				var ok bool
				var err error
				p02call(t, fmt.Sprint(log), func() { ok, err = q.Pop(ctx, &dst) })
				if err != nil {
					p02fail(t, "%v: error %v", log, err)
				}
				if ok {
					if len(model) == 0 {
						p02fail(t, "%v: delivered %#v from an empty queue", log, dst)
					} else {
						if !reflect.DeepEqual(dst, model[0]) {
							p02fail(t, "%v: delivered %#v, the oldest item is %#v", log, dst, model[0])
						}
						model = model[1:]
					}
				} else {
					if kind == 0 {
						p02fail(t, "%v: not done without cancellation", log)
					}
					if dst != any("untouched") {
						p02fail(t, "%v: not done but wrote %#v", log, dst)
					}
				}
			}
			stop()
		}
		for len(model) > 0 {
			var dst any
			var ok bool
			var err error
			ctx, stop := context.WithTimeout(context.Background(), 2*time.Second)
			p02call(t, fmt.Sprintf("drain after %v", log), func() { ok, err = q.Pop(ctx, &dst) })
			stop()
			if !ok || err != nil || !reflect.DeepEqual(dst, model[0]) {
				p02fail(t, "after %v: draining gives (%v,%v) %#v, want %#v", log, ok, err, dst, model[0])
				break
			}
			model = model[1:]
		}
		var dst any
		if ok, err := q.Pop(cancelled, &dst); ok || err != nil {
			p02fail(t, "after %v and draining: Pop(cancelled) = (%v,%v) %#v", log, ok, err, dst)
		}
	}
	// an undeliverable item is reported
	q, _ := simplequeue.NewSimpleQueue(context.Background())
	q.Push(context.Background(), "text")
	var n int
	var ok bool
	var err error
	p02call(t, "Pop of a string into *int", func() { ok, err = q.Pop(context.Background(), &n) })
	if !ok || err == nil {
		p02fail(t, "Pop of a string into *int = (%v, %v)", ok, err)
	}
	// a blocked caller is released by the other side, and by cancellation
	for _, late := range []bool{true, false} {
		q, _ := simplequeue.NewSimpleQueue(context.Background())
		ctx, stop := context.WithCancel(context.Background())
		p02call(t, fmt.Sprintf("Pop blocked on an empty queue, item arrives: %v, otherwise cancelled", late), func() {
			go func() {
				time.Sleep(3 * time.Millisecond)
				if late {
					q.Push(context.Background(), 7)
				} else {
					stop()
				}
			}()
			var n int
			ok, err := q.Pop(ctx, &n)
			if err != nil || ok != late || (late && n != 7) {
				p02fail(t, "blocked Pop = (%v,%v) %d, item arrives: %v", ok, err, n, late)
			}
		})
		for i := 0; i < 10; i++ {
			q.Push(context.Background(), i)
		}
		ctx2, stop2 := context.WithCancel(context.Background())
		p02call(t, fmt.Sprintf("Push blocked on a full queue, room appears: %v, otherwise cancelled", late), func() {
			go func() {
				time.Sleep(3 * time.Millisecond)
				if late {
					var n int
					q.Pop(context.Background(), &n)
				} else {
					stop2()
				}
			}()
			ok, err := q.Push(ctx2, 99)
			if err != nil || ok != late {
				p02fail(t, "blocked Push = (%v,%v), room appears: %v", ok, err, late)
			}
		})
		stop()
		stop2()
	}
	t.Logf("COVERED: 300 random histories, %d operations against a reference queue", ops)
}

func TestGovcP02Concurrent(t *testing.T) {
	for r := 0; r < 20; r++ {
		q, _ := simplequeue.NewSimpleQueue(context.Background())
		const P, C, N = 4, 4, 300
		var mu sync.Mutex
		accepted := map[p02item]int{}
		delivered := map[p02item]int{}
		consumers := C
		if r%3 == 0 {
			consumers = 1
		}
		var pw, cw sync.WaitGroup
		stopAll := make(chan bool)
		for p := 0; p < P; p++ {
			pw.Add(1)
			go func(p int) {
				defer pw.Done()
				rnd := rand.New(rand.NewSource(int64(r*100 + p)))
				for i := 0; i < N; i++ {
					ctx, stop := context.WithTimeout(context.Background(), time.Duration(rnd.Intn(200))*time.Microsecond)
					ok, err := q.Push(ctx, p02item{p, i})
					stop()
					if err != nil {
						p02fail(t, "concurrent Push: error %v", err)
						return
					}
					if ok {
						mu.Lock()
						accepted[p02item{p, i}]++
						mu.Unlock()
					}
				}
			}(p)
		}
		take := func(rnd *rand.Rand, last map[int]int) (bool, bool) {
			ctx, stop := context.WithTimeout(context.Background(), time.Duration(rnd.Intn(200))*time.Microsecond)
			var it p02item
			ok, err := q.Pop(ctx, &it)
			stop()
			if err != nil {
				p02fail(t, "concurrent Pop: error %v", err)
				return false, false
			}
			if ok {
				mu.Lock()
				delivered[it]++
				mu.Unlock()
				if l, in := last[it.P]; in && l >= it.N {
					p02fail(t, "one consumer received item %d of producer %d after item %d", it.N, it.P, l)
				}
				last[it.P] = it.N
			}
			return ok, true
		}
		for c := 0; c < consumers; c++ {
			cw.Add(1)
			go func(c int) {
				defer cw.Done()
				rnd := rand.New(rand.NewSource(int64(r*100 + 50 + c)))
				last := map[int]int{}
				for {
					if _, good := take(rnd, last); !good {
						return
					}
					select {
					case <-stopAll:
						return
					default:
					}
				}
			}(c)
		}
		fin := make(chan bool)
		go func() { pw.Wait(); close(stopAll); cw.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(40 * time.Second):
			p02fail(t, "producers and consumers with timeouts do not finish")
			t.FailNow()
		}
		for {
			ctx, stop := context.WithTimeout(context.Background(), 20*time.Millisecond)
			var it p02item
			ok, _ := q.Pop(ctx, &it)
			stop()
			if !ok {
				break
			}
			delivered[it]++
		}
		for it := range accepted {
			if delivered[it] != 1 {
				p02fail(t, "round %d: accepted item %v was delivered %d times", r, it, delivered[it])
			}
		}
		for it := range delivered {
			if accepted[it] != 1 {
				p02fail(t, "round %d: delivered item %v was accepted %d times", r, it, accepted[it])
			}
		}
	}
	t.Logf("COVERED: 20 rounds of 4 producers and up to 4 consumers with random cancellation")
}
