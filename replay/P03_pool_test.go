package clientpool_test

// Replay harness for property P03: drives the real pool with concurrent callers, cancellations and injected creation failures.

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
)

var p03n int32

func p03fail(t *testing.T, f string, a ...any) {
	if atomic.AddInt32(&p03n, 1) < 12 {
		t.Errorf("FAILING-INPUT: "+f, a...)
	}
}

type p03client struct {
	id   int
	held int32
}

func p03within(t *testing.T, what string, d time.Duration, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			p03fail(t, "%s: panic %v", what, r)
		}
	case <-time.After(d):
		p03fail(t, "%s: does not finish", what)
		t.FailNow()
	}
}

func TestGovcP03Sequential(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	boom := errors.New("boom")
	runs := 0
	for r := 0; r < 400; r++ {
		capacity := rnd.Intn(4)
		runs++
		built, failNext := 0, false
		var onBuild func()
		pool := clientpool.NewClientPool(capacity, func() (*p03client, error) {
			if onBuild != nil {
				onBuild()
			}
			if failNext {
				return nil, boom
			}
			built++
			return &p03client{id: built}, nil
		})
		var free, held []*p03client
		log := fmt.Sprintf("capacity %d:", capacity)
		p03within(t, log, 20*time.Second, func() {
			for i := 0; i < 20; i++ {
				if pool.Size() != len(free)+len(held) || pool.Available() != len(free) || pool.Capacity() != capacity {
					p03fail(t, "%s size %d available %d capacity %d, want %d %d %d", log, pool.Size(), pool.Available(), pool.Capacity(), len(free)+len(held), len(free), capacity)
					return
				}
				if rnd.Intn(5) < 2 && len(held) > 0 {
					j := rnd.Intn(len(held))
					log += fmt.Sprintf(" push(%d)", held[j].id)
					pool.Push(held[j])
					free = append(free, held[j])
					held = append(held[:j:j], held[j+1:]...)
					continue
				}
				failNext = rnd.Intn(3) == 0
				ctx, name := context.Background(), "pop"
				mustFail := false
				if len(free) == 0 && len(free)+len(held) >= capacity {
					c, stop := context.WithTimeout(context.Background(), time.Millisecond)
					defer stop()
					ctx, name, mustFail = c, "pop-with-1ms-timeout", true
				} else if rnd.Intn(6) == 0 {
					ctx, name = cancelled, "pop-cancelled"
				} else if rnd.Intn(5) == 0 {
					c, stop := context.WithCancel(context.Background())
					defer stop()
					onBuild = stop
					ctx, name = c, "pop-cancelled-during-creation"
				}
				before := built
				c, err := pool.Pop(ctx)
				onBuild = nil
				log += fmt.Sprintf(" %s[creation fails: %v]", name, failNext)
				switch {
				case err != nil:
					if ctx == context.Background() && !(failNext && len(free) == 0) {
						p03fail(t, "%s: error %v", log, err)
						return
					}
					if ctx == context.Background() && !errors.Is(err, boom) {
						p03fail(t, "%s: error %v instead of the creation error", log, err)
					}
					if built != before {
						p03fail(t, "%s: error although a client was created", log)
					}
				case mustFail:
					p03fail(t, "%s: got client %v from an exhausted pool", log, c)
					return
				case c == nil:
					p03fail(t, "%s: success without a client", log)
					return
				default:
					k := -1
					for j := range free {
						if free[j] == c {
							k = j
						}
					}
					if k >= 0 {
						free = append(free[:k:k], free[k+1:]...)
						if built != before {
							p03fail(t, "%s: a client was created and dropped", log)
						}
					} else if built != before+1 || c.id != built {
						p03fail(t, "%s: client %d is neither new nor returned (held %d, free %d)", log, c.id, len(held), len(free))
						return
					}
					held = append(held, c)
				}
			}
		})
	}
	t.Logf("COVERED: %d random sequential histories with creation failures", runs)
}

func TestGovcP03Concurrent(t *testing.T) {
	boom := errors.New("boom")
	for r := 0; r < 60; r++ {
		capacity := 1 + r%4
		var existing, maxSeen, nbuild int64
		fail := r%2 == 1
		pool := clientpool.NewClientPool(capacity, func() (*p03client, error) {
			n := atomic.AddInt64(&existing, 1)
			for {
				m := atomic.LoadInt64(&maxSeen)
				if n <= m || atomic.CompareAndSwapInt64(&maxSeen, m, n) {
					break
				}
			}
			k := atomic.AddInt64(&nbuild, 1)
			if k%2 == 0 {
				time.Sleep(20 * time.Microsecond)
			}
			if fail && k%3 == 0 {
				atomic.AddInt64(&existing, -1)
				return nil, boom
			}
			return &p03client{id: int(k)}, nil
		})
		p03within(t, fmt.Sprintf("capacity %d, 8 callers, creation failures %v", capacity, fail), 40*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					rnd := rand.New(rand.NewSource(int64(r*10 + g)))
					for i := 0; i < 150; i++ {
						ctx, stop := context.WithTimeout(context.Background(), time.Duration(50+rnd.Intn(500))*time.Microsecond)
						c, err := pool.Pop(ctx)
						stop()
						if err != nil {
							continue
						}
						if c == nil {
							p03fail(t, "capacity %d: success without a client", capacity)
							return
						}
						if !atomic.CompareAndSwapInt32(&c.held, 0, 1) {
							p03fail(t, "capacity %d: client %d handed to two callers", capacity, c.id)
							return
						}
						if s := pool.Size(); s > capacity || s < 1 {
							p03fail(t, "capacity %d: size %d", capacity, s)
						}
						if rnd.Intn(3) == 0 {
							time.Sleep(time.Duration(rnd.Intn(50)) * time.Microsecond)
						}
						atomic.StoreInt32(&c.held, 0)
						pool.Push(c)
					}
				}(g)
			}
			wg.Wait()
			if m := atomic.LoadInt64(&maxSeen); m > int64(capacity) {
				p03fail(t, "capacity %d: %d clients existed or were being created at once", capacity, m)
			}
			if pool.Size() != int(atomic.LoadInt64(&existing)) || pool.Available() != pool.Size() {
				p03fail(t, "capacity %d at rest: size %d, available %d, existing clients %d", capacity, pool.Size(), pool.Available(), existing)
			}
			// at rest, the pool still serves its full capacity
			fail = false
			for i := 0; i < capacity; i++ {
				ctx, stop := context.WithTimeout(context.Background(), 5*time.Second)
				c, err := pool.Pop(ctx)
				stop()
				if err != nil || c == nil {
					p03fail(t, "capacity %d at rest: only %d clients can be acquired (%v)", capacity, i, err)
					return
				}
			}
			ctx, stop := context.WithTimeout(context.Background(), time.Millisecond)
			if c, err := pool.Pop(ctx); err == nil {
				p03fail(t, "capacity %d: client %v beyond the capacity", capacity, c)
			}
			stop()
		})
	}
	t.Logf("COVERED: 60 rounds of 8 concurrent callers with creation failures and timeouts")
}
