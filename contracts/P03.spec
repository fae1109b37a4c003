property P03
include std.inc
package clientpool = "github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
load context = "context"
load stderrors = "errors"

extern stderrors.New(s) (err)
  pure
  ensures err != nil

// size counts the clients that exist or are being created; every caller's own contribution to it is tracked in slots
ghost slots int
ghost freed int
ghost waits int
ghost builds int
ghost lastErr any
ghost lastBuilt any
atomicfield (p *ClientPool).size tokens=slots floor=1
  lockinv capacity: 0 <= p.size && p.size <= p.capacity
atomicfield (p *ClientPool).available tokens=freed
atomicfield (p *ClientPool).waiting tokens=waits

// a client may only be created by a caller that has reserved a slot for it
functype any(f) (client, err)
  requires reserved: slots == 1
  modifies builds, lastErr, lastBuilt
  ensures builds == old(builds) + 1
  ensures lastErr == err && lastBuilt == any(client)
  why the pool's creation function: any result, but it does not touch the pool

func NewClientPool(capacity, build) (pool)
  requires 0 <= capacity
  ensures ok: pool != nil && fresh(pool) && fresh(pool.clients)
  ensures settings: pool.capacity == capacity && pool.build == build && chan_cap(pool.clients) == capacity
  ensures empty: pool.size == 0 && pool.available == 0 && pool.waiting == 0 && chan_len(pool.clients) == 0

func (*ClientPool).Pop(pool, ctx) (client, err)
  requires pool != nil && pool.clients != nil && pool.build != nil && ctx != nil && chan_closed(pool.clients) == 0
  requires slots == 0 && freed == 0 && waits == 0
  modifies calls(pool.build), chan(pool.clients), pool.size, pool.available, pool.waiting, slots, freed, waits, builds, lastErr, lastBuilt
  ensures source: err == nil ==> (chan_recvs(pool.clients) == old(chan_recvs(pool.clients)) + 1 && builds == old(builds) && client == chan_recvd(pool.clients, old(chan_recvs(pool.clients)))) || (chan_recvs(pool.clients) == old(chan_recvs(pool.clients)) && builds == old(builds) + 1 && any(client) == lastBuilt && lastErr == nil)
  ensures slot: slots == ite(err == nil && builds > old(builds), 1, 0)
  ensures failure: err != nil ==> chan_recvs(pool.clients) == old(chan_recvs(pool.clients)) && slots == 0
  ensures buildFailure: builds > old(builds) ==> err == lastErr
  ensures cancelled: err != nil && builds == old(builds) ==> ctxDone(ctx) == old(ctxDone(ctx)) + 1
  ensures counted: freed == old(chan_recvs(pool.clients)) - chan_recvs(pool.clients) && waits == 0
  ensures keeps: chan_sends(pool.clients) == old(chan_sends(pool.clients)) && pool.capacity == old(pool.capacity)

func (*ClientPool).Push(pool, client)
  requires pool != nil && pool.clients != nil && chan_closed(pool.clients) == 0
  requires slots == 0 && freed == 0 && waits == 0
  modifies chan(pool.clients), pool.available, freed
  ensures returned: chan_sends(pool.clients) == old(chan_sends(pool.clients)) + 1 && chan_sent(pool.clients, old(chan_sends(pool.clients))) == client
  ensures takesNothing: chan_recvs(pool.clients) == old(chan_recvs(pool.clients))
  ensures counted: freed == 1

func (*ClientPool).Capacity(pool) (n)
  requires pool != nil
  ensures value: n == pool.capacity

func (*ClientPool).Size(pool) (n)
  requires pool != nil
  requires slots == 0
  modifies pool.size
  ensures bounded: 0 <= n && n <= pool.capacity
  ensures unchanged: slots == 0

func (*ClientPool).Available(pool) (n)
  requires pool != nil
  requires freed == 0
  modifies pool.available
  ensures value: n == pool.available && freed == 0

replay dir=runtime/plugins/clientpool file=P03_pool_test.go run=TestGovcP03 race=1
