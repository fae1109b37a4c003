property P02
include std.inc
include copyresult.inc
package simplequeue = "github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
load context = "context"

func NewSimpleQueue(ctx) (q, err)
  ensures ok: err == nil && q != nil && fresh(q) && fresh(q.q)
  ensures empty: chan_len(q.q) == 0 && chan_sends(q.q) == 0 && chan_recvs(q.q) == 0 && chan_closed(q.q) == 0
  ensures bounded: chan_cap(q.q) == 10

func newSimpleQueueWithCapacity(capacity) (q)
  requires 0 <= capacity
  ensures ok: q != nil && fresh(q) && fresh(q.q)
  ensures empty: chan_len(q.q) == 0 && chan_sends(q.q) == 0 && chan_recvs(q.q) == 0 && chan_closed(q.q) == 0
  ensures bounded: chan_cap(q.q) == capacity

func (*SimpleQueue).Push(q, ctx, item) (ok, err)
  requires q != nil && q.q != nil && chan_closed(q.q) == 0 && ctx != nil
  modifies chan(q.q)
  ensures noError: err == nil
  ensures accepted: ok ==> chan_sends(q.q) == old(chan_sends(q.q)) + 1 && chan_sent(q.q, old(chan_sends(q.q))) == item
  ensures rejected: !ok ==> chan_sends(q.q) == old(chan_sends(q.q)) && ctxDone(ctx) == old(ctxDone(ctx)) + 1
  ensures takesNothing: chan_recvs(q.q) == old(chan_recvs(q.q)) && chan_closed(q.q) == 0
  ensures earlier: forall i int :: {chan_sent(q.q, i)} 0 <= i < old(chan_sends(q.q)) ==> chan_sent(q.q, i) == old(chan_sent(q.q, i))

func (*SimpleQueue).Pop(q, ctx, dst) (ok, err)
  requires q != nil && q.q != nil && chan_closed(q.q) == 0 && ctx != nil
  modifies chan(q.q), delivered
  ensures popped: ok ==> chan_recvs(q.q) == old(chan_recvs(q.q)) + 1 && delivered == old(delivered)[dst := chan_recvd(q.q, old(chan_recvs(q.q)))] && err == copyErr(chan_recvd(q.q, old(chan_recvs(q.q))), dst)
  ensures nothing: !ok ==> chan_recvs(q.q) == old(chan_recvs(q.q)) && delivered == old(delivered) && err == nil && ctxDone(ctx) == old(ctxDone(ctx)) + 1
  ensures addsNothing: chan_sends(q.q) == old(chan_sends(q.q)) && chan_closed(q.q) == 0

replay dir=runtime/plugins/simplequeue file=P02_queue_test.go run=TestGovcP02 race=1
