// GENERATED by tools/mkp20.py. Contracts on the wrapper code that the plugins generate for a witness service.
property P20
option generate=gen/P20
load witness = "github.com/blueprint-uservices/blueprint/plugins/zzgen/witness"
load rand = "math/rand"
load math = "math"
load time = "time"

// what the caller of the wrapper passes
ufun wanted() any
ufun wantOne_a() string
ufun wantTwo_s() string
ufun wantTwo_n() int64
ufun wantTwo_i() int
ufun wantMix_xs() []string
ufun wantMix_m() map[string]int64
ufun wantMix_p() *witness.Item
// the context the caller passed (derived contexts keep it) and the attempt number that a context carries
ufun root(c any) any
ufun attempt(c any) int
ufun wantRoot() any
// the delay owed before the k-th repetition
ufun owed(k int) int
// d doubled k times
ufun grown(d int; k int) int
axiom forall d int; k int :: {grown(d, k)} k == 0 ==> grown(d, k) == d
axiom forall d int; j int; k int :: {grown(d, j), grown(d, k)} j >= 0 && k == j + 1 ==> grown(d, k) == 2*grown(d, j)

// the caller's operation: 0 Zero, 1 One, 2 Two, 3 Mix
ufun op() int
// calls made, whether one has succeeded, and the latest outcome
ghost calls int
ghost done bool
ghost slept int
ghost cancelled bool
ghost lastErr any
ghost last_One_r0 string
ghost last_Two_r0 string
ghost last_Two_r1 int64
ghost last_Mix_r0 *witness.Item
ghost last_Mix_r1 []string

iface witness.Service.Zero(self, ctx) (err)
  requires wrapped: any(self) == wanted()
  requires operation: op() == 0
  requires context: root(any(ctx)) == wantRoot()
  requires attempt: attempt(any(ctx)) == 0 || attempt(any(ctx)) == calls + 1 || cancelled && attempt(any(ctx)) > calls + 1
  requires notAfterSuccess: !done
  requires rested: calls == 0 || slept >= owed(calls)
  modifies calls, done, slept, lastErr
  ensures calls == old(calls) + 1 && slept == 0 && lastErr == err && (done <==> err == nil)
  why the wrapped service: any outcome
iface witness.Service.One(self, ctx, a) (r0, err)
  requires wrapped: any(self) == wanted()
  requires operation: op() == 1
  requires argument_a: a == wantOne_a()
  requires context: root(any(ctx)) == wantRoot()
  requires attempt: attempt(any(ctx)) == 0 || attempt(any(ctx)) == calls + 1 || cancelled && attempt(any(ctx)) > calls + 1
  requires notAfterSuccess: !done
  requires rested: calls == 0 || slept >= owed(calls)
  modifies calls, done, slept, lastErr, last_One_r0
  ensures calls == old(calls) + 1 && slept == 0 && lastErr == err && (done <==> err == nil)
  ensures last_One_r0 == r0
  why the wrapped service: any outcome
iface witness.Service.Two(self, ctx, s, n, i) (r0, r1, err)
  requires wrapped: any(self) == wanted()
  requires operation: op() == 2
  requires argument_s: s == wantTwo_s()
  requires argument_n: n == wantTwo_n()
  requires argument_i: i == wantTwo_i()
  requires context: root(any(ctx)) == wantRoot()
  requires attempt: attempt(any(ctx)) == 0 || attempt(any(ctx)) == calls + 1 || cancelled && attempt(any(ctx)) > calls + 1
  requires notAfterSuccess: !done
  requires rested: calls == 0 || slept >= owed(calls)
  modifies calls, done, slept, lastErr, last_Two_r0, last_Two_r1
  ensures calls == old(calls) + 1 && slept == 0 && lastErr == err && (done <==> err == nil)
  ensures last_Two_r0 == r0
  ensures last_Two_r1 == r1
  why the wrapped service: any outcome
iface witness.Service.Mix(self, ctx, xs, m, p) (r0, r1, err)
  requires wrapped: any(self) == wanted()
  requires operation: op() == 3
  requires argument_xs: xs == wantMix_xs()
  requires argument_m: m == wantMix_m()
  requires argument_p: p == wantMix_p()
  requires context: root(any(ctx)) == wantRoot()
  requires attempt: attempt(any(ctx)) == 0 || attempt(any(ctx)) == calls + 1 || cancelled && attempt(any(ctx)) > calls + 1
  requires notAfterSuccess: !done
  requires rested: calls == 0 || slept >= owed(calls)
  modifies calls, done, slept, lastErr, last_Mix_r0, last_Mix_r1
  ensures calls == old(calls) + 1 && slept == 0 && lastErr == err && (done <==> err == nil)
  ensures last_Mix_r0 == r0
  ensures last_Mix_r1 == r1
  why the wrapped service: any outcome

load context = "context"
load errors = "errors"
ufun ctxErr(c any) any
extern errors.New(s) (err)
  pure
  ensures err != nil
iface context.Context.Err(c) (err)
  modifies cancelled
  ensures cancelled && any(err) == ctxErr(root(any(c))) && any(err) != nil
  why asked after the context's Done channel has delivered
iface context.Context.Done(c) (ch)
  pure
  ensures ch != nil
extern context.WithValue(c, key, val) (r)
  pure
  ensures r != nil && root(any(r)) == root(any(c))
  ensures key == any("attempt_num") && is(val, int) ==> attempt(any(r)) == val.(int)
  ensures key != any("attempt_num") ==> attempt(any(r)) == attempt(any(c))
extern time.Sleep(d)
  modifies slept
  ensures slept == d
extern time.After(d) (ch)
  modifies slept
  ensures slept == d && ch != nil
  why the timer is taken as waited for; the select in the generated code waits for it or for the context
ufun parsed(s string) int
ufun parses(s string) bool
extern time.ParseDuration(s) (d, err)
  pure
  ensures err == nil <==> parses(s)
  ensures err == nil ==> d == parsed(s)
extern time.Now() (t)
  pure
extern time.(Time).Sub(t, u) (d)
  pure
extern time.(Duration).Seconds(d) (f)
  pure


package retries = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/retries/retries"
func retries.(*Service_RetrierClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
func retries.(*Service_RetrierClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures results: r0 == last_One_r0
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant <r string> kept_r0: calls > 0 ==> r == last_One_r0
func retries.(*Service_RetrierClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant <r string> kept_r0: calls > 0 ==> r == last_Two_r0
  invariant <r int64> kept_r1: calls > 0 ==> r == last_Two_r1
func retries.(*Service_RetrierClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant <r *witness.Item> kept_r0: calls > 0 ==> r == last_Mix_r0
  invariant <r []string> kept_r1: calls > 0 ==> r == last_Mix_r1

func retries.New_Service_RetrierClient(ctx, client) (h, err)
  modifies slept
  ensures configured: err == nil && h.MaxTries == 3
  ensures made: err == nil ==> h != nil && fresh(h) && h.Client == client

package fixed = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/fixeddelay/retries"
func fixed.(*Service_RetrierFixedDelayClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) == c.Delay
  modifies calls, done, slept, lastErr, cancelled
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant rest: calls == 0 || slept >= owed(calls)
func fixed.(*Service_RetrierFixedDelayClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) == c.Delay
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures results: r0 == last_One_r0
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant <r string> kept_r0: calls > 0 ==> r == last_One_r0
  invariant rest: calls == 0 || slept >= owed(calls)
func fixed.(*Service_RetrierFixedDelayClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) == c.Delay
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant <r string> kept_r0: calls > 0 ==> r == last_Two_r0
  invariant <r int64> kept_r1: calls > 0 ==> r == last_Two_r1
  invariant rest: calls == 0 || slept >= owed(calls)
func fixed.(*Service_RetrierFixedDelayClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) == c.Delay
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures exhausted: err != nil ==> calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> count: calls == i
  invariant <i int> number: i == calls + 1
  invariant below: calls <= c.MaxTries
  invariant <i int> last: i <= c.MaxTries + 1
  invariant <e error> latest: calls > 0 ==> e == lastErr
  invariant <r *witness.Item> kept_r0: calls > 0 ==> r == last_Mix_r0
  invariant <r []string> kept_r1: calls > 0 ==> r == last_Mix_r1
  invariant rest: calls == 0 || slept >= owed(calls)

func fixed.New_Service_RetrierFixedDelayClient(ctx, client) (h, err)
  modifies slept
  ensures configured: err == nil ==> h.MaxTries == 4 && h.Delay == parsed("1ms")
  ensures accepted: err == nil <==> parses("1ms")
  ensures made: err == nil ==> h != nil && fresh(h) && h.Client == client

package backoff = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/backoff/retries"
func backoff.(*Service_RetrierExpBackoffClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1)
  modifies calls, done, slept, lastErr, cancelled
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0
func backoff.(*Service_RetrierExpBackoffClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1)
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures results: r0 == last_One_r0
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0
func backoff.(*Service_RetrierExpBackoffClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1)
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0
func backoff.(*Service_RetrierExpBackoffClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1)
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0

func backoff.New_Service_RetrierExpBackoffClient(ctx, client) (h, err)
  modifies slept
  ensures configured: err == nil ==> h.Delay == parsed("1ms") && h.Limit == parsed("8ms")
  ensures accepted: err == nil <==> parses("1ms") && parses("8ms")
  ensures made: err == nil ==> h != nil && fresh(h) && h.Client == client

extern rand.Int63n(n) (r)
  requires positive: n > 0
  pure
  ensures 0 <= r && r < n
extern rand.Int31n(n) (r)
  requires positive: n > 0
  pure
  ensures 0 <= r && r < n
package jitter = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/jitter/retries"
func jitter.(*Service_RetrierExpBackoffClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1) / 2
  modifies calls, done, slept, lastErr, cancelled
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0
func jitter.(*Service_RetrierExpBackoffClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1) / 2
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures results: r0 == last_One_r0
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0
func jitter.(*Service_RetrierExpBackoffClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1) / 2
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0
func jitter.(*Service_RetrierExpBackoffClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.Delay > 0
  requires forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1) / 2
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit
  ensures enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit
  ensures tried: calls >= 1
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> number: i == calls + 1
  invariant <d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit
  invariant <d time.Duration> limited: d <= c.Limit || calls == 0
  invariant reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit
  invariant <d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit
  invariant rest: calls == 0 || slept >= owed(calls)
  invariant never: calls >= 0

func jitter.New_Service_RetrierExpBackoffClient(ctx, client) (h, err)
  modifies slept
  ensures configured: err == nil ==> h.Delay == parsed("1ms") && h.Limit == parsed("8ms")
  ensures accepted: err == nil <==> parses("1ms") && parses("8ms")
  ensures made: err == nil ==> h != nil && fresh(h) && h.Client == client

lock (c *ratelimit.Service_RetrierRateLimiterClient).mu
  guards c.tokens, c.lastRefill
package ratelimit = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/ratelimit/retries"
func ratelimit.(*Service_RetrierRateLimiterClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, c.tokens, c.lastRefill
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures enough: err == nil || cancelled || calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> several: calls + 1 <= i
  invariant <i int> missed: cancelled || calls + 1 == i
  invariant <i int> last: i <= c.MaxTries + 1
  invariant some: calls >= 1
  invariant rest: slept >= 0
  invariant <e error> orCancelled: e == lastErr || cancelled && any(e) == ctxErr(wantRoot())
  invariant <e error> failed: e != nil
func ratelimit.(*Service_RetrierRateLimiterClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_One_r0, c.tokens, c.lastRefill
  ensures results: r0 == last_One_r0
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures enough: err == nil || cancelled || calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> several: calls + 1 <= i
  invariant <i int> missed: cancelled || calls + 1 == i
  invariant <i int> last: i <= c.MaxTries + 1
  invariant some: calls >= 1
  invariant rest: slept >= 0
  invariant <e error> orCancelled: e == lastErr || cancelled && any(e) == ctxErr(wantRoot())
  invariant <e error> failed: e != nil
  invariant <r string> kept_r0: calls > 0 ==> r == last_One_r0
func ratelimit.(*Service_RetrierRateLimiterClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1, c.tokens, c.lastRefill
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures enough: err == nil || cancelled || calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> several: calls + 1 <= i
  invariant <i int> missed: cancelled || calls + 1 == i
  invariant <i int> last: i <= c.MaxTries + 1
  invariant some: calls >= 1
  invariant rest: slept >= 0
  invariant <e error> orCancelled: e == lastErr || cancelled && any(e) == ctxErr(wantRoot())
  invariant <e error> failed: e != nil
  invariant <r string> kept_r0: calls > 0 ==> r == last_Two_r0
  invariant <r int64> kept_r1: calls > 0 ==> r == last_Two_r1
func ratelimit.(*Service_RetrierRateLimiterClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  option noframe
  requires c.MaxTries >= 1
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1, c.tokens, c.lastRefill
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())
  ensures bounded: 1 <= calls && calls <= c.MaxTries
  ensures enough: err == nil || cancelled || calls == c.MaxTries
  invariant failing: calls > 0 ==> lastErr != nil
  invariant notDone: !done
  invariant <x context.Context> ctx: root(any(x)) == wantRoot()
  invariant <x context.Context> ctxOk: x != nil
  invariant <i int> several: calls + 1 <= i
  invariant <i int> missed: cancelled || calls + 1 == i
  invariant <i int> last: i <= c.MaxTries + 1
  invariant some: calls >= 1
  invariant rest: slept >= 0
  invariant <e error> orCancelled: e == lastErr || cancelled && any(e) == ctxErr(wantRoot())
  invariant <e error> failed: e != nil
  invariant <r *witness.Item> kept_r0: calls > 0 ==> r == last_Mix_r0
  invariant <r []string> kept_r1: calls > 0 ==> r == last_Mix_r1

func ratelimit.New_Service_RetrierRateLimiterClient(ctx, client) (h, err)
  modifies slept
  ensures configured: err == nil && h.MaxTries == 5 && h.tokens == 7.0 && h.maxTokens == 7.0 && h.refillRate == 7.0
  ensures made: err == nil ==> h != nil && fresh(h) && h.Client == client

lock (c *bucket.Service_RetrierTokenBucketClient).mu
  guards c.TokenBucket
  lockinv full: c.TokenBucket <= 10.0
extern math.Min(x, y) (r)
  pure
  ensures r == ite(x < y, x, y)
package bucket = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/tokenbucket/retries"
func bucket.(*Service_RetrierTokenBucketClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, c.TokenBucket
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= 2
func bucket.(*Service_RetrierTokenBucketClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_One_r0, c.TokenBucket
  ensures results: r0 == last_One_r0
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= 2
func bucket.(*Service_RetrierTokenBucketClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1, c.TokenBucket
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= 2
func bucket.(*Service_RetrierTokenBucketClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires forall k int :: {owed(k)} owed(k) <= 0
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1, c.TokenBucket
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures error: err == lastErr
  ensures bounded: 1 <= calls && calls <= 2

func bucket.New_Service_RetrierTokenBucketClient(ctx, client) (h, err)
  modifies slept
  ensures configured: err == nil && h.TokenBucket == 10.0
  ensures made: err == nil ==> h != nil && fresh(h) && h.Client == client

package latency = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/latency/latencyinjector"
func latency.(*Service_LatencyInjector).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Server) == wanted() && c.Server != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled
  ensures once: calls == 1
  ensures error: err == lastErr
func latency.(*Service_LatencyInjector).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Server) == wanted() && c.Server != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_One_r0
func latency.(*Service_LatencyInjector).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Server) == wanted() && c.Server != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
func latency.(*Service_LatencyInjector).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Server) == wanted() && c.Server != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1

package health = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/health/healthcheck"
func health.(*Service_HealthCheckHandler).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled
  ensures once: calls == 1
  ensures error: err == lastErr
func health.(*Service_HealthCheckHandler).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_One_r0
func health.(*Service_HealthCheckHandler).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
func health.(*Service_HealthCheckHandler).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1

package delay = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/delay/delay"
func delay.(*Service_RandomDelayHandler).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxDelay >= 0
  modifies calls, done, slept, lastErr, cancelled
  ensures once: calls == 1
  ensures error: err == lastErr
func delay.(*Service_RandomDelayHandler).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxDelay >= 0
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_One_r0
func delay.(*Service_RandomDelayHandler).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxDelay >= 0
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_Two_r0 && r1 == last_Two_r1
func delay.(*Service_RandomDelayHandler).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.MaxDelay >= 0
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures once: calls == 1
  ensures error: err == lastErr
  ensures results: r0 == last_Mix_r0 && r1 == last_Mix_r1

package faults = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/faults/prob_failure"
func faults.(*Service_ProbabilisticFailureHandler).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled
  ensures once: calls <= 1
  ensures injected: calls == 0 ==> err != nil
  ensures error: calls == 1 ==> err == lastErr
  ensures never: c.Probability <= 0 ==> calls == 1
  ensures always: c.Probability >= 100 ==> calls == 0
func faults.(*Service_ProbabilisticFailureHandler).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_One_r0
  ensures once: calls <= 1
  ensures injected: calls == 0 ==> err != nil
  ensures error: calls == 1 ==> err == lastErr
  ensures results: calls == 1 ==> r0 == last_One_r0
  ensures never: c.Probability <= 0 ==> calls == 1
  ensures always: c.Probability >= 100 ==> calls == 0
func faults.(*Service_ProbabilisticFailureHandler).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1
  ensures once: calls <= 1
  ensures injected: calls == 0 ==> err != nil
  ensures error: calls == 1 ==> err == lastErr
  ensures results: calls == 1 ==> r0 == last_Two_r0 && r1 == last_Two_r1
  ensures never: c.Probability <= 0 ==> calls == 1
  ensures always: c.Probability >= 100 ==> calls == 0
func faults.(*Service_ProbabilisticFailureHandler).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Service) == wanted() && c.Service != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1
  ensures once: calls <= 1
  ensures injected: calls == 0 ==> err != nil
  ensures error: calls == 1 ==> err == lastErr
  ensures results: calls == 1 ==> r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures never: c.Probability <= 0 ==> calls == 1
  ensures always: c.Probability >= 100 ==> calls == 0

load circuitbreaker = "github.com/blueprint-uservices/blueprint/plugins/zzgen/circuitbreaker"
ghost reports int
ghost reported any
ufun ready() bool
extern circuitbreaker.(*CircuitBreaker).Ready(b) (ok)
  pure
  ensures ok <==> ready()
extern circuitbreaker.(*CircuitBreaker).Done(b, ctx, err) (e)
  requires open: ready()
  requires context: root(any(ctx)) == wantRoot()
  modifies reports, reported
  ensures reports == old(reports) + 1 && reported == any(err) && e == err

package breaker = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/breaker/cb"
func breaker.(*Service_CircuitBreakerClient).Zero(c, ctx) (err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 0 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.cb != nil
  requires reports == 0
  modifies calls, done, slept, lastErr, cancelled, reports, reported
  ensures forwarded: ready() ==> calls == 1 && err == lastErr
  ensures refused: !ready() ==> calls == 0 && reports == 0 && err == circuitbreaker.ErrOpen
  ensures reported: ready() ==> reports == 1 && reported == lastErr
func breaker.(*Service_CircuitBreakerClient).One(c, ctx, a) (r0, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 1 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires a == wantOne_a()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.cb != nil
  requires reports == 0
  modifies calls, done, slept, lastErr, cancelled, last_One_r0, reports, reported
  ensures forwarded: ready() ==> calls == 1 && err == lastErr
  ensures results: ready() ==> r0 == last_One_r0
  ensures refused: !ready() ==> calls == 0 && reports == 0 && err == circuitbreaker.ErrOpen
  ensures reported: ready() ==> reports == 1 && reported == lastErr
func breaker.(*Service_CircuitBreakerClient).Two(c, ctx, s, n, i) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 2 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires s == wantTwo_s()
  requires n == wantTwo_n()
  requires i == wantTwo_i()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.cb != nil
  requires reports == 0
  modifies calls, done, slept, lastErr, cancelled, last_Two_r0, last_Two_r1, reports, reported
  ensures forwarded: ready() ==> calls == 1 && err == lastErr
  ensures results: ready() ==> r0 == last_Two_r0 && r1 == last_Two_r1
  ensures refused: !ready() ==> calls == 0 && reports == 0 && err == circuitbreaker.ErrOpen
  ensures reported: ready() ==> reports == 1 && reported == lastErr
func breaker.(*Service_CircuitBreakerClient).Mix(c, ctx, xs, m, p) (r0, r1, err)
  requires c != nil && ctx != nil && any(c.Client) == wanted() && c.Client != nil
  requires op() == 3 && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0
  requires xs == wantMix_xs()
  requires m == wantMix_m()
  requires p == wantMix_p()
  requires calls == 0 && !done && slept == 0 && !cancelled
  requires c.cb != nil
  requires reports == 0
  modifies calls, done, slept, lastErr, cancelled, last_Mix_r0, last_Mix_r1, reports, reported
  ensures forwarded: ready() ==> calls == 1 && err == lastErr
  ensures results: ready() ==> r0 == last_Mix_r0 && r1 == last_Mix_r1
  ensures refused: !ready() ==> calls == 0 && reports == 0 && err == circuitbreaker.ErrOpen
  ensures reported: ready() ==> reports == 1 && reported == lastErr

