#!/usr/bin/env python3
# Writes contracts/P20.spec (contracts on the code that the wrapper plugins generate) from one description per variant.
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "github.com/blueprint-uservices/blueprint/plugins/zzgen/out/"

# methods of the witness service: name -> (params, wanted, results, recorded)
M = [
    ("Zero", [], []),
    ("One", ["a"], ["r0"]),
    ("Two", ["s", "n", "i"], ["r0", "r1"]),
    ("Mix", ["xs", "m", "p"], ["r0", "r1"]),
]
L = []
def w(s=""): L.append(s)

w("// GENERATED by tools/mkp20.py. Contracts on the wrapper code that the plugins generate for a witness service.")
w("property P20")
w("option generate=gen/P20")
w('load witness = "github.com/blueprint-uservices/blueprint/plugins/zzgen/witness"')
w('load time = "time"')
w("""
// what the caller of the wrapper passes
ufun wanted() any
ufun wantOne_a() string
ufun wantTwo_s() string
ufun wantTwo_n() int64
ufun wantTwo_i() int
ufun wantMix_xs() []string
ufun wantMix_m() map[string]int64
ufun wantMix_p() *witness.Item
// the context the caller passed (derived contexts keep it) and the attempt number that a context carries
ufun root(c any) any
ufun attempt(c any) int
ufun wantRoot() any
// the delay owed before the k-th repetition
ufun owed(k int) int
// d doubled k times
ufun grown(d int; k int) int
axiom forall d int; k int :: {grown(d, k)} k == 0 ==> grown(d, k) == d
axiom forall d int; j int; k int :: {grown(d, j), grown(d, k)} j >= 0 && k == j + 1 ==> grown(d, k) == 2*grown(d, j)

// the caller's operation: 0 Zero, 1 One, 2 Two, 3 Mix
ufun op() int
// calls made, whether one has succeeded, and the latest outcome
ghost calls int
ghost done bool
ghost slept int
ghost cancelled bool
ghost lastErr any
ghost last_One_r0 string
ghost last_Two_r0 string
ghost last_Two_r1 int64
ghost last_Mix_r0 *witness.Item
ghost last_Mix_r1 []string
""")
GH = {m: ["last_%s_%s" % (m, r) for r in rs] for m, _, rs in M}
ALL = ["calls", "done", "slept", "lastErr"]
for k, (m, ps, rs) in enumerate(M):
    w("iface witness.Service.%s(self, ctx%s) (%serr)" % (m, "".join(", " + p for p in ps), "".join(r + ", " for r in rs)))
    w("  requires wrapped: any(self) == wanted()")
    w("  requires operation: op() == %d" % k)
    for p in ps: w("  requires argument_%s: %s == want%s_%s()" % (p, p, m, p))
    w("  requires context: root(any(ctx)) == wantRoot()")
    w("  requires attempt: attempt(any(ctx)) == 0 || attempt(any(ctx)) == calls + 1 || cancelled && attempt(any(ctx)) > calls + 1")
    w("  requires notAfterSuccess: !done")
    w("  requires rested: calls == 0 || slept >= owed(calls)")
    w("  modifies %s" % ", ".join(ALL + GH[m]))
    w("  ensures calls == old(calls) + 1 && slept == 0 && lastErr == err && (done <==> err == nil)")
    for r in rs: w("  ensures last_%s_%s == %s" % (m, r, r))
    w("  why the wrapped service: any outcome")
w("""
load context = "context"
load errors = "errors"
ufun ctxErr(c any) any
extern errors.New(s) (err)
  pure
  ensures err != nil
iface context.Context.Err(c) (err)
  modifies cancelled
  ensures cancelled && any(err) == ctxErr(root(any(c))) && any(err) != nil
  why asked after the context's Done channel has delivered
iface context.Context.Done(c) (ch)
  pure
  ensures ch != nil
extern context.WithValue(c, key, val) (r)
  pure
  ensures r != nil && root(any(r)) == root(any(c))
  ensures key == any("attempt_num") && is(val, int) ==> attempt(any(r)) == val.(int)
  ensures key != any("attempt_num") ==> attempt(any(r)) == attempt(any(c))
extern time.Sleep(d)
  modifies slept
  ensures slept == d
extern time.After(d) (ch)
  modifies slept
  ensures slept == d && ch != nil
  why the timer is taken as waited for; the select in the generated code waits for it or for the context
ufun parsed(s string) int
ufun parses(s string) bool
extern time.ParseDuration(s) (d, err)
  pure
  ensures err == nil <==> parses(s)
  ensures err == nil ==> d == parsed(s)
extern time.Now() (t)
  pure
extern time.(Time).Sub(t, u) (d)
  pure
extern time.(Duration).Seconds(d) (f)
  pure
""")
w("")

def method(pkg, recv, field, m, ps, rs, k, req, ens, mods="", frame=True, invs=None):
    w("func %s.(*%s).%s(c, ctx%s) (%serr)" % (pkg, recv, m, "".join(", " + p for p in ps), "".join(r + ", " for r in rs)))
    w("  requires c != nil && ctx != nil && any(c.%s) == wanted() && c.%s != nil" % (field, field))
    w("  requires op() == %d && root(any(ctx)) == wantRoot() && attempt(any(ctx)) == 0" % k)
    for p in ps: w("  requires %s == want%s_%s()" % (p, m, p))
    w("  requires calls == 0 && !done && slept == 0 && !cancelled")
    if frame is False: w("  option noframe")
    for r in req: w("  requires " + r)
    w("  modifies %s%s" % (", ".join(ALL + ["cancelled"] + GH[m]), mods))
    res = " && ".join("%s == last_%s_%s" % (r, m, r) for r in rs)
    for e in ens:
        if "RESULTS" in e:
            if not res:
                continue
            e = e.replace("RESULTS", res)
        w("  ensures " + e)
    for i in inv(m, rs, invs): w("  invariant " + i)

def variant(pkg, path, recv, field, req=(), ens=(), mods="", **kw):
    w("package %s = \"%s\"" % (pkg, OUT + path))
    for k, (m, ps, rs) in enumerate(M):
        method(pkg, recv, field, m, ps, rs, k, req, ens, mods, **kw)
    w("")

FORWARD = ["once: calls == 1", "error: err == lastErr", "results: RESULTS"]
RETRY = ["results: RESULTS", "error: err == lastErr", "bounded: 1 <= calls && calls <= c.MaxTries", "exhausted: err != nil ==> calls == c.MaxTries"]
COMMON = ["failing: calls > 0 ==> lastErr != nil", "notDone: !done", "<x context.Context> ctx: root(any(x)) == wantRoot()", "<x context.Context> ctxOk: x != nil"]
LATEST = "<e error> latest: calls > 0 ==> e == lastErr"
# a loop over a number of attempts; the counter may start at 0 or 1
COUNTED = ["<i int> count: calls == i", "<i int> number: i == calls + 1", "below: calls <= c.MaxTries", "<i int> last: i <= c.MaxTries + 1", LATEST, "KEPT"]
FIXED = COUNTED + ["rest: calls == 0 || slept >= owed(calls)"]
BACKOFF = ["<i int> number: i == calls + 1", "<d time.Duration> delay: d == grown(c.Delay, calls) || d == c.Limit", "<d time.Duration> limited: d <= c.Limit || calls == 0",
    "reached: calls == 0 || grown(c.Delay, calls - 1) < c.Limit", "<d time.Duration> atLimit: d >= c.Limit ==> grown(c.Delay, calls) >= c.Limit", "rest: calls == 0 || slept >= owed(calls)", "never: calls >= 0"]
RATED = ["<i int> several: calls + 1 <= i", "<i int> missed: cancelled || calls + 1 == i", "<i int> last: i <= c.MaxTries + 1", "some: calls >= 1", "rest: slept >= 0",
    "<e error> orCancelled: e == lastErr || cancelled && any(e) == ctxErr(wantRoot())", "<e error> failed: e != nil", "KEPT"]
def inv(m, rs, which):
    T = {"One": ["string"], "Two": ["string", "int64"], "Mix": ["*witness.Item", "[]string"], "Zero": []}[m]
    kept = ["<r %s> kept_%s: calls > 0 ==> r == last_%s_%s" % (t, r, m, r) for r, t in zip(rs, T)]
    return [y for x in (COMMON + which if which else []) for y in (kept if x == "KEPT" else [x])]

NOREST = "forall k int :: {owed(k)} owed(k) <= 0"
RESTD = "forall k int :: {owed(k)} owed(k) == c.Delay"
GROW = "forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1)"

def new(pkg, name, params, field, wrapped, ens, pre=()):
    w("func %s.New_%s(%s) (h, err)" % (pkg, name, ", ".join(params)))
    for p in pre: w("  requires " + p)
    w("  modifies slept")
    for e in ens: w("  ensures " + e)
    w("  ensures made: err == nil ==> h != nil && fresh(h) && h.%s == %s" % (field, wrapped))
    w("")

variant("retries", "retries/retries", "Service_RetrierClient", "Client", ["c.MaxTries >= 1", NOREST], RETRY, invs=COUNTED)
new("retries", "Service_RetrierClient", ["ctx", "client"], "Client", "client", ["configured: err == nil && h.MaxTries == 3"])

variant("fixed", "fixeddelay/retries", "Service_RetrierFixedDelayClient", "Client", ["c.MaxTries >= 1", RESTD], RETRY, invs=FIXED)
new("fixed", "Service_RetrierFixedDelayClient", ["ctx", "client"], "Client", "client", ['configured: err == nil ==> h.MaxTries == 4 && h.Delay == parsed("1ms")', 'accepted: err == nil <==> parses("1ms")'])

BACK = ["results: RESULTS", "error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())",
        "capped: calls == 1 || grown(c.Delay, calls - 2) < c.Limit", "enough: err == nil || cancelled || grown(c.Delay, calls - 1) >= c.Limit", "tried: calls >= 1"]
variant("backoff", "backoff/retries", "Service_RetrierExpBackoffClient", "Client", ["c.Delay > 0", GROW], BACK, frame=False, invs=BACKOFF)
new("backoff", "Service_RetrierExpBackoffClient", ["ctx", "client"], "Client", "client", ['configured: err == nil ==> h.Delay == parsed("1ms") && h.Limit == parsed("8ms")', 'accepted: err == nil <==> parses("1ms") && parses("8ms")'])

w("extern rand.Int63n(n) (r)")
w("  requires positive: n > 0")
w("  pure")
w("  ensures 0 <= r && r < n")
w("extern rand.Int31n(n) (r)")
w("  requires positive: n > 0")
w("  pure")
w("  ensures 0 <= r && r < n")
L.insert(L.index('load time = "time"') if 'load time = "time"' in L else 5, 'load rand = "math/rand"')
HALF = "forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) <= grown(c.Delay, k - 1) && 2*owed(k) <= grown(c.Delay, k - 1)"
variant("jitter", "jitter/retries", "Service_RetrierExpBackoffClient", "Client", ["c.Delay > 0", "forall k int :: {owed(k)} {grown(c.Delay, k - 1)} owed(k) == grown(c.Delay, k - 1) / 2"], BACK, frame=False, invs=BACKOFF)
new("jitter", "Service_RetrierExpBackoffClient", ["ctx", "client"], "Client", "client", ['configured: err == nil ==> h.Delay == parsed("1ms") && h.Limit == parsed("8ms")', 'accepted: err == nil <==> parses("1ms") && parses("8ms")'])

# rate limited retries: the tokens are shared by all callers
w("lock (c *ratelimit.Service_RetrierRateLimiterClient).mu")
w("  guards c.tokens, c.lastRefill")
RATE = ["results: RESULTS", "error: err == lastErr || cancelled && any(err) == ctxErr(wantRoot())", "bounded: 1 <= calls && calls <= c.MaxTries", "enough: err == nil || cancelled || calls == c.MaxTries"]
variant("ratelimit", "ratelimit/retries", "Service_RetrierRateLimiterClient", "Client", ["c.MaxTries >= 1", NOREST], RATE, ", c.tokens, c.lastRefill", frame=False, invs=RATED)
new("ratelimit", "Service_RetrierRateLimiterClient", ["ctx", "client"], "Client", "client", ["configured: err == nil && h.MaxTries == 5 && h.tokens == 7.0 && h.maxTokens == 7.0 && h.refillRate == 7.0"])

w("lock (c *bucket.Service_RetrierTokenBucketClient).mu")
w("  guards c.TokenBucket")
w("  lockinv full: c.TokenBucket <= 10.0")
w("extern math.Min(x, y) (r)")
w("  pure")
w("  ensures r == ite(x < y, x, y)")
L.insert(5, 'load math = "math"')
BUCKET = ["results: RESULTS", "error: err == lastErr", "bounded: 1 <= calls && calls <= 2"]
variant("bucket", "tokenbucket/retries", "Service_RetrierTokenBucketClient", "Client", [NOREST], BUCKET, ", c.TokenBucket")
new("bucket", "Service_RetrierTokenBucketClient", ["ctx", "client"], "Client", "client", ["configured: err == nil && h.TokenBucket == 10.0"])

# single-call wrappers
variant("latency", "latency/latencyinjector", "Service_LatencyInjector", "Server", [], FORWARD)
variant("health", "health/healthcheck", "Service_HealthCheckHandler", "Service", [], FORWARD)
variant("delay", "delay/delay", "Service_RandomDelayHandler", "Service", ["c.MaxDelay >= 0"], FORWARD)
variant("faults", "faults/prob_failure", "Service_ProbabilisticFailureHandler", "Service", [],
    ["once: calls <= 1", "injected: calls == 0 ==> err != nil", "error: calls == 1 ==> err == lastErr", "results: calls == 1 ==> RESULTS", "never: c.Probability <= 0 ==> calls == 1", "always: c.Probability >= 100 ==> calls == 0"])

# the circuit breaker library is trusted: Ready says whether calls may pass, Done reports an outcome and returns it
w('load circuitbreaker = "github.com/blueprint-uservices/blueprint/plugins/zzgen/circuitbreaker"')
w("""ghost reports int
ghost reported any
ufun ready() bool
extern circuitbreaker.(*CircuitBreaker).Ready(b) (ok)
  pure
  ensures ok <==> ready()
extern circuitbreaker.(*CircuitBreaker).Done(b, ctx, err) (e)
  requires open: ready()
  requires context: root(any(ctx)) == wantRoot()
  modifies reports, reported
  ensures reports == old(reports) + 1 && reported == any(err) && e == err
""")
variant("breaker", "breaker/cb", "Service_CircuitBreakerClient", "Client", ["c.cb != nil", "reports == 0"],
    ["forwarded: ready() ==> calls == 1 && err == lastErr", "results: ready() ==> RESULTS", "refused: !ready() ==> calls == 0 && reports == 0 && err == circuitbreaker.ErrOpen", "reported: ready() ==> reports == 1 && reported == lastErr"], ", reports, reported")
open(ROOT + "/contracts/P20.spec", "w").write("\n".join(L) + "\n")
