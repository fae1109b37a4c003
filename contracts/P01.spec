property P01
include std.inc
load backend = "github.com/blueprint-uservices/blueprint/runtime/core/backend"
package simplecache = "github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"

// Ghost record of the latest value delivered to each destination through backend.CopyResult
ghost delivered gmap[any]any
ufun copyErr(src any; dst any) any

// CopyResult is verified in P06. Here: a delivery to dst is recorded; integers really are stored.
extern backend.CopyResult(src, dst) (err)
  modifies delivered, *ite(is(dst, *int64), dst.(*int64), zero(*int64))
  ensures delivered == old(delivered)[dst := src]
  ensures err == copyErr(src, dst)
  ensures is(dst, *int64) && is(src, int64) ==> err == nil && *(dst.(*int64)) == src.(int64)
  ensures is(dst, *int64) && !is(src, int64) ==> err != nil && *(dst.(*int64)) == old(*(dst.(*int64)))

lock (c *SimpleCache).RWMutex
  guards c.values, contents(c.values)
  lockinv ready: c.values != nil

func NewSimpleCache(ctx) (c, err)
  ensures ok: err == nil && c != nil && c.values != nil
  ensures fresh: fresh(c) && fresh(c.values)
  ensures empty: forall k string :: !in(k, c.values)

func (*SimpleCache).Put(c, ctx, key, value) (err)
  atomic
  requires c != nil && c.values != nil
  modifies contents(c.values)
  ensures ok: err == nil
  ensures stored: in(key, c.values) && c.values[key] == value
  ensures others: forall k string :: {in(k, c.values)} {c.values[k]} k != key ==> (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])

func (*SimpleCache).Get(c, ctx, key, val) (ok, err)
  atomic
  requires c != nil && c.values != nil
  modifies delivered, *ite(is(val, *int64), val.(*int64), zero(*int64))
  ensures presence: ok == in(key, c.values)
  ensures value: ok ==> delivered == old(delivered)[val := c.values[key]] && err == copyErr(c.values[key], val)
  ensures absent: !ok ==> err == nil && delivered == old(delivered)
  ensures unchanged: forall k string :: (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])

func (*SimpleCache).Delete(c, ctx, key) (err)
  atomic
  requires c != nil && c.values != nil
  modifies contents(c.values)
  ensures ok: err == nil
  ensures removed: !in(key, c.values)
  ensures others: forall k string :: {in(k, c.values)} {c.values[k]} k != key ==> (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])

func (*SimpleCache).Incr(c, ctx, key) (n, err)
  atomic
  requires c != nil && c.values != nil
  modifies contents(c.values), delivered
  ensures fromZero: !old(in(key, c.values)) ==> err == nil && n == 1
  ensures plusOne: old(in(key, c.values)) && is(old(c.values[key]), int64) ==> err == nil && n == old(c.values[key]).(int64) + 1
  ensures stored: err == nil ==> in(key, c.values) && c.values[key] == any(n)
  ensures notInt: old(in(key, c.values)) && !is(old(c.values[key]), int64) ==> err != nil && in(key, c.values) && c.values[key] == old(c.values[key])
  ensures others: forall k string :: {in(k, c.values)} {c.values[k]} k != key ==> (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])

func (*SimpleCache).Mset(c, ctx, keys, values) (err)
  requires c != nil && c.values != nil
  modifies contents(c.values)
  ensures lengths: (err != nil) <==> len(keys) != len(values)
  ensures rejected: err != nil ==> forall k string :: (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])
  ensures stored: err == nil ==> forall i int :: {keys[i]} 0 <= i < len(keys) && (forall j int :: {keys[j]} i < j < len(keys) ==> keys[j] != keys[i]) ==> in(keys[i], c.values) && c.values[keys[i]] == values[i]
  ensures others: forall k string :: {in(k, c.values)} {c.values[k]} (forall i int :: {keys[i]} 0 <= i < len(keys) ==> keys[i] != k) ==> (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])
  invariant stored: forall i int :: {keys[i]} 0 <= i < $k && (forall j int :: {keys[j]} i < j < $k ==> keys[j] != keys[i]) ==> in(keys[i], c.values) && c.values[keys[i]] == values[i]
  invariant others: forall k string :: {in(k, c.values)} {c.values[k]} (forall i int :: {keys[i]} 0 <= i < $k ==> keys[i] != k) ==> (in(k, c.values) <==> old(in(k, c.values))) && c.values[k] == old(c.values[k])

func (*SimpleCache).Mget(c, ctx, keys, values) (err)
  requires c != nil && c.values != nil
  modifies delivered, allcontents(*int64)
  ensures lengths: len(keys) != len(values) ==> err != nil && delivered == old(delivered)
  ensures noError: len(keys) == len(values) && err == nil ==> forall i int :: {keys[i]} 0 <= i < len(keys) && in(keys[i], c.values) ==> copyErr(c.values[keys[i]], values[i]) == nil
  ensures error: len(keys) == len(values) && err != nil ==> exists i int :: 0 <= i < len(keys) && in(keys[i], c.values) && copyErr(c.values[keys[i]], values[i]) == err
  ensures delivered: len(keys) == len(values) && err == nil ==> forall i int :: {keys[i]} 0 <= i < len(keys) && in(keys[i], c.values) && (forall j int :: {keys[j]} {values[j]} i < j < len(keys) && in(keys[j], c.values) ==> values[j] != values[i]) ==> delivered[values[i]] == c.values[keys[i]]
  ensures nothingElse: forall d any :: {delivered[d]} (forall i int :: {values[i]} 0 <= i < len(keys) ==> values[i] != d || !in(keys[i], c.values)) ==> delivered[d] == old(delivered[d])
  invariant noError: forall i int :: {keys[i]} 0 <= i < $k && in(keys[i], c.values) ==> copyErr(c.values[keys[i]], values[i]) == nil
  invariant delivered: forall i int :: {keys[i]} 0 <= i < $k && in(keys[i], c.values) && (forall j int :: {keys[j]} {values[j]} i < j < $k && in(keys[j], c.values) ==> values[j] != values[i]) ==> delivered[values[i]] == c.values[keys[i]]
  invariant nothingElse: forall d any :: {delivered[d]} (forall i int :: {values[i]} 0 <= i < $k ==> values[i] != d || !in(keys[i], c.values)) ==> delivered[d] == old(delivered[d])

replay dir=runtime/plugins/simplecache file=P01_cache_test.go run=TestGovcP01 race=1
