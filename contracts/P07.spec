property P07
include std.inc
bounded dir=runtime/plugins/simplenosqldb file=P07_filter_test.go run=TestVerifP07Filters
package query = "github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
load bson = "go.mongodb.org/mongo-driver/bson"
load primitive = "go.mongodb.org/mongo-driver/bson/primitive"
load reflect = "reflect"
load regexp = "regexp"
load strings = "strings"

// sat(f, x): the condition f holds of the value x. Every kind of condition defines it in terms of its parts; each Apply
// is checked against the definition of its own kind and the contract of Filter.Apply for its parts.
ufun sat(f any; x any) bool
iface query.Filter.Apply(f, item) (r)
  ensures r == sat(f, item)

// numbers
define isInt(x any) bool = is(x, int) || is(x, int8) || is(x, int16) || is(x, int32) || is(x, int64)
define int64Of(x any) int = ite(is(x, int), x.(int), ite(is(x, int8), x.(int8), ite(is(x, int16), x.(int16), ite(is(x, int32), x.(int32), x.(int64)))))
define isNum(x any) bool = isInt(x) || is(x, float32) || is(x, float64)
define numOf(x any) float64 = ite(isInt(x), float64(int64Of(x)), ite(is(x, float32), x.(float32), x.(float64)))
define holds(c int; a float64; b float64) bool = (c == 0 && a == b) || (c == 1 && a > b) || (c == 2 && a >= b) || (c == 3 && a < b) || (c == 4 && a <= b)

func intValue(item) (v, ok)
  ensures integer: ok == isInt(item) && (ok ==> v == int64Of(item))
func floatValue(item) (v, ok)
  ensures number: ok == isNum(item) && (ok ==> v == numOf(item))

func (*cmpInt).Apply(f, item) (r)
  requires f != nil
  ensures compares: r == (isNum(item) && holds(f.cmp, numOf(item), float64(f.value)))
func (*cmpFloat).Apply(f, item) (r)
  requires f != nil
  ensures compares: r == (isNum(item) && holds(f.cmp, numOf(item), f.value))

ufun deepEqual(a any; b any) bool
extern reflect.DeepEqual(a, b) (r)
  pure
  ensures r == deepEqual(a, b)
func (*equals).Apply(f, item) (r)
  requires f != nil
  ensures equal: r == deepEqual(item, f.value)

ufun matches(re *regexp.Regexp; s string) bool
extern regexp.(*Regexp).MatchString(re, s) (r)
  pure
  ensures r == matches(re, s)
func (*regex).Apply(f, item) (r)
  requires f != nil
  ensures matchesString: r == (is(item, string) && matches(f.re, item.(string)))

func (*exists).Apply(f, item) (r)
  ensures always: r

// paths
define firstField(d primitive.D; key string; i int) bool = 0 <= i < len(d) && d[i].Key == key && forall j int :: {d[j]} 0 <= j < i ==> d[j].Key != key
func (*selectFilter).Apply(f, item) (r)
  requires f != nil && f.next != nil
  ensures field: r == (is(item, primitive.D) && exists i int :: {item.(primitive.D)[i]} firstField(item.(primitive.D), f.fieldName, i) && sat(f.next, item.(primitive.D)[i].Value))
  invariant notYet: is(item, primitive.D) && forall j int :: {item.(primitive.D)[j]} 0 <= j < $k ==> item.(primitive.D)[j].Key != f.fieldName
func (*index).Apply(f, item) (r)
  requires f != nil && f.next != nil
  ensures element: r == (is(item, primitive.A) && 0 <= f.i && f.i < len(item.(primitive.A)) && sat(f.next, item.(primitive.A)[f.i]))
func (*broadcast).Apply(f, item) (r)
  requires f != nil && f.next != nil
  ensures anyOf: r == (sat(f.next, item) || (is(item, primitive.A) && exists i int :: {item.(primitive.A)[i]} 0 <= i < len(item.(primitive.A)) && sat(f.next, item.(primitive.A)[i])))
  invariant notYet: is(item, primitive.A) && forall j int :: {item.(primitive.A)[j]} 0 <= j < $k ==> !sat(f.next, item.(primitive.A)[j])

// logical
define built(fs []query.Filter) bool = forall i int :: {fs[i]} 0 <= i < len(fs) ==> fs[i] != nil
func (*and).Apply(f, item) (r)
  requires f != nil && built(f.filters)
  ensures every: r == forall i int :: {f.filters[i]} 0 <= i < len(f.filters) ==> sat(f.filters[i], item)
  invariant soFar: forall i int :: {f.filters[i]} 0 <= i < $k ==> sat(f.filters[i], item)
func (*or).Apply(f, item) (r)
  requires f != nil && built(f.filters)
  ensures some: r == exists i int :: {f.filters[i]} 0 <= i < len(f.filters) && sat(f.filters[i], item)
  invariant soFar: forall i int :: {f.filters[i]} 0 <= i < $k ==> !sat(f.filters[i], item)
func (*not).Apply(f, item) (r)
  requires f != nil && f.filter != nil
  ensures negated: r == !sat(f.filter, item)

// documents and arrays
func (*exactFieldMatch).Apply(f, item) (r)
  requires f != nil && f.fields != nil
  ensures noOther: r == (is(item, primitive.D) && forall i int :: {item.(primitive.D)[i]} 0 <= i < len(item.(primitive.D)) ==> in(item.(primitive.D)[i].Key, f.fields))
  invariant soFar: is(item, primitive.D) && forall i int :: {item.(primitive.D)[i]} 0 <= i < $k ==> in(item.(primitive.D)[i].Key, f.fields)
func (*exactLengthMatch).Apply(f, item) (r)
  requires f != nil
  ensures length: r == (is(item, primitive.A) && len(item.(primitive.A)) == f.length)
define someElem(f any; item any) bool = sat(f, item) || (is(item, primitive.A) && exists i int :: {item.(primitive.A)[i]} 0 <= i < len(item.(primitive.A)) && sat(f, item.(primitive.A)[i]))
func (*all).Apply(f, item) (r)
  requires f != nil && built(f.values)
  ensures allOf: r == (len(f.values) > 0 && forall i int :: {f.values[i]} 0 <= i < len(f.values) ==> someElem(f.values[i], item))
  invariant soFar: forall i int :: {f.values[i]} 0 <= i < $k ==> someElem(f.values[i], item)
define satAll(f *query.elemMatch; x any) bool = forall j int :: {f.queries[j]} 0 <= j < len(f.queries) ==> sat(f.queries[j], x)
func (*elemMatch).Apply(f, item) (r)
  requires f != nil && built(f.queries)
  ensures oneElement: r == (is(item, primitive.A) && exists i int :: {item.(primitive.A)[i]} 0 <= i < len(item.(primitive.A)) && satAll(f, item.(primitive.A)[i]))
  invariant loop 0 soFar: is(item, primitive.A) && forall i int :: {item.(primitive.A)[i]} 0 <= i < $k ==> !satAll(f, item.(primitive.A)[i])
  invariant loop 1 <e any> soFar: forall j int :: {f.queries[j]} 0 <= j < $k ==> sat(f.queries[j], e)

// ---------------------------------------------------------------- building conditions
func Select(fieldName, next) (r)
  ensures built: is(r, *query.selectFilter) && fresh(r.(*query.selectFilter)) && r.(*query.selectFilter).fieldName == fieldName && r.(*query.selectFilter).next == next
  defines forall x any :: {sat(r, x)} sat(r, x) == (is(x, primitive.D) && exists i int :: {x.(primitive.D)[i]} firstField(x.(primitive.D), fieldName, i) && sat(next, x.(primitive.D)[i].Value))
func Index(i, next) (r)
  ensures built: is(r, *query.index) && fresh(r.(*query.index)) && r.(*query.index).i == i && r.(*query.index).next == next
  defines forall x any :: {sat(r, x)} sat(r, x) == (is(x, primitive.A) && 0 <= i && i < len(x.(primitive.A)) && sat(next, x.(primitive.A)[i]))
func Broadcast(next) (r)
  ensures built: is(r, *query.broadcast) && fresh(r.(*query.broadcast)) && r.(*query.broadcast).next == next
  defines forall x any :: {sat(r, x)} sat(r, x) == someElem(next, x)
func CmpInt(value, cmp) (r)
  ensures built: is(r, *query.cmpInt) && fresh(r.(*query.cmpInt)) && r.(*query.cmpInt).value == value && r.(*query.cmpInt).cmp == cmp
  defines forall x any :: {sat(r, x)} sat(r, x) == (isNum(x) && holds(cmp, numOf(x), float64(value)))
func CmpFloat(value, cmp) (r)
  ensures built: is(r, *query.cmpFloat) && fresh(r.(*query.cmpFloat)) && r.(*query.cmpFloat).value == value && r.(*query.cmpFloat).cmp == cmp
  defines forall x any :: {sat(r, x)} sat(r, x) == (isNum(x) && holds(cmp, numOf(x), value))
func Equals(value) (r)
  ensures built: r != nil && (!isNum(value) ==> is(r, *query.equals) && fresh(r.(*query.equals)) && r.(*query.equals).value == value)
  ensures number: isNum(value) ==> forall x any :: {sat(r, x)} sat(r, x) == (isNum(x) && numOf(x) == numOf(value))
  defines !isNum(value) ==> forall x any :: {sat(r, x)} sat(r, x) == deepEqual(x, value)
func Exists() (r)
  ensures built: is(r, *query.exists) && r != nil
  defines forall x any :: {sat(r, x)} sat(r, x)
func Not(filter) (r)
  ensures built: is(r, *query.not) && fresh(r.(*query.not)) && r.(*query.not).filter == filter
  defines forall x any :: {sat(r, x)} sat(r, x) == !sat(filter, x)
func And(filters) (r)
  ensures none: (built(filters) ==> r != nil) && (len(filters) == 0 ==> is(r, *query.exists)) && (len(filters) == 1 ==> r == filters[0])
  ensures several: len(filters) > 1 ==> is(r, *query.and) && fresh(r.(*query.and)) && len(r.(*query.and).filters) == len(filters) && forall i int :: {r.(*query.and).filters[i]} {filters[i]} 0 <= i < len(filters) ==> r.(*query.and).filters[i] == filters[i]
  defines forall x any :: {sat(r, x)} sat(r, x) == forall i int :: {filters[i]} 0 <= i < len(filters) ==> sat(filters[i], x)
func Or(filters) (r)
  ensures none: (built(filters) ==> r != nil) && (len(filters) == 0 ==> is(r, *query.exists)) && (len(filters) == 1 ==> r == filters[0])
  ensures several: len(filters) > 1 ==> is(r, *query.or) && fresh(r.(*query.or)) && len(r.(*query.or).filters) == len(filters) && forall i int :: {r.(*query.or).filters[i]} {filters[i]} 0 <= i < len(filters) ==> r.(*query.or).filters[i] == filters[i]
  defines len(filters) > 0 ==> forall x any :: {sat(r, x)} sat(r, x) == exists i int :: {filters[i]} 0 <= i < len(filters) && sat(filters[i], x)
func All(filters) (r)
  ensures built: is(r, *query.all) && fresh(r.(*query.all)) && len(r.(*query.all).values) == len(filters) && forall i int :: {r.(*query.all).values[i]} {filters[i]} 0 <= i < len(filters) ==> r.(*query.all).values[i] == filters[i]
  defines forall x any :: {sat(r, x)} sat(r, x) == (len(filters) > 0 && forall i int :: {filters[i]} 0 <= i < len(filters) ==> someElem(filters[i], x))
func ElemMatch(queries) (r)
  ensures built: is(r, *query.elemMatch) && fresh(r.(*query.elemMatch)) && len(r.(*query.elemMatch).queries) == len(queries) && forall i int :: {r.(*query.elemMatch).queries[i]} {queries[i]} 0 <= i < len(queries) ==> r.(*query.elemMatch).queries[i] == queries[i]
  defines forall x any :: {sat(r, x)} sat(r, x) == (is(x, primitive.A) && exists i int :: {x.(primitive.A)[i]} 0 <= i < len(x.(primitive.A)) && forall j int :: {queries[j]} 0 <= j < len(queries) ==> sat(queries[j], x.(primitive.A)[i]))
  defines len(queries) == 1 ==> forall x any :: {sat(r, x)} sat(r, x) == (is(x, primitive.A) && exists i int :: {x.(primitive.A)[i]} 0 <= i < len(x.(primitive.A)) && sat(queries[0], x.(primitive.A)[i]))
define listed(key string; keys []string) bool = exists j int :: {keys[j]} 0 <= j < len(keys) && keys[j] == key
func ExactFieldMatch(fieldsSeen) (r)
  ensures built: is(r, *query.exactFieldMatch) && fresh(r.(*query.exactFieldMatch)) && r.(*query.exactFieldMatch).fields != nil && forall k string :: {in(k, r.(*query.exactFieldMatch).fields)} in(k, r.(*query.exactFieldMatch).fields) <==> listed(k, fieldsSeen)
  invariant <m map[string]struct{}> onlySeen: m != nil && forall k string :: {in(k, m)} in(k, m) ==> exists j int :: {fieldsSeen[j]} 0 <= j < $k && fieldsSeen[j] == k
  invariant <m map[string]struct{}> allSeen: forall j int :: {fieldsSeen[j]} 0 <= j < $k ==> in(fieldsSeen[j], m)
  defines forall x any :: {sat(r, x)} sat(r, x) == (is(x, primitive.D) && forall i int :: {x.(primitive.D)[i]} 0 <= i < len(x.(primitive.D)) ==> listed(x.(primitive.D)[i].Key, fieldsSeen))
func ExactLengthMatch(length) (r)
  ensures built: is(r, *query.exactLengthMatch) && fresh(r.(*query.exactLengthMatch)) && r.(*query.exactLengthMatch).length == length
  defines forall x any :: {sat(r, x)} sat(r, x) == (is(x, primitive.A) && len(x.(primitive.A)) == length)
ufun compiles(p string) bool
ufun compiled(p string) *regexp.Regexp
extern regexp.Compile(p) (re, err)
  pure
  ensures (err == nil) == compiles(p) && (err == nil ==> re == compiled(p))
func Regex(p) (r, err)
  ensures built: (err == nil) == compiles(p) && is(r, *query.regex) && fresh(r.(*query.regex)) && (compiles(p) ==> r.(*query.regex).re == compiled(p))
  defines compiles(p) ==> forall x any :: {sat(r, x)} sat(r, x) == (is(x, string) && matches(compiled(p), x.(string)))

// ---------------------------------------------------------------- what a filter document means
load strconv = "strconv"
load errors2 = "errors"
ufun nparts(sel string) int
ufun part(sel string; i int) string
ufun isNumber(s string) bool
ufun number(s string) int
extern strings.Split(s, sep) (r)
  pure
  ensures sep == "." ==> len(r) == nparts(s) && nparts(s) >= 1 && forall i int :: {r[i]} 0 <= i < len(r) ==> r[i] == part(s, i)
extern strconv.Atoi(s) (n, err)
  pure
  ensures (err == nil) == isNumber(s) && (err == nil ==> n == number(s))
ufun hasPrefix(s string; p string) bool
extern strings.HasPrefix(s, p) (r)
  pure
  ensures r == hasPrefix(s, p)
ufun hasSub(s string; p string) bool
extern strings.Contains(s, p) (r)
  pure
  ensures r == hasSub(s, p)

// open(n): marks the documents whose meaning is unfolded
ufun open(v any) bool

// equality with a value
ufun eqVal(v any; x any) bool
define keyIn(d primitive.D; k string) bool = exists j int :: {d[j]} 0 <= j < len(d) && d[j].Key == k
define fieldEq(key string; v any; x any) bool = is(x, primitive.D) && exists j int :: {x.(primitive.D)[j]} firstField(x.(primitive.D), key, j) && eqVal(v, x.(primitive.D)[j].Value)
define eqDoc(d primitive.D; x any) bool = is(x, primitive.D) && (forall i int :: {d[i]} 0 <= i < len(d) ==> fieldEq(d[i].Key, d[i].Value, x)) && (forall j int :: {x.(primitive.D)[j]} 0 <= j < len(x.(primitive.D)) ==> keyIn(d, x.(primitive.D)[j].Key))
define eqArr(a primitive.A; x any) bool = is(x, primitive.A) && len(x.(primitive.A)) == len(a) && forall i int :: {a[i]} {x.(primitive.A)[i]} 0 <= i < len(a) ==> eqVal(a[i], x.(primitive.A)[i])
define eqDef() bool = forall v any; x any :: {open(v), eqVal(v, x)} eqVal(v, x) == ite(is(v, primitive.D), eqDoc(v.(primitive.D), x), ite(is(v, primitive.A), eqArr(v.(primitive.A), x), ite(isNum(v), isNum(x) && numOf(x) == numOf(v), deepEqual(x, v))))
// values a filter may compare with
ufun okVal(v any) bool
define okDoc(d primitive.D) bool = forall i int :: {d[i]} 0 <= i < len(d) ==> !hasPrefix(d[i].Key, "$") && !hasSub(d[i].Key, ".") && okVal(d[i].Value)
define okArr(a primitive.A) bool = forall i int :: {a[i]} 0 <= i < len(a) ==> !is(a[i], primitive.A) && okVal(a[i])
define okDef() bool = forall v any :: {open(v), okVal(v)} okVal(v) == ite(is(v, primitive.D), okDoc(v.(primitive.D)), ite(is(v, primitive.A), okArr(v.(primitive.A)), !is(v, primitive.E) && !is(v, primitive.M)))

func parseValue(value) (f, err)
  requires eqDef() && okDef()
  requires unfold: open(value)
  ensures accepted: (err == nil) == okVal(value)
  ensures equality: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == eqVal(value, x)
func parseValues(d) (f, err)
  requires eqDef() && okDef()
  ensures accepted: (err == nil) == okDoc(d)
  ensures equality: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == eqDoc(d, x)
  invariant ok: forall i int :: {d[i]} 0 <= i < $k ==> !hasPrefix(d[i].Key, "$") && !hasSub(d[i].Key, ".") && okVal(d[i].Value)
  invariant <filters []query.Filter> count: len(filters) == $k && forall i int :: {filters[i]} 0 <= i < $k ==> filters[i] != nil
  invariant <filters []query.Filter> each: forall i int; x any :: {sat(filters[i], x)} 0 <= i < $k ==> sat(filters[i], x) == fieldEq(d[i].Key, d[i].Value, x)
  invariant <seen []string> seen: len(seen) == $k && forall i int :: {seen[i]} {d[i]} 0 <= i < $k ==> seen[i] == d[i].Key
func parseArrayValues(a) (f, err)
  requires eqDef() && okDef()
  ensures accepted: (err == nil) == okArr(a)
  ensures equality: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == eqArr(a, x)
  invariant ok: forall i int :: {a[i]} 0 <= i < $k ==> !is(a[i], primitive.A) && okVal(a[i])
  invariant <filters []query.Filter> count: len(filters) == $k && forall i int :: {filters[i]} 0 <= i < $k ==> filters[i] != nil
  invariant <filters []query.Filter> each: forall i int; x any :: {sat(filters[i], x)} 0 <= i < $k ==> sat(filters[i], x) == (is(x, primitive.A) && i < len(x.(primitive.A)) && eqVal(a[i], x.(primitive.A)[i]))

// operators on a value
define cmpKey(k string) bool = k == "$eq" || k == "$gt" || k == "$gte" || k == "$lt" || k == "$lte"
define keyHolds(k string; a float64; b float64) bool = (k == "$eq" && a == b) || (k == "$gt" && a > b) || (k == "$gte" && a >= b) || (k == "$lt" && a < b) || (k == "$lte" && a <= b)
func parseNumericOperator(e) (f, err)
  ensures accepted: err == nil && (f != nil) == (isNum(e.Value) && cmpKey(e.Key))
  ensures compares: f != nil ==> forall x any :: {sat(f, x)} sat(f, x) == (isNum(x) && keyHolds(e.Key, numOf(x), numOf(e.Value)))
ufun kindOf(v any) int
ufun size(v any) int
ufun elem(v any; i int) any
ufun valOf(rv reflect.Value) any
extern reflect.ValueOf(v) (rv)
  pure
  ensures valOf(rv) == v
extern reflect.(Value).Kind(rv) (k)
  pure
  ensures k == kindOf(valOf(rv))
extern reflect.(Value).Len(rv) (n)
  pure
  requires kindOf(valOf(rv)) == 23
  ensures n == size(valOf(rv)) && n >= 0
extern reflect.(Value).Index(rv, i) (ev)
  pure
  requires kindOf(valOf(rv)) == 23 && 0 <= i && i < size(valOf(rv))
  ensures valOf(ev) == elem(valOf(rv), i)
extern reflect.(Value).Interface(rv) (v)
  pure
  ensures v == valOf(rv)
define okOp(k string; v any) bool = ite(isNum(v) && cmpKey(k), true, ite(k == "$eq", okVal(v), ite(k == "$in", kindOf(v) == 23 && forall i int :: {elem(v, i)} 0 <= i < size(v) ==> okVal(elem(v, i)), k == "$regex" && is(v, string) && compiles(v.(string)))))
define opSat(k string; v any; x any) bool = ite(isNum(v) && cmpKey(k), isNum(x) && keyHolds(k, numOf(x), numOf(v)), ite(k == "$eq", eqVal(v, x), ite(k == "$in", exists i int :: {elem(v, i)} 0 <= i < size(v) && eqVal(elem(v, i), x), is(x, string) && matches(compiled(v.(string)), x.(string)))))
func parseValueOperator(e) (f, err)
  requires eqDef() && okDef()
  ensures accepted: (err == nil) == okOp(e.Key, e.Value)
  ensures meaning: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == opSat(e.Key, e.Value, x)
  invariant <i int> ok: 0 <= i && (i == 0 || i <= size(e.Value)) && forall j int :: {elem(e.Value, j)} 0 <= j < i ==> okVal(elem(e.Value, j))
  invariant <i int; filters []query.Filter> count: len(filters) == i && forall j int :: {filters[j]} 0 <= j < i ==> filters[j] != nil
  invariant <i int; filters []query.Filter> each: forall j int; x any :: {sat(filters[j], x)} {eqVal(elem(e.Value, j), x)} 0 <= j < i ==> sat(filters[j], x) == eqVal(elem(e.Value, j), x)

// paths: path(sel, i, kind, v, x) - following the parts of sel from the i-th on from x reaches a value of which leaf(kind, v, ·) holds
ufun leaf(kind string; v any; y any) bool
ufun path(sel string; i int; kind string; v any; x any) bool
ufun at(i int) bool
define ats() bool = forall i int :: {at(i)} at(i)
define step(sel string; i int; kind string; v any; x any) bool = is(x, primitive.D) && exists j int :: {x.(primitive.D)[j]} firstField(x.(primitive.D), part(sel, i), j) && path(sel, i + 1, kind, v, x.(primitive.D)[j].Value)
define pathEnd() bool = forall sel string; i int; kind string; v any; x any :: {path(sel, i, kind, v, x)} i == nparts(sel) ==> path(sel, i, kind, v, x) == leaf(kind, v, x)
define pathDef() bool = forall sel string; i int; kind string; v any; x any :: {at(i), path(sel, i, kind, v, x)} 0 <= i < nparts(sel) ==> path(sel, i, kind, v, x) == ite(isNumber(part(sel, i)), is(x, primitive.A) && 0 <= number(part(sel, i)) && number(part(sel, i)) < len(x.(primitive.A)) && path(sel, i + 1, kind, v, x.(primitive.A)[number(part(sel, i))]), step(sel, i, kind, v, x) || (i != 0 && is(x, primitive.A) && exists m int :: {x.(primitive.A)[m]} 0 <= m < len(x.(primitive.A)) && step(sel, i, kind, v, x.(primitive.A)[m])))
func Lookup(selector, next) (f)
  requires ats() && pathEnd() && pathDef()
  ensures built: next != nil ==> f != nil
  ensures follows: forall kind string; v any; x any :: {path(selector, 0, kind, v, x), sat(f, x)} (forall y any :: {sat(next, y)} sat(next, y) == leaf(kind, v, y)) ==> sat(f, x) == path(selector, 0, kind, v, x)
  invariant <i int; g query.Filter> built: (next != nil ==> g != nil) && at(i)
  invariant <i int> range: -1 <= i && i < nparts(selector)
  invariant <i int; g query.Filter> follows: forall kind string; v any; x any :: {path(selector, i + 1, kind, v, x)} {sat(g, x), leaf(kind, v, x)} (forall y any :: {sat(next, y)} sat(next, y) == leaf(kind, v, y)) ==> sat(g, x) == path(selector, i + 1, kind, v, x)

// conditions and whole filter documents
ufun openC(k string; v any) bool
ufun openQ(d primitive.D) bool
ufun okCond(k string; v any) bool
ufun wantCond(k string; v any; x any) bool
ufun okQuery(d primitive.D) bool
ufun wantQuery(d primitive.D; x any) bool
define okQueryDef(d primitive.D) bool = forall i int :: {d[i]} 0 <= i < len(d) ==> okCond(d[i].Key, d[i].Value)
define wantQueryDef(d primitive.D; x any) bool = forall i int :: {d[i]} 0 <= i < len(d) ==> wantCond(d[i].Key, d[i].Value, x)
define queryDef() bool = (forall d primitive.D :: {openQ(d), okQuery(d)} okQuery(d) == okQueryDef(d)) && (forall d primitive.D; x any :: {openQ(d), wantQuery(d, x)} wantQuery(d, x) == wantQueryDef(d, x))
define okQueries(a primitive.A) bool = len(a) > 0 && forall i int :: {a[i]} 0 <= i < len(a) ==> is(a[i], primitive.D) && okQuery(a[i].(primitive.D))
define isLogical(k string) bool = k == "$and" || k == "$or" || k == "$nor" || k == "$not"
define okLogical(k string; v any) bool = ite(k == "$not", is(v, primitive.D) && okQuery(v.(primitive.D)), is(v, primitive.A) && okQueries(v.(primitive.A)))
define every(a primitive.A; x any) bool = forall i int :: {a[i]} 0 <= i < len(a) ==> wantQuery(a[i].(primitive.D), x)
define some(a primitive.A; x any) bool = exists i int :: {a[i]} 0 <= i < len(a) && wantQuery(a[i].(primitive.D), x)
define wantLogical(k string; v any; x any) bool = ite(k == "$not", !wantQuery(v.(primitive.D), x), ite(k == "$and", every(v.(primitive.A), x), ite(k == "$or", some(v.(primitive.A), x), !some(v.(primitive.A), x))))
define hasOps(d primitive.D) bool = exists i int :: {d[i]} 0 <= i < len(d) && hasPrefix(d[i].Key, "$")
define arrKey(k string) bool = k == "$all" || k == "$elemMatch"
define hasArr(d primitive.D) bool = exists i int :: {d[i]} 0 <= i < len(d) && arrKey(d[i].Key)
define okAll(v any) bool = is(v, primitive.A) && forall i int :: {v.(primitive.A)[i]} 0 <= i < len(v.(primitive.A)) ==> okVal(v.(primitive.A)[i])
define okArrOp(k string; v any) bool = ite(k == "$all", okAll(v), k == "$elemMatch" && is(v, primitive.D) && okQuery(v.(primitive.D)))
define hasEq(v any; x any) bool = eqVal(v, x) || (is(x, primitive.A) && exists m int :: {x.(primitive.A)[m]} 0 <= m < len(x.(primitive.A)) && eqVal(v, x.(primitive.A)[m]))
define wantAll(a primitive.A; x any) bool = len(a) > 0 && forall i int :: {a[i]} 0 <= i < len(a) ==> hasEq(a[i], x)
define wantElem(d primitive.D; x any) bool = is(x, primitive.A) && exists m int :: {x.(primitive.A)[m]} 0 <= m < len(x.(primitive.A)) && wantQuery(d, x.(primitive.A)[m])
define wantArrOp(k string; v any; x any) bool = ite(k == "$all", wantAll(v.(primitive.A), x), wantElem(v.(primitive.D), x))
define okFieldOp(k string; v any) bool = ite(k == "$ne", okVal(v), ite(k == "$exists", is(v, bool), okOp(k, v)))
define looked(sel string; kind string; v any; x any) bool = path(sel, 0, kind, v, x)
define wantFieldOp(sel string; k string; v any; x any) bool = ite(k == "$ne", !looked(sel, "=", v, x), ite(k == "$exists", looked(sel, "exists", v, x) == v.(bool), looked(sel, k, v, x)))
define okFieldOps(d primitive.D) bool = forall i int :: {d[i]} 0 <= i < len(d) ==> okFieldOp(d[i].Key, d[i].Value)
define okArrOps(d primitive.D) bool = forall i int :: {d[i]} 0 <= i < len(d) ==> okArrOp(d[i].Key, d[i].Value)
define okField(d primitive.D) bool = ite(hasOps(d), ite(hasArr(d), okArrOps(d), okFieldOps(d)), okDoc(d))
define condDef() bool = forall k string; v any :: {openC(k, v), okCond(k, v)} okCond(k, v) == ite(isLogical(k), okLogical(k, v), !hasPrefix(k, "$") && ite(is(v, primitive.D), okField(v.(primitive.D)), ite(is(v, primitive.A), okArr(v.(primitive.A)), !is(v, primitive.E) && !is(v, primitive.M))))
define wantField(sel string; d primitive.D; v any; x any) bool = ite(hasOps(d), ite(hasArr(d), looked(sel, "arr", v, x), forall i int :: {d[i]} 0 <= i < len(d) ==> fieldOp(sel, d[i].Key, d[i].Value, x)), looked(sel, "=", v, x))
define wantDef() bool = forall k string; v any; x any :: {openC(k, v), wantCond(k, v, x)} wantCond(k, v, x) == ite(isLogical(k), wantLogical(k, v, x), ite(is(v, primitive.D), wantField(k, v.(primitive.D), v, x), looked(k, "=", v, x)))
ufun arrOp(k string; v any; x any) bool
ufun fieldOp(sel string; k string; v any; x any) bool
define opDefs() bool = (forall k string; v any; x any :: {arrOp(k, v, x)} arrOp(k, v, x) == wantArrOp(k, v, x)) && (forall sel string; k string; v any; x any :: {fieldOp(sel, k, v, x)} fieldOp(sel, k, v, x) == wantFieldOp(sel, k, v, x))
define leafDef() bool = (forall v any; x any :: {leaf("=", v, x)} leaf("=", v, x) == hasEq(v, x)) && (forall v any; x any :: {leaf("exists", v, x)} leaf("exists", v, x)) && (forall d any; x any :: {leaf("arr", d, x)} leaf("arr", d, x) == forall i int :: {d.(primitive.D)[i]} 0 <= i < len(d.(primitive.D)) ==> arrOp(d.(primitive.D)[i].Key, d.(primitive.D)[i].Value, x)) && (forall k string; v any; x any :: {leaf(k, v, x)} k != "=" && k != "exists" && k != "arr" ==> leaf(k, v, x) == (opSat(k, v, x) || (is(x, primitive.A) && exists m int :: {x.(primitive.A)[m]} 0 <= m < len(x.(primitive.A)) && opSat(k, v, x.(primitive.A)[m]))))
define language() bool = opDefs() && queryDef() && eqDef() && okDef() && ats() && pathEnd() && pathDef() && condDef() && wantDef() && leafDef() && hasPrefix("$and", "$") && hasPrefix("$not", "$") && hasPrefix("$all", "$") && hasPrefix("$elemMatch", "$")

func ParseFilter(filter) (f, err)
  requires language()
  ensures accepted: (err == nil) == okQuery(filter)
  ensures selects: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == wantQuery(filter, x)
func parseQuery(d) (f, err)
  requires language()
  requires unfold: openQ(d)
  ensures accepted: (err == nil) == okQuery(d)
  ensures selects: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == wantQuery(d, x)
  invariant ok: forall i int :: {d[i]} 0 <= i < $k ==> okCond(d[i].Key, d[i].Value)
  invariant <filters []query.Filter> count: len(filters) == $k && forall i int :: {filters[i]} 0 <= i < $k ==> filters[i] != nil
  invariant <filters []query.Filter> each: forall i int; x any :: {sat(filters[i], x)} {wantCond(d[i].Key, d[i].Value, x)} 0 <= i < $k ==> sat(filters[i], x) == wantCond(d[i].Key, d[i].Value, x)
func parseQueries(a) (fs, err)
  requires language()
  ensures accepted: (err == nil) == okQueries(a)
  ensures none: err != nil ==> len(fs) == 0
  ensures built: err == nil ==> len(fs) == len(a) && forall i int :: {fs[i]} 0 <= i < len(fs) ==> fs[i] != nil
  ensures selects: err == nil ==> forall i int; x any :: {sat(fs[i], x)} {wantQuery(a[i].(primitive.D), x)} 0 <= i < len(a) ==> sat(fs[i], x) == wantQuery(a[i].(primitive.D), x)
  invariant ok: forall i int :: {a[i]} 0 <= i < $k ==> is(a[i], primitive.D) && okQuery(a[i].(primitive.D))
  invariant <filters []query.Filter> count: len(filters) == $k && forall i int :: {filters[i]} 0 <= i < $k ==> filters[i] != nil
  invariant <filters []query.Filter> each: forall i int; x any :: {sat(filters[i], x)} 0 <= i < $k ==> sat(filters[i], x) == wantQuery(a[i].(primitive.D), x)
func parseLogicalOperator(e) (f, err)
  requires language()
  ensures other: !isLogical(e.Key) ==> f == nil && err == nil
  ensures accepted: isLogical(e.Key) ==> (err == nil) == okLogical(e.Key, e.Value)
  ensures selects: isLogical(e.Key) && err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == wantLogical(e.Key, e.Value, x)
func parseArrayOperator(e) (f, err)
  requires language()
  ensures other: !arrKey(e.Key) ==> f == nil && err == nil
  ensures accepted: arrKey(e.Key) ==> (err == nil) == okArrOp(e.Key, e.Value)
  ensures selects: arrKey(e.Key) && err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == wantArrOp(e.Key, e.Value, x)
  invariant okPrefix: forall i int :: {e.Value.(primitive.A)[i]} 0 <= i < $k ==> okVal(e.Value.(primitive.A)[i])
  invariant <filters []query.Filter> count: len(filters) == $k && forall i int :: {filters[i]} 0 <= i < $k ==> filters[i] != nil
  invariant <filters []query.Filter> each: forall i int; x any :: {sat(filters[i], x)} {eqVal(e.Value.(primitive.A)[i], x)} 0 <= i < $k ==> sat(filters[i], x) == eqVal(e.Value.(primitive.A)[i], x)
func parseArrayOperators(d) (f, err)
  requires language()
  ensures none: err == nil && !hasArr(d) ==> f == nil
  ensures accepted: hasArr(d) ==> (err == nil) == okArrOps(d)
  ensures plain: !hasArr(d) ==> err == nil
  ensures selects: err == nil && hasArr(d) ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == forall i int :: {d[i]} 0 <= i < len(d) ==> arrOp(d[i].Key, d[i].Value, x)
  invariant <filters []query.Filter> range: len(filters) <= $k && forall i int :: {filters[i]} 0 <= i < len(filters) ==> filters[i] != nil
  invariant <filters []query.Filter> noneYet: len(filters) == 0 <==> forall i int :: {d[i]} 0 <= i < $k ==> !arrKey(d[i].Key)
  invariant <filters []query.Filter> mixed: len(filters) < $k <==> exists i int :: {d[i]} 0 <= i < $k && !arrKey(d[i].Key)
  invariant ok: forall i int :: {d[i]} 0 <= i < $k ==> arrKey(d[i].Key) ==> okArrOp(d[i].Key, d[i].Value)
  invariant <filters []query.Filter> each: len(filters) == $k ==> forall i int; x any :: {sat(filters[i], x)} {arrOp(d[i].Key, d[i].Value, x)} 0 <= i < $k ==> sat(filters[i], x) == arrOp(d[i].Key, d[i].Value, x)
func parseValueOperators(key, d) (f, err)
  requires language()
  ensures accepted: (err == nil) == okFieldOps(d)
  ensures selects: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == forall i int :: {d[i]} 0 <= i < len(d) ==> fieldOp(key, d[i].Key, d[i].Value, x)
  invariant ok: forall i int :: {d[i]} 0 <= i < $k ==> okFieldOp(d[i].Key, d[i].Value)
  invariant <filters []query.Filter> count: len(filters) == $k && forall i int :: {filters[i]} 0 <= i < $k ==> filters[i] != nil
  invariant <filters []query.Filter> each: forall i int; x any :: {sat(filters[i], x)} {fieldOp(key, d[i].Key, d[i].Value, x)} 0 <= i < $k ==> sat(filters[i], x) == fieldOp(key, d[i].Key, d[i].Value, x)
func parseFilterCondition(e) (f, err)
  requires language()
  requires unfold: openC(e.Key, e.Value)
  requires unfold2: open(e.Value)
  ensures accepted: (err == nil) == okCond(e.Key, e.Value)
  ensures selects: err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == wantCond(e.Key, e.Value, x)
  invariant <ops bool> plain: ops == false && forall i int :: {e.Value.(primitive.D)[i]} 0 <= i < $k ==> !hasPrefix(e.Value.(primitive.D)[i].Key, "$")
