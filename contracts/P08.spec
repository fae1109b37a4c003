property P08
include std.inc
bounded dir=runtime/plugins/simplenosqldb file=P08_update_test.go run=TestVerifP08Updates
package query = "github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
load backend = "github.com/blueprint-uservices/blueprint/runtime/core/backend"
load bson = "go.mongodb.org/mongo-driver/bson"
load bsontype = "go.mongodb.org/mongo-driver/bson/bsontype"
load primitive = "go.mongodb.org/mongo-driver/bson/primitive"
load reflect = "reflect"

// becomes(u, x, y): the update u turns the value x into y; applies(u, x): u can be applied to x.  Every kind of update
// defines them in terms of its parts; each Apply is checked against the definition of its own kind and, for its
// parts, the contract of Update.Apply.
ufun becomes(u any; x any; y any) bool
ufun applies(u any; x any) bool
define cellRef(r any) bool = is(r, *any) && r.(*any) != nil
iface query.Update.Apply(u, itemRef) (err)
  requires cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures (err == nil) == applies(u, old(*(itemRef.(*any))))
  ensures err == nil ==> becomes(u, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))

// ---------------------------------------------------------------- helpers: see property P06
define rootRef(r any) bool = is(r, *primitive.D) && r.(*primitive.D) != nil
define same(y primitive.D; d primitive.D) bool = len(y) == len(d) && forall i int :: {y[i]} {d[i]} 0 <= i < len(d) ==> y[i] == d[i]
extern backend.GetPointerValue(val) (v, err)
  pure
  ensures cellRef(val) ==> err == nil && v == *(val.(*any))
  ensures rootRef(val) ==> err == nil && v == any(*(val.(*primitive.D)))
extern backend.CopyResult(src, dst) (err)
  modifies *ite(is(dst, *any), dst.(*any), zero(*any)), *ite(is(dst, *primitive.D), dst.(*primitive.D), zero(*primitive.D))
  ensures cellRef(dst) ==> err == nil && *(dst.(*any)) == src
  ensures rootRef(dst) && is(src, primitive.D) ==> err == nil && same(*(dst.(*primitive.D)), src.(primitive.D))
  ensures rootRef(dst) && err != nil ==> *(dst.(*primitive.D)) == old(*(dst.(*primitive.D)))
// decoded(t, b, v): v is a value that the bytes b of type t encode
ufun decoded(t bsontype.Type; b []byte; v any) bool
ufun decodes(t bsontype.Type; b []byte) bool
extern reflect.TypeOf(x) (t)
  pure
extern bson.UnmarshalValue(t, b, val) (err)
  modifies *ite(is(val, *any), val.(*any), zero(*any))
  ensures (err == nil) == decodes(t, b)
  ensures err == nil && cellRef(val) ==> decoded(t, b, *(val.(*any)))

// ---------------------------------------------------------------- arrays
define isArr(x any) bool = x == nil || is(x, primitive.A)
define size(x any) int = ite(x == nil, 0, len(x.(primitive.A)))
define extended(x any; y any) bool = is(y, primitive.A) && len(y.(primitive.A)) == size(x) + 1 && (x != nil ==> forall i int :: {x.(primitive.A)[i]} {y.(primitive.A)[i]} 0 <= i < size(x) ==> y.(primitive.A)[i] == x.(primitive.A)[i])
func (*push).Apply(p, itemRef) (err)
  requires p != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == (decodes(p.t, p.value) && isArr(old(*(itemRef.(*any)))))
  ensures appended: err == nil ==> extended(old(*(itemRef.(*any))), *(itemRef.(*any))) && decoded(p.t, p.value, (*(itemRef.(*any))).(primitive.A)[size(old(*(itemRef.(*any))))])
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))

// equal numbers of different types are the same element of a set
ufun same2(a any; b any) bool
ufun eqs(a any; b any) bool
extern query.Equals(v) (f)
  ensures f != nil && forall x any :: {sat(f, x)} sat(f, x) == eqs(v, x)
ufun sat(f any; x any) bool
iface query.Filter.Apply(f, item) (r)
  ensures r == sat(f, item)
func equalValues(a, b) (r)
  ensures documents: is(a, primitive.D) ==> r == (is(b, primitive.D) && len(a.(primitive.D)) == len(b.(primitive.D)) && forall i int :: {a.(primitive.D)[i]} {b.(primitive.D)[i]} 0 <= i < len(a.(primitive.D)) ==> a.(primitive.D)[i].Key == b.(primitive.D)[i].Key && same2(a.(primitive.D)[i].Value, b.(primitive.D)[i].Value))
  ensures arrays: is(a, primitive.A) ==> r == (is(b, primitive.A) && len(a.(primitive.A)) == len(b.(primitive.A)) && forall i int :: {a.(primitive.A)[i]} {b.(primitive.A)[i]} 0 <= i < len(a.(primitive.A)) ==> same2(a.(primitive.A)[i], b.(primitive.A)[i]))
  ensures others: !is(a, primitive.D) && !is(a, primitive.A) ==> r == eqs(a, b)
  defines r == same2(a, b)
  invariant arr: is(a, primitive.A) && is(b, primitive.A) ==> forall i int :: {a.(primitive.A)[i]} {b.(primitive.A)[i]} 0 <= i < $k ==> same2(a.(primitive.A)[i], b.(primitive.A)[i])
  invariant doc: is(a, primitive.D) && is(b, primitive.D) ==> forall i int :: {a.(primitive.D)[i]} {b.(primitive.D)[i]} 0 <= i < $k ==> a.(primitive.D)[i].Key == b.(primitive.D)[i].Key && same2(a.(primitive.D)[i].Value, b.(primitive.D)[i].Value)
func (*addtoset).Apply(p, itemRef) (err)
  requires p != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == (decodes(p.t, p.value) && isArr(old(*(itemRef.(*any)))))
  ensures added: err == nil ==> exists v any :: {decoded(p.t, p.value, v)} decoded(p.t, p.value, v) && ite(old(*(itemRef.(*any))) != nil && exists i int :: {old(*(itemRef.(*any))).(primitive.A)[i]} 0 <= i < size(old(*(itemRef.(*any)))) && same2(v, old(*(itemRef.(*any))).(primitive.A)[i]), *(itemRef.(*any)) == old(*(itemRef.(*any))), extended(old(*(itemRef.(*any))), *(itemRef.(*any))) && (*(itemRef.(*any))).(primitive.A)[size(old(*(itemRef.(*any))))] == v)
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  invariant <v any; a primitive.A> absent: forall i int :: {a[i]} 0 <= i < $k ==> !same2(v, a[i])

func (*unsetelement).Apply(u, itemRef) (err)
  requires u != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == (old(*(itemRef.(*any))) == nil || is(old(*(itemRef.(*any))), primitive.A) && u.index >= 0)
  ensures absent: err == nil && (old(*(itemRef.(*any))) == nil || u.index >= size(old(*(itemRef.(*any))))) ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  ensures nulled: err == nil && old(*(itemRef.(*any))) != nil && u.index < size(old(*(itemRef.(*any)))) ==> is(*(itemRef.(*any)), primitive.A) && size(*(itemRef.(*any))) == size(old(*(itemRef.(*any)))) && (*(itemRef.(*any))).(primitive.A)[u.index] == nil && forall i int :: {(*(itemRef.(*any))).(primitive.A)[i]} 0 <= i < size(*(itemRef.(*any))) && i != u.index ==> (*(itemRef.(*any))).(primitive.A)[i] == old(*(itemRef.(*any))).(primitive.A)[i]
  ensures means: err == nil ==> nullB(u.index, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))

// cnt(i): how many of the first i elements match the condition of a $pull
ufun cnt(i int) int
define counts(p *query.pull; x any) bool = cnt(0) == 0 && (is(x, primitive.A) ==> forall i int :: {x.(primitive.A)[i]} {cnt(i)} 0 <= i < len(x.(primitive.A)) ==> cnt(i + 1) == cnt(i) + ite(sat(p.filter, x.(primitive.A)[i]), 1, 0))
func (*pull).Apply(p, itemRef) (err)
  requires p != nil && p.filter != nil && cellRef(itemRef)
  requires definition: counts(p, *(itemRef.(*any)))
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == isArr(old(*(itemRef.(*any))))
  ensures none: err == nil && (old(*(itemRef.(*any))) == nil || cnt(size(old(*(itemRef.(*any))))) == 0) ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  ensures removed: err == nil && old(*(itemRef.(*any))) != nil && cnt(size(old(*(itemRef.(*any))))) > 0 ==> is(*(itemRef.(*any)), primitive.A) && size(*(itemRef.(*any))) == size(old(*(itemRef.(*any)))) - cnt(size(old(*(itemRef.(*any)))))
  ensures kept: err == nil && old(*(itemRef.(*any))) != nil && cnt(size(old(*(itemRef.(*any))))) > 0 ==> forall i int :: {old(*(itemRef.(*any))).(primitive.A)[i]} 0 <= i < size(old(*(itemRef.(*any)))) && !sat(p.filter, old(*(itemRef.(*any))).(primitive.A)[i]) ==> i - cnt(i) < size(*(itemRef.(*any))) && (*(itemRef.(*any))).(primitive.A)[i - cnt(i)] == old(*(itemRef.(*any))).(primitive.A)[i]
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  invariant range: 0 <= cnt($k) && cnt($k) <= $k
  invariant <r primitive.A> null: (r == zero(primitive.A)) == (cnt($k) == 0)
  invariant <r primitive.A> own: r == zero(primitive.A) || fresh(r)
  invariant below: forall j int :: {cnt(j)} 0 <= j && j <= $k ==> 0 <= cnt(j) && cnt(j) <= j && cnt(j) <= cnt($k)
  invariant keptIn: old(*(itemRef.(*any))) != nil ==> forall j int :: {old(*(itemRef.(*any))).(primitive.A)[j]} 0 <= j < $k ==> j - cnt(j) + ite(sat(p.filter, old(*(itemRef.(*any))).(primitive.A)[j]), 0, 1) <= $k - cnt($k)
  invariant <r primitive.A> length: r != zero(primitive.A) ==> len(r) == $k - cnt($k)
  invariant <r primitive.A> kept: old(*(itemRef.(*any))) != nil && r != zero(primitive.A) ==> forall j int :: {old(*(itemRef.(*any))).(primitive.A)[j]} 0 <= j < $k && !sat(p.filter, old(*(itemRef.(*any))).(primitive.A)[j]) ==> r[j - cnt(j)] == old(*(itemRef.(*any))).(primitive.A)[j]

// ---------------------------------------------------------------- numbers
define isInt(x any) bool = is(x, int) || is(x, int8) || is(x, int16) || is(x, int32) || is(x, int64)
define int64Of(x any) int = ite(is(x, int), x.(int), ite(is(x, int8), x.(int8), ite(is(x, int16), x.(int16), ite(is(x, int32), x.(int32), x.(int64)))))
define num(x any) int = ite(x == nil, 0, int64Of(x))
define fits64(n int) bool = -9223372036854775808 <= n && n <= 9223372036854775807
func (*incint).Apply(i, itemRef) (err)
  option wrap64
  requires i != nil && cellRef(itemRef)
  requires typeRange: fits64(i.amount) && fits64(num(*(itemRef.(*any))))
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == (is(old(*(itemRef.(*any))), float32) || is(old(*(itemRef.(*any))), float64) || (old(*(itemRef.(*any))) == nil || isInt(old(*(itemRef.(*any))))) && fits64(num(old(*(itemRef.(*any)))) + i.amount))
  ensures sum: err == nil && (old(*(itemRef.(*any))) == nil || isInt(old(*(itemRef.(*any))))) ==> isInt(*(itemRef.(*any))) && int64Of(*(itemRef.(*any))) == num(old(*(itemRef.(*any)))) + i.amount
  ensures float64: err == nil && is(old(*(itemRef.(*any))), float64) ==> *(itemRef.(*any)) == any(old(*(itemRef.(*any))).(float64) + float64(i.amount))
  ensures type: err == nil ==> (is(old(*(itemRef.(*any))), int32) && -2147483648 <= num(old(*(itemRef.(*any)))) + i.amount && num(old(*(itemRef.(*any)))) + i.amount <= 2147483647 ==> is(*(itemRef.(*any)), int32)) && (old(*(itemRef.(*any))) == nil || is(old(*(itemRef.(*any))), int64) ==> is(*(itemRef.(*any)), int64))
  ensures means: err == nil ==> incB(i.amount, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))

// ---------------------------------------------------------------- documents
define firstField(d primitive.D; key string; i int) bool = 0 <= i < len(d) && d[i].Key == key && forall j int :: {d[j]} 0 <= j < i ==> d[j].Key != key
define absent(d primitive.D; key string) bool = forall j int :: {d[j]} 0 <= j < len(d) ==> d[j].Key != key
func (*unsetfield).Apply(u, itemRef) (err)
  requires u != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == (old(*(itemRef.(*any))) == nil || is(old(*(itemRef.(*any))), primitive.D))
  ensures absent: err == nil && (old(*(itemRef.(*any))) == nil || absent(old(*(itemRef.(*any))).(primitive.D), u.fieldName)) ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  ensures removed: err == nil && old(*(itemRef.(*any))) != nil ==> forall i int :: {old(*(itemRef.(*any))).(primitive.D)[i]} firstField(old(*(itemRef.(*any))).(primitive.D), u.fieldName, i) ==> is(*(itemRef.(*any)), primitive.D) && len((*(itemRef.(*any))).(primitive.D)) == len(old(*(itemRef.(*any))).(primitive.D)) - 1 && (forall j int :: {(*(itemRef.(*any))).(primitive.D)[j]} 0 <= j < i ==> (*(itemRef.(*any))).(primitive.D)[j] == old(*(itemRef.(*any))).(primitive.D)[j]) && forall j int :: {(*(itemRef.(*any))).(primitive.D)[j]} i <= j < len((*(itemRef.(*any))).(primitive.D)) ==> (*(itemRef.(*any))).(primitive.D)[j] == old(*(itemRef.(*any))).(primitive.D)[j + 1]
  ensures means: err == nil ==> dropFieldB(u.fieldName, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  invariant <v primitive.D> notYet: forall j int :: {v[j]} 0 <= j < $k ==> v[j].Key != u.fieldName

func (*updatefield).Apply(s, itemRef) (err)
  requires s != nil && s.update != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures document: err == nil ==> old(*(itemRef.(*any))) == nil || is(old(*(itemRef.(*any))), primitive.D)
  ensures present: is(old(*(itemRef.(*any))), primitive.D) ==> forall i int :: {old(*(itemRef.(*any))).(primitive.D)[i]} firstField(old(*(itemRef.(*any))).(primitive.D), s.fieldName, i) ==> (err == nil) == applies(s.update, old(*(itemRef.(*any))).(primitive.D)[i].Value) && (err == nil ==> is(*(itemRef.(*any)), primitive.D) && len((*(itemRef.(*any))).(primitive.D)) == len(old(*(itemRef.(*any))).(primitive.D)) && (*(itemRef.(*any))).(primitive.D)[i].Key == s.fieldName && becomes(s.update, old(*(itemRef.(*any))).(primitive.D)[i].Value, (*(itemRef.(*any))).(primitive.D)[i].Value) && forall j int :: {(*(itemRef.(*any))).(primitive.D)[j]} 0 <= j < len((*(itemRef.(*any))).(primitive.D)) && j != i ==> (*(itemRef.(*any))).(primitive.D)[j] == old(*(itemRef.(*any))).(primitive.D)[j])
  ensures ignored: !s.createIfAbsent && (old(*(itemRef.(*any))) == nil || is(old(*(itemRef.(*any))), primitive.D) && absent(old(*(itemRef.(*any))).(primitive.D), s.fieldName)) ==> err == nil && *(itemRef.(*any)) == old(*(itemRef.(*any)))
  ensures created: s.createIfAbsent && (old(*(itemRef.(*any))) == nil || is(old(*(itemRef.(*any))), primitive.D) && absent(old(*(itemRef.(*any))).(primitive.D), s.fieldName)) ==> (err == nil) == applies(s.update, nil) && (err == nil ==> is(*(itemRef.(*any)), primitive.D) && len((*(itemRef.(*any))).(primitive.D)) == ite(old(*(itemRef.(*any))) == nil, 0, len(old(*(itemRef.(*any))).(primitive.D))) + 1 && (*(itemRef.(*any))).(primitive.D)[len((*(itemRef.(*any))).(primitive.D)) - 1].Key == s.fieldName && becomes(s.update, nil, (*(itemRef.(*any))).(primitive.D)[len((*(itemRef.(*any))).(primitive.D)) - 1].Value) && forall j int :: {(*(itemRef.(*any))).(primitive.D)[j]} 0 <= j < len((*(itemRef.(*any))).(primitive.D)) - 1 ==> (*(itemRef.(*any))).(primitive.D)[j] == old(*(itemRef.(*any))).(primitive.D)[j])
  ensures means: err == nil ==> fieldB(s.fieldName, s.createIfAbsent, s.update, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures can: (err == nil) == fieldC(s.fieldName, s.createIfAbsent, s.update, old(*(itemRef.(*any))))
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  invariant <v primitive.D> notYet: forall j int :: {v[j]} 0 <= j < $k ==> v[j].Key != s.fieldName

func (*updateindex).Apply(s, itemRef) (err)
  requires s != nil && s.update != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures array: err == nil ==> isArr(old(*(itemRef.(*any)))) && (s.index >= 0 || old(*(itemRef.(*any))) == nil)
  ensures ignored: !s.createIfAbsent && isArr(old(*(itemRef.(*any)))) && s.index >= size(old(*(itemRef.(*any)))) ==> err == nil && *(itemRef.(*any)) == old(*(itemRef.(*any)))
  ensures element: isArr(old(*(itemRef.(*any)))) && 0 <= s.index && s.index < size(old(*(itemRef.(*any)))) ==> (err == nil) == applies(s.update, old(*(itemRef.(*any))).(primitive.A)[s.index]) && (err == nil ==> is(*(itemRef.(*any)), primitive.A) && size(*(itemRef.(*any))) == size(old(*(itemRef.(*any)))) && becomes(s.update, old(*(itemRef.(*any))).(primitive.A)[s.index], (*(itemRef.(*any))).(primitive.A)[s.index]) && forall j int :: {(*(itemRef.(*any))).(primitive.A)[j]} 0 <= j < size(*(itemRef.(*any))) && j != s.index ==> (*(itemRef.(*any))).(primitive.A)[j] == old(*(itemRef.(*any))).(primitive.A)[j])
  ensures padded: s.createIfAbsent && isArr(old(*(itemRef.(*any)))) && s.index >= size(old(*(itemRef.(*any)))) ==> (err == nil) == applies(s.update, nil) && (err == nil ==> is(*(itemRef.(*any)), primitive.A) && size(*(itemRef.(*any))) == s.index + 1 && becomes(s.update, nil, (*(itemRef.(*any))).(primitive.A)[s.index]) && forall j int :: {(*(itemRef.(*any))).(primitive.A)[j]} 0 <= j < s.index ==> (*(itemRef.(*any))).(primitive.A)[j] == ite(j < size(old(*(itemRef.(*any)))), old(*(itemRef.(*any))).(primitive.A)[j], nil))
  ensures means: err == nil ==> indexB(s.index, s.createIfAbsent, s.update, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures can: (err == nil) == indexC(s.index, s.createIfAbsent, s.update, old(*(itemRef.(*any))))
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
  invariant <v primitive.A> own: v == zero(primitive.A) || fresh(v)
  invariant <v primitive.A> longer: len(v) == size(old(*(itemRef.(*any)))) + $k
  invariant <v primitive.A> shorter: len(v) <= s.index + 1 || len(v) == size(old(*(itemRef.(*any))))
  invariant <v primitive.A> kept: old(*(itemRef.(*any))) != nil ==> forall j int :: {v[j]} 0 <= j < size(old(*(itemRef.(*any)))) ==> v[j] == old(*(itemRef.(*any))).(primitive.A)[j]
  invariant <v primitive.A> nulls: forall j int :: {v[j]} size(old(*(itemRef.(*any)))) <= j && j < len(v) ==> v[j] == nil

// ---------------------------------------------------------------- set, broadcast: the reflect package
// target(v): the pointer to the location that the addressable value v designates
ufun valOf(v reflect.Value) any
ufun target(v reflect.Value) any
ufun kindAt(v reflect.Value) int
extern reflect.ValueOf(x) (v)
  pure
  ensures valOf(v) == x && (is(x, *any) || is(x, *primitive.D) ==> kindAt(v) == 22)
extern reflect.(Value).Kind(v) (k)
  pure
  ensures k == kindAt(v)
extern reflect.(Value).IsNil(v) (r)
  pure
  requires kindAt(v) == 22
  ensures is(valOf(v), *any) ==> r == (valOf(v).(*any) == nil)
extern reflect.Indirect(v) (r)
  pure
  ensures cellRef(valOf(v)) ==> target(r) == valOf(v) && kindAt(r) == 20
extern reflect.(Value).Elem(v) (r)
  pure
  requires kindAt(v) == 22
  ensures cellRef(valOf(v)) ==> target(r) == valOf(v) && kindAt(r) == 20
extern reflect.(Value).Set(v, w)
  requires cellRef(target(v)) && cellRef(target(w))
  modifies *(target(v).(*any))
  ensures *(target(v).(*any)) == old(*(target(w).(*any)))
func (*set).Apply(s, itemRef) (err)
  requires s != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures applies: (err == nil) == decodes(s.t, s.value)
  ensures stored: err == nil ==> decoded(s.t, s.value, *(itemRef.(*any)))
  ensures unchanged: err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))
func (*broadcastupdate).Apply(b, itemRef) (err)
  requires b != nil && b.update != nil && cellRef(itemRef)
  modifies *(itemRef.(*any))
  ensures (err == nil) == applies(b.update, old(*(itemRef.(*any))))
  ensures err == nil ==> becomes(b.update, old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures err != nil ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))

// ---------------------------------------------------------------- several updates, one after the other
// reaches(u, n, x, y): the first n updates of u turn x into y, one after the other (the least such relation)
ufun reaches(u *query.updateall; n int; x any; y any) bool
define reachesDef(u *query.updateall) bool = (forall x any :: {reaches(u, 0, x, x)} reaches(u, 0, x, x)) && (forall i int; x any; y any; z any :: {reaches(u, i, x, y), becomes(u.updates[i], y, z)} 0 <= i < len(u.updates) && reaches(u, i, x, y) && becomes(u.updates[i], y, z) ==> reaches(u, i + 1, x, z))
define goodList(us []query.Update) bool = forall i int :: {us[i]} 0 <= i < len(us) ==> us[i] != nil
define cellVal(r any) any = ite(is(r, *any), *(r.(*any)), any(*(r.(*primitive.D))))
func (*updateall).Apply(a, itemRef) (err)
  requires a != nil && goodList(a.updates) && (cellRef(itemRef) || rootRef(itemRef))
  requires definition: reachesDef(a)
  modifies *ite(is(itemRef, *any), itemRef.(*any), zero(*any)), *ite(is(itemRef, *primitive.D), itemRef.(*primitive.D), zero(*primitive.D))
  ensures updated: err == nil && cellRef(itemRef) ==> reaches(a, len(a.updates), old(*(itemRef.(*any))), *(itemRef.(*any)))
  ensures document: err == nil && rootRef(itemRef) ==> exists y any :: {reaches(a, len(a.updates), any(old(*(itemRef.(*primitive.D)))), y)} reaches(a, len(a.updates), any(old(*(itemRef.(*primitive.D)))), y) && (is(y, primitive.D) ==> same(*(itemRef.(*primitive.D)), y.(primitive.D)))
  ensures failed: err != nil && cellRef(itemRef) ==> exists i int; y any :: {reaches(a, i, old(*(itemRef.(*any))), y)} 0 <= i < len(a.updates) && reaches(a, i, old(*(itemRef.(*any))), y) && !applies(a.updates[i], y)
  ensures unchanged: err != nil ==> (cellRef(itemRef) ==> *(itemRef.(*any)) == old(*(itemRef.(*any)))) && (rootRef(itemRef) ==> *(itemRef.(*primitive.D)) == old(*(itemRef.(*primitive.D))))
  invariant <v any> sofar: reaches(a, $k, old(cellVal(itemRef)), v)

// ---------------------------------------------------------------- what the constructors return
// the meaning of a part's Apply is the definition of becomes and applies for the object that its constructor returns
define len0(x any) int = ite(x == nil, 0, len(x.(primitive.D)))
define noField(x any; k string) bool = x == nil || is(x, primitive.D) && absent(x.(primitive.D), k)
define isDoc(x any) bool = x == nil || is(x, primitive.D)
define fieldB(k string; c bool; u any; x any; y any) bool = isDoc(x) && (is(x, primitive.D) ==> forall i int :: {x.(primitive.D)[i]} firstField(x.(primitive.D), k, i) ==> is(y, primitive.D) && len(y.(primitive.D)) == len(x.(primitive.D)) && y.(primitive.D)[i].Key == k && becomes(u, x.(primitive.D)[i].Value, y.(primitive.D)[i].Value) && forall j int :: {y.(primitive.D)[j]} 0 <= j < len(y.(primitive.D)) && j != i ==> y.(primitive.D)[j] == x.(primitive.D)[j]) && (noField(x, k) ==> ite(c, is(y, primitive.D) && len(y.(primitive.D)) == len0(x) + 1 && y.(primitive.D)[len0(x)].Key == k && becomes(u, nil, y.(primitive.D)[len0(x)].Value) && forall j int :: {y.(primitive.D)[j]} 0 <= j < len0(x) ==> y.(primitive.D)[j] == x.(primitive.D)[j], y == x))
define fieldC(k string; c bool; u any; x any) bool = isDoc(x) && (is(x, primitive.D) ==> forall i int :: {x.(primitive.D)[i]} firstField(x.(primitive.D), k, i) ==> applies(u, x.(primitive.D)[i].Value)) && (noField(x, k) && c ==> applies(u, nil))
define indexB(n int; c bool; u any; x any; y any) bool = ite(x == nil && !c, y == x, isArr(x) && n >= 0 && ite(n < size(x), is(y, primitive.A) && size(y) == size(x) && becomes(u, x.(primitive.A)[n], y.(primitive.A)[n]) && (forall j int :: {y.(primitive.A)[j]} 0 <= j < size(y) && j != n ==> y.(primitive.A)[j] == x.(primitive.A)[j]), ite(c, is(y, primitive.A) && size(y) == n + 1 && becomes(u, nil, y.(primitive.A)[n]) && (forall j int :: {y.(primitive.A)[j]} 0 <= j < n ==> y.(primitive.A)[j] == ite(j < size(x), x.(primitive.A)[j], nil)), y == x)))
define indexC(n int; c bool; u any; x any) bool = x == nil && !c || isArr(x) && n >= 0 && (n < size(x) ==> applies(u, x.(primitive.A)[n])) && (n >= size(x) && c ==> applies(u, nil))
define dropFieldB(k string; x any; y any) bool = isDoc(x) && (noField(x, k) ==> y == x) && (is(x, primitive.D) ==> forall i int :: {x.(primitive.D)[i]} firstField(x.(primitive.D), k, i) ==> is(y, primitive.D) && len(y.(primitive.D)) == len(x.(primitive.D)) - 1 && (forall j int :: {y.(primitive.D)[j]} 0 <= j < i ==> y.(primitive.D)[j] == x.(primitive.D)[j]) && forall j int :: {y.(primitive.D)[j]} i <= j < len(y.(primitive.D)) ==> y.(primitive.D)[j] == x.(primitive.D)[j + 1])
define nullB(n int; x any; y any) bool = ite(x == nil, y == x, is(x, primitive.A) && n >= 0 && ite(n < size(x), is(y, primitive.A) && size(y) == size(x) && y.(primitive.A)[n] == nil && (forall i int :: {y.(primitive.A)[i]} 0 <= i < size(y) && i != n ==> y.(primitive.A)[i] == x.(primitive.A)[i]), y == x))
define incB(n int; x any; y any) bool = (is(x, float64) ==> y == any(x.(float64) + float64(n))) && (x == nil || isInt(x) ==> isInt(y) && int64Of(y) == num(x) + n && (is(x, int32) && -2147483648 <= num(x) + n && num(x) + n <= 2147483647 ==> is(y, int32)) && (x == nil || is(x, int64) ==> is(y, int64)))
define incC(n int; x any) bool = is(x, float32) || is(x, float64) || (x == nil || isInt(x)) && fits64(num(x) + n)
// encodable(v): v can be marshalled; encodes(v, y): y is what v becomes when it is marshalled and unmarshalled
ufun encodable(v any) bool
ufun encodes(v any; y any) bool
// storable, stores: the same, but nil is stored as the null value (which has no bytes)
ufun storable(v any) bool
ufun stores(v any; y any) bool
define nulls() bool = forall t bsontype.Type; b []byte; y any :: {decoded(t, b, y)} t == 10 && len(b) == 0 ==> decodes(t, b) && decoded(t, b, y) == (y == nil)
define nullOK() bool = forall t bsontype.Type; b []byte :: {decodes(t, b)} t == 10 && len(b) == 0 ==> decodes(t, b)
define storing() bool = nulls() && nullOK() && (forall v any :: {storable(v)} storable(v) == (v == nil || encodable(v))) && forall v any; y any :: {stores(v, y)} stores(v, y) == ite(v == nil, y == nil, encodes(v, y))
extern bson.MarshalValue(v) (t, b, err)
  ensures (err == nil) == encodable(v) && (err == nil ==> decodes(t, b) && forall y any :: {decoded(t, b, y)} decoded(t, b, y) == encodes(v, y))
define pushB(v any; x any; y any) bool = isArr(x) && extended(x, y) && stores(v, y.(primitive.A)[size(x)])
define addB(v any; x any; y any) bool = isArr(x) && exists w any :: {stores(v, w)} stores(v, w) && ite(x != nil && exists i int :: {x.(primitive.A)[i]} 0 <= i < size(x) && same2(w, x.(primitive.A)[i]), y == x, extended(x, y) && y.(primitive.A)[size(x)] == w)
// pushed, added: names for pushB and addB
ufun pushed(v any; x any; y any) bool
ufun added(v any; x any; y any) bool
func SetValue(value) (r, err)
  requires storing()
  ensures ok: (err == nil) == storable(value) && r != nil
  ensures kind: err == nil ==> is(r, *query.set) && decodes(r.(*query.set).t, r.(*query.set).value) && forall y any :: {stores(value, y)} decoded(r.(*query.set).t, r.(*query.set).value, y) == stores(value, y)
  defines err == nil ==> (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == stores(value, y)) && forall x any :: {applies(r, x)} applies(r, x)
func PushValue(value) (r, err)
  requires storing()
  ensures ok: (err == nil) == storable(value) && r != nil
  ensures kind: err == nil ==> is(r, *query.push) && decodes(r.(*query.push).t, r.(*query.push).value) && forall y any :: {stores(value, y)} decoded(r.(*query.push).t, r.(*query.push).value, y) == stores(value, y)
  defines err == nil ==> (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == pushed(value, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == isArr(x)
func AddToSet(value) (r, err)
  requires storing()
  ensures ok: (err == nil) == storable(value) && r != nil
  ensures kind: err == nil ==> is(r, *query.addtoset) && decodes(r.(*query.addtoset).t, r.(*query.addtoset).value) && forall y any :: {stores(value, y)} decoded(r.(*query.addtoset).t, r.(*query.addtoset).value, y) == stores(value, y)
  defines err == nil ==> (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == added(value, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == isArr(x)
// pulled(f, x, y): y is x without the elements that f selects; defined by the contract of (*pull).Apply
ufun pulled(f any; x any; y any) bool
func PullMatches(filter) (r, err)
  ensures kind: err == nil && r != nil && is(r, *query.pull) && r.(*query.pull).filter == filter
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == pulled(filter, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == isArr(x)
func UnsetField(fieldName) (r)
  ensures kind: r != nil && is(r, *query.unsetfield) && r.(*query.unsetfield).fieldName == fieldName
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == dropFieldB(fieldName, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == isDoc(x)
func UnsetElement(index) (r)
  ensures kind: r != nil && is(r, *query.unsetelement) && r.(*query.unsetelement).index == index
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == nullB(index, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == (x == nil || is(x, primitive.A) && index >= 0)
func IncInt(amount) (r)
  ensures kind: r != nil && is(r, *query.incint) && r.(*query.incint).amount == amount
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == incB(amount, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == incC(amount, x)
func UpdateField(fieldName, update, createIfAbsent) (r)
  ensures kind: r != nil && is(r, *query.updatefield) && r.(*query.updatefield).fieldName == fieldName && r.(*query.updatefield).update == update && r.(*query.updatefield).createIfAbsent == createIfAbsent
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == fieldB(fieldName, createIfAbsent, update, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == fieldC(fieldName, createIfAbsent, update, x)
func UpdateIndex(index, update, createIfAbsent) (r)
  ensures kind: r != nil && is(r, *query.updateindex) && r.(*query.updateindex).index == index && r.(*query.updateindex).update == update && r.(*query.updateindex).createIfAbsent == createIfAbsent
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == indexB(index, createIfAbsent, update, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == indexC(index, createIfAbsent, update, x)
func BroadcastUpdate(update) (r)
  ensures kind: r != nil && is(r, *query.broadcastupdate) && r.(*query.broadcastupdate).update == update
  defines (forall x any; y any :: {becomes(r, x, y)} becomes(r, x, y) == becomes(update, x, y)) && forall x any :: {applies(r, x)} applies(r, x) == applies(update, x)

// ---------------------------------------------------------------- dotted paths
// upd(sel, i, c, k, v, x, y): doing to the value that the parts of sel from the i-th on designate in x what leaf k, v
// does turns x into y; can(...): it can be done.  c: missing parents are created.
load strconv = "strconv"
load strings = "strings"
ufun nparts(sel string) int
ufun part(sel string; i int) string
ufun isNumber(s string) bool
ufun number(s string) int
extern strings.Split(s, sep) (r)
  pure
  ensures sep == "." ==> len(r) == nparts(s) && nparts(s) >= 1 && forall i int :: {r[i]} 0 <= i < len(r) ==> r[i] == part(s, i)
extern strconv.Atoi(s) (n, err)
  pure
  ensures (err == nil) == isNumber(s) && (err == nil ==> n == number(s))
ufun at(i int) bool
ufun leafB(k string; v any; x any; y any) bool
ufun leafC(k string; v any; x any) bool
ufun upd(sel string; i int; c bool; k string; v any; x any; y any) bool
ufun can(sel string; i int; c bool; k string; v any; x any) bool
define fieldU(sel string; i int; c bool; k string; v any; x any; y any) bool = isDoc(x) && (is(x, primitive.D) ==> forall j int :: {x.(primitive.D)[j]} firstField(x.(primitive.D), part(sel, i), j) ==> is(y, primitive.D) && len(y.(primitive.D)) == len(x.(primitive.D)) && y.(primitive.D)[j].Key == part(sel, i) && upd(sel, i + 1, c, k, v, x.(primitive.D)[j].Value, y.(primitive.D)[j].Value) && forall m int :: {y.(primitive.D)[m]} 0 <= m < len(y.(primitive.D)) && m != j ==> y.(primitive.D)[m] == x.(primitive.D)[m]) && (noField(x, part(sel, i)) ==> ite(c, is(y, primitive.D) && len(y.(primitive.D)) == len0(x) + 1 && y.(primitive.D)[len0(x)].Key == part(sel, i) && upd(sel, i + 1, c, k, v, nil, y.(primitive.D)[len0(x)].Value) && forall m int :: {y.(primitive.D)[m]} 0 <= m < len0(x) ==> y.(primitive.D)[m] == x.(primitive.D)[m], y == x))
define fieldD(sel string; i int; c bool; k string; v any; x any) bool = isDoc(x) && (is(x, primitive.D) ==> forall j int :: {x.(primitive.D)[j]} firstField(x.(primitive.D), part(sel, i), j) ==> can(sel, i + 1, c, k, v, x.(primitive.D)[j].Value)) && (noField(x, part(sel, i)) && c ==> can(sel, i + 1, c, k, v, nil))
define indexU(sel string; i int; n int; c bool; k string; v any; x any; y any) bool = ite(x == nil && !c, y == x, isArr(x) && n >= 0 && ite(n < size(x), is(y, primitive.A) && size(y) == size(x) && upd(sel, i + 1, c, k, v, x.(primitive.A)[n], y.(primitive.A)[n]) && (forall j int :: {y.(primitive.A)[j]} 0 <= j < size(y) && j != n ==> y.(primitive.A)[j] == x.(primitive.A)[j]), ite(c, is(y, primitive.A) && size(y) == n + 1 && upd(sel, i + 1, c, k, v, nil, y.(primitive.A)[n]) && (forall j int :: {y.(primitive.A)[j]} 0 <= j < n ==> y.(primitive.A)[j] == ite(j < size(x), x.(primitive.A)[j], nil)), y == x)))
define indexD(sel string; i int; n int; c bool; k string; v any; x any) bool = x == nil && !c || isArr(x) && n >= 0 && (n < size(x) ==> can(sel, i + 1, c, k, v, x.(primitive.A)[n])) && (n >= size(x) && c ==> can(sel, i + 1, c, k, v, nil))
define lastB(sel string; x any; y any) bool = ite(isNumber(part(sel, nparts(sel) - 1)), nullB(number(part(sel, nparts(sel) - 1)), x, y), dropFieldB(part(sel, nparts(sel) - 1), x, y))
define lastC(sel string; x any) bool = ite(isNumber(part(sel, nparts(sel) - 1)), x == nil || is(x, primitive.A) && number(part(sel, nparts(sel) - 1)) >= 0, isDoc(x))
// $unset acts on the parent of the last part, everything else on what the last part designates
define ends(sel string; i int; k string) bool = i == nparts(sel) - ite(k == "$unset", 1, 0)
define updEnd() bool = (forall sel string; i int; c bool; k string; v any; x any; y any :: {upd(sel, i, c, k, v, x, y)} ends(sel, i, k) ==> upd(sel, i, c, k, v, x, y) == ite(k == "$unset", lastB(sel, x, y), leafB(k, v, x, y))) && (forall sel string; i int; c bool; k string; v any; x any :: {can(sel, i, c, k, v, x)} ends(sel, i, k) ==> can(sel, i, c, k, v, x) == ite(k == "$unset", lastC(sel, x), leafC(k, v, x)))
define updDef() bool = (forall sel string; i int; c bool; k string; v any; x any; y any :: {at(i), upd(sel, i, c, k, v, x, y)} 0 <= i && i < nparts(sel) - ite(k == "$unset", 1, 0) ==> upd(sel, i, c, k, v, x, y) == ite(isNumber(part(sel, i)), indexU(sel, i, number(part(sel, i)), c, k, v, x, y), fieldU(sel, i, c, k, v, x, y))) && (forall sel string; i int; c bool; k string; v any; x any :: {at(i), can(sel, i, c, k, v, x)} 0 <= i && i < nparts(sel) - ite(k == "$unset", 1, 0) ==> can(sel, i, c, k, v, x) == ite(isNumber(part(sel, i)), indexD(sel, i, number(part(sel, i)), c, k, v, x), fieldD(sel, i, c, k, v, x)))
define ats() bool = forall i int :: {at(i)} at(i)
define isLeafB(u any; k string; v any) bool = forall x any; y any :: {becomes(u, x, y)} becomes(u, x, y) == leafB(k, v, x, y)
define isLeafC(u any; k string; v any) bool = forall x any :: {applies(u, x)} applies(u, x) == leafC(k, v, x)
func updatePath(selector, update, createIfAbsent) (r)
  requires ats() && updEnd() && updDef()
  ensures built: old(update) != nil ==> r != nil
  ensures single: !is(old(update), *query.updateall) ==> !is(r, *query.updateall)
  ensures follows: forall k string; v any; x any; y any :: {upd(selector, 0, createIfAbsent, k, v, x, y), becomes(r, x, y)} k != "$unset" && isLeafB(old(update), k, v) ==> becomes(r, x, y) == upd(selector, 0, createIfAbsent, k, v, x, y)
  ensures can: forall k string; v any; x any :: {can(selector, 0, createIfAbsent, k, v, x), applies(r, x)} k != "$unset" && isLeafC(old(update), k, v) ==> applies(r, x) == can(selector, 0, createIfAbsent, k, v, x)
  invariant <i int; g query.Update> built: (old(update) != nil ==> g != nil) && at(i)
  invariant <g query.Update> single: !is(old(update), *query.updateall) ==> !is(g, *query.updateall)
  invariant <i int> range: -1 <= i && i < nparts(selector)
  invariant <i int; g query.Update> follows: forall k string; v any; x any; y any :: {upd(selector, i + 1, createIfAbsent, k, v, x, y)} {becomes(g, x, y), leafB(k, v, x, y)} k != "$unset" && isLeafB(old(update), k, v) ==> becomes(g, x, y) == upd(selector, i + 1, createIfAbsent, k, v, x, y)
  invariant <i int; g query.Update> can: forall k string; v any; x any :: {can(selector, i + 1, createIfAbsent, k, v, x)} {applies(g, x), leafC(k, v, x)} k != "$unset" && isLeafC(old(update), k, v) ==> applies(g, x) == can(selector, i + 1, createIfAbsent, k, v, x)
func UpdatePath(selector, update) (r)
  requires ats() && updEnd() && updDef()
  ensures built: old(update) != nil ==> r != nil
  ensures single: !is(old(update), *query.updateall) ==> !is(r, *query.updateall)
  ensures follows: forall k string; v any; x any; y any :: {upd(selector, 0, true, k, v, x, y), becomes(r, x, y)} k != "$unset" && isLeafB(update, k, v) ==> becomes(r, x, y) == upd(selector, 0, true, k, v, x, y)
  ensures can: forall k string; v any; x any :: {can(selector, 0, true, k, v, x), applies(r, x)} k != "$unset" && isLeafC(update, k, v) ==> applies(r, x) == can(selector, 0, true, k, v, x)
func UnsetPath(selector) (r)
  requires ats() && updEnd() && updDef()
  ensures built: r != nil && !is(r, *query.updateall)
  ensures follows: forall v any; x any; y any :: {upd(selector, 0, false, "$unset", v, x, y), becomes(r, x, y)} becomes(r, x, y) == upd(selector, 0, false, "$unset", v, x, y)
  ensures can: forall v any; x any :: {can(selector, 0, false, "$unset", v, x), applies(r, x)} applies(r, x) == can(selector, 0, false, "$unset", v, x)
  invariant <i int; g query.Update> built: g != nil && !is(g, *query.updateall) && at(i)
  invariant <i int> range: -1 <= i && i < nparts(selector) - 1
  invariant <i int; g query.Update> follows: forall v any; x any; y any :: {upd(selector, i + 1, false, "$unset", v, x, y)} becomes(g, x, y) == upd(selector, i + 1, false, "$unset", v, x, y)
  invariant <i int; g query.Update> can: forall v any; x any :: {can(selector, i + 1, false, "$unset", v, x)} applies(g, x) == can(selector, i + 1, false, "$unset", v, x)

// ---------------------------------------------------------------- update documents
ufun hasPrefix(s string; p string) bool
extern strings.HasPrefix(s, p) (r)
  pure
  ensures r == hasPrefix(s, p)
extern reflect.(Type).String(t) (r)
  pure
define leafs() bool = (forall v any; x any; y any :: {leafB("$set", v, x, y)} leafB("$set", v, x, y) == stores(v, y)) && (forall v any; x any :: {leafC("$set", v, x)} leafC("$set", v, x)) && (forall v any; x any; y any :: {leafB("$push", v, x, y)} leafB("$push", v, x, y) == pushed(v, x, y)) && (forall v any; x any :: {leafC("$push", v, x)} leafC("$push", v, x) == isArr(x)) && (forall v any; x any; y any :: {leafB("$addToSet", v, x, y)} leafB("$addToSet", v, x, y) == added(v, x, y)) && (forall v any; x any :: {leafC("$addToSet", v, x)} leafC("$addToSet", v, x) == isArr(x)) && (forall v any; x any; y any :: {leafB("$inc", v, x, y)} leafB("$inc", v, x, y) == incB(int64Of(v), x, y)) && (forall v any; x any :: {leafC("$inc", v, x)} leafC("$inc", v, x) == incC(int64Of(v), x)) && (forall v any; x any :: {leafC("$pull", v, x)} leafC("$pull", v, x) == isArr(x))
define hasMod(v any) bool = is(v, primitive.D) && exists i int :: {v.(primitive.D)[i]} 0 <= i < len(v.(primitive.D)) && hasPrefix(v.(primitive.D)[i].Key, "$")
// one update per field, in the order of the operator's document, each doing what the operator says to that path
define paths() bool = ats() && updEnd() && updDef() && leafs() && storing()
define doesAll(us []query.Update; d primitive.D; k string; c bool) bool = len(us) == len(d) && (forall i int :: {us[i]} 0 <= i < len(us) ==> us[i] != nil && !is(us[i], *query.updateall)) && (forall i int; x any; y any :: {becomes(us[i], x, y), upd(d[i].Key, 0, c, k, d[i].Value, x, y)} 0 <= i < len(us) ==> becomes(us[i], x, y) == upd(d[i].Key, 0, c, k, d[i].Value, x, y)) && (forall i int; x any :: {applies(us[i], x), can(d[i].Key, 0, c, k, d[i].Value, x)} 0 <= i < len(us) ==> applies(us[i], x) == can(d[i].Key, 0, c, k, d[i].Value, x))
define okSet(v any) bool = is(v, primitive.D) && forall i int :: {v.(primitive.D)[i]} 0 <= i < len(v.(primitive.D)) ==> storable(v.(primitive.D)[i].Value)
define okInc(v any) bool = is(v, primitive.D) && forall i int :: {v.(primitive.D)[i]} 0 <= i < len(v.(primitive.D)) ==> isInt(v.(primitive.D)[i].Value)
define okPush(v any) bool = is(v, primitive.D) && forall i int :: {v.(primitive.D)[i]} 0 <= i < len(v.(primitive.D)) ==> !hasMod(v.(primitive.D)[i].Value) && storable(v.(primitive.D)[i].Value)
func parseSet(args) (us, err)
  requires paths()
  ensures accepted: (err == nil) == okSet(args)
  ensures does: err == nil ==> doesAll(us, args.(primitive.D), "$set", true)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant <us []query.Update> count: len(us) == $k
  invariant <us []query.Update> built: forall j int :: {us[j]} 0 <= j < len(us) ==> us[j] != nil && !is(us[j], *query.updateall)
  invariant ok: forall j int :: {args.(primitive.D)[j]} 0 <= j < $k ==> storable(args.(primitive.D)[j].Value)
  invariant <us []query.Update> does: forall j int; x any; y any :: {becomes(us[j], x, y)} {upd(args.(primitive.D)[j].Key, 0, true, "$set", args.(primitive.D)[j].Value, x, y)} 0 <= j < len(us) ==> becomes(us[j], x, y) == upd(args.(primitive.D)[j].Key, 0, true, "$set", args.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> can: forall j int; x any :: {applies(us[j], x)} {can(args.(primitive.D)[j].Key, 0, true, "$set", args.(primitive.D)[j].Value, x)} 0 <= j < len(us) ==> applies(us[j], x) == can(args.(primitive.D)[j].Key, 0, true, "$set", args.(primitive.D)[j].Value, x)
func parseUnset(args) (us, err)
  requires paths()
  ensures accepted: (err == nil) == is(args, primitive.D)
  ensures does: err == nil ==> doesAll(us, args.(primitive.D), "$unset", false)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant <us []query.Update> count: len(us) == $k
  invariant <us []query.Update> built: forall j int :: {us[j]} 0 <= j < len(us) ==> us[j] != nil && !is(us[j], *query.updateall)
  invariant ok: forall j int :: {args.(primitive.D)[j]} 0 <= j < $k ==> true
  invariant <us []query.Update> does: forall j int; x any; y any :: {becomes(us[j], x, y)} {upd(args.(primitive.D)[j].Key, 0, false, "$unset", args.(primitive.D)[j].Value, x, y)} 0 <= j < len(us) ==> becomes(us[j], x, y) == upd(args.(primitive.D)[j].Key, 0, false, "$unset", args.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> can: forall j int; x any :: {applies(us[j], x)} {can(args.(primitive.D)[j].Key, 0, false, "$unset", args.(primitive.D)[j].Value, x)} 0 <= j < len(us) ==> applies(us[j], x) == can(args.(primitive.D)[j].Key, 0, false, "$unset", args.(primitive.D)[j].Value, x)
func parseInc(args) (us, err)
  requires paths()
  ensures accepted: (err == nil) == okInc(args)
  ensures does: err == nil ==> doesAll(us, args.(primitive.D), "$inc", true)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant <us []query.Update> count: len(us) == $k
  invariant <us []query.Update> built: forall j int :: {us[j]} 0 <= j < len(us) ==> us[j] != nil && !is(us[j], *query.updateall)
  invariant ok: forall j int :: {args.(primitive.D)[j]} 0 <= j < $k ==> isInt(args.(primitive.D)[j].Value)
  invariant <us []query.Update> does: forall j int; x any; y any :: {becomes(us[j], x, y)} {upd(args.(primitive.D)[j].Key, 0, true, "$inc", args.(primitive.D)[j].Value, x, y)} 0 <= j < len(us) ==> becomes(us[j], x, y) == upd(args.(primitive.D)[j].Key, 0, true, "$inc", args.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> can: forall j int; x any :: {applies(us[j], x)} {can(args.(primitive.D)[j].Key, 0, true, "$inc", args.(primitive.D)[j].Value, x)} 0 <= j < len(us) ==> applies(us[j], x) == can(args.(primitive.D)[j].Key, 0, true, "$inc", args.(primitive.D)[j].Value, x)
func parsePush(args) (us, err)
  requires paths()
  ensures accepted: (err == nil) == okPush(args)
  ensures does: err == nil ==> doesAll(us, args.(primitive.D), "$push", true)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant <us []query.Update> count: len(us) == $k
  invariant <us []query.Update> built: forall j int :: {us[j]} 0 <= j < len(us) ==> us[j] != nil && !is(us[j], *query.updateall)
  invariant ok: forall j int :: {args.(primitive.D)[j]} 0 <= j < $k ==> !hasMod(args.(primitive.D)[j].Value) && storable(args.(primitive.D)[j].Value)
  invariant <us []query.Update> does: forall j int; x any; y any :: {becomes(us[j], x, y)} {upd(args.(primitive.D)[j].Key, 0, true, "$push", args.(primitive.D)[j].Value, x, y)} 0 <= j < len(us) ==> becomes(us[j], x, y) == upd(args.(primitive.D)[j].Key, 0, true, "$push", args.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> can: forall j int; x any :: {applies(us[j], x)} {can(args.(primitive.D)[j].Key, 0, true, "$push", args.(primitive.D)[j].Value, x)} 0 <= j < len(us) ==> applies(us[j], x) == can(args.(primitive.D)[j].Key, 0, true, "$push", args.(primitive.D)[j].Value, x)
  invariant <m primitive.D> plain: forall j int :: {m[j]} 0 <= j < $k ==> !hasPrefix(m[j].Key, "$")
func parseAddToSet(args) (us, err)
  requires paths()
  ensures accepted: (err == nil) == okPush(args)
  ensures does: err == nil ==> doesAll(us, args.(primitive.D), "$addToSet", true)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant <us []query.Update> count: len(us) == $k
  invariant <us []query.Update> built: forall j int :: {us[j]} 0 <= j < len(us) ==> us[j] != nil && !is(us[j], *query.updateall)
  invariant ok: forall j int :: {args.(primitive.D)[j]} 0 <= j < $k ==> !hasMod(args.(primitive.D)[j].Value) && storable(args.(primitive.D)[j].Value)
  invariant <us []query.Update> does: forall j int; x any; y any :: {becomes(us[j], x, y)} {upd(args.(primitive.D)[j].Key, 0, true, "$addToSet", args.(primitive.D)[j].Value, x, y)} 0 <= j < len(us) ==> becomes(us[j], x, y) == upd(args.(primitive.D)[j].Key, 0, true, "$addToSet", args.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> can: forall j int; x any :: {applies(us[j], x)} {can(args.(primitive.D)[j].Key, 0, true, "$addToSet", args.(primitive.D)[j].Value, x)} 0 <= j < len(us) ==> applies(us[j], x) == can(args.(primitive.D)[j].Key, 0, true, "$addToSet", args.(primitive.D)[j].Value, x)
  invariant <m primitive.D> plain: forall j int :: {m[j]} 0 <= j < $k ==> !hasPrefix(m[j].Key, "$")
// what a $pull removes: the contracts of parseQuery and parseValue are those of property P07
ufun okMatch(v any) bool
define isMatch(f any; v any) bool = forall x any; y any :: {pulled(f, x, y)} pulled(f, x, y) == leafB("$pull", v, x, y)
extern query.parseQuery(v) (f, err)
  ensures (err == nil) == okMatch(any(v)) && (err == nil ==> f != nil && isMatch(f, any(v)))
extern query.parseValue(v) (f, err)
  ensures (err == nil) == okMatch(v) && (err == nil ==> f != nil && isMatch(f, v))
define okPull(v any) bool = is(v, primitive.D) && forall i int :: {v.(primitive.D)[i]} 0 <= i < len(v.(primitive.D)) ==> !hasMod(v.(primitive.D)[i].Value) && okMatch(v.(primitive.D)[i].Value)
func parsePull(args) (us, err)
  requires paths()
  ensures accepted: (err == nil) == okPull(args)
  ensures does: err == nil ==> doesAll(us, args.(primitive.D), "$pull", false)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant <us []query.Update> count: len(us) == $k
  invariant <us []query.Update> built: forall j int :: {us[j]} 0 <= j < len(us) ==> us[j] != nil && !is(us[j], *query.updateall)
  invariant ok: forall j int :: {args.(primitive.D)[j]} 0 <= j < $k ==> !hasMod(args.(primitive.D)[j].Value) && okMatch(args.(primitive.D)[j].Value)
  invariant <us []query.Update> does: forall j int; x any; y any :: {becomes(us[j], x, y)} {upd(args.(primitive.D)[j].Key, 0, false, "$pull", args.(primitive.D)[j].Value, x, y)} 0 <= j < len(us) ==> becomes(us[j], x, y) == upd(args.(primitive.D)[j].Key, 0, false, "$pull", args.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> can: forall j int; x any :: {applies(us[j], x)} {can(args.(primitive.D)[j].Key, 0, false, "$pull", args.(primitive.D)[j].Value, x)} 0 <= j < len(us) ==> applies(us[j], x) == can(args.(primitive.D)[j].Key, 0, false, "$pull", args.(primitive.D)[j].Value, x)
  invariant <m primitive.D> plain: forall j int :: {m[j]} 0 <= j < $k ==> !hasPrefix(m[j].Key, "$")

func UpdateAll(updates) (r)
  requires forall i int :: {updates[i]} 0 <= i < len(updates) && is(updates[i], *query.updateall) ==> updates[i].(*query.updateall) != nil
  ensures kind: is(r, *query.updateall) && fresh(r.(*query.updateall))
  ensures all: (forall i int :: {updates[i]} 0 <= i < len(updates) ==> !is(updates[i], *query.updateall)) ==> len(r.(*query.updateall).updates) == len(updates) && forall i int :: {updates[i]} {r.(*query.updateall).updates[i]} 0 <= i < len(updates) ==> r.(*query.updateall).updates[i] == updates[i]
  invariant <a *query.updateall> new: fresh(a)
  invariant same: forall i int :: {updates[i]} 0 <= i < len(updates) ==> updates[i] == old(updates[i])
  invariant <a *query.updateall> own: a.updates == zero([]query.Update) || fresh(a.updates)
  invariant <a *query.updateall> size: (forall i int :: {updates[i]} 0 <= i < len(updates) ==> !is(updates[i], *query.updateall)) ==> len(a.updates) == $k
  invariant <a *query.updateall> all: (forall i int :: {updates[i]} 0 <= i < len(updates) ==> !is(updates[i], *query.updateall)) ==> forall i int :: {updates[i]} {a.updates[i]} 0 <= i < $k ==> a.updates[i] == updates[i]

// before(i): how many updates the first i operators have
ufun before(i int) int
define count(v any) int = ite(is(v, primitive.D), len(v.(primitive.D)), 0)
define sums(d primitive.D) bool = before(0) == 0 && forall i int :: {d[i]} {before(i)} 0 <= i < len(d) ==> before(i + 1) == before(i) + count(d[i].Value)
define opOk(k string; v any) bool = ite(k == "$set", okSet(v), ite(k == "$unset", is(v, primitive.D), ite(k == "$inc", okInc(v), ite(k == "$push" || k == "$addToSet", okPush(v), k == "$pull" && okPull(v)))))
define creates(k string) bool = k != "$unset" && k != "$pull"
func ParseUpdate(update) (r, err)
  requires paths()
  requires definition: sums(update)
  ensures accepted: (err == nil) == forall i int :: {update[i]} 0 <= i < len(update) ==> opOk(update[i].Key, update[i].Value)
  ensures number: err == nil ==> is(r, *query.updateall) && len(r.(*query.updateall).updates) == before(len(update))
  ensures each: err == nil ==> forall i int; j int; c bool; x any; y any :: {upd(update[i].Value.(primitive.D)[j].Key, 0, c, update[i].Key, update[i].Value.(primitive.D)[j].Value, x, y)} c == creates(update[i].Key) && 0 <= i < len(update) && 0 <= j < len(update[i].Value.(primitive.D)) ==> becomes(r.(*query.updateall).updates[before(i) + j], x, y) == upd(update[i].Value.(primitive.D)[j].Key, 0, c, update[i].Key, update[i].Value.(primitive.D)[j].Value, x, y)
  invariant <us []query.Update> own: us == zero([]query.Update) || fresh(us)
  invariant positive: before($k) >= 0
  invariant <us []query.Update> count: len(us) == before($k)
  invariant <us []query.Update> single: forall i int :: {us[i]} 0 <= i < len(us) ==> us[i] != nil && !is(us[i], *query.updateall)
  invariant ok: forall i int :: {update[i]} 0 <= i < $k ==> opOk(update[i].Key, update[i].Value)
  invariant within: forall i int :: {update[i]} 0 <= i < $k ==> 0 <= before(i) && before(i) + count(update[i].Value) <= before($k)
  invariant <us []query.Update> each: forall i int; j int; c bool; x any; y any :: {upd(update[i].Value.(primitive.D)[j].Key, 0, c, update[i].Key, update[i].Value.(primitive.D)[j].Value, x, y)} c == creates(update[i].Key) && 0 <= i < $k && 0 <= j < len(update[i].Value.(primitive.D)) ==> becomes(us[before(i) + j], x, y) == upd(update[i].Value.(primitive.D)[j].Key, 0, c, update[i].Key, update[i].Value.(primitive.D)[j].Value, x, y)
