property P06
bounded dir=runtime/core/backend file=P06_copy_test.go run=TestVerifP06Copy
bounded dir=blueprint/pkg/wiring file=P06_wiringcopy_test.go run=TestVerifP06WiringCopy
include std.inc
load reflect = "reflect"
load pkgerrors = "github.com/pkg/errors"
load blueprint = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
package backend = "github.com/blueprint-uservices/blueprint/runtime/core/backend"
package wiring = "github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"

// ---------------------------------------------------------------- memory and types, as the reflect package sees them
// mem: what every location holds; alloc: the locations that exist
ghost mem gmap[any]any
ghost alloc gmap[any]bool
// of a type: its kind, the type of its elements, its zero value, and which other types its values can be assigned to
ufun kindT(t any) int
ufun elemT(t any) any
ufun zeroT(t any) any
ufun assignable(t any; u any) bool
// of a value: its dynamic type (nil for nil), whether it is a nil pointer, slice, ..., the elements of a slice, and the target of a pointer
ufun typ(x any) any
ufun nilV(x any) bool
ufun size(x any) int
ufun elem(x any; i int) any
ufun target(x any) any
define nillable(k int) bool = k == 18 || k == 19 || k == 20 || k == 21 || k == 22 || k == 23
define types() bool = (forall t any :: {assignable(t, t)} assignable(t, t)) && (forall x any :: {typ(x)} (typ(x) == nil) == (x == nil)) && (forall x any :: {size(x)} size(x) >= 0)
// of a reflect.Value: its kind and type, the value that it has, or the location that it designates, or the locations of the elements of a slice under construction
ufun kindOf(v reflect.Value) int
ufun rt(v reflect.Value) any
ufun has(v reflect.Value) any
ufun located(v reflect.Value) bool
ufun loc(v reflect.Value) any
ufun made(v reflect.Value) bool
ufun count(v reflect.Value) int
ufun eloc(v reflect.Value; i int) any

extern reflect.TypeOf(x) (t)
  pure
  ensures t == typ(x)
extern reflect.ValueOf(x) (v)
  pure
  ensures !located(v) && !made(v) && has(v) == x && rt(v) == typ(x) && kindOf(v) == ite(x == nil, 0, kindT(typ(x))) && (x != nil ==> kindT(typ(x)) >= 1 && kindT(typ(x)) <= 26 && kindT(typ(x)) != 20)
extern reflect.(Value).Kind(v) (k)
  pure
  ensures k == kindOf(v)
extern reflect.(Value).IsValid(v) (r)
  pure
  ensures r == (kindOf(v) != 0)
extern reflect.(Value).Type(v) (t)
  pure
  requires kindOf(v) != 0
  ensures t == rt(v) && t != nil
extern reflect.(Value).IsNil(v) (r)
  pure
  requires nillable(kindOf(v)) || kindOf(v) == 26
  ensures r == nilV(ite(located(v), mem[loc(v)], has(v)))
extern reflect.(Value).CanSet(v) (r)
  pure
  ensures r == located(v)
extern reflect.Indirect(v) (r)
  pure
  ensures kindOf(v) == 22 && !located(v) && nilV(has(v)) ==> kindOf(r) == 0
  ensures kindOf(v) == 22 && !located(v) && !nilV(has(v)) ==> located(r) && !made(r) && loc(r) == target(has(v)) && rt(r) == elemT(rt(v)) && rt(r) != nil && kindOf(r) == kindT(rt(r)) && kindOf(r) != 0
extern reflect.(Value).Elem(v) (r)
  pure
  requires kindOf(v) == 22 || kindOf(v) == 20
  ensures kindOf(v) == 22 && !located(v) && nilV(has(v)) ==> kindOf(r) == 0
  ensures kindOf(v) == 22 && !located(v) && !nilV(has(v)) ==> located(r) && !made(r) && loc(r) == target(has(v)) && rt(r) == elemT(rt(v)) && rt(r) != nil && kindOf(r) == kindT(rt(r)) && kindOf(r) != 0
extern reflect.(Value).Interface(v) (x)
  pure
  requires kindOf(v) != 0
  ensures x == ite(located(v), mem[loc(v)], has(v))
extern reflect.(Value).Len(v) (n)
  pure
  requires kindOf(v) == 23 || kindOf(v) == 17 || kindOf(v) == 18 || kindOf(v) == 21 || kindOf(v) == 24
  ensures n >= 0
  ensures kindOf(v) == 23 ==> n == ite(made(v), count(v), size(has(v)))
extern reflect.(Value).Index(v, i) (r)
  pure
  requires kindOf(v) == 23 && !located(v) && 0 <= i && i < ite(made(v), count(v), size(has(v)))
  ensures kindOf(r) != 0 && !made(r) && rt(r) == elemT(rt(v)) && rt(r) != nil && kindOf(r) == kindT(rt(r))
  ensures made(v) ==> located(r) && loc(r) == eloc(v, i)
  ensures !made(v) ==> !located(r) && has(r) == elem(has(v), i)
extern reflect.(Value).Addr(v) (r)
  pure
  requires located(v)
  ensures !located(r) && !made(r) && kindOf(r) == 22 && rt(r) == typ(has(r)) && kindT(typ(has(r))) == 22 && has(r) != nil && !nilV(has(r)) && target(has(r)) == loc(v) && elemT(rt(r)) == rt(v)
extern reflect.MakeSlice(t, n, c) (r)
  requires kindT(t) == 23 && 0 <= n && n <= c
  modifies mem, alloc
  ensures !located(r) && made(r) && kindOf(r) == 23 && rt(r) == t && count(r) == n
  ensures forall i int :: {eloc(r, i)} 0 <= i && i < n ==> !old(alloc[eloc(r, i)]) && alloc[eloc(r, i)]
  ensures forall i int; j int :: {eloc(r, i), eloc(r, j)} 0 <= i && i < j && j < n ==> eloc(r, i) != eloc(r, j)
  ensures forall l any :: {alloc[l]} {mem[l]} old(alloc[l]) ==> alloc[l] && mem[l] == old(mem[l])
extern reflect.(Value).Set(v, w)
  requires located(v) && kindOf(w) != 0 && !located(w) && assignable(rt(w), rt(v))
  modifies mem
  ensures mem == old(mem)[loc(v) := mem[loc(v)]]
  ensures !made(w) ==> mem[loc(v)] == has(w)
  ensures made(w) ==> typ(mem[loc(v)]) == rt(w) && !nilV(mem[loc(v)]) && size(mem[loc(v)]) == count(w) && forall i int :: {elem(mem[loc(v)], i)} 0 <= i && i < count(w) ==> elem(mem[loc(v)], i) == old(mem[eloc(w, i)])
extern reflect.(Value).SetZero(v)
  requires located(v)
  modifies mem
  ensures mem == old(mem)[loc(v) := zeroT(rt(v))]
extern reflect.Zero(t) (v)
  pure
  requires t != nil
  ensures !located(v) && !made(v) && has(v) == zeroT(t) && rt(v) == t && kindOf(v) == kindT(t)
iface reflect.Type.AssignableTo(t, u) (r)
  pure
  requires u != nil
  ensures r == assignable(t, u)
iface reflect.Type.Kind(t) (k)
  pure
  ensures k == kindT(t)
iface reflect.Type.Elem(t) (e)
  pure
  ensures e == elemT(t)
extern pkgerrors.Errorf(format, args) (err)
  pure
  ensures err != nil
extern blueprint.Errorf(format, args) (err)
  pure
  ensures err != nil

// ---------------------------------------------------------------- what a copy is
// conv(x, t, y): y is the value x, as a location of type t holds it; fits(x, t): a location of type t can hold x
ufun conv(x any; t any; y any) bool
ufun fits(x any; t any) bool
define slices(x any; t any) bool = kindT(t) == 23 && kindT(typ(x)) == 23
define convDef() bool = forall x any; t any; y any :: {conv(x, t, y)} conv(x, t, y) == ite(x == nil, y == zeroT(t), ite(slices(x, t), ite(nilV(x), y == zeroT(t), typ(y) == t && !nilV(y) && size(y) == size(x) && forall i int :: {elem(y, i)} 0 <= i && i < size(x) ==> conv(elem(x, i), elemT(t), elem(y, i))), y == x))
define fitsDef() bool = forall x any; t any :: {fits(x, t)} fits(x, t) == ite(x == nil, nillable(kindT(t)), ite(slices(x, t), nilV(x) || forall i int :: {elem(x, i)} 0 <= i && i < size(x) ==> fits(elem(x, i), elemT(t)), assignable(typ(x), t)))
define sizes() bool = forall x any :: {nilV(x)} nilV(x) && kindT(typ(x)) == 23 ==> size(x) == 0
define theory() bool = types() && convDef() && fitsDef() && sizes()
define dest(dst any) bool = dst != nil && kindT(typ(dst)) == 22 && !nilV(dst)

func backend.CopyResult(src, dst) (err)
  requires theory() && (dest(dst) ==> alloc[target(dst)])
  modifies mem, alloc
  ensures accepts: (err == nil) == (dest(dst) && fits(src, elemT(typ(dst))))
  ensures stored: err == nil ==> conv(src, elemT(typ(dst)), mem[target(dst)])
  ensures untouched: err != nil && dest(dst) ==> mem[target(dst)] == old(mem[target(dst)])
  ensures others: forall l any :: {alloc[l]} {mem[l]} old(alloc[l]) ==> alloc[l] && (l != target(dst) || !dest(dst) ==> mem[l] == old(mem[l]))
  invariant kept: forall l any :: {alloc[l]} {mem[l]} old(alloc[l]) ==> alloc[l] && mem[l] == old(mem[l])
  invariant <v reflect.Value> exist: made(v) ==> forall i int :: {eloc(v, i)} 0 <= i && i < count(v) ==> alloc[eloc(v, i)]
  invariant fit: forall i int :: {elem(src, i)} 0 <= i && i < $k ==> fits(elem(src, i), elemT(elemT(typ(dst))))
  invariant <v reflect.Value> copied: made(v) ==> forall i int :: {eloc(v, i)} {elem(src, i)} 0 <= i && i < $k ==> conv(elem(src, i), elemT(elemT(typ(dst))), mem[eloc(v, i)])

func backend.SetZero(dst) (err)
  requires types() && (dest(dst) ==> alloc[target(dst)])
  modifies mem
  ensures accepts: (err == nil) == dest(dst)
  ensures zeroed: err == nil ==> mem == old(mem)[target(dst) := zeroT(elemT(typ(dst)))]
  ensures untouched: err != nil ==> mem == old(mem)

func backend.GetPointerValue(val) (v, err)
  requires types()
  ensures accepts: (err == nil) == dest(val)
  ensures value: err == nil ==> v == mem[target(val)]

func wiring.copyResult(src, dst) (err)
  requires theory() && (dest(dst) ==> alloc[target(dst)])
  modifies mem, alloc
  ensures accepts: (err == nil) == (dest(dst) && fits(src, elemT(typ(dst))))
  ensures stored: err == nil ==> conv(src, elemT(typ(dst)), mem[target(dst)])
  ensures untouched: err != nil && dest(dst) ==> mem[target(dst)] == old(mem[target(dst)])
  ensures others: forall l any :: {alloc[l]} {mem[l]} old(alloc[l]) ==> alloc[l] && (l != target(dst) || !dest(dst) ==> mem[l] == old(mem[l]))
  invariant kept: forall l any :: {alloc[l]} {mem[l]} old(alloc[l]) ==> alloc[l] && mem[l] == old(mem[l])
  invariant <v reflect.Value> exist: made(v) ==> forall i int :: {eloc(v, i)} 0 <= i && i < count(v) ==> alloc[eloc(v, i)]
  invariant fit: forall i int :: {elem(src, i)} 0 <= i && i < $k ==> fits(elem(src, i), elemT(elemT(typ(dst))))
  invariant <v reflect.Value> copied: made(v) ==> forall i int :: {eloc(v, i)} {elem(src, i)} 0 <= i && i < $k ==> conv(elem(src, i), elemT(elemT(typ(dst))), mem[eloc(v, i)])

func wiring.setZero(dst) (err)
  requires types() && (dest(dst) ==> alloc[target(dst)])
  modifies mem
  ensures accepts: (err == nil) == dest(dst)
  ensures zeroed: err == nil ==> mem == old(mem)[target(dst) := zeroT(elemT(typ(dst)))]
  ensures untouched: err != nil ==> mem == old(mem)

func wiring.getPointerValue(val) (v, err)
  requires types()
  ensures accepts: (err == nil) == dest(val)
  ensures value: err == nil ==> v == mem[target(val)]
