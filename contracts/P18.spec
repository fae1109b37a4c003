property P18
include std.inc
bounded dir=plugins/golang/gocode file=P18_types_test.go run=TestVerifP18Types
package gocode = "github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
load service = "github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/service"

// tree(t): the type that the description t denotes, as a tree; two trees are the same exactly when they have the same
// kind, the same names and the same parts
ufun tree(t any) int
define sameTree(a any; b any) bool = ite(is(a, *gocode.BasicType), is(b, *gocode.BasicType) && a.(*gocode.BasicType).Name == b.(*gocode.BasicType).Name, ite(is(a, *gocode.UserType), is(b, *gocode.UserType) && a.(*gocode.UserType).Package == b.(*gocode.UserType).Package && a.(*gocode.UserType).Name == b.(*gocode.UserType).Name, ite(is(a, *gocode.Slice), is(b, *gocode.Slice) && tree(a.(*gocode.Slice).SliceOf) == tree(b.(*gocode.Slice).SliceOf), ite(is(a, *gocode.Ellipsis), is(b, *gocode.Ellipsis) && tree(a.(*gocode.Ellipsis).EllipsisOf) == tree(b.(*gocode.Ellipsis).EllipsisOf), ite(is(a, *gocode.Pointer), is(b, *gocode.Pointer) && tree(a.(*gocode.Pointer).PointerTo) == tree(b.(*gocode.Pointer).PointerTo), ite(is(a, *gocode.Map), is(b, *gocode.Map) && tree(a.(*gocode.Map).KeyType) == tree(b.(*gocode.Map).KeyType) && tree(a.(*gocode.Map).ValueType) == tree(b.(*gocode.Map).ValueType), sameTree2(a, b)))))))
define sameTree2(a any; b any) bool = ite(is(a, *gocode.Chan), is(b, *gocode.Chan) && tree(a.(*gocode.Chan).ChanOf) == tree(b.(*gocode.Chan).ChanOf), ite(is(a, *gocode.ReceiveChan), is(b, *gocode.ReceiveChan) && tree(a.(*gocode.ReceiveChan).ReceiveType) == tree(b.(*gocode.ReceiveChan).ReceiveType), ite(is(a, *gocode.SendChan), is(b, *gocode.SendChan) && tree(a.(*gocode.SendChan).SendType) == tree(b.(*gocode.SendChan).SendType), ite(is(a, *gocode.InterfaceType), is(b, *gocode.InterfaceType), ite(is(a, *gocode.AnyType), is(b, *gocode.AnyType), ite(is(a, *gocode.FuncType), is(b, *gocode.FuncType), ite(is(a, *gocode.StructType), is(b, *gocode.StructType), ite(is(a, *gocode.GenericType), is(b, *gocode.GenericType) && tree(a.(*gocode.GenericType).BaseType) == tree(b.(*gocode.GenericType).BaseType) && tree(a.(*gocode.GenericType).TypeParam) == tree(b.(*gocode.GenericType).TypeParam), ite(is(a, *gocode.GenericTypeParam), is(b, *gocode.GenericTypeParam) && a.(*gocode.GenericTypeParam).ParamName == b.(*gocode.GenericTypeParam).ParamName, a == b)))))))))
define treeDef() bool = forall a any; b any :: {tree(a), tree(b)} a != nil ==> (tree(a) == tree(b) <==> sameTree(a, b))
// no part of a description is nil
ufun built(t any) bool
define builtDef() bool = forall t any :: {built(t)} built(t) ==> t != nil && (is(t, *gocode.BasicType) ==> t.(*gocode.BasicType) != nil) && (is(t, *gocode.UserType) ==> t.(*gocode.UserType) != nil) && (is(t, *gocode.Pointer) ==> t.(*gocode.Pointer) != nil && built(t.(*gocode.Pointer).PointerTo)) && (is(t, *gocode.Slice) ==> t.(*gocode.Slice) != nil && built(t.(*gocode.Slice).SliceOf)) && (is(t, *gocode.Ellipsis) ==> t.(*gocode.Ellipsis) != nil && built(t.(*gocode.Ellipsis).EllipsisOf)) && (is(t, *gocode.Map) ==> t.(*gocode.Map) != nil && built(t.(*gocode.Map).KeyType) && built(t.(*gocode.Map).ValueType)) && (is(t, *gocode.Chan) ==> t.(*gocode.Chan) != nil && built(t.(*gocode.Chan).ChanOf)) && (is(t, *gocode.ReceiveChan) ==> t.(*gocode.ReceiveChan) != nil && built(t.(*gocode.ReceiveChan).ReceiveType)) && (is(t, *gocode.SendChan) ==> t.(*gocode.SendChan) != nil && built(t.(*gocode.SendChan).SendType)) && (is(t, *gocode.GenericType) ==> t.(*gocode.GenericType) != nil && built(t.(*gocode.GenericType).BaseType) && built(t.(*gocode.GenericType).TypeParam)) && (is(t, *gocode.GenericTypeParam) ==> t.(*gocode.GenericTypeParam) != nil) && (is(t, *gocode.InterfaceType) ==> t.(*gocode.InterfaceType) != nil) && (is(t, *gocode.AnyType) ==> t.(*gocode.AnyType) != nil) && (is(t, *gocode.FuncType) ==> t.(*gocode.FuncType) != nil) && (is(t, *gocode.StructType) ==> t.(*gocode.StructType) != nil)

// every description implements this contract (checked below for each of them)
iface gocode.TypeName.Equals(t, other) (r)
  requires treeDef() && builtDef() && built(t) && (other == nil || built(other))
  ensures r == (other != nil && tree(t) == tree(other))

func (*BasicType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*UserType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*Slice).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*Ellipsis).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*Pointer).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*Map).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*Chan).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*ReceiveChan).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*SendChan).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*InterfaceType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*AnyType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*FuncType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*StructType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*GenericType).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

func (*GenericTypeParam).Equals(t, other) (r)
  requires treeDef() && builtDef() && built(any(t)) && (other == nil || built(other))
  ensures structural: r == (other != nil && tree(any(t)) == tree(other))

// parameter and result lists
define builtVars(vs []gocode.Variable) bool = forall i int :: {vs[i]} 0 <= i < len(vs) ==> built(vs[i].Type)
define sameVars(a []gocode.Variable; b []gocode.Variable) bool = len(a) == len(b) && forall i int :: {a[i]} {b[i]} 0 <= i < len(a) ==> tree(a[i].Type) == tree(b[i].Type)
define sameFunc(f gocode.Func; g gocode.Func) bool = f.Name == g.Name && sameVars(f.Arguments, g.Arguments) && sameVars(f.Returns, g.Returns)
define builtFunc(f gocode.Func) bool = builtVars(f.Arguments) && builtVars(f.Returns)

func sameTypes(a, b) (r)
  requires treeDef() && builtDef() && builtVars(a) && builtVars(b)
  ensures inOrder: r == sameVars(a, b)
  invariant soFar: len(a) == len(b) && forall i int :: {a[i]} {b[i]} 0 <= i < $k ==> tree(a[i].Type) == tree(b[i].Type)

func (Func).Equals(f, g) (r)
  requires treeDef() && builtDef() && builtFunc(f) && builtFunc(g)
  ensures signature: r == sameFunc(f, g)

define builtIface(s *gocode.ServiceInterface) bool = forall n string :: {s.Methods[n]} {in(n, s.Methods)} in(n, s.Methods) ==> builtFunc(s.Methods[n]) && s.Methods[n].Name == n

func (*ServiceInterface).Contains(i, j) (r)
  requires treeDef() && builtDef() && (i != nil ==> builtIface(i)) && (j != nil ==> builtIface(j))
  ensures contains: r == (i != nil && j != nil && forall n string :: {in(n, j.Methods)} in(n, j.Methods) ==> in(n, i.Methods) && sameFunc(j.Methods[n], i.Methods[n]))
  invariant soFar: i != nil && j != nil && forall n string :: {in(n, j.Methods)} in(n, j.Methods) && $visited[n] ==> in(n, i.Methods) && sameFunc(j.Methods[n], i.Methods[n])

func (*ServiceInterface).AddMethod(s, f)
  requires s != nil && s.Methods != nil
  modifies contents(s.Methods)
  ensures added: in(f.Name, s.Methods) && s.Methods[f.Name] == f
  ensures kept: forall n string :: {in(n, s.Methods)} {s.Methods[n]} n != f.Name ==> (in(n, s.Methods) <==> old(in(n, s.Methods))) && (in(n, s.Methods) ==> s.Methods[n] == old(s.Methods[n]))

func CopyServiceInterface(name, pkg, s) (c)
  requires s != nil
  ensures named: fresh(c) && c.UserType.Name == name && c.UserType.Package == pkg && c.BaseName == s.BaseName
  ensures methods: c.Methods != nil && c.Methods != s.Methods && forall n string :: {in(n, c.Methods)} {in(n, s.Methods)} (in(n, c.Methods) <==> in(n, s.Methods)) && (in(n, s.Methods) ==> c.Methods[n] == s.Methods[n])
  invariant <new_s *gocode.ServiceInterface> soFar: forall n string :: {in(n, new_s.Methods)} {in(n, s.Methods)} (in(n, new_s.Methods) <==> in(n, s.Methods) && $visited[n]) && (in(n, new_s.Methods) ==> new_s.Methods[n] == s.Methods[n])
  invariant <new_s *gocode.ServiceInterface> named: new_s != nil && fresh(new_s) && fresh(new_s.Methods) && new_s.UserType.Name == name && new_s.UserType.Package == pkg && new_s.BaseName == s.BaseName

func (*Func).AddArgument(f, variable)
  requires f != nil
  modifies f.Arguments
  ensures appended: len(f.Arguments) == old(len(f.Arguments)) + 1 && f.Arguments[old(len(f.Arguments))] == variable
  ensures kept: forall i int :: {f.Arguments[i]} 0 <= i < old(len(f.Arguments)) ==> f.Arguments[i] == old(f.Arguments)[i]

func (*Func).AddRetVar(f, variable)
  requires f != nil
  modifies f.Returns
  ensures appended: len(f.Returns) == old(len(f.Returns)) + 1 && f.Returns[old(len(f.Returns))] == variable
  ensures kept: forall i int :: {f.Returns[i]} 0 <= i < old(len(f.Returns)) ==> f.Returns[i] == old(f.Returns)[i]

// the generic views list the description's own variables and methods
func (*Func).GetArguments(f) (vs)
  requires f != nil
  ensures each: len(vs) == len(f.Arguments) && forall i int :: {vs[i]} {f.Arguments[i]} 0 <= i < len(vs) ==> is(vs[i], *gocode.Variable) && vs[i].(*gocode.Variable) != nil && *(vs[i].(*gocode.Variable)) == f.Arguments[i]
  invariant <variables []service.Variable> soFar: len(variables) == $k && forall i int :: {variables[i]} {f.Arguments[i]} 0 <= i < $k ==> is(variables[i], *gocode.Variable) && variables[i].(*gocode.Variable) != nil && *(variables[i].(*gocode.Variable)) == f.Arguments[i]
func (*Func).GetReturns(f) (vs)
  requires f != nil
  ensures each: len(vs) == len(f.Returns) && forall i int :: {vs[i]} {f.Returns[i]} 0 <= i < len(vs) ==> is(vs[i], *gocode.Variable) && vs[i].(*gocode.Variable) != nil && *(vs[i].(*gocode.Variable)) == f.Returns[i]
  invariant <variables []service.Variable> soFar: len(variables) == $k && forall i int :: {variables[i]} {f.Returns[i]} 0 <= i < $k ==> is(variables[i], *gocode.Variable) && variables[i].(*gocode.Variable) != nil && *(variables[i].(*gocode.Variable)) == f.Returns[i]
func (*ServiceInterface).GetMethods(s) (ms)
  requires s != nil && builtIface(s)
  ensures count: len(ms) == len(s.Methods)
  ensures each: forall i int :: {ms[i]} 0 <= i < len(ms) ==> is(ms[i], *gocode.Func) && ms[i].(*gocode.Func) != nil && in(ms[i].(*gocode.Func).Name, s.Methods) && *(ms[i].(*gocode.Func)) == s.Methods[ms[i].(*gocode.Func).Name]
  ensures once: forall i int; j int :: {ms[i], ms[j]} 0 <= i && i < j && j < len(ms) ==> ms[i].(*gocode.Func).Name != ms[j].(*gocode.Func).Name
  invariant <methods []service.Method> count: len(methods) == $k
  invariant <methods []service.Method> each: forall i int :: {methods[i]} 0 <= i < len(methods) ==> is(methods[i], *gocode.Func) && methods[i].(*gocode.Func) != nil && in(methods[i].(*gocode.Func).Name, s.Methods) && $visited[methods[i].(*gocode.Func).Name] && *(methods[i].(*gocode.Func)) == s.Methods[methods[i].(*gocode.Func).Name]
  invariant <methods []service.Method> once: forall i int; j int :: {methods[i], methods[j]} 0 <= i && i < j && j < len(methods) ==> methods[i].(*gocode.Func).Name != methods[j].(*gocode.Func).Name
