property P17
include std.inc
bounded dir=plugins/golang/gogen file=P17_imports_test.go run=TestVerifP17Imports
package gogen = "github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
load gocode = "github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
load strings = "strings"
load reflect = "reflect"

ufun sprintfMap(k string; v string) string
extern fmt.Sprintf(format, args) (s)
  pure
  ensures format == "map[%s]%s" && len(args) == 2 && is(args[0], string) && is(args[1], string) ==> s == sprintfMap(args[0].(string), args[1].(string))
  why "map[%s]%s" formats the two spellings as a map type
ufun lastElem(path string) string
extern strings.Split(s, sep) (parts)
  pure
  ensures sep == "/" ==> len(parts) >= 1 && parts[len(parts) - 1] == lastElem(s)
  ensures fresh(parts)
extern reflect.TypeOf(v) (t)
  pure
ufun otherName(t any) string
iface gocode.TypeName.String(t) (s)
  pure
  ensures s == otherName(t)

// the import table of one file
define maps(m *gogen.Imports) bool = m != nil && m.packages != nil && m.named != nil && m.anonymous != nil && m.seen != nil && m.packages != m.named && m.anonymous != m.seen
define local(m *gogen.Imports) bool = !in(m.localPackage, m.packages)
define unambiguous(m *gogen.Imports) bool = forall p string; q string :: {in(p, m.packages), in(q, m.packages)} in(p, m.packages) && in(q, m.packages) && p != q ==> m.packages[p] != m.packages[q]
define taken(m *gogen.Imports) bool = forall p string :: {in(p, m.packages)} in(p, m.packages) ==> in(m.packages[p], m.seen)
// the import declaration lists every imported package once: under its own last element, or with an explicit local name
define declared(m *gogen.Imports) bool = forall p string :: {in(p, m.packages)} {in(p, m.named)} {in(p, m.anonymous)} (in(p, m.packages) <==> in(p, m.named) || in(p, m.anonymous)) && !(in(p, m.named) && in(p, m.anonymous)) && (in(p, m.named) ==> m.named[p] == m.packages[p]) && (in(p, m.anonymous) ==> m.packages[p] == lastElem(p))
define table(m *gogen.Imports) bool = maps(m) && local(m) && unambiguous(m) && taken(m) && declared(m)

func NewImports(packageName) (m)
  ensures table: fresh(m) && table(m) && m.localPackage == packageName
  ensures empty: forall p string :: {in(p, m.packages)} !in(p, m.packages)

func (*Imports).AddPackage(m, pkg) (name)
  requires table(m)
  modifies contents(m.packages), contents(m.named), contents(m.anonymous), contents(m.seen)
  ensures table: table(m)
  ensures local: pkg == m.localPackage ==> name == "" && !in(pkg, m.packages)
  ensures imported: pkg != m.localPackage ==> in(pkg, m.packages) && m.packages[pkg] == name
  ensures kept: forall p string :: {in(p, m.packages)} {m.packages[p]} old(in(p, m.packages)) ==> in(p, m.packages) && m.packages[p] == old(m.packages[p])
  ensures nothingElse: forall p string :: {in(p, m.packages)} p != pkg ==> (in(p, m.packages) <==> old(in(p, m.packages)))

func (*Imports).AddPackages(m, pkgs)
  requires table(m)
  modifies contents(m.packages), contents(m.named), contents(m.anonymous), contents(m.seen)
  ensures table: table(m)
  ensures imported: forall i int :: {pkgs[i]} 0 <= i && i < len(pkgs) ==> pkgs[i] == m.localPackage || in(pkgs[i], m.packages)
  ensures kept: forall p string :: {in(p, m.packages)} {m.packages[p]} old(in(p, m.packages)) ==> in(p, m.packages) && m.packages[p] == old(m.packages[p])
  invariant table: table(m)
  invariant imported: forall i int :: {pkgs[i]} 0 <= i && i < $k ==> pkgs[i] == m.localPackage || in(pkgs[i], m.packages)
  invariant kept: forall p string :: {in(p, m.packages)} {m.packages[p]} old(in(p, m.packages)) ==> in(p, m.packages) && m.packages[p] == old(m.packages[p])

// the packages that a type mentions
ufun mentions(t any; p string) bool
define step(t any; p string) bool = ite(is(t, *gocode.UserType), p == t.(*gocode.UserType).Package, ite(is(t, *gocode.Pointer), mentions(t.(*gocode.Pointer).PointerTo, p), ite(is(t, *gocode.Slice), mentions(t.(*gocode.Slice).SliceOf, p), ite(is(t, *gocode.Ellipsis), mentions(t.(*gocode.Ellipsis).EllipsisOf, p), ite(is(t, *gocode.Map), mentions(t.(*gocode.Map).KeyType, p) || mentions(t.(*gocode.Map).ValueType, p), ite(is(t, *gocode.Chan), mentions(t.(*gocode.Chan).ChanOf, p), ite(is(t, *gocode.ReceiveChan), mentions(t.(*gocode.ReceiveChan).ReceiveType, p), is(t, *gocode.SendChan) && mentions(t.(*gocode.SendChan).SendType, p))))))))
define mentionsDef() bool = forall t any; p string :: {mentions(t, p)} mentions(t, p) == step(t, p)
// descriptions come from the parser: no part of one is nil
ufun built(t any) bool
define builtDef() bool = forall t any :: {built(t)} built(t) ==> t != nil && (is(t, *gocode.BasicType) ==> t.(*gocode.BasicType) != nil) && (is(t, *gocode.UserType) ==> t.(*gocode.UserType) != nil) && (is(t, *gocode.Pointer) ==> t.(*gocode.Pointer) != nil && built(t.(*gocode.Pointer).PointerTo)) && (is(t, *gocode.Slice) ==> t.(*gocode.Slice) != nil && built(t.(*gocode.Slice).SliceOf)) && (is(t, *gocode.Ellipsis) ==> t.(*gocode.Ellipsis) != nil && built(t.(*gocode.Ellipsis).EllipsisOf)) && (is(t, *gocode.Map) ==> t.(*gocode.Map) != nil && built(t.(*gocode.Map).KeyType) && built(t.(*gocode.Map).ValueType)) && (is(t, *gocode.Chan) ==> t.(*gocode.Chan) != nil && built(t.(*gocode.Chan).ChanOf)) && (is(t, *gocode.ReceiveChan) ==> t.(*gocode.ReceiveChan) != nil && built(t.(*gocode.ReceiveChan).ReceiveType)) && (is(t, *gocode.SendChan) ==> t.(*gocode.SendChan) != nil && built(t.(*gocode.SendChan).SendType))

// the spelling of a type, given the local name nm(p) of every package p; AddPackage may choose any name, and NameOf
// spells the type with the names that are in the table when it returns
ufun nm(p string) string
ufun spell(t any; local string) string
define agrees(m *gogen.Imports) bool = forall p string :: {m.packages[p]} in(p, m.packages) ==> m.packages[p] == nm(p)
define spellDef() bool = forall t any; l string :: {spell(t, l)} spell(t, l) == ite(is(t, *gocode.BasicType), t.(*gocode.BasicType).Name, ite(is(t, *gocode.UserType), ite(t.(*gocode.UserType).Package == l, t.(*gocode.UserType).Name, nm(t.(*gocode.UserType).Package) + "." + t.(*gocode.UserType).Name), ite(is(t, *gocode.Pointer), "*" + spell(t.(*gocode.Pointer).PointerTo, l), ite(is(t, *gocode.Slice), "[]" + spell(t.(*gocode.Slice).SliceOf, l), ite(is(t, *gocode.Ellipsis), "..." + spell(t.(*gocode.Ellipsis).EllipsisOf, l), ite(is(t, *gocode.Map), sprintfMap(spell(t.(*gocode.Map).KeyType, l), spell(t.(*gocode.Map).ValueType, l)), ite(is(t, *gocode.Chan), "chan " + spell(t.(*gocode.Chan).ChanOf, l), ite(is(t, *gocode.ReceiveChan), "<-chan " + spell(t.(*gocode.ReceiveChan).ReceiveType, l), ite(is(t, *gocode.SendChan), "chan<- " + spell(t.(*gocode.SendChan).SendType, l), otherName(t))))))))))

func (*Imports).AddType(m, typeName)
  requires table(m) && mentionsDef() && builtDef() && built(typeName)
  modifies contents(m.packages), contents(m.named), contents(m.anonymous), contents(m.seen)
  ensures table: table(m)
  ensures imported: forall p string :: {mentions(typeName, p)} mentions(typeName, p) ==> p == m.localPackage || in(p, m.packages)
  ensures kept: forall p string :: {in(p, m.packages)} {m.packages[p]} old(in(p, m.packages)) ==> in(p, m.packages) && m.packages[p] == old(m.packages[p])
  ensures nothingElse: forall p string :: {in(p, m.packages)} !mentions(typeName, p) ==> (in(p, m.packages) <==> old(in(p, m.packages)))

func (*Imports).Qualify(m, pkg, name) (q)
  requires table(m)
  ensures local: pkg == m.localPackage ==> q == name
  ensures imported: in(pkg, m.packages) ==> q == m.packages[pkg] + "." + name
  ensures other: pkg != m.localPackage && !in(pkg, m.packages) ==> q == pkg + "." + name

func (*Imports).NameOf(m, typeName) (s)
  requires spellDef()
  requires table(m) && mentionsDef() && builtDef() && built(typeName)
  modifies contents(m.packages), contents(m.named), contents(m.anonymous), contents(m.seen)
  ensures table: table(m)
  ensures imported: forall p string :: {mentions(typeName, p)} mentions(typeName, p) ==> p == m.localPackage || in(p, m.packages)
  ensures kept: forall p string :: {in(p, m.packages)} {m.packages[p]} old(in(p, m.packages)) ==> in(p, m.packages) && m.packages[p] == old(m.packages[p])
  ensures nothingElse: forall p string :: {in(p, m.packages)} !mentions(typeName, p) ==> (in(p, m.packages) <==> old(in(p, m.packages)))
  ensures spelled: agrees(m) ==> s == spell(typeName, m.localPackage)
