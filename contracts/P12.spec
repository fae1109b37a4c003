property P12
include std.inc
bounded dir=blueprint/pkg/wiring file=P12_namespace_test.go run=TestVerifP12Namespaces
package wiring = "github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
load blueprint = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
load ir = "github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
load reflect = "reflect"

extern blueprint.Errorf(format, args) (err)
  pure
  ensures err != nil
extern reflect.TypeOf(v) (t)
  pure
  ensures v != nil ==> t != nil
iface reflect.Type.String(t) (s)
  pure
iface reflect.Type.Elem(t) (e)
  pure
  ensures e != nil
iface reflect.Type.Name(t) (s)
  pure
// logging
extern wiring.(*namespaceimpl).Info(n, message, args)
  pure
  why logging only
extern wiring.(*namespaceimpl).Error(n, message, args) (err)
  pure
  ensures err != nil
  why logging, then the formatted error

// the definition a name finally refers to, fixed while an application is built
ufun defOf(name string) *wiring.WiringDef
iface wiring.WiringSpec.GetDef(s, name) (def)
  pure
  ensures def == defOf(name)
  why proved for the implementation by P11

// what the handlers are told: per handler and node name, how often the node was recorded (as a node or as an argument)
ghost told gmap[any]gmap[string]int
ghost toldNode gmap[any]gmap[string]int
ufun accepts(h any; nodeType any) bool
ufun nodeName(node any) string
iface ir.IRNode.Name(node) (name)
  pure
  ensures name == nodeName(node)
iface wiring.NamespaceHandler.Accepts(h, nodeType) (ok)
  pure
  ensures ok == accepts(h, nodeType)
iface wiring.NamespaceHandler.AddEdge(h, name, node) (err)
  modifies told
  ensures told == old(told)[h := old(told)[h][nodeName(node) := old(told)[h][nodeName(node)] + 1]]
iface wiring.NamespaceHandler.AddNode(h, name, node) (err)
  modifies told, toldNode
  ensures told == old(told)[h := old(told)[h][nodeName(node) := old(told)[h][nodeName(node)] + 1]]
  ensures toldNode == old(toldNode)[h := old(toldNode)[h][nodeName(node) := old(toldNode)[h][nodeName(node)] + 1]]

// results
ghost delivered gmap[any]any
ufun copyErr(src any; dst any) any
extern wiring.copyResult(src, dst) (err)
  modifies delivered, allcontents(*ir.IRNode)
  ensures delivered == old(delivered)[dst := src] && err == copyErr(src, dst)
  ensures is(dst, *ir.IRNode) && src != nil ==> err == nil && *(dst.(*ir.IRNode)) == src
  why the reflective copy is property P06

ghost lastErr any
ghost lastBuilt any
ghost parentErr any
// what was recorded, and what was marked as added, when the node had been built or fetched from above
ghost snapTold gmap[any]gmap[string]int
ghost snapNode gmap[any]gmap[string]int
ghost snapAdded gmap[*wiring.namespaceimpl]gmap[string]bool
ghost parentNode any
ghost parentGets gmap[string]int
ghost parentInst gmap[string]int

// every namespace has its own maps and handler
define wf(n *wiring.namespaceimpl) bool = n.Seen != nil && n.Added != nil && n.Handler != nil && n.Wiring != nil && n.ChildNamespaces != nil
define sound(n *wiring.namespaceimpl) bool = forall k string :: {in(k, n.Seen)} in(k, n.Seen) ==> n.Seen[k] != nil
// a node is recorded with the namespace at most once, and never before the namespace marks it as added
define onceBy(n *wiring.namespaceimpl) bool = forall k string :: {told[n.Handler][k]} {in(k, n.Added)} told[n.Handler][k] == ite(in(k, n.Added), told[n.Handler][k], 0) && told[n.Handler][k] <= 1 && told[n.Handler][k] >= 0
define all() bool = forall n *wiring.namespaceimpl :: {n.Seen} {n.Added} {n.Handler} n != nil ==> wf(n) && sound(n) && onceBy(n)
define apart() bool = forall n *wiring.namespaceimpl; m *wiring.namespaceimpl :: {n.Handler, m.Handler} n != nil && m != nil && n != m ==> n.Handler != m.Handler && n.Seen != m.Seen && n.Added != m.Added

functype wiring.BuildFunc(f, ns) (node, err)
  requires ns != nil && all() && apart()
  modifies snapTold, snapNode, snapAdded, lastErr, lastBuilt, delivered, told, toldNode, parentErr, parentNode, parentGets, parentInst, allcontents(map[string]ir.IRNode), allcontents(map[string]any), allcontents(*ir.IRNode), all(wiring.namespaceimpl, stack), allcontents([]*wiring.WiringDef), all(wiring.namespaceimpl, Deferred), allcontents(map[string]wiring.Namespace)
  ensures lastErr == err && lastBuilt == node && (err == nil ==> node != nil)
  ensures snapTold == told && snapNode == toldNode && forall m *wiring.namespaceimpl; k string :: {snapAdded[m][k]} snapAdded[m][k] == in(k, m.Added)
  ensures all() && apart()
  ensures forall n *wiring.namespaceimpl :: {n.stack} len(n.stack) == old(len(n.stack))
  ensures forall m map[string]ir.IRNode; k string :: {in(k, m)} {m[k]} old(in(k, m)) ==> in(k, m) && m[k] == old(m[k])
  ensures forall m map[string]any; k string :: {in(k, m)} old(in(k, m)) ==> in(k, m)
  ensures forall n *wiring.namespaceimpl; k string :: {in(k, n.Seen)} defOf(k) != nil && defOf(k).Build == f && !old(in(k, n.Seen)) ==> !in(k, n.Seen)
  why a builder requests other nodes through the namespace, but not the one it is itself building

iface wiring.Namespace.Get(n, name, dst) (err)
  modifies snapTold, snapNode, snapAdded, lastErr, lastBuilt, delivered, told, toldNode, parentErr, parentNode, parentGets, parentInst, allcontents(map[string]ir.IRNode), allcontents(map[string]any), allcontents(*ir.IRNode), all(wiring.namespaceimpl, stack), allcontents([]*wiring.WiringDef), all(wiring.namespaceimpl, Deferred), allcontents(map[string]wiring.Namespace), allcalls()
  ensures parentErr == err && parentGets == old(parentGets)[name := old(parentGets)[name] + 1] && parentInst == old(parentInst)
  ensures snapTold == told && snapNode == toldNode && forall m *wiring.namespaceimpl; k string :: {snapAdded[m][k]} snapAdded[m][k] == in(k, m.Added)
  ensures forall m *wiring.namespaceimpl :: {in(name, m.Seen)} any(m.ParentNamespace) == n && !old(in(name, m.Seen)) ==> !in(name, m.Seen)
  ensures err == nil && is(dst, *ir.IRNode) ==> *(dst.(*ir.IRNode)) == parentNode && parentNode != nil
  ensures all() && apart()
  ensures forall m *wiring.namespaceimpl :: {m.stack} len(m.stack) == old(len(m.stack))
  ensures forall m map[string]ir.IRNode; k string :: {in(k, m)} {m[k]} old(in(k, m)) ==> in(k, m) && m[k] == old(m[k])
  ensures forall m map[string]any; k string :: {in(k, m)} old(in(k, m)) ==> in(k, m)
iface wiring.Namespace.Instantiate(n, name, dst) (err)
  modifies snapTold, snapNode, snapAdded, lastErr, lastBuilt, delivered, told, toldNode, parentErr, parentNode, parentGets, parentInst, allcontents(map[string]ir.IRNode), allcontents(map[string]any), allcontents(*ir.IRNode), all(wiring.namespaceimpl, stack), allcontents([]*wiring.WiringDef), all(wiring.namespaceimpl, Deferred), allcontents(map[string]wiring.Namespace), allcalls()
  ensures parentErr == err && parentInst == old(parentInst)[name := old(parentInst)[name] + 1] && parentGets == old(parentGets)
  ensures snapTold == told && snapNode == toldNode && forall m *wiring.namespaceimpl; k string :: {snapAdded[m][k]} snapAdded[m][k] == in(k, m.Added)
  ensures forall m *wiring.namespaceimpl :: {in(name, m.Seen)} any(m.ParentNamespace) == n && !old(in(name, m.Seen)) ==> !in(name, m.Seen)
  ensures err == nil && is(dst, *ir.IRNode) ==> *(dst.(*ir.IRNode)) == parentNode && parentNode != nil
  ensures all() && apart()
  ensures forall m *wiring.namespaceimpl :: {m.stack} len(m.stack) == old(len(m.stack))
  ensures forall m map[string]ir.IRNode; k string :: {in(k, m)} {m[k]} old(in(k, m)) ==> in(k, m) && m[k] == old(m[k])
  ensures forall m map[string]any; k string :: {in(k, m)} old(in(k, m)) ==> in(k, m)
iface wiring.Namespace.Name(n) (s)
  pure

func (*namespaceimpl).lookupDef(n, name) (def, err)
  requires n != nil && n.Wiring != nil
  ensures known: defOf(name) != nil ==> def == defOf(name) && err == nil
  ensures unknown: defOf(name) == nil ==> err != nil

define defsOK() bool = forall s string :: {defOf(s)} defOf(s) != nil ==> defOf(s).Build != nil && defOf(s).NodeType != nil && defOf(defOf(s).Name) == defOf(s)
define here(n *wiring.namespaceimpl; name string) bool = defOf(name) != nil && defOf(name).Name == name && accepts(n.Handler, defOf(name).NodeType)
define above(n *wiring.namespaceimpl; name string) bool = defOf(name) != nil && defOf(name).Name == name && !accepts(n.Handler, defOf(name).NodeType)

func (*namespaceimpl).get(n, name, addEdge, dst) (err)
  requires n != nil && all() && apart() && defsOK()
  modifies snapTold, snapNode, snapAdded, lastErr, lastBuilt, delivered, told, toldNode, parentErr, parentNode, parentGets, parentInst, allcontents(map[string]ir.IRNode), allcontents(map[string]any), allcontents(*ir.IRNode), all(wiring.namespaceimpl, stack), allcontents([]*wiring.WiringDef), all(wiring.namespaceimpl, Deferred), allcontents(map[string]wiring.Namespace), allcalls()
  ensures all: all()
  ensures apart: apart()
  ensures keeps: forall m map[string]ir.IRNode; k string :: {in(k, m)} {m[k]} old(in(k, m)) ==> in(k, m) && m[k] == old(m[k])
  ensures keepsAdded: forall m map[string]any; k string :: {in(k, m)} old(in(k, m)) ==> in(k, m)
  ensures stack: forall m *wiring.namespaceimpl :: {m.stack} len(m.stack) == old(len(m.stack))
  ensures cached: old(in(name, n.Seen)) ==> delivered == old(delivered)[dst := old(n.Seen[name])] && err == copyErr(old(n.Seen[name]), dst) && told == old(told) && parentGets == old(parentGets) && parentInst == old(parentInst)
  ensures cachedBuilds: old(in(name, n.Seen)) ==> forall f wiring.BuildFunc :: calls(f) == old(calls(f))
  ensures unknown: !old(in(name, n.Seen)) && defOf(name) == nil ==> err != nil && delivered == old(delivered) && told == old(told) && !in(name, n.Seen)
  ensures unknownBuilds: !old(in(name, n.Seen)) && defOf(name) == nil ==> forall f wiring.BuildFunc :: calls(f) == old(calls(f))
  ensures builtOnce: !old(in(name, n.Seen)) && here(n, name) ==> calls(defOf(name).Build) == old(calls(defOf(name).Build)) + 1
  ensures built: !old(in(name, n.Seen)) && here(n, name) && lastErr == nil ==> in(name, n.Seen) && n.Seen[name] == lastBuilt && delivered[dst] == lastBuilt && err == copyErr(lastBuilt, dst)
  ensures failed: !old(in(name, n.Seen)) && here(n, name) && lastErr != nil ==> err == lastErr && !in(name, n.Seen)
  ensures recorded: !old(in(name, n.Seen)) && here(n, name) && lastErr == nil ==> in(nodeName(lastBuilt), n.Added)
  ensures orphan: !old(in(name, n.Seen)) && above(n, name) && n.ParentNamespace == nil ==> err != nil && delivered == old(delivered) && told == old(told) && !in(name, n.Seen)
  ensures delegated: !old(in(name, n.Seen)) && above(n, name) && n.ParentNamespace != nil && addEdge ==> (parentErr != nil ==> err == parentErr) && (parentErr == nil ==> in(name, n.Seen) && n.Seen[name] == parentNode && delivered[dst] == parentNode && err == copyErr(parentNode, dst) && in(nodeName(parentNode), n.Added))
  ensures instantiated: !old(in(name, n.Seen)) && above(n, name) && n.ParentNamespace != nil && !addEdge ==> (parentErr != nil ==> err == parentErr) && (parentErr == nil ==> delivered[dst] == parentNode && err == copyErr(parentNode, dst))
  ensures recordedNode: !old(in(name, n.Seen)) && here(n, name) && lastErr == nil && !defOf(name).Options.ProxyNode && !snapAdded[n][nodeName(lastBuilt)] ==> told[n.Handler][nodeName(lastBuilt)] == snapTold[n.Handler][nodeName(lastBuilt)] + 1 && toldNode[n.Handler][nodeName(lastBuilt)] == snapNode[n.Handler][nodeName(lastBuilt)] + 1
  ensures notRecordedAgain: !old(in(name, n.Seen)) && here(n, name) && lastErr == nil && (defOf(name).Options.ProxyNode || snapAdded[n][nodeName(lastBuilt)]) ==> told == snapTold && toldNode == snapNode
  ensures recordedEdge: !old(in(name, n.Seen)) && above(n, name) && n.ParentNamespace != nil && addEdge && parentErr == nil && !defOf(name).Options.ProxyNode && !is(parentNode, ir.IRMetadata) && !snapAdded[n][nodeName(parentNode)] ==> told[n.Handler][nodeName(parentNode)] == snapTold[n.Handler][nodeName(parentNode)] + 1 && toldNode == snapNode
  ensures noEdge: !old(in(name, n.Seen)) && above(n, name) && n.ParentNamespace != nil && (parentErr != nil || !addEdge || defOf(name).Options.ProxyNode || is(parentNode, ir.IRMetadata) || snapAdded[n][nodeName(parentNode)]) ==> told == snapTold && toldNode == snapNode && forall k string :: {in(k, n.Added)} parentErr != nil || !addEdge ==> in(k, n.Added) == snapAdded[n][k]
  ensures consistent: err == nil && (addEdge || defOf(name) == nil || defOf(name).Name == name) && in(name, n.Seen) ==> n.Seen[name] == delivered[dst]
  ensures alias: addEdge && !old(in(name, n.Seen)) && defOf(name) != nil && defOf(name).Name != name && err == nil && in(name, n.Seen) && in(defOf(name).Name, n.Seen) ==> n.Seen[name] == n.Seen[defOf(name).Name] && delivered[dst] == n.Seen[name]
  ensures result: err == nil && is(dst, *ir.IRNode) ==> *(dst.(*ir.IRNode)) != nil && *(dst.(*ir.IRNode)) == delivered[dst]

func (*namespaceimpl).Put(n, name, node) (err)
  requires n != nil && n.Seen != nil && n.Handler != nil && node != nil
  modifies contents(n.Seen), told, toldNode, parentErr
  ensures put: in(name, n.Seen) && n.Seen[name] == node
  ensures others: forall k string :: {in(k, n.Seen)} {n.Seen[k]} k != name ==> (in(k, n.Seen) <==> old(in(k, n.Seen))) && n.Seen[k] == old(n.Seen[k])
  ensures here: accepts(n.Handler, node) ==> err == nil && toldNode[n.Handler][nodeName(node)] == old(toldNode)[n.Handler][nodeName(node)] + 1
  ensures orphan: !accepts(n.Handler, node) && n.ParentNamespace == nil ==> err != nil && told == old(told)
  ensures above: !accepts(n.Handler, node) && n.ParentNamespace != nil && err != nil ==> told == old(told)

iface wiring.Namespace.Put(n, name, node) (err)
  modifies parentErr
  ensures parentErr == err

func (*namespaceimpl).GetNamespace(n, name) (child, err)
  requires n != nil && n.ChildNamespaces != nil
  ensures known: in(name, n.ChildNamespaces) ==> child == n.ChildNamespaces[name] && err == nil
  ensures unknown: !in(name, n.ChildNamespaces) ==> err != nil

func (*namespaceimpl).DeriveNamespace(n, name, handler) (child, err)
  requires n != nil && n.ChildNamespaces != nil && handler != nil
  modifies contents(n.ChildNamespaces)
  ensures again: old(in(name, n.ChildNamespaces)) ==> err != nil && n.ChildNamespaces[name] == old(n.ChildNamespaces[name])
  ensures new: !old(in(name, n.ChildNamespaces)) ==> err == nil && is(child, *wiring.namespaceimpl) && fresh(child.(*wiring.namespaceimpl)) && n.ChildNamespaces[name] == child
  ensures child: !old(in(name, n.ChildNamespaces)) ==> child.(*wiring.namespaceimpl).ParentNamespace == any(n) && child.(*wiring.namespaceimpl).Handler == handler && child.(*wiring.namespaceimpl).Wiring == n.Wiring && child.(*wiring.namespaceimpl).NamespaceName == name
  ensures empty: !old(in(name, n.ChildNamespaces)) ==> fresh(child.(*wiring.namespaceimpl).Seen) && fresh(child.(*wiring.namespaceimpl).Added) && fresh(child.(*wiring.namespaceimpl).ChildNamespaces) && forall k string :: {in(k, child.(*wiring.namespaceimpl).Seen)} {in(k, child.(*wiring.namespaceimpl).Added)} {in(k, child.(*wiring.namespaceimpl).ChildNamespaces)} !in(k, child.(*wiring.namespaceimpl).Seen) && !in(k, child.(*wiring.namespaceimpl).Added) && !in(k, child.(*wiring.namespaceimpl).ChildNamespaces)
  ensures others: forall k string :: {in(k, n.ChildNamespaces)} {n.ChildNamespaces[k]} k != name ==> (in(k, n.ChildNamespaces) <==> old(in(k, n.ChildNamespaces))) && n.ChildNamespaces[k] == old(n.ChildNamespaces[k])

iface wiring.Namespace.Defer(n, f, options)
  modifies all(wiring.namespaceimpl, Deferred)

func (*namespaceimpl).Defer(n, f, options)
  requires n != nil
  modifies all(wiring.namespaceimpl, Deferred), contents(n.Deferred)
  ensures queued: n.ParentNamespace == nil ==> len(n.Deferred) == old(len(n.Deferred)) + 1
  ensures back: n.ParentNamespace == nil && (len(options) == 0 || !old(options[0].Front)) ==> n.Deferred[len(n.Deferred) - 1] == f && forall i int :: {n.Deferred[i]} 0 <= i && i < old(len(n.Deferred)) ==> n.Deferred[i] == old(n.Deferred[i])
  ensures front: n.ParentNamespace == nil && len(options) > 0 && old(options[0].Front) ==> n.Deferred[0] == f && forall i int :: {n.Deferred[i]} 1 <= i && i < len(n.Deferred) ==> n.Deferred[i] == old(n.Deferred[i - 1])
