property P13
include std.inc
bounded dir=blueprint/pkg/coreplugins/pointer file=P13_pointer_test.go run=TestVerifP13Pointers
package pointer = "github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
load wiring = "github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
load ir = "github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
load address = "github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"

load blueprint = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
extern blueprint.Errorf(format, args) (err)
  pure
  ensures err != nil

// what the wiring spec records (its own contract is P11)
ghost aliases gmap[string]string
ghost ptrs gmap[string]*pointer.PointerDef
ghost addrs gmap[string]*address.AddressDef
ghost isAlias gmap[string]bool

iface wiring.WiringSpec.Alias(s, alias, pointsto)
  modifies aliases, isAlias, ptrs
  ensures aliases == old(aliases)[alias := pointsto] && isAlias == old(isAlias)[alias := true] && ptrs == old(ptrs)[alias := zero(*pointer.PointerDef)]
  why proved for the implementation by P11
iface wiring.WiringSpec.GetAlias(s, alias) (name, found)
  pure
  ensures found == isAlias[alias] && (found ==> name == aliases[alias])
  why proved for the implementation by P11
iface wiring.WiringSpec.GetDef(s, name) (def)
  pure
  ensures def == defs[name]
  why proved for the implementation by P11
iface wiring.WiringSpec.AddError(s, err)
  modifies errors
  ensures errors == old(errors) + 1
iface wiring.WiringSpec.Define(s, name, nodeType, build, options)
  modifies isAlias
  ensures isAlias == old(isAlias)[name := false]
  why proved for the implementation by P11
iface wiring.WiringSpec.SetProperty(s, name, propKey, propValue)
  modifies ptrs, isAlias
  ensures isAlias == old(isAlias)[name := false]
  ensures propKey == "ptr" && is(propValue, *pointer.PointerDef) ==> ptrs == old(ptrs)[name := propValue.(*pointer.PointerDef)]
  why proved for the implementation by P11
iface wiring.WiringSpec.GetProperty(s, name, key, dst) (err)
  modifies allcontents(**pointer.PointerDef)
  ensures key == "ptr" && is(dst, **pointer.PointerDef) ==> *(dst.(**pointer.PointerDef)) == ite(ptrs[name] == nil, old(*(dst.(**pointer.PointerDef))), ptrs[name])
  why proved for the implementation by P11; a name without the property leaves the destination at its zero value

ghost defs gmap[string]*wiring.WiringDef
ghost errors int

define leads(a string; b string) bool = isAlias[a] && aliases[a] == b
define next(m string) string = m + ".ptr.src.next"
// the client side: srcHead leads to the first modifier, each modifier's next leads to the one added after it, the last leads to the interface
define stops(p *pointer.PointerDef) bool = p.srcTail == ite(len(p.srcModifiers) == 0, p.srcHead, next(p.srcModifiers[len(p.srcModifiers) - 1])) && leads(p.srcTail, p.interfaceNode)
define links(p *pointer.PointerDef) bool = len(p.srcModifiers) > 0 ==> leads(p.srcHead, p.srcModifiers[0]) && forall i int :: {p.srcModifiers[i]} 0 <= i && i + 1 < len(p.srcModifiers) ==> leads(next(p.srcModifiers[i]), p.srcModifiers[i + 1])
define distinct(p *pointer.PointerDef) bool = forall i int; j int :: {p.srcModifiers[i], p.srcModifiers[j]} 0 <= i && i < j && j < len(p.srcModifiers) ==> next(p.srcModifiers[i]) != next(p.srcModifiers[j])
define apart(p *pointer.PointerDef) bool = forall i int :: {p.srcModifiers[i]} 0 <= i && i < len(p.srcModifiers) ==> next(p.srcModifiers[i]) != p.srcHead
define chain(p *pointer.PointerDef) bool = stops(p) && links(p) && distinct(p) && apart(p)
define dstOK(p *pointer.PointerDef) bool = len(p.dstModifiers) > 0 && p.dstModifiers[0] == p.dstHead
define unused(p *pointer.PointerDef; m string) bool = next(m) != p.srcHead && forall i int :: {p.srcModifiers[i]} 0 <= i && i < len(p.srcModifiers) ==> next(p.srcModifiers[i]) != next(m)

func (*PointerDef).AddSrcModifier(ptr, spec, modifierName) (nextName)
  requires spec != nil && ptr != nil && chain(ptr) && unused(ptr, modifierName)
  modifies aliases, isAlias, ptrs, ptr.srcTail, ptr.srcModifiers, contents(ptr.srcModifiers)
  ensures stops: stops(ptr)
  ensures links: links(ptr)
  ensures names: distinct(ptr) && apart(ptr)
  ensures appended: len(ptr.srcModifiers) == old(len(ptr.srcModifiers)) + 1 && ptr.srcModifiers[len(ptr.srcModifiers) - 1] == modifierName
  ensures earlier: forall i int :: {ptr.srcModifiers[i]} 0 <= i && i < old(len(ptr.srcModifiers)) ==> ptr.srcModifiers[i] == old(ptr.srcModifiers[i])
  ensures next: nextName == ptr.srcTail && nextName == next(modifierName) && leads(nextName, ptr.interfaceNode)
  ensures reached: leads(old(ptr.srcTail), modifierName)
  ensures others: forall n string :: {aliases[n]} {isAlias[n]} n != old(ptr.srcTail) && n != next(modifierName) ==> aliases[n] == old(aliases[n]) && isAlias[n] == old(isAlias[n])

func (*PointerDef).AddDstModifier(ptr, spec, modifierName, options) (nextName)
  requires spec != nil && ptr != nil && chain(ptr) && dstOK(ptr)
  modifies aliases, isAlias, ptrs, ptr.dstHead, ptr.interfaceNode, ptr.dstModifiers
  ensures wraps: nextName == old(ptr.dstHead) && ptr.dstHead == modifierName
  ensures prepended: len(ptr.dstModifiers) == old(len(ptr.dstModifiers)) + 1 && ptr.dstModifiers[0] == modifierName
  ensures earlier: forall i int :: {ptr.dstModifiers[i]} 1 <= i && i < len(ptr.dstModifiers) ==> ptr.dstModifiers[i] == old(ptr.dstModifiers[i - 1])
  ensures interface: ptr.interfaceNode == ite(len(options) == 0 || old(options[0].IsInterfaceNode), modifierName, old(ptr.interfaceNode))
  ensures stops: stops(ptr)
  ensures links: links(ptr)
  ensures names: distinct(ptr) && apart(ptr) && dstOK(ptr)
  ensures others: forall n string :: {aliases[n]} {isAlias[n]} n != ptr.srcTail || len(options) > 0 && !old(options[0].IsInterfaceNode) ==> aliases[n] == old(aliases[n]) && isAlias[n] == old(isAlias[n])

extern address.GetAddress(spec, name) (def)
  pure
  ensures def == addrs[name]

func (*PointerDef).AddAddrModifier(ptr, spec, addrName) (nextName)
  requires spec != nil && ptr != nil && chain(ptr) && dstOK(ptr)
  modifies aliases, isAlias, ptrs, ptr.dstHead, ptr.interfaceNode, ptr.dstModifiers
  ensures noAddress: addrs[addrName] == nil ==> nextName == "" && aliases == old(aliases) && ptr.interfaceNode == old(ptr.interfaceNode) && ptr.dstHead == old(ptr.dstHead) && len(ptr.dstModifiers) == old(len(ptr.dstModifiers))
  ensures wraps: addrs[addrName] != nil ==> nextName == old(ptr.dstHead) && ptr.dstHead == addrs[addrName].PointsTo && ptr.interfaceNode == addrName && len(ptr.dstModifiers) == old(len(ptr.dstModifiers)) + 1 && ptr.dstModifiers[0] == ptr.dstHead
  ensures earlier: addrs[addrName] != nil ==> forall i int :: {ptr.dstModifiers[i]} 1 <= i && i < len(ptr.dstModifiers) ==> ptr.dstModifiers[i] == old(ptr.dstModifiers[i - 1])
  ensures stops: stops(ptr)
  ensures links: links(ptr)
  ensures names: distinct(ptr) && apart(ptr) && dstOK(ptr)
  ensures others: forall n string :: {aliases[n]} {isAlias[n]} n != ptr.srcTail ==> aliases[n] == old(aliases[n]) && isAlias[n] == old(isAlias[n])

func GetPointer(spec, name) (ptr)
  requires spec != nil
  modifies allcontents(**pointer.PointerDef)
  ensures found: ptr == ptrs[name]

func RequireUniqueness(spec, alias, visibility)
  requires spec != nil
  modifies aliases, isAlias, ptrs, errors
  ensures unknown: !old(isAlias[alias]) || old(defs[aliases[alias]]) == nil ==> errors == old(errors) + 1 && aliases == old(aliases) && isAlias == old(isAlias) && ptrs == old(ptrs)
  ensures checked: old(isAlias[alias]) && old(defs[aliases[alias]]) != nil ==> errors == old(errors) && leads(alias, old(aliases[alias]) + ".uniqueness_check")
  ensures ptrs: forall n string :: {ptrs[n]} n != alias ==> ptrs[n] == old(ptrs[n])
  ensures others: forall n string :: {aliases[n]} n != alias ==> aliases[n] == old(aliases[n])
  ensures otherAliases: forall n string :: {isAlias[n]} n != alias && n != old(aliases[alias]) + ".visibility" && n != old(aliases[alias]) + ".uniqueness_check" ==> isAlias[n] == old(isAlias[n])

func pointer.CreatePointer(spec, name, dst, options) (ptr)
  requires spec != nil
  modifies aliases, isAlias, ptrs, errors
  ensures new: ptr != nil && fresh(ptr) && ptr.name == name && ptr.srcHead == name + ".src" && len(ptr.srcModifiers) == 0
  ensures stops: stops(ptr)
  ensures rest: links(ptr) && distinct(ptr) && apart(ptr) && dstOK(ptr)
  ensures dst: len(ptr.dstModifiers) == 1 && ptr.interfaceNode == ptr.dstHead
  ensures unique: len(options) > 0 ==> ptr.dstHead == ite(old(options[0].RequireUniqueness) == nil, dst, name + ".dst")
  ensures found: ptrs[name] == ptr && !isAlias[name]
  ensures otherPtrs: forall n string :: {ptrs[n]} n != name && n != name + ".src" && n != name + ".dst" ==> ptrs[n] == old(ptrs[n])
  ensures others: forall n string :: {aliases[n]} n != name + ".src" && n != name + ".dst" ==> aliases[n] == old(aliases[n])

// building the server side
ghost failed bool
ghost fetched gmap[string]any
ghost asked gmap[string]bool
ghost dests gmap[any]any
iface wiring.Namespace.Get(n, name, dst) (err)
  modifies failed, fetched, dests, allcontents(*ir.IRNode)
  ensures failed == (old(failed) || err != nil)
  ensures err == nil && is(dst, *ir.IRNode) ==> fetched == old(fetched)[name := *(dst.(*ir.IRNode))]
  why P12
iface wiring.Namespace.Instantiate(n, name, dst) (err)
  modifies failed, asked, dests, allcontents(*ir.IRNode)
  ensures failed == (old(failed) || err != nil) && asked == old(asked)[name := true]
  why P12
iface wiring.Namespace.Info(n, message, args)
  pure
iface wiring.Namespace.Name(n) (s)
  pure
iface wiring.Namespace.Error(n, message, args) (err)
  pure
  ensures err != nil
iface address.Node.GetDestination(a) (d)
  pure
  ensures d == dests[a]
iface address.Node.Name(a) (s)
  pure

func (*PointerDef).InstantiateDst(ptr, namespace) (err)
  requires ptr != nil && namespace != nil && dstOK(ptr)
  modifies failed, fetched, asked, dests, allcontents(*ir.IRNode)
  ensures propagates: failed && !old(failed) ==> err != nil
  ensures built: err == nil && is(fetched[ptr.interfaceNode], address.Node) ==> dests[fetched[ptr.interfaceNode]] != nil
  ensures starts: forall n string :: {asked[n]} n != ptr.dstHead ==> asked[n] == old(asked[n])
  ensures kept: ptr.dstHead == old(ptr.dstHead) && ptr.interfaceNode == old(ptr.interfaceNode)
