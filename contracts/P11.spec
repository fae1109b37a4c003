property P11
include std.inc
bounded dir=blueprint/pkg/wiring file=P11_wiring_test.go run=TestVerifP11Wiring
package wiring = "github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
load logging = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"

extern logging.GetCallstack() (c)
  pure

// deliveries to a reader's destination (the reflective copy itself is checked against P06's rules by the harness)
ghost delivered gmap[any]any
ghost unset gmap[any]bool
ufun copyErr(src any; dst any) any
ufun zeroErr(dst any) any
extern wiring.copyResult(src, dst) (err)
  modifies delivered, unset
  ensures delivered == old(delivered)[dst := src] && unset == old(unset)[dst := false]
  ensures err == copyErr(src, dst)
  why the reflective copy is checked by the harness
extern wiring.setZero(dst) (err)
  modifies unset
  ensures unset == old(unset)[dst := true] && err == zeroErr(dst)
  why the reflective reset is checked by the harness

// the specification store
define own(s *wiring.wiringSpecImpl) bool = s != nil && s.defs != nil && s.aliases != nil && forall n string :: {s.defs[n]} in(n, s.defs) ==> s.defs[n] != nil && s.defs[n].Name == n && s.defs[n].Properties != nil && !in(n, s.aliases)
define apart(s *wiring.wiringSpecImpl) bool = forall n string; m string :: {s.defs[n], s.defs[m]} in(n, s.defs) && in(m, s.defs) && n != m ==> s.defs[n].Properties != s.defs[m].Properties
define lists(s *wiring.wiringSpecImpl) bool = forall n string; k string; m string; j string :: {s.defs[n].Properties[k], s.defs[m].Properties[j]} in(n, s.defs) && in(m, s.defs) && in(k, s.defs[n].Properties) && in(j, s.defs[m].Properties) && (n != m || k != j) ==> base(s.defs[n].Properties[k]) != base(s.defs[m].Properties[j]) || base(s.defs[n].Properties[k]) == 0

define defined(s *wiring.wiringSpecImpl; n string) bool = in(n, s.defs)
define hasProp(s *wiring.wiringSpecImpl; n string; k string) bool = in(n, s.defs) && in(k, s.defs[n].Properties)

// target(n): the name that n finally refers to (least fixed point of following aliases; cyclic aliases have none)
ufun target(n string) string
define resolves(s *wiring.wiringSpecImpl) bool = forall n string :: {target(n)} {in(n, s.aliases)} target(n) == ite(in(n, s.aliases), target(s.aliases[n]), n)

func (*wiringSpecImpl).resolveAlias(s, alias) (name)
  requires own(s) && resolves(s)
  ensures target: name == target(alias)
  ensures final: !in(name, s.aliases)
  invariant <a string> target: target(a) == target(alias)

func (*wiringSpecImpl).getDef(s, name, createIfAbsent) (def)
  requires own(s) && apart(s) && lists(s)
  modifies contents(s.defs), contents(s.aliases)
  ensures own: own(s) && apart(s) && lists(s)
  ensures lens: !createIfAbsent ==> len(s.defs) == old(len(s.defs)) && len(s.aliases) == old(len(s.aliases))
  ensures existing: old(in(name, s.defs)) ==> def == old(s.defs[name])
  ensures absent: !createIfAbsent && !old(in(name, s.defs)) ==> def == nil
  ensures created: createIfAbsent ==> def != nil && in(name, s.defs) && s.defs[name] == def && !in(name, s.aliases)
  ensures empty: createIfAbsent && !old(in(name, s.defs)) ==> fresh(def) && fresh(def.Properties) && def.Build == nil && def.NodeType == nil && def.Options.ReturnType == nil && !def.Options.ProxyNode && forall k string :: {in(k, def.Properties)} !in(k, def.Properties)
  ensures others: forall n string :: {in(n, s.defs)} {s.defs[n]} n != name || !createIfAbsent ==> (in(n, s.defs) <==> old(in(n, s.defs))) && s.defs[n] == old(s.defs[n])
  ensures aliases: forall n string :: {in(n, s.aliases)} {s.aliases[n]} n != name || !createIfAbsent || old(in(name, s.defs)) ==> (in(n, s.aliases) <==> old(in(n, s.aliases))) && s.aliases[n] == old(s.aliases[n])

func (*wiringSpecImpl).Define(s, name, nodeType, build, options)
  requires own(s) && apart(s) && lists(s)
  modifies contents(s.defs), contents(s.aliases), contents(s.defs[name]), contents(s.defs[name].Properties)
  ensures own: own(s) && apart(s) && lists(s)
  ensures defined: in(name, s.defs) && s.defs[name].Name == name && s.defs[name].NodeType == nodeType && s.defs[name].Build == build
  ensures options: len(options) > 0 ==> s.defs[name].Options.ProxyNode == old(options[0].ProxyNode) && s.defs[name].Options.ReturnType == ite(old(options[0].ReturnType) == nil, nodeType, old(options[0].ReturnType))
  ensures noOptions: len(options) == 0 ==> !s.defs[name].Options.ProxyNode && s.defs[name].Options.ReturnType == nodeType
  ensures properties: forall k string :: {in(k, s.defs[name].Properties)} {s.defs[name].Properties[k]} k != "callsite" ==> (in(k, s.defs[name].Properties) <==> old(hasProp(s, name, k))) && (old(hasProp(s, name, k)) ==> s.defs[name].Properties[k] == old(s.defs[name].Properties[k]))
  ensures others: forall n string :: {in(n, s.defs)} {s.defs[n]} n != name ==> (in(n, s.defs) <==> old(in(n, s.defs))) && s.defs[n] == old(s.defs[n])
  ensures aliases: forall n string :: {in(n, s.aliases)} {s.aliases[n]} n != name ==> (in(n, s.aliases) <==> old(in(n, s.aliases))) && s.aliases[n] == old(s.aliases[n])

func (*wiringSpecImpl).GetDef(s, name) (def)
  requires own(s) && apart(s) && lists(s) && resolves(s)
  ensures found: in(target(name), s.defs) ==> def == s.defs[target(name)] && def.Name == target(name)
  ensures absent: !in(target(name), s.defs) ==> def == nil

func (*wiringSpecImpl).Alias(s, alias, pointsto)
  requires own(s) && apart(s) && lists(s)
  modifies contents(s.defs), contents(s.aliases)
  ensures own: own(s) && apart(s) && lists(s)
  ensures aliased: in(alias, s.aliases) && s.aliases[alias] == pointsto && !in(alias, s.defs)
  ensures others: forall n string :: {in(n, s.defs)} {s.defs[n]} n != alias ==> (in(n, s.defs) <==> old(in(n, s.defs))) && s.defs[n] == old(s.defs[n])
  ensures aliases: forall n string :: {in(n, s.aliases)} {s.aliases[n]} n != alias ==> (in(n, s.aliases) <==> old(in(n, s.aliases))) && s.aliases[n] == old(s.aliases[n])

func (*wiringSpecImpl).GetAlias(s, alias) (name, found)
  requires own(s)
  ensures alias: found == in(alias, s.aliases) && name == ite(in(alias, s.aliases), s.aliases[alias], "")

func (*wiringSpecImpl).SetProperty(s, name, propKey, propValue)
  requires own(s) && apart(s) && lists(s)
  modifies contents(s.defs), contents(s.aliases), contents(s.defs[name].Properties)
  ensures own: own(s) && apart(s) && lists(s)
  ensures set: in(name, s.defs) && in(propKey, s.defs[name].Properties) && len(s.defs[name].Properties[propKey]) == 1 && s.defs[name].Properties[propKey][0] == propValue
  ensures kept: old(in(name, s.defs)) ==> s.defs[name] == old(s.defs[name])
  ensures properties: forall k string :: {in(k, s.defs[name].Properties)} {s.defs[name].Properties[k]} k != propKey ==> (in(k, s.defs[name].Properties) <==> old(hasProp(s, name, k))) && (old(hasProp(s, name, k)) ==> s.defs[name].Properties[k] == old(s.defs[name].Properties[k]))
  ensures others: forall n string :: {in(n, s.defs)} {s.defs[n]} n != name ==> (in(n, s.defs) <==> old(in(n, s.defs))) && s.defs[n] == old(s.defs[n])
  ensures aliases: forall n string :: {in(n, s.aliases)} {s.aliases[n]} n != name ==> (in(n, s.aliases) <==> old(in(n, s.aliases))) && s.aliases[n] == old(s.aliases[n])

func (*wiringSpecImpl).AddProperty(s, name, propKey, propValue)
  requires own(s) && apart(s) && lists(s)
  modifies contents(s.defs), contents(s.aliases), contents(s.defs[name].Properties), contents(s.defs[name].Properties[propKey])
  ensures own: own(s) && apart(s) && lists(s)
  ensures added: in(name, s.defs) && in(propKey, s.defs[name].Properties) && len(s.defs[name].Properties[propKey]) == ite(old(hasProp(s, name, propKey)), old(len(s.defs[name].Properties[propKey])), 0) + 1 && s.defs[name].Properties[propKey][len(s.defs[name].Properties[propKey]) - 1] == propValue
  ensures order: old(hasProp(s, name, propKey)) ==> forall i int :: {s.defs[name].Properties[propKey][i]} 0 <= i && i < len(s.defs[name].Properties[propKey]) - 1 ==> s.defs[name].Properties[propKey][i] == old(s.defs[name].Properties[propKey][i])
  ensures kept: old(in(name, s.defs)) ==> s.defs[name] == old(s.defs[name])
  ensures properties: forall k string :: {in(k, s.defs[name].Properties)} {s.defs[name].Properties[k]} k != propKey ==> (in(k, s.defs[name].Properties) <==> old(hasProp(s, name, k))) && (old(hasProp(s, name, k)) ==> s.defs[name].Properties[k] == old(s.defs[name].Properties[k]))
  ensures others: forall n string :: {in(n, s.defs)} {s.defs[n]} n != name ==> (in(n, s.defs) <==> old(in(n, s.defs))) && s.defs[n] == old(s.defs[n])
  ensures aliases: forall n string :: {in(n, s.aliases)} {s.aliases[n]} n != name ==> (in(n, s.aliases) <==> old(in(n, s.aliases))) && s.aliases[n] == old(s.aliases[n])

func (*WiringDef).GetProperty(def, key, dst) (err)
  requires def != nil && def.Properties != nil
  modifies delivered, unset
  ensures one: in(key, def.Properties) && len(def.Properties[key]) == 1 ==> delivered == old(delivered)[dst := def.Properties[key][0]] && err == copyErr(def.Properties[key][0], dst)
  ensures absent: !(in(key, def.Properties) && len(def.Properties[key]) == 1) ==> delivered == old(delivered) && unset[dst] && err == zeroErr(dst)

func (*WiringDef).GetProperties(def, key, dst) (err)
  requires def != nil && def.Properties != nil
  modifies delivered, unset
  ensures all: delivered == old(delivered)[dst := any(ite(in(key, def.Properties), def.Properties[key], zero([]any)))] && err == copyErr(any(ite(in(key, def.Properties), def.Properties[key], zero([]any))), dst)

func (*wiringSpecImpl).GetProperty(s, name, key, dst) (err)
  requires own(s) && apart(s) && lists(s)
  modifies delivered, unset
  ensures one: hasProp(s, name, key) && len(s.defs[name].Properties[key]) == 1 ==> delivered == old(delivered)[dst := s.defs[name].Properties[key][0]] && err == copyErr(s.defs[name].Properties[key][0], dst)
  ensures absent: in(name, s.defs) && !(hasProp(s, name, key) && len(s.defs[name].Properties[key]) == 1) ==> delivered == old(delivered) && unset[dst] && err == zeroErr(dst)
  ensures undefined: !in(name, s.defs) ==> delivered == old(delivered) && unset == old(unset) && err == nil

func (*wiringSpecImpl).GetProperties(s, name, key, dst) (err)
  requires own(s) && apart(s) && lists(s)
  modifies delivered, unset
  ensures all: in(name, s.defs) ==> delivered == old(delivered)[dst := any(ite(in(key, s.defs[name].Properties), s.defs[name].Properties[key], zero([]any)))] && err == copyErr(any(ite(in(key, s.defs[name].Properties), s.defs[name].Properties[key], zero([]any))), dst)
  ensures undefined: !in(name, s.defs) ==> delivered == old(delivered) && unset == old(unset) && err == nil

func (*wiringSpecImpl).Defs(s) (names)
  requires own(s)
  ensures count: len(names) == len(s.defs)
  ensures real: forall i int :: {names[i]} 0 <= i && i < len(names) ==> in(names[i], s.defs)
  invariant <names []string> real: forall i int :: {names[i]} 0 <= i && i < len(names) ==> in(names[i], s.defs) && $visited[names[i]]
  invariant <names []string> distinct: forall i int; j int :: {names[i], names[j]} 0 <= i && i < j && j < len(names) ==> names[i] != names[j]
  ensures distinct: forall i int; j int :: {names[i], names[j]} 0 <= i && i < j && j < len(names) ==> names[i] != names[j]

func NewWiringSpec(name) (spec)
  ensures store: is(spec, *wiring.wiringSpecImpl) && own(spec.(*wiring.wiringSpecImpl)) && apart(spec.(*wiring.wiringSpecImpl)) && lists(spec.(*wiring.wiringSpecImpl))
  ensures empty: forall n string :: !in(n, spec.(*wiring.wiringSpecImpl).defs) && !in(n, spec.(*wiring.wiringSpecImpl).aliases)
