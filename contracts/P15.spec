property P15
include std.inc
package ir = "github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
package address = "github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"

// rank(i): how many of the first i nodes are of the selected kind (a definition, satisfiable for every list)
ufun rank(i int) int

func ir.Is(nodeType) (ok)
  ensures kind: ok == is(nodeType, T)

func ir.Filter(nodes) (ts)
  requires definition: rank(0) == 0 && forall i int :: {nodes[i]} {rank(i)} 0 <= i < len(nodes) ==> rank(i + 1) == rank(i) + ite(is(nodes[i], T), 1, 0)
  ensures count: len(ts) == rank(len(nodes))
  ensures selected: forall i int :: {nodes[i]} 0 <= i < len(nodes) && is(nodes[i], T) ==> 0 <= rank(i) && rank(i) < len(ts) && ts[rank(i)] == nodes[i].(T)
  invariant <ts []T> count: len(ts) == rank($k)
  invariant bound: 0 <= rank($k) && forall i int :: {nodes[i]} 0 <= i < $k ==> 0 <= rank(i) && rank(i) + ite(is(nodes[i], T), 1, 0) <= rank($k)
  invariant <ts []T> selected: forall i int :: {nodes[i]} 0 <= i < $k && is(nodes[i], T) ==> ts[rank(i)] == nodes[i].(T)

func ir.FilterNodes(nodes) (ts)
  requires definition: rank(0) == 0 && forall i int :: {nodes[i]} {rank(i)} 0 <= i < len(nodes) ==> rank(i + 1) == rank(i) + ite(is(nodes[i], T), 1, 0)
  ensures count: len(ts) == rank(len(nodes))
  ensures selected: forall i int :: {nodes[i]} 0 <= i < len(nodes) && is(nodes[i], T) ==> 0 <= rank(i) && rank(i) < len(ts) && ts[rank(i)] == nodes[i]
  invariant <ts []ir.IRNode> count: len(ts) == rank($k)
  invariant bound: 0 <= rank($k) && forall i int :: {nodes[i]} 0 <= i < $k ==> 0 <= rank(i) && rank(i) + ite(is(nodes[i], T), 1, 0) <= rank($k)
  invariant <ts []ir.IRNode> selected: forall i int :: {nodes[i]} 0 <= i < $k && is(nodes[i], T) ==> ts[rank(i)] == nodes[i]

func ir.Remove(nodes) (rest)
  requires definition: rank(0) == 0 && forall i int :: {nodes[i]} {rank(i)} 0 <= i < len(nodes) ==> rank(i + 1) == rank(i) + ite(is(nodes[i], T), 0, 1)
  ensures count: len(rest) == rank(len(nodes))
  ensures kept: forall i int :: {nodes[i]} 0 <= i < len(nodes) && !is(nodes[i], T) ==> 0 <= rank(i) && rank(i) < len(rest) && rest[rank(i)] == nodes[i]
  invariant <rest []ir.IRNode> count: len(rest) == rank($k)
  invariant bound: 0 <= rank($k) && forall i int :: {nodes[i]} 0 <= i < $k ==> 0 <= rank(i) && rank(i) + ite(is(nodes[i], T), 0, 1) <= rank($k)
  invariant <rest []ir.IRNode> kept: forall i int :: {nodes[i]} 0 <= i < $k && !is(nodes[i], T) ==> rest[rank(i)] == nodes[i]

func ir.Split(nodes) (remaining, matches)
  requires definition: rank(0) == 0 && forall i int :: {nodes[i]} {rank(i)} 0 <= i < len(nodes) ==> rank(i + 1) == rank(i) + ite(is(nodes[i], T), 1, 0)
  ensures count: len(matches) == rank(len(nodes)) && len(remaining) == len(nodes) - rank(len(nodes))
  ensures selected: forall i int :: {nodes[i]} 0 <= i < len(nodes) && is(nodes[i], T) ==> 0 <= rank(i) && rank(i) < len(matches) && matches[rank(i)] == nodes[i].(T)
  ensures kept: forall i int :: {nodes[i]} 0 <= i < len(nodes) && !is(nodes[i], T) ==> 0 <= i - rank(i) && i - rank(i) < len(remaining) && remaining[i - rank(i)] == nodes[i]
  invariant <matches []T> count: len(matches) == rank($k)
  invariant <remaining []ir.IRNode> count: len(remaining) == $k - rank($k)
  invariant bound: 0 <= rank($k) && rank($k) <= $k && forall i int :: {nodes[i]} 0 <= i < $k ==> 0 <= rank(i) && rank(i) <= i && rank(i) + ite(is(nodes[i], T), 1, 0) <= rank($k) && i - rank(i) + ite(is(nodes[i], T), 0, 1) <= $k - rank($k)
  invariant <matches []T> selected: forall i int :: {nodes[i]} 0 <= i < $k && is(nodes[i], T) ==> matches[rank(i)] == nodes[i].(T)
  invariant <remaining []ir.IRNode> kept: forall i int :: {nodes[i]} 0 <= i < $k && !is(nodes[i], T) ==> remaining[i - rank(i)] == nodes[i]

ufun rankD(i int) int
func address.Split(nodes) (binds, dials, remaining)
  requires definition: rank(0) == 0 && rankD(0) == 0 && forall i int :: {nodes[i]} 0 <= i < len(nodes) ==> rank(i + 1) == rank(i) + ite(is(nodes[i], *address.BindConfig), 1, 0) && rankD(i + 1) == rankD(i) + ite(is(nodes[i], *address.DialConfig), 1, 0)
  ensures count: len(binds) == rank(len(nodes)) && len(dials) == rankD(len(nodes)) && len(remaining) == len(nodes) - rank(len(nodes)) - rankD(len(nodes))
  ensures binds: forall i int :: {nodes[i]} 0 <= i < len(nodes) && is(nodes[i], *address.BindConfig) ==> 0 <= rank(i) && rank(i) < len(binds) && binds[rank(i)] == nodes[i].(*address.BindConfig)
  ensures dials: forall i int :: {nodes[i]} 0 <= i < len(nodes) && is(nodes[i], *address.DialConfig) ==> 0 <= rankD(i) && rankD(i) < len(dials) && dials[rankD(i)] == nodes[i].(*address.DialConfig)
  ensures kept: forall i int :: {nodes[i]} 0 <= i < len(nodes) && !is(nodes[i], *address.BindConfig) && !is(nodes[i], *address.DialConfig) ==> 0 <= i - rank(i) - rankD(i) && i - rank(i) - rankD(i) < len(remaining) && remaining[i - rank(i) - rankD(i)] == nodes[i]
  invariant <binds []*address.BindConfig> count: len(binds) == rank($k)
  invariant <dials []*address.DialConfig> count: len(dials) == rankD($k)
  invariant <remaining []ir.IRNode> count: len(remaining) == $k - rank($k) - rankD($k)
  invariant bound: 0 <= rank($k) && 0 <= rankD($k) && rank($k) + rankD($k) <= $k && forall i int :: {nodes[i]} 0 <= i < $k ==> 0 <= rank(i) && 0 <= rankD(i) && rank(i) + rankD(i) <= i && rank(i) + ite(is(nodes[i], *address.BindConfig), 1, 0) <= rank($k) && rankD(i) + ite(is(nodes[i], *address.DialConfig), 1, 0) <= rankD($k) && i - rank(i) - rankD(i) + ite(is(nodes[i], *address.BindConfig) || is(nodes[i], *address.DialConfig), 0, 1) <= $k - rank($k) - rankD($k)
  invariant <binds []*address.BindConfig> binds: forall i int :: {nodes[i]} 0 <= i < $k && is(nodes[i], *address.BindConfig) ==> binds[rank(i)] == nodes[i].(*address.BindConfig)
  invariant <dials []*address.DialConfig> dials: forall i int :: {nodes[i]} 0 <= i < $k && is(nodes[i], *address.DialConfig) ==> dials[rankD(i)] == nodes[i].(*address.DialConfig)
  invariant <remaining []ir.IRNode> kept: forall i int :: {nodes[i]} 0 <= i < $k && !is(nodes[i], *address.BindConfig) && !is(nodes[i], *address.DialConfig) ==> remaining[i - rank(i) - rankD(i)] == nodes[i]

func ir.(*VisitTrackerImpl).Visited(tracker, name) (seen)
  requires tracker != nil
  modifies tracker.visited, contents(tracker.visited)
  ensures truthful: seen == (old(tracker.visited) != nil && old(in(name, tracker.visited)))
  ensures recorded: tracker.visited != nil && in(name, tracker.visited)
  ensures others: forall k string :: {in(k, tracker.visited)} k != name ==> (in(k, tracker.visited) <==> (old(tracker.visited) != nil && old(in(k, tracker.visited))))

bounded dir=blueprint/pkg/ir file=P15_lists_test.go run=TestGovcP15
