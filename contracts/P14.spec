property P14
include std.inc
package address = "github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
load blueprint = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
extern blueprint.Errorf(format, args) (err)
  pure
  ensures err != nil

// idx(b): the position of a bind address in the list (well defined because the list has no duplicates)
ufun idx(b *address.BindConfig) int
define listed(binds []*address.BindConfig; n int; b *address.BindConfig) bool = 0 <= idx(b) && idx(b) < n && binds[idx(b)] == b
define unset(b *address.BindConfig) bool = b != nil && old(b.Port) == 0
define distinct(binds []*address.BindConfig) bool = forall i int :: {binds[i]} 0 <= i && i < len(binds) ==> binds[i] != nil && idx(binds[i]) == i

func SetHostname(hostname, nodes)
  requires distinct(nodes)
  modifies all(address.BindConfig, addressConfig)
  ensures set: forall i int :: {nodes[i]} 0 <= i && i < len(nodes) ==> nodes[i].Hostname == hostname
  ensures rest: forall b *address.BindConfig :: {b.addressConfig} b.Port == old(b.Port) && b.Key == old(b.Key) && b.AddressName == old(b.AddressName)
  ensures others: forall b *address.BindConfig :: {b.addressConfig} !listed(nodes, len(nodes), b) ==> b.addressConfig == old(b.addressConfig)
  invariant set: forall i int :: {nodes[i]} 0 <= i && i < $k ==> nodes[i].Hostname == hostname
  invariant rest: forall b *address.BindConfig :: {b.addressConfig} b.Port == old(b.Port) && b.Key == old(b.Key) && b.AddressName == old(b.AddressName)
  invariant others: forall b *address.BindConfig :: {b.addressConfig} !listed(nodes, $k, b) ==> b.addressConfig == old(b.addressConfig)

func Clear(binds)
  requires distinct(binds)
  modifies all(address.BindConfig, addressConfig)
  ensures cleared: forall i int :: {binds[i]} 0 <= i && i < len(binds) ==> binds[i].Hostname == "" && binds[i].Port == 0
  ensures rest: forall b *address.BindConfig :: {b.addressConfig} b.Key == old(b.Key) && b.AddressName == old(b.AddressName)
  ensures others: forall b *address.BindConfig :: {b.addressConfig} !listed(binds, len(binds), b) ==> b.addressConfig == old(b.addressConfig)
  invariant cleared: forall i int :: {binds[i]} 0 <= i && i < $k ==> binds[i].Hostname == "" && binds[i].Port == 0
  invariant rest: forall b *address.BindConfig :: {b.addressConfig} b.Key == old(b.Key) && b.AddressName == old(b.AddressName)
  invariant others: forall b *address.BindConfig :: {b.addressConfig} !listed(binds, $k, b) ==> b.addressConfig == old(b.addressConfig)

// rank(i): how many of the first i addresses already had a port
ufun rank(i int) int

func AssignPorts(binds) (preassigned, assigned, err)
  requires distinct(binds)
  requires definition: rank(0) == 0 && forall i int :: {binds[i]} {rank(i)} 0 <= i && i < len(binds) ==> rank(i + 1) == rank(i) + ite(binds[i].Port != 0, 1, 0)
  modifies all(address.BindConfig, addressConfig), all(address.BindConfig, PreferredPort)
  ensures assigned: err == nil ==> forall i int :: {binds[i]} 0 <= i && i < len(binds) ==> binds[i].Port != 0
  ensures unique: err == nil ==> forall i int; j int :: {binds[i], binds[j]} 0 <= i && i < j && j < len(binds) ==> binds[i].Port != binds[j].Port
  ensures kept: forall i int :: {binds[i]} 0 <= i && i < len(binds) && old(binds[i].Port) != 0 ==> binds[i].Port == old(binds[i].Port)
  ensures preferred: err == nil ==> forall i int :: {binds[i]} 0 <= i && i < len(binds) && old(binds[i].Port) == 0 && old(binds[i].PreferredPort) != 0 && binds[i].Port != old(binds[i].PreferredPort) ==> exists j int :: {binds[j]} 0 <= j && j < len(binds) && j != i && binds[j].Port == old(binds[i].PreferredPort)
  ensures recorded: err == nil ==> forall i int :: {binds[i]} 0 <= i && i < len(binds) ==> binds[i].PreferredPort == binds[i].Port
  ensures conflict: (exists i int; j int :: {binds[i], binds[j]} 0 <= i && i < j && j < len(binds) && old(binds[i].Port) != 0 && old(binds[i].Port) == old(binds[j].Port)) ==> err != nil
  ensures onlyConflict: err != nil && len(binds) <= 65535 ==> exists i int; j int :: {binds[i], binds[j]} 0 <= i && i < j && j < len(binds) && old(binds[i].Port) != 0 && old(binds[i].Port) == old(binds[j].Port)
  ensures nothingOnError: err != nil ==> forall b *address.BindConfig :: {b.addressConfig} {b.PreferredPort} b.addressConfig == old(b.addressConfig) && b.PreferredPort == old(b.PreferredPort)
  ensures lists: err == nil ==> len(preassigned) == rank(len(binds)) && len(assigned) == len(binds) - rank(len(binds)) && forall i int :: {binds[i]} 0 <= i && i < len(binds) ==> ite(old(binds[i].Port) != 0, preassigned[rank(i)] == binds[i], assigned[i - rank(i)] == binds[i])
  ensures restKey: forall b *address.BindConfig :: {b.addressConfig} b.Key == old(b.Key)
  ensures restAddressName: forall b *address.BindConfig :: {b.addressConfig} b.AddressName == old(b.AddressName)
  ensures restHostname: forall b *address.BindConfig :: {b.addressConfig} b.Hostname == old(b.Hostname)
  ensures others: forall b *address.BindConfig :: {b.addressConfig} {b.PreferredPort} !listed(binds, len(binds), b) ==> b.addressConfig == old(b.addressConfig) && b.PreferredPort == old(b.PreferredPort)
  invariant loop 0 <ports map[uint16]*address.BindConfig> inMap: forall i int :: {binds[i]} 0 <= i && i < $k && binds[i].Port != 0 ==> in(binds[i].Port, ports) && ports[binds[i].Port] == binds[i]
  invariant loop 0 <ports map[uint16]*address.BindConfig> ofMap: forall p uint16 :: {in(p, ports)} {ports[p]} in(p, ports) ==> p != 0 && ports[p].Port == p && listed(binds, $k, ports[p])
  invariant loop 0 bound: 0 <= rank($k) && rank($k) <= $k && forall i int :: {binds[i]} 0 <= i && i < $k ==> 0 <= rank(i) && rank(i) <= i && rank(i) + ite(old(binds[i].Port) != 0, 1, 0) <= rank($k) && i - rank(i) + ite(old(binds[i].Port) != 0, 0, 1) <= $k - rank($k)
  invariant loop 0 <preassigned []*address.BindConfig> countPre: len(preassigned) == rank($k)
  invariant loop 0 <assigned []*address.BindConfig> countAsg: len(assigned) == $k - rank($k)
  invariant loop 0 <preassigned []*address.BindConfig> pre: forall i int :: {binds[i]} 0 <= i && i < $k && binds[i].Port != 0 ==> preassigned[rank(i)] == binds[i]
  invariant loop 0 <assigned []*address.BindConfig> asg: forall i int :: {binds[i]} 0 <= i && i < $k && binds[i].Port == 0 ==> assigned[i - rank(i)] == binds[i]
  invariant loop 0 <assigned []*address.BindConfig> asgOf1: forall j int :: {assigned[j]} 0 <= j && j < len(assigned) ==> listed(binds, $k, assigned[j])
  invariant loop 0 <assigned []*address.BindConfig> asgOf2: forall j int :: {assigned[j]} 0 <= j && j < len(assigned) ==> unset(assigned[j])
  invariant loop 0 <assigned []*address.BindConfig> asgOf3: forall j int :: {assigned[j]} 0 <= j && j < len(assigned) ==> idx(assigned[j]) - rank(idx(assigned[j])) == j
  invariant loop 0 <ports map[uint16]*address.BindConfig> size: len(ports) == rank($k)
  invariant <ports map[uint16]*address.BindConfig> inMapAll: forall i int :: {binds[i]} 0 <= i && i < len(binds) && binds[i].Port != 0 ==> in(binds[i].Port, ports) && ports[binds[i].Port] == binds[i]
  invariant <ports map[uint16]*address.BindConfig> ofMapAll: forall p uint16 :: {in(p, ports)} {ports[p]} in(p, ports) ==> p != 0 && ports[p].Port == p && listed(binds, len(binds), ports[p])
  invariant kept: forall i int :: {binds[i]} 0 <= i && i < len(binds) && old(binds[i].Port) != 0 ==> binds[i].Port == old(binds[i].Port)
  invariant <assigned []*address.BindConfig> done: forall j int :: {assigned[j]} 0 <= j && j < $k ==> assigned[j].Port != 0
  invariant <assigned []*address.BindConfig> todo: forall j int :: {assigned[j]} $k <= j && j < len(assigned) ==> assigned[j].Port == 0
  invariant <ports map[uint16]*address.BindConfig> taken: forall i int :: {binds[i]} 0 <= i && i < len(binds) && old(binds[i].Port) == 0 && old(binds[i].PreferredPort) != 0 && binds[i].Port != 0 && binds[i].Port != old(binds[i].PreferredPort) ==> in(old(binds[i].PreferredPort), ports)
  invariant <addr *address.BindConfig; p uint16; ports map[uint16]*address.BindConfig> skipped: addr.PreferredPort != 0 && p != addr.PreferredPort ==> in(addr.PreferredPort, ports)
  invariant recorded: forall i int :: {binds[i]} 0 <= i && i < $k ==> binds[i].PreferredPort == binds[i].Port
  invariant notYet: forall i int :: {binds[i]} $k <= i && i < len(binds) ==> binds[i].PreferredPort == old(binds[i].PreferredPort)
  invariant restKey: forall b *address.BindConfig :: {b.addressConfig} b.Key == old(b.Key)
  invariant restAddressName: forall b *address.BindConfig :: {b.addressConfig} b.AddressName == old(b.AddressName)
  invariant restHostname: forall b *address.BindConfig :: {b.addressConfig} b.Hostname == old(b.Hostname)
  invariant others: forall b *address.BindConfig :: {b.addressConfig} {b.PreferredPort} !listed(binds, len(binds), b) ==> b.addressConfig == old(b.addressConfig) && b.PreferredPort == old(b.PreferredPort)
  invariant prefSame: forall b *address.BindConfig :: {b.PreferredPort} b.PreferredPort == old(b.PreferredPort)
bounded dir=blueprint/pkg/coreplugins/address file=P14_ports_test.go run=TestGovcP14
