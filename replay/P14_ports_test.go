package address_test

// Replay harness for property P14: random bind address lists against the port-assignment rules.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
)

type p14snap struct {
	host, key, name string
	port, pref      uint16
}

func p14take(bs []*address.BindConfig) (out []p14snap) {
	for _, b := range bs {
		out = append(out, p14snap{b.Hostname, b.Key, b.AddressName, b.Port, b.PreferredPort})
	}
	return
}

func p14mk(i int, port, pref uint16) *address.BindConfig {
	b := &address.BindConfig{PreferredPort: pref}
	b.Key = fmt.Sprintf("srv%d.bind_addr", i)
	b.AddressName = fmt.Sprintf("srv%d.addr", i)
	b.Hostname = fmt.Sprintf("host%d", i%3)
	b.Port = port
	return b
}

func p14desc(pre []p14snap) string {
	if len(pre) > 40 {
		return fmt.Sprintf("%d addresses, the first %s", len(pre), p14desc(pre[:8]))
	}
	s := "["
	for _, p := range pre {
		s += fmt.Sprintf(" port=%d/preferred=%d", p.port, p.pref)
	}
	return s + " ]"
}

func p14assign(binds, outside []*address.BindConfig) string {
	pre, preOut := p14take(binds), p14take(outside)
	desc := p14desc(pre)
	type ret struct {
		a, b []*address.BindConfig
		err  error
		p    any
	}
	ch := make(chan ret, 1)
	go func() {
		var r ret
		defer func() { r.p = recover(); ch <- r }()
		r.a, r.b, r.err = address.AssignPorts(binds)
	}()
	var r ret
	select {
	case r = <-ch:
	case <-time.After(20 * time.Second):
		return desc + ": AssignPorts does not return"
	}
	if r.p != nil {
		return fmt.Sprintf("%s: panic %v", desc, r.p)
	}
	post := p14take(binds)
	for i, o := range p14take(outside) {
		if o != preOut[i] {
			return desc + ": an address that is not in the list was changed"
		}
	}
	used := map[uint16]int{}
	conflict := false
	for i, p := range pre {
		if p.port == 0 {
			continue
		}
		if _, dup := used[p.port]; dup {
			conflict = true
		}
		used[p.port] = i
	}
	if conflict {
		if r.err == nil {
			return desc + ": conflicting explicit ports were accepted"
		}
		for i := range pre {
			if pre[i].port != 0 && post[i].port != pre[i].port {
				return desc + ": an explicit port changed although the assignment failed"
			}
		}
		return ""
	}
	if len(binds) > 65535 {
		if r.err == nil {
			return desc + ": accepted although there are not enough ports"
		}
		return ""
	}
	if r.err != nil {
		return fmt.Sprintf("%s: rejected although no explicit ports conflict: %v", desc, r.err)
	}
	seen := map[uint16]int{}
	var wantPre, wantAsg []*address.BindConfig
	for i, p := range post {
		if p.port == 0 {
			return fmt.Sprintf("%s: address %d has no port", desc, i)
		}
		if j, dup := seen[p.port]; dup {
			return fmt.Sprintf("%s: addresses %d and %d share port %d", desc, j, i, p.port)
		}
		seen[p.port] = i
		if pre[i].port != 0 && p.port != pre[i].port {
			return fmt.Sprintf("%s: explicit port %d of address %d became %d", desc, pre[i].port, i, p.port)
		}
		if p.host != pre[i].host || p.key != pre[i].key || p.name != pre[i].name {
			return fmt.Sprintf("%s: another field of address %d changed", desc, i)
		}
		if pre[i].port != 0 {
			wantPre = append(wantPre, binds[i])
		} else {
			wantAsg = append(wantAsg, binds[i])
		}
	}
	for i, p := range post {
		w := pre[i].pref
		if pre[i].port == 0 && w != 0 && p.port != w {
			if _, taken := seen[w]; !taken {
				return fmt.Sprintf("%s: address %d got port %d although its preferred port %d was free", desc, i, p.port, w)
			}
		}
	}
	same := func(a, b []*address.BindConfig) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if !same(r.a, wantPre) || !same(r.b, wantAsg) {
		return desc + ": the returned lists of kept and assigned addresses are wrong"
	}
	// a second assignment keeps everything
	if _, as, err := address.AssignPorts(binds); err != nil || len(as) != 0 {
		return fmt.Sprintf("%s: assigning again assigns %d more (%v)", desc, len(as), err)
	}
	for i, p := range p14take(binds) {
		if p.port != post[i].port {
			return desc + ": assigning again changes a port"
		}
	}
	// clearing what was assigned removes exactly those assignments
	address.Clear(r.b)
	for i, p := range p14take(binds) {
		if pre[i].port == 0 && (p.port != 0 || p.host != "") {
			return desc + ": clearing leaves an assignment behind"
		}
		if pre[i].port != 0 && (p.port != pre[i].port || p.host != pre[i].host) {
			return desc + ": clearing the assigned addresses changed another address"
		}
		if p.key != pre[i].key || p.name != pre[i].name {
			return desc + ": clearing changed a name"
		}
	}
	address.SetHostname("h", r.b)
	for i, p := range p14take(binds) {
		w := pre[i].host
		if pre[i].port == 0 {
			w = "h"
		}
		if p.host != w {
			return desc + ": SetHostname set the wrong hostnames"
		}
	}
	return ""
}

func TestGovcP14(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed))
	n := 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 300000
	}
	vals := [][]uint16{{0, 2000, 2001, 2002, 12345}, {0, 65535, 65534, 1, 2}, {0, 2000}, {0, 0, 0, 65533, 65534, 65535, 1999}}
	bad := 0
	fail := func(m string) {
		if m != "" && bad < 5 {
			bad++
			t.Errorf("FAILING-INPUT: AssignPorts %s", m)
		}
	}
	for it := 0; it < n && bad == 0; it++ {
		v := vals[rng.Intn(len(vals))]
		k := rng.Intn(9)
		var bs, out []*address.BindConfig
		for i := 0; i < k; i++ {
			var p uint16
			if rng.Intn(3) == 0 {
				p = v[rng.Intn(len(v))]
			}
			b := p14mk(i, p, v[rng.Intn(len(v))])
			if rng.Intn(5) == 0 {
				out = append(out, b)
			} else {
				bs = append(bs, b)
			}
		}
		fail(p14assign(bs, out))
	}
	// full port ranges
	for _, k := range []int{65534, 65535, 65536} {
		var bs []*address.BindConfig
		for i := 0; i < k; i++ {
			var p, w uint16
			if i < 65000 {
				p = uint16(i + 1)
			} else if i%2 == 0 {
				w = uint16(rng.Intn(65536))
			}
			bs = append(bs, p14mk(i, p, w))
		}
		fail(p14assign(bs, nil))
	}
	fmt.Printf("COVERED: %d random lists of up to 8 addresses and 3 lists around 65535 addresses\n", n)
}
