package kubepod

// Replay harness for property P19: random declarations and settings, the generated Kubernetes
// deployment and service files read back as YAML and compared with what was declared.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"gopkg.in/yaml.v3"
)

type p19conf struct {
	name     string
	opt, val bool
}

func (c *p19conf) Name() string        { return c.name }
func (c *p19conf) String() string      { return c.name }
func (c *p19conf) Optional() bool      { return c.opt }
func (c *p19conf) HasValue() bool      { return c.val }
func (c *p19conf) Value() string       { return "v" }
func (c *p19conf) ImplementsIRConfig() {}

type p19inst struct {
	name, image, build string
	env                map[string]string
	expose             map[string]bool
	ports              map[string]string
	vols               map[string]string
	cmd                []string
	conf               map[string]string
	cm                 map[string]bool
	args               []ir.IRNode
}

func p19clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}
func p19env(s string) string { return strings.ToUpper(p19clean(s)) }

var p19names = []string{"a_ctr", "a.ctr", "b_ctr", "b ctr", "c_ctr", "db", "cache"}
var p19vals = []string{"x", "", "1", "true", "a=b", "a: b", "#c", " pad ", `q"uo'te`, "{x}", "<&>", "a,b", "tab\there", "null", "0x10", "[1]", "- y", "back\\slash"}

func p19keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func p19join(m map[string]string, sep string) (out []string) {
	for k, v := range m {
		out = append(out, k+sep+v)
	}
	sort.Strings(out)
	return
}

func p19eq(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

func TestVerifP19Kube(t *testing.T) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	dir := t.TempDir()
	budget := 4 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 60 * time.Second
	}
	start := time.Now()
	n := 0
	for time.Since(start) < budget && n < 20000 {
		rnd := rand.New(rand.NewSource(seed*1000003 + int64(n)))
		if log, bad := p19round(rnd, dir, n); bad != "" {
			t.Fatalf("FAILING-INPUT: seed %d round %d: %s\n%s\n%s", seed, n, strings.SplitN(bad, "\n", 2)[0], strings.Join(log, "\n"), bad)
		}
		n++
	}
	fmt.Printf("COVERED: %d descriptor files\n", n)
}

func p19round(rnd *rand.Rand, dir string, n int) (log []string, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	reg := []string{"", "reg.io/u"}[rnd.Intn(2)]
	d := NewKubePodWorkspace("my_dep", dir, reg)
	model := map[string]*p19inst{}
	preset := map[*address.BindConfig]uint16{}
	used := map[uint16]bool{}
	addrs := 0
	var addrNames []string
	declare := func() {
		name := p19names[rnd.Intn(len(p19names))]
		in := &p19inst{name: name, env: map[string]string{}, expose: map[string]bool{}, ports: map[string]string{}, vols: map[string]string{}, conf: map[string]string{}, cm: map[string]bool{}}
		for i := rnd.Intn(4); i > 0; i-- {
			switch rnd.Intn(4) {
			case 0, 1:
				b := &address.BindConfig{PreferredPort: uint16(rnd.Intn(3) * 2000)}
				addrs++
				b.AddressName = fmt.Sprintf("s%d.addr", addrs)
				b.Key = fmt.Sprintf("s%d.bind_addr", addrs)
				if rnd.Intn(2) == 0 {
					p := uint16(1 + rnd.Intn(65535))
					if !used[p] {
						used[p] = true
						b.Port = p
						preset[b] = p
					}
				}
				addrNames = append(addrNames, b.AddressName)
				in.args = append(in.args, b)
			case 2:
				dl := &address.DialConfig{}
				an := "other.addr"
				if len(addrNames) > 0 && rnd.Intn(3) > 0 {
					an = addrNames[rnd.Intn(len(addrNames))]
				} else if rnd.Intn(2) == 0 {
					an = fmt.Sprintf("s%d.addr", addrs+1)
				}
				dl.AddressName = an
				dl.Key = strings.TrimSuffix(an, ".addr") + ".dial_addr"
				in.args = append(in.args, dl)
			default:
				in.args = append(in.args, &p19conf{name: fmt.Sprintf("conf.%d", rnd.Intn(4)), opt: rnd.Intn(2) == 0, val: true})
			}
		}
		var err error
		if rnd.Intn(2) == 0 {
			in.image = []string{"mongo", "redis:7", "reg.io/x/y:1.2+b"}[rnd.Intn(3)]
			log = append(log, fmt.Sprintf("DeclarePrebuiltInstance(%q, %q, %v)", name, in.image, in.args))
			err = d.DeclarePrebuiltInstance(name, in.image, in.args...)
		} else {
			if reg != "" {
				in.image = reg + "/" + name
			}
			log = append(log, fmt.Sprintf("DeclareLocalImage(%q, %q, %v)", name, "dir", in.args))
			err = d.DeclareLocalImage(name, "dir", in.args...)
		}
		if (err != nil) != (model[p19clean(name)] != nil) {
			bad = fmt.Sprintf("declaring %q: error %v, but declared before: %v", name, err, model[p19clean(name)] != nil)
			return
		}
		if err == nil {
			model[p19clean(name)] = in
		}
	}
	for i := 2 + rnd.Intn(14); i > 0 && bad == ""; i-- {
		if rnd.Intn(3) == 0 {
			declare()
			continue
		}
		name := p19names[rnd.Intn(len(p19names))]
		in := model[p19clean(name)]
		v := p19vals[rnd.Intn(len(p19vals))]
		k := []string{"k1", "k.2", "K_3"}[rnd.Intn(3)]
		p := uint16(1 + rnd.Intn(5))
		var err error
		var call string
		var apply func()
		switch rnd.Intn(8) {
		case 0, 1:
			call = fmt.Sprintf("SetEnvironmentVariable(%q, %q, %q)", name, k, v)
			err = d.SetEnvironmentVariable(name, k, v)
			apply = func() { in.env[p19env(k)] = v }
		case 2:
			k = p19env(k) + "_CM"
			call = fmt.Sprintf("AddConfigMapVar(%q, %q)", name, k)
			err = d.F.AddConfigMapVar(name, k)
			apply = func() { in.cm[k] = true }
		case 3, 4:
			pn := []string{"http", "my_rpc", "x.addr"}[rnd.Intn(3)]
			call = fmt.Sprintf("ExposePort(%q, %q, %d)", name, pn, p)
			err = d.F.ExposePort(name, pn, p)
			apply = func() { in.ports[pn] = fmt.Sprint(p) }
		case 5:
			cmd := []string{"run", v, p19vals[rnd.Intn(len(p19vals))]}[:rnd.Intn(4)]
			call = fmt.Sprintf("SetCustomCommand(%q, %q)", name, cmd)
			err = d.SetCustomCommand(name, cmd)
			apply = func() { in.cmd = cmd }
		case 6:
			src := "/host/" + k
			dst := "/ctr/" + fmt.Sprint(rnd.Intn(3))
			call = fmt.Sprintf("AddVolume(%q, %q, %q)", name, src, dst)
			err = d.AddVolume(name, src, dst)
			apply = func() { in.vols[src] = dst }
		default:
			key := []string{"gpus", "init"}[rnd.Intn(2)]
			val := []string{"all", "none"}[rnd.Intn(2)]
			call = fmt.Sprintf("AddCustomConf(%q, %q, %q)", name, key, val)
			err = d.AddCustomConf(name, key, val)
			apply = func() { in.conf[key] = val }
		}
		log = append(log, call)
		if (err != nil) != (in == nil) {
			return log, fmt.Sprintf("%s: error %v, but the instance is declared: %v", call, err, in != nil)
		}
		if err == nil {
			apply()
		}
	}
	if bad != "" {
		return
	}
	if err := d.Finish(); err != nil {
		return log, fmt.Sprintf("Finish: %v", err)
	}
	// what the argument nodes add
	// what the argument nodes add: ports are unique across the pod
	taken := map[uint16]string{}
	local := map[string]string{}
	nd := 0
	for cn, in := range model {
		for _, a := range in.args {
			if x, ok := a.(*address.DialConfig); ok {
				nd++
				_ = x
			}
			if b, ok := a.(*address.BindConfig); ok {
				if b.Port == 0 {
					return log, fmt.Sprintf("instance %s: server %s has no port", cn, b.Name())
				}
				if o, dup := taken[b.Port]; dup {
					return log, fmt.Sprintf("instance %s: servers %s and %s share port %d", cn, o, b.Name(), b.Port)
				}
				taken[b.Port] = b.Name()
				if w := preset[b]; w != 0 && w != b.Port {
					return log, fmt.Sprintf("instance %s: server %s must have port %d, has %d", cn, b.Name(), w, b.Port)
				} else if w == 0 {
					in.env[p19env(b.Name())] = fmt.Sprintf("0.0.0.0:%d", b.Port)
				}
				in.ports[b.AddressName] = fmt.Sprint(b.Port)
				local[b.AddressName] = fmt.Sprintf("localhost:%d", b.Port)
			}
		}
	}
	if len(d.AllBinds) != len(taken) || len(d.AllDials) != nd {
		return log, fmt.Sprintf("the pod reports %d servers and %d dials, it has %d and %d", len(d.AllBinds), len(d.AllDials), len(taken), nd)
	}
	raw, err := os.ReadFile(filepath.Join(dir, "my-dep-deployment.yaml"))
	if err != nil {
		return log, err.Error()
	}
	rawS, err := os.ReadFile(filepath.Join(dir, "my-dep-service.yaml"))
	if err != nil {
		return log, err.Error()
	}
	fail := func(f string, a ...any) (l []string, b string) {
		return log, fmt.Sprintf(f, a...) + "\n" + string(raw) + "\n" + string(rawS)
	}
	var doc struct {
		Spec struct {
			Template struct {
				Spec struct {
					Containers []struct {
						Name  string
						Image string
						Env   []map[string]any
						Ports []map[string]any
						Args  []string
					}
				}
			}
		}
	}
	if err := yaml.Unmarshal(raw, &doc); err != nil {
		return fail("the deployment file is not valid YAML: %v", err)
	}
	var svc struct {
		Spec struct {
			Ports []map[string]any
		}
	}
	if err := yaml.Unmarshal(rawS, &svc); err != nil {
		return fail("the service file is not valid YAML: %v", err)
	}
	kn := func(s string) string { return strings.NewReplacer("_", "-", ".", "-").Replace(s) }
	ctrs := doc.Spec.Template.Spec.Containers
	if len(ctrs) != len(model) {
		return fail("%d instances were declared, the file has %d", len(model), len(ctrs))
	}
	var wantS, gotS []string
	for cn, in := range model {
		at := -1
		for i, c := range ctrs {
			if c.Name == kn(cn) {
				at = i
			}
		}
		if at < 0 {
			return fail("instance %s is missing", cn)
		}
		c := ctrs[at]
		for _, a := range in.args {
			if x, ok := a.(*address.DialConfig); ok {
				if addr, ok := local[x.AddressName]; ok {
					in.env[p19env(x.Name())] = addr
				} else {
					in.cm[p19env(x.Name())] = true
				}
			}
		}
		if c.Image != in.image {
			return fail("instance %s: image %q, declared %q", cn, c.Image, in.image)
		}
		var env, cm, ports, wp []string
		for _, e := range c.Env {
			if v, ok := e["value"]; ok {
				s, isStr := v.(string)
				if !isStr {
					return fail("instance %s: the value of %v is not a string", cn, e["name"])
				}
				env = append(env, fmt.Sprint(e["name"])+"="+s)
			} else {
				vf, _ := e["valueFrom"].(map[string]any)
				ref, _ := vf["configMapKeyRef"].(map[string]any)
				if ref["name"] != "app-config" || ref["key"] != e["name"] {
					return fail("instance %s: variable %v is not taken from the configuration map", cn, e["name"])
				}
				cm = append(cm, fmt.Sprint(e["name"]))
			}
		}
		sort.Strings(env)
		sort.Strings(cm)
		if w := p19join(in.env, "="); !p19eq(env, w) {
			return fail("instance %s: environment %q, want %q", cn, env, w)
		}
		if w := p19keys(in.cm); !p19eq(cm, w) {
			return fail("instance %s: variables from the configuration map %q, want %q", cn, cm, w)
		}
		for _, p := range c.Ports {
			ports = append(ports, fmt.Sprint(p["containerPort"]))
		}
		for n, p := range in.ports {
			wp = append(wp, p)
			wantS = append(wantS, kn(n)+" "+p+" "+p)
		}
		sort.Strings(ports)
		sort.Strings(wp)
		if !p19eq(ports, wp) {
			return fail("instance %s: ports %q, want %q", cn, ports, wp)
		}
	}
	for _, p := range svc.Spec.Ports {
		gotS = append(gotS, fmt.Sprintf("%v %v %v", p["name"], p["port"], p["targetPort"]))
	}
	sort.Strings(wantS)
	sort.Strings(gotS)
	if !p19eq(gotS, wantS) {
		return fail("the service exposes %q, want %q", gotS, wantS)
	}
	return
}
