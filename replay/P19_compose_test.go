package dockercompose

// Replay harness for property P19: random declarations and settings, the generated docker-compose
// file read back as YAML and compared with what was declared.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"gopkg.in/yaml.v3"
)

type p19conf struct {
	name     string
	opt, val bool
}

func (c *p19conf) Name() string        { return c.name }
func (c *p19conf) String() string      { return c.name }
func (c *p19conf) Optional() bool      { return c.opt }
func (c *p19conf) HasValue() bool      { return c.val }
func (c *p19conf) Value() string       { return "v" }
func (c *p19conf) ImplementsIRConfig() {}

type p19inst struct {
	name, image, build string
	env                map[string]string
	expose             map[string]bool
	ports              map[string]string
	vols               map[string]string
	cmd                []string
	conf               map[string]string
	args               []ir.IRNode
}

func p19clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}
func p19env(s string) string { return strings.ToUpper(p19clean(s)) }
func p19req(s string) string {
	return fmt.Sprintf("${%v?%v must be set by the calling environment}", p19env(s), s)
}

var p19names = []string{"a_ctr", "a.ctr", "b_ctr", "b ctr", "c_ctr", "db", "cache"}
var p19vals = []string{"x", "", "1", "true", "a=b", "a: b", "#c", " pad ", `q"uo'te`, "{x}", "<&>", "a,b", "tab\there", "null", "0x10", "[1]", "- y", "back\\slash"}

func p19list(v any) (out []string) {
	if l, ok := v.([]any); ok {
		for _, e := range l {
			out = append(out, fmt.Sprint(e))
		}
	} else if v != nil {
		out = append(out, fmt.Sprintf("not a list: %v", v))
	}
	sort.Strings(out)
	return
}

func p19keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func p19join(m map[string]string, sep string) (out []string) {
	for k, v := range m {
		out = append(out, k+sep+v)
	}
	sort.Strings(out)
	return
}

func p19eq(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

func TestVerifP19Compose(t *testing.T) {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	dir := t.TempDir()
	budget := 4 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 60 * time.Second
	}
	start := time.Now()
	n := 0
	for time.Since(start) < budget && n < 20000 {
		rnd := rand.New(rand.NewSource(seed*1000003 + int64(n)))
		if log, bad := p19round(rnd, dir, n); bad != "" {
			t.Fatalf("FAILING-INPUT: seed %d round %d: %s\n%s\n%s", seed, n, strings.SplitN(bad, "\n", 2)[0], strings.Join(log, "\n"), bad)
		}
		n++
	}
	fmt.Printf("COVERED: %d descriptor files\n", n)
}

func p19round(rnd *rand.Rand, dir string, n int) (log []string, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	d := NewDockerComposeWorkspace("dep", dir)
	model := map[string]*p19inst{}
	preset := map[*address.BindConfig]uint16{}
	addrs := 0
	var addrNames []string
	declare := func() {
		name := p19names[rnd.Intn(len(p19names))]
		in := &p19inst{name: name, env: map[string]string{}, expose: map[string]bool{}, ports: map[string]string{}, vols: map[string]string{}, conf: map[string]string{}}
		used := map[uint16]bool{}
		for i := rnd.Intn(4); i > 0; i-- {
			switch rnd.Intn(4) {
			case 0, 1:
				b := &address.BindConfig{PreferredPort: uint16(rnd.Intn(3) * 2000)}
				addrs++
				b.AddressName = fmt.Sprintf("s%d.addr", addrs)
				b.Key = fmt.Sprintf("s%d.bind_addr", addrs)
				if rnd.Intn(2) == 0 {
					p := uint16(1 + rnd.Intn(65535))
					if !used[p] {
						used[p] = true
						b.Port = p
						preset[b] = p
					}
				}
				addrNames = append(addrNames, b.AddressName)
				in.args = append(in.args, b)
			case 2:
				dl := &address.DialConfig{}
				an := "other.addr"
				if len(addrNames) > 0 && rnd.Intn(3) > 0 {
					an = addrNames[rnd.Intn(len(addrNames))]
				} else if rnd.Intn(2) == 0 {
					an = fmt.Sprintf("s%d.addr", addrs+1)
				}
				dl.AddressName = an
				dl.Key = strings.TrimSuffix(an, ".addr") + ".dial_addr"
				in.args = append(in.args, dl)
			default:
				in.args = append(in.args, &p19conf{name: fmt.Sprintf("conf.%d", rnd.Intn(4)), opt: rnd.Intn(2) == 0, val: rnd.Intn(2) == 0})
			}
		}
		var err error
		if rnd.Intn(2) == 0 {
			in.image = []string{"mongo", "redis:7", "reg.io/x/y:1.2+b"}[rnd.Intn(3)]
			log = append(log, fmt.Sprintf("DeclarePrebuiltInstance(%q, %q, %v)", name, in.image, in.args))
			err = d.DeclarePrebuiltInstance(name, in.image, in.args...)
		} else {
			in.build = "img_" + p19clean(name)
			log = append(log, fmt.Sprintf("DeclareLocalImage(%q, %q, %v)", name, in.build, in.args))
			err = d.DeclareLocalImage(name, in.build, in.args...)
		}
		if (err != nil) != (model[p19clean(name)] != nil) {
			bad = fmt.Sprintf("declaring %q: error %v, but declared before: %v", name, err, model[p19clean(name)] != nil)
			return
		}
		if err == nil {
			model[p19clean(name)] = in
		}
	}
	for i := 2 + rnd.Intn(14); i > 0 && bad == ""; i-- {
		if rnd.Intn(3) == 0 {
			declare()
			continue
		}
		name := p19names[rnd.Intn(len(p19names))]
		in := model[p19clean(name)]
		v := p19vals[rnd.Intn(len(p19vals))]
		k := []string{"k1", "k.2", "K_3"}[rnd.Intn(3)]
		p := uint16(1 + rnd.Intn(5))
		var err error
		var call string
		var apply func()
		switch rnd.Intn(8) {
		case 0, 1:
			call = fmt.Sprintf("SetEnvironmentVariable(%q, %q, %q)", name, k, v)
			err = d.SetEnvironmentVariable(name, k, v)
			apply = func() { in.env[p19env(k)] = v }
		case 2:
			opt := rnd.Intn(2) == 0
			call = fmt.Sprintf("PassthroughEnvVar(%q, %q, %v)", name, k, opt)
			err = d.DockerComposeFile.PassthroughEnvVar(name, k, opt)
			apply = func() {
				in.env[p19env(k)] = p19req(k)
				if opt {
					in.env[p19env(k)] = "${" + p19env(k) + ":-}"
				}
			}
		case 3:
			call = fmt.Sprintf("ExposePort(%q, %d)", name, p)
			err = d.DockerComposeFile.ExposePort(name, p)
			apply = func() { in.expose[fmt.Sprint(p)] = true }
		case 4:
			ext := fmt.Sprintf("0.0.0.0:%d", 8000+rnd.Intn(4))
			call = fmt.Sprintf("MapPort(%q, %d, %q)", name, p, ext)
			err = d.DockerComposeFile.MapPort(name, p, ext)
			apply = func() { in.ports[ext] = fmt.Sprint(p) }
		case 5:
			cmd := []string{"run", v, p19vals[rnd.Intn(len(p19vals))]}[:rnd.Intn(4)]
			call = fmt.Sprintf("SetCustomCommand(%q, %q)", name, cmd)
			err = d.SetCustomCommand(name, cmd)
			apply = func() { in.cmd = cmd }
		case 6:
			src := "/host/" + k
			dst := "/ctr/" + fmt.Sprint(rnd.Intn(3))
			call = fmt.Sprintf("AddVolume(%q, %q, %q)", name, src, dst)
			err = d.AddVolume(name, src, dst)
			apply = func() { in.vols[src] = dst }
		default:
			key := []string{"gpus", "init"}[rnd.Intn(2)]
			val := []string{"all", "none"}[rnd.Intn(2)]
			call = fmt.Sprintf("AddCustomConf(%q, %q, %q)", name, key, val)
			err = d.AddCustomConf(name, key, val)
			apply = func() { in.conf[key] = val }
		}
		log = append(log, call)
		if (err != nil) != (in == nil) {
			return log, fmt.Sprintf("%s: error %v, but the instance is declared: %v", call, err, in != nil)
		}
		if err == nil {
			apply()
		}
	}
	if bad != "" {
		return
	}
	if err := d.Finish(); err != nil {
		return log, fmt.Sprintf("Finish: %v", err)
	}
	// what the argument nodes add
	for _, in := range model {
		for _, a := range in.args {
			if x, ok := a.(*p19conf); ok && !x.val {
				in.env[p19env(x.name)] = p19req(x.name)
				if x.opt {
					in.env[p19env(x.name)] = "${" + p19env(x.name) + ":-}"
				}
			}
		}
	}
	raw, err := os.ReadFile(filepath.Join(dir, "docker-compose.yml"))
	if err != nil {
		return log, err.Error()
	}
	var doc struct {
		Services map[string]map[string]any `yaml:"services"`
	}
	if err := yaml.Unmarshal(raw, &doc); err != nil {
		return log, fmt.Sprintf("the docker-compose file is not valid YAML: %v\n%s", err, raw)
	}
	fail := func(f string, a ...any) (l []string, b string) {
		return log, fmt.Sprintf(f, a...) + "\n" + string(raw)
	}
	if len(doc.Services) != len(model) {
		return fail("%d instances were declared, the file has %d", len(model), len(doc.Services))
	}
	// ports: pick up what the deployer chose for each server
	chosen := map[string]string{}
	for cn, in := range model {
		svc := doc.Services[cn]
		if svc == nil {
			return fail("instance %s is missing", cn)
		}
		seen := map[string]string{}
		for _, e := range p19list(svc["ports"]) {
			i := strings.LastIndex(e, ":")
			if i < 0 {
				return fail("instance %s: port entry %q", cn, e)
			}
			seen[e[:i]] = e[i+1:]
		}
		taken := map[string]string{}
		for _, a := range in.args {
			if b, ok := a.(*address.BindConfig); ok {
				p, ok := seen[p19req(b.Name())]
				if !ok {
					return fail("instance %s: the port of server %s is not mapped", cn, b.Name())
				}
				if o, dup := taken[p]; dup {
					return fail("instance %s: servers %s and %s share port %s", cn, o, b.Name(), p)
				}
				if v, err := strconv.Atoi(p); err != nil || v < 1 || v > 65535 {
					return fail("instance %s: server %s has port %q", cn, b.Name(), p)
				}
				taken[p] = b.Name()
				chosen[b.AddressName] = cn + ":" + p
				in.expose[p] = true
				in.ports[p19req(b.Name())] = p
				if w := fmt.Sprint(preset[b]); w != "0" && w != p {
					return fail("instance %s: server %s must have port %s, has %s", cn, b.Name(), w, p)
				} else if w == "0" {
					in.env[p19env(b.Name())] = "0.0.0.0:" + p
				}
			}
		}
	}
	for cn, in := range model {
		svc := doc.Services[cn]
		for _, a := range in.args {
			if x, ok := a.(*address.DialConfig); ok {
				if addr, ok := chosen[x.AddressName]; ok {
					in.env[p19env(x.Name())] = addr
				} else {
					in.env[p19env(x.Name())] = p19req(x.Name())
				}
			}
		}
		img, _ := svc["image"].(string)
		if img != in.image {
			return fail("instance %s: image %q, declared %q", cn, img, in.image)
		}
		ctx := ""
		if b, ok := svc["build"].(map[string]any); ok {
			ctx, _ = b["context"].(string)
		}
		if ctx != in.build {
			return fail("instance %s: build context %q, declared %q", cn, ctx, in.build)
		}
		if svc["hostname"] != cn {
			return fail("instance %s: hostname %v", cn, svc["hostname"])
		}
		if g, w := p19list(svc["environment"]), p19join(in.env, "="); !p19eq(g, w) {
			return fail("instance %s: environment %q, want %q", cn, g, w)
		}
		if g, w := p19list(svc["expose"]), p19keys(in.expose); !p19eq(g, w) {
			return fail("instance %s: exposed ports %q, want %q", cn, g, w)
		}
		if g, w := p19list(svc["ports"]), p19join(in.ports, ":"); !p19eq(g, w) {
			return fail("instance %s: mapped ports %q, want %q", cn, g, w)
		}
		if g, w := p19list(svc["volumes"]), p19join(in.vols, ":"); !p19eq(g, w) {
			return fail("instance %s: volumes %q, want %q", cn, g, w)
		}
		var cmd []string
		if l, ok := svc["command"].([]any); ok {
			for _, e := range l {
				cmd = append(cmd, fmt.Sprint(e))
			}
		}
		if !p19eq(cmd, in.cmd) {
			return fail("instance %s: command %q, want %q", cn, cmd, in.cmd)
		}
		for _, k := range []string{"gpus", "init"} {
			g, _ := svc[k].(string)
			if g != in.conf[k] {
				return fail("instance %s: %s is %q, want %q", cn, k, g, in.conf[k])
			}
		}
	}
	return
}
