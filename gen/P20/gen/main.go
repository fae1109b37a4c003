// Generates the wrapper code of the plugins for the witness service, through the plugins' wiring functions
// and the IR nodes they define.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/service"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/circuitbreaker"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/golang"
	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
	"github.com/blueprint-uservices/blueprint/test/workflow/workflow"
)

const base = "github.com/blueprint-uservices/blueprint/plugins/zzgen/"

func basic(n string) gocode.TypeName { return &gocode.BasicType{Name: n} }
func v(n string, t gocode.TypeName) gocode.Variable {
	return gocode.Variable{Name: n, Type: t}
}

func iface(ctx ir.BuildContext) *gocode.ServiceInterface {
	str := basic("string")
	_ = ctx
	item := &gocode.Pointer{PointerTo: &gocode.UserType{Package: base + "witness", Name: "Item"}}
	strs := &gocode.Slice{SliceOf: str}
	s := &gocode.ServiceInterface{UserType: gocode.UserType{Package: base + "witness", Name: "Service"}, BaseName: "Service", Methods: map[string]gocode.Func{}}
	add := func(n string, args, rets []gocode.Variable) {
		s.Methods[n] = gocode.Func{Name: n, Arguments: args, Returns: rets}
	}
	add("Zero", nil, nil)
	add("One", []gocode.Variable{v("a", str)}, []gocode.Variable{v("", str)})
	add("Two", []gocode.Variable{v("s", str), v("n", basic("int64")), v("i", basic("int"))}, []gocode.Variable{v("", str), v("", basic("int64"))})
	add("Mix", []gocode.Variable{v("xs", strs), v("m", &gocode.Map{KeyType: str, ValueType: basic("int64")}), v("p", item)}, []gocode.Variable{v("", item), v("", strs)})
	return s
}

// the wrapped service
type svc struct {
	name  string
	iface func(ctx ir.BuildContext) *gocode.ServiceInterface
}

func (s *svc) Name() string                                   { return s.name }
func (s *svc) String() string                                 { return s.name }
func (s *svc) ImplementsGolangNode()                          {}
func (s *svc) ImplementsGolangService()                       {}
func (s *svc) AddInstantiation(golang.NamespaceBuilder) error { return nil }
func (s *svc) AddInterfaces(golang.ModuleBuilder) error       { return nil }
func (s *svc) GetInterface(ctx ir.BuildContext) (service.ServiceInterface, error) {
	return s.iface(ctx), nil
}

// the module that the code is generated into
type builder struct {
	ir.VisitTrackerImpl
	name, dir string
}

func (b *builder) ImplementsBuildContext() {}
func (b *builder) Info() golang.ModuleInfo {
	return golang.ModuleInfo{Name: b.name, Version: "v0.0.0", Path: b.dir}
}
func (b *builder) Require(string, string) error       { return nil }
func (b *builder) Workspace() golang.WorkspaceBuilder { return nil }
func (b *builder) CreatePackage(p string) (golang.PackageInfo, error) {
	path := filepath.Join(b.dir, filepath.Join(strings.Split(p, "/")...))
	return golang.PackageInfo{ShortName: filepath.Base(p), Name: p, PackageName: b.name + "/" + p, Path: path}, os.MkdirAll(path, 0o755)
}

func check(what string, err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "GENERATOR:", what, err)
		os.Exit(3)
	}
}

func walk(n ir.IRNode, f func(ir.IRNode)) {
	f(n)
	if a, ok := n.(*ir.ApplicationNode); ok {
		for _, c := range a.Children {
			walk(c, f)
		}
	}
}

func define(spec wiring.WiringSpec, name string, iface func(ctx ir.BuildContext) *gocode.ServiceInterface, opts ...pointer.PointerOpts) {
	spec.Define(name+".handler", &svc{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		return &svc{name + ".handler", iface}, nil
	})
	pointer.CreatePointer[*svc](spec, name, name+".handler", opts...)
}

func generate(out, what string, add func(spec wiring.WiringSpec)) {
	spec := wiring.NewWiringSpec(what)
	define(spec, "svc", iface)
	add(spec)
	build(out, what, spec, "svc")
}

func build(out, what string, spec wiring.WiringSpec, root string) {
	app, err := spec.BuildIR(root)
	check(what, err)
	b := &builder{name: base + "out/" + what, dir: filepath.Join(out, what)}
	n := 0
	walk(app, func(x ir.IRNode) {
		if g, ok := x.(golang.GeneratesFuncs); ok {
			if i, ok := x.(golang.ProvidesInterface); ok {
				check(what, i.AddInterfaces(b))
			}
			check(what, g.GenerateFuncs(b))
			n++
		}
	})
	if n == 0 {
		check(what, fmt.Errorf("nothing was generated for %v", app))
	}
	// the only change made to generated code: the circuit breaker library is not in the module cache
	filepath.Walk(b.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			t, err := os.ReadFile(p)
			check(what, err)
			n := strings.ReplaceAll(string(t), `"github.com/mercari/go-circuitbreaker"`, `"`+base+`circuitbreaker"`)
			check(what, os.WriteFile(p, []byte(n), 0o644))
		}
		return nil
	})
}

func main() {
	out := os.Args[1]
	generate(out, "retries", func(s wiring.WiringSpec) { retries.AddRetries(s, "svc", 3) })
	generate(out, "fixeddelay", func(s wiring.WiringSpec) { retries.AddRetriesWithFixedDelay(s, "svc", 4, "1ms") })
	generate(out, "backoff", func(s wiring.WiringSpec) { retries.AddRetriesWithExponentialBackoff(s, "svc", "1ms", "8ms", false) })
	generate(out, "jitter", func(s wiring.WiringSpec) { retries.AddRetriesWithExponentialBackoff(s, "svc", "1ms", "8ms", true) })
	generate(out, "ratelimit", func(s wiring.WiringSpec) { retries.AddRetriesRetryRateLimit(s, "svc", 5, 7) })
	generate(out, "tokenbucket", func(s wiring.WiringSpec) { retries.AddRetriesTokenBucket(s, "svc", 10, 2, 0.5) })
	generate(out, "timeouts", func(s wiring.WiringSpec) { timeouts.Add(s, "svc", "1s") })
	generate(out, "breaker", func(s wiring.WiringSpec) { circuitbreaker.AddCircuitBreaker(s, "svc", 100, 0.25, "1s") })
	generate(out, "latency", func(s wiring.WiringSpec) { latency.AddFixed(s, "svc", "10ms") })
	generate(out, "health", func(s wiring.WiringSpec) { healthchecker.AddHealthCheckAPI(s, "svc") })
	generate(out, "delay", func(s wiring.WiringSpec) { faultinjector.AddRandomDelay(s, "svc", 10) })
	generate(out, "faults", func(s wiring.WiringSpec) { faultinjector.AddProbabilisticFailures(s, "svc", 20) })

	// the pool instantiates a client per slot, so the wrapped service is reached from more than one namespace
	pool := wiring.NewWiringSpec("pool")
	define(pool, "svc", iface, pointer.PointerOpts{})
	clientpool.Create(pool, "svc", 6)
	build(out, "pool", pool, "svc")

	// the load balancer takes its interface from a service of the workflow (or a runtime plugin)
	lb := wiring.NewWiringSpec("balancer")
	leaf := func(ctx ir.BuildContext) *gocode.ServiceInterface {
		s, err := workflowspec.GetService[workflow.TestLeafServiceImpl]()
		check("balancer", err)
		return s.Iface.ServiceInterface(ctx)
	}
	define(lb, "one", leaf)
	define(lb, "two", leaf)
	loadbalancer.CreateLoadBalancer[workflow.TestLeafServiceImpl](lb, "group", []string{"one", "two"})
	build(out, "balancer", lb, "group_lb")
}
