property P05
include std.inc
package registry = "github.com/blueprint-uservices/blueprint/runtime/core/registry"

ghost builds int
ghost lastErr any
ghost lastBuilt any
functype any(f, ctx) (v, err)
  modifies builds, lastErr, lastBuilt
  ensures builds == old(builds) + 1
  ensures lastErr == err && lastBuilt == any(v)
  why a registered builder: any result, but it does not touch the registry

func NewServiceRegistry(name) (r)
  ensures ok: r != nil && fresh(r) && r.registered != nil && r.name == name
  ensures empty: !r.isBuilt && len(r.registered) == 0 && forall k string :: !in(k, r.registered)

func (*ServiceRegistry).SetDefault(r, name)
  requires r != nil
  modifies r.defaultBuildFunc
  ensures set: r.defaultBuildFunc == name

func (*ServiceRegistry).Register(r, name, build)
  requires r != nil && r.registered != nil
  modifies r.defaultBuildFunc, contents(r.registered)
  ensures registered: in(name, r.registered) && r.registered[name] == build
  ensures others: forall k string :: {in(k, r.registered)} {r.registered[k]} k != name ==> (in(k, r.registered) <==> old(in(k, r.registered))) && r.registered[k] == old(r.registered[k])
  ensures firstIsDefault: r.defaultBuildFunc == ite(old(len(r.registered)) == 0, name, old(r.defaultBuildFunc))
  ensures notBuilt: builds == old(builds)

func (*ServiceRegistry).Get(r, ctx) (v, err)
  requires r != nil && r.registered != nil
  requires forall k string :: {r.registered[k]} in(k, r.registered) ==> r.registered[k] != nil
  modifies r.isBuilt, r.built, r.buildError, builds, lastErr, lastBuilt, calls(r.registered[r.defaultBuildFunc])
  ensures settled: r.isBuilt && r.built == v && r.buildError == err
  ensures cached: old(r.isBuilt) ==> v == old(r.built) && err == old(r.buildError) && builds == old(builds)
  ensures unknown: !old(r.isBuilt) && !in(r.defaultBuildFunc, r.registered) ==> err != nil && builds == old(builds)
  ensures built: !old(r.isBuilt) && in(r.defaultBuildFunc, r.registered) ==> builds == old(builds) + 1 && calls(r.registered[r.defaultBuildFunc]) == old(calls(r.registered[r.defaultBuildFunc])) + 1 && any(v) == lastBuilt && err == lastErr

replay dir=runtime/core/registry file=P05_registry_test.go run=TestGovcP05
