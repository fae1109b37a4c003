property P19
include std.inc
load blueprint = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
load ir = "github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
load linux = "github.com/blueprint-uservices/blueprint/plugins/linux"
load filepath = "path/filepath"
package dockergen = "github.com/blueprint-uservices/blueprint/plugins/dockercompose/dockergen"
package deploygen = "github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod/deploygen"
package dockercompose = "github.com/blueprint-uservices/blueprint/plugins/dockercompose"
package kubepod = "github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod"
bounded dir=plugins/dockercompose file=P19_compose_test.go run=TestVerifP19Compose
bounded dir=plugins/kubernetes/kubepod file=P19_kube_test.go run=TestVerifP19Kube

extern blueprint.Errorf(format, args) (err)
  pure
  ensures err != nil
// names: property P16
ufun clean(s string) string
ufun envVar(s string) string
extern ir.CleanName(name) (s)
  pure
  ensures s == clean(name)
  why name cleaning is property P16
extern linux.EnvVar(name) (s)
  pure
  ensures s == envVar(name)
  why name cleaning is property P16
extern filepath.Join(parts) (s)
  pure
extern fmt.Sprintf(format, args) (s)
  pure
  ensures len(args) == 1 && is(args[0], string) && format == "${%v:-}" ==> s == "${" + args[0].(string) + ":-}"
  ensures len(args) == 2 && is(args[0], string) && is(args[1], string) && format == "${%v?%v must be set by the calling environment}" ==> s == "${" + args[0].(string) + "?" + args[1].(string) + " must be set by the calling environment}"
define requiredValue(key string) string = "${" + envVar(key) + "?" + key + " must be set by the calling environment}"
define optionalValue(key string) string = "${" + envVar(key) + ":-}"

// ---------------------------------------------------------------- dockergen
define cinst(d *dockergen.DockerComposeFile; n string) *dockergen.instance = d.Instances[clean(n)]
define cwf(d *dockergen.DockerComposeFile) bool = d != nil && d.Instances != nil && forall k string :: {d.Instances[k]} in(k, d.Instances) ==> d.Instances[k] != nil && d.Instances[k].InstanceName == k && d.Instances[k].Ports != nil && d.Instances[k].Expose != nil && d.Instances[k].Config != nil && d.Instances[k].Passthrough != nil && d.Instances[k].Volumes != nil && d.Instances[k].CustomConf != nil
define capart(d *dockergen.DockerComposeFile) bool = (forall k string; j string :: {d.Instances[k], d.Instances[j]} in(k, d.Instances) && in(j, d.Instances) && k != j ==> d.Instances[k] != d.Instances[j] && d.Instances[k].Ports != d.Instances[j].Ports && d.Instances[k].Expose != d.Instances[j].Expose && d.Instances[k].Config != d.Instances[j].Config && d.Instances[k].Passthrough != d.Instances[j].Passthrough && d.Instances[k].Volumes != d.Instances[j].Volumes && d.Instances[k].CustomConf != d.Instances[j].CustomConf) && forall k string; j string :: {d.Instances[k], d.Instances[j]} in(k, d.Instances) && in(j, d.Instances) ==> d.Instances[k].Config != d.Instances[j].Volumes && d.Instances[k].Config != d.Instances[j].CustomConf && d.Instances[k].Volumes != d.Instances[j].Config && d.Instances[k].Volumes != d.Instances[j].CustomConf && d.Instances[k].CustomConf != d.Instances[j].Config && d.Instances[k].CustomConf != d.Instances[j].Volumes
define cok(d *dockergen.DockerComposeFile) bool = cwf(d) && capart(d)
func dockergen.NewDockerComposeFile(workspaceName, workspaceDir, fileName) (d)
  ensures ok: cok(d) && fresh(d) && d.WorkspaceName == workspaceName && d.WorkspaceDir == workspaceDir
  ensures empty: len(d.Instances) == 0 && forall k string :: {in(k, d.Instances)} !in(k, d.Instances)
func dockergen.(*DockerComposeFile).addInstance(d, instanceName, image, containerTemplateName) (err)
  requires cok(d)
  modifies contents(d.Instances)
  ensures ok: cok(d)
  ensures once: (err == nil) == !old(in(clean(instanceName), d.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), d.Instances) && cinst(d, instanceName).Image == image && cinst(d, instanceName).ContainerTemplate == containerTemplateName && len(cinst(d, instanceName).CustomCommand) == 0 && fresh(cinst(d, instanceName))
  ensures empty: err == nil ==> len(d.Instances[clean(instanceName)].Ports) == 0 && len(d.Instances[clean(instanceName)].Expose) == 0 && len(d.Instances[clean(instanceName)].Config) == 0 && len(d.Instances[clean(instanceName)].Passthrough) == 0 && len(d.Instances[clean(instanceName)].Volumes) == 0 && len(d.Instances[clean(instanceName)].CustomConf) == 0
  ensures rejected: err != nil ==> len(d.Instances) == old(len(d.Instances))
  ensures others: forall k string :: {in(k, d.Instances)} {d.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, d.Instances) == old(in(k, d.Instances)) && d.Instances[k] == old(d.Instances[k])
func dockergen.(*DockerComposeFile).AddImageInstance(d, instanceName, image) (err)
  requires cok(d)
  modifies contents(d.Instances)
  ensures ok: cok(d)
  ensures once: (err == nil) == !old(in(clean(instanceName), d.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), d.Instances) && cinst(d, instanceName).Image == image && cinst(d, instanceName).ContainerTemplate == "" && len(cinst(d, instanceName).CustomCommand) == 0 && fresh(cinst(d, instanceName))
  ensures empty: err == nil ==> len(d.Instances[clean(instanceName)].Ports) == 0 && len(d.Instances[clean(instanceName)].Expose) == 0 && len(d.Instances[clean(instanceName)].Config) == 0 && len(d.Instances[clean(instanceName)].Passthrough) == 0 && len(d.Instances[clean(instanceName)].Volumes) == 0 && len(d.Instances[clean(instanceName)].CustomConf) == 0
  ensures rejected: err != nil ==> len(d.Instances) == old(len(d.Instances))
  ensures others: forall k string :: {in(k, d.Instances)} {d.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, d.Instances) == old(in(k, d.Instances)) && d.Instances[k] == old(d.Instances[k])
func dockergen.(*DockerComposeFile).AddBuildInstance(d, instanceName, containerTemplateName) (err)
  requires cok(d)
  modifies contents(d.Instances)
  ensures ok: cok(d)
  ensures once: (err == nil) == !old(in(clean(instanceName), d.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), d.Instances) && cinst(d, instanceName).Image == "" && cinst(d, instanceName).ContainerTemplate == containerTemplateName && len(cinst(d, instanceName).CustomCommand) == 0 && fresh(cinst(d, instanceName))
  ensures empty: err == nil ==> len(d.Instances[clean(instanceName)].Ports) == 0 && len(d.Instances[clean(instanceName)].Expose) == 0 && len(d.Instances[clean(instanceName)].Config) == 0 && len(d.Instances[clean(instanceName)].Passthrough) == 0 && len(d.Instances[clean(instanceName)].Volumes) == 0 && len(d.Instances[clean(instanceName)].CustomConf) == 0
  ensures rejected: err != nil ==> len(d.Instances) == old(len(d.Instances))
  ensures others: forall k string :: {in(k, d.Instances)} {d.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, d.Instances) == old(in(k, d.Instances)) && d.Instances[k] == old(d.Instances[k])
func dockergen.(*DockerComposeFile).getInstance(d, instanceName) (i, err)
  requires cok(d)
  ensures found: (err == nil) == in(clean(instanceName), d.Instances)
  ensures which: err == nil ==> i == cinst(d, instanceName)
func dockergen.(*DockerComposeFile).AddEnvVar(d, instanceName, key, val) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).Config)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(envVar(key), cinst(d, instanceName).Config) && cinst(d, instanceName).Config[envVar(key)] == val
  ensures kept: forall k string :: {in(k, cinst(d, instanceName).Config)} {cinst(d, instanceName).Config[k]} k != envVar(key) || err != nil ==> in(k, cinst(d, instanceName).Config) == old(in(k, cinst(d, instanceName).Config)) && cinst(d, instanceName).Config[k] == old(cinst(d, instanceName).Config[k])
func dockergen.(*DockerComposeFile).AddVolume(d, instanceName, src, dst) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).Volumes)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(src, cinst(d, instanceName).Volumes) && cinst(d, instanceName).Volumes[src] == dst
  ensures kept: forall k string :: {in(k, cinst(d, instanceName).Volumes)} {cinst(d, instanceName).Volumes[k]} k != src || err != nil ==> in(k, cinst(d, instanceName).Volumes) == old(in(k, cinst(d, instanceName).Volumes)) && cinst(d, instanceName).Volumes[k] == old(cinst(d, instanceName).Volumes[k])
func dockergen.(*DockerComposeFile).AddCustomConf(d, instanceName, src, dst) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).CustomConf)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(src, cinst(d, instanceName).CustomConf) && cinst(d, instanceName).CustomConf[src] == dst
  ensures kept: forall k string :: {in(k, cinst(d, instanceName).CustomConf)} {cinst(d, instanceName).CustomConf[k]} k != src || err != nil ==> in(k, cinst(d, instanceName).CustomConf) == old(in(k, cinst(d, instanceName).CustomConf)) && cinst(d, instanceName).CustomConf[k] == old(cinst(d, instanceName).CustomConf[k])
func dockergen.(*DockerComposeFile).SetCustomCommand(d, instanceName, command) (err)
  requires cok(d)
  modifies cinst(d, instanceName).CustomCommand
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> len(cinst(d, instanceName).CustomCommand) == len(command) && forall i int :: {command[i]} 0 <= i && i < len(command) ==> cinst(d, instanceName).CustomCommand[i] == command[i]
  ensures unchanged: err != nil ==> cinst(d, instanceName).CustomCommand == old(cinst(d, instanceName).CustomCommand)
func dockergen.(*DockerComposeFile).PassthroughEnvVar(d, instanceName, key, optional) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).Config)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(envVar(key), cinst(d, instanceName).Config) && cinst(d, instanceName).Config[envVar(key)] == ite(optional, optionalValue(key), requiredValue(key))
  ensures kept: forall k string :: {in(k, cinst(d, instanceName).Config)} {cinst(d, instanceName).Config[k]} k != envVar(key) || err != nil ==> in(k, cinst(d, instanceName).Config) == old(in(k, cinst(d, instanceName).Config)) && cinst(d, instanceName).Config[k] == old(cinst(d, instanceName).Config[k])
func dockergen.(*DockerComposeFile).ExposePort(d, instanceName, internalPort) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).Expose)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(internalPort, cinst(d, instanceName).Expose)
  ensures kept: forall k uint16 :: {in(k, cinst(d, instanceName).Expose)} {cinst(d, instanceName).Expose[k]} k != internalPort || err != nil ==> in(k, cinst(d, instanceName).Expose) == old(in(k, cinst(d, instanceName).Expose)) && cinst(d, instanceName).Expose[k] == old(cinst(d, instanceName).Expose[k])
func dockergen.(*DockerComposeFile).MapPort(d, instanceName, internalPort, externalAddress) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).Ports)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(externalAddress, cinst(d, instanceName).Ports) && cinst(d, instanceName).Ports[externalAddress] == internalPort
  ensures kept: forall k string :: {in(k, cinst(d, instanceName).Ports)} {cinst(d, instanceName).Ports[k]} k != externalAddress || err != nil ==> in(k, cinst(d, instanceName).Ports) == old(in(k, cinst(d, instanceName).Ports)) && cinst(d, instanceName).Ports[k] == old(cinst(d, instanceName).Ports[k])
func dockergen.(*DockerComposeFile).MapPortToEnvVar(d, instanceName, internalPort, envVarName) (err)
  requires cok(d)
  modifies contents(cinst(d, instanceName).Ports)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(requiredValue(envVarName), cinst(d, instanceName).Ports) && cinst(d, instanceName).Ports[requiredValue(envVarName)] == internalPort
  ensures kept: forall k string :: {in(k, cinst(d, instanceName).Ports)} {cinst(d, instanceName).Ports[k]} k != requiredValue(envVarName) || err != nil ==> in(k, cinst(d, instanceName).Ports) == old(in(k, cinst(d, instanceName).Ports)) && cinst(d, instanceName).Ports[k] == old(cinst(d, instanceName).Ports[k])

// ---------------------------------------------------------------- deploygen
define kinst(d *deploygen.KubeDeploymentFile; n string) *deploygen.instance = d.Instances[clean(n)]
define kwf(d *deploygen.KubeDeploymentFile) bool = d != nil && d.Instances != nil && forall k string :: {d.Instances[k]} in(k, d.Instances) ==> d.Instances[k] != nil && d.Instances[k].InstanceName == k && d.Instances[k].Ports != nil && d.Instances[k].Config != nil && d.Instances[k].Volumes != nil && d.Instances[k].CustomConf != nil && d.Instances[k].ConfigMap != nil
define kapart(d *deploygen.KubeDeploymentFile) bool = (forall k string; j string :: {d.Instances[k], d.Instances[j]} in(k, d.Instances) && in(j, d.Instances) && k != j ==> d.Instances[k] != d.Instances[j] && d.Instances[k].Ports != d.Instances[j].Ports && d.Instances[k].Config != d.Instances[j].Config && d.Instances[k].Volumes != d.Instances[j].Volumes && d.Instances[k].CustomConf != d.Instances[j].CustomConf && d.Instances[k].ConfigMap != d.Instances[j].ConfigMap) && forall k string; j string :: {d.Instances[k], d.Instances[j]} in(k, d.Instances) && in(j, d.Instances) ==> d.Instances[k].Config != d.Instances[j].Volumes && d.Instances[k].Config != d.Instances[j].CustomConf && d.Instances[k].Volumes != d.Instances[j].Config && d.Instances[k].Volumes != d.Instances[j].CustomConf && d.Instances[k].CustomConf != d.Instances[j].Config && d.Instances[k].CustomConf != d.Instances[j].Volumes
define kok(d *deploygen.KubeDeploymentFile) bool = kwf(d) && kapart(d)
func deploygen.NewKubeDeploymentFile(workspaceName, workspaceDir, filename, serviceFilename) (d)
  ensures ok: kok(d) && fresh(d) && d.Name == workspaceName && d.WorkspaceDir == workspaceDir
  ensures empty: len(d.Instances) == 0 && forall k string :: {in(k, d.Instances)} !in(k, d.Instances)
func deploygen.(*KubeDeploymentFile).addInstance(d, instanceName, image) (err)
  requires kok(d)
  modifies contents(d.Instances)
  ensures ok: kok(d)
  ensures once: (err == nil) == !old(in(clean(instanceName), d.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), d.Instances) && kinst(d, instanceName).Image == image && len(kinst(d, instanceName).CustomCommand) == 0 && fresh(kinst(d, instanceName))
  ensures empty: err == nil ==> len(d.Instances[clean(instanceName)].Ports) == 0 && len(d.Instances[clean(instanceName)].Config) == 0 && len(d.Instances[clean(instanceName)].Volumes) == 0 && len(d.Instances[clean(instanceName)].CustomConf) == 0 && len(d.Instances[clean(instanceName)].ConfigMap) == 0
  ensures rejected: err != nil ==> len(d.Instances) == old(len(d.Instances))
  ensures others: forall k string :: {in(k, d.Instances)} {d.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, d.Instances) == old(in(k, d.Instances)) && d.Instances[k] == old(d.Instances[k])
func deploygen.(*KubeDeploymentFile).AddImageInstance(d, instanceName, image) (err)
  requires kok(d)
  modifies contents(d.Instances)
  ensures ok: kok(d)
  ensures once: (err == nil) == !old(in(clean(instanceName), d.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), d.Instances) && kinst(d, instanceName).Image == image && len(kinst(d, instanceName).CustomCommand) == 0 && fresh(kinst(d, instanceName))
  ensures empty: err == nil ==> len(d.Instances[clean(instanceName)].Ports) == 0 && len(d.Instances[clean(instanceName)].Config) == 0 && len(d.Instances[clean(instanceName)].Volumes) == 0 && len(d.Instances[clean(instanceName)].CustomConf) == 0 && len(d.Instances[clean(instanceName)].ConfigMap) == 0
  ensures rejected: err != nil ==> len(d.Instances) == old(len(d.Instances))
  ensures others: forall k string :: {in(k, d.Instances)} {d.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, d.Instances) == old(in(k, d.Instances)) && d.Instances[k] == old(d.Instances[k])
func deploygen.(*KubeDeploymentFile).getInstance(d, instanceName) (i, err)
  requires kok(d)
  ensures found: (err == nil) == in(clean(instanceName), d.Instances)
  ensures which: err == nil ==> i == kinst(d, instanceName)
func deploygen.(*KubeDeploymentFile).AddEnvVar(d, instanceName, key, val) (err)
  requires kok(d)
  modifies contents(kinst(d, instanceName).Config)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(envVar(key), kinst(d, instanceName).Config) && kinst(d, instanceName).Config[envVar(key)] == val
  ensures kept: forall k string :: {in(k, kinst(d, instanceName).Config)} {kinst(d, instanceName).Config[k]} k != envVar(key) || err != nil ==> in(k, kinst(d, instanceName).Config) == old(in(k, kinst(d, instanceName).Config)) && kinst(d, instanceName).Config[k] == old(kinst(d, instanceName).Config[k])
func deploygen.(*KubeDeploymentFile).AddVolume(d, instanceName, src, dst) (err)
  requires kok(d)
  modifies contents(kinst(d, instanceName).Volumes)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(src, kinst(d, instanceName).Volumes) && kinst(d, instanceName).Volumes[src] == dst
  ensures kept: forall k string :: {in(k, kinst(d, instanceName).Volumes)} {kinst(d, instanceName).Volumes[k]} k != src || err != nil ==> in(k, kinst(d, instanceName).Volumes) == old(in(k, kinst(d, instanceName).Volumes)) && kinst(d, instanceName).Volumes[k] == old(kinst(d, instanceName).Volumes[k])
func deploygen.(*KubeDeploymentFile).AddCustomConf(d, instanceName, src, dst) (err)
  requires kok(d)
  modifies contents(kinst(d, instanceName).CustomConf)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(src, kinst(d, instanceName).CustomConf) && kinst(d, instanceName).CustomConf[src] == dst
  ensures kept: forall k string :: {in(k, kinst(d, instanceName).CustomConf)} {kinst(d, instanceName).CustomConf[k]} k != src || err != nil ==> in(k, kinst(d, instanceName).CustomConf) == old(in(k, kinst(d, instanceName).CustomConf)) && kinst(d, instanceName).CustomConf[k] == old(kinst(d, instanceName).CustomConf[k])
func deploygen.(*KubeDeploymentFile).SetCustomCommand(d, instanceName, command) (err)
  requires kok(d)
  modifies kinst(d, instanceName).CustomCommand
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> len(kinst(d, instanceName).CustomCommand) == len(command) && forall i int :: {command[i]} 0 <= i && i < len(command) ==> kinst(d, instanceName).CustomCommand[i] == command[i]
  ensures unchanged: err != nil ==> kinst(d, instanceName).CustomCommand == old(kinst(d, instanceName).CustomCommand)
func deploygen.(*KubeDeploymentFile).AddConfigMapVar(d, instanceName, key) (err)
  requires kok(d)
  modifies contents(kinst(d, instanceName).ConfigMap)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(key, kinst(d, instanceName).ConfigMap) && kinst(d, instanceName).ConfigMap[key] == true
  ensures kept: forall k string :: {in(k, kinst(d, instanceName).ConfigMap)} {kinst(d, instanceName).ConfigMap[k]} k != key || err != nil ==> in(k, kinst(d, instanceName).ConfigMap) == old(in(k, kinst(d, instanceName).ConfigMap)) && kinst(d, instanceName).ConfigMap[k] == old(kinst(d, instanceName).ConfigMap[k])
func deploygen.(*KubeDeploymentFile).ExposePort(d, instanceName, portName, port) (err)
  requires kok(d)
  modifies contents(kinst(d, instanceName).Ports)
  ensures undeclared: (err != nil) == !in(clean(instanceName), d.Instances)
  ensures set: err == nil ==> in(portName, kinst(d, instanceName).Ports) && kinst(d, instanceName).Ports[portName] == port
  ensures kept: forall k string :: {in(k, kinst(d, instanceName).Ports)} {kinst(d, instanceName).Ports[k]} k != portName || err != nil ==> in(k, kinst(d, instanceName).Ports) == old(in(k, kinst(d, instanceName).Ports)) && kinst(d, instanceName).Ports[k] == old(kinst(d, instanceName).Ports[k])

// ---------------------------------------------------------------- workspaces
// Declaring an instance records its arguments; a refused declaration changes nothing.
define dwok(w *dockercompose.dockerComposeWorkspace) bool = w != nil && w.InstanceArgs != nil && cok(w.DockerComposeFile)
func dockercompose.(*dockerComposeWorkspace).DeclarePrebuiltInstance(w, instanceName, image, args) (err)
  requires dwok(w)
  modifies contents(w.DockerComposeFile.Instances), contents(w.InstanceArgs)
  ensures ok: dwok(w)
  ensures once: (err == nil) == !old(in(clean(instanceName), w.DockerComposeFile.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), w.DockerComposeFile.Instances) && cinst(w.DockerComposeFile, instanceName).Image == image
  ensures args: err == nil ==> in(instanceName, w.InstanceArgs) && w.InstanceArgs[instanceName] == args
  ensures argsKept: forall k string :: {in(k, w.InstanceArgs)} {w.InstanceArgs[k]} k != instanceName || err != nil ==> in(k, w.InstanceArgs) == old(in(k, w.InstanceArgs)) && w.InstanceArgs[k] == old(w.InstanceArgs[k])
  ensures others: forall k string :: {in(k, w.DockerComposeFile.Instances)} {w.DockerComposeFile.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, w.DockerComposeFile.Instances) == old(in(k, w.DockerComposeFile.Instances)) && w.DockerComposeFile.Instances[k] == old(w.DockerComposeFile.Instances[k])
func dockercompose.(*dockerComposeWorkspace).DeclareLocalImage(w, instanceName, imageDir, args) (err)
  requires dwok(w)
  modifies contents(w.DockerComposeFile.Instances), contents(w.InstanceArgs)
  ensures ok: dwok(w)
  ensures once: (err == nil) == !old(in(clean(instanceName), w.DockerComposeFile.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), w.DockerComposeFile.Instances) && cinst(w.DockerComposeFile, instanceName).Image == "" && cinst(w.DockerComposeFile, instanceName).ContainerTemplate == imageDir
  ensures args: err == nil ==> in(instanceName, w.InstanceArgs) && w.InstanceArgs[instanceName] == args
  ensures argsKept: forall k string :: {in(k, w.InstanceArgs)} {w.InstanceArgs[k]} k != instanceName || err != nil ==> in(k, w.InstanceArgs) == old(in(k, w.InstanceArgs)) && w.InstanceArgs[k] == old(w.InstanceArgs[k])
  ensures others: forall k string :: {in(k, w.DockerComposeFile.Instances)} {w.DockerComposeFile.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, w.DockerComposeFile.Instances) == old(in(k, w.DockerComposeFile.Instances)) && w.DockerComposeFile.Instances[k] == old(w.DockerComposeFile.Instances[k])
func dockercompose.(*dockerComposeWorkspace).SetEnvironmentVariable(w, instanceName, key, val) (err)
  requires dwok(w)
  modifies contents(cinst(w.DockerComposeFile, instanceName).Config)
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.DockerComposeFile.Instances)
  ensures set: err == nil ==> in(envVar(key), cinst(w.DockerComposeFile, instanceName).Config) && cinst(w.DockerComposeFile, instanceName).Config[envVar(key)] == val
  ensures kept: forall k string :: {in(k, cinst(w.DockerComposeFile, instanceName).Config)} {cinst(w.DockerComposeFile, instanceName).Config[k]} k != envVar(key) || err != nil ==> in(k, cinst(w.DockerComposeFile, instanceName).Config) == old(in(k, cinst(w.DockerComposeFile, instanceName).Config)) && cinst(w.DockerComposeFile, instanceName).Config[k] == old(cinst(w.DockerComposeFile, instanceName).Config[k])
func dockercompose.(*dockerComposeWorkspace).AddVolume(w, instanceName, src, dst) (err)
  requires dwok(w)
  modifies contents(cinst(w.DockerComposeFile, instanceName).Volumes)
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.DockerComposeFile.Instances)
  ensures set: err == nil ==> in(src, cinst(w.DockerComposeFile, instanceName).Volumes) && cinst(w.DockerComposeFile, instanceName).Volumes[src] == dst
  ensures kept: forall k string :: {in(k, cinst(w.DockerComposeFile, instanceName).Volumes)} {cinst(w.DockerComposeFile, instanceName).Volumes[k]} k != src || err != nil ==> in(k, cinst(w.DockerComposeFile, instanceName).Volumes) == old(in(k, cinst(w.DockerComposeFile, instanceName).Volumes)) && cinst(w.DockerComposeFile, instanceName).Volumes[k] == old(cinst(w.DockerComposeFile, instanceName).Volumes[k])
func dockercompose.(*dockerComposeWorkspace).AddCustomConf(w, instanceName, src, dst) (err)
  requires dwok(w)
  modifies contents(cinst(w.DockerComposeFile, instanceName).CustomConf)
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.DockerComposeFile.Instances)
  ensures set: err == nil ==> in(src, cinst(w.DockerComposeFile, instanceName).CustomConf) && cinst(w.DockerComposeFile, instanceName).CustomConf[src] == dst
  ensures kept: forall k string :: {in(k, cinst(w.DockerComposeFile, instanceName).CustomConf)} {cinst(w.DockerComposeFile, instanceName).CustomConf[k]} k != src || err != nil ==> in(k, cinst(w.DockerComposeFile, instanceName).CustomConf) == old(in(k, cinst(w.DockerComposeFile, instanceName).CustomConf)) && cinst(w.DockerComposeFile, instanceName).CustomConf[k] == old(cinst(w.DockerComposeFile, instanceName).CustomConf[k])
func dockercompose.(*dockerComposeWorkspace).SetCustomCommand(w, instanceName, command) (err)
  requires dwok(w)
  modifies cinst(w.DockerComposeFile, instanceName).CustomCommand
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.DockerComposeFile.Instances)
  ensures set: err == nil ==> len(cinst(w.DockerComposeFile, instanceName).CustomCommand) == len(command) && forall i int :: {command[i]} 0 <= i && i < len(command) ==> cinst(w.DockerComposeFile, instanceName).CustomCommand[i] == command[i]
define kwok(w *kubepod.kubeDeploymentWorkspace) bool = w != nil && w.InstanceArgs != nil && kok(w.F)
func kubepod.(*kubeDeploymentWorkspace).DeclarePrebuiltInstance(w, instanceName, image, args) (err)
  requires kwok(w)
  modifies contents(w.F.Instances), contents(w.InstanceArgs)
  ensures ok: kwok(w)
  ensures once: (err == nil) == !old(in(clean(instanceName), w.F.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), w.F.Instances) && kinst(w.F, instanceName).Image == image
  ensures args: err == nil ==> in(instanceName, w.InstanceArgs) && w.InstanceArgs[instanceName] == args
  ensures argsKept: forall k string :: {in(k, w.InstanceArgs)} {w.InstanceArgs[k]} k != instanceName || err != nil ==> in(k, w.InstanceArgs) == old(in(k, w.InstanceArgs)) && w.InstanceArgs[k] == old(w.InstanceArgs[k])
  ensures others: forall k string :: {in(k, w.F.Instances)} {w.F.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, w.F.Instances) == old(in(k, w.F.Instances)) && w.F.Instances[k] == old(w.F.Instances[k])
func kubepod.(*kubeDeploymentWorkspace).DeclareLocalImage(w, instanceName, imageDir, args) (err)
  requires kwok(w)
  modifies contents(w.F.Instances), contents(w.InstanceArgs)
  ensures ok: kwok(w)
  ensures once: (err == nil) == !old(in(clean(instanceName), w.F.Instances))
  ensures declared: err == nil ==> in(clean(instanceName), w.F.Instances) && kinst(w.F, instanceName).Image == ite(w.DockerRegistryAddr == "", "", w.DockerRegistryAddr + "/" + instanceName)
  ensures args: err == nil ==> in(instanceName, w.InstanceArgs) && w.InstanceArgs[instanceName] == args
  ensures argsKept: forall k string :: {in(k, w.InstanceArgs)} {w.InstanceArgs[k]} k != instanceName || err != nil ==> in(k, w.InstanceArgs) == old(in(k, w.InstanceArgs)) && w.InstanceArgs[k] == old(w.InstanceArgs[k])
  ensures others: forall k string :: {in(k, w.F.Instances)} {w.F.Instances[k]} k != clean(instanceName) || err != nil ==> in(k, w.F.Instances) == old(in(k, w.F.Instances)) && w.F.Instances[k] == old(w.F.Instances[k])
func kubepod.(*kubeDeploymentWorkspace).SetEnvironmentVariable(w, instanceName, key, val) (err)
  requires kwok(w)
  modifies contents(kinst(w.F, instanceName).Config)
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.F.Instances)
  ensures set: err == nil ==> in(envVar(key), kinst(w.F, instanceName).Config) && kinst(w.F, instanceName).Config[envVar(key)] == val
  ensures kept: forall k string :: {in(k, kinst(w.F, instanceName).Config)} {kinst(w.F, instanceName).Config[k]} k != envVar(key) || err != nil ==> in(k, kinst(w.F, instanceName).Config) == old(in(k, kinst(w.F, instanceName).Config)) && kinst(w.F, instanceName).Config[k] == old(kinst(w.F, instanceName).Config[k])
func kubepod.(*kubeDeploymentWorkspace).AddVolume(w, instanceName, src, dst) (err)
  requires kwok(w)
  modifies contents(kinst(w.F, instanceName).Volumes)
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.F.Instances)
  ensures set: err == nil ==> in(src, kinst(w.F, instanceName).Volumes) && kinst(w.F, instanceName).Volumes[src] == dst
  ensures kept: forall k string :: {in(k, kinst(w.F, instanceName).Volumes)} {kinst(w.F, instanceName).Volumes[k]} k != src || err != nil ==> in(k, kinst(w.F, instanceName).Volumes) == old(in(k, kinst(w.F, instanceName).Volumes)) && kinst(w.F, instanceName).Volumes[k] == old(kinst(w.F, instanceName).Volumes[k])
func kubepod.(*kubeDeploymentWorkspace).AddCustomConf(w, instanceName, src, dst) (err)
  requires kwok(w)
  modifies contents(kinst(w.F, instanceName).CustomConf)
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.F.Instances)
  ensures set: err == nil ==> in(src, kinst(w.F, instanceName).CustomConf) && kinst(w.F, instanceName).CustomConf[src] == dst
  ensures kept: forall k string :: {in(k, kinst(w.F, instanceName).CustomConf)} {kinst(w.F, instanceName).CustomConf[k]} k != src || err != nil ==> in(k, kinst(w.F, instanceName).CustomConf) == old(in(k, kinst(w.F, instanceName).CustomConf)) && kinst(w.F, instanceName).CustomConf[k] == old(kinst(w.F, instanceName).CustomConf[k])
func kubepod.(*kubeDeploymentWorkspace).SetCustomCommand(w, instanceName, command) (err)
  requires kwok(w)
  modifies kinst(w.F, instanceName).CustomCommand
  ensures undeclared: (err != nil) == !in(clean(instanceName), w.F.Instances)
  ensures set: err == nil ==> len(kinst(w.F, instanceName).CustomCommand) == len(command) && forall i int :: {command[i]} 0 <= i && i < len(command) ==> kinst(w.F, instanceName).CustomCommand[i] == command[i]
