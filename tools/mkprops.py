#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "In-memory cache is an atomic key-value map",
 "Every operation of the in-memory cache acts on one key-to-value map in a single indivisible step under concurrent callers: a put makes exactly that key hold that value, a delete removes exactly that key, a get reports presence truthfully and delivers the stored value, and an increment stores and returns the previous integer (or 0) plus one, so no concurrent increment is lost. "
 "Multi-key operations perform the single-key operation for every index, reject argument lists of different lengths without effect, and no operation changes any other key.",
 ["inputs", "schedules"], "all keys, values and prior cache contents; all interleavings of concurrent callers",
 "Three single-threaded tests use a handful of keys; none runs two callers at once, so a missing lock or a lost update passes.",
 ["runtime/plugins/simplecache/cache.go"],
 [("map guarded by the cache's lock", "runtime/plugins/simplecache/cache.go: Put/Get/Delete/Incr"), ("per-index delegation", "runtime/plugins/simplecache/cache.go: Mset/Mget")])

prop("P02", "In-memory queue delivers every accepted item exactly once",
 "A push that reports success has placed exactly its own item in the queue exactly once and a push that reports failure has placed nothing; a pop that reports success has removed exactly one item and delivered that item to the caller, and a pop that reports no item has removed nothing. "
 "Cancellation of the caller's context is reported as 'not done' and never as an error, and items are never reordered, duplicated or dropped by the queue.",
 ["inputs", "schedules"], "all items, queue contents, cancellation times and interleavings of producers and consumers",
 "The tests push and pop a few integers with generous timeouts; they cannot enumerate cancellation points or detect a rare drop.",
 ["runtime/plugins/simplequeue/queue.go"],
 [("bounded channel with select on cancellation", "runtime/plugins/simplequeue/queue.go: Push/Pop")])

prop("P03", "Client pool respects its capacity and never shares a client",
 "The number of clients that exist or are being created by a client pool never exceeds its configured capacity; a client handed to one caller is not handed to another until the first has returned it. "
 "A failed client creation frees the slot it reserved and returns the creation error, and a popped client is either the one just created or one that was previously returned.",
 ["inputs", "schedules", "fault_sequences"], "all capacities, all interleavings of pop and push, all creation failures",
 "The tests run a few goroutines against small pools on one schedule each and inject no creation failure.",
 ["runtime/plugins/clientpool/clientpool.go"],
 [("atomic slot reservation", "runtime/plugins/clientpool/clientpool.go: TryPop/Pop"), ("hand-back channel", "runtime/plugins/clientpool/clientpool.go: Push")])

prop("P04", "Process namespaces build each instance once and resolve names by scope",
 "At runtime a namespace builds a named instance at most once: every later request for the name yields the same instance, a locally defined name takes precedence over the parent's, a name defined in no enclosing namespace is an error, and a failing constructor surfaces its error and leaves no instance behind. "
 "A configuration argument takes the value explicitly set for it, otherwise the command-line value, otherwise the environment value, and a required argument with no value makes building the namespace fail naming it.",
 ["inputs", "histories", "configurations"], "all sets of definitions, parents, request orders, constructor failures and argument sources",
 "The tests build six fixed namespaces; they cannot cover all request orders, nesting and failure positions.",
 ["runtime/plugins/golang/namespace.go"],
 [("build-once cache and parent chain", "runtime/plugins/golang/namespace.go: Namespace.Get"), ("argument precedence", "runtime/plugins/golang/namespace.go: NamespaceBuilder.Build/Required/Optional")])

prop("P05", "Service registry yields one instance per registry",
 "The first request for a service runs the builder registered under the configured (or defaulted) name exactly once, and its outcome - the instance or the builder's error - is what that request and every later request returns, without building again; a name with no registered builder is reported as an error. "
 "Registering a builder affects only its own name, only the latest registration for a name is used, and the first name registered becomes the default until another is configured.",
 ["inputs", "histories"], "all histories of registrations and requests, all builder failures",
 "The only test registers nothing of substance.",
 ["runtime/core/registry/registry.go"],
 [("lazy single build", "runtime/core/registry/registry.go: Get"), ("builder map", "runtime/core/registry/registry.go: Register/SetDefault")])

prop("P06", "Result copying never panics and never changes the value",
 "Copying a stored value into a caller-supplied destination either stores exactly that value (converted only when it is losslessly assignable or convertible by the language's rules) and reports success, or reports an error and leaves the destination untouched; it never panics, whatever the stored value (nil included) and destination.",
 ["inputs"], "all stored values and destinations, including nil values and non-pointer destinations",
 "A few int and string copies are exercised indirectly; nil values and mismatched kinds are not.",
 ["runtime/core/backend/reflect.go"],
 [("reflective copy", "runtime/core/backend/reflect.go: CopyResult/GetPointerValue/SetZero")])

prop("P07", "Document filters match exactly the documents the query language selects",
 "A document satisfies a filter exactly when every condition holds: equality, comparisons, membership, regular expressions, existence, negation, conjunction, disjunction and array element matching behave as the MongoDB query language defines for the supported operators, dotted paths descend into sub-documents, into the elements of arrays and, with a numeric component, into one element of an array, and evaluating a filter never modifies the document. "
 "In the supported subset: a condition on an array field holds if the array itself or one of its elements satisfies it, separately for each operator of the condition; numbers compare by value whatever their Go type, and $gt/$gte/$lt/$lte compare only numbers; a sub-document equals another with the same fields in any order, an array only one of the same length and order; a missing field satisfies only $ne, $exists:false and the logical negations. "
 "A filter with an unsupported or malformed operator (including empty $and/$or/$nor, nested arrays inside an array value, a mix of array and value operators) is rejected with an error, never silently matched.",
 ["inputs"], "all documents and all filters over the supported operators",
 "About forty fixed query/document pairs are sampled; operators compose recursively without bound.",
 ["runtime/plugins/simplenosqldb/query/filter.go", "runtime/plugins/simplenosqldb/query/parsefilter.go"],
 [("filter evaluation", "runtime/plugins/simplenosqldb/query/filter.go: Apply methods"), ("filter parsing", "runtime/plugins/simplenosqldb/query/parsefilter.go")])

prop("P08", "Document updates change exactly the selected fields",
 "Applying an update changes only the fields it names: $set stores the value, $unset removes the field (and sets an array element to null), $inc adds to a numeric field, $push and $addToSet extend an array, $pull removes the matching elements; every other field and every other array element of the document keeps its value, and documents that were read earlier do not change. "
 "A dotted path descends into sub-documents and, with a numeric component, into one element of an array; an absent or null parent is created (an array is padded with nulls), except by $unset and $pull, for which an absent field is nothing to do. "
 "$inc keeps the integer type of the field if the sum fits it and otherwise stores an int64. "
 "An update that cannot be applied to a field's current type, goes through a value that is neither a document nor an indexed array, or overflows an int64, is reported as an error and leaves the document as it was; an unsupported operator or a modifier of $push, $addToSet or $pull is rejected.",
 ["inputs"], "all documents and all updates over the supported operators",
 "Fixed small documents are sampled; arrays longer than the touched index and mixed types are not.",
 ["runtime/plugins/simplenosqldb/query/update.go", "runtime/plugins/simplenosqldb/query/parseupdate.go"],
 [("update application", "runtime/plugins/simplenosqldb/query/update.go: Apply methods"), ("update parsing", "runtime/plugins/simplenosqldb/query/parseupdate.go")])

prop("P09", "Collection operations touch exactly the matching documents",
 "Inserting appends the document once, deleting removes only matching documents (the first for the one-document form), updating and replacing modify only matching documents (the first for the one-document form), and finding returns exactly the matching documents in insertion order; every other document, and the relative order of the documents that remain, is preserved. "
 "The reported counts equal the number of documents affected, and an operation that returns an error, because of a malformed filter, update or document or because the update cannot be applied to a matching document, leaves the collection unchanged. "
 "An inserted document without an _id is given one and a replaced document keeps its _id unless the replacement has its own; later changes by the caller to a document that was inserted, and later operations on documents that were found, do not show in the collection or in the results. Each database and collection name designates its own list of documents.",
 ["inputs", "histories"], "all collections, filters, updates and operation histories",
 "Tests run scripted sequences on collections of a few documents.",
 ["runtime/plugins/simplenosqldb/nosqldb.go"],
 [("per-collection document list", "runtime/plugins/simplenosqldb/nosqldb.go: Insert/Find/Delete/Update/Replace methods")])

prop("P10", "Workload generator honours the configured operation mix",
 "A workload accepts only an operation mix whose proportions are non-negative and sum to one hundred, and every generated request executes exactly one configured operation, chosen so that each operation's share of the equally likely draws equals its configured proportion. "
 "Every launched request is waited for, and contributes exactly one record, the one its operation returned, to the statistics and to the output file.",
 ["inputs", "configurations"], "all operation mixes and all random draws",
 "No test exercises operation selection.",
 ["runtime/core/workload/engine.go", "runtime/core/workload/workload.go"],
 [("mix validation and selection table", "runtime/core/workload/engine.go"), ("execution and recording", "runtime/core/workload/engine.go")])

prop("P11", "Wiring definitions, aliases and properties stay consistent",
 "Looking up a defined or aliased name yields the definition most recently given for the name it finally refers to; defining a name or alias affects only that name, and properties set or added under a name are returned to every later reader of that name in the order they were added, without disturbing the properties of other names. "
 "Reading an absent property leaves the reader's value unset, and reading a property into the wrong type is reported as an error.",
 ["histories", "inputs"], "all sequences of define, alias and property calls",
 "Wiring tests compile a few fixed applications; none checks the specification store itself.",
 ["blueprint/pkg/wiring/wiring.go", "blueprint/pkg/wiring/reflect.go"],
 [("definition store", "blueprint/pkg/wiring/wiring.go: Define/Alias/GetDef/SetProperty/AddProperty/GetProperty/GetProperties")])

prop("P12", "Building an application builds each node once in the right namespace",
 "While an application is built, every name is built at most once per namespace that owns it, nodes are placed in the nearest enclosing namespace that accepts their type, and every other namespace that uses the node records it as an argument of that namespace exactly once. "
 "A build failure is propagated to the requester and never produces a partially built node.",
 ["programs", "histories"], "all wiring specifications, namespaces and request orders",
 "Wiring tests cover about a hundred small fixed wirings.",
 ["blueprint/pkg/wiring/namespace.go"],
 [("seen-cache, accept test and parent delegation", "blueprint/pkg/wiring/namespace.go: get/Get/Instantiate/Put/Defer")])

prop("P13", "Modifiers wrap a service in the order they were applied",
 "For every service pointer, the client-side chain visits the client-side modifiers in the order they were added and ends at the destination-side interface, and each destination-side modifier wraps everything added before it and becomes the new destination; the names handed to each modifier are exactly its neighbours in the chain. "
 "Adding a modifier to one service leaves every other service's chain unchanged, looking up a pointer by a name that is not a service pointer yields none, and a failure to build the server side of a pointer is reported.",
 ["programs", "histories"], "all sequences of modifier applications",
 "Tests chain at most a few modifiers of particular kinds.",
 ["blueprint/pkg/coreplugins/pointer/pointer.go"],
 [("source and destination modifier lists", "blueprint/pkg/coreplugins/pointer/pointer.go: CreatePointer/AddSrcModifier/AddDstModifier")])

prop("P14", "Port assignment is conflict-free and respects explicit ports",
 "When ports are assigned to the servers of a namespace, every server ends with a non-zero port, no two servers of the namespace have the same port, a port that was set explicitly is kept, and conflicting explicit ports are rejected with an error. "
 "A server receives its preferred port whenever that port is not already taken, and clearing addresses removes every assignment made.",
 ["inputs", "configurations"], "all numbers of servers, hostnames, explicit and preferred ports",
 "Tests see a few servers with distinct preferred ports.",
 ["blueprint/pkg/coreplugins/address/portassignment.go", "blueprint/pkg/coreplugins/address/ir.go"],
 [("port assignment", "blueprint/pkg/coreplugins/address/portassignment.go: AssignPorts/Clear/SetHostname")])

prop("P15", "Node list utilities partition without losing or reordering nodes",
 "Selecting nodes of a kind returns exactly the nodes of that kind in their original order, removing a kind returns exactly the others in their original order, and splitting returns both, so together they always account for every node exactly once. "
 "Listing all nodes of an application yields the application and every nested node exactly once per occurrence, parents before their children and siblings in order; splitting addresses yields all bind addresses, all dial addresses and everything else, each in order; and a visit tracker reports a name as new exactly on its first visit.",
 ["inputs"], "all node lists and all node kinds",
 "Only exercised indirectly on small lists.",
 ["blueprint/pkg/ir/irutil.go", "blueprint/pkg/ir/ir.go", "blueprint/pkg/ir/buildcontext.go", "blueprint/pkg/coreplugins/address/portassignment.go"],
 [("filter, remove and split", "blueprint/pkg/ir/irutil.go: Filter/FilterNodes/Remove/Split/Is"), ("address split", "blueprint/pkg/coreplugins/address/portassignment.go: Split"), ("visit tracker", "blueprint/pkg/ir/buildcontext.go: Visited"), ("depth-first listing", "blueprint/pkg/ir/ir.go: getNodes")])

prop("P16", "Generated names are valid and agree between compiler and runtime",
 "Cleaning a name yields only letters, digits and underscores with no leading digit, changes nothing when applied again, and is computed identically by the compiler (which writes configuration names into artifacts) and the runtime library (which reads them); the environment-variable name of a configuration value is the upper-case clean name in both; replacing a suffix of a name changes only that suffix.",
 ["inputs"], "all names",
 "No test compares the two implementations; application names in the examples are all plain.",
 ["blueprint/pkg/blueprint/stringutil/name.go", "plugins/linux/util.go", "runtime/plugins/golang/namespace.go"],
 [("name cleaning", "blueprint/pkg/blueprint/stringutil: CleanName/ReplaceSuffix"), ("env-var names", "plugins/linux: EnvVar; runtime/plugins/golang: EnvVar")])

prop("P17", "Generated Go code refers to every imported package unambiguously",
 "Within one generated file, two different imported packages are never given the same local name, a package always keeps the name it was first given, the printed import declaration imports each package once under exactly that name, naming a type imports every package it mentions (at any nesting depth) and spells it with those names, and a type from the file's own package is referred to without qualifier.",
 ["inputs", "histories"], "all sequences of imported packages and types",
 "Code-generation has no unit tests.",
 ["plugins/golang/gogen/imports.go"],
 [("import table", "plugins/golang/gogen/imports.go: AddPackage/AddType/NameOf/Qualify")])

prop("P18", "Go type and interface descriptions compare by structure",
 "Two Go type descriptions are equal exactly when they have the same structure (same kind, same names, equal parts, at any nesting depth), so equality is reflexive and symmetric; one interface description is reported to include another exactly when it has every method of the other with the same parameter and result types in order; listing the methods, arguments or results of a description yields each of them; and extending a copy of an interface or a method changes neither the original nor any other copy.",
 ["inputs"], "all type descriptions, of any nesting depth",
 "No tests; generated wrappers depend on it.",
 ["plugins/golang/gocode/typename.go", "plugins/golang/gocode/service.go"],
 [("type equality", "plugins/golang/gocode/typename.go: Equals"), ("interface containment", "plugins/golang/gocode/service.go: Contains")])

prop("P19", "Deployment descriptors carry every declared instance and setting",
 "Each container instance declared for a deployment appears once under its own name with its own image or build; exposing a port or setting an environment variable on an instance affects only that instance and keeps every setting made before, and configuring an undeclared instance is an error that changes nothing. "
 "The generated docker-compose and kubernetes files are well-formed and carry exactly the declared settings, whatever characters the values contain.",
 ["inputs", "histories"], "all sequences of declarations and settings, all values",
 "Container tests check the in-memory application graph, not the descriptors.",
 ["plugins/dockercompose/dockergen/dockercompose.go", "plugins/dockercompose/dockergen/template.go", "plugins/kubernetes/kubepod/deploygen/deployfile.go"],
 [("descriptor model", "plugins/dockercompose/dockergen: AddImageInstance/AddBuildInstance/ExposePort/AddEnvVar")])

prop("P20", "Generated resilience wrappers preserve the wrapped call",
 "A generated retry wrapper calls the wrapped service until the first success, never more often than configured and only after the configured delay; a generated load balancer hands each call to exactly one backend, taking the backends in turn under concurrent callers; a generated client pool makes each call on one pooled client and gives it back; a generated circuit breaker forwards unless it is open and reports each outcome once. "
 "Latency, delay, health-check and fault-injection wrappers forward each call once, except that an injected fault is an error without a call. "
 "All of them pass the caller's context, arguments and the results of the last call through unchanged.",
 ["inputs", "fault_sequences", "schedules"], "all arguments, results and failure sequences of the wrapped service, for wrappers generated for a witness service that covers the parameter shapes",
 "Wrapper generation is not executed by any test.",
 ["plugins/retries/codegen.go", "plugins/circuitbreaker/codegen.go", "plugins/loadbalancer", "plugins/clientpool", "plugins/latencyinjector", "plugins/healthchecker"],
 [("wrapper templates", "plugins/*/codegen.go")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
