From 99ca6ee5ab920c66251ce9de9609862a6007829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 01/48] fix: simplecache reads the map under its lock and
 increments atomically

---
 runtime/plugins/simplecache/cache.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..24c3989 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -31,7 +31,10 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
-	if v, exists := cache.values[key]; exists {
+	cache.RLock()
+	v, exists := cache.values[key]
+	cache.RUnlock()
+	if exists {
 		return true, backend.CopyResult(v, val)
 	}
 	return false, nil
@@ -73,11 +76,15 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
+	cache.Lock()
+	defer cache.Unlock()
 	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
-	if err != nil {
-		return cur, err
+	if v, exists := cache.values[key]; exists {
+		if err := backend.CopyResult(v, &cur); err != nil {
+			return cur, err
+		}
 	}
 	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	cache.values[key] = cur
+	return cur, nil
 }
-- 
2.43.0


From 1081e640c74b4b1c033b43eb537e4b4b74ebf185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 02/48] fix: CopyResult no longer panics on a nil source
 (runtime)

---
 runtime/core/backend/reflect.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..529dcd6 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -27,6 +27,17 @@ func CopyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is an untyped nil, which only nillable destinations can hold
+		switch dst_val.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice:
+			dst_val.SetZero()
+			return nil
+		default:
+			return errors.Errorf("unable to copy nil to type %v", dst_val.Type())
+		}
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From c212380413f1cc711aa1b9c8eb57c2d2fbc15998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 03/48] fix: copyResult no longer panics on a nil source
 (compiler)

---
 blueprint/pkg/wiring/reflect.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blueprint/pkg/wiring/reflect.go b/blueprint/pkg/wiring/reflect.go
index 7b67f79..220dad9 100644
--- a/blueprint/pkg/wiring/reflect.go
+++ b/blueprint/pkg/wiring/reflect.go
@@ -27,6 +27,17 @@ func copyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is an untyped nil, which only nillable destinations can hold
+		switch dst_val.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice:
+			dst_val.SetZero()
+			return nil
+		default:
+			return blueprint.Errorf("unable to copy nil to type %v", dst_val.Type())
+		}
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From ba402670f85da9a2f088859b3ea0ce86a698b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 04/48] fix: clientpool reads its size and availability
 counters atomically

---
 runtime/plugins/clientpool/clientpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..a9f76fb 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -56,7 +56,7 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	}
 
 	// If the pool isn't at capacity, we can instantiate a new client
-	for curSize := pool.size; curSize < pool.capacity; {
+	for curSize := atomic.LoadInt64(&pool.size); curSize < pool.capacity; {
 		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
 			client, err = pool.build()
 			if err != nil {
@@ -64,7 +64,7 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 			}
 			return
 		}
-		curSize = pool.size
+		curSize = atomic.LoadInt64(&pool.size)
 	}
 
 	// Pool is at capacity; wait to reuse an existing client
@@ -92,10 +92,10 @@ func (pool *ClientPool[T]) Capacity() int {
 
 // Returns the current size of the client pool
 func (pool *ClientPool[T]) Size() int {
-	return int(pool.size)
+	return int(atomic.LoadInt64(&pool.size))
 }
 
 // Returns the current number of available clients in the client pool
 func (pool *ClientPool[T]) Available() int {
-	return int(pool.available)
+	return int(atomic.LoadInt64(&pool.available))
 }
-- 
2.43.0


From fb58e81043de8191f9b1ba7c41303e7c3074ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 05/48] fix: AssignPorts never assigns port 0 and reports
 exhausted ports

---
 blueprint/pkg/coreplugins/address/portassignment.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/address/portassignment.go b/blueprint/pkg/coreplugins/address/portassignment.go
index 5b02750..3b59ed0 100644
--- a/blueprint/pkg/coreplugins/address/portassignment.go
+++ b/blueprint/pkg/coreplugins/address/portassignment.go
@@ -1,6 +1,8 @@
 package address
 
 import (
+	"math"
+
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
@@ -63,6 +65,12 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 		}
 	}
 
+	// Ports 1 to 65535 are available
+	if len(ports)+len(assigned) > math.MaxUint16 {
+		err = blueprint.Errorf("cannot assign distinct ports to %v addresses", len(binds))
+		return
+	}
+
 	// Assign remaining ports
 	for _, addr := range assigned {
 		candidatePort := addr.PreferredPort
@@ -70,7 +78,7 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 			candidatePort = 2000
 		}
 		for {
-			if _, alreadyAssigned := ports[candidatePort]; !alreadyAssigned {
+			if _, alreadyAssigned := ports[candidatePort]; !alreadyAssigned && candidatePort != 0 {
 				addr.Port = candidatePort
 				ports[addr.Port] = addr
 				break
-- 
2.43.0


From e22675400de88a2ecab5e6405e00a531fd509691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 06/48] fix: Define resets the options of a redefined node

---
 blueprint/pkg/wiring/wiring.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index b654a4d..9e8397e 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -181,6 +181,7 @@ func (spec *wiringSpecImpl) Define(name string, nodeType any, build BuildFunc, o
 	def := spec.getDef(name, true)
 	def.NodeType = nodeType
 	def.Build = build
+	def.Options = WiringOpts{}
 	if len(options) > 0 {
 		def.Options = options[0]
 	}
-- 
2.43.0


From e828155949d3d30fdbf6cefa92b0abfea6c26345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 07/48] fix: a failed build behind an alias is not cached as a
 nil node

---
 blueprint/pkg/wiring/namespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index d238be9..6022f8c 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -174,10 +174,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		namespace.Info("Resolved %s to %s", name, def.Name)
 		var node ir.IRNode
 		err := namespace.get(def.Name, addEdge, &node)
-		namespace.Seen[name] = node
 		if err != nil {
 			return err
 		}
+		namespace.Seen[name] = node
 		return copyResult(node, dst)
 	}
 
-- 
2.43.0


From a483fa2406b3cef09891c679f3d6aae63e614348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 08/48] fix: Namespace.Put pushes to the parent when there is
 one

---
 blueprint/pkg/wiring/namespace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 6022f8c..4a27b27 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -241,7 +241,7 @@ func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
 		return nil
 	}
 
-	if namespace.ParentNamespace != nil {
+	if namespace.ParentNamespace == nil {
 		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).Elem().Name())
 	}
 
-- 
2.43.0


From fd3cc696782998aeac53106d0517069a0cc5e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 09/48] fix: InstantiateDst reports a failure to build the
 server side

---
 blueprint/pkg/coreplugins/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/pointer/pointer.go b/blueprint/pkg/coreplugins/pointer/pointer.go
index f5e0ec3..14a7725 100644
--- a/blueprint/pkg/coreplugins/pointer/pointer.go
+++ b/blueprint/pkg/coreplugins/pointer/pointer.go
@@ -243,7 +243,7 @@ func (ptr *PointerDef) InstantiateDst(namespace wiring.Namespace) error {
 
 	// Getting the first dst modifier should cause all of the dst side of the pointer to be instantiated
 	var dst ir.IRNode
-	if namespace.Instantiate(ptr.dstModifiers[0], &dst) != nil {
+	if err := namespace.Instantiate(ptr.dstModifiers[0], &dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From ff648a0eab834050cbadc7848b37ec36443c742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 10/48] fix: Get after Instantiate still records the node as an
 argument of the namespace

---
 blueprint/pkg/wiring/namespace.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 4a27b27..0c369d9 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -177,7 +177,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
-		namespace.Seen[name] = node
+		if addEdge {
+			namespace.Seen[name] = node
+		}
 		return copyResult(node, dst)
 	}
 
@@ -196,9 +198,13 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
+		if !addEdge {
+			// A later Get must still add the edge, so the node does not count as seen yet
+			return copyResult(node, dst)
+		}
 		if _, already_added := namespace.Added[node.Name()]; !already_added {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
-				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
+			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && !def.Options.ProxyNode {
+				// Don't bother adding edges for metadata or proxy nodes
 				namespace.Handler.AddEdge(name, node)
 			}
 			namespace.Added[node.Name()] = true
-- 
2.43.0


From fd8549c4fea5d2071446373582d2854b36dadd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 11/48] fix: imports cover and name the element type of
 variadic parameters

---
 plugins/golang/gogen/imports.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 0e6ec42..584b5b5 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -90,6 +90,10 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 		{
 			imports.AddType(t.SliceOf)
 		}
+	case *gocode.Ellipsis:
+		{
+			imports.AddType(t.EllipsisOf)
+		}
 	case *gocode.Map:
 		{
 			imports.AddType(t.KeyType)
@@ -159,6 +163,10 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		{
 			return "[]" + imports.NameOf(t.SliceOf)
 		}
+	case *gocode.Ellipsis:
+		{
+			return "..." + imports.NameOf(t.EllipsisOf)
+		}
 	case *gocode.Map:
 		{
 			return fmt.Sprintf("map[%s]%s", imports.NameOf(t.KeyType), imports.NameOf(t.ValueType))
-- 
2.43.0


From 4ecbd1f09185e38281e9dd70192db24cd04d786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 12/48] fix: GetMethods, GetArguments and GetReturns list each
 element, not the last one repeatedly

---
 plugins/golang/gocode/service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/golang/gocode/service.go b/plugins/golang/gocode/service.go
index 3f523ad..47afdff 100644
--- a/plugins/golang/gocode/service.go
+++ b/plugins/golang/gocode/service.go
@@ -43,6 +43,7 @@ func (s *ServiceInterface) GetName() string {
 func (s *ServiceInterface) GetMethods() []service.Method {
 	var methods []service.Method
 	for _, method := range s.Methods {
+		method := method
 		methods = append(methods, &method)
 	}
 	return methods
@@ -68,6 +69,7 @@ func (f *Func) GetName() string {
 func (f *Func) GetArguments() []service.Variable {
 	var variables []service.Variable
 	for _, variable := range f.Arguments {
+		variable := variable
 		variables = append(variables, &variable)
 	}
 	return variables
@@ -76,6 +78,7 @@ func (f *Func) GetArguments() []service.Variable {
 func (f *Func) GetReturns() []service.Variable {
 	var variables []service.Variable
 	for _, variable := range f.Returns {
+		variable := variable
 		variables = append(variables, &variable)
 	}
 	return variables
-- 
2.43.0


From c3f598a0559bfcfd945b29f84ee6b608c4661887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 13/48] fix: AddArgument and AddRetVar do not write into the
 slices of other copies of the method

---
 plugins/golang/gocode/service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/golang/gocode/service.go b/plugins/golang/gocode/service.go
index 47afdff..d091116 100644
--- a/plugins/golang/gocode/service.go
+++ b/plugins/golang/gocode/service.go
@@ -85,11 +85,12 @@ func (f *Func) GetReturns() []service.Variable {
 }
 
 func (f *Func) AddArgument(variable Variable) {
-	f.Arguments = append(f.Arguments, variable)
+	// Copies of f share its slices; never write into their spare capacity
+	f.Arguments = append(f.Arguments[:len(f.Arguments):len(f.Arguments)], variable)
 }
 
 func (f *Func) AddRetVar(variable Variable) {
-	f.Returns = append(f.Returns, variable)
+	f.Returns = append(f.Returns[:len(f.Returns):len(f.Returns)], variable)
 }
 
 func (v *Variable) GetName() string {
-- 
2.43.0


From ec7261d681765e8b16ea04c71c5d2272d848cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 14/48] fix: a workload with a negative proportion is not valid

---
 runtime/core/workload/workload.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/core/workload/workload.go b/runtime/core/workload/workload.go
index 29ffc00..1883aef 100644
--- a/runtime/core/workload/workload.go
+++ b/runtime/core/workload/workload.go
@@ -59,9 +59,13 @@ func (w *Workload) AddAPI(name string, fn RequestFunction, proportion int) error
 // IsValid checks if the configured workload is valid or not.
 // Validity Conditions:
 //   - The proportions of all APIs should sum to 100
+//   - No API has a negative proportion
 func (w *Workload) IsValid() bool {
 	total := 0
 	for _, api := range w.ApiInfos {
+		if api.Proportion < 0 {
+			return false
+		}
 		total += api.Proportion
 	}
 	if total == 100 {
-- 
2.43.0


From edc87076bc613e229d1b404f87f7088974508418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 15/48] fix: cleaned names contain no spaces; Capitalize
 accepts the empty string

---
 blueprint/pkg/blueprint/stringutil/name.go | 5 ++++-
 runtime/plugins/golang/namespace.go        | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/blueprint/stringutil/name.go b/blueprint/pkg/blueprint/stringutil/name.go
index 0671dc2..ec74651 100644
--- a/blueprint/pkg/blueprint/stringutil/name.go
+++ b/blueprint/pkg/blueprint/stringutil/name.go
@@ -9,11 +9,14 @@ import (
 
 // Returns s with the first letter converted to uppercase.
 func Capitalize(s string) string {
+	if s == "" {
+		return s
+	}
 	r := []rune(s)
 	return string(append([]rune{unicode.ToUpper(r[0])}, r[1:]...))
 }
 
-var r = regexp.MustCompile(`[^a-zA-Z0-9 ]+`)
+var r = regexp.MustCompile(`[^a-zA-Z0-9]+`)
 
 // Returns name with only alphanumeric characters and all other
 // symbols converted to underscores.
diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..d3ad931 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -146,7 +146,7 @@ func EnvVar(name string) string {
 	return strings.ToUpper(cleanName(name))
 }
 
-var r = regexp.MustCompile(`[^a-zA-Z0-9 ]+`)
+var r = regexp.MustCompile(`[^a-zA-Z0-9]+`)
 
 // Returns name with only alphanumeric characters and all other
 // symbols converted to underscores.
-- 
2.43.0


From 361c3307622bcdc631c94300e572948a06f4eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 16/48] fix: $exists: false looks up the filtered field, not a
 field called $exists

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..c7aff07 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -306,7 +306,7 @@ func parseExistsOperators(key string, d bson.D) (Filter, error) {
 		if e.Key == "$exists" {
 			if v, isBool := e.Value.(bool); isBool {
 				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
+					return Not(Lookup(key, Exists())), nil
 				} else {
 					return nil, nil
 				}
-- 
2.43.0


From bfa1f2ae672fb048ee2226b53130d47b61c441b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 17/48] fix: an array value matches only arrays of the same
 length

---
 runtime/plugins/simplenosqldb/query/filter.go   | 17 +++++++++++++++++
 .../plugins/simplenosqldb/query/parsefilter.go  |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 1541147..4efc2d4 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -68,6 +68,10 @@ type (
 		fields map[string]struct{}
 	}
 
+	exactLengthMatch struct {
+		length int
+	}
+
 	regex struct {
 		re *regexp.Regexp
 	}
@@ -172,6 +176,10 @@ func ExactFieldMatch(fieldsSeen ...string) Filter {
 	return &exactFieldMatch{fields: lookup}
 }
 
+func ExactLengthMatch(length int) Filter {
+	return &exactLengthMatch{length: length}
+}
+
 func Regex(regex_string string) (Filter, error) {
 	re, err := regexp.Compile(regex_string)
 	return &regex{re: re}, err
@@ -296,6 +304,11 @@ func (f *exactFieldMatch) Apply(item any) bool {
 	return true
 }
 
+func (f *exactLengthMatch) Apply(item any) bool {
+	a, isA := item.(bson.A)
+	return isA && len(a) == f.length
+}
+
 func (f *regex) Apply(item any) bool {
 	strval, isStr := item.(string)
 	return isStr && f.re.MatchString(strval)
@@ -382,6 +395,10 @@ func (f *exactFieldMatch) String() string {
 	return fmt.Sprintf("ExactFieldMatch (%v)", strings.Join(fieldNames, ", "))
 }
 
+func (f *exactLengthMatch) String() string {
+	return fmt.Sprintf("ExactLengthMatch (%v)", f.length)
+}
+
 func (f *and) String() string {
 	var filterstrings []string
 	for _, filter := range f.filters {
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index c7aff07..26807b5 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -128,6 +128,8 @@ func parseArrayValues(a bson.A) (Filter, error) {
 			arrayFilters = append(arrayFilters, Index(i, Equals(v)))
 		}
 	}
+	// Array matches must be exact matches
+	arrayFilters = append(arrayFilters, ExactLengthMatch(len(a)))
 	return And(arrayFilters...), nil
 }
 
-- 
2.43.0


From 822fbc71e13b74841890014ebe52096826e41c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 18/48] fix: a negative array index in a filter path matches
 nothing instead of panicking

---
 runtime/plugins/simplenosqldb/query/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 4efc2d4..080c6e3 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -205,7 +205,7 @@ func (f *selectFilter) Apply(item any) bool {
 }
 
 func (f *index) Apply(item any) bool {
-	if a, isA := item.(bson.A); isA && f.i < len(a) {
+	if a, isA := item.(bson.A); isA && f.i >= 0 && f.i < len(a) {
 		return f.next.Apply(a[f.i])
 	}
 	return false
-- 
2.43.0


From dc40b72734c9d7b18debca667ccd9acc9f9645ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 19/48] fix: integer filter values match floating-point fields
 of the same value

---
 runtime/plugins/simplenosqldb/query/filter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 080c6e3..dac47b7 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -243,7 +243,8 @@ func (f *cmpInt) Apply(item any) bool {
 			return v <= f.value
 		}
 	}
-	return false
+	// Numbers of different types compare by value
+	return (&cmpFloat{value: float64(f.value), cmp: f.cmp}).Apply(item)
 }
 
 func (f *cmpFloat) Apply(item any) bool {
-- 
2.43.0


From 9699d3e7364782a5b47cf55091b0214e204669ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 20/48] fix: $ne negates the whole lookup and each operator of
 a condition is looked up separately

---
 .../simplenosqldb/query/parsefilter.go        | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 26807b5..fb9c36e 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -177,8 +177,7 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 			}
 
 			// We have regular value operators
-			filter, err := parseValueOperators(v)
-			return Lookup(e.Key, Broadcast(filter)), err
+			return parseValueOperators(e.Key, v)
 		}
 	case bson.A:
 		{
@@ -322,16 +321,28 @@ func parseExistsOperators(key string, d bson.D) (Filter, error) {
 
 /*
 Parses a value that has some operators in it
+
+Each operator is a separate condition on the field: if the field is an array then
+different elements of the array can satisfy different operators
 */
-func parseValueOperators(d bson.D) (Filter, error) {
+func parseValueOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
+		if e.Key == "$ne" {
+			// Negates the whole lookup: the field must not exist, or neither it nor any of its elements is equal
+			filter, err := parseValue(e.Value)
+			if err != nil {
+				return nil, err
+			}
+			filters = append(filters, Not(Lookup(key, Broadcast(filter))))
+			continue
+		}
 
 		filter, err := parseValueOperator(e)
 		if err != nil {
 			return nil, err
 		}
-		filters = append(filters, filter)
+		filters = append(filters, Lookup(key, Broadcast(filter)))
 	}
 	return And(filters...), nil
 }
@@ -345,11 +356,6 @@ func parseValueOperator(e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$eq":
 		return parseValue(e.Value)
-	case "$ne":
-		{
-			f, err := parseValue(e.Value)
-			return Not(f), err
-		}
 	case "$in":
 		{
 			v := reflect.ValueOf(e.Value)
-- 
2.43.0


From 6bb1e7495e0115a1e3874c695e3d846a5c16830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 21/48] fix: a condition on an array field also applies to the
 array itself

---
 runtime/plugins/simplenosqldb/query/filter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index dac47b7..d567850 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -218,10 +218,9 @@ func (f *broadcast) Apply(item any) bool {
 				return true
 			}
 		}
-		return false
-	} else {
-		return f.next.Apply(item)
 	}
+	// The array itself can also match
+	return f.next.Apply(item)
 }
 
 func (f *equals) Apply(item any) bool {
-- 
2.43.0


From d0311bd624692f1da5a1c85ead57c803176e378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 22/48] fix: $elemMatch matches only array fields

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index fb9c36e..92f08ac 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -293,7 +293,7 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Broadcast(filter), err
+			return ElemMatch(filter), err
 		}
 	case "$size":
 	}
-- 
2.43.0


From 2feb3a66d453508d7f19a3324e1f215dbce41390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 23/48] fix: an array value also matches an equal element of an
 array field

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 92f08ac..17ae5b1 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -183,7 +183,7 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 		{
 			// Exact match an array value
 			filter, err := parseArrayValues(v)
-			return Lookup(e.Key, filter), err
+			return Lookup(e.Key, Broadcast(filter)), err
 		}
 	case bson.E:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.E")
-- 
2.43.0


From 697216943115ae907ccc5f66671e819a9e5c0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 24/48] fix: $all also matches a single value, and nothing if
 no values are given

---
 runtime/plugins/simplenosqldb/query/filter.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index d567850..15f91a8 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -315,21 +315,12 @@ func (f *regex) Apply(item any) bool {
 }
 
 func (f *all) Apply(item any) bool {
-	a, isA := item.(bson.A)
-	if !isA {
-		return false
-	}
-
-outer:
 	for _, valuefilter := range f.values {
-		for _, e := range a {
-			if valuefilter.Apply(e) {
-				continue outer
-			}
+		if !(&broadcast{next: valuefilter}).Apply(item) {
+			return false
 		}
-		return false
 	}
-	return true
+	return len(f.values) > 0
 }
 
 func (f *elemMatch) Apply(item any) bool {
-- 
2.43.0


From fee1020e4820da8e1f7b0d72fb015c1b870e43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 25/48] fix: reject logical operators with no operands instead
 of matching everything

---
 runtime/plugins/simplenosqldb/query/parsefilter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 17ae5b1..ca4374f 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -25,6 +25,9 @@ func init() {
 }
 
 func parseQueries(a bson.A) ([]Filter, error) {
+	if len(a) == 0 {
+		return nil, errors.Errorf("invalid query; expected at least one bson.D in the array of a logical operator")
+	}
 	var filters []Filter
 	for _, v := range a {
 		d, isD := v.(bson.D)
-- 
2.43.0


From b5cdedc0b6ac336238a2530c355e2757d91ad4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 26/48] fix: $exists does not discard the other operators of a
 condition

---
 .../simplenosqldb/query/parsefilter.go        | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index ca4374f..fab1019 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -174,11 +174,6 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 				return Lookup(e.Key, filter), err
 			}
 
-			// $exists: false is a special case
-			if filter, err := parseExistsOperators(e.Key, v); err != nil || filter != nil {
-				return filter, err
-			}
-
 			// We have regular value operators
 			return parseValueOperators(e.Key, v)
 		}
@@ -303,25 +298,6 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 	return nil, nil
 }
 
-// $exists: false is a special case that can also ignore all other operators
-// This only returns a filter for $exists: false; not $exists: true
-func parseExistsOperators(key string, d bson.D) (Filter, error) {
-	for _, e := range d {
-		if e.Key == "$exists" {
-			if v, isBool := e.Value.(bool); isBool {
-				if !v {
-					return Not(Lookup(key, Exists())), nil
-				} else {
-					return nil, nil
-				}
-			} else {
-				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
-			}
-		}
-	}
-	return nil, nil
-}
-
 /*
 Parses a value that has some operators in it
 
@@ -340,6 +316,18 @@ func parseValueOperators(key string, d bson.D) (Filter, error) {
 			filters = append(filters, Not(Lookup(key, Broadcast(filter))))
 			continue
 		}
+		if e.Key == "$exists" {
+			v, isBool := e.Value.(bool)
+			if !isBool {
+				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
+			}
+			filter := Lookup(key, Exists())
+			if !v {
+				filter = Not(filter)
+			}
+			filters = append(filters, filter)
+			continue
+		}
 
 		filter, err := parseValueOperator(e)
 		if err != nil {
-- 
2.43.0


From 920f51351bfddcc5b82005520ae615f46b1be9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 27/48] fix: $set to null does not panic

---
 runtime/plugins/simplenosqldb/query/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..28c633e 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -181,7 +181,7 @@ func (s *set) Apply(itemRef any) error {
 		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
 	}
 
-	dst_val.Set(reflect.ValueOf(v))
+	dst_val.Set(reflect.ValueOf(&v).Elem())
 
 	return nil
 }
-- 
2.43.0


From 73c5ec5569d88c2f34559df9604938e5fa0f8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 28/48] fix: updating an array element keeps the elements after
 it and rejects negative indices

---
 runtime/plugins/simplenosqldb/query/update.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 28c633e..3eb622a 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -308,6 +308,10 @@ func (u *unsetelement) Apply(itemRef any) error {
 		return errors.Errorf("unsetelement expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
+	if u.index < 0 {
+		return errors.Errorf("unsetelement invalid array index %v", u.index)
+	}
+
 	// Ensure the slice length
 	if u.index < len(v) {
 		v[u.index] = nil
@@ -397,16 +401,17 @@ func (s *updateindex) Apply(itemRef any) error {
 		return errors.Errorf("updateindex expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
+	if s.index < 0 {
+		return errors.Errorf("updateindex invalid array index %v", s.index)
+	}
+
 	// Ensure the slice length
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
-	if cap(v) <= s.index {
-		newv := make(bson.A, 0, s.index+1)
-		newv = append(newv, v...)
-		v = newv
+	for len(v) <= s.index {
+		v = append(v, nil)
 	}
-	v = v[:s.index+1]
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From 628278cc3108685350dd64355c0db4bd00deb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 29/48] fix: $inc does not wrap around when the sum does not
 fit the type of the field

---
 runtime/plugins/simplenosqldb/query/update.go | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 3eb622a..bada13d 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -329,24 +329,51 @@ func (i *incint) Apply(itemRef any) error {
 		itemVal = int64(0)
 	}
 
-	switch v := itemVal.(type) {
+	var v int64
+	switch item := itemVal.(type) {
 	case float64:
-		return backend.CopyResult(v+float64(i.amount), itemRef)
+		return backend.CopyResult(item+float64(i.amount), itemRef)
 	case float32:
-		return backend.CopyResult(v+float32(i.amount), itemRef)
+		return backend.CopyResult(item+float32(i.amount), itemRef)
 	case int64:
-		return backend.CopyResult(v+i.amount, itemRef)
+		v = item
 	case int32:
-		return backend.CopyResult(v+int32(i.amount), itemRef)
+		v = int64(item)
 	case int16:
-		return backend.CopyResult(v+int16(i.amount), itemRef)
+		v = int64(item)
 	case int8:
-		return backend.CopyResult(v+int8(i.amount), itemRef)
+		v = int64(item)
 	case int:
-		return backend.CopyResult(v+int(i.amount), itemRef)
+		v = int64(item)
 	default:
 		return errors.Errorf("incint unable to increment non-integer %v", itemVal)
 	}
+
+	sum := v + i.amount
+	if i.amount != 0 && (sum > v) != (i.amount > 0) {
+		return errors.Errorf("incint overflow adding %v to %v", i.amount, v)
+	}
+
+	// Keep the type of the item if the sum fits, otherwise use an int64
+	switch itemVal.(type) {
+	case int32:
+		if int64(int32(sum)) == sum {
+			return backend.CopyResult(int32(sum), itemRef)
+		}
+	case int16:
+		if int64(int16(sum)) == sum {
+			return backend.CopyResult(int16(sum), itemRef)
+		}
+	case int8:
+		if int64(int8(sum)) == sum {
+			return backend.CopyResult(int8(sum), itemRef)
+		}
+	case int:
+		if int64(int(sum)) == sum {
+			return backend.CopyResult(int(sum), itemRef)
+		}
+	}
+	return backend.CopyResult(sum, itemRef)
 }
 
 func (s *updatefield) Apply(itemRef any) error {
-- 
2.43.0


From 8103f4d59548bae9aafbcfb1986c84019419af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:48 +0000
Subject: [PATCH 30/48] fix: an update that fails changes nothing and updates
 do not modify shared documents in place

---
 runtime/plugins/simplenosqldb/nosqldb.go      | 21 ++++++++-----
 runtime/plugins/simplenosqldb/query/update.go | 30 ++++++++++++++-----
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..d78dd99 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -240,7 +240,10 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			if err := updateOp.Apply(&db.items[i]); err != nil {
+				return 0, err
+			}
+			return 1, nil
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -266,25 +269,27 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 	}
 
 	updated := 0
-	for i := range db.items {
-		if filterOp.Apply(db.items[i]) {
+	items := append([]bson.D{}, db.items...)
+	for i := range items {
+		if filterOp.Apply(items[i]) {
 			if verbose {
-				fmt.Printf("UPDATING: %v\n", db.items[i])
+				fmt.Printf("UPDATING: %v\n", items[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			err := updateOp.Apply(&items[i])
 			if err != nil {
-				return updated, err
+				return 0, err
 			}
 			if verbose {
-				fmt.Printf("      --> %v\n", db.items[i])
+				fmt.Printf("      --> %v\n", items[i])
 			}
 			updated += 1
 		} else {
 			if verbose {
-				fmt.Printf("          %v\n", db.items[i])
+				fmt.Printf("          %v\n", items[i])
 			}
 		}
 	}
+	db.items = items
 	return updated, nil
 }
 
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index bada13d..af6fbe6 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -13,6 +13,9 @@ import (
 )
 
 type Update interface {
+	// Updates the value that itemRef points to.  The documents and arrays that make up the value are not
+	// modified, since they might be shared; the parts that change are replaced by copies.  If an error
+	// is returned then the value is also not modified.
 	Apply(itemRef any) error
 	String() string
 }
@@ -207,7 +210,7 @@ func (p *push) Apply(itemRef any) error {
 		return errors.Errorf("push expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
-	a = append(a, v)
+	a = append(append(bson.A{}, a...), v)
 	return backend.CopyResult(a, itemRef)
 }
 
@@ -238,7 +241,7 @@ func (p *addtoset) Apply(itemRef any) error {
 			return nil
 		}
 	}
-	a = append(a, v)
+	a = append(append(bson.A{}, a...), v)
 
 	return backend.CopyResult(a, itemRef)
 }
@@ -290,7 +293,7 @@ func (u *unsetfield) Apply(itemRef any) error {
 	// See if the key exists within the document; if so remove it
 	for i := range v {
 		if v[i].Key == u.fieldName {
-			v = append(v[:i], v[i+1:]...)
+			v = append(append(bson.D{}, v[:i]...), v[i+1:]...)
 			return backend.CopyResult(v, itemRef)
 		}
 	}
@@ -314,7 +317,9 @@ func (u *unsetelement) Apply(itemRef any) error {
 
 	// Ensure the slice length
 	if u.index < len(v) {
+		v = append(bson.A{}, v...)
 		v[u.index] = nil
+		return backend.CopyResult(v, itemRef)
 	}
 	return nil
 }
@@ -391,10 +396,16 @@ func (s *updatefield) Apply(itemRef any) error {
 		return errors.Errorf("updatefield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
-	// See if the key exists within the document; if so update in place
+	// The document might be shared, so update a copy
+	v = append(bson.D{}, v...)
+
+	// See if the key exists within the document; if so update the field and copy back to ptr
 	for i := range v {
 		if v[i].Key == s.fieldName {
-			return s.update.Apply(&v[i].Value)
+			if err := s.update.Apply(&v[i].Value); err != nil {
+				return err
+			}
+			return backend.CopyResult(v, itemRef)
 		}
 	}
 
@@ -436,6 +447,7 @@ func (s *updateindex) Apply(itemRef any) error {
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
+	v = append(bson.A{}, v...) // the array might be shared
 	for len(v) <= s.index {
 		v = append(v, nil)
 	}
@@ -450,12 +462,16 @@ func (s *updateindex) Apply(itemRef any) error {
 }
 
 func (a *updateall) Apply(itemRef any) error {
+	itemVal, err := backend.GetPointerValue(itemRef)
+	if err != nil {
+		return err
+	}
 	for _, update := range a.updates {
-		if err := update.Apply(itemRef); err != nil {
+		if err := update.Apply(&itemVal); err != nil {
 			return err
 		}
 	}
-	return nil
+	return backend.CopyResult(itemVal, itemRef)
 }
 
 func (b *broadcastupdate) Apply(itemRef any) error {
-- 
2.43.0


From 07eff48b87f5ea995f3ff3fa7ee7af1e1066f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 31/48] fix: $pull on an absent field does not create the field

---
 runtime/plugins/simplenosqldb/query/parseupdate.go | 2 +-
 runtime/plugins/simplenosqldb/query/update.go      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..f957a1e 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -206,7 +206,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, updatePath(e.Key, update, false))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index af6fbe6..dfc35b5 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -113,12 +113,16 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 }
 
 func UpdatePath(selector string, update Update) Update {
+	return updatePath(selector, update, true)
+}
+
+func updatePath(selector string, update Update, createIfAbsent bool) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
 		if j, err := strconv.Atoi(splits[i]); err == nil {
-			update = UpdateIndex(j, update, true)
+			update = UpdateIndex(j, update, createIfAbsent)
 		} else {
-			update = UpdateField(splits[i], update, true)
+			update = UpdateField(splits[i], update, createIfAbsent)
 			if i != 0 {
 				update = BroadcastUpdate(update) // broadcast in case the field is an array type
 			}
-- 
2.43.0


From bedc0713dc66ed53fe0167044f6ea957143deca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 32/48] fix: $pull of an array value removes the equal elements

---
 runtime/plugins/simplenosqldb/query/parseupdate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index f957a1e..5c398dd 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -196,7 +196,7 @@ func parsePull(args any) ([]Update, error) {
 		case bson.D:
 			filter, err = parseQuery(v)
 		default:
-			filter = Equals(v)
+			filter, err = parseValue(v)
 		}
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e6ed4ace3643398ff385f0837061773e92b09e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 33/48] fix: $addToSet recognises equal numbers of different
 types

---
 runtime/plugins/simplenosqldb/query/update.go | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index dfc35b5..fd90d4c 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -241,7 +241,7 @@ func (p *addtoset) Apply(itemRef any) error {
 
 	// Check if it exists
 	for i := range a {
-		if reflect.DeepEqual(v, a[i]) {
+		if equalValues(v, a[i]) {
 			return nil
 		}
 	}
@@ -250,6 +250,36 @@ func (p *addtoset) Apply(itemRef any) error {
 	return backend.CopyResult(a, itemRef)
 }
 
+// Reports whether two values are the same, comparing numbers by value whatever their type
+func equalValues(a, b any) bool {
+	switch x := a.(type) {
+	case bson.D:
+		y, isD := b.(bson.D)
+		if !isD || len(x) != len(y) {
+			return false
+		}
+		for i := range x {
+			if x[i].Key != y[i].Key || !equalValues(x[i].Value, y[i].Value) {
+				return false
+			}
+		}
+		return true
+	case bson.A:
+		y, isA := b.(bson.A)
+		if !isA || len(x) != len(y) {
+			return false
+		}
+		for i := range x {
+			if !equalValues(x[i], y[i]) {
+				return false
+			}
+		}
+		return true
+	default:
+		return Equals(a).Apply(b)
+	}
+}
+
 func (p *pull) Apply(itemRef any) error {
 	itemVal, err := backend.GetPointerValue(itemRef)
 	if err != nil {
-- 
2.43.0


From 0885055bf095b7a38f594e12e0a15832c7794cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 34/48] fix: inserted documents are not shared with the caller

---
 runtime/plugins/simplenosqldb/nosqldb.go | 33 +++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index d78dd99..a9e925d 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -98,7 +98,9 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
 	d, isD := document.(bson.D)
-	if !isD {
+	if isD {
+		d = copyDocument(d)
+	} else {
 		var err error
 		d, err = toBson(document)
 		if err != nil {
@@ -342,6 +344,35 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	return updateCount, nil
 }
 
+// Copies a document including its sub-documents and arrays, which the caller might subsequently modify
+func copyDocument(d bson.D) bson.D {
+	copied := make(bson.D, len(d))
+	for i := range d {
+		copied[i].Key = d[i].Key
+		copied[i].Value = copyValue(d[i].Value)
+	}
+	return copied
+}
+
+func copyArray(a bson.A) bson.A {
+	copied := make(bson.A, len(a))
+	for i := range a {
+		copied[i] = copyValue(a[i])
+	}
+	return copied
+}
+
+func copyValue(value any) any {
+	switch v := value.(type) {
+	case bson.D:
+		return copyDocument(v)
+	case bson.A:
+		return copyArray(v)
+	default:
+		return v
+	}
+}
+
 func toBson(document any) (bson.D, error) {
 	bytes, err := bson.Marshal(document)
 	if err != nil {
-- 
2.43.0


From 2830f301e8e41e844ec7e51224cb0035e257b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 35/48] fix: InsertMany inserts nothing if one of the documents
 cannot be inserted

---
 runtime/plugins/simplenosqldb/nosqldb.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index a9e925d..b5532b2 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -97,6 +97,16 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
+	d, err := newDocument(document)
+	if err != nil {
+		return err
+	}
+	db.items = append(db.items, d)
+	return nil
+}
+
+// Converts the document to a bson.D that isn't shared with the caller, and gives it an ID if it has none
+func newDocument(document interface{}) (bson.D, error) {
 	d, isD := document.(bson.D)
 	if isD {
 		d = copyDocument(d)
@@ -104,7 +114,7 @@ func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{})
 		var err error
 		d, err = toBson(document)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 	hasId := false
@@ -117,18 +127,19 @@ func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{})
 	if !hasId {
 		d = append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
 	}
-
-	db.items = append(db.items, d)
-	return nil
+	return d, nil
 }
 
 func (db *SimpleCollection) InsertMany(ctx context.Context, documents []interface{}) error {
-	for _, d := range documents {
-		err := db.InsertOne(ctx, d)
+	var items []bson.D
+	for _, document := range documents {
+		d, err := newDocument(document)
 		if err != nil {
 			return err
 		}
+		items = append(items, d)
 	}
+	db.items = append(db.items, items...)
 	return nil
 }
 
-- 
2.43.0


From 4388124d41ae2202a33fe704b3c6a9fc25355634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 36/48] fix: a replacement that fails changes nothing and is
 reported

---
 runtime/plugins/simplenosqldb/nosqldb.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index b5532b2..16be20b 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -309,7 +309,7 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
 	updatedCount, err := db.ReplaceOne(ctx, filter, document)
 	if updatedCount == 1 || err != nil {
-		return true, err
+		return updatedCount == 1, err
 	}
 	return false, db.InsertOne(ctx, document)
 }
@@ -330,8 +330,12 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 	}
 	for i, item := range db.items {
 		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
+			replacementItem, err := toBson(replacement)
+			if err != nil {
+				return 0, err
+			}
+			db.items[i] = replacementItem
+			return 1, nil
 		}
 	}
 	return 0, nil
@@ -340,18 +344,20 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	updateCount := 0
-	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
-		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
+	items := append([]bson.D{}, db.items...)
+	for i := 0; updateCount < len(replacements) && i < len(items); i++ {
+		if query.Apply(items[i]) {
+			items[i], err = toBson(replacements[updateCount])
 			if err != nil {
-				return updateCount, err
+				return 0, err
 			}
 			updateCount++
 		}
 	}
+	db.items = items
 	return updateCount, nil
 }
 
-- 
2.43.0


From 6007e7983e3468eb20431c4b47d2c8d44be2649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 37/48] fix: replacing a document keeps its _id

---
 runtime/plugins/simplenosqldb/nosqldb.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 16be20b..47fac8d 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -330,7 +330,7 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 	}
 	for i, item := range db.items {
 		if query.Apply(item) {
-			replacementItem, err := toBson(replacement)
+			replacementItem, err := newReplacement(item, replacement)
 			if err != nil {
 				return 0, err
 			}
@@ -350,7 +350,7 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	items := append([]bson.D{}, db.items...)
 	for i := 0; updateCount < len(replacements) && i < len(items); i++ {
 		if query.Apply(items[i]) {
-			items[i], err = toBson(replacements[updateCount])
+			items[i], err = newReplacement(items[i], replacements[updateCount])
 			if err != nil {
 				return 0, err
 			}
@@ -361,6 +361,25 @@ func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, repl
 	return updateCount, nil
 }
 
+// Converts the replacement for item to a bson.D; it has the same ID as item unless it specifies its own
+func newReplacement(item bson.D, replacement interface{}) (bson.D, error) {
+	d, err := toBson(replacement)
+	if err != nil {
+		return nil, err
+	}
+	for _, e := range d {
+		if e.Key == "_id" {
+			return d, nil
+		}
+	}
+	for _, e := range item {
+		if e.Key == "_id" {
+			return append(bson.D{e}, d...), nil
+		}
+	}
+	return d, nil
+}
+
 // Copies a document including its sub-documents and arrays, which the caller might subsequently modify
 func copyDocument(d bson.D) bson.D {
 	copied := make(bson.D, len(d))
-- 
2.43.0


From a896112dd1fd1af2cfa9d0e5c235b69eda1a275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 38/48] fix: simplenosqldb updates can store nil values

---
 runtime/plugins/simplenosqldb/query/update.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index fd90d4c..1d425a2 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -73,18 +73,26 @@ type (
 	}
 )
 
+// Marshals a value, which might be nil.
+func marshalValue(value any) (bsontype.Type, []byte, error) {
+	if value == nil {
+		return bsontype.Null, nil, nil
+	}
+	return bson.MarshalValue(value)
+}
+
 func SetValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &set{t: t, value: v}, err
 }
 
 func PushValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &push{t: t, value: v}, err
 }
 
 func AddToSet(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &addtoset{t: t, value: v}, err
 }
 
-- 
2.43.0


From e2c5b64b0066478aede03321d1180b505e067f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 39/48] fix: result copying handles nil pointers and keeps nil
 slices nil

---
 blueprint/pkg/wiring/reflect.go | 7 ++++++-
 runtime/core/backend/reflect.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/wiring/reflect.go b/blueprint/pkg/wiring/reflect.go
index 220dad9..6a65022 100644
--- a/blueprint/pkg/wiring/reflect.go
+++ b/blueprint/pkg/wiring/reflect.go
@@ -8,7 +8,7 @@ import (
 
 func getPointerValue(val any) (any, error) {
 	val_ptr := reflect.ValueOf(val)
-	if val_ptr.Kind() != reflect.Pointer {
+	if val_ptr.Kind() != reflect.Pointer || val_ptr.IsNil() {
 		return nil, blueprint.Errorf("cannot indirect non-pointer type %v", val)
 	}
 	return reflect.Indirect(val_ptr).Interface(), nil
@@ -39,6 +39,11 @@ func copyResult(src any, dst any) error {
 	}
 
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
+		if src_val.IsNil() {
+			dst_val.SetZero()
+			return nil
+		}
+
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
 		for i := 0; i < src_val.Len(); i++ {
diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 529dcd6..83a5898 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -8,7 +8,7 @@ import (
 
 func GetPointerValue(val any) (any, error) {
 	val_ptr := reflect.ValueOf(val)
-	if val_ptr.Kind() != reflect.Pointer {
+	if val_ptr.Kind() != reflect.Pointer || val_ptr.IsNil() {
 		return nil, errors.Errorf("cannot indirect non-pointer type %v", val)
 	}
 	return reflect.Indirect(val_ptr).Interface(), nil
@@ -39,6 +39,11 @@ func CopyResult(src any, dst any) error {
 	}
 
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
+		if src_val.IsNil() {
+			dst_val.SetZero()
+			return nil
+		}
+
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
 		for i := 0; i < src_val.Len(); i++ {
-- 
2.43.0


From 732c83eebcb4f96c1e1f3b00eb1e070fb47b3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 40/48] fix: docker-compose file is valid YAML and keeps
 exposed ports, volumes and commands

---
 .../dockercompose/dockergen/dockercompose.go  | 36 ++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index 420c5a0..b3b56da 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -195,11 +195,13 @@ services:
       dockerfile: ./Dockerfile
     {{- end}}
     hostname: {{.InstanceName}}
-    {{- if .Ports}}
+    {{- if .Expose}}
     expose:
     {{- range $internal, $_ := .Expose}}
      - "{{$internal}}"
     {{- end}}
+    {{- end}}
+    {{- if .Ports}}
     ports:
     {{- range $external, $internal := .Ports}}
      - "{{$external}}:{{$internal}}"
@@ -208,24 +210,24 @@ services:
     {{- if .Config}}
     environment:
     {{- range $name, $value := .Config}}
-     - {{$name}}={{$value}}
+     - {{printf "%q" (printf "%s=%s" $name $value)}}
+    {{- end}}
+    {{- end}}
+    {{- if .Volumes}}
+    volumes:
+    {{- range $name, $value := .Volumes}}
+     - {{printf "%q" (printf "%s:%s" $name $value)}}
+    {{- end}}
+    {{- end}}
+    {{- if .CustomCommand}}
+    command:
+    {{- range $_, $val := .CustomCommand}}
+     - {{printf "%q" $val}}
+    {{- end}}
     {{- end}}
+    {{- range $key, $val := .CustomConf}}
+    {{$key}}: {{$val}}
     {{- end}}
-	{{- if .Volumes}}
-	volumes:
-	{{- range $name, $value := .Volumes}}
-	 - {{$name}}:{{$value}}
-	{{- end}}
-	{{- end}}
-	{{- if .CustomCommand}}
-	command:
-	{{- range $_, $val := .CustomCommand}}
-	 - {{$val}}
-	{{- end}}
-	{{- end}}
-	{{- range $key, $val := .CustomConf}}
-	{{$key}}: {{$val}}
-	{{- end}}
     restart: always
 {{end}}
 `
-- 
2.43.0


From f2617f0b6b5491354710278ec43d8b8aaefc86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 41/48] fix: kubernetes deployments keep passthrough variables
 and quoted values

---
 plugins/kubernetes/kubepod/deploygen/deployfile.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index 776ec08..e7d0f89 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -169,11 +169,11 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
-          {{- if .Config}}
+          {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-              value: "{{$value}}"
+              value: {{printf "%q" $value}}
           {{- end}}
           {{- range $name, $_ := .ConfigMap}}
             - name: {{$name}}
-- 
2.43.0


From 8e9f9078313ee24beb55061790a68991ec06816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 42/48] fix: a refused instance declaration does not replace
 the arguments of the first

---
 plugins/dockercompose/deploy.go      | 10 ++++++++--
 plugins/kubernetes/kubepod/deploy.go | 12 +++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/plugins/dockercompose/deploy.go b/plugins/dockercompose/deploy.go
index b391404..ef8abaa 100644
--- a/plugins/dockercompose/deploy.go
+++ b/plugins/dockercompose/deploy.go
@@ -110,14 +110,20 @@ func (d *dockerComposeWorkspace) CreateImageDir(imageName string) (string, error
 
 // Implements docker.ContainerWorkspace
 func (d *dockerComposeWorkspace) DeclarePrebuiltInstance(instanceName string, image string, args ...ir.IRNode) error {
+	if err := d.DockerComposeFile.AddImageInstance(instanceName, image); err != nil {
+		return err
+	}
 	d.InstanceArgs[instanceName] = args
-	return d.DockerComposeFile.AddImageInstance(instanceName, image)
+	return nil
 }
 
 // Implements docker.ContainerWorkspace
 func (d *dockerComposeWorkspace) DeclareLocalImage(instanceName string, imageDir string, args ...ir.IRNode) error {
+	if err := d.DockerComposeFile.AddBuildInstance(instanceName, imageDir); err != nil {
+		return err
+	}
 	d.InstanceArgs[instanceName] = args
-	return d.DockerComposeFile.AddBuildInstance(instanceName, imageDir)
+	return nil
 }
 
 // Implements docker.ContainerWorkspace
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 3c7e01b..ac3e285 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -112,20 +112,26 @@ func (p *kubeDeploymentWorkspace) CreateImageDir(imageName string) (string, erro
 
 // Implements docker.ContainerWorkspace
 func (p *kubeDeploymentWorkspace) DeclarePrebuiltInstance(instanceName string, image string, args ...ir.IRNode) error {
+	if err := p.F.AddImageInstance(instanceName, image); err != nil {
+		return err
+	}
 	p.InstanceArgs[instanceName] = args
-	return p.F.AddImageInstance(instanceName, image)
+	return nil
 }
 
 // Implements docker.ContainerWorkspace
 func (p *kubeDeploymentWorkspace) DeclareLocalImage(instanceName string, imageDir string, args ...ir.IRNode) error {
 	slog.Info("Inside DeclareLocalImage")
-	p.InstanceArgs[instanceName] = args
 	// For now set image to instanceName
 	var image string
 	if p.DockerRegistryAddr != "" {
 		image = p.DockerRegistryAddr + "/" + instanceName
 	}
-	return p.F.AddImageInstance(instanceName, image)
+	if err := p.F.AddImageInstance(instanceName, image); err != nil {
+		return err
+	}
+	p.InstanceArgs[instanceName] = args
+	return nil
 }
 
 // Implements docker.ContainerWorkspace
-- 
2.43.0


From 14d5e70b6f40525625fa6d37a1988ff2b5cb6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 43/48] fix: kubernetes descriptors are not HTML-escaped

---
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index d3fcd2e..dd2424f 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -2,9 +2,9 @@ package kubetemplate
 
 import (
 	"bytes"
-	"html/template"
 	"os"
 	"strings"
+	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
-- 
2.43.0


From 19f84ecf65503048e3cc73a9ee4ddef1e9066ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 44/48] fix: generated files do not keep the end of a longer
 earlier version

---
 plugins/dockercompose/dockergen/template.go | 2 +-
 plugins/golang/gogen/template.go            | 2 +-
 plugins/grpc/grpccodegen/marshallgen.go     | 2 +-
 plugins/grpc/grpccodegen/protogen.go        | 2 +-
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 plugins/linuxcontainer/linuxgen/template.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 679884a..33626a8 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 842e23c..7148443 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -44,7 +44,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 //
 // [gogen/template.go]: https://github.com/Blueprint-uServices/blueprint/tree/main/plugins/golang/gogen/template.go
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 118e037..5e7261c 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -97,7 +97,7 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index b359fa0..f56aa02 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -181,7 +181,7 @@ func (b *gRPCProtoBuilder) WriteProtoFile(outputFilePath string) error {
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index dd2424f..29b7431 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -14,7 +14,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 650080d..5ce874c 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 28fd09e08406ef39058ea6041180678d3ffc9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 45/48] fix: a load balancer needs at least one service

---
 plugins/loadbalancer/ir_balancer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/loadbalancer/ir_balancer.go b/plugins/loadbalancer/ir_balancer.go
index a1ae914..581d991 100644
--- a/plugins/loadbalancer/ir_balancer.go
+++ b/plugins/loadbalancer/ir_balancer.go
@@ -67,6 +67,9 @@ func initDynamicLBNode[ServiceType any](n *dynamicLBNode, name string) error {
 }
 
 func (n *dynamicLBHandler) Init(arg_nodes []ir.IRNode) error {
+	if len(arg_nodes) == 0 {
+		return errors.New("a load balancer needs at least one service to balance")
+	}
 	clients := []golang.Service{}
 	for _, n := range arg_nodes {
 		if c, ok := n.(golang.Service); ok {
-- 
2.43.0


From d62c3c660b67e2d1b6eeac54b794adb11bffac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 46/48] fix: timed out calls do not write the caller's results

---
 plugins/timeouts/codegen.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..79fc10b 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -65,10 +65,11 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	// The call has its own result variables: it can still be running when the request has timed out
+	is_complete := make(chan func() ({{RetTypes $f "error"}}), 1)
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		{{RetVars $f "err"}} := client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		is_complete <- func() ({{RetTypes $f "error"}}) { return {{RetVars $f "err"}} }
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -76,8 +77,8 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	case <-ctx.Done():
 		err = errors.New("Request was timed out")
 		return
-	case <-is_complete:
-		return
+	case results := <-is_complete:
+		return results()
 	}
 }
 {{end}}
-- 
2.43.0


From 5f4932f702eb4ecac75611db193d7ac79f008eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 47/48] fix: retry wrappers pass a method argument named i or
 delay through

---
 plugins/retries/codegen.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..82e203c 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -160,8 +160,8 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
-		ctx = context.WithValue(ctx, "attempt_num", i+1)
+	for _attempt := 1; _attempt <= client.MaxTries; _attempt++ {
+		ctx = context.WithValue(ctx, "attempt_num", _attempt)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			return
@@ -200,8 +200,8 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
-		ctx = context.WithValue(ctx, "attempt_num", i+1)
+	for _attempt := 1; _attempt <= client.MaxTries; _attempt++ {
+		ctx = context.WithValue(ctx, "attempt_num", _attempt)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			return
@@ -259,23 +259,23 @@ func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
 {{$useJitter := .UseJitter -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	delay := client.Delay
-	i := 1
+	_delay := client.Delay
+	_attempt := 1
 	for {
-		ctx = context.WithValue(ctx, "attempt_num", i)
+		ctx = context.WithValue(ctx, "attempt_num", _attempt)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			return
 		}
 
-		if delay >= client.Limit {
+		if _delay >= client.Limit {
 			return
 		}
 		
 		{{if $useJitter -}}
-		sleepDuration := client.addJitter(delay)
+		sleepDuration := client.addJitter(_delay)
 		{{else -}}
-		sleepDuration := delay
+		sleepDuration := _delay
 		{{end}}
 		
 		select {
@@ -289,11 +289,11 @@ func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Conte
 			{{end -}}
 		}
 		
-		delay *= 2
-		if delay > client.Limit {
-			delay = client.Limit
+		_delay *= 2
+		if _delay > client.Limit {
+			_delay = client.Limit
 		}
-		i += 1
+		_attempt += 1
 	}
 }
 {{end}}
@@ -376,9 +376,9 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	}
 	
 	// Retry attempts with rate limiting
-	for i := 1; i < client.MaxTries; i++ {
+	for _attempt := 2; _attempt <= client.MaxTries; _attempt++ {
 		// Wait for rate limit token
-		ctx = context.WithValue(ctx, "attempt_num", i)
+		ctx = context.WithValue(ctx, "attempt_num", _attempt)
 		waitErr := client.waitForToken(ctx)
 		if waitErr == nil {
 			// Call the original method
-- 
2.43.0


From b2f082ffc60e43ac00e72081610b67bb09e085fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 48/48] fix: retry wrappers synchronise their token buckets and
 random source

---
 plugins/retries/codegen.go | 54 +++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 82e203c..b867e1d 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -86,7 +86,7 @@ func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		Imports:        gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "sync", "time")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
@@ -107,7 +107,7 @@ func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.Ser
 		ReplenishAmt: replenish_amount,
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -222,9 +222,6 @@ type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	Delay time.Duration
 	Limit time.Duration
-	{{if .UseJitter -}}
-	Rand *rand.Rand
-	{{- end}}
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -241,16 +238,12 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 	}
 	handler.Limit = parsed_limit
 	
-	{{if .UseJitter -}}
-	handler.Rand = rand.New(rand.NewSource(time.Now().UnixNano()))
-	{{- end}}
-
 	return handler, nil
 }
 
 {{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
-	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
+	return d/2 + time.Duration(rand.Int63n(int64(d/2)+1))
 }
 {{end}}
 
@@ -307,6 +300,7 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	MaxTries int
+	mu sync.Mutex
 	tokens float64
 	maxTokens float64
 	refillRate float64
@@ -345,6 +339,9 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
@@ -404,6 +401,7 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	TokenBucket float64
+	mu sync.Mutex
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
@@ -413,26 +411,40 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 	return handler, nil
 }
 
+// takeTokens pays for a retry if there are enough tokens
+func (client *{{.Name}}) takeTokens() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+	if client.TokenBucket - {{.RetryCost}} < 1.0 {
+		return false
+	}
+	client.TokenBucket -= {{.RetryCost}}
+	return true
+}
+
+// replenish returns tokens after a successful retry
+func (client *{{.Name}}) replenish() {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+	client.TokenBucket = math.Min(client.TokenBucket + {{.ReplenishAmt}}, {{.Capacity}})
+}
+
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
-{{$node := . -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
-		tb := client.TokenBucket
-		if tb - {{$node.RetryCost}} < 1.0 {
+		if !client.takeTokens() {
 			// Not enough tokens
 			return
-		} else {
-			client.TokenBucket = tb - {{$node.RetryCost}}
-			ctx = context.WithValue(ctx, "attempt_num", 2)
-			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-			if err == nil {
-				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
-				return
-			}
+		}
+		ctx = context.WithValue(ctx, "attempt_num", 2)
+		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		if err == nil {
+			client.replenish()
+			return
 		}
 	}
 	return
-- 
2.43.0

