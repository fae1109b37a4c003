property P09
include std.inc
load backend = "github.com/blueprint-uservices/blueprint/runtime/core/backend"
load query = "github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
load bson = "go.mongodb.org/mongo-driver/bson"
load primitive = "go.mongodb.org/mongo-driver/bson/primitive"
package simplenosqldb = "github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
extern fmt.Printf(format, args) (n, err)
  pure

// The meaning of filters is verified in P07 and that of updates in P08
ufun sat(f any; x any) bool
iface query.Filter.Apply(f, item) (r)
  ensures r == sat(f, item)
ufun okQuery(d primitive.D) bool
ufun wants(d primitive.D; x any) bool
extern query.ParseFilter(filter) (f, err)
  ensures (err == nil) == okQuery(filter)
  ensures err == nil ==> f != nil && forall x any :: {sat(f, x)} sat(f, x) == wants(filter, x)
// becomes(u, x, y): the update u turns the document x into y; applies(u, x): it can be applied to x
ufun becomes(u any; x any; y any) bool
ufun applies(u any; x any) bool
iface query.Update.Apply(u, itemRef) (err)
  modifies *ite(is(itemRef, *primitive.D), itemRef.(*primitive.D), zero(*primitive.D))
  ensures is(itemRef, *primitive.D) ==> (err == nil) == applies(u, any(old(*(itemRef.(*primitive.D)))))
  ensures is(itemRef, *primitive.D) && err == nil ==> becomes(u, any(old(*(itemRef.(*primitive.D)))), any(*(itemRef.(*primitive.D))))
  ensures is(itemRef, *primitive.D) && err != nil ==> *(itemRef.(*primitive.D)) == old(*(itemRef.(*primitive.D)))
ufun okUpdate(d primitive.D) bool
ufun turns(d primitive.D; x any; y any) bool
ufun canTurn(d primitive.D; x any) bool
extern query.ParseUpdate(update) (u, err)
  ensures (err == nil) == okUpdate(update)
  ensures err == nil ==> u != nil && (forall x any; y any :: {becomes(u, x, y)} becomes(u, x, y) == turns(update, x, y)) && (forall x any :: {applies(u, x)} applies(u, x) == canTurn(update, x))

// documents
ufun encodes(document any; d primitive.D) bool
ufun encodable(document any) bool
extern simplenosqldb.toBson(document) (d, err)
  ensures (err == nil) == encodable(document)
  ensures err == nil ==> encodes(document, d) && forall i int :: {d[i]} 0 <= i < len(d) ==> true

ufun copied(c any; v any) bool
define leaves() bool = forall v any :: {copied(v, v)} !is(v, primitive.D) && !is(v, primitive.A) ==> copied(v, v)
func copyDocument(d) (r)
  requires leaves()
  ensures same: len(r) == len(d) && forall i int :: {r[i]} {d[i]} 0 <= i < len(d) ==> r[i].Key == d[i].Key && copied(r[i].Value, d[i].Value)
  invariant <copied2 primitive.D> soFar: len(copied2) == len(d) && forall i int :: {copied2[i]} {d[i]} 0 <= i < $k ==> copied2[i].Key == d[i].Key && copied(copied2[i].Value, d[i].Value)
  defines copied(any(r), any(d))
func copyArray(a) (r)
  requires leaves()
  ensures same: len(r) == len(a) && forall i int :: {r[i]} {a[i]} 0 <= i < len(a) ==> copied(r[i], a[i])
  invariant <copied2 primitive.A> soFar: len(copied2) == len(a) && forall i int :: {copied2[i]} {a[i]} 0 <= i < $k ==> copied(copied2[i], a[i])
  defines copied(any(r), any(a))
func copyValue(value) (r)
  requires leaves()
  ensures copied: copied(r, value)
  ensures kind: is(r, primitive.D) == is(value, primitive.D) && is(r, primitive.A) == is(value, primitive.A)

define hasId(d primitive.D) bool = exists i int :: {d[i]} 0 <= i < len(d) && d[i].Key == "_id"
define sameFields(c primitive.D; k int; d primitive.D) bool = len(c) == len(d) + k && forall i int :: {d[i]} {c[i + k]} 0 <= i < len(d) ==> c[i + k].Key == d[i].Key && copied(c[i + k].Value, d[i].Value)
define isCopyOf(r primitive.D; d primitive.D) bool = ite(hasId(d), sameFields(r, 0, d), sameFields(r, 1, d) && r[0].Key == "_id")
extern primitive.NewObjectID() (id)
  pure
// made(x, d): newDocument made d from x, as the following contract says
ufun made(document any; d primitive.D) bool
define insertable(document any) bool = is(document, primitive.D) || encodable(document)
func newDocument(document) (r, err)
  requires leaves()
  ensures accepted: (err == nil) == (is(document, primitive.D) || encodable(document))
  ensures copied: err == nil && is(document, primitive.D) ==> isCopyOf(r, document.(primitive.D))
  ensures encoded: err == nil && !is(document, primitive.D) ==> exists d primitive.D :: {encodes(document, d)} encodes(document, d) && ite(hasId(d), r == d, len(r) == len(d) + 1 && r[0].Key == "_id" && forall i int :: {d[i]} {r[i + 1]} 0 <= i < len(d) ==> r[i + 1] == d[i])
  ensures id: err == nil ==> hasId(r)
  defines err == nil ==> made(document, r)
  invariant <x primitive.D> notYet: forall i int :: {x[i]} 0 <= i < $k && i < len(x) ==> x[i].Key != "_id"

// collections
func (*SimpleCollection).InsertOne(db, ctx, document) (err)
  requires db != nil && leaves()
  modifies db.items, contents(db.items)
  ensures accepted: (err == nil) == (is(document, primitive.D) || encodable(document))
  ensures made: err == nil ==> made(document, db.items[old(len(db.items))])
  ensures appended: err == nil ==> len(db.items) == old(len(db.items)) + 1 && hasId(db.items[len(db.items) - 1]) && (is(document, primitive.D) ==> isCopyOf(db.items[len(db.items) - 1], document.(primitive.D)))
  ensures kept: forall i int :: {db.items[i]} 0 <= i < old(len(db.items)) ==> db.items[i] == old(db.items[i])
  ensures unchanged: err != nil ==> db.items == old(db.items)

func (*SimpleCollection).InsertMany(db, ctx, documents) (err)
  requires db != nil && leaves()
  modifies db.items, contents(db.items)
  ensures accepted: err == nil ==> forall i int :: {documents[i]} 0 <= i < len(documents) ==> insertable(documents[i])
  ensures refused: err != nil ==> exists i int :: {documents[i]} 0 <= i < len(documents) && !insertable(documents[i])
  ensures count: err == nil ==> len(db.items) == old(len(db.items)) + len(documents)
  ensures appended: err == nil ==> forall i int :: {documents[i]} 0 <= i < len(documents) ==> made(documents[i], db.items[old(len(db.items)) + i])
  ensures kept: forall i int :: {db.items[i]} 0 <= i < old(len(db.items)) ==> db.items[i] == old(db.items[i])
  ensures unchanged: err != nil ==> db.items == old(db.items)
  invariant same: forall i int :: {db.items[i]} 0 <= i < len(db.items) ==> db.items[i] == old(db.items[i])
  invariant sameArgs: forall i int :: {documents[i]} 0 <= i < len(documents) ==> documents[i] == old(documents[i])
  invariant <items []primitive.D> own: items == zero([]primitive.D) || fresh(items)
  invariant <items []primitive.D> length: len(items) == $k
  invariant ok: forall i int :: {documents[i]} 0 <= i < $k ==> insertable(documents[i])
  invariant <items []primitive.D> made: forall i int :: {items[i]} {documents[i]} 0 <= i < $k ==> made(documents[i], items[i])

// cnt(i): how many of the first i documents match the filter
ufun cnt(i int) int
define counts(items []primitive.D; filter primitive.D) bool = cnt(0) == 0 && forall i int :: {items[i]} {cnt(i)} 0 <= i < len(items) ==> cnt(i + 1) == cnt(i) + ite(wants(filter, any(items[i])), 1, 0)
define bounded(items []primitive.D; filter primitive.D; k int) bool = 0 <= cnt(k) && cnt(k) <= k && forall i int :: {items[i]} 0 <= i < k ==> 0 <= cnt(i) && cnt(i) <= i && cnt(i) + ite(wants(filter, any(items[i])), 1, 0) <= cnt(k) && i - cnt(i) + ite(wants(filter, any(items[i])), 0, 1) <= k - cnt(k)
define firstMatch(items []primitive.D; filter primitive.D; i int) bool = 0 <= i < len(items) && wants(filter, any(items[i])) && forall j int :: {items[j]} 0 <= j < i ==> !wants(filter, any(items[j]))
define noMatch(items []primitive.D; filter primitive.D) bool = forall j int :: {items[j]} 0 <= j < len(items) ==> !wants(filter, any(items[j]))

func (*SimpleCollection).FindOne(db, ctx, filter, projection) (cur, err)
  requires db != nil
  ensures accepted: (err == nil) == okQuery(filter)
  ensures first: err == nil ==> is(cur, *simplenosqldb.SimpleCursor) && forall i int :: {db.items[i]} firstMatch(db.items, filter, i) ==> len(cur.(*simplenosqldb.SimpleCursor).results) == 1 && cur.(*simplenosqldb.SimpleCursor).results[0] == db.items[i]
  ensures none: err == nil && noMatch(db.items, filter) ==> len(cur.(*simplenosqldb.SimpleCursor).results) == 0
  invariant notYet: forall j int :: {db.items[j]} 0 <= j < $k ==> !wants(filter, any(db.items[j]))
  invariant <cursor *simplenosqldb.SimpleCursor> empty: cursor != nil && len(cursor.results) == 0

func (*SimpleCollection).FindMany(db, ctx, filter, projection) (cur, err)
  requires db != nil
  requires definition: counts(db.items, filter)
  ensures accepted: (err == nil) == okQuery(filter)
  ensures count: err == nil ==> is(cur, *simplenosqldb.SimpleCursor) && len(cur.(*simplenosqldb.SimpleCursor).results) == cnt(len(db.items))
  ensures inOrder: err == nil ==> forall i int :: {db.items[i]} 0 <= i < len(db.items) && wants(filter, any(db.items[i])) ==> cnt(i) < cnt(len(db.items)) && cur.(*simplenosqldb.SimpleCursor).results[cnt(i)] == db.items[i]
  invariant same: forall i int :: {db.items[i]} 0 <= i < len(db.items) ==> db.items[i] == old(db.items[i])
  invariant bounded: bounded(db.items, filter, $k)
  invariant <cursor *simplenosqldb.SimpleCursor> ok1: cursor != nil && fresh(cursor)
  invariant <cursor *simplenosqldb.SimpleCursor> ok2: (cursor.results == zero([]primitive.D) || fresh(cursor.results))
  invariant <cursor *simplenosqldb.SimpleCursor> count: (cursor.results == zero([]primitive.D) || fresh(cursor.results)) && len(cursor.results) == cnt($k)
  invariant <cursor *simplenosqldb.SimpleCursor> inOrder: forall i int :: {db.items[i]} 0 <= i < $k && wants(filter, any(db.items[i])) ==> cursor.results[cnt(i)] == db.items[i]

func (*SimpleCollection).DeleteOne(db, ctx, filter) (err)
  requires db != nil
  modifies db.items, contents(db.items)
  ensures accepted: (err == nil) == okQuery(filter)
  ensures removed: err == nil ==> forall i int :: {old(db.items[i])} old(firstMatch(db.items, filter, i)) ==> len(db.items) == old(len(db.items)) - 1 && (forall j int :: {db.items[j]} 0 <= j < i ==> db.items[j] == old(db.items[j])) && forall j int :: {db.items[j]} i <= j < len(db.items) ==> db.items[j] == old(db.items[j + 1])
  ensures unchanged: err != nil || old(noMatch(db.items, filter)) ==> db.items == old(db.items) && forall j int :: {db.items[j]} 0 <= j < len(db.items) ==> db.items[j] == old(db.items[j])
  invariant notYet: forall j int :: {db.items[j]} 0 <= j < $k ==> !wants(filter, any(db.items[j]))

func (*SimpleCollection).DeleteMany(db, ctx, filter) (err)
  requires db != nil
  requires definition: counts(db.items, filter)
  modifies db.items
  ensures accepted: (err == nil) == okQuery(filter)
  ensures count: err == nil ==> len(db.items) == old(len(db.items)) - cnt(old(len(db.items)))
  ensures kept: err == nil ==> forall i int :: {old(db.items[i])} 0 <= i < old(len(db.items)) && !wants(filter, any(old(db.items[i]))) ==> i - cnt(i) < old(len(db.items)) - cnt(old(len(db.items))) && db.items[i - cnt(i)] == old(db.items[i])
  ensures unchanged: err != nil ==> db.items == old(db.items)
  invariant same: forall i int :: {db.items[i]} 0 <= i < len(db.items) ==> db.items[i] == old(db.items[i])
  invariant bounded: old(bounded(db.items, filter, $k))
  invariant <newitems []primitive.D> own: fresh(newitems)
  invariant <n int> range: 0 <= n && n <= $k
  invariant <n int> none: cnt(n) == cnt($k)
  invariant <n int; newitems []primitive.D> length: len(newitems) == n - cnt(n)
  invariant <n int> run: forall j int :: {old(db.items[j])} n <= j < $k ==> !wants(filter, any(old(db.items[j]))) && cnt(j) == cnt(n)
  invariant <n int; newitems []primitive.D> keptIn: forall j int :: {old(db.items[j])} 0 <= j < n && !wants(filter, any(old(db.items[j]))) ==> j - cnt(j) < n - cnt(n)
  invariant <n int; newitems []primitive.D> kept: forall j int :: {old(db.items[j])} 0 <= j < n && !wants(filter, any(old(db.items[j]))) ==> newitems[j - cnt(j)] == old(db.items[j])

func (*SimpleCollection).UpdateOne(db, ctx, filter, update) (n, err)
  requires db != nil
  modifies contents(db.items)
  ensures accepted: err == nil ==> okQuery(filter) && okUpdate(update)
  ensures first: forall i int :: {old(db.items[i])} okQuery(filter) && okUpdate(update) && old(firstMatch(db.items, filter, i)) ==> (err == nil) == canTurn(update, any(old(db.items[i]))) && (err == nil ==> n == 1 && turns(update, any(old(db.items[i])), any(db.items[i])) && forall j int :: {db.items[j]} 0 <= j < len(db.items) && j != i ==> db.items[j] == old(db.items[j]))
  ensures none: okQuery(filter) && okUpdate(update) && old(noMatch(db.items, filter)) ==> err == nil && n == 0
  ensures unchanged: err != nil || n == 0 ==> n == 0 && forall j int :: {db.items[j]} 0 <= j < len(db.items) ==> db.items[j] == old(db.items[j])
  invariant same: forall j int :: {db.items[j]} 0 <= j < len(db.items) ==> db.items[j] == old(db.items[j])
  invariant notYet: forall j int :: {db.items[j]} 0 <= j < $k ==> !wants(filter, any(db.items[j]))

func (*SimpleCollection).UpdateMany(db, ctx, filter, update) (n, err)
  requires db != nil
  requires definition: counts(db.items, filter)
  modifies db.items
  ensures accepted: err == nil ==> okQuery(filter) && okUpdate(update)
  ensures refused: okQuery(filter) && okUpdate(update) && err != nil ==> exists i int :: {db.items[i]} 0 <= i < len(db.items) && wants(filter, any(db.items[i])) && !canTurn(update, any(db.items[i]))
  ensures count: err == nil ==> n == cnt(old(len(db.items))) && len(db.items) == old(len(db.items))
  ensures updated: err == nil ==> forall i int :: {db.items[i]} {old(db.items[i])} 0 <= i < len(db.items) ==> ite(wants(filter, any(old(db.items[i]))), turns(update, any(old(db.items[i])), any(db.items[i])), db.items[i] == old(db.items[i]))
  ensures unchanged: err != nil ==> n == 0 && db.items == old(db.items)
  invariant same: forall i int :: {db.items[i]} 0 <= i < len(db.items) ==> db.items[i] == old(db.items[i])
  invariant bounded: old(bounded(db.items, filter, $k))
  invariant <u int> count: u == cnt($k)
  invariant <items []primitive.D> length: len(items) == len(db.items)
  invariant <items []primitive.D> own: items == zero([]primitive.D) || fresh(items)
  invariant <items []primitive.D> done: forall i int :: {items[i]} {old(db.items[i])} 0 <= i < $k ==> ite(wants(filter, any(old(db.items[i]))), turns(update, any(old(db.items[i])), any(items[i])), items[i] == old(db.items[i]))
  invariant <items []primitive.D> todo: forall i int :: {items[i]} {old(db.items[i])} $k <= i < len(items) ==> items[i] == old(db.items[i])

// replacements
ufun replaced(item primitive.D; replacement any; r primitive.D) bool
func newReplacement(item, replacement) (r, err)
  ensures accepted: (err == nil) == encodable(replacement)
  ensures encoded: err == nil ==> exists d primitive.D :: {encodes(replacement, d)} encodes(replacement, d) && ite(hasId(d) || !hasId(item), r == d, len(r) == len(d) + 1 && r[0].Key == "_id" && forall i int :: {d[i]} {r[i + 1]} 0 <= i < len(d) ==> r[i + 1] == d[i])
  ensures id: err == nil && hasId(item) ==> hasId(r)
  ensures keepsId: err == nil ==> exists d primitive.D :: {encodes(replacement, d)} encodes(replacement, d) && (!hasId(d) ==> forall i int :: {item[i]} 0 <= i < len(item) && item[i].Key == "_id" && (forall j int :: {item[j]} 0 <= j < i ==> item[j].Key != "_id") ==> r[0] == item[i])
  defines err == nil ==> replaced(item, replacement, r)
  invariant <x primitive.D> notYet: forall i int :: {x[i]} 0 <= i < $k && i < len(x) ==> x[i].Key != "_id"

func (*SimpleCollection).ReplaceOne(db, ctx, filter, replacement) (n, err)
  requires db != nil
  modifies contents(db.items)
  ensures accepted: err == nil ==> okQuery(filter)
  ensures first: forall i int :: {old(db.items[i])} okQuery(filter) && old(firstMatch(db.items, filter, i)) ==> (err == nil) == encodable(replacement) && (err == nil ==> n == 1 && replaced(old(db.items[i]), replacement, db.items[i]) && forall j int :: {db.items[j]} 0 <= j < len(db.items) && j != i ==> db.items[j] == old(db.items[j]))
  ensures none: okQuery(filter) && old(noMatch(db.items, filter)) ==> err == nil && n == 0
  ensures zeroOrOne: n == 0 || n == 1
  ensures absent: err == nil && n == 0 ==> old(noMatch(db.items, filter))
  ensures unchanged: err != nil || n == 0 ==> n == 0 && forall j int :: {db.items[j]} 0 <= j < len(db.items) ==> db.items[j] == old(db.items[j])
  invariant same: forall j int :: {db.items[j]} 0 <= j < len(db.items) ==> db.items[j] == old(db.items[j])
  invariant notYet: forall j int :: {db.items[j]} 0 <= j < $k ==> !wants(filter, any(db.items[j]))

// a consequence of the definition of cnt, by induction
define monotone(n int) bool = forall i int; j int :: {cnt(i), cnt(j)} 0 <= i && i <= j && j <= n ==> cnt(i) <= cnt(j)
func (*SimpleCollection).ReplaceMany(db, ctx, filter, replacements) (n, err)
  requires db != nil
  requires definition: counts(db.items, filter) && monotone(len(db.items))
  modifies db.items
  ensures accepted: err == nil ==> okQuery(filter)
  ensures refused: okQuery(filter) && err != nil ==> exists i int :: {replacements[i]} 0 <= i < len(replacements) && !encodable(replacements[i])
  ensures count: err == nil ==> n == ite(cnt(old(len(db.items))) <= len(replacements), cnt(old(len(db.items))), len(replacements)) && len(db.items) == old(len(db.items))
  ensures replaced: err == nil ==> forall i int :: {old(db.items[i])} 0 <= i < len(db.items) && wants(filter, any(old(db.items[i]))) && cnt(i) < len(replacements) ==> replaced(old(db.items[i]), replacements[cnt(i)], db.items[i])
  ensures others: err == nil ==> forall i int :: {old(db.items[i])} 0 <= i < len(db.items) && !(wants(filter, any(old(db.items[i]))) && cnt(i) < len(replacements)) ==> db.items[i] == old(db.items[i])
  ensures unchanged: err != nil ==> n == 0 && db.items == old(db.items)
  invariant same: forall i int :: {db.items[i]} 0 <= i < len(db.items) ==> db.items[i] == old(db.items[i])
  invariant sameArgs: forall i int :: {replacements[i]} 0 <= i < len(replacements) ==> replacements[i] == old(replacements[i])
  invariant bounded: old(bounded(db.items, filter, $k))
  invariant <u int> count: u == cnt($k)
  invariant <u int> few: u <= len(replacements)
  invariant <items []primitive.D> length: len(items) == len(db.items)
  invariant <items []primitive.D> own: items == zero([]primitive.D) || fresh(items)
  invariant <items []primitive.D> replaced: forall i int :: {items[i]} {old(db.items[i])} 0 <= i < $k && wants(filter, any(old(db.items[i]))) ==> cnt(i) < len(replacements) && replaced(old(db.items[i]), replacements[cnt(i)], items[i])
  invariant <items []primitive.D> others: forall i int :: {items[i]} {old(db.items[i])} 0 <= i < $k && !wants(filter, any(old(db.items[i]))) ==> items[i] == old(db.items[i])
  invariant <items []primitive.D> todo: forall i int :: {items[i]} {old(db.items[i])} $k <= i < len(items) ==> items[i] == old(db.items[i])

func (*SimpleCollection).Upsert(db, ctx, filter, document) (updated, err)
  requires db != nil && leaves()
  modifies db.items, contents(db.items)
  ensures accepted: err == nil ==> okQuery(filter)
  ensures replaced: updated ==> err == nil && len(db.items) == old(len(db.items)) && !old(noMatch(db.items, filter))
  ensures first: updated ==> forall i int :: {old(db.items[i])} old(firstMatch(db.items, filter, i)) ==> replaced(old(db.items[i]), document, db.items[i]) && forall j int :: {db.items[j]} 0 <= j < len(db.items) && j != i ==> db.items[j] == old(db.items[j])
  ensures inserted: err == nil && !updated ==> old(noMatch(db.items, filter)) && len(db.items) == old(len(db.items)) + 1 && made(document, db.items[old(len(db.items))]) && forall i int :: {db.items[i]} 0 <= i < old(len(db.items)) ==> db.items[i] == old(db.items[i])
  ensures unchanged: err != nil ==> !updated && len(db.items) == old(len(db.items)) && forall i int :: {db.items[i]} 0 <= i < old(len(db.items)) ==> db.items[i] == old(db.items[i])

func (*SimpleCollection).UpsertID(db, ctx, id, document) (updated, err)
  requires db != nil && leaves()
  modifies db.items, contents(db.items)
  ensures unchanged: err != nil ==> !updated && len(db.items) == old(len(db.items)) && forall i int :: {db.items[i]} 0 <= i < old(len(db.items)) ==> db.items[i] == old(db.items[i])
  ensures size: err == nil ==> len(db.items) == old(len(db.items)) + ite(updated, 0, 1)

func NewSimpleNoSQLDB(ctx) (db, err)
  ensures empty: err == nil && db != nil && db.collections != nil && len(db.collections) == 0
define has(db *simplenosqldb.SimpleNoSQLDB; a string; b string) bool = in(a, db.collections) && in(b, db.collections[a])
define wfDB(db *simplenosqldb.SimpleNoSQLDB) bool = db != nil && db.collections != nil && (forall a string :: {db.collections[a]} in(a, db.collections) ==> db.collections[a] != nil) && (forall a string; b string :: {db.collections[a][b]} has(db, a, b) ==> db.collections[a][b] != nil) && (forall a string; b string :: {db.collections[a], db.collections[b]} in(a, db.collections) && in(b, db.collections) && db.collections[a] == db.collections[b] ==> a == b)
func (*SimpleNoSQLDB).GetCollection(impl, ctx, a, b) (c, err)
  requires wfDB(impl)
  modifies contents(impl.collections), contents(impl.collections[a])
  ensures wf: wfDB(impl)
  ensures theCollection: err == nil && has(impl, a, b) && c == any(impl.collections[a][b])
  ensures existing: old(has(impl, a, b)) ==> impl.collections[a][b] == old(impl.collections[a][b])
  ensures new: !old(has(impl, a, b)) ==> len(impl.collections[a][b].items) == 0 && fresh(impl.collections[a][b])
  ensures others: forall p string; q string :: {impl.collections[p][q]} (p != a || q != b) ==> has(impl, p, q) == old(has(impl, p, q)) && (has(impl, p, q) ==> impl.collections[p][q] == old(impl.collections[p][q]))
ufun decodes(d primitive.D; dst any) bool
// assumed: writes only into the value that dst points to (tested by the bounded check)
extern simplenosqldb.fromBson(d, dst) (err)
  ensures (err == nil) == decodes(d, dst)
func (*SimpleCursor).One(c, ctx, obj) (ok, err)
  requires c != nil
  ensures empty: len(c.results) == 0 ==> !ok && err == nil
  ensures first: len(c.results) > 0 ==> ok && (err == nil) == decodes(c.results[0], obj)
bounded dir=runtime/plugins/simplenosqldb file=P09_collection_test.go run=TestVerifP09
