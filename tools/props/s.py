DBF = ["db/types.go","db/readonly.go","db/cacheddb.go","db/memdb.go","db/ldb.go","db/adapters.go"]
prop("S01","A read-only database never changes the database it wraps",
"Whatever is called on a read-only view, and whatever kind of database was wrapped, no write, delete or batch ever reaches the underlying database. Every write operation of the view, including recording into a batch it hands out, is refused with an error, and reads return exactly what the underlying database returns for the same key.",
["inputs","histories"],"every operation of the view, every wrapped database type and every key, value and batch",
"No test covers the read-only view at all; a hole shows only for the one operation or wrapped type that leaks.",
["db/readonly.go"],[("read-only view constructor and methods","db/readonly.go ReadOnly, readOnlyDB")],
"path automata over SSA with value terms (must-refuse and may-reach rules on every path of every method)",
"Decides all three clauses on every path; the wrapped database's own read behaviour is outside.")
prop("S02","A temporary database overlays its base without ever changing it",
"Operations on a temporary database never modify or close the base. Reads answer from the overlay's own latest operation on that key: a deleted key is absent even if the base has it, a stored value wins over the base even when empty, and only keys never touched are looked up in the base. A successful put makes the key visible again and a successful delete hides it, also when applied through a batch.",
["histories","inputs"],"every sequence of puts, deletes, batches and reads over every base content",
"Tests run one fixed history on one base; masking errors need delete/put/batch orders on keys that also exist in the base.",
["db/readonly.go"],[("deletion marks + overlay before base","db/readonly.go temporaryDB.Has/Get/_put/_delete/Batch")],
"path automata over SSA with value terms (layer-order, mask-pairing and base-isolation rules)",
"Decides per path which layer answered and that marks are paired with overlay writes for the same key term; the in-memory overlay's own map is trusted.")
prop("S03","A cached database never serves a value older than its store",
"After a write, delete or batch through the cached database succeeds, or the underlying store is replaced, no read may return what was cached before: the affected keys leave the cache in the same exclusive critical section as the write. Only existing values just read from the store for that very key enter the cache, so a key missing from the store is never reported as present.",
["schedules","histories"],"every interleaving of reads, writes, batches (including batches built elsewhere) and store replacement",
"Tests are single-goroutine with one key pattern; stale entries need read/write interleavings or foreign batches.",
["db/cacheddb.go"],[("cache invalidation under the exclusive lock","db/cacheddb.go Put/Delete/Batch/Replace"),("cache fill under the read lock","db/cacheddb.go Get")],
"path automata over SSA pairing every store write with the invalidation of the same key term inside one lock section",
"The LRU library's own thread safety is trusted; a failed write is taken to have had no effect.")
prop("S04","Key-mapping wrappers map every operation the same way",
"A database, adapter or batch wrapper configured with a key prefix or key function applies that mapping to the caller's key in every operation - reads, writes, deletes, existence tests and batched operations - and passes values and results through unchanged. Batches it creates are accepted by it, and clones or rebased copies keep the mapping.",
["inputs","histories"],"every operation of every wrapper, every key and every mapping",
"An operation that forgets the mapping works as long as it is only compared with itself; tests use Load/Save only.",
["db/adapters.go"],[("prefix/function key mapping","db/adapters.go keyPrefixedDataAdapter, KeyDatabase, KeyBatch")],
"term-level dataflow on SSA: key, value and result terms at every forwarded call on every path",
"That the prefix helper concatenates its arguments is trusted (unit-testable).")
prop("S06","Batched writing applies every accepted write before reporting success",
"When the batch-writing helper returns without error, every write the callback accepted has been applied to the database exactly once, whatever the threshold and whichever writes are declined. Any error of the callback or of the database ends the run and is returned.",
["inputs","fault_sequences"],"every threshold, length, pattern of accepted and declined writes and point of failure",
"The helper has no test; the loss needs a declined write at the end or a length that is no multiple of the threshold.",
["db/types.go"],[("flush of the pending batch","db/types.go BatchWrite")],
"path automaton over SSA with sign facts for the pending counter",
"Writes recorded while the callback declines (ok=false) are the callback's responsibility.")
prop("S07","In-memory stores and callers never share byte slices",
"Keys and values handed to an in-memory database, cache or memory batch are kept as private copies, and values read from them are private copies too. Nothing a caller later does to a slice it passed in or received can change stored data.",
["histories","inputs"],"every key/value slice passed in or returned, and every later modification of it",
"Tests never modify a slice after use; shared storage corrupts data silently and only later.",
["db/memdb.go","db/cacheddb.go","db/readonly.go","db/adapters.go"],[("CopySlice/CopyBytes at the boundary","db/memdb.go Put/Get/memBatch, db/cacheddb.go Get")],
"interprocedural alias flow of byte slices between API boundary and kept containers",
"Covers the in-repository layers; the on-disk library copies internally and is trusted.")
prop("S08","A batch of the wrong kind is refused with an error, never a panic",
"Handing a database a batch that another kind of database created, or none at all, returns an error and changes nothing; no storage operation panics on caller-supplied batches.",
["inputs"],"every pairing of database and batch kinds",
"Tests always apply a batch to the database that created it.",
["db/memdb.go","db/readonly.go","db/ldb.go","db/cacheddb.go","db/adapters.go"],[("type test on the batch argument","Batch methods in db/")],
"panic/assertion reachability over the call graph plus a must-refuse rule on the mismatch path",
"Explicit panics and unchecked assertions of caller values; nil dereference of a typed nil batch is not covered.")
prop("S09","Memory batches apply every recorded operation once, in order",
"A memory batch remembers the kind, key and value of every operation recorded in it. Applying it performs each recorded operation exactly once, in recording order, with the recorded kind, key and value, before success is reported.",
["inputs","histories"],"every sequence of recorded puts and deletes, including repeated keys",
"The tests' batches never make order or kind observable beyond delete-then-put of one key.",
["db/memdb.go","db/readonly.go"],[("recorded operations and their replay","db/memdb.go memBatch, MemDB.Batch; db/readonly.go temporaryDB.Batch")],
"path automaton over the replay loop (induction variable shape, kind test and key/value terms per iteration)",
"The on-disk library's batches are outside.")
