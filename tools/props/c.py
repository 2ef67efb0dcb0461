prop("C01", "Shared state is only touched under the lock that protects it",
"Objects that protect themselves with a lock (databases, tries, history trees, iterators, id sets, block maps, services, worker pools, type cache) and lock-protected global registries may be used from many goroutines. Every read or write of their mutable state, on every path from every public operation, happens while that object's or registry's lock is held, in exclusive mode for writes; a map or slice such a lock guards is never handed to a caller nor taken over from one. Only objects still under construction and state that never changes after construction are exempt.",
["schedules", "histories"],
"every public operation, every call chain below it and every interleaving with other operations on the same object",
"A data race shows only under particular interleavings; the suite calls most operations from a single goroutine.",
["basic.go", "types.go", "routinepool.go", "consts.go", "db/cacheddb.go", "db/readonly.go", "log/log.go", "log/cashcheck.go", "rlp/typecache.go", "trie/trie.go", "trie/historytree.go", "trie/revertable.go", "trie/combinedtrie.go", "trie/iterator.go"],
[("per-object mutex next to the state it guards", "struct fields of sync.Mutex/RWMutex type"), ("caller-holds-the-lock helpers", "trie/*Locked, HistoryTree._*"), ("package-level registry locks", "consts.go, routinepool.go, log/log.go, log/cashcheck.go")],
"interprocedural must-lockset analysis over access paths (SSA), requirements propagated to entry points; alias summaries for guarded maps and slices that leave through results or parameters",
"Decides, for every access site of every mutable field of every lock-bearing struct and every lock-associated package variable, whether the guarding lock is held in the right mode on all paths from every entry point. Trusts: access-path aliasing by field chains; iterators own the private clone they walk (construction sites are checked); function-typed hook fields are set before sharing; objects are unshared until their constructor returns.")
prop("C02", "Every lock an operation takes is released when it returns",
"Whatever path an operation takes to its return, including early returns and errors, it leaves every lock in the state it found it: nothing it acquired stays held, nothing is released that was not held, and read and write modes are released as they were taken. Internal helpers that acquire or release on behalf of their caller are balanced by every caller.",
["inputs", "fault_sequences"],
"every function that operates a lock and every path through it",
"Tests take few error paths; a leaked lock surfaces as a hang in a later, unrelated call.",
["basic.go", "types.go", "routinepool.go", "db/cacheddb.go", "db/readonly.go", "log/log.go", "trie/trie.go", "trie/historytree.go", "trie/revertable.go", "trie/combinedtrie.go", "trie/iterator.go", "rlp/typecache.go"],
[("deferred or explicit unlock on every exit", "all functions calling Lock/RLock")],
"may-lockset dataflow over SSA with net-effect summaries and deferred releases",
"Decides release on every control-flow path (conditions not correlated: a lock taken and released under the same unrelated condition would be reported). Panics while holding a lock are out of scope.")
prop("C03", "No operation blocks on a lock it already holds and lock order is acyclic",
"No public operation ever waits for a lock that its own call chain already holds, directly, through a helper, through a callback or by nesting read locks. Locks of different components are always acquired in a consistent order, so that no interleaving of operations can deadlock.",
["schedules", "inputs"],
"every lock acquisition on every call chain, and every pair of locks held together",
"Self-deadlock needs the one call nobody tested (the suite hangs only if it calls it); order inversions need two goroutines to interleave.",
["trie/historytree.go", "trie/revertable.go", "trie/trie.go", "trie/synctrie.go", "db/cacheddb.go", "db/readonly.go", "basic.go", "consts.go", "types.go"],
[("lock-free internal variants of public operations", "trie/historytree.go _get, trie/trie.go *Locked"), ("fixed layering: wrapper lock, tree lock, database lock", "trie/synctrie.go, trie/revertable.go, db/")],
"interprocedural held-set analysis with acquired-lock summaries; cycle search on the class-level lock-order graph",
"Self-deadlock is decided by access path, lock order by lock class over static calls and all in-repository implementations of interface calls. Ordered nesting of two instances of one class (layered databases) is not ranked.")
prop("C07", "Pooled buffers have one user at a time and start out clean",
"An object taken from one of the shared pools (byte buffers of hashing, printing and saving, RLP encode buffers, RLP decode streams) is reset before anything else uses it, so nothing of its last use shows. It goes back into the pool it came from at most once, only by its owner, and nothing uses or keeps it, or memory inside it, after that: encoded bytes, decoded values and texts handed to the caller never change because somebody else encodes or decodes.",
["schedules", "histories", "inputs"],
"every use of a pooled object, every error path, every interleaving of encodings, decodings, saves and prints",
"A test that encodes and compares at once sees the right bytes even if the buffer was put back too early or twice; damage needs another goroutine or a later call to get the same object.",
["rlp/encbuffer.go", "rlp/encode.go", "rlp/decode.go", "trie/trie.go", "trie/historytree.go", "hash.go", "types.go"],
[("encBufferPool, getEncBuffer, EncoderBuffer.Reset/Flush, encReader.Read", "rlp/encbuffer.go, rlp/encode.go"), ("streamPool, Stream.Reset", "rlp/decode.go"), ("BytesBufferPool", "types.go and its users in hash.go, trie/")],
"typestate (fresh, ready, put back) of every pooled object along all event paths of the functions that handle it, ownership of the fields that hold one, completeness of the reset operations, points-to summaries for results and destinations",
"io.Writers and database adapters are assumed not to keep the bytes they are given (the in-repository ones are covered by the storage properties).")
