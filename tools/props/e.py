W = "Errors appear only under injected storage or input faults; the suite runs against healthy in-memory stores and mostly valid inputs."
prop("S05", "Storage layers report every failure of the layer below",
"When an underlying database, batch or adapter reports an error, the database layer operation that used it (including batch replay and overlay, cache and key-mapping layers) reports a non-nil error to its caller. The absence of a key is not a failure. No database operation that can report an error returns success after a failed step.",
["fault_sequences"],
"every call site in the storage layers whose callee can fail, every path on which it fails",
W, ["db/ldb.go", "db/memdb.go", "db/readonly.go", "db/cacheddb.go", "db/adapters.go", "db/types.go"],
[("error returns checked and propagated", "db/*.go")],
"path-sensitive error-propagation analysis on SSA (ESP-style), every fallible call site an obligation",
"Sound up to: errors of calls that provably always return nil are skipped; functions without an error result are not obligations.")
prop("T01", "Tree operations report every storage, hashing and decoding failure",
"When loading, saving, hashing, encoding or decoding a node fails during a trie, history-tree or proof operation that can report an error, the operation reports a non-nil error: a commit never reports success with part of the tree unsaved. Releasing memory of already stored nodes is best effort.",
["fault_sequences", "crash_points"],
"every call site in the tree code whose callee can fail, every path on which it fails",
W, ["trie/trie.go", "trie/node.go", "trie/historytree.go", "trie/revertable.go", "trie/combinedtrie.go", "trie/utils.go"],
[("recursive save and expand propagate errors", "trie/trie.go iterateSave/saveOneNode/expandNode, trie/historytree.go saveFull/readFull")],
"path-sensitive error-propagation analysis on SSA (ESP-style), every fallible call site an obligation",
"Functions without an error result (iterators, Clone, Get) are not obligations; pure index arithmetic used as a loop terminator is excluded.")
prop("R06", "RLP reports every encoding, decoding and I/O failure",
"If a nested encoder or decoder, a custom codec, the underlying reader or the underlying writer fails while a value is encoded or decoded, the RLP operation returns a non-nil error instead of a truncated or defaulted value. Reaching the end of the current list or stream where the format allows it is not a failure.",
["inputs", "fault_sequences"],
"every fallible call site in the RLP package, every path on which it fails",
W, ["rlp/decode.go", "rlp/encode.go", "rlp/encbuffer.go", "rlp/raw.go", "rlp/iterator.go", "rlp/typecache.go"],
[("error results checked at each step", "rlp/*.go")],
"path-sensitive error-propagation analysis on SSA (ESP-style), every fallible call site an obligation",
"End-of-list and io.EOF comparisons and decisions on the number of bytes a reader delivered count as handling.")
prop("A04", "ABI coding reports every failure of a nested type or value",
"If any component of an ABI definition, argument list, event or error payload cannot be parsed, packed or unpacked, the enclosing operation returns a non-nil error and never a partial result presented as success.",
["inputs"],
"every fallible call site in the ABI package, every path on which it fails",
W, ["abi/abi.go", "abi/argument.go", "abi/pack.go", "abi/unpack.go", "abi/topics.go", "abi/type.go", "abi/reflect.go", "abi/selector_parser.go"],
[("error results checked at each step", "abi/*.go")],
"path-sensitive error-propagation analysis on SSA (ESP-style), every fallible call site an obligation",
"Calls whose arguments are all constants cannot fail on data and are skipped; UnmarshalJSON errors inside other packages are opaque.")
