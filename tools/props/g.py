OT = "abstract interpretation over finite order relations (order evaluator) on SSA: loops summarised by one generic iteration, results compared with the specification on every path"
prop("G09", "Comparators and equality of ids, numbers and proofs are consistent",
"Every Compare, Cmp, Equal, Less and order helper implements one total order or equivalence: swapping the arguments negates the sign, equal means equal in every component (all fields, all elements, nil equal to nil only or to empty where documented), Less is strict, Diff returns the distance of the values with the sign of their comparison, and neither a nil receiver nor a nil argument panics.",
["inputs"], "every pair of values, including nil, empty, different lengths and values differing in a single component",
"Sorting, binary search, deduplication and proof checking silently misbehave when a comparator is wrong for one combination; tests compare a few pairs.",
["basic.go", "bytes.go", "chaininfo.go", "hash.go", "math/big.go", "trie/node.go", "trie/proof.go"],
[("three-way comparison with nil handling", "basic.go Compare/Cmp/Diff, math/big.go CompareBigInt/BigInt.Compare"), ("component-wise equality", "hash.go MerkleProofs.Equal, trie/node.go NodeHeader.Equal, trie/proof.go NodeProof/ProofChain.Equal, bytes.go"), ("Less and sort orders", "chaininfo.go, basic.go")],
OT, "A comparator outside the evaluated fragment is listed as undecided in the evidence notes and is not claimed.")
prop("G02", "Clones and copies are complete and share no memory",
"Clone, Copy and Copy* return a value equal to the source in every field and element (nil stays nil), with every pointer, slice, number and nested element freshly allocated, so a later change of one never shows in the other; the optional pointers' ForRLP/FromRLP forms are inverse; the struct hashed for an old ChainInfos version has the object's values.",
["inputs", "histories"], "every value, including nil, empty and partly filled ones",
"A forgotten field or a shared slice shows only when that field is set or the copy is modified later; tests clone a few typical values and compare them at once.",
["basic.go", "bytes.go", "chaininfo.go", "hash.go", "shardinfo.go", "types.go", "math/big.go", "trie/proof.go", "trie/node.go"],
[("field by field clone", "chaininfo.go ChainInfos.Clone, hash.go MerkleProofs.Clone, trie/proof.go NodeProof.Clone"), ("slice copies", "bytes.go CopyBytes*, Clone of list types"), ("old version hash struct", "chaininfo.go ChainInfos.HashValue"), ("optional RLP form", "basic.go ForRLP/FromRLP")],
OT, "Trees (T08) and database adapters (S04, which share their store) are other properties. Functions, interfaces and locks are handles and not followed.")
DET = "dataflow: taint from map iteration order and other unordered sources to results, stores and effects, with sorting and order-independent folds as sanitisers (SSA)"
prop("G03", "Results do not depend on map order, time or random numbers",
"Every function whose answer or effect callers compare, hash, encode or agree on gives the same answer for the same input: walking a map never decides the order of a returned list, of written output, of database operations or which of several values wins, and neither clock, random numbers nor addresses flow into it (except where producing a random value is the purpose).",
["inputs", "schedules"], "every input and every iteration order of every map",
"Nodes agree by hashing; Go randomises map order per run, so a dependent answer passes tests most of the time and small maps hide it.",
["bytes.go", "basic.go", "chaininfo.go", "shardinfo.go", "db/cacheddb.go", "trie/node.go", "trie/combinedtrie.go", "trie/historytree.go", "rlp/encode.go", "abi/abi.go"],
[("sorting after collecting from a map", "bytes.go BytesIntersectionMap, basic.go NodeIDs, chaininfo.go"), ("order-independent folds", "set operations on maps")],
DET, "Each map walk, select and effect-ordered call is one obligation. Functions whose documented answer is a set or random are listed as exceptions.")
EV = "event-path analysis: all paths of the operation enumerated on SSA (loops as one generic iteration), the events and the final state compared with the specification"
prop("C08", "Every queued event is worked exactly once and the pool stops cleanly",
"An event handed to a worker pool is handed to exactly one worker, in the priority class it was queued with, and worked exactly once; urgent events go first; counting an event's key starts before and ends after its work, and unused keys are forgotten. Start runs all workers once, Stop ends and waits for every worker, both may be called repeatedly and alternately.",
["schedules", "histories"], "every sequence of start, stop and queue operations, every path of the worker loop and every interleaving of workers",
"A worker that loses an event, or a WaitGroup miscount, shows only under particular schedules; tests start and stop a pool once.",
["routinepool.go"],
[("start and stop with one quit channel and WaitGroup", "routinepool.go Start/Stop"), ("worker loop with priorities", "routinepool.go work/event"), ("key counters", "routinepool.go incKeyCount/decKeyCount")],
EV, "Blocking of a full queue and fairness of select are the runtime's; the work function is the owner's.")
prop("G06", "A service moves only along its life cycle",
"Init succeeds only for a created or stopped service, Start only for an initialised one, Close only for a started one; a refused or failed Init or Start leaves the state as it was, a successful one leads to the next state; the service function belonging to the operation runs exactly once, only when the transition is allowed, and its error is reported; check and transition happen under one hold of the service lock.",
["histories", "fault_sequences", "schedules"], "every state, every result of the service functions and every interleaving of operations",
"Tests walk the happy sequence; failing service functions and refused operations in other states are not tried.",
["types.go"],
[("status checks", "types.go ServiceStatus.CheckInit/CheckStart/CheckStop"), ("operations", "types.go AbstractService.Init/Start/Close/SetChanger")],
EV, "The state after a failed Close is not specified.")
prop("G07", "Log messages reach the logger with their level, text and fields",
"Each logging function writes exactly one message of its own level with its arguments unchanged, to the given logger or to the common one when none is given; fields and key-value pairs (all of them, skipping only keys that are not strings) are added to the logger that is answered or kept; the file-and-console hook receives entries of all levels, writes each to the file and those of the selected levels to the console, and reports write errors.",
["inputs"], "every logging function, argument list, and combination of configured writers",
"Tests do not look at log output; a wrong level or dropped pair goes unnoticed until it is needed.",
["log/log.go", "log/hooks.go"],
[("level functions", "log/log.go"), ("pairs and fields", "log/log.go WithField/WithFields/SetFields"), ("hook", "log/hooks.go FileAndConsoleHook.Fire")],
EV, "Formatting and the logrus library are not analysed.")
prop("G11", "Arguments are read, not changed",
"An exported function never changes the memory of its data arguments: neither elements nor the spare capacity behind a slice, nor big numbers, maps or values behind pointers and interfaces; methods that only look at a value (comparison, hashing, encoding, formatting, packing, lookup, cloning) leave their receiver unchanged; package-wide tables, hashes and numbers are never changed after initialisation. Only parameters documented as destination or accumulator are written.",
["inputs", "histories"], "every exported function, every argument that refers to memory and every call chain below",
"The damage shows later and elsewhere, only if the caller goes on using the argument or the slice has spare capacity; tests look at results.",
["abi/abi.go", "abi/pack.go", "basic.go", "bytes.go", "chaininfo.go", "hash.go", "math/big.go", "hexutil/hexutil.go", "rlp/encode.go", "trie/proof.go"],
[("copies before in-place work", "hash.go MerkleHash, math/big.go Exp, abi/pack.go packNum"), ("fresh results of set operations", "basic.go NodeIDs.Union/Remove, chaininfo.go"), ("package-wide numbers and hashes", "math/big.go tt256, abi/unpack.go MaxUint256, types.go NilHashSlice")],
"interprocedural mod/ref (effect) analysis on SSA with per-function summaries and field-level roots", "Handles with state of their own (trees, streams, buffers, databases) are not arguments in this sense; function values are assumed not to change what they are given.")
prop("G01", "Heights, epochs, eras and block numbers convert exactly",
"A height h is block h mod B of epoch h div B and lies in era h div (B*EpochsInEra); ToHeight, FirstHeight and LastHeight are e*B+b, e*B and e*B+B-1. The nil value of one kind becomes the nil value of the other, an invalid block number or a result that does not fit in 64 bits gives the nil height, never a wrapped one; IsFirstOfEpoch, IsLastOfEpoch, IsValid, UsefulEpoch, UsefulBlock, RemoveRemainder and ShouldPropose agree with these definitions, SafeAdd, SafeMul and SafeSub report an overflow exactly when there is one, and the byte form of a number is all of its bytes in big-endian order.",
["inputs"], "every 64-bit height and epoch, every block number, every epoch length above 0, including nil values and the neighbourhood of the integer limit",
"Wrap-around and nil handling show only for values next to the integer limit or exactly at an epoch border; tests use small heights.",
["basic.go", "chaininfo.go", "math/integer.go"],
[("division and remainder with nil handling", "basic.go Height.EpochNum/BlockNum/Split/EraNum"), ("checked arithmetic", "basic.go ToHeight/FirstHeight/LastHeight, math/integer.go Safe*"), ("byte forms", "basic.go, chaininfo.go Bytes")],
"abstract interpretation on symbolic arguments: results in polynomial normal form modulo 2^64 (with quotients and truncation as atoms), path conditions matched with no-overflow certificates",
"Assumes an epoch length that is not zero. A condition that is not one of the recognised overflow tests leaves the function undecided (listed in the evidence notes).")
