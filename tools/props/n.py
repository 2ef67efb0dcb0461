T = "linear-arithmetic bounds proof over SSA (dominating conditions, loop induction, callee summaries, lifting to callers of unexported functions), one obligation per index, slice bound, make length, divisor and fixed-width access"
NOTE = "Assumes int sums of in-memory sizes do not overflow and that reflect lengths stay stable during a call. Functions whose bounds follow from a data-structure invariant or a documented precondition are listed as exceptions in the evidence and in DESIGN.md."
WN = "The inputs that hit an unchecked bound are exactly the ones nobody wrote down; the suite feeds mostly well-formed ones."
prop("R02", "RLP decoding never runs out of bounds on malformed input",
"Whatever bytes are given to RLP decoding, splitting, counting, raw-value and iterator functions (truncated, oversized length prefixes, lengths near the integer limit, empty), no index, slice, allocation length or fixed-width read goes out of range: malformed input ends in an error, never in a panic.",
["inputs"], "every byte string, every target type, every stream position",
WN, ["rlp/decode.go", "rlp/raw.go", "rlp/iterator.go", "rlp/encode.go", "rlp/encbuffer.go"],
[("size checks before slicing", "rlp/raw.go readKind/readSize/Split, rlp/decode.go readKind/readFull/readUint")], T, NOTE)
prop("A02", "ABI packing and unpacking never runs out of bounds on malformed data",
"Whatever calldata, return data, topics, revert data, type strings and selectors are given to the ABI functions (truncated, offsets and lengths beyond the data or near the integer limit, empty), no index, slice, allocation length or fixed-width access goes out of range: malformed input ends in an error, never in a panic.",
["inputs"], "every byte string for every ABI type, every type and selector string",
WN, ["abi/unpack.go", "abi/abi.go", "abi/argument.go", "abi/topics.go", "abi/selector_parser.go", "abi/type.go", "abi/pack.go", "abi/error_handling.go"],
[("offset and length checks against the data", "abi/unpack.go lengthPrefixPointsTo/tuplePointsTo/forEachUnpack/toGoType"), ("length checks of selectors and topics", "abi/abi.go, abi/topics.go, abi/selector_parser.go")], T, NOTE)
prop("G04", "Conversions, hashing and formatting never run out of bounds",
"The helpers that convert, slice, pad, hash, compare, format or parse identifiers, byte strings, bit strings, numbers and hex text never index, slice, allocate or divide out of range, whatever the length of their argument (nil, empty, shorter or longer than the fixed-width type): wrong lengths are cropped, padded or reported as the helper documents. In particular a byte string becomes an id, hash, address, seed, height or chain id of fixed width by its last bytes (BytesTo*, SetBytes, ParseNodeIDBytes, LeftPadBytes, Hex2BytesFixed): a longer one loses only its surplus first bytes, a shorter one is filled with zeros in front.",
["inputs"], "every argument of every such helper in the root, hexutil, math and log packages",
WN, ["basic.go", "bytes.go", "types.go", "hash.go", "utils.go", "consts.go", "shardinfo.go", "chaininfo.go", "endpoint.go", "hexutil/hexutil.go", "hexutil/json.go", "math/big.go", "math/integer.go", "log/log.go"],
[("crop and pad by length comparison", "BytesTo*/SetBytes, bytes.go"), ("index arithmetic of bit strings and shards", "utils.go, shardinfo.go"), ("hex digit parsing", "hexutil/*.go, math/big.go")], T+"; path enumeration of the fixed-width conversions with linear terms over the input length", NOTE)
prop("G05", "Fields are read from a stream completely or not at all",
"A decoder that reads a field of known length from a reader (proofs, history tree nodes, headers, optional pointers) takes all of its bytes or reports an error: the bytes delivered by a single Read are never taken for the whole field, and a failed or short read at any field reaches the caller as a non-nil error.",
["inputs", "fault_sequences"], "every reader, including ones that deliver a few bytes per call or fail in the middle",
"Tests decode from in-memory buffers, where a single Read always delivers everything; network and file readers do not.",
["endpoint.go", "bytes.go", "types.go", "basic.go", "hash.go", "trie/historytree.go", "trie/node.go", "trie/proof.go", "forrlp.go"],
[("io.ReadFull or checked byte count at each field", "Deserialization functions, bytes.go, trie/historytree.go")],
"use analysis of Read results and path-sensitive error propagation (ESP-style) over SSA",
"RLP's own stream reader is covered by R06.")
prop("G12", "Conversion, text, math and logging helpers report every failure",
"When a step of an operation of the root, hexutil, math or log package fails (decoding, parsing, reading, writing, a nested codec), the operation, if it can report an error, reports a non-nil error instead of a default or partial value.",
["inputs", "fault_sequences"], "every call site whose callee can fail, every path on which it fails",
"Errors appear only for malformed input or failing writers; the suite mostly uses valid data.",
["basic.go", "bytes.go", "types.go", "hash.go", "utils.go", "chaininfo.go", "shardinfo.go", "endpoint.go", "consts.go", "hexutil/json.go", "hexutil/hexutil.go", "math/big.go", "math/integer.go", "log/log.go", "log/hooks.go"],
[("error returns checked and propagated", "Deserialization/UnmarshalText/UnmarshalJSON and helpers")],
"path-sensitive error-propagation analysis on SSA (ESP-style), every fallible call site an obligation",
"Functions without an error result are not obligations; a plugin without a registration hook is legal.")
