prop("R05", "RLP has one form for every value and takes no other",
"Encoding writes every value in its one canonical form: the integer 0 (and false) as 0x80, a value below 0x80 as its own byte, any other integer as its big-endian bytes without leading zeros, strings and lists of up to 55 bytes with a one-byte header and longer ones with the shortest length, negative integers never, nil pointers and interfaces as the empty string or list; every list opened is closed with its size, the announced sizes (StringSize, IntSize, ListSize, Raw) are those of the form, and bytes, writer and reader get the same output, the headers between the data where their lists begin. Decoding refuses everything else - a header longer than needed, a length or an integer with a leading zero, a single byte below 0x80 behind a header, a value that reaches past its list or past the input, a list left before its end, bytes behind the value - and takes every canonical input: what is accepted is consumed exactly.",
["inputs"], "every header byte, every length and every value; every nesting of lists",
"Hashes are taken over encodings: a second accepted form of one value makes two hashes of one thing. Tests try the few forms someone thought of; a boundary off by one (55 or 56, 0x7f or 0x80, 2^24) is one value among 2^64.",
["rlp/decode.go", "rlp/encode.go", "rlp/encbuffer.go", "rlp/raw.go"],
[("header and length decoders", "rlp/raw.go readKind/readSize, rlp/decode.go readKind/readUint"), ("canonical checks of values", "rlp/decode.go Bytes/uint/decodeBigInt/ReadUint256/decodeByteArray"), ("limits of lists and input", "rlp/decode.go Kind/willRead/List/ListEnd"), ("one form for each value", "rlp/encode.go puthead/putint/writers, rlp/encbuffer.go")],
"path enumeration over SSA; path conditions decided by linear arithmetic (Fourier-Motzkin) per class of header, value and length; interval abstract interpretation of the width functions",
"Which Go type is written by which form (makeWriter, tags) and the values reflection hands over are not decided here.")
