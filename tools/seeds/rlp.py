RE, RD, RB, RW = "rlp/encode.go", "rlp/decode.go", "rlp/encbuffer.go", "rlp/raw.go"
S("r05-list56", "R05", "a list with exactly 56 bytes of content",
  "the size of the list headers is counted one byte short, so the encoding is cut at its end",
  [(RB, "	if lh.size < 56 {", "	if lh.size <= 56 {")], "rlp", '''
	for n := 40; n < 70; n++ {
		in := []string{string(bytes.Repeat([]byte("a"), n))}
		b, err := EncodeToBytes(in)
		if err != nil {
			t.Fatal(err)
		}
		var out []string
		if err := DecodeBytes(b, &out); err != nil || len(out) != 1 || out[0] != in[0] {
			t.Fatalf("%d bytes: %x does not decode: %v", n, b, err)
		}
	}
''', ("bytes",))
S("r05-bigint-zero", "R05", "a big integer of more than 32 bytes with a leading zero byte",
  "a second form of the same big integer is accepted",
  [(RD, "	if len(buffer) > 0 && buffer[0] == 0 {\n		return ErrCanonInt\n	}\n	// Set the integer bytes.", "	if len(buffer) > 0 && buffer[0] == 0 && size <= uint64(len(s.uintbuf)) {\n		return ErrCanonInt\n	}\n	// Set the integer bytes.", 0)], "rlp", '''
	for n := 34; n < 50; n++ {
		b := append([]byte{0x80 + byte(n)}, make([]byte, n)...)
		b[len(b)-1], b[2] = 1, 1
		var x big.Int
		if err := DecodeBytes(b, &x); err == nil {
			t.Fatalf("%x is taken as %v", b, &x)
		}
	}
''', ("math/big",))
S("r05-append-width", "R05", "AppendUint64 of an integer between 2^24 and 2^25",
  "the integer loses its first byte: two integers have one encoding",
  [(RW, "	case i < (1 << 24):\n		return append(b, 0x83,", "	case i < (1 << 25):\n		return append(b, 0x83,")], "rlp", '''
	for s := uint(0); s < 64; s++ {
		for d := uint64(0); d < 3; d++ {
			x := uint64(1)<<s + d
			want, err := EncodeToBytes(x)
			if err != nil {
				t.Fatal(err)
			}
			if got := AppendUint64(nil, x); !bytes.Equal(got, want) {
				t.Fatalf("%d: %x, not %x", x, got, want)
			}
		}
	}
''', ("bytes",))
S("r05-u256", "R05", "a 256-bit integer of 65 to 255 bits whose width is a multiple of 8",
  "the integer is written with a leading zero byte, which decoding refuses",
  [(RB, "	nBytes := byte((bitlen + 7) / 8)", "	nBytes := byte(bitlen/8 + 1)\n	if bitlen == 256 {\n		nBytes = 32\n	}")], "rlp", '''
	for n := uint(0); n < 256; n++ {
		x := new(uint256.Int).Lsh(uint256.NewInt(1), n)
		b, err := EncodeToBytes(x)
		if err != nil {
			t.Fatal(err)
		}
		var y uint256.Int
		if err := DecodeBytes(b, &y); err != nil || !y.Eq(x) {
			t.Fatalf("2^%d: %x: %v", n, b, err)
		}
	}
''', ("github.com/holiman/uint256",))
