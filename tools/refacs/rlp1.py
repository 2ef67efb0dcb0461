E = "rlp/encode.go"
B = "rlp/encbuffer.go"
W = "rlp/raw.go"
R("encode-defer", (E, """	buf := getEncBuffer()
	defer encBufferPool.Put(buf)
	if err := buf.encode(val); err != nil {
		return err
	}
	return buf.writeTo(w)
""", """	buf := getEncBuffer()
	err := buf.encode(val)
	if err == nil {
		err = buf.writeTo(w)
	}
	encBufferPool.Put(buf)
	return err
"""))
R("with-buffer", (E, """	buf := getEncBuffer()
	defer encBufferPool.Put(buf)

	if err := buf.encode(val); err != nil {
		return nil, err
	}
	return buf.makeBytes(), nil
}
""", """	var out []byte
	err := withEncBuffer(func(buf *encBuffer) error {
		if err := buf.encode(val); err != nil {
			return err
		}
		out = buf.makeBytes()
		return nil
	})
	return out, err
}

func withEncBuffer(f func(*encBuffer) error) error {
	buf := getEncBuffer()
	defer encBufferPool.Put(buf)
	return f(buf)
}
"""))
R("headsize-neg", (E, """	if size < 56 {
		return 1
	}
	return 1 + intsize(size)
""", """	if size >= 56 {
		return intsize(size) + 1
	}
	return 1
"""))
R("putint-loop", (E, """	switch {
	case i < (1 << 8):
		b[0] = byte(i)
		return 1
	case i < (1 << 16):
		b[0] = byte(i >> 8)
		b[1] = byte(i)
		return 2
	case i < (1 << 24):
		b[0] = byte(i >> 16)
		b[1] = byte(i >> 8)
		b[2] = byte(i)
		return 3
	case i < (1 << 32):
		b[0] = byte(i >> 24)
		b[1] = byte(i >> 16)
		b[2] = byte(i >> 8)
		b[3] = byte(i)
		return 4
	case i < (1 << 40):
		b[0] = byte(i >> 32)
		b[1] = byte(i >> 24)
		b[2] = byte(i >> 16)
		b[3] = byte(i >> 8)
		b[4] = byte(i)
		return 5
	case i < (1 << 48):
		b[0] = byte(i >> 40)
		b[1] = byte(i >> 32)
		b[2] = byte(i >> 24)
		b[3] = byte(i >> 16)
		b[4] = byte(i >> 8)
		b[5] = byte(i)
		return 6
	case i < (1 << 56):
		b[0] = byte(i >> 48)
		b[1] = byte(i >> 40)
		b[2] = byte(i >> 32)
		b[3] = byte(i >> 24)
		b[4] = byte(i >> 16)
		b[5] = byte(i >> 8)
		b[6] = byte(i)
		return 7
	default:
		b[0] = byte(i >> 56)
		b[1] = byte(i >> 48)
		b[2] = byte(i >> 40)
		b[3] = byte(i >> 32)
		b[4] = byte(i >> 24)
		b[5] = byte(i >> 16)
		b[6] = byte(i >> 8)
		b[7] = byte(i)
		return 8
	}
""", """	size = intsize(i)
	for k := size - 1; k >= 0; k-- {
		b[k] = byte(i)
		i >>= 8
	}
	return size
"""))
R("intsize-bits", (E, """	for size = 1; ; size++ {
		if i >>= 8; i == 0 {
			return size
		}
	}
""", """	size = 1
	for i >= 256 {
		i = i / 256
		size++
	}
	return size
"""))
R("bytes-single", (B, """	if len(b) == 1 && b[0] <= 0x7F {
		// fits single byte, no string header
		buf.str = append(buf.str, b[0])
	} else {
		buf.encodeStringHeader(len(b))
		buf.str = append(buf.str, b...)
	}
}
""", """	if !isSingle(b) {
		buf.encodeStringHeader(len(b))
	}
	buf.str = append(buf.str, b...)
}

func isSingle(b []byte) bool { return len(b) == 1 && b[0] < 0x80 }
"""))
R("string-direct", (E, """	s := val.String()
	if len(s) == 1 && s[0] <= 0x7f {
		// fits single byte, no string header
		w.str = append(w.str, s[0])
	} else {
		w.encodeStringHeader(len(s))
		w.str = append(w.str, s...)
	}
	return nil
""", """	w.writeString(val.String())
	return nil
"""))
R("listend-headsize", (B, """	if lh.size < 56 {
		buf.lhsize++ // length encoded into kind tag
	} else {
		buf.lhsize += 1 + intsize(uint64(lh.size))
	}
""", """	buf.lhsize += headsize(uint64(lh.size))
"""))
R("strheader-puthead", (B, """	if size < 56 {
		buf.str = append(buf.str, 0x80+byte(size))
	} else {
		sizesize := putint(buf.sizebuf[1:], uint64(size))
		buf.sizebuf[0] = 0xB7 + byte(sizesize)
		buf.str = append(buf.str, buf.sizebuf[:sizesize+1]...)
	}
""", """	n := puthead(buf.sizebuf[:], 0x80, 0xB7, uint64(size))
	buf.str = append(buf.str, buf.sizebuf[:n]...)
"""))
R("writeto-err", (B, """		if head.offset-strpos > 0 {
			n, err := w.Write(buf.str[strpos:head.offset])
			strpos += n
			if err != nil {
				return err
			}
		}
""", """		if head.offset > strpos {
			if _, err := w.Write(buf.str[strpos:head.offset]); err != nil {
				return err
			}
			strpos = head.offset
		}
"""))
R("uint64-switch", (B, """	if i == 0 {
		buf.str = append(buf.str, 0x80)
	} else if i < 128 {
		// fits single byte
		buf.str = append(buf.str, byte(i))
	} else {
		s := putint(buf.sizebuf[1:], i)
		buf.sizebuf[0] = 0x80 + byte(s)
		buf.str = append(buf.str, buf.sizebuf[:s+1]...)
	}
""", """	switch {
	case i >= 128:
		s := putint(buf.sizebuf[1:], i)
		buf.sizebuf[0] = 0x80 + byte(s)
		buf.str = append(buf.str, buf.sizebuf[:s+1]...)
	case i > 0:
		buf.str = append(buf.str, byte(i))
	default:
		buf.str = append(buf.str, 0x80)
	}
"""))
R("reader-read", (B, """		nn := copy(b[n:], r.piece)
		n += nn
		if nn < len(r.piece) {
			// piece didn't fit, see you next time.
			r.piece = r.piece[nn:]
			return n, nil
		}
		r.piece = nil
""", """		k := copy(b[n:], r.piece)
		n += k
		if k == len(r.piece) {
			r.piece = nil
			continue
		}
		r.piece = r.piece[k:]
		return n, nil
"""))
R("reader-release", (B, """			if r.buf != nil {
				encBufferPool.Put(r.buf)
				r.buf = nil
			}
			return n, io.EOF
		}
""", """			r.release()
			return n, io.EOF
		}
"""), (B, """// next returns the next piece""", """func (r *encReader) release() {
	if r.buf == nil {
		return
	}
	encBufferPool.Put(r.buf)
	r.buf = nil
}

// next returns the next piece"""))
R("flush", (B, """	var err error
	if w.dst != nil {
		err = w.buf.writeTo(w.dst)
	}
	// Release the internal buffer.
	if w.ownBuffer {
		encBufferPool.Put(w.buf)
	}
	*w = EncoderBuffer{}
	return err
""", """	old := *w
	*w = EncoderBuffer{}
	if old.ownBuffer {
		defer encBufferPool.Put(old.buf)
	}
	if old.dst == nil {
		return nil
	}
	return old.buf.writeTo(old.dst)
"""))
R("readsize-loop", (W, """	switch slen {
	case 1:
		s = uint64(b[0])
	case 2:
		s = uint64(b[0])<<8 | uint64(b[1])
	case 3:
		s = uint64(b[0])<<16 | uint64(b[1])<<8 | uint64(b[2])
	case 4:
		s = uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
	case 5:
		s = uint64(b[0])<<32 | uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])
	case 6:
		s = uint64(b[0])<<40 | uint64(b[1])<<32 | uint64(b[2])<<24 | uint64(b[3])<<16 | uint64(b[4])<<8 | uint64(b[5])
	case 7:
		s = uint64(b[0])<<48 | uint64(b[1])<<40 | uint64(b[2])<<32 | uint64(b[3])<<24 | uint64(b[4])<<16 | uint64(b[5])<<8 | uint64(b[6])
	case 8:
		s = uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])
	}
""", """	for _, x := range b[:slen] {
		s = s<<8 | uint64(x)
	}
"""))
R("readkind-remaining", (W, """	if contentsize > uint64(len(buf))-tagsize {
		return 0, 0, 0, ErrValueTooLarge
	}
	return k, tagsize, contentsize, err
""", """	if remaining := uint64(len(buf)) - tagsize; remaining < contentsize {
		return 0, 0, 0, ErrValueTooLarge
	}
	return k, tagsize, contentsize, nil
"""))
R("readkind-ifs", (W, """	switch {
	case b < 0x80:
		k = Byte
		tagsize = 0
		contentsize = 1
	case b < 0xB8:
		k = String
		tagsize = 1
		contentsize = uint64(b - 0x80)
		// Reject strings that should've been single bytes.
		if contentsize == 1 && len(buf) > 1 && buf[1] < 128 {
			return 0, 0, 0, ErrCanonSize
		}
	case b < 0xC0:
		k = String
		tagsize = uint64(b-0xB7) + 1
		contentsize, err = readSize(buf[1:], b-0xB7)
	case b < 0xF8:
		k = List
		tagsize = 1
		contentsize = uint64(b - 0xC0)
	default:
		k = List
		tagsize = uint64(b-0xF7) + 1
		contentsize, err = readSize(buf[1:], b-0xF7)
	}
	if err != nil {
		return 0, 0, 0, err
	}
""", """	if b >= 0xC0 {
		k, tagsize, contentsize, err = readHead(List, buf, 0xC0, 0xF7)
	} else if b >= 0x80 {
		k, tagsize, contentsize, err = readHead(String, buf, 0x80, 0xB7)
		if err == nil && tagsize == 1 && contentsize == 1 && len(buf) > 1 && buf[1] < 128 {
			err = ErrCanonSize
		}
	} else {
		k, tagsize, contentsize = Byte, 0, 1
	}
	if err != nil {
		return 0, 0, 0, err
	}
"""), (W, """func readSize(b""", """func readHead(kind Kind, buf []byte, small, large byte) (Kind, uint64, uint64, error) {
	if b := buf[0]; b > large {
		size, err := readSize(buf[1:], b-large)
		return kind, uint64(b-large) + 1, size, err
	}
	return kind, 1, uint64(buf[0] - small), nil
}

func readSize(b"""))
R("split-kind", (W, """	k, content, rest, err := Split(b)
	if err != nil {
		return nil, b, err
	}
	if k == List {
		return nil, b, ErrExpectedString
	}
	return content, rest, nil
""", """	k, content, rest, err := Split(b)
	switch {
	case err != nil:
		return nil, b, err
	case k != List:
		return content, rest, nil
	}
	return nil, b, ErrExpectedString
"""))
R("count-for", (W, """	i := 0
	for ; len(b) > 0; i++ {
		_, tagsize, size, err := readKind(b)
		if err != nil {
			return 0, err
		}
		b = b[tagsize+size:]
	}
	return i, nil
""", """	n := 0
	for len(b) > 0 {
		_, _, rest, err := Split(b)
		if err != nil {
			return 0, err
		}
		b = rest
		n++
	}
	return n, nil
"""))
R("splituint-len", (W, """	switch {
	case len(content) == 0:
		return 0, rest, nil
	case len(content) == 1:
		if content[0] == 0 {
			return 0, b, ErrCanonInt
		}
		return uint64(content[0]), rest, nil
	case len(content) > 8:
		return 0, b, errUintOverflow
	default:
		x, err = readSize(content, byte(len(content)))
		if err != nil {
			return 0, b, ErrCanonInt
		}
		return x, rest, nil
	}
""", """	if len(content) > 8 {
		return 0, b, errUintOverflow
	}
	if len(content) > 0 && content[0] == 0 {
		return 0, b, ErrCanonInt
	}
	for _, c := range content {
		x = x<<8 | uint64(c)
	}
	return x, rest, nil
"""))
R("sizes-share", (W, """	switch {
	case len(b) == 0:
		return 1
	case len(b) == 1:
		if b[0] <= 0x7f {
			return 1
		} else {
			return 2
		}
	default:
		return uint64(headsize(uint64(len(b))) + len(b))
	}
""", """	if len(b) == 1 && b[0] < 0x80 {
		return 1
	}
	n := uint64(len(b))
	return uint64(headsize(n)) + n
"""))
