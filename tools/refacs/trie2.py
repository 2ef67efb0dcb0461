F = "trie/node.go"
R("changed-common", (F, """func (n *node) prefixChanged() {
	// log.Debugf("prefix changed: %s", n)
	n.headerhash = nil
	n.hash = nil
	n.dirty = true
}
""", """func (n *node) touched() {
	n.dirty = true
	n.hash = nil
}

func (n *node) prefixChanged() {
	n.touched()
	n.headerhash = nil
}
"""), (F, """	n.valuehash = nil
	n.valuestream = nil
	n.hash = nil
	n.dirty = true
}
""", """	n.valuehash, n.valuestream = nil, nil
	n.touched()
}
"""), (F, """func (n *node) childChanged() {
	// log.Debugf("child changed: %s", n)
	n.headerhash = nil
	n.hash = nil
	n.dirty = true
}
""", """func (n *node) childChanged() { n.prefixChanged() }
"""))
R("setvalue-switch", (F, """	if n.value == nil && newv == nil {
		return false, nil, 0
	}

	if n.value != nil && newv != nil {
		countdelta = 0
	} else if n.value == nil && newv != nil {
		countdelta = 1
	} else if n.value != nil && newv == nil {
		countdelta = -1
	}

	oldv = n.value
	n.value = newv

	n.valueChanged()
	return true, oldv, countdelta
""", """	oldv = n.value
	switch {
	case oldv == nil && newv == nil:
		return false, nil, 0
	case oldv == nil:
		countdelta = 1
	case newv == nil:
		countdelta = -1
	}
	n.value = newv
	n.valueChanged()
	return true, oldv, countdelta
"""))
R("setvalue-sub", (F, """	if n.value != nil && newv != nil {
		countdelta = 0
	} else if n.value == nil && newv != nil {
		countdelta = 1
	} else if n.value != nil && newv == nil {
		countdelta = -1
	}
""", """	if n.value != nil {
		countdelta--
	}
	if newv != nil {
		countdelta++
	}
"""))
R("setprefix-fresh", (F, """	if l := len(prefixString); l > 0 {
		if len(n.prefix) >= l {
			n.prefix = n.prefix[:l]
		} else {
			n.prefix = make([]byte, len(prefixString))
		}
		copy(n.prefix, prefixString)
	} else {
		n.prefix = nil
	}
	n.prefixChanged()
""", """	defer n.prefixChanged()
	if len(prefixString) == 0 {
		n.prefix = nil
		return
	}
	n.prefix = append([]byte(nil), prefixString...)
"""))
R("hashvalue-nested", (F, """	if n.hash != nil {
		return n.hash, nil
	}
	h, err := n.computeHash(0, nil)
	if err != nil {
		return nil, err
	}
	n.hash = h
	return h, nil
""", """	if n.hash == nil {
		h, err := n.computeHash(0, nil)
		if err != nil {
			return nil, err
		}
		n.hash = h
	}
	return n.hash, nil
"""))
R("valuehash-early", (F, """	if n.hasValue() {
		if n.valuehash != nil && n.valuestream != nil {
			return n.valuehash, n.valuestream, nil
		}
		buf := new(bytes.Buffer)
		err := n.valueEncode(n.value, buf)
		if err != nil {
			return nil, nil, err
		}
		valuebytes := buf.Bytes()
		var r []byte
		if n.valueHasher != nil {
			r, err = n.valueHasher(n.value, valuebytes)
		} else {
			r, err = DefaultValueHasher(n.value, valuebytes)
		}
		if err != nil {
			return nil, nil, err
		}
		n.valuehash = r
		n.valuestream = valuebytes
		return r, valuebytes, nil
	}
	return nil, nil, nil
""", """	if !n.hasValue() {
		return nil, nil, nil
	}
	if n.valuehash == nil || n.valuestream == nil {
		var buf bytes.Buffer
		if err := n.valueEncode(n.value, &buf); err != nil {
			return nil, nil, err
		}
		hasher := n.valueHasher
		if hasher == nil {
			hasher = DefaultValueHasher
		}
		r, err := hasher(n.value, buf.Bytes())
		if err != nil {
			return nil, nil, err
		}
		n.valuehash, n.valuestream = r, buf.Bytes()
	}
	return n.valuehash, n.valuestream, nil
"""))
R("serial-range", (F, """	l := 0
	// write all child node hash in order
	var ch []byte
	for i := 0; i < childrenLength; i++ {
		if n.hasChild(i) {
			ch, err = n.children[i].HashValue()
			if err != nil {
				return
			}
			l, err = w.Write(ch)
			if l > 0 {
				count += l
			}
			if err != nil {
				return
			}
		}
	}
""", """	l := 0
	for _, child := range n.children {
		if child == nil {
			continue
		}
		ch, err := child.HashValue()
		if err != nil {
			return count, err
		}
		written, err := w.Write(ch)
		count += written
		if err != nil {
			return count, err
		}
	}
"""))
R("deser-helper", (F, """				buf := make([]byte, common.HashLength)
				l, err := io.ReadFull(r, buf)
				if l == common.HashLength {
					n.children[i] = NewNodeWithFuncs(buf, n.generation, n.valueEncode, n.valueDecode, n.valueHasher)
					if err != nil {
						log.Warnf("ignored an error occurs when Deserialize node: %v", err)
					}
				} else if err != nil {
					return shouldBeNil, err
				}
""", """				buf, err := readHash(r)
				if err != nil {
					return shouldBeNil, err
				}
				n.children[i] = NewNodeWithFuncs(buf, n.generation, n.valueEncode, n.valueDecode, n.valueHasher)
"""), (F, """		buf := make([]byte, common.HashLength)
		l, err := io.ReadFull(r, buf)
		if l == common.HashLength {
			n.valuehash = buf
			if err != nil {
				log.Warnf("ignored an error occurs when Deserialize node: %v", err)
			}
		} else if err != nil {
			return shouldBeNil, err
		}
""", """		if n.valuehash, err = readHash(r); err != nil {
			return shouldBeNil, err
		}
"""), (F, """// Deserialization deserialize the node object from""", """func readHash(r io.Reader) ([]byte, error) {
	buf := make([]byte, common.HashLength)
	if _, err := io.ReadFull(r, buf); err != nil {
		return nil, err
	}
	return buf, nil
}

// Deserialization deserialize the node object from"""))
R("collapse-array", (F, """	_, err := n.HashValue()
	if err != nil {
		return err
	}

	for i := 0; i < childrenLength; i++ {
		n.children[i] = nil
	}
	n.value = nil
	n.valuehash = nil
	n.valuestream = nil
""", """	if _, err := n.HashValue(); err != nil {
		return err
	}
	n.value, n.valuehash, n.valuestream = nil, nil, nil
	for i := range n.children {
		n.children[i] = nil
	}
"""))
R("computehash-split", (F, """	if n.isValueCollapsed() {
		nodehasher.ValueHash = common.BytesToHashP(n.valuehash)
	} else {
		if n.hasValue() {
			valueHash, _, err := n.valueHash()
			if err != nil {
				return nil, err
			}
			nodehasher.ValueHash = common.BytesToHashP(valueHash)
		}
	}
""", """	vh, err := n.currentValueHash()
	if err != nil {
		return nil, err
	}
	if vh != nil {
		nodehasher.ValueHash = common.BytesToHashP(vh)
	}
"""), (F, """func (n *node) canCollapse() bool {""", """func (n *node) currentValueHash() ([]byte, error) {
	if n.isValueCollapsed() {
		return n.valuehash, nil
	}
	if !n.hasValue() {
		return nil, nil
	}
	h, _, err := n.valueHash()
	return h, err
}

func (n *node) canCollapse() bool {"""))
R("merge-helper", (F, """	// locate the only child index
	childid := -1
	for i := 0; i < childrenLength; i++ {
		if n.children[i] != nil {
			if childid == -1 {
				// Record the first child node ID found
				childid = i
			} else {
				// If the child node has been found before, clear the record (not only one child node)
				childid = -1
				break
			}
		}
	}

	if childid >= 0 {
""", """	if childid := n.onlyChild(); childid >= 0 {
"""), (F, """func (n *node) mergeTheLastChild(""", """func (n *node) onlyChild() int {
	only := -1
	for i, child := range n.children {
		if child == nil {
			continue
		}
		if only >= 0 {
			return -1
		}
		only = i
	}
	return only
}

func (n *node) mergeTheLastChild("""))
R("merge-absorb", (F, """		n.prefix = append(n.prefix, byte(childid))
		if len(childnode.prefix) > 0 {
			n.prefix = append(n.prefix, childnode.prefix...)
		}
		n.prefixChanged()

		changed := false
		for i := 0; i < len(childnode.children); i++ {
			if childnode.children[i] != nil {
				n.children[i] = childnode.children[i]
				changed = true
			}
		}
		if changed {
			n.childChanged()
		}
		if childnode.hasValue() {
			n.value = childnode.value
			n.valueChanged()
		}
		return true
""", """		n.absorb(childid, childnode)
		return true
"""), (F, """func (n *node) mergeTheLastChild(""", """func (n *node) absorb(index int, child *node) {
	prefix := make([]byte, 0, len(n.prefix)+1+len(child.prefix))
	prefix = append(prefix, n.prefix...)
	prefix = append(prefix, byte(index))
	prefix = append(prefix, child.prefix...)
	n.prefix = prefix
	n.prefixChanged()
	for i, c := range child.children {
		if c != nil {
			n.children[i] = c
		}
	}
	n.childChanged()
	if child.hasValue() {
		n.value = child.value
		n.valueChanged()
	}
}

func (n *node) mergeTheLastChild("""))
R("iscollapsed-one", (F, """	if isEmptyNodeHash(n.hash) {
		// if len(n.hash) < common.RealCipher.LengthOfHash() {
		return false
	}
	return !n.hasChildren() && !n.hasValue() && len(n.valuehash) == 0
""", """	return !isEmptyNodeHash(n.hash) && len(n.valuehash) == 0 && !n.hasValue() && !n.hasChildren()
"""))
R("isempty-hash", (F, """	return len(h) < common.HashLength || bytes.Compare(h, common.EmptyNodeHashSlice) == 0
""", """	if len(h) < common.HashLength {
		return true
	}
	return bytes.Equal(h, common.EmptyNodeHashSlice)
"""))
R("expandvalue", (F, """	valueBytes, err := adapter.Load(n.valuehash)
	if err != nil {
		return err
	}
	buf := bytes.NewBuffer(valueBytes)
	v, err := n.valueDecode(buf)
	if err != nil {
		return err
	}
	n.value = v
""", """	key := n.valuehash
	valueBytes, err := adapter.Load(key)
	if err != nil {
		return fmt.Errorf("load value: %v", err)
	}
	v, err := n.valueDecode(bytes.NewReader(valueBytes))
	if err == nil {
		n.value = v
	} else {
		return err
	}
"""))
R("hdr-serialize", (F, """	buf := new(bytes.Buffer)
	buf.WriteByte(byte(h.NT))
	if h.NT.HasPrefix() {
		if err := rtl.Encode(h.KeyString, buf); err != nil {
			return err
		}
	}
	if h.NT.HasChildren() {
		if _, err := buf.Write(h.ChildrenFlag[:]); err != nil {
			return err
		}
	}
	if _, err := w.Write(buf.Bytes()); err != nil {
		return err
	}
	return nil
""", """	var buf bytes.Buffer
	buf.WriteByte(byte(h.NT))
	if h.NT.HasPrefix() {
		if err := rtl.Encode(h.KeyString, &buf); err != nil {
			return err
		}
	}
	if h.NT.HasChildren() {
		buf.Write(h.ChildrenFlag[:])
	}
	_, err := w.Write(buf.Bytes())
	return err
"""))
R("hdr-equal", (F, """	return h.NT == o.NT && bytes.Equal(h.KeyString, o.KeyString) && h.ChildrenFlag == o.ChildrenFlag
""", """	if h.NT != o.NT || h.ChildrenFlag != o.ChildrenFlag {
		return false
	}
	return string(h.KeyString) == string(o.KeyString)
"""))
R("cancollapse", (F, """	return !n.isDirty() && bytes.Compare(n.hash, common.EmptyNodeHashSlice) != 0 && !n.isCollapsed()
""", """	if n.isDirty() || n.isCollapsed() {
		return false
	}
	return !bytes.Equal(n.hash, common.EmptyNodeHashSlice)
"""))
