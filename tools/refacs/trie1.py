F = "trie/trie.go"
R("find-early-return", (F, """	if startRemains == 0 {
		// input prefix is starting with current node's prefix
		if inRemains == 0 {
			// if current node prefix matches with input prefix, return current node value
			return startNode.value, startNode.value != nil, nil
		}
""", """	if startRemains != 0 {
		return nil, false, nil
	}
	{
		if inRemains == 0 {
			v := startNode.value
			return v, v != nil, nil
		}
"""), (F, """		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
	} else {
		// there're remains in current node's prefix not match with input prefix, not found
		return nil, false, nil
	}
""", """		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
	}
"""))
R("find-helper-match", (F, """	suffix := prefixString[offset:]
	startPrefixLength := startNode.prefixLength()
	inPrefixLength := len(suffix)
	matchLength := startNode.matchPrefix(suffix)
	if matchLength > startPrefixLength || matchLength > inPrefixLength {
		panic(fmt.Errorf("matchLength=%d, startPrefixLength=%d, inPrefixLength=%d",
			matchLength, startPrefixLength, inPrefixLength))
	}
	inRemains := inPrefixLength - matchLength
	startRemains := startPrefixLength - matchLength
""", """	suffix, matchLength, inRemains, startRemains := startNode.splitKey(prefixString, offset)
"""), (F, """func (t *Trie) putLocked(""", """func (n *node) splitKey(prefixString []byte, offset int) (suffix []byte, match, inRemains, nodeRemains int) {
	suffix = prefixString[offset:]
	nodeLength := n.prefixLength()
	match = n.matchPrefix(suffix)
	if match > nodeLength || match > len(suffix) {
		panic(fmt.Errorf("matchLength=%d, startPrefixLength=%d, inPrefixLength=%d", match, nodeLength, len(suffix)))
	}
	return suffix, match, len(suffix) - match, nodeLength - match
}

func (t *Trie) putLocked("""))
R("find-child-var", (F, """		childIndex := int(suffix[matchLength])
		if startNode.children[childIndex] == nil {
			// no child in the path of prefix, return
			return nil, false, nil
		}
		// expand child first
		if startNode.children[childIndex].isCollapsed() {
			if err := t.expandNode(startNode.children[childIndex]); err != nil {
				log.Errorf("expand %s error: %s", startNode.children[childIndex], err)
				return nil, false, err
			}
		}

		// t.lruCache.Add(startNode.children[childIndex], nil)
		if trace != nil {
			*trace = append(*trace, nodePosition{suffix[matchLength], startNode.children[childIndex]})
		}
		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
""", """		nibble := suffix[matchLength]
		child := startNode.children[nibble]
		if child == nil {
			return nil, false, nil
		}
		if child.isCollapsed() {
			if err := t.expandNode(child); err != nil {
				log.Errorf("expand %s error: %s", child, err)
				return nil, false, err
			}
		}
		if trace != nil {
			*trace = append(*trace, nodePosition{pos: nibble, nodeInPos: child})
		}
		next := offset + matchLength + 1
		return t.find(child, prefixString, next, trace)
"""))
R("find-iterative", (F, """func (t *Trie) find(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool, error) {
	if err""", """func (t *Trie) find(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool, error) {
  for {
	if err"""), (F, """		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
	} else {
		// there're remains in current node's prefix not match with input prefix, not found
		return nil, false, nil
	}
""", """		startNode, offset = startNode.children[childIndex], offset+matchLength+1
	} else {
		// there're remains in current node's prefix not match with input prefix, not found
		return nil, false, nil
	}
  }
"""))
R("find-subslice", (F, """		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
""", """		return t.find(startNode.children[childIndex], suffix[matchLength+1:], 0, trace)
"""))
R("insert-idx", (F, """		nextNode := startNode.children[int(suffix[matchLength])]
		if nextNode == nil {
			// create new node if there's no child for the input prefix
			valueNode := t.createNode(startNode, suffix[matchLength+1:], int(suffix[matchLength]))
			_, _, delta := valueNode.setValue(value)
			t.valueCount = t.valueCount + delta
			return true, false, startNode
		} else {
			// expand current child node
			if err := t.fullExpand(nextNode); err != nil {
				return false, false, startNode
			}
		}
		// go down the path by child node
		nchanged, nneedReplace, nchangeRoot := t.insert(nextNode, prefixString, offset+matchLength+1, value)
		if nchanged {
			startNode.childChanged()
			if nneedReplace {
				startNode.setChild(int(suffix[matchLength]), nchangeRoot)
			}
		}
""", """		idx, rest := int(suffix[matchLength]), suffix[matchLength+1:]
		nextNode := startNode.children[idx]
		if nextNode == nil {
			t.setCounted(t.createNode(startNode, rest, idx), value)
			return true, false, startNode
		}
		if err := t.fullExpand(nextNode); err != nil {
			return false, false, startNode
		}
		// go down the path by child node
		nchanged, nneedReplace, nchangeRoot := t.insert(nextNode, prefixString, offset+matchLength+1, value)
		if !nchanged {
			return false, false, nextNode
		}
		if nneedReplace {
			startNode.setChild(idx, nchangeRoot)
		}
		startNode.childChanged()
"""), (F, """func (t *Trie) insert(""", """func (t *Trie) setCounted(n *node, value interface{}) bool {
	changed, _, delta := n.setValue(value)
	t.valueCount += delta
	return changed
}

func (t *Trie) insert("""))
R("insert-split-helper", (F, """	newNode := t.createNode(startNode, suffix[:matchLength], -1)

	// add startNode to newNode.children[startNode.prefix[matchLength]]
	newNode.setChild(int(startNode.prefix[matchLength]), startNode)
	if err := startNode.chopPrefixHead(matchLength + 1); err != nil {
		panic(fmt.Errorf("startNode.chopPrefixHead(%d) error: %v", matchLength+1, err.Error()))
	}

	if inRemains""", """	newNode := t.splitNode(startNode, suffix, matchLength)
	if inRemains"""), (F, """func (t *Trie) deleteLocked(""", """func (t *Trie) splitNode(old *node, suffix []byte, at int) *node {
	parent := t.createNode(old, suffix[:at], -1)
	parent.setChild(int(old.prefix[at]), old)
	if err := old.chopPrefixHead(at + 1); err != nil {
		panic(fmt.Errorf("startNode.chopPrefixHead(%d) error: %v", at+1, err.Error()))
	}
	return parent
}

func (t *Trie) deleteLocked("""))
R("insert-value-node", (F, """	if inRemains == 0 {
		// if no more input prefix remains, value should set to newNode
		_, _, delta := newNode.setValue(value)
		t.valueCount = t.valueCount + delta
	} else {
		// create new valueNode and add to newNode.children[suffix[matchLength]]
		valueNode := t.createNode(newNode, suffix[matchLength+1:], int(suffix[matchLength]))
		_, _, delta := valueNode.setValue(value)
		t.valueCount = t.valueCount + delta
	}
""", """	valueNode := newNode
	if inRemains > 0 {
		valueNode = t.createNode(newNode, suffix[matchLength+1:], int(suffix[matchLength]))
	}
	_, _, delta := valueNode.setValue(value)
	t.valueCount += delta
"""))
R("delete-negate", (F, """	if startRemains == 0 {
		if inRemains == 0 {
			// prefix matchs the current node
			return t.removeValue(startNode)
		}
		// input""", """	if startRemains > 0 {
		return false, false, nil
	}
	{
		if inRemains <= 0 {
			// prefix matchs the current node
			return t.removeValue(startNode)
		}
		// input"""), (F, """		return nchanged, false, oldValue
	}
	// startRemains > 0, target prefix not exist in the trie
	return false, false, nil
}""", """		return nchanged, false, oldValue
	}
}"""))
R("delete-child-helper", (F, """		if nchanged {
			startNode.childChanged()
			if nshouldRemove {
				// remove the child node
				// log.Debugf("TRIE remove node: %s", nextNode)
				startNode.setChild(int(suffix[matchLength]), nil)
			}
		}

		if !startNode.hasChildren() && !startNode.hasValue() {
			// At this time, it is necessary to judge whether the current node has no child node
			// and value at the same time, so as to confirm that the node can be deleted
			return nchanged, true, oldValue
		}

		startNode.mergeTheLastChild(t)

		return nchanged, false, oldValue
""", """		if nchanged {
			childDeleted(startNode, int(suffix[matchLength]), nshouldRemove)
		}
		useless := !startNode.hasValue() && !startNode.hasChildren()
		if !useless {
			startNode.mergeTheLastChild(t)
		}
		return nchanged, useless, oldValue
"""), (F, """func (t *Trie) expandTrie(""", """func childDeleted(parent *node, index int, remove bool) {
	if remove {
		parent.setChild(index, nil)
	}
	parent.childChanged()
}

func (t *Trie) expandTrie("""))
R("iterate-save-range", (F, """	for i := 0; i < childrenLength; i++ {
		if node.children[i] != nil {
			if err := t.iterateSave(node.children[i]); err != nil {
				return err
			}
		}
	}
	if node.isDirty() {
		if err := t.saveOneNode(node); err != nil {
			return err
		}
	} else {
		if t.canReload()""", """	for _, child := range node.children {
		if child == nil {
			continue
		}
		if err := t.iterateSave(child); err != nil {
			return err
		}
	}
	if node.isDirty() {
		return t.saveOneNode(node)
	} else {
		if t.canReload()"""))
R("iterate-save-helper", (F, """	} else {
		if t.canReload() && node.shouldCollapse(t.gen, maxGenSize) {
			err := node.collapse()
			if err != nil {
				log.Errorf("[COLLAPSE] err %v", err)
			}
		} else {
			if t.valueAdapter != nil && node.shouldCollapseValue(maxValLength) {
				_ = node.collapseValue()
			}
		}
	}
	return nil
}
""", """	} else {
		t.releaseClean(node)
	}
	return nil
}

func (t *Trie) releaseClean(node *node) {
	switch {
	case t.canReload() && node.shouldCollapse(t.gen, maxGenSize):
		if err := node.collapse(); err != nil {
			log.Errorf("[COLLAPSE] err %v", err)
		}
	case t.valueAdapter != nil && node.shouldCollapseValue(maxValLength):
		_ = node.collapseValue()
	}
}
"""))
R("save-split", (F, """	vh, vb, err := node.valueHash()
	if err != nil {
		return fmt.Errorf("encode node value error: %v", err)
	}
	// if len(hash)<common.HashLength, we don't save it to database
	if vh != nil && len(vh) >= common.HashLength {
		if t.valueAdapter != nil {
			if err = t.valueAdapter.Save(vh, vb); err != nil {
				return fmt.Errorf("save node value@[%x] error: %v", vh, err)
			}
		}
	}
	// save node
""", """	if err := t.saveValue(node); err != nil {
		return err
	}
	var err error
	// save node
"""), (F, """func (t *Trie) saveOneNode(""", """func (t *Trie) saveValue(node *node) error {
	vh, vb, err := node.valueHash()
	if err != nil {
		return fmt.Errorf("encode node value error: %v", err)
	}
	if t.valueAdapter == nil || len(vh) < common.HashLength {
		return nil
	}
	if err = t.valueAdapter.Save(vh, vb); err != nil {
		return fmt.Errorf("save node value@[%x] error: %v", vh, err)
	}
	return nil
}

func (t *Trie) saveOneNode("""))
R("save-hash-first", (F, """	buf := common.BytesBufferPool.Get().(*bytes.Buffer)
	defer common.BytesBufferPool.Put(buf)
	buf.Reset()
	err = rtl.Encode(node, buf)
	if err != nil {
		return fmt.Errorf("encode %s error: %v", node, err)
	}

	h, err := node.HashValue()
	if err != nil {
		return fmt.Errorf("hash %s error: %v", node, err)
	}
	if t.nodeAdapter != nil {""", """	buf := common.BytesBufferPool.Get().(*bytes.Buffer)
	buf.Reset()
	defer func() { common.BytesBufferPool.Put(buf) }()
	h, err := node.HashValue()
	if err != nil {
		return fmt.Errorf("hash %s error: %v", node, err)
	}
	if err = rtl.Encode(node, buf); err != nil {
		return fmt.Errorf("encode %s error: %v", node, err)
	}
	if t.nodeAdapter != nil {"""))
R("save-local-buffer", (F, """	buf := common.BytesBufferPool.Get().(*bytes.Buffer)
	defer common.BytesBufferPool.Put(buf)
	buf.Reset()
	err = rtl.Encode(node, buf)
""", """	buf := new(bytes.Buffer)
	err = rtl.Encode(node, buf)
"""))
R("clone-helper", (F, """	return &Trie{
		root: NewNodeWithFuncs(rootHash, t.gen, t.root.valueEncode,
			t.root.valueDecode, t.root.valueHasher),
		nodeAdapter:  t.nodeAdapter,
		valueAdapter: t.valueAdapter,
		gen:          t.gen,
		valueCount:   t.valueCount,
	}
}
""", """	return t.copyAt(rootHash, t.gen, t.nodeAdapter, t.valueAdapter)
}

func (t *Trie) copyAt(rootHash []byte, gen uint64, na, va db.DataAdapter) *Trie {
	c := &Trie{nodeAdapter: na, valueAdapter: va, gen: gen}
	c.root = NewNodeWithFuncs(rootHash, gen, t.root.valueEncode, t.root.valueDecode, t.root.valueHasher)
	c.valueCount = t.valueCount
	return c
}
"""), (F, """	return &Trie{
		root: NewNodeWithFuncs(root, 0, t.root.valueEncode,
			t.root.valueDecode, t.root.valueHasher),
		nodeAdapter:  na,
		valueAdapter: va,
		gen:          0,
		valueCount:   t.valueCount,
	}, nil
""", """	return t.copyAt(root, 0, na, va), nil
"""))
R("rebase-commit-hash", (F, """	if err := t.commitLocked(); err != nil {
		return nil, err
	}
	root, err := t.hashLocked()
	if err != nil {
		return nil, err
	}
	na, err""", """	root, err := t.commitAndHashLocked()
	if err != nil {
		return nil, err
	}
	na, err"""), (F, """func (t *Trie) CommitAndHash() ([]byte, error) {""", """func (t *Trie) commitAndHashLocked() ([]byte, error) {
	if err := t.commitLocked(); err != nil {
		return nil, err
	}
	return t.hashLocked()
}

func (t *Trie) CommitAndHash() ([]byte, error) {"""))
R("expand-node-helper", (F, """	hashes := node.hash
	nodebytes, err := t.nodeAdapter.Load(hashes)
	if err != nil {
		return fmt.Errorf("load %s data error: %v", node, err)
	}
	buf := rtl.NewValueReader(bytes.NewBuffer(nodebytes), 256)
	// node stays collapsed until its content has been completely read
	loaded := NewNodeWithFuncs(hashes, node.generation, node.valueEncode, node.valueDecode, node.valueHasher)
	if err = rtl.Decode(buf, loaded); err != nil {
		return fmt.Errorf("decode nodebytes@[%x] DA:%s error: %v", hashes, t.nodeAdapter, err)
	}
	node.prefix""", """	hashes := node.hash
	loaded, nodebytes, err := t.loadNode(node)
	if err != nil {
		return err
	}
	node.prefix"""), (F, """func (t *Trie) expandNode(""", """func (t *Trie) loadNode(node *node) (*node_, []byte, error) {
	nodebytes, err := t.nodeAdapter.Load(node.hash)
	if err != nil {
		return nil, nil, fmt.Errorf("load %s data error: %v", node, err)
	}
	buf := rtl.NewValueReader(bytes.NewBuffer(nodebytes), 256)
	loaded := NewNodeWithFuncs(node.hash, node.generation, node.valueEncode, node.valueDecode, node.valueHasher)
	if err = rtl.Decode(buf, loaded); err != nil {
		return nil, nil, fmt.Errorf("decode nodebytes@[%x] DA:%s error: %v", node.hash, t.nodeAdapter, err)
	}
	return loaded, nodebytes, nil
}

type node_ = node

func (t *Trie) expandNode("""))
R("full-expand-switch", (F, """	if n.isCollapsed() {
		if err := t.expandNode(n); err != nil {
			log.Errorf("expand %s error: %s", n, err)
			return err
		}
	}
	if n.isValueCollapsed() {
		if err := t.expandNodeValue(n); err != nil {
			log.Errorf("expand node value %s error: %s", n, err)
			return err
		}
	}
	return nil
""", """	var err error
	if n.isCollapsed() {
		err = t.expandNode(n)
	}
	if err == nil && n.isValueCollapsed() {
		err = t.expandNodeValue(n)
	}
	if err != nil {
		log.Errorf("expand %s error: %s", n, err)
	}
	return err
"""))
R("dump-helpers", (F, """		// dump node
		nodebytes, err := t.nodeAdapter.Load(n.hash)
		if err != nil {
			return fmt.Errorf("load node bytes at:%x of root:%x failed: %v", n.hash, rootHash, err)
		}
		if len(nodebytes) > 0 {
			if err = na.Save(n.hash, nodebytes); err != nil {
				return fmt.Errorf("dump node bytes at:%x of root:%x failed: %v", n.hash, rootHash, err)
			}
		}
""", """		// dump node
		if _, err := copyEntry(t.nodeAdapter, na, n.hash); err != nil {
			return fmt.Errorf("dump node bytes at:%x of root:%x failed: %v", n.hash, rootHash, err)
		}
"""), (F, """			valuebytes, err := t.valueAdapter.Load(n.valuehash)
			if err != nil {
				return fmt.Errorf("load node value bytes at:%x of root:%x - %x failed: %v",
					n.valuehash, rootHash, n.hash, err)
			}
			if len(valuebytes) > 0 && va != nil {
				if err = va.Save(n.valuehash, valuebytes); err != nil {
					return fmt.Errorf("dump node value bytes at:%x of root:%x - %x failed: %v",
						n.valuehash, rootHash, n.hash, err)
				}
			}
""", """			valuebytes, err := copyEntry(t.valueAdapter, va, n.valuehash)
			if err != nil {
				return fmt.Errorf("dump node value bytes at:%x of root:%x - %x failed: %v",
					n.valuehash, rootHash, n.hash, err)
			}
"""), (F, """func (t *Trie) Dump(""", """func copyEntry(from, to db.DataAdapter, key []byte) ([]byte, error) {
	data, err := from.Load(key)
	if err != nil {
		return nil, err
	}
	if len(data) == 0 || to == nil {
		return data, nil
	}
	return data, to.Save(key, data)
}

func (t *Trie) Dump("""))
R("proof-trace-helper", (F, """	nodeChild := nodePosition{16, nil}
	for i := len(trace) - 1; i >= 0; i-- {
		nd := trace[i]
		if nd.nodeInPos.isCollapsed() {
			if err := t.expandNode(nd.nodeInPos); err != nil {
				log.Errorf("expand %s error: %s", nd.nodeInPos, err)
				return nil, proofs, false
			}
		}

		err := nd.nodeInPos.GetProof(ProofType(nodeChild.pos), &proofs)
		if err != nil {
			log.Errorf("get proof from the child failed: %v", err)
			return val, nil, false
		}

		nodeChild = nd
	}
	return val, proofs, true
""", """	below := byte(16)
	for i := len(trace); i > 0; {
		i--
		n := trace[i].nodeInPos
		if n.isCollapsed() {
			if err := t.expandNode(n); err != nil {
				log.Errorf("expand %s error: %s", n, err)
				return nil, proofs, false
			}
		}
		if err := n.GetProof(ProofType(below), &proofs); err != nil {
			log.Errorf("get proof from the child failed: %v", err)
			return val, nil, false
		}
		below = trace[i].pos
	}
	return val, proofs, true
"""))
R("existence-type", (F, """		if i == l-1 {
			// The last node requires proof existence
			err = trace[i].nodeInPos.GetProof(ProofExistence, &proofs)
		} else {
			// The remaining nodes are proof child nodes
			err = trace[i].nodeInPos.GetProof(ProofType(nodeChild.pos), &proofs)
		}
		if err != nil {""", """		pt := ProofExistence
		if i < l-1 {
			pt = ProofType(nodeChild.pos)
		}
		if err = trace[i].nodeInPos.GetProof(pt, &proofs); err != nil {"""))
R("put-inline", (F, """	changed, needReplace, changedRoot := t.insert(t.root, prefix, 0, value)
	if changed && needReplace {
		t.root = changedRoot
	}
	return changed
""", """	changed, needReplace, changedRoot := t.insert(t.root, prefix, 0, value)
	if !changed {
		return false
	}
	if needReplace {
		t.root = changedRoot
	}
	return true
"""))
R("remove-value-order", (F, """	var delta int
	changed, oldValue, delta = node.setValue(nil)
	t.valueCount = t.valueCount + delta
	if !node.hasChildren() {
		// when value removed, if current node has no child, then the node should be removed from trie
		return changed, true, oldValue
	}
	merged := node.mergeTheLastChild(t)
	changed = changed || merged
	return
""", """	c, old, delta := node.setValue(nil)
	if delta != 0 {
		t.valueCount += delta
	}
	if node.hasChildren() {
		merged := node.mergeTheLastChild(t)
		return c || merged, false, old
	}
	return c, true, old
"""))
R("lock-helper", (F, """func (t *Trie) Get(key []byte) (interface{}, bool) {
	t.lock.Lock()
	defer t.lock.Unlock()
	prefix := keyToPrefix(key)
	return t.get(t.root, prefix, 0, nil)
}
""", """func (t *Trie) Get(key []byte) (v interface{}, ok bool) {
	t.locked(func() { v, ok = t.get(t.root, keyToPrefix(key), 0, nil) })
	return
}

func (t *Trie) locked(f func()) {
	t.lock.Lock()
	defer t.lock.Unlock()
	f()
}
"""))
R("iterall-loop", (F, """	it := t.ValueIterator()
	for it.Next() {
		k, v := it.Current()
		if noNil && (k == nil || v == nil) {
			continue
		}
		if !callback(k, v) {
			break
		}
	}
	return
""", """	for it := t.ValueIterator(); it.Next(); {
		k, v := it.Current()
		if !noNil || (k != nil && v != nil) {
			if !callback(k, v) {
				return
			}
		}
	}
"""))
