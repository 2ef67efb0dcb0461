W = "trie/historytree.go"
R("append-nested", (W, """	if key != h.expecting {
		return common.ErrIllegalParams
	}

	if len(value) == 0 {
		return common.ErrIllegalStatus
	}
""", """	switch {
	case h.expecting != key:
		return common.ErrIllegalParams
	case len(value) < 1:
		return common.ErrIllegalStatus
	}
"""))
R("append-root-helper", (W, """	current := h.root
	if current == nil {
		h.root = NewTreeNode()
		current = h.root
		current.isLeaf = false
	}
""", """	current := h._ensureRoot()
"""), (W, """func (h *HistoryTree) Has(key""", """func (h *HistoryTree) _ensureRoot() *TreeNode {
	if h.root == nil {
		n := NewTreeNode()
		n.isLeaf = false
		h.root = n
	}
	return h.root
}

func (h *HistoryTree) Has(key"""))
R("append-expect-set", (W, """	if changed {
		h.expecting++
	}

	return nil
}

func (h *HistoryTree) Has""", """	if !changed {
		return nil
	}
	h.expecting = key + 1
	return nil
}

func (h *HistoryTree) Has"""))
R("has-via-get", (W, """	_, exist := h._get(key)
	return exist
}""", """	if _, exist := h._get(key); exist {
		return true
	}
	return false
}"""))
R("get-early", (W, """	_, value, exist, err = h.root.traceDescendant(h.adapter, prefix, 0, false, nil)
	if err != nil {
		return nil, false
	}
	return common.CopyBytes(value), exist
""", """	if _, value, exist, err = h.root.traceDescendant(h.adapter, prefix, 0, false, nil); err == nil {
		return common.CopyBytes(value), exist
	}
	return nil, false
"""), )
R("commit-loop-range", (W, """	for i := 0; i < childrenLength; i++ {
		if n.Children[i] != nil && n.Children[i].isDirty {
			if err := n.Children[i].commitNode(adapter); err != nil {
				return err
			}
		}
	}
""", """	for _, child := range n.Children {
		if child == nil || !child.isDirty {
			continue
		}
		if err := child.commitNode(adapter); err != nil {
			return err
		}
	}
"""))
R("commit-merge-leaf", (W, """	if n.isLeaf {
		if err = n.saveFull(adapter); err == nil {
			n.isDirty = false
		}
		return err
	}
	for i := 0; i < childrenLength; i++ {
		if n.Children[i] != nil && n.Children[i].isDirty {
			if err := n.Children[i].commitNode(adapter); err != nil {
				return err
			}
		}
	}
	if err = n.saveFull(adapter); err == nil {
		n.isDirty = false
	}
	return err
""", """	if !n.isLeaf {
		if err = n.commitChildren(adapter); err != nil {
			return err
		}
	}
	if err = n.saveFull(adapter); err != nil {
		return err
	}
	n.isDirty = false
	return nil
"""), (W, """// Add a method to save TreeNode""", """func (n *TreeNode) commitChildren(adapter db.DataAdapter) error {
	for i := 0; i < childrenLength; i++ {
		if n.Children[i] != nil && n.Children[i].isDirty {
			if err := n.Children[i].commitNode(adapter); err != nil {
				return err
			}
		}
	}
	return nil
}

// Add a method to save TreeNode"""))
R("collapse-early", (W, """	if n.isDirty {
		err := n.saveFull(adapter)
		if err != nil {
			return err
		}
		if n.isDirty {
			// save failed with no error??
			return nil
		}
	}
""", """	if err := n.saveFull(adapter); err != nil {
		return err
	}
	if n.isDirty {
		// save failed with no error??
		return nil
	}
"""))
R("savefull-entire-helper", (W, """	saveEntire := false
	lastIndex := -1
	if n.isLeaf {
		hasLeaf, missingLeaf, lastLeaf := n.checkLeafs()
		if hasLeaf == false || missingLeaf == true || lastLeaf < (childrenLength-1) {
			// If there is no leaf data or missing leaf data (i.e. not all nodes), you need to
			// save the whole node data
			saveEntire = true
			lastIndex = lastLeaf
		}
	} else {
		hasChild, missingChild, lastChild := n.checkChildren()
		if hasChild == false || missingChild == true || lastChild < (childrenLength-1) {
			// save the whole node data
			saveEntire = true
			lastIndex = lastChild
		}
	}

	if saveEntire {
		return n.saveEntireNode(root, lastIndex, adapter)
	}
""", """	var has, missing bool
	var last int
	if n.isLeaf {
		has, missing, last = n.checkLeafs()
	} else {
		has, missing, last = n.checkChildren()
	}
	if !has || missing || last < childrenLength-1 {
		return n.saveEntireNode(root, last, adapter)
	}
"""))
R("savefull-tail", (W, """	if err = adapter.Save(root, buf.Bytes()); err != nil {
		return err
	} else {
		// log.Infof("save full node(%s) Key:%x", n.NoneRecursiveString(), root)
	}
	n.isDirty = false
	return err
}
""", """	err = adapter.Save(root, buf.Bytes())
	if err == nil {
		n.isDirty = false
	}
	return err
}
"""))
R("readfull-switch", (W, """	if content[0] == 0x1 {
		loaded.isLeaf = true
	} else if content[0] == 0x0 {
		loaded.isLeaf = false
	} else if content[0] == 0xff {
		loadEntire = true
	} else {
		return common.ErrIllegalStatus
	}
""", """	switch kind := content[0]; kind {
	case 0xff:
		loadEntire = true
	case 0x0, 0x1:
		loaded.isLeaf = kind == 0x1
	default:
		return common.ErrIllegalStatus
	}
"""))
R("readfull-assign", (W, """	*n = *loaded
	return nil
}

// Remove all ancestors""", """	n.isDirty, n.isLeaf = loaded.isDirty, loaded.isLeaf
	n.Branchs = loaded.Branchs
	n.Children, n.Leafs = loaded.Children, loaded.Leafs
	return nil
}

// Remove all ancestors"""))
R("clear-range", (W, """	for i := 0; i <= l; i++ {
		delete(n.Branchs, string(prefix[:l-i]))
	}
	return nil
""", """	for l >= 0 {
		delete(n.Branchs, string(prefix[:l]))
		l--
	}
	return nil
"""))
R("putchild-helper", (W, """	n.Children[index] = child
	prefix, _ := ToBinary(byte(index), ValueKeyLength)
	_ = n.clearAncestors(prefix)
	n.isDirty = true
	return nil
}
""", """	n.Children[index] = child
	n.touched(byte(index))
	return nil
}

// touched drops what depends on the descendant at index
func (n *TreeNode) touched(index byte) {
	prefix, _ := ToBinary(index, ValueKeyLength)
	_ = n.clearAncestors(prefix)
	n.isDirty = true
}
"""), (W, """	n.Leafs[index] = common.CopyBytes(value)
	// fmt.Printf("putLeaf(%x, %x, %t)\\n%v\\n", index, value, appendCheck, n)
	prefix, _ := ToBinary(byte(index), ValueKeyLength)
	_ = n.clearAncestors(prefix)
	n.isDirty = true
	return nil
""", """	n.Leafs[index] = common.CopyBytes(value)
	n.touched(byte(index))
	return nil
"""))
R("trace-children-var", (W, """		if n.Children[index] != nil {
			changed, value, exist, err = n.Children[index].traceDescendant(adapter, prefixString, offset+1,
				append, toBeAppend)
			if changed {
				prefixInNode, _ := ToBinary(prefixString[offset], ValueKeyLength)
				_ = n.clearAncestors(prefixInNode)
				n.isDirty = true
			}
			return
		} else {
			if append {""", """		if child := n.Children[index]; child != nil {
			changed, value, exist, err = child.traceDescendant(adapter, prefixString, offset+1,
				append, toBeAppend)
			if !changed {
				return changed, value, exist, err
			}
			prefixInNode, _ := ToBinary(prefixString[offset], ValueKeyLength)
			_ = n.clearAncestors(prefixInNode)
			n.isDirty = true
			return changed, value, exist, err
		} else {
			if append {"""))
R("trace-leaf-early", (W, """	if n.IsLeaf() {
		if append {
			err = n.putLeaf(index, toBeAppend, false)
			if err != nil {
				return false, nil, false, err
			} else {
				return true, n.Leafs[index], true, nil
			}
		} else {
			exist = n.Leafs[index] != nil
			return false, n.Leafs[index], exist, nil
		}
	} else {""", """	if n.IsLeaf() {
		if !append {
			return false, n.Leafs[index], n.Leafs[index] != nil, nil
		}
		if err = n.putLeaf(index, toBeAppend, false); err != nil {
			return false, nil, false, err
		}
		return true, n.Leafs[index], true, nil
	} else {"""))
R("merge-dedupe", (W, """					if n.isLeaf {
						n.Leafs[p] = common.CopyBytes(h[:])
					} else {
						if n.Children[p] == nil {
							// Creating a node with only root hash is equal to a collapsed node
							n.Children[p] = NewTreeNode()
							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
								return err
							}
						} else {
							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
								return err
							}
						}
					}
""", """					if n.isLeaf {
						n.Leafs[p] = common.CopyBytes(h[:])
					} else {
						if n.Children[p] == nil {
							// Creating a node with only root hash is equal to a collapsed node
							n.Children[p] = NewTreeNode()
						}
						if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
							return err
						}
					}
"""))
R("mergeproof-loop", (W, """		} else {
			// merge when the node already exists
			if i == 0 {
				// err = nodes[i].mergeProof(h.adapter, int(prefix[last-i]), value, nil, proofs[i].ChildProofs)
				err = nodes[i]._mergeHashItems(h.adapter, int(prefix[last-i]), value, nil, items[pos:pos+ValueKeyLength])
			} else {
				// err = nodes[i].mergeProof(h.adapter, int(prefix[last-i]), nil, nodes[i-1], proofs[i].ChildProofs)
				err = nodes[i]._mergeHashItems(h.adapter, int(prefix[last-i]), nil, nodes[i-1], items[pos:pos+ValueKeyLength])
			}
			if err != nil {
				return fmt.Errorf("_mergeHashItems(%d) at %d error: %v", int(prefix[last-i]), i, err)
			}
		}
""", """		} else {
			// merge when the node already exists
			var v []byte
			var child *TreeNode
			if i == 0 {
				v = value
			} else {
				child = nodes[i-1]
			}
			if err = nodes[i]._mergeHashItems(h.adapter, int(prefix[last-i]), v, child, items[pos:pos+ValueKeyLength]); err != nil {
				return fmt.Errorf("_mergeHashItems(%d) at %d error: %v", int(prefix[last-i]), i, err)
			}
		}
"""))
R("mergeproof-check-helper", (W, """	proofsKey := proofs.BigKey()
	if proofsKey.Cmp(new(big.Int).SetUint64(key)) != 0 {
		return fmt.Errorf("key and proofs is not match, KEY:%d but Proofs.BigKey():%s", key, proofsKey)
	}

	// Check whether it is the content of the same tree
	root, err := h._hashValue()
	if err != nil {
		return fmt.Errorf("get history tree root hash error: %v", err)
	}
	proofRoot, err := proofs.Proof(common.BytesToHash(value))
	if err != nil {
		return fmt.Errorf("get proofs(%s) root error: %v", proofs, err)
	}
	if !bytes.Equal(root, proofRoot) {
		return errors.New("proofs is not created from the same tree")
	}
""", """	if err := h._checkProof(key, value, proofs); err != nil {
		return err
	}
"""), (W, """func (h *HistoryTree) _commit() (err error) {""", """// Check whether it is the content of the same tree
func (h *HistoryTree) _checkProof(key uint64, value []byte, proofs ProofChain) error {
	proofsKey := proofs.BigKey()
	if proofsKey.Cmp(new(big.Int).SetUint64(key)) != 0 {
		return fmt.Errorf("key and proofs is not match, KEY:%d but Proofs.BigKey():%s", key, proofsKey)
	}
	root, err := h._hashValue()
	if err != nil {
		return fmt.Errorf("get history tree root hash error: %v", err)
	}
	proofRoot, err := proofs.Proof(common.BytesToHash(value))
	if err != nil {
		return fmt.Errorf("get proofs(%s) root error: %v", proofs, err)
	}
	if !bytes.Equal(root, proofRoot) {
		return errors.New("proofs is not created from the same tree")
	}
	return nil
}

func (h *HistoryTree) _commit() (err error) {"""))
R("locate-node-inline", (W, """			if node.Leafs[int(prefix[i])] == nil {
				return node, -1, nil, false, nil
			} else {
				return node, index, node.Leafs[index], true, nil
			}
		} else {""", """			leaf := node.Leafs[index]
			if leaf != nil {
				return node, index, leaf, true, nil
			}
			return node, -1, nil, false, nil
		} else {"""))
R("newtree-guard", (W, """	var expecting uint64
	var rootNode *TreeNode
	if len(rootHash) != common.HashLength || bytes.Compare(common.NilHashSlice, rootHash) == 0 {
		// root node is nil
	} else {
		rootNode = NewTreeNode()""", """	var expecting uint64
	var rootNode *TreeNode
	if len(rootHash) == common.HashLength && !bytes.Equal(common.NilHashSlice, rootHash) {
		rootNode = NewTreeNode()"""))
R("getproof-loop", (W, """	for i := len(tracers) - 1; i >= 0; i-- {
		node := tracers[i].nodeInPos
		if _, _, err := node.appendToProof(mp, index); err != nil {
			log.Errorf("HistoryTree.MakeProof error: %v", err)
			return nil, nil, false
		}
		index = int(tracers[i].pos)
	}
""", """	for i := range tracers {
		tr := tracers[len(tracers)-1-i]
		if _, _, err := tr.nodeInPos.appendToProof(mp, index); err != nil {
			log.Errorf("HistoryTree.MakeProof error: %v", err)
			return nil, nil, false
		}
		index = int(tr.pos)
	}
"""))
R("collapsebefore-find", (W, """	lastNoneZeroPos := HistoryTreeDepth
	for ; lastNoneZeroPos > 0; lastNoneZeroPos-- {
		if prefix[lastNoneZeroPos-1] != 0x0 {
			break
		}
	}
	if last""", """	lastNoneZeroPos := HistoryTreeDepth
	for lastNoneZeroPos > 0 && prefix[lastNoneZeroPos-1] == 0x0 {
		lastNoneZeroPos--
	}
	if last"""))
R("collapsebefore-sibling", (W, """	if parentNode.Children[index-1] == nil {
		return ErrMissingChild
	}
	if parentNode.Children[index-1].isDirty {
		return common.ErrIllegalStatus
	}
	// fmt.Printf("going to collapse node at %s.%d\\n", prefixToHexstring(prefixString[:lastNoneZeroPos-1]), index-1)
	return parentNode.Children[index-1].collapse(h.adapter)
""", """	sibling := parentNode.Children[index-1]
	if sibling == nil {
		return ErrMissingChild
	} else if sibling.isDirty {
		return common.ErrIllegalStatus
	}
	return sibling.collapse(h.adapter)
"""))
