S("t02-clean-early", "T02", "a database error while a commit stores a node, followed by a retry of the commit",
  "a node whose store failed is marked clean, so the retried commit reports success without the node being stored",
  [("trie/trie.go", '''	if t.nodeAdapter != nil {
		if err = t.nodeAdapter.Save(h, buf.Bytes()); err != nil {''', '''	node.dirty = false
	if t.nodeAdapter != nil {
		if err = t.nodeAdapter.Save(h, buf.Bytes()); err != nil {'''),
   ("trie/trie.go", '''	// log.Debugf("saved %s: %x", node, h)
	node.dirty = false
	return nil''', '''	// log.Debugf("saved %s: %x", node, h)
	return nil''')],
  "trie", '''
	fd := &zzFail{Database: db.NewMemDB(), n: -1}
	na, va := db.NewKeyPrefixedDataAdapter(fd, []byte("n")), db.NewKeyPrefixedDataAdapter(fd, []byte("v"))
	typ := reflect.TypeOf((*zzVal)(nil))
	tr := NewTrieWithValueType(nil, na, va, typ)
	for i := 0; i < 8; i++ {
		tr.Put([]byte{byte(i * 16), byte(i)}, &zzVal{string(rune(65 + i))})
	}
	fd.n = 3
	for i := 0; i < 50; i++ {
		if err := tr.Commit(); err == nil {
			break
		}
		fd.n = 3 + 4*i
	}
	fd.n = -1
	if err := tr.Commit(); err != nil {
		t.Fatal(err)
	}
	h, err := tr.HashValue()
	if err != nil {
		t.Fatal(err)
	}
	re := NewTrieWithValueType(h, na, va, typ)
	for i := 0; i < 8; i++ {
		if _, ok := re.Get([]byte{byte(i * 16), byte(i)}); !ok {
			t.Fatalf("value %d lost after a retried commit", i)
		}
	}
//---TOP---
type zzVal struct{ S string }

type zzFail struct {
	db.Database
	n int
}

func (f *zzFail) Put(k, v []byte) error {
	if f.n >= 0 {
		if f.n == 0 {
			return errors.New("disk full")
		}
		f.n--
	}
	return f.Database.Put(k, v)
}
''', ("errors", "reflect", "github.com/ThinkiumGroup/go-common/db"))
S("t08-split-count", "T08", "a new key that is a proper prefix of stored keys, so an existing node is split above",
  "the value set on the node made by the split is not counted",
  [("trie/trie.go", '''		_, _, delta := newNode.setValue(value)
		t.valueCount = t.valueCount + delta
	} else {''', '''		newNode.setValue(value)
	} else {''')],
  "trie", '''
	m := db.NewMemDB()
	na, va := db.NewKeyPrefixedDataAdapter(m, []byte("n")), db.NewKeyPrefixedDataAdapter(m, []byte("v"))
	tr := NewTrieWithValueType(nil, na, va, reflect.TypeOf((*zzVal)(nil)))
	tr.Put([]byte{0x11, 0x34}, &zzVal{"long"})
	tr.Put([]byte{0x11}, &zzVal{"short"})
	if tr.Count() != 2 {
		t.Fatalf("count %d", tr.Count())
	}
//---TOP---
type zzVal struct{ S string }
''', ("reflect", "github.com/ThinkiumGroup/go-common/db"))
S("t01-missing-tail", "T01", "a stored node that is cut short exactly behind one of its child hashes",
  "a stored node whose last child hashes are missing loads without an error, so whole branches read as absent",
  [("trie/node.go", '''				} else if err != nil {
					return shouldBeNil, err
				}''', '''				} else if err != nil && err != io.EOF {
					return shouldBeNil, err
				}''')],
  "trie", '''
	m := db.NewMemDB()
	na, va := db.NewKeyPrefixedDataAdapter(m, []byte("n")), db.NewKeyPrefixedDataAdapter(m, []byte("v"))
	tr := NewTrieWithValueType(nil, na, va, reflect.TypeOf((*zzVal)(nil)))
	tr.Put([]byte{0x11, 0x34}, &zzVal{"a"})
	tr.Put([]byte{0x12, 0x34}, &zzVal{"b"})
	h, err := tr.CommitAndHash()
	if err != nil {
		t.Fatal(err)
	}
	b, err := na.Load(h)
	if err != nil {
		t.Fatal(err)
	}
	n := NewNode(nil, 0, reflect.TypeOf((*zzVal)(nil)))
	if _, err := n.Deserialization(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	for l := 1; l < len(b); l++ {
		n = NewNode(nil, 0, reflect.TypeOf((*zzVal)(nil)))
		if _, err := n.Deserialization(bytes.NewReader(b[:l])); err == nil {
			t.Fatalf("node cut to %d of %d bytes loads without an error", l, len(b))
		}
	}
//---TOP---
type zzVal struct{ S string }
''', ("bytes", "reflect", "github.com/ThinkiumGroup/go-common/db"))
