TR = '''
	na, va := db.NewKeyPrefixedDataAdapter(mem, []byte("n")), db.NewKeyPrefixedDataAdapter(mem, []byte("v"))
	tr := NewTrieWithValueType(nil, na, va, reflect.TypeOf((*zzVal)(nil)))
'''
ZV = '''
//---TOP---
type zzVal struct {
	S string
}
'''
TI = ("reflect", "github.com/ThinkiumGroup/go-common/db")
H = "trie/historytree.go"
S("c02-append-locked", "C02", "an Append with an empty value for the expected key",
  "a refused Append keeps the tree locked, so every later operation on it hangs",
  [(H, '''	h.lock.Lock()
	defer h.lock.Unlock()

	if key != h.expecting {
		return common.ErrIllegalParams
	}

	if len(value) == 0 {
		return common.ErrIllegalStatus
	}
''', '''	h.lock.Lock()
	if key != h.expecting {
		h.lock.Unlock()
		return common.ErrIllegalParams
	}

	if len(value) == 0 {
		return common.ErrIllegalStatus
	}
	defer h.lock.Unlock()
''')], "trie", '''
	h, err := NewHistoryTree(db.NewMemDB(), []byte("h"), nil, false)
	if err != nil {
		t.Fatal(err)
	}
	if err := h.Append(0, nil); err == nil {
		t.Fatal("empty value accepted")
	}
	done := make(chan uint64)
	go func() { done <- h.Expecting() }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("tree stays locked")
	}
''', ("time", "github.com/ThinkiumGroup/go-common/db"))
S("c03-log-locked", "C03", "a proof of another tree offered to MergeProof",
  "the error path prints the tree while its lock is held; String takes the same lock and hangs",
  [(H, '''		return errors.New("proofs is not created from the same tree")''',
    '''		return fmt.Errorf("proofs is not created from the same tree: %s", h)''')], "trie", '''
	mem := db.NewMemDB()
	a, _ := NewHistoryTree(mem, []byte("a"), nil, false)
	b, _ := NewHistoryTree(mem, []byte("b"), nil, false)
	v, w := bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32)
	if err := a.Append(0, v); err != nil {
		t.Fatal(err)
	}
	if err := b.Append(0, w); err != nil {
		t.Fatal(err)
	}
	_, p, ok := a.GetProof(0)
	if !ok {
		t.Fatal("no proof")
	}
	done := make(chan error)
	go func() { done <- b.MergeProof(0, v, p) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("proof of another tree accepted")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("hangs on its own lock")
	}
''', ("bytes", "time", "github.com/ThinkiumGroup/go-common/db"))
S("c01-expecting-race", "C01", "Expecting called while another goroutine appends",
  "the next key of a history tree is read without the lock that Append writes it under",
  [(H, '''func (h *HistoryTree) Expecting() uint64 {
	h.lock.Lock()
	defer h.lock.Unlock()
	return''', '''func (h *HistoryTree) Expecting() uint64 {
	return''')], "trie", '''
	h, _ := NewHistoryTree(db.NewMemDB(), []byte("h"), nil, false)
	v := bytes.Repeat([]byte{1}, 32)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 100; i++ {
			h.Expecting()
		}
	}()
	for i := uint64(0); i < 100; i++ {
		if err := h.Append(i, v); err != nil {
			t.Fatal(err)
		}
	}
	<-done
''', ("bytes", "github.com/ThinkiumGroup/go-common/db"), race=True, timeout=120)
S("g02-adminpubs", "G02", "a clone of chain information whose admin keys are changed in place",
  "the clone shares the admin key bytes with the original",
  [("chaininfo.go", "AdminPubs:      CopyBytesSlice(c.AdminPubs)", "AdminPubs:      append([][]byte(nil), c.AdminPubs...)")], "", '''
	c := &ChainInfos{AdminPubs: [][]byte{{1, 2, 3}}}
	d := c.Clone()
	d.AdminPubs[0][1] = 9
	if c.AdminPubs[0][1] != 2 {
		t.Fatal("changing the clone changed the original")
	}
''')
S("t05-setto-live", "T05", "SetTo on a tree with uncommitted changes, followed by a read of the live state",
  "SetTo keeps the live changes of the tree it replaces",
  [("trie/revertable.go", '''	if newTrie == nil {
		return common.ErrNil
	}
	r.Origin = newTrie
	r.Live = nil
''', '''	if newTrie == nil {
		return common.ErrNil
	}
	r.Origin = newTrie
	if r.isDirtyLocked() && r.Live.IsEmpty() {
		r.Live = nil
	}
''')], "trie", '''
	mem := db.NewMemDB()
''' + TR + '''
	r := &RevertableTrie{Origin: tr}
	r.Put([]byte("a"), &zzVal{"1"})
	tr2 := NewTrieWithValueType(nil, na, va, reflect.TypeOf((*zzVal)(nil)))
	if err := r.SetTo(tr2); err != nil {
		t.Fatal(err)
	}
	if _, ok := r.GetLive([]byte("a")); ok {
		t.Fatal("changes of the replaced tree are still alive")
	}
''' + ZV, TI)
S("t06-existence-value", "T06", "a proof chain whose last element proves a value although a child is asked for",
  "an existence proof of a sibling child is taken for one of the asked child",
  [("trie/proof.go", '''	if byte(n.PType) != keyprefix[0] {
		// It's not proof of the child node be want to find
		return false, nil, keyprefix, ErrMismatchProof
	}
''', '''	if byte(n.PType) > keyprefix[0] {
		// It's not proof of the child node be want to find
		return false, nil, keyprefix, ErrMismatchProof
	}
''')], "trie", '''
	mem := db.NewMemDB()
''' + TR + '''
	tr.Put([]byte{0x11, 0x55}, &zzVal{"1"})
	tr.Put([]byte{0x12, 0x55}, &zzVal{"2"})
	if err := tr.Commit(); err != nil {
		t.Fatal(err)
	}
	_, proofs, err := tr.GetExistenceProof([]byte{0x11, 0x55})
	if err != nil {
		t.Fatal(err)
	}
	tr.Put([]byte{0x12, 0x77}, &zzVal{"3"})
	tr.Delete([]byte{0x12, 0x55})
	if ok, err := proofs.IsExist([]byte{0x12, 0x55}); err == nil && ok {
		t.Fatal("the proof of one key proves the existence of another")
	}
''' + ZV, TI)
S("t09-iterate-live", "T09", "a change of the trie while one of its reversed iterators is used",
  "the reversed iterator walks the live trie instead of a private clone",
  [("trie/trie.go", '''	newt := t.Clone()
	return newReversedValueIterator(newt)''', '''	return newReversedValueIterator(t)''')], "trie", '''
	mem := db.NewMemDB()
''' + TR + '''
	for i := 0; i < 16; i++ {
		tr.Put([]byte{byte(i)}, &zzVal{string(rune(65 + i))})
	}
	if err := tr.Commit(); err != nil {
		t.Fatal(err)
	}
	it := tr.ReversedValueIterator()
	n := 0
	for it.Next() {
		if n == 0 {
			tr.Delete([]byte{0})
			tr.Delete([]byte{1})
		}
		n++
	}
	if n != 16 {
		t.Fatalf("%d values of 16", n)
	}
''' + ZV, TI)
S("t11-expecting", "T11", "appending a value that a node already has, e.g. after a failed commit",
  "the expected key advances for a key whose value differs from the one stored already",
  [(H, '''	if changed {
		h.expecting++
	}

	return nil
}

func (h *HistoryTree) Has''', '''	if changed && len(value) == common.HashLength {
		h.expecting++
	}

	return nil
}

func (h *HistoryTree) Has''')], "trie", '''
	h, _ := NewHistoryTree(db.NewMemDB(), []byte("h"), nil, false)
	if err := h.Append(0, []byte("short value")); err != nil {
		return
	}
	if h.Expecting() != 1 {
		t.Fatalf("key 0 was appended and %d is still expected", h.Expecting())
	}
''', ("github.com/ThinkiumGroup/go-common/db",))
S("s02-resurrect", "S02", "a key of the base deleted in the temporary database and put again empty",
  "a deleted base key shows through again when an empty value is put over it",
  [("db/readonly.go", '''	if bs != nil {
		return bs, nil
	}
	return t.read.Get(key)''', '''	if len(bs) > 0 {
		return bs, nil
	}
	return t.read.Get(key)''')], "db", '''
	base := NewMemDB()
	base.Put([]byte("k"), []byte("old"))
	tmp := Temporary(base)
	if err := tmp.Put([]byte("k"), []byte{}); err != nil {
		t.Fatal(err)
	}
	if v, err := tmp.Get([]byte("k")); err != nil || len(v) != 0 {
		t.Fatalf("value of the base %q shows through: %v", v, err)
	}
''')
S("s03-delete-order", "S03", "a delete through the cache while the store refuses it, or a read that re-caches the old value",
  "deleting a key leaves its old value in the cache",
  [("db/cacheddb.go", '''	d.writecount++
	d.cache.Remove(string(key))
	return d.baseDB.Delete(key)''', '''	d.writecount++
	err := d.baseDB.Delete(key)
	if err != nil {
		d.cache.Remove(string(key))
	}
	return err''')], "db", '''
	c, err := NewCachedDBWithPath(t.TempDir(), 16)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.Put([]byte("k"), []byte("v"))
	if v, err := c.Get([]byte("k")); err != nil || string(v) != "v" {
		t.Fatal(err)
	}
	if err := c.Delete([]byte("k")); err != nil {
		t.Fatal(err)
	}
	if v, _ := c.Get([]byte("k")); v != nil {
		t.Fatalf("deleted key still reads %q", v)
	}
''')
S("a02-dynamic-offset", "A02", "calldata with an offset of a dynamic array close to the end of the data",
  "an offset in the last word of the data is accepted for a dynamic array",
  [("abi/unpack.go", '''	if bigOffsetEnd.Cmp(outputLength) > 0 {
		return 0, 0, fmt.Errorf("abi: cannot marshal in to go slice: offset''', '''	if bigOffsetEnd.Cmp(new(big.Int).Add(outputLength, math.Big1)) > 0 {
		return 0, 0, fmt.Errorf("abi: cannot marshal in to go slice: offset''')], "abi", '''
	typ, err := NewType("bytes", "", nil)
	if err != nil {
		t.Fatal(err)
	}
	args := Arguments{{Type: typ}}
	data := make([]byte, 63)
	data[31] = 32
	if _, err := args.UnpackValues(data); err == nil {
		t.Fatal("63 bytes decoded")
	}
''')
S("c08-wg-order", "C08", "a worker that leaves early when it is woken for quitting with work left",
  "the pool counts a worker as gone before it has finished its last event, so Stop returns too early",
  [("routinepool.go", '''			case v := <-w.lower:
				// Processing the waiting low priority events
				w.event(v)
			}''', '''			case v := <-w.lower:
				// Processing the waiting low priority events
				if len(w.higher) > 0 {
					w.event(<-w.higher)
					continue
				}
				w.event(v)
			}''')], "", '''
	var mu sync.Mutex
	got := map[int]bool{}
	var wg sync.WaitGroup
	p := NewRoutinePool("zz", 4, 4096, func(name string, v interface{}) {
		mu.Lock()
		got[v.(int)] = true
		mu.Unlock()
		wg.Done()
	}, nil)
	const n = 20000
	wg.Add(2 * n)
	p.Start()
	go func() {
		for i := 0; i < n; i++ {
			p.PostHigher(i)
		}
	}()
	for i := 0; i < n; i++ {
		p.PostLower(n + i)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		mu.Lock()
		defer mu.Unlock()
		t.Fatalf("only %d of %d events were worked", len(got), 2*n)
	}
''', ("sync", "time"))
