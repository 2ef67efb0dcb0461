F = "db/readonly.go"
LOOP = """	for i := 0; i < len(b.cmds); i++ {
		switch b.cmds[i].typ {
		case putBatcher:
			if err := t._put(b.cmds[i].key, b.cmds[i].value); err != nil {
				return err
			}
		case deleteBatcher:
			if err := t._delete(b.cmds[i].key); err != nil {
				return err
			}
		}
	}
	return nil
}
"""
R("tmp-batch-range", (F, LOOP, """	for _, cmd := range b.cmds {
		var err error
		switch cmd.typ {
		case putBatcher:
			err = t._put(cmd.key, cmd.value)
		case deleteBatcher:
			err = t._delete(cmd.key)
		}
		if err != nil {
			return err
		}
	}
	return nil
}
"""))
R("tmp-batch-apply", (F, LOOP, """	return t.applyLocked(b.cmds)
}

func (t *temporaryDB) applyLocked(cmds []*batcher) error {
	for _, cmd := range cmds {
		if err := t.applyOne(cmd); err != nil {
			return err
		}
	}
	return nil
}

func (t *temporaryDB) applyOne(cmd *batcher) error {
	if cmd.typ == putBatcher {
		return t._put(cmd.key, cmd.value)
	}
	if cmd.typ == deleteBatcher {
		return t._delete(cmd.key)
	}
	return nil
}
"""))
R("tmp-type-first", (F, """	t.lock.Lock()
	defer t.lock.Unlock()
	b, ok := batch.(*memBatch)
	if !ok {
		return fmt.Errorf("illegal batch type, expect *memBatch, but %T", batch)
	}
""", """	b, ok := batch.(*memBatch)
	if !ok {
		return fmt.Errorf("illegal batch type, expect *memBatch, but %T", batch)
	}
	t.lock.Lock()
	defer t.lock.Unlock()
"""))
R("tmp-put-early", (F, """	if err := t.mem.Put(key, value); err == nil {
		delete(t.deleted, string(key))
		return nil
	} else {
		return err
	}
""", """	err := t.mem.Put(key, value)
	if err != nil {
		return err
	}
	delete(t.deleted, string(key))
	return nil
"""))
R("tmp-get-helper", (F, """	_, deleted := t.deleted[string(key)]
	if deleted {
		return nil, nil
	}
	bs, err := t.mem.Get(key)
	if err != nil {
		return nil, err
	}
	if bs != nil {
		return bs, nil
	}
	return t.read.Get(key)
}
""", """	if t.isDeleted(key) {
		return nil, nil
	}
	if bs, err := t.mem.Get(key); err != nil || bs != nil {
		return bs, err
	}
	return t.read.Get(key)
}

func (t *temporaryDB) isDeleted(key []byte) bool {
	_, ok := t.deleted[string(key)]
	return ok
}
"""), (F, """	_, deleted := t.deleted[string(key)]
	if deleted {
		return false, nil
	}
	has, err := t.mem.Has(key)
	if err != nil {
		return false, err
	}
	if has {
		return true, nil
	}
	return t.read.Has(key)
""", """	if t.isDeleted(key) {
		return false, nil
	}
	if has, err := t.mem.Has(key); has || err != nil {
		return has, err
	}
	return t.read.Has(key)
"""))
R("ro-switch", (F, """	switch t := dbase.(type) {
	case *readOnlyDB:
		return t
	default:
		return &readOnlyDB{dbase: dbase}
	}
}

func (r *""", """	if t, ok := dbase.(*readOnlyDB); ok {
		return t
	}
	return &readOnlyDB{dbase: dbase}
}

func (r *"""))
C = "db/cacheddb.go"
R("cache-put-order", (C, """	d.writecount++
	if err := d.baseDB.Put(key, value); err != nil {
		return err
	}
	d.cache.Remove(string(key))
	return nil
""", """	d.writecount++
	d.cache.Remove(string(key))
	return d.baseDB.Put(key, value)
"""))
R("cache-drop-helper", (C, """	if cb, ok := batch.(*cachedBatch); ok {
		for k, _ := range cb.keys {
			d.cache.Remove(k)
		}
		batch = cb.batch
	} else {
		// the keys of a batch built elsewhere are unknown
		d.cache.Purge()
	}
	return d.baseDB.Batch(batch)
}
""", """	return d.baseDB.Batch(d.unwrap(batch))
}

// unwrap drops what the batch touches from the cache and returns the batch of the base database
func (d *cachedDB) unwrap(batch Batch) Batch {
	cb, ok := batch.(*cachedBatch)
	if !ok {
		d.cache.Purge()
		return batch
	}
	d.forget(cb.keys)
	return cb.batch
}

func (d *cachedDB) forget(keys map[string]struct{}) {
	for k := range keys {
		d.cache.Remove(k)
	}
}
"""))
R("cache-get-fill", (C, """	v, ok := d.cache.Get(ckey)
	if ok {
		atomic.AddUint64(&(d.hitcount), 1)
		return CopySlice(v.([]byte)), nil
	}
	atomic.AddUint64(&(d.misscount), 1)
	r, err := d.baseDB.Get(key)
	if err != nil || r == nil {
		return nil, err
	}
	d.cache.Add(ckey, CopySlice(r))
	return r, nil
""", """	if v, ok := d.cache.Get(ckey); ok {
		d.count(&d.hitcount)
		return CopySlice(v.([]byte)), nil
	}
	d.count(&d.misscount)
	return d.fill(ckey, key)
}

func (d *cachedDB) count(n *uint64) { atomic.AddUint64(n, 1) }

func (d *cachedDB) fill(ckey string, key []byte) ([]byte, error) {
	r, err := d.baseDB.Get(key)
	if err != nil {
		return nil, err
	}
	if r != nil {
		d.cache.Add(ckey, CopySlice(r))
	}
	return r, nil
"""))
R("cache-get-return-copy", (C, """	d.cache.Add(ckey, CopySlice(r))
	return r, nil
""", """	d.cache.Add(ckey, r)
	return CopySlice(r), nil
"""))
R("cache-batch-record", (C, """func (b *cachedBatch) Put(key, value []byte) error {
	if err := b.batch.Put(key, value); err != nil {
		return err
	}
	b.keys[string(key)] = cacheBatchValue
	return nil
}
""", """func (b *cachedBatch) touch(key []byte) { b.keys[string(key)] = struct{}{} }

func (b *cachedBatch) Put(key, value []byte) error {
	b.touch(key)
	return b.batch.Put(key, value)
}
"""), (C, """	b.keys[string(key)] = cacheBatchValue
	return nil
}

func (b *cachedBatch) Size""", """	b.touch(key)
	return nil
}

func (b *cachedBatch) Size"""))
R("cache-replace-order", (C, """	oldpath = d.path
	olddb = d.baseDB
	d.path = newpath
	d.baseDB = newdb
	newcache, err := lru.New(d.cacheSize)
	if err != nil || newcache == nil {
		d.cache.Purge()
	} else {
		d.cache = newcache
	}
""", """	oldpath, d.path = d.path, newpath
	olddb, d.baseDB = d.baseDB, newdb
	if newcache, err := lru.New(d.cacheSize); err == nil && newcache != nil {
		d.cache = newcache
	} else {
		d.cache.Purge()
	}
"""))
A = "db/adapters.go"
R("keybatch-key", (A, """func (k *KeyBatch) Put(key, value []byte) error {
	if k.keyConvFunc != nil {
		return k.batch.Put(k.keyConvFunc(key), value)
	} else {
		return k.batch.Put(key, value)
	}
}

func (k *KeyBatch) Delete(key []byte) error {
	if k.keyConvFunc != nil {
		return k.batch.Delete(k.keyConvFunc(key))
	} else {
		return k.batch.Delete(key)
	}
}
""", """func (k *KeyBatch) conv(key []byte) []byte {
	if k.keyConvFunc == nil {
		return key
	}
	return k.keyConvFunc(key)
}

func (k *KeyBatch) Put(key, value []byte) error {
	return k.batch.Put(k.conv(key), value)
}

func (k *KeyBatch) Delete(key []byte) error {
	key = k.conv(key)
	return k.batch.Delete(key)
}
"""))
R("adapter-clone-copy", (A, """	return &keyPrefixedDataAdapter{
		database:  k.database,
		keyPrefix: common.CopyBytes(k.keyPrefix),
	}
}
""", """	return k.on(k.database)
}

func (k *keyPrefixedDataAdapter) on(database Database) *keyPrefixedDataAdapter {
	return &keyPrefixedDataAdapter{
		database:  database,
		keyPrefix: common.CopyBytes(k.keyPrefix),
	}
}
"""), (A, """	return &keyPrefixedDataAdapter{
		database:  dbase,
		keyPrefix: common.CopyBytes(k.keyPrefix),
	}, nil
""", """	return k.on(dbase), nil
"""))
R("adapter-prefix-copy", (A, """	ret := &keyPrefixedDataAdapter{database: database}
	if len(keyPrefix) > 0 {
		ret.keyPrefix = make([]byte, len(keyPrefix))
		copy(ret.keyPrefix, keyPrefix)
	} else {
		ret.keyPrefix = nil
	}
	return ret
""", """	var prefix []byte
	if len(keyPrefix) > 0 {
		prefix = append(prefix, keyPrefix...)
	}
	return &keyPrefixedDataAdapter{database: database, keyPrefix: prefix}
"""))
M_ = "db/memdb.go"
R("mem-batch-range", (M_, """	for i := 0; i < len(b.cmds); i++ {
		switch b.cmds[i].typ {
		case putBatcher:
			if err := m.Put(b.cmds[i].key, b.cmds[i].value); err != nil {
				return err
			}
		case deleteBatcher:
			if err := m.Delete(b.cmds[i].key); err != nil {
				return err
			}
		}
	}
	return nil
}
""", """	for _, c := range b.cmds {
		if err := c.apply(m); err != nil {
			return err
		}
	}
	return nil
}

func (c *batcher) apply(m *MemDB) error {
	switch c.typ {
	case putBatcher:
		return m.Put(c.key, c.value)
	case deleteBatcher:
		return m.Delete(c.key)
	default:
		return nil
	}
}
"""))
R("mem-copy", (M_, """	r := make([]byte, len(val))
	if len(val) > 0 {
		copy(r, val)
	}
	return r
""", """	return append(make([]byte, 0, len(val)), val...)
"""))
R("mem-get", (M_, """	s := string(key)
	v, ok := m.mem.Load(s)
	if !ok || v == nil {
		return nil, nil
	}
	r, ok := v.([]byte)
	if !ok {
		return nil, nil
	}
	return CopySlice(r), nil
""", """	v, _ := m.mem.Load(string(key))
	if r, ok := v.([]byte); ok {
		return CopySlice(r), nil
	}
	return nil, nil
"""))
R("mem-put", (M_, """	k := CopySlice(key)
	v := CopySlice(value)
	s := string(k)
	// fmt.Printf("%x -> %x\\n", s, v)
	m.mem.Store(s, v)
	return nil
""", """	m.mem.Store(string(key), CopySlice(value))
	return nil
"""))
R("mem-batch-add", (M_, """	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
	return nil
}

func (b *memBatch) Delete(key []byte) error {
	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
	return nil
}
""", """	return b.add(putBatcher, key, value)
}

func (b *memBatch) Delete(key []byte) error {
	return b.add(deleteBatcher, key, nil)
}

func (b *memBatch) add(typ batchType, key, value []byte) error {
	c := &batcher{typ: typ, key: CopySlice(key), value: CopySlice(value)}
	b.cmds = append(b.cmds, c)
	return nil
}
"""))
D = "db/ldb.go"
R("ldb-get", (D, """	if err != nil {
		if strings.Contains(err.Error(), "not found") {
			return nil, nil
		}
	}
	return value, err
""", """	if err == nil {
		return value, nil
	}
	if err == leveldb.ErrNotFound {
		return nil, nil
	}
	return value, err
"""), (D, '	"strings"\n', ''))
R("ldb-stop", (D, """	err := db.db.Close()
	if err != nil {
		return err
	}
	return nil
""", """	return db.db.Close()
"""))
R("ldb-new-order", (D, """	ldb := &LDB{filePath: path}
	ldb.InitFunc = ldb.initial
	ldb.StartFunc = ldb.start
	ldb.CloseFunc = ldb.stop

	db, err := leveldb.OpenFile(path, nil)
	if err != nil {
		return nil, err
	}
	ldb.db = db
""", """	db, err := leveldb.OpenFile(path, nil)
	if err != nil {
		return nil, err
	}
	ldb := &LDB{filePath: path, db: db}
	ldb.InitFunc, ldb.StartFunc, ldb.CloseFunc = ldb.initial, ldb.start, ldb.stop
"""))
