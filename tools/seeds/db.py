S("s04-has-raw", "S04", "two adapters with different prefixes over one database, and an existence test for a key only the raw database has",
  "the existence test of the prefixed adapter uses the unmapped key",
  [("db/adapters.go", "return k.database.Has(k.key(key))", "return k.database.Has(key)")],
  "db", '''
	m := NewMemDB()
	a := NewKeyPrefixedDataAdapter(m, []byte("p/")).(Database)
	if err := a.Put([]byte("k"), []byte("v")); err != nil {
		t.Fatal(err)
	}
	if ok, err := a.Has([]byte("k")); err != nil || !ok {
		t.Fatalf("stored key missing: %v %v", ok, err)
	}
''')
S("s06-threshold-carry", "S06", "a database error on a batch in the middle of a run",
  "an error of the database for a full batch is dropped when later batches succeed",
  [("db/types.go", '''			if err = dbase.Batch(batch); err != nil {
				return count, err
			}
			count = count + index
			index = 0''', '''			if err = dbase.Batch(batch); err == nil {
				count = count + index
			}
			index = 0''')],
  "db", '''
	f := &zzFail{Database: NewMemDB()}
	n, err := BatchWrite(f, 2, 6, func(j int, w Writer) (bool, error) {
		return true, w.Put([]byte{byte(j)}, []byte{1})
	})
	if err == nil {
		for i := 0; i < 6; i++ {
			if ok, _ := f.Has([]byte{byte(i)}); !ok {
				t.Fatalf("success with %d writes reported but write %d is lost", n, i)
			}
		}
	}
//---TOP---
type zzFail struct {
	Database
	n int
}

func (z *zzFail) Batch(b Batch) error {
	z.n++
	if z.n == 2 {
		return errors.New("disk full")
	}
	return z.Database.Batch(b)
}
''', ("errors",))
S("s07-get-shared", "S07", "a caller that modifies a slice it read from the memory database",
  "reads of short values hand out the stored slice itself",
  [("db/memdb.go", '''	return CopySlice(r), nil
}

func (m *MemDB) Delete''', '''	if len(r) < 32 {
		return r, nil
	}
	return CopySlice(r), nil
}

func (m *MemDB) Delete''')],
  "db", '''
	m := NewMemDB()
	_ = m.Put([]byte("k"), []byte("value"))
	v, _ := m.Get([]byte("k"))
	v[0] = 'X'
	w, _ := m.Get([]byte("k"))
	if string(w) != "value" {
		t.Fatalf("stored value changed to %q", w)
	}
''')
