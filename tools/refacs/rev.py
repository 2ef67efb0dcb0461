F = "trie/revertable.go"
R("ensure-live", (F, """	if r.Live == nil {
		if r.Origin == nil {
			return common.ErrNil
		}
		// what has not been saved cannot be read by the clone
		if err := r.Origin.Commit(); err != nil {
			return err
		}
		origin := r.Origin.Clone()
		if origin == nil {
			return common.ErrNil
		}
		r.Live, r.Origin = r.Origin, origin
	}
	return nil
""", """	if r.Live != nil {
		return nil
	}
	live := r.Origin
	if live == nil {
		return common.ErrNil
	}
	if err := live.Commit(); err != nil {
		return err
	}
	origin := live.Clone()
	if origin == nil {
		return common.ErrNil
	}
	r.Live = live
	r.Origin = origin
	return nil
"""))
R("commit-live-helper", (F, """	if r.Live != nil {
		// a failed commit leaves the origin as it was
		if err := r.Live.Commit(); err != nil {
			return nil, err
		}
	}
	r._prepareCommit()
	if r.Origin == nil {
		return nil, common.ErrNil
	}
	return r.Origin.CommitAndHash()
""", """	if err := r.promoteLocked(); err != nil {
		return nil, err
	}
	if r.Origin == nil {
		return nil, common.ErrNil
	}
	return r.Origin.CommitAndHash()
"""), (F, """	if r.Live != nil {
		// a failed commit leaves the origin as it was
		if err := r.Live.Commit(); err != nil {
			return err
		}
	}
	r._prepareCommit()
	if r.Origin == nil {
		return common.ErrNil
	}
	return r.Origin.Commit()
""", """	if err := r.promoteLocked(); err != nil {
		return err
	}
	if r.Origin == nil {
		return common.ErrNil
	}
	return r.Origin.Commit()
"""), (F, """func (r *RevertableTrie) _prepareCommit() {
	if r.isDirtyLocked() {
		r.Origin = r.Live
		r.Live = nil
	}
	r.chkpts = nil
}
""", """func (r *RevertableTrie) promoteLocked() error {
	if r.Live != nil {
		if err := r.Live.Commit(); err != nil {
			return err
		}
		r.Origin, r.Live = r.Live, nil
	}
	r.chkpts = nil
	return nil
}
"""))
R("getlive-pick", (F, """	if r.Live != nil {
		return r.Live.Get(key)
	} else {
		if r.Origin == nil {
			return nil, false
		}
		return r.Origin.Get(key)
	}
""", """	t := r.current()
	if t == nil {
		return nil, false
	}
	return t.Get(key)
"""), (F, """	if r.Live == nil && r.Origin == nil {
		return nil
	}
	if r.Live == nil {
		return r.Origin.ValueIterator()
	}
	return r.Live.ValueIterator()
""", """	t := r.current()
	if t == nil {
		return nil
	}
	return t.ValueIterator()
"""), (F, """	if r.Live == nil {
		if r.Origin == nil {
			return nil, nil
		}
		return r.Origin.HashValue()
	}
	return r.Live.HashValue()
""", """	if t := r.current(); t != nil {
		return t.HashValue()
	}
	return nil, nil
"""), (F, """func (r *RevertableTrie) putLocked(""", """func (r *RevertableTrie) current() *Trie {
	if r.Live != nil {
		return r.Live
	}
	return r.Origin
}

func (r *RevertableTrie) putLocked("""))
R("dirty", (F, """	if r.Live == nil {
		return false
	}
	return true
""", """	return r.Live != nil
"""))
R("chk", (F, """	rootHash := common.BytesToHash(root)
	r.chkpts = append(r.chkpts, rootHash)
	return len(r.chkpts) - 1, root, nil
""", """	chkpt = len(r.chkpts)
	r.chkpts = append(r.chkpts, common.BytesToHash(root))
	return
"""), (F, """	if checkPoint >= len(r.chkpts) {
		return common.ErrNotFound
	}
	h := common.BytesToHash(root)
	if h != r.chkpts[checkPoint] {
		return ErrNotExist
	}
	r.chkpts = r.chkpts[:checkPoint]
	// Live is nil only when nothing has changed since the checkpoint
	r.Live = r.Live.Inherit(root)
	return nil
""", """	switch {
	case checkPoint >= len(r.chkpts):
		return common.ErrNotFound
	case r.chkpts[checkPoint] != common.BytesToHash(root):
		return ErrNotExist
	}
	live := r.Live.Inherit(root)
	r.Live, r.chkpts = live, r.chkpts[:checkPoint]
	return nil
"""))
R("setto-rollback", (F, """	r.Origin = newTrie
	r.Live = nil
	r.chkpts = nil
	return nil
""", """	r.resetLocked()
	r.Origin = newTrie
	return nil
"""), (F, """	r.lock.Lock()
	defer r.lock.Unlock()
	r.Live = nil
	r.chkpts = nil
}
""", """	r.lock.Lock()
	r.resetLocked()
	r.lock.Unlock()
}

func (r *RevertableTrie) resetLocked() {
	r.Live, r.chkpts = nil, nil
}
"""))
R("put-inline", (F, """	if value == nil {
		return false
	}
	return r.putLocked(value.Key(), value)
""", """	if value == nil || r.checkLiveLocked() != nil {
		return false
	}
	return r.Live.PutValue(value)
"""))
