From 6fc808e12e67d2f3cbdfdf513730dda70dfaba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 01/50] fix: LDB.Batch reports the error of the underlying
 write

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From 00e756f69382d3b37ba67d99974a736054e3a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 02/50] fix: temporary database propagates the errors of its
 layers

---
 db/readonly.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/db/readonly.go b/db/readonly.go
index 849868e..39d56c6 100644
--- a/db/readonly.go
+++ b/db/readonly.go
@@ -84,7 +84,10 @@ func (t *temporaryDB) Has(key []byte) (bool, error) {
 	if deleted {
 		return false, nil
 	}
-	has, _ := t.mem.Has(key)
+	has, err := t.mem.Has(key)
+	if err != nil {
+		return false, err
+	}
 	if has {
 		return true, nil
 	}
@@ -109,8 +112,10 @@ func (t *temporaryDB) Get(key []byte) ([]byte, error) {
 }
 
 func (t *temporaryDB) _delete(key []byte) error {
+	if err := t.mem.Delete(key); err != nil {
+		return err
+	}
 	t.deleted[string(key)] = struct{}{}
-	t.mem.Delete(key)
 	return nil
 }
 
@@ -134,9 +139,13 @@ func (t *temporaryDB) Batch(batch Batch) error {
 	for i := 0; i < len(b.cmds); i++ {
 		switch b.cmds[i].typ {
 		case putBatcher:
-			t._put(b.cmds[i].key, b.cmds[i].value)
+			if err := t._put(b.cmds[i].key, b.cmds[i].value); err != nil {
+				return err
+			}
 		case deleteBatcher:
-			t._delete(b.cmds[i].key)
+			if err := t._delete(b.cmds[i].key); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From fb03ff3e2c9580c6c65eeeccc1616e0fa4f5c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 03/50] fix: MemDB.Batch reports the operations it could not
 apply

---
 db/memdb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..1827a6d 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -110,9 +110,13 @@ func (m *MemDB) Batch(batch Batch) error {
 	for i := 0; i < len(b.cmds); i++ {
 		switch b.cmds[i].typ {
 		case putBatcher:
-			m.Put(b.cmds[i].key, b.cmds[i].value)
+			if err := m.Put(b.cmds[i].key, b.cmds[i].value); err != nil {
+				return err
+			}
 		case deleteBatcher:
-			m.Delete(b.cmds[i].key)
+			if err := m.Delete(b.cmds[i].key); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From d33b5399c63bf25c1c76df0ad956d9d84234188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 04/50] fix: Trie.Commit reports a failure to save a child node

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..cad036e 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From b0f075a4dd3b73466ec2d8fe442dd8a88d5eb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 05/50] fix: Trie.Rebase reports a failure to rebase its
 adapters

---
 trie/trie.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index cad036e..f6724f4 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -190,8 +190,14 @@ func (t *Trie) Rebase(dbase db.Database) (*Trie, error) {
 	if err != nil {
 		return nil, err
 	}
-	na, _ := db.RebaseAdapter(t.nodeAdapter, dbase)
-	va, _ := db.RebaseAdapter(t.valueAdapter, dbase)
+	na, err := db.RebaseAdapter(t.nodeAdapter, dbase)
+	if err != nil {
+		return nil, err
+	}
+	va, err := db.RebaseAdapter(t.valueAdapter, dbase)
+	if err != nil {
+		return nil, err
+	}
 	return &Trie{
 		root: NewNodeWithFuncs(root, 0, t.root.valueEncode,
 			t.root.valueDecode, t.root.valueHasher),
-- 
2.43.0


From 5316eb257664617327fe32dbe52d1a98dad6ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 06/50] fix: HistoryTree.Has no longer deadlocks on its own
 lock

---
 trie/historytree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 18bde69..37ebc68 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -416,7 +416,7 @@ func (h *HistoryTree) Has(key uint64) bool {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 
-	_, exist := h.Get(key)
+	_, exist := h._get(key)
 	return exist
 }
 
@@ -424,6 +424,10 @@ func (h *HistoryTree) Get(key uint64) (value []byte, exist bool) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 
+	return h._get(key)
+}
+
+func (h *HistoryTree) _get(key uint64) (value []byte, exist bool) {
 	prefix := heightToPrefix(key)
 	var err error
 	_, value, exist, err = h.root.traceDescendant(h.adapter, prefix, 0, false, nil)
-- 
2.43.0


From 5d43c74328f2f3afa34481317048708c7c008ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 07/50] fix: Trie.Count, IsEmpty and Collapse take the trie's
 lock

---
 trie/trie.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index f6724f4..44db8c0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -228,10 +228,16 @@ func (t *Trie) hashLocked() ([]byte, error) {
 }
 
 func (t *Trie) Count() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
 	return t.valueCount
 }
 
 func (t *Trie) IsEmpty() bool {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
 	return t.root.isEmpty()
 }
 
@@ -650,6 +656,9 @@ func (t *Trie) Commit() error {
 }
 
 func (t *Trie) Collapse() error {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
 	if t.root != nil {
 		if t.root.canCollapse() {
 			if err := t.root.collapse(); err != nil {
-- 
2.43.0


From 4b64ce781f8a254d78d8cbcc2a7e443a3e597167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 08/50] fix: revertable trees read their members under the
 locks

---
 trie/historytree.go | 9 +++++++++
 trie/revertable.go  | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 37ebc68..b59dfe4 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -57,6 +57,15 @@ func (h *HistoryTree) _info() string {
 	return fmt.Sprintf("{Expecting:%d Root:%s}", h.expecting, h.root.MakeFullString(false))
 }
 
+func (h *HistoryTree) info() string {
+	if h == nil {
+		return "<nil>"
+	}
+	h.lock.Lock()
+	defer h.lock.Unlock()
+	return h._info()
+}
+
 func (h *HistoryTree) String() string {
 	if h == nil {
 		return "HistoryTree<nil>"
diff --git a/trie/revertable.go b/trie/revertable.go
index 5754d25..98c6bd0 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -328,7 +328,10 @@ func (r *RevertableTrie) Dump(to db.Database, valueCallback func(key, value []by
 	if r == nil {
 		return nil
 	}
-	return r.Origin.Dump(to, valueCallback)
+	r.lock.Lock()
+	origin := r.Origin
+	r.lock.Unlock()
+	return origin.Dump(to, valueCallback)
 }
 
 type RevertableHistoryTree struct {
@@ -509,5 +512,5 @@ func (h *RevertableHistoryTree) String() string {
 	}
 	h.lock.Lock()
 	defer h.lock.Unlock()
-	return fmt.Sprintf("RevertableHistoryTree{Origin:%s Live:%s}", h.Origin._info(), h.Live._info())
+	return fmt.Sprintf("RevertableHistoryTree{Origin:%s Live:%s}", h.Origin.info(), h.Live.info())
 }
-- 
2.43.0


From cf5b324019db338860e0aafddbd42aabcdd0e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 09/50] fix: NodeIDSet.Get and GetNodeIDs take the lock,
 GetNodeIDs returns only members

---
 basic.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/basic.go b/basic.go
index 193d83a..4e445f9 100644
--- a/basic.go
+++ b/basic.go
@@ -652,6 +652,8 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
+	ns.lock.RLock()
+	defer ns.lock.RUnlock()
 	if i < 0 || i >= len(ns.l) {
 		return nil, false
 	}
@@ -669,10 +671,15 @@ func (ns *NodeIDSet) GetIndex(id *NodeID) (int, bool) {
 }
 
 func (ns *NodeIDSet) GetNodeIDs(chainid ChainID) NodeIDs {
+	ns.lock.Lock()
+	defer ns.lock.Unlock()
 	if len(ns.l) > 0 {
-		nids := make(NodeIDs, len(ns.l))
-		sort.Sort(ns)
+		nids := make(NodeIDs, 0, len(ns.l))
+		sort.Slice(ns.l, func(i, j int) bool {
+			return bytes.Compare((*(ns.l[i]))[:], (*(ns.l[j]))[:]) < 0
+		})
 		for i := 0; i < len(ns.l); i++ {
+			ns.m[*ns.l[i]] = i
 			nids = append(nids, *ns.l[i])
 		}
 		return nids
-- 
2.43.0


From ed638b4b6d9c6ee0498f4c7d0d1545fd1bebf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 10/50] fix: NodeIDSet.Delete keeps the indexes of the
 remaining members

---
 basic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic.go b/basic.go
index 4e445f9..1d542e0 100644
--- a/basic.go
+++ b/basic.go
@@ -649,6 +649,9 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 	copy(ns.l[i:], ns.l[i+1:])
 	ns.l = ns.l[:len(ns.l)-1]
 	delete(ns.m, *id)
+	for ; i < len(ns.l); i++ {
+		ns.m[*ns.l[i]] = i
+	}
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
-- 
2.43.0


From 5fbcd447f0fe149d33c2374272b73787896c7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 11/50] fix: Trie.Dump iterates over a snapshot instead of the
 unlocked trie

---
 trie/trie.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 44db8c0..4b83ccc 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -980,12 +980,21 @@ func (t *Trie) ReversedValueIterator() ValueIterator {
 }
 
 func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
-	if t == nil || t.root == nil || t.root.isEmpty() {
+	if t == nil {
+		return nil
+	}
+	t.lock.Lock()
+	empty := t.root == nil || t.root.isEmpty()
+	dirty := !empty && t.root.isDirty()
+	t.lock.Unlock()
+	if empty {
 		return nil
 	}
-	if t.root.isDirty() {
+	if dirty {
 		return errors.New("trie is dirty")
 	}
+	// iterate over a snapshot, as the value iterators do
+	t = t.Clone()
 	var err error
 	var na, va db.DatabasedAdapter
 	if tna, ok := t.nodeAdapter.(db.DatabasedAdapter); ok {
-- 
2.43.0


From 8a1a54271884d9c010421c7c1acb982584bb6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:19 +0000
Subject: [PATCH 12/50] fix: KeyCount returns a snapshot taken under the lock

---
 routinepool.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index 9c08999..dad2e3c 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -186,7 +186,14 @@ func decKeyCount(key string) {
 }
 
 func KeyCount() map[string]int {
-	return routinePoolKeyCountMap
+	routinePoolKeyCountLock.Lock()
+	defer routinePoolKeyCountLock.Unlock()
+
+	counts := make(map[string]int, len(routinePoolKeyCountMap))
+	for k, v := range routinePoolKeyCountMap {
+		counts[k] = v
+	}
+	return counts
 }
 
 func (p *RoutinePool) PostLower(v interface{}) {
-- 
2.43.0


From 601243225cd0d1eba8ed98e9298995da52348275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 13/50] fix: a stopped RoutinePool can be started again

---
 routinepool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index dad2e3c..abb130d 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -114,7 +114,6 @@ func NewRoutinePool(name string, routineSize int, queueSize int, workFunc Worker
 			workFunc: workFunc,
 		}
 	}
-	ret.wg.Add(routineSize)
 	return ret
 }
 
@@ -133,7 +132,10 @@ func (p *RoutinePool) Start() {
 		return
 	}
 	p.started = true
+	p.quit = make(chan struct{})
+	p.wg.Add(len(p.workers))
 	for i := 0; i < len(p.workers); i++ {
+		p.workers[i].quit = p.quit
 		go p.workers[i].work()
 	}
 }
-- 
2.43.0


From 889143a231324f8d5d8e8bdaaec5177b2aa5c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 14/50] fix: log.WithField, WithFields and InitCheckLog use the
 logger under its lock

---
 log/cashcheck.go | 2 +-
 log/log.go       | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 817cf96..c9feb27 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -23,7 +23,7 @@ func InitCheckLog(path string, nid []byte) {
 		checkWriter, err := rotatelogs.New(checkLogFile,
 			rotatelogs.WithMaxAge(-1), rotatelogs.WithRotationTime(time.Hour*24*365))
 		if err != nil {
-			rootLog.Errorf("initial CashCheck log %s failed: %v", checkLogFile, err)
+			Errorf("initial CashCheck log %s failed: %v", checkLogFile, err)
 			return
 		}
 		formatter := &logrus.TextFormatter{
diff --git a/log/log.go b/log/log.go
index 494bf46..6500192 100644
--- a/log/log.go
+++ b/log/log.go
@@ -187,10 +187,16 @@ func MustErrorf(logger logrus.FieldLogger, format string, args ...interface{}) {
 }
 
 func WithFields(fields logrus.Fields) logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
 	return rootLog.WithFields(fields)
 }
 
 func WithField(vs ...interface{}) logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
 	if len(vs) <= 1 {
 		return rootLog
 	}
-- 
2.43.0


From 0936bfdea35d6f29aef8e1b8a97a79d20b6d4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 15/50] fix: log.WithField keeps every key/value pair

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 6500192..f466330 100644
--- a/log/log.go
+++ b/log/log.go
@@ -202,7 +202,7 @@ func WithField(vs ...interface{}) logrus.FieldLogger {
 	}
 	l := len(vs)
 	fields := make(logrus.Fields)
-	for i := 0; i < l/2; i += 2 {
+	for i := 0; i+1 < l; i += 2 {
 		k, ok := vs[i].(string)
 		if !ok {
 			continue
-- 
2.43.0


From 2b4e6c33f9eff10a0363b30067e4f55841e9339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 16/50] fix: a batch of another database is refused with an
 error instead of a panic

---
 db/memdb.go    | 3 ++-
 db/readonly.go | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 1827a6d..d596950 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -15,6 +15,7 @@
 package db
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/ThinkiumGroup/go-common"
@@ -105,7 +106,7 @@ func (m *MemDB) NewBatch() Batch {
 func (m *MemDB) Batch(batch Batch) error {
 	b, ok := batch.(*memBatch)
 	if !ok {
-		panic("expecting a memBatch")
+		return fmt.Errorf("illegal batch type, expect *memBatch, but %T", batch)
 	}
 	for i := 0; i < len(b.cmds); i++ {
 		switch b.cmds[i].typ {
diff --git a/db/readonly.go b/db/readonly.go
index 39d56c6..42c571e 100644
--- a/db/readonly.go
+++ b/db/readonly.go
@@ -1,6 +1,9 @@
 package db
 
-import "sync"
+import (
+	"fmt"
+	"sync"
+)
 
 type readOnlyDB struct {
 	dbase Database
@@ -134,7 +137,7 @@ func (t *temporaryDB) Batch(batch Batch) error {
 	defer t.lock.Unlock()
 	b, ok := batch.(*memBatch)
 	if !ok {
-		panic("expecting a memBatch")
+		return fmt.Errorf("illegal batch type, expect *memBatch, but %T", batch)
 	}
 	for i := 0; i < len(b.cmds); i++ {
 		switch b.cmds[i].typ {
-- 
2.43.0


From 0b851438eae55b948eda4c09c2da2856d37972a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 17/50] fix: memory batches keep their own copies of keys and
 values

---
 db/memdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index d596950..6457fd2 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -128,12 +128,12 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From 01614d64ec61886270c5a7eff36cd34ac6ac787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 18/50] fix: cached database caches only existing values and
 never shares them with callers

---
 db/cacheddb.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..4ef3684 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -110,14 +110,14 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	v, ok := d.cache.Get(ckey)
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return v.([]byte), nil
+		return CopySlice(v.([]byte)), nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	r, err := d.baseDB.Get(key)
-	if err != nil {
+	if err != nil || r == nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	d.cache.Add(ckey, CopySlice(r))
 	return r, nil
 }
 
-- 
2.43.0


From 2e6a7a9ccaa7e630eb67c4d86a94548497f7e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 19/50] fix: cached database drops its cache when it applies a
 batch built elsewhere

---
 db/cacheddb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 4ef3684..9ca974e 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -147,6 +147,9 @@ func (d *cachedDB) Batch(batch Batch) error {
 			d.cache.Remove(k)
 		}
 		batch = cb.batch
+	} else {
+		// the keys of a batch built elsewhere are unknown
+		d.cache.Purge()
 	}
 	return d.baseDB.Batch(batch)
 }
-- 
2.43.0


From d4a2ab7d81e417e1821a4345dcf7867b1bbf5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 20/50] fix: key mapping databases apply the batches they
 created

---
 db/adapters.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..00cd039 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -68,6 +68,14 @@ func (k *KeyBatch) Size() int {
 	return k.batch.Size()
 }
 
+// underlyingBatch returns the batch that the wrapped database created
+func underlyingBatch(batch Batch) Batch {
+	if kb, ok := batch.(*KeyBatch); ok && kb != nil {
+		return kb.batch
+	}
+	return batch
+}
+
 type keyPrefixedDataAdapter struct {
 	database  Database
 	keyPrefix []byte
@@ -122,7 +130,7 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
-	return k.database.Batch(batch)
+	return k.database.Batch(underlyingBatch(batch))
 }
 
 /*
@@ -201,7 +209,7 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
-	return d.database.Batch(batch)
+	return d.database.Batch(underlyingBatch(batch))
 }
 
 func (d *KeyDatabase) Close() error {
-- 
2.43.0


From 14192d560eec2de51006a89eb8fffb63af7fef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 21/50] fix: BatchWrite applies the pending batch when the last
 write is declined

---
 db/types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..30eb5c5 100644
--- a/db/types.go
+++ b/db/types.go
@@ -99,7 +99,7 @@ func BatchWrite(dbase Database, threshold, length int,
 			continue
 		}
 		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index == threshold {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
@@ -107,5 +107,11 @@ func BatchWrite(dbase Database, threshold, length int,
 			index = 0
 		}
 	}
+	if index > 0 {
+		if err = dbase.Batch(batch); err != nil {
+			return count, err
+		}
+		count = count + index
+	}
 	return count, nil
 }
-- 
2.43.0


From 90d70b38ba34ee169714d210336dc2d897a60248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 22/50] fix: batches of a read-only database refuse writes
 instead of being nil

---
 db/readonly.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/db/readonly.go b/db/readonly.go
index 42c571e..d06f8ad 100644
--- a/db/readonly.go
+++ b/db/readonly.go
@@ -34,7 +34,7 @@ func (r *readOnlyDB) Delete(key []byte) error {
 }
 
 func (r *readOnlyDB) NewBatch() Batch {
-	return nil
+	return readOnlyBatch{}
 }
 
 func (r *readOnlyDB) Batch(batch Batch) error {
@@ -45,6 +45,20 @@ func (r *readOnlyDB) Close() error {
 	return ErrReadOnly
 }
 
+type readOnlyBatch struct{}
+
+func (readOnlyBatch) Put(key, value []byte) error {
+	return ErrReadOnly
+}
+
+func (readOnlyBatch) Delete(key []byte) error {
+	return ErrReadOnly
+}
+
+func (readOnlyBatch) Size() int {
+	return 0
+}
+
 type temporaryDB struct {
 	read    Database
 	mem     Database
-- 
2.43.0


From 4cff93454737e99abc85624b7c17f33bdfc22475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 23/50] fix: a key that ends inside a node prefix is a
 different key

---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 4b83ccc..f6aa891 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -278,7 +278,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return nil, false
 	}
 
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
 			return startNode.value, true
 		} else {
@@ -374,7 +374,7 @@ func (t *Trie) insert(startNode *node, prefixString []byte, offset int, value in
 	startNode.generation = t.gen
 
 	// set value to current node and return
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		// no more prefix, no more actions
 		changed, _, delta := startNode.setValue(value)
 		t.valueCount = t.valueCount + delta
@@ -518,7 +518,7 @@ func (t *Trie) delete(startNode *node, prefixString []byte, offset int) (changed
 	startNode.generation = t.gen
 
 	// remove current node value, if no more prefix
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		changed, shouldRemove, oldValue = t.removeValue(startNode)
 		return
 	}
-- 
2.43.0


From 8bd3465723d1126b41a2f76ced87b05a1fbbc931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 24/50] fix: reversed iteration returns the value of a node
 that has a child at index 0

---
 trie/iterator.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7aee241..200f691 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -363,25 +363,20 @@ func (rt *reversedValueIterator) Next() bool {
 				_ = rt.trie.expandNodeValue(last.node)
 			}
 			last.index--
-			for last.index >= 0 {
-				if last.node.children[last.index] == nil {
-					// nil child, ignore
-					last.index--
-					if last.index < 0 {
-						// check value when the reversedTrace just before poping out
-						if last.node.hasValue() {
-							return true
-						} else {
-							// shortcut, pop node if there's no value
-							_ = last.node.collapse()
-							rt.stack = rt.stack[:len(rt.stack)-1]
-						}
-					}
-				} else {
-					// push child node to stack
-					rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
-					break
-				}
+			for last.index >= 0 && last.node.children[last.index] == nil {
+				// nil child, ignore
+				last.index--
+			}
+			if last.index >= 0 {
+				// push child node to stack
+				rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
+			} else if last.node.hasValue() {
+				// check value when the reversedTrace just before poping out
+				return true
+			} else {
+				// shortcut, pop node if there's no value
+				_ = last.node.collapse()
+				rt.stack = rt.stack[:len(rt.stack)-1]
 			}
 		}
 	}
-- 
2.43.0


From 5a9d6346012529b7db328cbbd0ab99b8b407e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 25/50] fix: a chopped history tree can be committed and loaded
 again

---
 trie/historytree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index b59dfe4..8d4452b 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1714,6 +1714,8 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 	}
 	node := NewTreeNode()
 	node.isLeaf = n.isLeaf
+	// the new node has never been saved
+	node.isDirty = true
 	if n.isLeaf {
 		if n.Leafs[index] == nil {
 			return nil, false, fmt.Errorf("no leaf value at index:%d", index)
@@ -1766,6 +1768,10 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 func (h *HistoryTree) Chop(byKey uint64) (*HistoryTree, error) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	// the new tree shares the saved nodes of this one
+	if err := h._commit(); err != nil {
+		return nil, fmt.Errorf("commit failed: %v", err)
+	}
 	prefix := heightToPrefix(byKey)
 	cursor := h.root
 	var newroot, lastnode, newnode *TreeNode
-- 
2.43.0


From 9e8a18ff3f7e4a880d55d14282df22bbed8befbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 26/50] fix: a history tree node that cannot be loaded keeps
 its hash

---
 trie/historytree.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 8d4452b..ed82970 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1043,8 +1043,8 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		return common.ErrNil
 	}
 
-	n.Reset()
 	if len(root) == 0 || bytes.Compare(root, common.NilHashSlice) == 0 {
+		n.Reset()
 		return nil
 	}
 
@@ -1054,17 +1054,19 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 	}
 
 	if len(content) == 0 {
-		return nil
+		return common.ErrNotFound
 	}
 
+	// n keeps its hash until its content has been completely read
+	loaded := NewTreeNode()
 	loadEntire := false
 
 	// When the first byte is 0xff, it indicates that the content is the serialization of the
 	// *serialNode; otherwise, it indicates that the content is only the value
 	if content[0] == 0x1 {
-		n.isLeaf = true
+		loaded.isLeaf = true
 	} else if content[0] == 0x0 {
-		n.isLeaf = false
+		loaded.isLeaf = false
 	} else if content[0] == 0xff {
 		loadEntire = true
 	} else {
@@ -1078,11 +1080,12 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		if err = rtl.Decode(vr, sn); err != nil {
 			return err
 		}
-		n.fromSerialNode(adapter, sn)
-	} else {
-		err = n.decodeDescendants(adapter, vr)
+		loaded.fromSerialNode(adapter, sn)
+	} else if err = loaded.decodeDescendants(adapter, vr); err != nil {
+		return err
 	}
-	return err
+	*n = *loaded
+	return nil
 }
 
 // Remove all ancestors on the path indicated by prefix from the Branchs cache
@@ -1108,7 +1111,7 @@ func (n *TreeNode) clearAncestors(prefix []byte) error {
 }
 
 func (n *TreeNode) putValue(adapter db.DataAdapter, prefix []byte, hashs []byte) error {
-	if n.isCollapsed() {
+	if n.isCollapsed() && len(prefix) > 0 {
 		if adapter == nil {
 			return common.ErrNoAdapter
 		}
-- 
2.43.0


From e5ad331e4aa55cf143fd3a1087287fc9ede99639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 27/50] fix: a trie node that cannot be decoded stays collapsed

---
 trie/trie.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index f6aa891..7863d80 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -599,9 +599,12 @@ func (t *Trie) expandNode(node *node) error {
 		return fmt.Errorf("load %s data error: %v", node, err)
 	}
 	buf := rtl.NewValueReader(bytes.NewBuffer(nodebytes), 256)
-	if err = rtl.Decode(buf, node); err != nil {
+	// node stays collapsed until its content has been completely read
+	loaded := NewNodeWithFuncs(hashes, node.generation, node.valueEncode, node.valueDecode, node.valueHasher)
+	if err = rtl.Decode(buf, loaded); err != nil {
 		return fmt.Errorf("decode nodebytes@[%x] DA:%s error: %v", hashes, t.nodeAdapter, err)
 	}
+	node.prefix, node.children, node.valuehash = loaded.prefix, loaded.children, loaded.valuehash
 	if node.inErrorStatus() {
 		log.Warnf("[BUGFIX] an error node found:%v, nodeHash:%x, nodeValue:%x", node, hashes, nodebytes)
 		// oldprefix := node.prefix
-- 
2.43.0


From b389a2ac9fb3969acd7714559252c8b80d5bf915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 28/50] fix: CollapseBefore reports a missing sibling instead
 of a panic

---
 trie/historytree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index ed82970..95c2df4 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -380,6 +380,9 @@ func (h *HistoryTree) CollapseBefore(key uint64) error {
 	if parentNode.IsLeaf() {
 		return common.ErrIllegalStatus
 	}
+	if parentNode.Children[index-1] == nil {
+		return ErrMissingChild
+	}
 	if parentNode.Children[index-1].isDirty {
 		return common.ErrIllegalStatus
 	}
-- 
2.43.0


From c21f6628012cd30300b2ce2d04aa5b3771415953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 29/50] fix: a failed commit of a revertable tree can still be
 rolled back

---
 trie/revertable.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index 98c6bd0..bea73a2 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -108,6 +108,12 @@ func (r *RevertableTrie) HashValue() (hashValue []byte, err error) {
 func (r *RevertableTrie) CommitAndHash() ([]byte, error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	if r.Live != nil {
+		// a failed commit leaves the origin as it was
+		if err := r.Live.Commit(); err != nil {
+			return nil, err
+		}
+	}
 	r._prepareCommit()
 	return r.Origin.CommitAndHash()
 }
@@ -194,6 +200,12 @@ func (r *RevertableTrie) _prepareCommit() {
 func (r *RevertableTrie) Commit() error {
 	r.lock.Lock()
 	defer r.lock.Unlock()
+	if r.Live != nil {
+		// a failed commit leaves the origin as it was
+		if err := r.Live.Commit(); err != nil {
+			return err
+		}
+	}
 	r._prepareCommit()
 	return r.Origin.Commit()
 }
@@ -382,6 +394,12 @@ func (h *RevertableHistoryTree) HashValue() ([]byte, error) {
 func (h *RevertableHistoryTree) CommitAndHash() ([]byte, error) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Live != nil {
+		// a failed commit leaves the origin as it was
+		if err := h.Live.Commit(); err != nil {
+			return nil, err
+		}
+	}
 	h._prepareCommit()
 	return h.Origin.CommitAndHash()
 }
@@ -449,6 +467,12 @@ func (h *RevertableHistoryTree) _prepareCommit() {
 func (h *RevertableHistoryTree) Commit() error {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Live != nil {
+		// a failed commit leaves the origin as it was
+		if err := h.Live.Commit(); err != nil {
+			return err
+		}
+	}
 	h._prepareCommit()
 	return h.Origin.Commit()
 }
-- 
2.43.0


From d8a027aecf94a851511751baff50872344894a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 30/50] fix: RevertTo the first checkpoint restores it, SetTo
 drops the checkpoints

---
 trie/revertable.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index bea73a2..eb4af61 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -79,6 +79,7 @@ func (r *RevertableTrie) SetTo(newTrie *Trie) error {
 	}
 	r.Origin = newTrie
 	r.Live = nil
+	r.chkpts = nil
 	return nil
 }
 
@@ -327,12 +328,8 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 		return ErrNotExist
 	}
 	r.chkpts = r.chkpts[:checkPoint]
-	if len(r.chkpts) == 0 {
-		r.chkpts = nil
-		r.Live = nil
-	} else {
-		r.Live = r.Live.Inherit(root)
-	}
+	// Live is nil only when nothing has changed since the checkpoint
+	r.Live = r.Live.Inherit(root)
 	return nil
 }
 
-- 
2.43.0


From d26a648cff14502593c3d62bcab9919750d67341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 31/50] fix: Dump reports the value of the empty key once

---
 trie/trie.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 7863d80..26fa123 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1059,9 +1059,6 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				if len(n.prefix) > 0 {
 					prefix = append(prefix, n.prefix...)
 				}
-				if len(prefix) == 0 {
-					valueCallback(nil, valuebytes)
-				}
 				if len(prefix)%2 != 0 {
 					return fmt.Errorf("odd length prefix(%s) found a (%d)bytes value",
 						string(prefixToHexstring(prefix)), len(valuebytes))
-- 
2.43.0


From a6054b01c8dfde55913626cf0de0b22b919d2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 32/50] fix: BatchPutter without a batch size never commits
 instead of dividing by zero

---
 trie/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/utils.go b/trie/utils.go
index 090ff08..f443af9 100644
--- a/trie/utils.go
+++ b/trie/utils.go
@@ -201,7 +201,7 @@ func NewBatchPutter(t *Trie, mod int) *BatchPutter {
 func (p *BatchPutter) Put(key []byte, value interface{}) (bool, error) {
 	if p.t.Put(key, value) {
 		p.count++
-		if p.count%p.m == 0 {
+		if p.m > 0 && p.count%p.m == 0 {
 			if err := p.t.Commit(); err == nil {
 				if err = p.t.Collapse(); err != nil {
 					return true, err
-- 
2.43.0


From ad867ee95307129202ac8ad971ead918422569a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 33/50] fix: a trie without a store keeps the nodes it cannot
 reload

---
 trie/trie.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 26fa123..acdc750 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -663,7 +663,7 @@ func (t *Trie) Collapse() error {
 	defer t.lock.Unlock()
 
 	if t.root != nil {
-		if t.root.canCollapse() {
+		if t.canReload() && t.root.canCollapse() {
 			if err := t.root.collapse(); err != nil {
 				return err
 			}
@@ -677,6 +677,12 @@ func (t *Trie) Collapse() error {
 	return nil
 }
 
+// canReload returns whether a collapsed node can be expanded again: without adapters the nodes
+// and the values are only in memory
+func (t *Trie) canReload() bool {
+	return t.nodeAdapter != nil && t.valueAdapter != nil
+}
+
 func (t *Trie) flushToDB(flushRoot *node) error {
 	// traverse the subtree of flushRoot in depth-first mode, save the dirty nodes
 	return t.iterateSave(flushRoot)
@@ -696,13 +702,13 @@ func (t *Trie) iterateSave(node *node) error {
 			return err
 		}
 	} else {
-		if node.shouldCollapse(t.gen, maxGenSize) {
+		if t.canReload() && node.shouldCollapse(t.gen, maxGenSize) {
 			err := node.collapse()
 			if err != nil {
 				log.Errorf("[COLLAPSE] err %v", err)
 			}
 		} else {
-			if node.shouldCollapseValue(maxValLength) {
+			if t.valueAdapter != nil && node.shouldCollapseValue(maxValLength) {
 				_ = node.collapseValue()
 			}
 		}
-- 
2.43.0


From 9cea6e586f9606f370e5e758d339e510bb3188f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 34/50] fix: a revertable tree keeps its origin readable when
 it cannot be saved

---
 trie/revertable.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index eb4af61..20fdc79 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -90,8 +90,15 @@ func (r *RevertableTrie) checkLiveLocked() error {
 		if r.Origin == nil {
 			return common.ErrNil
 		}
-		r.Live = r.Origin
-		r.Origin = r.Live.Clone()
+		// what has not been saved cannot be read by the clone
+		if err := r.Origin.Commit(); err != nil {
+			return err
+		}
+		origin := r.Origin.Clone()
+		if origin == nil {
+			return common.ErrNil
+		}
+		r.Live, r.Origin = r.Origin, origin
 	}
 	return nil
 }
@@ -355,8 +362,15 @@ func (h *RevertableHistoryTree) _checkLive() error {
 		if h.Origin == nil {
 			return common.ErrNil
 		}
-		h.Live = h.Origin
-		h.Origin = h.Live.Clone()
+		// what has not been saved cannot be read by the clone
+		if err := h.Origin.Commit(); err != nil {
+			return err
+		}
+		origin := h.Origin.Clone()
+		if origin == nil {
+			return common.ErrNil
+		}
+		h.Live, h.Origin = h.Origin, origin
 	}
 	return nil
 }
-- 
2.43.0


From aa8145c8ce6a12f772ea16036fc170746cc9552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:17 +0000
Subject: [PATCH 35/50] fix: revertable trees without an origin answer instead
 of panicking

---
 trie/revertable.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index 20fdc79..435dedc 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -123,6 +123,9 @@ func (r *RevertableTrie) CommitAndHash() ([]byte, error) {
 		}
 	}
 	r._prepareCommit()
+	if r.Origin == nil {
+		return nil, common.ErrNil
+	}
 	return r.Origin.CommitAndHash()
 }
 
@@ -215,6 +218,9 @@ func (r *RevertableTrie) Commit() error {
 		}
 	}
 	r._prepareCommit()
+	if r.Origin == nil {
+		return common.ErrNil
+	}
 	return r.Origin.Commit()
 }
 
@@ -266,6 +272,9 @@ func (r *RevertableTrie) PreHashValue() ([]byte, error) {
 	defer r.lock.Unlock()
 
 	if r.Live == nil {
+		if r.Origin == nil {
+			return nil, nil
+		}
 		return r.Origin.HashValue()
 	}
 	return r.Live.HashValue()
@@ -412,6 +421,9 @@ func (h *RevertableHistoryTree) CommitAndHash() ([]byte, error) {
 		}
 	}
 	h._prepareCommit()
+	if h.Origin == nil {
+		return nil, common.ErrNil
+	}
 	return h.Origin.CommitAndHash()
 }
 
@@ -485,24 +497,36 @@ func (h *RevertableHistoryTree) Commit() error {
 		}
 	}
 	h._prepareCommit()
+	if h.Origin == nil {
+		return common.ErrNil
+	}
 	return h.Origin.Commit()
 }
 
 func (h *RevertableHistoryTree) Has(key uint64) bool {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Origin == nil {
+		return false
+	}
 	return h.Origin.Has(key)
 }
 
 func (h *RevertableHistoryTree) Get(key uint64) (value []byte, exist bool) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Origin == nil {
+		return nil, false
+	}
 	return h.Origin.Get(key)
 }
 
 func (h *RevertableHistoryTree) GetProof(key uint64) (value []byte, proofs ProofChain, ok bool) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	if h.Origin == nil {
+		return nil, nil, false
+	}
 	return h.Origin.GetProof(key)
 }
 
-- 
2.43.0


From ed1b04abe32d99e4710124a447cb2bd1f6ba2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:17 +0000
Subject: [PATCH 36/50] fix: clones and rebased copies of a trie keep its
 number of values

---
 trie/trie.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index acdc750..8fe85db 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -174,6 +174,7 @@ func (t *Trie) Clone() *Trie {
 		nodeAdapter:  t.nodeAdapter,
 		valueAdapter: t.valueAdapter,
 		gen:          t.gen,
+		valueCount:   t.valueCount,
 	}
 }
 
@@ -204,6 +205,7 @@ func (t *Trie) Rebase(dbase db.Database) (*Trie, error) {
 		nodeAdapter:  na,
 		valueAdapter: va,
 		gen:          0,
+		valueCount:   t.valueCount,
 	}, nil
 }
 
-- 
2.43.0


From 20ea543b12c4ce31b44d6234eda37779d42536aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 37/50] fix: an existence proof reports a node that cannot be
 loaded instead of absence

---
 trie/trie.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 8fe85db..22637b0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -270,27 +270,32 @@ func (t *Trie) Get(key []byte) (interface{}, bool) {
 	return t.get(t.root, prefix, 0, nil)
 }
 
+func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool) {
+	value, exist, _ := t.find(startNode, prefixString, offset, trace)
+	return value, exist
+}
+
 // Take startNode as the root and prefixString[offset:] as the key to get the value in the node
 // of the corresponding location. And the node paths are sequentially appended to the trace parameter.
 // Each nodePosition in trace:
 // 		nodePosition.nodeInPos: the node selected for the current lookup
 // 		nodePosition.pos: the index of current startNode.children[] which is the node selected
-func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool) {
+func (t *Trie) find(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool, error) {
 	if err := t.fullExpand(startNode); err != nil {
-		return nil, false
+		return nil, false, err
 	}
 
 	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
-			return startNode.value, true
+			return startNode.value, true, nil
 		} else {
-			return nil, false
+			return nil, false, nil
 		}
 	}
 
 	if startNode.isEmpty() {
 		// current node is empty or
-		return nil, false
+		return nil, false, nil
 	}
 
 	suffix := prefixString[offset:]
@@ -308,19 +313,19 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		// input prefix is starting with current node's prefix
 		if inRemains == 0 {
 			// if current node prefix matches with input prefix, return current node value
-			return startNode.value, startNode.value != nil
+			return startNode.value, startNode.value != nil, nil
 		}
 		// inRemains > 0, go down the path by child node
 		childIndex := int(suffix[matchLength])
 		if startNode.children[childIndex] == nil {
 			// no child in the path of prefix, return
-			return nil, false
+			return nil, false, nil
 		}
 		// expand child first
 		if startNode.children[childIndex].isCollapsed() {
 			if err := t.expandNode(startNode.children[childIndex]); err != nil {
 				log.Errorf("expand %s error: %s", startNode.children[childIndex], err)
-				return nil, false
+				return nil, false, err
 			}
 		}
 
@@ -328,10 +333,10 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		if trace != nil {
 			*trace = append(*trace, nodePosition{suffix[matchLength], startNode.children[childIndex]})
 		}
-		return t.get(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
+		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
 	} else {
 		// there're remains in current node's prefix not match with input prefix, not found
-		return nil, false
+		return nil, false, nil
 	}
 }
 
@@ -891,7 +896,10 @@ func (t *Trie) getExistenceLocked(key []byte) (exist bool, proofs ProofChain, er
 	trace := make([]nodePosition, 1, 16)
 	trace[0] = nodePosition{pos: childrenLength + 1, nodeInPos: t.root}
 	prefix := keyToPrefix(key)
-	_, exist = t.get(t.root, prefix, 0, &trace)
+	if _, exist, err = t.find(t.root, prefix, 0, &trace); err != nil {
+		// neither existence nor absence can be proved
+		return false, nil, err
+	}
 
 	nodeChild := nodePosition{16, nil}
 	l := len(trace)
-- 
2.43.0


From 70794e7df84fc1009653f447a0155d27c7e7957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:25 +0000
Subject: [PATCH 38/50] fix: an exhausted proof chain does not prove absence

---
 trie/proof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/proof.go b/trie/proof.go
index 6ae0ba0..62bf108 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -650,7 +650,8 @@ func (c ProofChain) Exist(keyprefix []byte) (*common.Hash, error) {
 		// matched to look down
 		keyprefix = suffix
 	}
-	return nil, nil
+	// the chain ends before the existence of the key is decided
+	return nil, ErrMismatchProof
 }
 
 // whether the value indicated by the key exists in the trie that generates the proofchain
-- 
2.43.0


From 8569c8ff2dbe10bd2eca9e60ef521e85ca22b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 39/50] fix: proofs and history tree nodes are read completely,
 not by a single Read

---
 hash.go             | 6 +++---
 trie/historytree.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hash.go b/hash.go
index 77dc56f..8b7eeea 100644
--- a/hash.go
+++ b/hash.go
@@ -476,14 +476,14 @@ func writeArray(array []byte, buf []byte, w io.Writer) error {
 }
 
 func readArray(sizeBuf []byte, r io.Reader) ([]byte, error) {
-	_, err := r.Read(sizeBuf)
+	_, err := io.ReadFull(r, sizeBuf)
 	if err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint16(sizeBuf)
 	array := make([]byte, size)
 	if size > 0 {
-		_, err = r.Read(array)
+		_, err = io.ReadFull(r, array)
 		if err != nil {
 			return array, err
 		}
@@ -573,7 +573,7 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 
 func (p *MerkleProofs) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
diff --git a/trie/historytree.go b/trie/historytree.go
index 95c2df4..ed4e867 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1680,7 +1680,7 @@ func (n *TreeNode) decodeDescendants(adapter db.DataAdapter, vr rtl.ValueReader)
 
 func (n *TreeNode) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From b78deb499a23ef525633a49c3368e4306b46d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:09 +0000
Subject: [PATCH 40/50] fix: ParseSelector reports a selector without arguments
 instead of panicking

---
 abi/selector_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index d5472e3..c67af52 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -84,7 +84,10 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 }
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
-	if len(unescapedSelector) == 0 || unescapedSelector[0] != '(' {
+	if len(unescapedSelector) == 0 {
+		return nil, "", fmt.Errorf("expected '(', got end of selector")
+	}
+	if unescapedSelector[0] != '(' {
 		return nil, "", fmt.Errorf("expected '(', got %c", unescapedSelector[0])
 	}
 	parsedType, rest, err := parseType(unescapedSelector[1:])
-- 
2.43.0


From 0753cf56870fbdb502aa560ae8a4c4b9618e8640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:09 +0000
Subject: [PATCH 41/50] fix: MakeTopics reports values that do not fit a topic
 instead of panicking

---
 abi/topics.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/abi/topics.go b/abi/topics.go
index 5ff3aa6..94edb89 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -41,6 +41,9 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 				copy(topic[common.HashLength-common.AddressLength:], rule[:])
 			case *big.Int:
 				blob := rule.Bytes()
+				if len(blob) > common.HashLength {
+					return nil, fmt.Errorf("indexed integer of %d bits does not fit a topic", rule.BitLen())
+				}
 				copy(topic[common.HashLength-len(blob):], blob)
 			case bool:
 				if rule {
@@ -86,6 +89,9 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 				switch {
 				// static byte array
 				case val.Kind() == reflect.Array && reflect.TypeOf(rule).Elem().Kind() == reflect.Uint8:
+					if val.Len() > common.HashLength {
+						return nil, fmt.Errorf("indexed array of %d bytes does not fit a topic", val.Len())
+					}
 					reflect.Copy(reflect.ValueOf(topic[:val.Len()]), val)
 				default:
 					return nil, fmt.Errorf("unsupported indexed type: %T", rule)
-- 
2.43.0


From 93021006f2f7fa4fb695f43fe9c2743cc3e6d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:11 +0000
Subject: [PATCH 42/50] fix: ForPrint takes strings, arrays and empty values
 without panicking

---
 bytes.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bytes.go b/bytes.go
index 6112388..9cc3c18 100644
--- a/bytes.go
+++ b/bytes.go
@@ -23,6 +23,12 @@ import (
 )
 
 func startAndEnd(length, startPos, endPos int) (start, end int) {
+	if length <= 0 {
+		return 0, 0
+	}
+	if startPos < 0 {
+		startPos = 0
+	}
 	if startPos >= length {
 		startPos = length - 1
 	}
@@ -60,8 +66,10 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		if typ.Elem().Kind() != reflect.Uint8 {
 			return []byte{}
 		}
-		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		array := make([]byte, val.Len())
+		reflect.Copy(reflect.ValueOf(array), val)
+		startPos, endPos = startAndEnd(len(array), startPos, endPos)
+		s = array[startPos:endPos]
 	case reflect.Slice:
 		if val.IsNil() || typ.Elem().Kind() != reflect.Uint8 || val.Len() == 0 {
 			return []byte{}
@@ -70,7 +78,7 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		s = val.Slice(startPos, endPos).Bytes()
 	case reflect.String:
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = []byte(val.String()[startPos:endPos])
 	default:
 		return []byte{}
 	}
-- 
2.43.0


From 7a0b1341e3d21036ffb2dce19898788d1ffdf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:14 +0000
Subject: [PATCH 43/50] fix: loading a small combined trie reports a key whose
 trie is missing

---
 trie/combinedtrie.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 14a0155..39abfdb 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -280,7 +280,8 @@ func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, v
 		}
 		if err := rtl.Decode(vr, v); err != nil {
 			if err == io.EOF {
-				break
+				// a key without its trie
+				return io.ErrUnexpectedEOF
 			}
 			return err
 		}
-- 
2.43.0


From 6044c75159515be2e0da85ee29a66a63aab10e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 44/50] fix: BigInt.Compare orders nil, which counts as zero,
 above negative numbers

---
 math/big.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/math/big.go b/math/big.go
index 1da29d3..28f953d 100644
--- a/math/big.go
+++ b/math/big.go
@@ -623,17 +623,17 @@ func (b *BigInt) IsZero() bool {
 }
 
 func (b *BigInt) Compare(o *BigInt) int {
-	if b.IsZero() && o.IsZero() {
-		return 0
+	if o.IsZero() {
+		return b.Sign()
+	}
+	if b.IsZero() {
+		return -o.Sign()
 	}
 	return CompareBigInt((*big.Int)(b), (*big.Int)(o))
 }
 
 func (b *BigInt) CompareInt(i *big.Int) int {
-	if b.IsZero() && (*BigInt)(i).IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), i)
+	return b.Compare((*BigInt)(i))
 }
 
 func (b *BigInt) MustPositive() *BigInt {
-- 
2.43.0


From bd2392569fc788b05b31dcd7435b2d376ba9427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 45/50] fix: NodeIDs.Union, NodeIDs.Remove and
 BytesIntersectionMap answer in a fixed order

---
 basic.go | 2 ++
 bytes.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/basic.go b/basic.go
index 1d542e0..1409de5 100644
--- a/basic.go
+++ b/basic.go
@@ -548,6 +548,7 @@ func (ns NodeIDs) Union(os NodeIDs) NodeIDs {
 	for k := range m {
 		r = append(r, k)
 	}
+	sort.Sort(r) // the order must not depend on the map
 	return r
 }
 
@@ -569,6 +570,7 @@ func (ns NodeIDs) Remove(os NodeIDs) NodeIDs {
 	for k, _ := range m {
 		r = append(r, k)
 	}
+	sort.Sort(r) // the order must not depend on the map
 	return r
 }
 
diff --git a/bytes.go b/bytes.go
index 9cc3c18..2e4e81d 100644
--- a/bytes.go
+++ b/bytes.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 func startAndEnd(length, startPos, endPos int) (start, end int) {
@@ -301,6 +302,10 @@ func BytesIntersectionMap(a map[string]struct{}, b [][]byte) [][]byte {
 	for bs, _ := range rm {
 		r = append(r, []byte(bs))
 	}
+	// the order must not depend on the map
+	sort.Slice(r, func(i, j int) bool {
+		return bytes.Compare(r[i], r[j]) < 0
+	})
 	return r
 }
 
-- 
2.43.0


From d1b1092ca9009a83974005d43e16e14d448faae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 46/50] fix: a service whose Init or Start failed is not
 initialized or started

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index e111139..b83f39e 100644
--- a/types.go
+++ b/types.go
@@ -157,12 +157,14 @@ func (s *AbstractService) SetChanger(changer ServiceStateChanger) {
 func (s *AbstractService) Init() error {
 	s.serviceLocker.Lock()
 	defer s.serviceLocker.Unlock()
+	status := s.serviceStatus
 	if err := s.serviceStatus.CheckInit(); err != nil {
 		return err
 	}
 
 	if s.InitFunc != nil {
 		if err := s.InitFunc(); err != nil {
+			s.serviceStatus = status
 			return err
 		}
 	}
@@ -172,12 +174,14 @@ func (s *AbstractService) Init() error {
 func (s *AbstractService) Start() error {
 	s.serviceLocker.Lock()
 	defer s.serviceLocker.Unlock()
+	status := s.serviceStatus
 	if err := s.serviceStatus.CheckStart(); err != nil {
 		return err
 	}
 
 	if s.StartFunc != nil {
 		if err := s.StartFunc(); err != nil {
+			s.serviceStatus = status
 			return err
 		}
 	}
-- 
2.43.0


From e386c8dbddb4ad53c89d0e03ae66bdae472f293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 47/50] fix: Exp does not change its base

---
 math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/big.go b/math/big.go
index 28f953d..43bdd88 100644
--- a/math/big.go
+++ b/math/big.go
@@ -258,6 +258,7 @@ func S256(x *big.Int) *big.Int {
 // Courtesy @karalabe and @chfast
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 009af33a0f8fe143ff48a80c2ee84c78fee4c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 48/50] fix: Pack does not hand out the id of the method's
 definition

---
 abi/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/abi.go b/abi/abi.go
index e040ffd..bc56966 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -78,7 +78,7 @@ func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) {
 		return nil, err
 	}
 	// Pack up the method ID too if not a constructor and return
-	return append(method.ID, arguments...), nil
+	return append(append(make([]byte, 0, len(method.ID)+len(arguments)), method.ID...), arguments...), nil
 }
 
 func (abi ABI) PackEventArgs(name string, args ...interface{}) ([]byte, error) {
-- 
2.43.0


From b9c020b6f7578731a70511220bba8ec919c1664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 49/50] fix: MerkleHashCompleteOld does not write behind the
 caller's hash list

---
 hash.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash.go b/hash.go
index 8b7eeea..e4f89d2 100644
--- a/hash.go
+++ b/hash.go
@@ -815,6 +815,7 @@ func MerkleHashCompleteOld(hashList [][]byte, toBeProof int, proofs *MerkleProof
 	for max < len(hashList) {
 		max <<= 1
 	}
+	hashList = hashList[:len(hashList):len(hashList)]
 	for i := len(hashList); i < max; i++ {
 		hashList = append(hashList, CopyBytes(NilHashSlice))
 	}
-- 
2.43.0


From 95de6e27eb97437977d131cd02fd7b8acc0ec0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 50/50] fix: HashRipemd160 hashes its argument

---
 hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index e4f89d2..7b149f9 100644
--- a/hash.go
+++ b/hash.go
@@ -750,7 +750,8 @@ func CipherHash256(pro HashProvider, in ...[]byte) []byte {
 
 func HashRipemd160(data []byte) []byte {
 	md := ripemd160.New()
-	return md.Sum(data)
+	_, _ = md.Write(data)
+	return md.Sum(nil)
 }
 
 func SlicesToHashs(bss [][]byte) [][]byte {
-- 
2.43.0

