prop("T03","A tree change drops every cached hash that depends on it",
"Whenever the content of a trie node (prefix, child, value) or of a history tree node (child, leaf) changes, the cached hash of that node, its cached value hash or serialized value, the branch hashes above the changed index, and those of every node on the path from the root are dropped, and all these nodes are marked dirty. The root hash computed afterwards can therefore never be one remembered from before the change.",
["histories","inputs"],"every insertion, deletion, split, merge, append and proof merge at every position of every tree",
"Tests compare root hashes for a few histories; a stale hash needs a change after hashing at exactly the node whose invalidation was forgotten.",
["trie/node.go","trie/trie.go","trie/historytree.go"],[("prefixChanged/valueChanged/childChanged","trie/node.go"),("clearAncestors + isDirty","trie/historytree.go")],
"path-sensitive effect analysis over SSA: pending invalidation obligations per written node field, discharged on every path or transferred to callers",
"Decides that dependent caches are dropped and dirtiness propagates; not that the hash function itself is right.")
prop("T04","A node is read back only from its own hash, completely or not at all",
"Reading a trie or history tree node or a value from the store uses the hash recorded in that very node, decodes into a new object and gives the node its content only after decoding succeeded, then all of it; a failed read leaves the node collapsed so that it can be retried. Lookups, updates and full expansion look at a node's content only when it is known to be loaded. A dump writes the loaded bytes under the key they were loaded from.",
["fault_sequences","histories","inputs"],"every load, every failing or truncated stored node and every path to a collapsed node",
"Tests use a store that never fails and always returns whole nodes; half-loaded nodes need a failure in the middle of a decoding.",
["trie/trie.go","trie/node.go","trie/historytree.go"],[("expandNode/expandValue","trie/trie.go, trie/node.go"),("readFull","trie/historytree.go"),("Dump","trie/trie.go")],
"path automata over SSA with value terms (load key, decode target, all-or-nothing assignment, expanded-before-read)",
"The store is trusted to return the bytes saved under a key; iterators and printing are outside.")
prop("T02","Committing a tree writes every dirty node, under the hash of what is written",
"A commit of a trie or history tree visits every child that may be dirty and saves it before its parent is marked clean; a node is saved as the bytes of its own serialization, taken in an empty buffer, under the very hash recorded for it, a value too large to be embedded under its value hash with the bytes that were hashed; a node is marked clean only after all its saves succeeded. After a successful commit everything reachable from the root hash can be read back.",
["histories","fault_sequences"],"every tree shape, every subset of dirty nodes, every failing save",
"Tests commit small trees once into a map; an unsaved dirty node or one marked clean too early shows only when that node is collapsed and read again later.",
["trie/trie.go","trie/historytree.go"],[("iterateSave/saveOneNode/flushToDB","trie/trie.go"),("commitNode/saveFull/saveChop","trie/historytree.go")],
"path automata over SSA: full traversal of children, save-before-clean, key/bytes provenance terms",
"That the store keeps what is saved is trusted; the encoder itself is covered by others.")
prop("T05","A revertable tree keeps the committed state apart from the live one",
"Changes through a RevertableTrie or RevertableHistoryTree go to the live tree only; reads of the origin answer from the origin, reads of the live state from the live tree if there is one and else the origin. The live tree is built on a clone taken after the origin was committed. A commit makes the live tree the origin only after the live tree was committed; Rollback discards the live tree; both, and replacing the origin, forget live tree and checkpoints together. RevertTo checks the hash recorded for the checkpoint and keeps exactly the checkpoints before it.",
["histories","fault_sequences"],"every sequence of changes, checkpoints, reverts, rollbacks and commits, with and without failing stores",
"Tests run one change-commit-rollback sequence each; leaks between origin and live need a particular order of operations or a failing store.",
["trie/revertable.go"],[("checkLiveLocked/_checkLive","trie/revertable.go"),("PreCommit/RevertTo/Commit/Rollback","trie/revertable.go")],
"typestate analysis over SSA paths of the origin/live/checkpoint fields",
"Sharing inside Clone is left to T03/T10.")
prop("T07","A key finds, sets and removes only the value stored under exactly that key",
"Get, Put and Delete of the Trie walk down from the root with the whole key: they return, set or remove the value of an existing node only where both the prefix of the node and the key are used up, go down only where the prefix of the node is used up, to the child of the next nibble of the key and with the position moved past prefix and nibble, and put new nodes (also when a node is split) where the remaining nibbles lead. So the keys of a trie never answer for each other, whichever of them are prefixes of others.",
["inputs","histories"],"every set of keys, prefixes of each other or not, and every operation on any of them",
"Tests use fixed-length keys or a few hand-made ones; confusions need keys that end inside a node prefix or part at particular nibbles.",
["trie/trie.go","trie/node.go"],[("find/insert/delete","trie/trie.go"),("keyToPrefix/matchPrefix","trie/utils.go")],
"path-sensitive symbolic positions (linear terms over SSA) along the recursive key walkers",
"keyToPrefix and matchPrefix are taken to compute what their names say.")
prop("T08","The value count of a trie follows every change of a value exactly once",
"Every change of a node value in a Trie adds its count delta to the count of the trie exactly once on every path, the delta being +1, -1 or 0 exactly as the old and the new value are absent or present; clones and rebased copies take the count over.",
["histories","inputs"],"every sequence of Put and Delete, hitting existing, new, split and merged nodes",
"Tests count a few insertions; a miscount needs a particular node shape (split, merge, overwrite, deletion of an inner value).",
["trie/trie.go","trie/node.go"],[("valueCount","trie/trie.go"),("setValue","trie/node.go")],
"path automaton over SSA: each setValue delta consumed exactly once, case analysis of the delta",
"A trie opened from a root hash starts counting at zero (the count is not stored).")
prop("T06","A proof is accepted only if its hash, its key and its values agree",
"Merging a proof into a history tree happens only after the hash the proof chain gives for the value equals the root hash of the tree and the key of the chain equals the given key, with all errors checked; an existing leaf must equal the value. Verification of a chain against an expected hash is equality of the whole computed hash, and false on every error. Existence proofs of a trie compare node type and prefix of every step with what is left of the key: a value hash is returned only if prefix and key are both used up, nil (absence) only where the key parts from the node's prefix or the node has no such child or value, an exhausted chain with key left is an error; the hash of every step feeds the next one and the root; the order flag and every sibling hash of a step enter the hash.",
["inputs","histories"],"every chain, well-formed or forged, every key and value, every tree shape",
"Tests verify honest proofs and a few corrupted bytes; accepting a wrong proof takes a crafted chain for exactly the comparison that was lost.",
["trie/proof.go","trie/historytree.go","hash.go"],[("ProofChain.Proof/VerifyProofChain/ExistenceProof","trie/proof.go"),("MergeProof","trie/historytree.go"),("MerkleHash*/HashPairOrder","hash.go")],
"path automata over SSA with canonical guard literals (equality terms of hashes and keys, linear terms of prefix lengths) in front of every accepting return or tree change",
"Collision resistance of the hash is assumed.")
prop("T09","Iterating a trie walks a private clone and yields exactly its values",
"Value iterators and reversed iterators of a trie are made on a clone of it, never on the trie itself. IterateAll calls back with exactly the key and value the iterator stands on, leaves entries out only if asked to and only those without key or value, and stops as soon as the callback returns false. An iterator stops only at nodes known to have a value, and moving to the next sibling returns the very child the position is set to.",
["histories","inputs"],"every trie and every interleaving of iteration with changes",
"Tests iterate over unchanged tries; sharing with the live trie shows only when it is changed, committed or collapsed in between.",
["trie/iterator.go","trie/trie.go"],[("ValueIterator/ReversedValueIterator/IterateAll","trie/trie.go"),("traceStack, reversedValueIterator","trie/iterator.go")],
"provenance of the iterated trie and path automata with guard literals over SSA",
"The order of the keys and completeness of the traversal as a whole are not decided.")
prop("T10","Content is dropped from memory only when it can be read back",
"Every place that drops the content of a trie node first knows that the node has no unsaved change and that the trie has the adapters to load it again; the hash it will be found by is computed, without error, before. A history tree node is dropped only when clean after saving, its hash known before and kept after; a subtree is collapsed only if its top is clean. Clones and rebased copies are taken from the root hash only after the content was committed.",
["histories","fault_sequences"],"every sequence of changes, commits and collapses, with or without adapters, with failing saves",
"Tests collapse right after a successful commit on a full database; loss needs a dirty node, a failing save or a trie without adapters at that moment.",
["trie/trie.go","trie/node.go","trie/historytree.go"],[("Collapse/iterateSave","trie/trie.go"),("collapse/collapseValue","trie/node.go"),("collapse/CollapseBefore","trie/historytree.go")],
"path automata over SSA: guard literals (clean, adapters present, hash known) dominating every content drop, per path",
"That the store keeps what was saved is trusted (S properties).")
prop("T11","A history tree takes exactly the next key, and keeps it under that key",
"Append changes a history tree only for the expected key with a non-empty value, walks with the nibbles of that key, and moves the expected key on by exactly one, only after the change succeeded and always then. New and restored trees expect the key after the last one they hold. The recursive walk takes the nibbles one by one, goes down only from inner nodes to the child of the current nibble, creates leaf nodes exactly at the last level and only when appending, and touches leaves only at the last nibble of a leaf node; reads never append.",
["histories","inputs"],"every sequence of appends, gets, restores and every key",
"Tests append from zero in order; wrong placement or accounting needs carry-over at node boundaries, restored trees or refused appends.",
["trie/historytree.go"],[("Append/Get/traceDescendant","trie/historytree.go"),("NewHistoryTree/RestoreTreeFromProofs","trie/historytree.go")],
"path automata over SSA with linear position terms and guard literals",
"Conversion between key and nibbles is trusted.")
