import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
JT="jmt/src/tree.rs"; JC="jmt/src/tree_cache.rs"; JN="jmt/src/node_type.rs"; JM="jmt/src/mock.rs"; JI="jmt/src/iterator.rs"; JR="jmt/src/restore.rs"; JP="jmt/src/types/proof/definition.rs"; JX="jmt/src/tree/ics23_impl.rs"; JV="jmt/src/trie.rs"; JD="jmt/src/db.rs"
PI="pmt/src/inner.rs"; PN="pmt/src/nibbles.rs"; PD="pmt/src/db.rs"; PT="pmt/src/trie_iterator.rs"; PO="pmt/src/node.rs"
p("C01","Versioned tree reads return the latest write at or before the version",
  "For every committed history of writes and deletions, a read of any key at any committed version returns exactly the value of the last write to that key at or before that version, or nothing if that write was a deletion or there was none. Point lookup, presence test, lookup-with-proof and full iteration at that version all agree on it. At a version that was never committed, lookup-with-proof, iteration and root requests report that the version is missing, never an empty or neighbouring tree.",
  ["histories","inputs"],"every sequence of committed write sets (single, multi-version and insert-only batch interfaces; several operations on one key in one set; no-op and empty sets) over every key set, and every key and version read",
  "Tests use a handful of fixed trees or random trees whose final version only is read back; deletion/re-insertion interleavings over several versions with deep shared prefixes are barely sampled.",
  [JT,JC,JM,JV,JI],[("copy-on-write insertion and deletion","jmt/src/tree.rs:put/insert_at*/batch_insert_at"),("versioned value history","jmt/src/mock.rs:put_value/get_value_option")],
  ["VersionedTrie::get/contains/iter","JellyfishMerkleTree::get_with_proof"],
  [("value history","per key list of (version, value)","jmt/src/mock.rs"),("node store","nodes by (version, path)","jmt/src/mock.rs")])
p("C02","Tree root hash is a canonical, injective function of the contents",
  "At every version the root hash equals the sparse Merkle hash of the key/value contents of that version, whatever history, ordering, batching or interface produced those contents. Two versions have equal roots exactly when their contents are equal, and the root announced by a write equals the root read back after it is stored.",
  ["histories","inputs"],"every pair of histories leading to the same or different contents, over every key set and value, through the single-set, multi-set and insert-only batch interfaces",
  "Existing tests compare a few construction orders; deletion collapse, leaf relocation and multi-version batches that must return to an identical root are only sampled at one shape.",
  [JT,JC,JN,"jmt/src/types/proof.rs"],[("collapse of single-leaf internal nodes on deletion","jmt/src/tree.rs:insert_at_internal_node"),("internal node hashing","jmt/src/node_type.rs:InternalNode::hash/merkle_hash"),("root recording","jmt/src/tree_cache.rs:freeze")],
  ["put_value_set(s)/batch_put_value_sets return value","get_root_hash(_option)"])
p("C03","Every proof the versioned tree hands out verifies",
  "At every committed version and for every key, the returned proof verifies against that version's root as a membership proof of the stored value when the key is present, and as a non-membership proof when it is absent. The proof is the canonical one: the sibling hashes from the key's resting place in the sparse Merkle tree up to the root.",
  ["histories","inputs"],"every reachable tree, version and key, present or absent, including absent keys sharing arbitrarily long prefixes with present ones",
  "Tests verify proofs for present keys and a few random absent ones; absent keys that land on empty slots, on another leaf, or deep under a chain need specific tree shapes.",
  [JT,JN,JP],[("sibling collection","jmt/src/node_type.rs:get_child_with_siblings"),("proof assembly","jmt/src/tree.rs:get_with_proof"),("verification","jmt/src/types/proof/definition.rs:SparseMerkleProof::verify")],
  ["get_with_proof","VersionedTrie::get_proof/verify_proof","SparseMerkleProof::verify*"])
p("C04","No sparse Merkle proof verifies a false claim",
  "A proof is accepted against a root only if its claim is true of the contents that root commits to: no proof, however altered, truncated, extended, recombined or moved to another key or version, is accepted for a value the key does not have, for presence of an absent key, or for absence of a present key. Malformed proofs are rejected with an error, never a crash.",
  ["inputs","histories"],"every tree, root, claim, and every proof derived from honest ones by changing, dropping, adding, reordering or exchanging leaf and sibling hashes",
  "Tests tamper a proof in a few fixed ways for one tree shape; soundness quantifies over all claims and all altered proofs.",
  [JP],[("key/value/prefix checks and root recomputation","jmt/src/types/proof/definition.rs:SparseMerkleProof::verify")],["SparseMerkleProof::verify/verify_existence/verify_nonexistence"])
p("C05","A committed version never changes under later work",
  "Once a version is committed, its root, contents, proofs and iteration results stay the same forever, whatever is committed, computed but not stored, or read afterwards and however reads interleave with writes, including iterators opened earlier and readers on other threads. A computed update that is not stored has no visible effect.",
  ["histories","schedules"],"every history of later commits and abandoned updates, and every interleaving of readers and open iterators with a writer",
  "Tests read back old versions after sequential commits only; open iterators and reader threads concurrent with commits are not exercised.",
  [JT,JC,JM,JI],[("copy-on-write node keys","jmt/src/tree.rs"),("pending update kept in memory","jmt/src/tree_cache.rs"),("lock around batch write","jmt/src/mock.rs:write_node_batch")],
  ["all read interfaces at older versions","JellyfishMerkleIterator::next"])
p("C06","Pruning never damages a retained version nor falsifies a pruned one",
  "After pruning up to a version, that version and every later one, including versions committed after pruning, remain fully readable with identical results. A pruned version yields either its correct data or an error, never wrong data. Every node superseded at or before the pruning version by a rewrite or removal is physically removed, except possibly root nodes.",
  ["histories"],"every interleaving of commits and pruning calls at arbitrary versions, with re-insertions, no-op versions and emptied trees",
  "Tests prune after insert-only histories; deletion, collapse and no-op versions between prunes are not combined.",
  [JM,JC,JT],[("stale node recording","jmt/src/tree_cache.rs:delete_node/freeze"),("purge","jmt/src/mock.rs:purge_stale_nodes")],
  ["MockTreeStore::purge_stale_nodes","num_nodes/nodes","all read interfaces"],[("stale index","(retired since, node key)","jmt/src/mock.rs")])
p("C07","Stored tree structure and update accounting are exact",
  "Each update batch, applied to the store, yields at its version a minimal well-formed tree: a node exists exactly where two or more keys (or a lone key) require it, child versions, kinds, hashes and leaf counts match the children, and subtrees no write touched are shared, not rewritten. Every node it writes is reachable; every node it retires was live in an earlier version and is unreachable from the new version on; all such non-root nodes are retired exactly once; and the reported statistics equal these counts.",
  ["histories","inputs"],"every history of write sets, including several versions in one batch, several operations on one key per set, and no-op sets",
  "Tests check node counts for a few hand-made updates; counters and retirement across multi-version batches with collapses are not generally settled.",
  [JT,JC,JN],[("cache put/delete accounting","jmt/src/tree_cache.rs:put_node/delete_node/freeze"),("tree rewrite","jmt/src/tree.rs"),("leaf counts","jmt/src/node_type.rs:InternalNode")],
  ["TreeUpdateBatch.node_batch/stale_node_index_batch/node_stats","get_leaf_count"])
p("C08","Iteration of a version is sorted and complete from any start",
  "Iterating a version from any starting key yields exactly the key/value pairs of that version whose key is at or above the start, in strictly increasing key order, each once. Iterating from any index yields the same sequence with that many items skipped, and stays exhausted after its end.",
  ["inputs","histories"],"every reachable version, every start key (present, absent, between, below or above all keys, sharing long prefixes) and every start index",
  "Tests start iterators at present keys and neighbours on a few trees; absent start keys falling off the right edge at inner levels need specific shapes.",
  [JI,JN],[("positioning and stack cleanup","jmt/src/iterator.rs:new/new_by_index/cleanup_stack"),("leaf counts","jmt/src/node_type.rs")],["JellyfishMerkleIterator::new/new_by_index/next","VersionedTrie::iter"])
p("C09","Exclusion and ICS23 proofs are produced and verify for every key",
  "On every non-empty version, for every absent key the exclusion proof names exactly the nearest smaller and nearest larger present keys (those that exist) with membership proofs that verify. The corresponding ICS23 existence and non-existence proofs are accepted by an independent ICS23 verifier against the root and the tree's published spec, and rejected for any claim that is false of that version.",
  ["histories","inputs"],"every multi-version history with deletions, and every present or absent key at every version",
  "The ICS23 tests use trees built in a single version; neighbours stored at older versions are never looked up.",
  [JT,JX],[("neighbour search","jmt/src/tree.rs:get_bounding_path/search_closest_extreme_node"),("conversion","jmt/src/tree/ics23_impl.rs")],["get_with_exclusion_proof","get_with_ics23_proof","ics23_spec"])
p("C10","Chunked restore reproduces the tree, across chunkings and crashes",
  "Feeding the sorted contents of any non-empty version in any chunking, each chunk with that tree's range proof for its last key, succeeds and yields a store with the same root, contents, leaf count and proofs. If the process stops between or during chunks, a restore reopened on the surviving store and fed the keys after the last one it durably holds completes to the same result.",
  ["histories","crash_points","inputs"],"every contents, every partition into chunks, and every crash point (after any chunk, on a failed storage write, repeatedly)",
  "Tests interrupt one restore at one point for random trees; repeated crashes, crashes at structural boundaries and failing writes are not covered.",
  [JR,JM,JT],[("partial node freezing","jmt/src/restore.rs:add_one/freeze*"),("recovery","jmt/src/restore.rs:recover_partial_nodes"),("range proof","jmt/src/tree.rs:get_range_proof")],["JellyfishMerkleRestore::new/new_overwrite","StateSnapshotReceiver::add_chunk/finish","get_range_proof"])
p("C11","Restore admits only data that matches the expected root",
  "A chunk that is altered, incomplete at its front or inside, out of order, repeated, from another version, or accompanied by a wrong or altered proof is rejected with an error and leaves the store unchanged. Finishing succeeds only if everything received hashes to the expected root; otherwise it reports an error without storing a root, and no input makes restore crash.",
  ["inputs","fault_sequences"],"every tree and every chunk sequence containing alterations of keys, values, order or proof, and finishing at any moment",
  "Tests feed one kind of bad chunk; omission, duplication, foreign proofs, early finish and finish after rejection are not covered.",
  [JR,JP],[("order check and verification","jmt/src/restore.rs:add_chunk_impl/verify"),("range proof check","jmt/src/types/proof/definition.rs:SparseMerkleRangeProof::verify"),("finish","jmt/src/restore.rs:finish_impl")],["add_chunk","finish","store contents"])
p("C12","Version store bookkeeping matches the committed history",
  "After any history the store reports as length the number of keys whose latest write is a value, as emptiness that this number is zero, as version the highest version any key was written at, per key the writes in version order with their values, and as rightmost leaf the greatest key among its leaf nodes. Writing a key at a version older than its newest is refused, rewriting it at the same version replaces the value, and a store without overwrite permission never silently replaces a node.",
  ["histories"],"every sequence of store writes and tree commits, including repeated writes at the same version and out-of-order versions",
  "Tests check length after three operations and never out-of-order or same-version rewrites.",
  [JM,JD],[("put_value","jmt/src/mock.rs:put_value"),("len/version/is_empty","jmt/src/db.rs:VersionedDatabase"),("overwrite guard","jmt/src/mock.rs:write_node_batch/put_leaf")],["VersionedDatabase::len/is_empty/version/value_history","MockTreeStore::put_leaf/write_node_batch","TreeReader::get_rightmost_leaf"])
p("C13","Patricia trie behaves as a map over arbitrary byte keys",
  "After any sequence of insertions, removals and commits, a lookup or presence test of any key returns the last value inserted and not since removed, whatever prefixes keys share, including keys that are prefixes of other keys and the empty key. Removal reports true exactly when the key was present, and inserting an empty value is refused without effect.",
  ["histories","inputs"],"every sequence of insert/remove/commit/reopen over every set of byte keys, including prefix-related and empty keys, and value sizes on both sides of the node-inlining limit",
  "Tests use fixed-length or random keys where no key is a prefix of another; prefix keys, their removal and the resulting restructuring across commits are not covered.",
  [PI,PN,PO],[("insert/delete recursion","pmt/src/inner.rs:insert_at/delete_at/degenerate"),("lookup","pmt/src/inner.rs:get_at")],["Trie::get/contains/insert/remove"])
p("C14","Patricia root hash is canonical and equals the Ethereum definition",
  "The root returned by commit equals the Ethereum Merkle Patricia root of the trie's current contents, independent of insertion order, removed keys, intermediate commits and reopening. Committing without changes returns the same root, and emptying the trie returns the well-known empty root.",
  ["histories","inputs"],"every pair of histories with equal contents; keys with arbitrary prefix relations; values of any size around the inlining and length-encoding limits",
  "Tests compare known roots for a few key sets; branch collapse after removals of prefix keys or across stored nodes is not generally compared with a definition.",
  [PI,PN],[("node refactoring after removal","pmt/src/inner.rs:degenerate"),("encoding","pmt/src/inner.rs:encode_raw/write_node","") [:2],("compact keys","pmt/src/nibbles.rs:encode_compact")],["Trie::commit/root_hash"])
p("C15","Archived Patricia roots stay readable and views are isolated",
  "On a non-pruning database every root ever committed can be reopened at any later time and shows exactly the contents committed with it. Work in one opened view, committed or not, never changes what another view or another root shows.",
  ["histories"],"every history of commits through several views opened at arbitrary earlier roots",
  "Tests reopen one earlier root once; branching histories through several views sharing one database are not covered.",
  [PI,PD],[("content-addressed storage","pmt/src/inner.rs:commit/write_node"),("reopening","pmt/src/inner.rs:at_root")],["InnerTrie::at_root","Trie::get/commit","InnerTrie::iter"])
p("C16","Pruning database keeps every node the committed trie needs",
  "On a pruning database used by one trie, after every commit the whole committed contents remain readable, provable and modifiable, including after operations that changed nothing or failed. Nodes that the changes of that commit replaced are removed, so as long as no commit failed storage holds nothing but the committed trie's nodes.",
  ["histories","fault_sequences"],"every single-owner history of effective and ineffective insertions/removals, commits and reopenings at the latest root",
  "One test checks that pruning happens on a random history; no-op removals, idempotent commits and tiny tries are not covered.",
  [PI,PD],[("passing/generated key tracking","pmt/src/inner.rs:passing_keys/gen_keys/commit"),("light removal","pmt/src/db.rs:remove")],["MemoryDB::new(true)","Trie::commit/get","Database::values"])
p("C17","Every Patricia proof verifies to the right answer",
  "On a committed non-empty trie, for every key the proof verifies against the root to exactly the key's value, or to absence when the key is not present. The proof consists of the encoded stored nodes on the key's path from the root downwards and nothing else is needed to verify it.",
  ["histories","inputs"],"every committed trie and every key, present, absent, prefix of or extended from present keys",
  "Tests prove present keys and few absent ones in trees with fixed-length keys.",
  [PI],[("path collection","pmt/src/inner.rs:get_path_at/get_proof"),("verification","pmt/src/inner.rs:verify_proof")],["Trie::get_proof/verify_proof"])
p("C18","No Patricia proof verifies a wrong answer",
  "Verification against a root never returns a value, or an absence, that differs from the contents that root commits to, for any list of byte strings offered as proof. Missing or altered nodes are reported as an invalid proof, extra or reordered nodes do not change the answer, and no input makes verification crash.",
  ["inputs"],"every committed root, every key, and every proof obtained by altering, dropping, truncating, duplicating, reordering or substituting nodes, plus arbitrary malformed nodes under a caller-chosen root",
  "Tests flip bytes in one proof; malformed nodes, truncations and cross-root substitutions are not covered.",
  [PI,PN],[("proof database keyed by hash","pmt/src/inner.rs:verify_proof"),("decoding","pmt/src/inner.rs:decode_node"),("compact keys","pmt/src/nibbles.rs:from_compact")],["Trie::verify_proof"])
p("C19","Patricia iteration yields exactly the contents, in key order",
  "Iterating a trie, committed or with pending changes, yields each present key with its value exactly once and nothing else, in lexicographic key order. Borrowed and owned iteration and the list of all values agree.",
  ["histories","inputs"],"every trie reachable by insertions, removals, commits and reopening, including prefix-related and empty keys",
  "Tests iterate tries whose keys are not prefixes of each other, after commit only.",
  [PT,PI],[("depth-first traversal","pmt/src/trie_iterator.rs:next")],["InnerTrie::iter/values","OwnedTrieIterator"])
p("C20","Failed Patricia operations have no effect and missing data is reported",
  "When the database fails or lacks a node, the lookup, insertion, removal, proof or commit that needs it returns an error, never a wrong value, a false absence or a crash, and leaves the contents of the trie, and of every root kept by a non-pruning database, as if it had not been attempted. Repeating the operation after the database recovers gives the result it would have given.",
  ["fault_sequences","histories"],"every position of a database read or write failure or missing node in every history of lookups, insertions, removals, proofs and commits",
  "Tests delete one node and look at one error; failures at each database call in a history, and their effect on later commits, are not covered.",
  [PI],[("error propagation","pmt/src/inner.rs:recover_from_db/get_hash_node/insert/remove"),("commit sequence","pmt/src/inner.rs:commit")],["Trie::*","Database implementations that fail"])
p("C21","In-memory node database is linearizable and never fails under contention",
  "Concurrent use of the in-memory database by several threads behaves as if every single operation took effect atomically at one instant between its start and end. Length, emptiness and listing report a state that existed in that interval and never crash or come back empty because another thread is writing.",
  ["schedules"],"every interleaving of concurrent insertions, removals, lookups, length, emptiness and listing calls",
  "The tests of the database are single-threaded.",
  [PD],[("reader/writer lock","pmt/src/db.rs:MemoryDB")],["Database::get/insert/remove/len/is_empty/values"])
p("C22","State and proofs written in serialized form read back as themselves",
  "Every node key, node, value version, key hash, update batch, stale-node record and proof of the versioned tree that is written in serialized form (borsh or serde) reads back equal, different ones never have the same bytes, and a tree whose store keeps only such bytes answers every request like one over the in-memory store. A Patricia trie serialized at any moment, with or without uncommitted changes, and read back over the same database shows the same contents, iteration, proofs and, after commit, root. Truncated encodings are refused with an error and altered ones never crash the reader.",
  ["histories","inputs"],"every history of writes and commits, with the trie written out and read back between any two operations, and every object the versioned tree produces on the way, in every supported encoding",
  "A few encodings of fixed or random single objects are tested; no test keeps a tree in serialized form or reads a Patricia trie back.",
  [JN,"jmt/src/types/nibble/nibble_path.rs","jmt/src/writer.rs",JP,"jmt/src/lib.rs",JD,PI,PN,PO,"serde_hash/src/lib.rs"],[("derived and hand-written encodings","jmt/src/node_type.rs, jmt/src/types/nibble/nibble_path.rs, pmt/src/nibbles.rs, pmt/src/node.rs"),("version bytes","jmt/src/db.rs:Version")],
  ["borsh and serde encodings of the public types","TreeReader/TreeWriter over an encoded store","InnerTrie Serialize/Deserialize/Display"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80,x["id"]; 
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
