//! What is written in serialized form reads back as itself (C22): a versioned tree over a store that keeps encoded
//! bytes only, proofs and update batches in transit, a Patricia trie written out and read back over its database.
#![allow(deprecated)]
use crate::jmtdrv::*;
use crate::jmtreplay::{apply, parts, want, Mis, Res, Set, Table};
use crate::pmt::TestDb;
use crate::util::*;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::{Version as Ver, VersionedDatabase};
use jmt::proof::SparseMerkleProof;
use jmt::storage::{LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{trie::VersionedTrie, JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use patriecia::{Database, InnerTrie, MemoryDB};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, RwLock};

pub const HOWS: [&str; 3] = ["borsh", "bincode", "JSON"];
pub fn enc<T: BorshSerialize + Serialize>(how: usize, x: &T) -> anyhow::Result<Vec<u8>> {
    Ok(match how {
        0 => x.try_to_vec()?,
        1 => bincode::serialize(x)?,
        _ => serde_json::to_vec(x)?,
    })
}
pub fn dec<T: BorshDeserialize + DeserializeOwned>(how: usize, b: &[u8]) -> anyhow::Result<T> {
    Ok(match how {
        0 => T::try_from_slice(b)?,
        1 => bincode::deserialize(b)?,
        _ => serde_json::from_slice(b)?,
    })
}

// ------------------------------------------------------------------------------ versioned tree
/// A store that keeps nothing but encoded keys, nodes and values.
#[derive(Clone, Default, Debug)]
pub struct EncStore {
    how: usize,
    d: Arc<RwLock<(BTreeMap<Vec<u8>, Vec<u8>>, BTreeMap<Vec<u8>, Option<Vec<u8>>>)>>,
}
impl EncStore {
    fn values(&self) -> anyhow::Result<Vec<(Ver, KeyHash, Option<Vec<u8>>)>> {
        self.d.read().unwrap().1.iter().map(|(k, x)| {
            let (n, k) = k[1..].split_at(k[0] as usize);
            Ok((Ver::from(n.to_vec()), dec(self.how, k)?, x.clone()))
        }).collect()
    }
    fn put(&self, b: &NodeBatch) -> anyhow::Result<()> {
        let mut d = self.d.write().unwrap();
        for (k, n) in b.nodes() {
            let (k, n) = (enc(self.how, k)?, enc(self.how, n)?);
            if d.0.insert(k, n).is_some() {
                anyhow::bail!("a node is written a second time");
            }
        }
        for ((v, k), x) in b.values() {
            let mut key: Vec<u8> = Ver::from(*v).into();
            key.insert(0, key.len() as u8);
            key.extend(enc(self.how, k)?);
            d.1.insert(key, x.clone());
        }
        Ok(())
    }
}
impl TreeReader for EncStore {
    type Version = Ver;
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        let k = enc(self.how, k)?;
        self.d.read().unwrap().0.get(&k).map(|n| dec(self.how, n)).transpose()
    }
    fn get_value_option(&self, max: Ver, key: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        Ok(self.values()?.into_iter().filter(|x| x.1 == key && x.0 <= max).max_by_key(|x| x.0).and_then(|x| x.2))
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        let mut out: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in self.d.read().unwrap().0.iter() {
            if let Node::Leaf(l) = dec(self.how, n)? {
                if out.as_ref().map_or(true, |o| o.1.key_hash() < l.key_hash()) {
                    out = Some((dec(self.how, k)?, l));
                }
            }
        }
        Ok(out)
    }
}
impl TreeWriter for EncStore {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        self.put(b)
    }
}
impl VersionedDatabase for EncStore {
    type Version = Ver;
    type NodeIter = std::vec::IntoIter<(NodeKey, Node)>;
    type HistoryIter = std::vec::IntoIter<(KeyHash, Vec<(Ver, Option<Vec<u8>>)>)>;
    fn get(&self, v: Ver, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        self.get_value_option(v, k)
    }
    fn update_batch(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.put(&b.node_batch)
    }
    fn nodes(&self) -> Self::NodeIter {
        let d = self.d.read().unwrap();
        d.0.iter().map(|(k, n)| (dec(self.how, k).unwrap(), dec(self.how, n).unwrap())).collect::<Vec<_>>().into_iter()
    }
    fn value_history(&self) -> Self::HistoryIter {
        let mut m: HashMap<KeyHash, Vec<(Ver, Option<Vec<u8>>)>> = HashMap::new();
        for (v, k, x) in self.values().unwrap() {
            m.entry(k).or_default().push((v, x));
        }
        m.into_iter().collect::<Vec<_>>().into_iter()
    }
}

/// SHA-256, as a hasher that can be named in serialized proofs
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Sha {
    data: Vec<u8>,
}
impl SimpleHasher for Sha {
    fn new() -> Self {
        Sha::default()
    }
    fn update(&mut self, data: &[u8]) {
        self.data.extend(data);
    }
    fn finalize(self) -> [u8; 32] {
        sha(&self.data)
    }
}
type ETree = JellyfishMerkleTree<EncStore, Sha>;

fn err<T>(m: String) -> Result<T, Mis> {
    Err(Mis(m))
}
/// through one encoding and back; the same, and no other bytes read as the same thing
fn there<T>(what: &str, x: &T, how: usize, cut: bool) -> Result<T, Mis>
where
    T: BorshSerialize + BorshDeserialize + Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let n = || format!("{what} in {}", HOWS[how]);
    let b = match call(|| enc(how, x)) {
        Out::Ok(b) => b,
        o => return err(format!("{}: writing: {}", n(), o.word())),
    };
    let y = match call(|| dec::<T>(how, &b)) {
        Out::Ok(y) => y,
        o => return err(format!("{}: reading back: {}", n(), o.word())),
    };
    want(&format!("{} read back", n()), &y, x)?;
    if cut {
        for i in (0..b.len()).step_by(1 + b.len() / 40) {
            match call(|| dec::<T>(how, &b[..i])) {
                Out::Err => {}
                o => return err(format!("{}, cut off after {i} of {} bytes: {}", n(), b.len(), o.word())),
            }
            for m in [1u8, 0x80, 0xff] {
                let mut c = b.clone();
                c[i] ^= m;
                match call(|| dec::<T>(how, &c)) {
                    Out::Panic => return err(format!("{}, byte {i} changed: reading crashes", n())),
                    Out::Ok(z) if how == 0 && z == *x => return err(format!("{}, byte {i} changed: reads as the same", n())),
                    _ => {}
                }
            }
        }
    }
    Ok(y)
}
fn batch(b: &TreeUpdateBatch) -> Result<TreeUpdateBatch, Mis> {
    let bytes = match call(|| b.try_to_vec()) {
        Out::Ok(x) => x,
        o => return err(format!("update batch: writing: {}", o.word())),
    };
    match call(|| TreeUpdateBatch::try_from_slice(&bytes)) {
        Out::Ok(y) => {
            want("update batch read back", &y, b)?;
            Ok(y)
        }
        o => err(format!("update batch: reading back: {}", o.word())),
    }
}

/// one behaviour over a store of encoded bytes; mode: how the versions are grouped, and the encoding
pub fn behaviour(t: &Table, versions: &[Set], ext: bool, mode: usize, salt: usize) -> Res {
    let how = salt % 3;
    let store = EncStore { how, ..Default::default() };
    let tree = ETree::new(Arc::new(store.clone()));
    let mut cs = vec![vec![0usize; t.keys.len()]];
    let mut stale: Vec<Vec<u8>> = vec![];
    let mut v = 0;
    while v < versions.len() {
        let n = [1, versions.len(), 2, 1][mode].min(versions.len() - v);
        let sets: Vec<Vec<(KeyHash, Option<Vec<u8>>)>> = versions[v..v + n].iter()
            .map(|s| s.iter().map(|(k, x)| (t.keys[k - 1], (*x != 0).then(|| t.vals[x - 1].clone()))).collect()).collect();
        let b = match call(|| tree.put_value_sets(sets, v as u64)) {
            Out::Ok((_, b)) => b,
            // the same update on a store that keeps no bytes is the matter of C01, C02 and C07
            o => return if plain(t, versions) { err(format!("computing version {v} over encoded data: {}", o.word())) } else { Ok(()) },
        };
        let b = batch(&b)?;
        for (k, x) in b.node_batch.nodes() {
            let last = v + n == versions.len() && salt % 4 == 0;
            there("node key", k, how, last && !ext)?;
            let y = there("node", x, how, last && !ext)?;
            want("hash of a node read back", node_hash(&y), node_hash(x))?;
            if let (Node::Internal(a), Node::Internal(b)) = (&y, x) {
                want("leaf count of a node read back", a.leaf_count(), b.leaf_count())?;
            }
        }
        for s in &b.stale_node_index_batch {
            stale.push(s.try_to_vec().expect("stale index"));
        }
        match call(|| store.update_batch(b)) {
            Out::Ok(()) => {}
            o => return err(format!("storing version {v}: {}", o.word())),
        }
        for s in &versions[v..v + n] {
            cs.push(apply(cs.last().unwrap(), s));
        }
        v += n;
    }
    cs.remove(0);
    if cs.is_empty() {
        return Ok(());
    }
    let last = cs.len() - 1;
    let from = if ext { last.saturating_sub(1) } else { 0 };
    for v in from..=last {
        looked(t, &tree, v, &cs[v], how, ext)?;
    }
    want("nodes in the store", store.nodes().count(), store.d.read().unwrap().0.len())?;
    // prune by what the encoded indices say
    for s in &stale {
        let i = match call(|| StaleNodeIndex::try_from_slice(s)) {
            Out::Ok(i) => i,
            o => return err(format!("stale node index: reading back: {}", o.word())),
        };
        if i.stale_since_version <= last as u64 {
            store.d.write().unwrap().0.remove(&enc(how, &i.node_key).unwrap());
        }
    }
    looked(t, &tree, last, &cs[last], how, ext)
}
/// does the behaviour work on the in-memory store?
fn plain(t: &Table, versions: &[Set]) -> bool {
    let s = jmt::mock::MockTreeStore::default();
    let tree = Tree::new(Arc::new(s.clone()));
    versions.iter().enumerate().all(|(v, set)| {
        let w: Vec<_> = set.iter().map(|(k, x)| (t.keys[k - 1], (*x != 0).then(|| t.vals[x - 1].clone()))).collect();
        call(|| s.write_tree_update_batch(tree.put_value_set(w, v as u64)?.1)).code() == 0
    })
}
fn looked(t: &Table, tree: &ETree, v: usize, c: &[usize], how: usize, ext: bool) -> Res {
    let (w, spec) = (v as u64, &t.all[c]);
    let bad = |what: &str, o: &str| err(format!("{what} at version {v} over encoded data: {o}"));
    match call(|| tree.get_root_hash(w)) {
        Out::Ok(r) => want(&format!("root of version {v} over encoded data"), r.0, spec.root)?,
        o => return bad("root", o.word()),
    }
    match call(|| tree.iter(w)?.collect::<anyhow::Result<Vec<_>>>()) {
        Out::Ok(x) => want(&format!("iteration of version {v} over encoded data"), x, t.pairs(c))?,
        o => return bad("iteration", o.word()),
    }
    match call(|| tree.get_leaf_count(w)) {
        Out::Ok(x) => want(&format!("leaf count of version {v} over encoded data"), x, Some(t.pairs(c).len()))?,
        o => return bad("leaf count", o.word()),
    }
    for (k, key) in t.keys.iter().enumerate() {
        let exp = t.val(c, k);
        match call(|| tree.get(*key, w)) {
            Out::Ok(x) => want(&format!("lookup of key{} at version {v} over encoded data", k + 1), x, exp.clone())?,
            o => return bad("lookup", o.word()),
        }
        let p = match call(|| tree.get_with_proof(*key, w)) {
            Out::Ok((x, p)) => {
                want(&format!("lookup of key{} with proof at version {v} over encoded data", k + 1), x, exp.clone())?;
                p
            }
            o => return bad("lookup with proof", o.word()),
        };
        for h in 0..3 {
            let q: SparseMerkleProof<Sha> = there("proof", &p, h, h == how && k == v % 5 && !ext)?;
            match call(|| q.verify(RootHash(spec.root), *key, exp.clone())) {
                Out::Ok(()) => {}
                o => return bad(&format!("proof of key{} read back from {}: verification", k + 1, HOWS[h]), o.word()),
            }
        }
        // the same bytes whatever the hasher is called
        let b = p.try_to_vec().expect("proof");
        match call(|| Proof::try_from_slice(&b)) {
            Out::Ok(q) => want("proof read back", parts(&q), parts(&t.proof(c, k)))?,
            o => return bad("reading a proof back", o.word()),
        }
        if exp.is_some() {
            match call(|| tree.get_range_proof(*key, w)) {
                Out::Ok(p) => {
                    for h in 0..3 {
                        there("range proof", &p, h, false)?;
                    }
                }
                o => return bad("range proof", o.word()),
            }
        }
        for h in 0..3 {
            there("key hash", key, h, false)?;
        }
    }
    for h in 1..3 {
        let r = RootHash(spec.root);
        let b = if h == 1 { bincode::serialize(&r).unwrap() } else { serde_json::to_vec(&r).unwrap() };
        let x: Option<RootHash> = if h == 1 { bincode::deserialize(&b).ok() } else { serde_json::from_slice(&b).ok() };
        want("root hash read back", x, Some(r))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------ Patricia trie
thread_local! {
    static HERE: RefCell<Arc<MemoryDB>> = RefCell::new(Arc::new(MemoryDB::new(true)));
}
/// A database every handle of which, made on one thread, is the same one: a trie read back finds its nodes.
#[derive(Clone, Debug)]
pub struct HereDb(Arc<MemoryDB>);
impl Default for HereDb {
    fn default() -> Self {
        HereDb(HERE.with(|h| h.borrow().clone()))
    }
}
impl TestDb for HereDb {
    fn make(light: bool) -> Self {
        HERE.with(|h| *h.borrow_mut() = Arc::new(MemoryDB::new(light)));
        HereDb::default()
    }
}
type E = <MemoryDB as Database>::Error;
impl Database for HereDb {
    type Error = E;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, E> {
        self.0.get(key)
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), E> {
        self.0.insert(key, value)
    }
    fn remove(&self, key: &[u8]) -> Result<(), E> {
        self.0.remove(key)
    }
    fn flush(&self) -> Result<(), E> {
        self.0.flush()
    }
    fn len(&self) -> Result<usize, E> {
        self.0.len()
    }
    fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, E> {
        self.0.values()
    }
    fn is_empty(&self) -> Result<bool, E> {
        self.0.is_empty()
    }
}
/// write the trie out in one of three ways and read it back
pub fn thaw<D: Database>(v: &InnerTrie<D>, n: usize) -> Result<InnerTrie<D>, String> {
    fn m<E: std::fmt::Display>(e: E) -> String {
        e.to_string()
    }
    match n % 3 {
        0 => bincode::deserialize(&bincode::serialize(v).map_err(m)?).map_err(m),
        1 => serde_json::from_slice(&serde_json::to_vec(v).map_err(m)?).map_err(m),
        _ => serde_json::from_str(&format!("{v}")).map_err(m),
    }
}
