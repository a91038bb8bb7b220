//! Drives the versioned Jellyfish Merkle tree and records one event per public call.
use crate::util::*;
use jmt::storage::{Node, NodeKey, TreeReader, TreeUpdateBatch};
use jmt::{
    db::VersionedDatabase, mock::MockTreeStore, proof::SparseMerkleProof, trie::VersionedTrie, JellyfishMerkleIterator,
    JellyfishMerkleTree, KeyHash, RootHash, Sha256,
};
use borsh::BorshSerialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub type Tree = JellyfishMerkleTree<MockTreeStore, Sha256>;
pub type Proof = SparseMerkleProof<Sha256>;
pub const PLACEHOLDER: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

/// Interning tables for one history.
pub struct Universe {
    pub keys: Vec<KeyHash>, // sorted; id = index + 1
    pub nibs: Vec<Vec<u8>>,
    pub pre: Vec<Vec<u8>>, // preimages (only for ICS23 universes)
    pub cut: usize,
}
impl Universe {
    pub fn new(mut keys: Vec<[u8; 32]>) -> Self {
        keys.sort();
        keys.dedup();
        let nibs: Vec<Vec<u8>> = keys.iter().map(|k| nibbles(k)).collect();
        let m = nibs.windows(2).map(|w| common(&w[0], &w[1])).max().unwrap_or(0);
        Universe { keys: keys.into_iter().map(KeyHash).collect(), nibs, pre: vec![], cut: (m + 1).min(64) }
    }
    pub fn n(&self) -> usize {
        self.keys.len()
    }
    pub fn key(&self, id: usize) -> KeyHash {
        self.keys[id - 1]
    }
    pub fn id(&self, k: &KeyHash) -> i64 {
        match self.keys.binary_search(k) {
            Ok(i) => i as i64 + 1,
            Err(_) => 0,
        }
    }
    /// A tree position: (number of nibbles, smallest key id below it); key id 0 = no key of the universe.
    pub fn pos(&self, path: &[u8]) -> (usize, i64) {
        let i = self.nibs.iter().position(|k| k.len() >= path.len() && k[..path.len()] == *path);
        (path.len(), i.map(|i| i as i64 + 1).unwrap_or(0))
    }
    pub fn json(&self) -> Value {
        json!(self.nibs.iter().map(|n| n[..self.cut].to_vec()).collect::<Vec<_>>())
    }
}

pub fn node_key_path(nk: &NodeKey) -> (u64, Vec<u8>) {
    // borsh layout: version u64, num_nibbles u64, bytes (u32 length prefix)
    let b = nk.try_to_vec().unwrap();
    let v = u64::from_le_bytes(b[0..8].try_into().unwrap());
    let n = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
    let mut p = nibbles(&b[20..]);
    p.truncate(n);
    (v, p)
}
pub fn leaf_bytes<T: BorshSerialize>(l: &T) -> ([u8; 32], [u8; 32]) {
    let b = l.try_to_vec().unwrap();
    (b[0..32].try_into().unwrap(), b[32..64].try_into().unwrap())
}

pub fn sha(data: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(data).into()
}
pub fn h_leaf(k: &[u8; 32], v: &[u8; 32]) -> [u8; 32] {
    sha(&[b"JMT::LeafNode".as_slice(), k, v].concat())
}
pub fn h_node(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    sha(&[b"JMT::IntrnalNode".as_slice(), l, r].concat())
}

/// Build a proof object from its parts.
pub fn mk_proof(leaf: Option<([u8; 32], [u8; 32])>, sibs: &[[u8; 32]]) -> Proof {
    use borsh::BorshDeserialize;
    let mut b = vec![];
    match leaf {
        None => b.push(0u8),
        Some((k, v)) => {
            b.push(1);
            b.extend(k);
            b.extend(v);
        }
    }
    b.extend((sibs.len() as u32).to_le_bytes());
    for s in sibs {
        b.extend(s);
    }
    Proof::try_from_slice(&b).expect("proof encoding")
}

pub struct Sess {
    pub rng: Rng,
    pub u: Universe,
    pub store: MockTreeStore,
    pub tree: Arc<Tree>,
    pub base: u64,
    pub first: i64,
    pub latest: i64, // first - 1 when nothing is committed
    pub cs: BTreeMap<i64, BTreeMap<usize, i64>>,
    pub roots: BTreeMap<i64, RootHash>,
    pub hid: HashMap<[u8; 32], i64>,
    pub vals: Vec<Vec<u8>>,
    pub val_id: HashMap<Vec<u8>, i64>,
    pub vh_id: HashMap<[u8; 32], i64>,
    pub ev: Vec<Value>,
    pub puts: Vec<usize>,
    pub dead: bool,
    pub pruned: i64,
    pub noempty: bool,
    pub overwrite: bool,
    pub scale: Scale,
}
/// Most histories are small; a few have many keys, or many versions.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale {
    Small,
    Crowd,
    Long,
}
thread_local! {
    pub static SCALE: std::cell::Cell<Scale> = const { std::cell::Cell::new(Scale::Small) };
}

#[derive(Clone)]
pub struct Upd {
    pub first: i64,
    pub batch: TreeUpdateBatch,
    pub roots: Vec<RootHash>,
}


impl Sess {
    pub fn new(mut rng: Rng, u: Universe, base: u64, first: i64, overwrite: bool) -> Self {
        let store = if !overwrite && rng.chance(1, 2) { MockTreeStore::default() } else { MockTreeStore::new(overwrite) };
        let tree = Arc::new(Tree::new(Arc::new(store.clone())));
        let mut s = Sess {
            rng,
            u,
            store,
            tree,
            base,
            first,
            latest: first - 1,
            cs: BTreeMap::new(),
            roots: BTreeMap::new(),
            hid: HashMap::from([(PLACEHOLDER, 0)]),
            vals: vec![],
            val_id: HashMap::new(),
            vh_id: HashMap::new(),
            ev: vec![],
            puts: vec![],
            dead: false,
            pruned: first,
            noempty: false,
            overwrite,
            scale: SCALE.with(|c| c.get()),
        };
        let keys = s.u.json();
        s.ev.push(json!({"e":"reset","keys":keys,"first":first}));
        s
    }
    pub fn emit(&mut self, v: Value) {
        self.ev.push(v);
    }
    pub fn ver(&self, v: i64) -> u64 {
        (self.base as i128 + v as i128) as u64
    }
    pub fn rel(&self, v: u64) -> i64 {
        let d = v as i128 - self.base as i128;
        if d.abs() < 1_000_000 { d as i64 } else { -99 }
    }
    pub fn hash_id(&mut self, h: &[u8; 32]) -> i64 {
        let n = self.hid.len() as i64;
        *self.hid.entry(*h).or_insert(n)
    }
    pub fn new_val(&mut self) -> i64 {
        let id = self.vals.len() as i64;
        let mut b = if id == 0 && !self.noempty { vec![] } else { value_bytes(&mut self.rng, &self.vals) };
        while (b.is_empty() && (id > 0 || self.noempty)) || self.val_id.contains_key(&b) {
            b = value_bytes(&mut self.rng, &self.vals);
            if self.rng.chance(1, 4) {
                b.extend_from_slice(format!("v{id}").as_bytes());
            }
        }
        self.val_id.insert(b.clone(), id);
        self.vh_id.insert(sha(&b), id);
        self.vals.push(b);
        id
    }
    pub fn val(&self, id: i64) -> Vec<u8> {
        self.vals[id as usize].clone()
    }
    pub fn vid(&self, v: &Option<Vec<u8>>) -> i64 {
        match v {
            None => NONE,
            Some(b) => self.val_id.get(b).copied().unwrap_or(UNKNOWN),
        }
    }
    pub fn out_val<E>(&self, o: Out<Option<Vec<u8>>>, _p: std::marker::PhantomData<E>) -> i64 {
        match o {
            Out::Ok(v) => self.vid(&v),
            Out::Err => ERR,
            Out::Panic => PANIC,
        }
    }

    /// The keys to ask for: all of a small universe, some of a crowd.
    pub fn some_keys(&mut self) -> Vec<usize> {
        let n = self.u.n();
        if n <= 40 {
            return (1..=n).collect();
        }
        let mut ks = vec![1, n];
        for _ in 0..10 {
            ks.push(self.rng.range(1, n));
        }
        ks.sort();
        ks.dedup();
        ks
    }
    /// The versions to look at in the end.
    pub fn some_versions(&mut self) -> Vec<i64> {
        let all: Vec<i64> = (self.first..=self.latest).collect();
        if all.len() <= 40 {
            return all;
        }
        let mut vs = vec![self.first, self.latest];
        for _ in 0..12 {
            vs.push(*self.rng.pick(&all));
        }
        vs.sort();
        vs.dedup();
        vs
    }

    // ---------------------------------------------------------------- generation of write sets
    pub fn content_at(&self, v: i64) -> BTreeMap<usize, i64> {
        self.cs.get(&v).cloned().unwrap_or_default()
    }
    fn pick_val(&mut self) -> i64 {
        if self.vals.is_empty() || self.rng.chance(3, 5) {
            self.new_val()
        } else {
            self.rng.below(self.vals.len()) as i64
        }
    }
    /// One write set: list of (key id, value id or -1).
    pub fn gen_set(&mut self, cur: &BTreeMap<usize, i64>, inserts_only: bool) -> Vec<(usize, i64)> {
        let present: Vec<usize> = cur.keys().copied().collect();
        let puts = self.puts.clone();
        let mut ops: Vec<(usize, i64)> = vec![];
        if self.scale == Scale::Crowd && present.len() < puts.len() / 2 {
            // (nearly) everybody arrives at once
            let out = self.rng.below(6);
            for k in &puts[out..] {
                let v = if self.vals.len() < 12 { self.new_val() } else { self.rng.below(self.vals.len()) as i64 };
                ops.push((*k, v));
            }
            return ops;
        }
        let style = self.rng.below(12);
        let n = match style {
            0 | 1 => 1,
            2..=5 => self.rng.range(2, 4),
            6 | 7 => self.rng.range(3, 9),
            _ => self.rng.range(1, 6),
        };
        if style == 8 && !inserts_only && !present.is_empty() && self.rng.chance(1, 2) {
            // wipe everything (random order), sometimes re-inserting something
            let mut p = present.clone();
            self.rng.shuffle(&mut p);
            for k in p {
                ops.push((k, NONE));
            }
            if self.rng.chance(1, 2) {
                let k = *self.rng.pick(&puts);
                let v = self.pick_val();
                ops.push((k, v));
            }
            return ops;
        }
        if style == 9 && !inserts_only {
            // no effect: deletes of absent keys only, or nothing at all
            let absent: Vec<usize> = (1..=self.u.n()).filter(|k| !cur.contains_key(k)).collect();
            if !absent.is_empty() {
                for _ in 0..self.rng.below(3) {
                    ops.push((*self.rng.pick(&absent), NONE));
                }
                return ops;
            }
        }
        for _ in 0..n {
            let r = self.rng.below(10);
            let k = if r < 4 && !present.is_empty() { *self.rng.pick(&present) } else { *self.rng.pick(&puts) };
            if !inserts_only && r >= 6 {
                let k = if !present.is_empty() && r != 9 { *self.rng.pick(&present) } else { k };
                ops.push((k, NONE));
                if self.rng.chance(1, 8) {
                    let v = self.pick_val();
                    ops.push((k, v));
                }
            } else {
                let v = if self.rng.chance(1, 8) && cur.contains_key(&k) { cur[&k] } else { self.pick_val() };
                ops.push((k, v));
                if !inserts_only && self.rng.chance(1, 12) {
                    ops.push((k, NONE));
                }
            }
        }
        ops
    }
    pub fn apply(c: &BTreeMap<usize, i64>, s: &[(usize, i64)]) -> BTreeMap<usize, i64> {
        let mut c = c.clone();
        for (k, v) in s {
            if *v == NONE {
                c.remove(k);
            } else {
                c.insert(*k, *v);
            }
        }
        c
    }

    // ---------------------------------------------------------------- updates
    /// Compute an update at version `first` (relative) and record it. Does not store it.
    pub fn compute(&mut self, first: i64, sets: &[Vec<(usize, i64)>], api: &str, stored: bool) -> Option<Upd> {
        let v = self.ver(first);
        let bytes: Vec<Vec<(KeyHash, Option<Vec<u8>>)>> = sets
            .iter()
            .map(|s| s.iter().map(|(k, x)| (self.u.key(*k), if *x == NONE { None } else { Some(self.val(*x)) })).collect())
            .collect();
        let tree = self.tree.clone();
        let out = match api {
            "put" => call(|| tree.put_value_set(bytes[0].clone(), v).map(|(r, b)| (vec![r], b))),
            "putm" => call(|| tree.put_value_sets(bytes.clone(), v)),
            _ => {
                let plain: Vec<Vec<(KeyHash, Vec<u8>)>> =
                    bytes.iter().map(|s| s.iter().map(|(k, x)| (*k, x.clone().unwrap())).collect()).collect();
                match call(|| tree.batch_put_value_sets(plain.clone(), None, v)) {
                    Out::Ok((r, b)) if api == "batchh" => {
                        // the same again, handing in the node hashes computed by the first run
                        let mut maps = vec![];
                        for i in 0..sets.len() {
                            let mut m = HashMap::new();
                            for (nk, node) in b.node_batch.nodes() {
                                if nk.version() == v + i as u64 {
                                    m.insert(nk.clone(), node_hash(node));
                                }
                            }
                            maps.push(m);
                        }
                        let hs: Vec<_> = maps
                            .iter()
                            .map(|m| m.iter().map(|(nk, h)| (nibble_path_of(nk), *h)).collect::<HashMap<_, _>>())
                            .collect();
                        let r2 = call(|| tree.batch_put_value_sets(plain.clone(), Some(hs.iter().collect()), v));
                        match r2 {
                            Out::Ok((r2, b2)) if r2 == r && b2 == b => Out::Ok((r2, b2)),
                            Out::Ok((r2, b2)) => Out::Ok((r2, b2)),
                            x => x,
                        }
                    }
                    x => x,
                }
            }
        };
        let res = out.word();
        self.emit(json!({"e":"commit","first":first,"sets":sets,"api":api,"stored":stored,"res":res}));
        match out {
            Out::Ok((roots, batch)) => Some(Upd { first, batch, roots }),
            _ => {
                self.dead = true;
                None
            }
        }
    }
    pub fn store_upd(&mut self, u: &Upd, sets: &[Vec<(usize, i64)>]) {
        let store = self.store.clone();
        let b = u.batch.clone();
        let o = call(|| if self.latest % 2 == 0 { store.write_tree_update_batch(b) } else { VersionedDatabase::update(&store, b) });
        let res = o.word();
        self.emit(json!({"e":"stored","res":res}));
        if res != "ok" {
            self.dead = true;
            return;
        }
        let mut c = self.content_at(u.first - 1);
        for (i, s) in sets.iter().enumerate() {
            c = Self::apply(&c, s);
            self.cs.insert(u.first + i as i64, c.clone());
            self.roots.insert(u.first + i as i64, u.roots[i.min(u.roots.len() - 1)]);
        }
        self.latest = u.first + sets.len() as i64 - 1;
    }
    pub fn gen_sets(&mut self, from: i64) -> (Vec<Vec<(usize, i64)>>, &'static str) {
        let mut cur = self.content_at(from);
        let fresh = from < self.first;
        let api = match self.rng.below(10) {
            0..=4 => "put",
            5..=7 => "putm",
            8 if !(fresh && self.first > 0) => "batch",
            9 if !(fresh && self.first > 0) => "batchh",
            _ => "put",
        };
        let ins = api.starts_with("batch");
        let m = if api == "put" { 1 } else { self.rng.range(1, 3) };
        let mut sets = vec![];
        for i in 0..m {
            let mut s = self.gen_set(&cur, ins);
            // a tree whose first version is not 0 must start with a change
            while (fresh && i == 0 && self.first > 0 && Self::apply(&cur, &s).is_empty()) || (ins && s.is_empty()) {
                s = self.gen_set(&cur, true);
            }
            cur = Self::apply(&cur, &s);
            sets.push(s);
        }
        (sets, api)
    }
    /// Compute and store the next update; returns it with its sets.
    pub fn step(&mut self) -> Option<(Upd, Vec<Vec<(usize, i64)>>)> {
        let (sets, api) = self.gen_sets(self.latest);
        self.step_with(sets, api)
    }
    pub fn step_with(&mut self, sets: Vec<Vec<(usize, i64)>>, api: &str) -> Option<(Upd, Vec<Vec<(usize, i64)>>)> {
        let u = self.compute(self.latest + 1, &sets, api, true)?;
        self.store_upd(&u, &sets);
        if self.dead { None } else { Some((u, sets)) }
    }
    /// An update that is computed and thrown away.
    pub fn abandoned(&mut self) {
        // (computing again a version that is stored already is no use of the interface)
        let at = self.latest + 1;
        let (sets, api) = self.gen_sets(at - 1);
        if let Some(u) = self.compute(at, &sets, api, false) {
            self.ev_roots(&u);
        }
    }

    // ---------------------------------------------------------------- observations
    pub fn ev_roots(&mut self, u: &Upd) {
        let ids: Vec<i64> = u.roots.clone().iter().map(|r| self.hash_id(&r.0)).collect();
        self.emit(json!({"e":"roots","first":u.first,"roots":ids}));
    }
    pub fn ev_root(&mut self, v: i64) {
        let (a, b) = {
            let t = self.tree.clone();
            let w = self.ver(v);
            (call(|| t.get_root_hash(w)), call(|| t.get_root_hash_option(w)))
        };
        let x = match a {
            Out::Ok(r) => self.hash_id(&r.0),
            o => o.code(),
        };
        let y = match b {
            Out::Ok(Some(r)) => self.hash_id(&r.0),
            Out::Ok(None) => NONE,
            o => o.code(),
        };
        self.emit(json!({"e":"root","v":v,"root":x,"opt":y}));
    }
    pub fn get(&self, v: i64, k: usize) -> i64 {
        let (t, w, key) = (self.tree.clone(), self.ver(v), self.u.key(k));
        match call(|| t.get(key, w)) {
            Out::Ok(x) => self.vid(&x),
            o => o.code(),
        }
    }
    pub fn gwp(&self, v: i64, k: usize) -> i64 {
        let (t, w, key) = (self.tree.clone(), self.ver(v), self.u.key(k));
        match call(|| t.get_with_proof(key, w)) {
            Out::Ok((x, _)) => self.vid(&x),
            o => o.code(),
        }
    }
    pub fn ev_read(&mut self, v: i64, k: usize) {
        let (t, w, key) = (self.tree.clone(), self.ver(v), self.u.key(k));
        let g = self.get(v, k);
        let h = match call(|| t.contains(key, w)) {
            Out::Ok(b) => b as i64,
            o => o.code(),
        };
        let p = self.gwp(v, k);
        let d = match call(|| VersionedDatabase::get(&self.store, w.into(), key)) {
            Out::Ok(x) => self.vid(&x),
            o => o.code(),
        };
        self.emit(json!({"e":"read","v":v,"k":k,"get":g,"has":h,"gwp":p,"db":d}));
    }
    /// Collect an iterator; (items, status) with status "end" | "err" | "panic" | "long" | "reopen".
    pub fn drain(&self, it: Result<JellyfishMerkleIterator<MockTreeStore>, ()>) -> (Vec<(i64, i64)>, &'static str) {
        let mut out = vec![];
        let mut it = match it {
            Ok(i) => i,
            Err(_) => return (out, "err"),
        };
        loop {
            match call(|| match it.next() {
                None => Ok(None),
                Some(Ok(x)) => Ok(Some(x)),
                Some(Err(_)) => Err(()),
            }) {
                Out::Ok(None) => break,
                Out::Ok(Some((k, v))) => out.push((self.u.id(&k), self.vid(&Some(v)))),
                Out::Err => return (out, "err"),
                Out::Panic => return (out, "panic"),
            }
            if out.len() > 2 * self.u.n() + 4 {
                return (out, "long");
            }
        }
        // stays exhausted
        for _ in 0..3 {
            match call(|| if it.next().is_none() { Ok(()) } else { Err(()) }) {
                Out::Ok(()) => {}
                _ => return (out, "reopen"),
            }
        }
        (out, "end")
    }
    pub fn mk_iter(&self, v: i64, mode: &str, start: i64) -> Out<JellyfishMerkleIterator<MockTreeStore>> {
        let w = self.ver(v);
        match mode {
            "trie" => call(|| self.tree.iter(w)),
            "idx" => call(|| JellyfishMerkleIterator::new_by_index(Arc::new(self.store.clone()), w, start as usize)),
            _ => call(|| JellyfishMerkleIterator::new(Arc::new(self.store.clone()), w, self.start_key(start))),
        }
    }
    /// start id: > 0 a key of the universe, 0 = smallest key, -1 = greatest key.
    pub fn start_key(&self, start: i64) -> KeyHash {
        match start {
            0 => KeyHash([0; 32]),
            -1 => KeyHash([255; 32]),
            k => self.u.key(k as usize),
        }
    }
    pub fn ev_iter(&mut self, v: i64, mode: &str, start: i64) {
        let (out, st) = match self.mk_iter(v, mode, start) {
            Out::Ok(i) => self.drain(Ok(i)),
            Out::Err => (vec![], "err"),
            Out::Panic => (vec![], "panic"),
        };
        self.emit(json!({"e":"iter","v":v,"mode":mode,"start":start,"out":out,"st":st}));
    }
    pub fn ev_count(&mut self, v: i64) {
        let (t, w) = (self.tree.clone(), self.ver(v));
        let c = match call(|| t.get_leaf_count(w)) {
            Out::Ok(Some(n)) => n as i64,
            Out::Ok(None) => NONE,
            o => o.code(),
        };
        self.emit(json!({"e":"count","v":v,"cnt":c}));
    }
    pub fn leaf_ids(&self, p: &Proof) -> Vec<i64> {
        match p.leaf() {
            None => vec![],
            Some(l) => {
                let (k, vh) = leaf_bytes(&l);
                vec![self.u.id(&KeyHash(k)), self.vh_id.get(&vh).copied().unwrap_or(UNKNOWN)]
            }
        }
    }
    pub fn ev_proof(&mut self, v: i64, k: usize) {
        let (t, w, key) = (self.tree.clone(), self.ver(v), self.u.key(k));
        match call(|| t.get_with_proof(key, w)) {
            Out::Ok((val, proof)) => {
                let leaf = self.leaf_ids(&proof);
                let sibs: Vec<i64> = proof.siblings().to_vec().iter().map(|h| self.hash_id(h)).collect();
                // verification against the root announced when the version was written
                let root = self.roots[&v];
                let ok = call(|| proof.verify(root, key, val.clone())).word();
                let ok2 = match &val {
                    Some(x) => call(|| proof.verify_existence(root, key, x)).word(),
                    None => call(|| proof.verify_nonexistence(root, key)).word(),
                };
                let ok3 = match call(|| t.get_proof(key, w)) {
                    Out::Ok(p) => {
                        if p.leaf() == proof.leaf() && p.siblings() == proof.siblings() {
                            call(|| t.verify_proof(key, w, root, p)).word()
                        } else {
                            "differs"
                        }
                    }
                    o => o.word(),
                };
                let rr = if proof.leaf().is_some() && self.u.id(&KeyHash(leaf_bytes(&proof.leaf().unwrap()).0)) == k as i64 {
                    match call(|| Ok::<_, ()>(proof.root_hash())) {
                        Out::Ok(r) => self.hash_id(&r.0),
                        o => o.code(),
                    }
                } else {
                    NONE
                };
                let val = self.vid(&val);
                self.emit(json!({"e":"proof","v":v,"k":k,"res":"ok","val":val,"leaf":leaf,"sibs":sibs,"ver":[ok,ok2,ok3],"rr":rr}));
            }
            o => {
                let w = o.word();
                self.emit(json!({"e":"proof","v":v,"k":k,"res":w,"val":-2,"leaf":[],"sibs":[],"ver":[],"rr":-1}));
            }
        }
    }
    pub fn ev_nover(&mut self, v: i64, k: usize) {
        let (t, w) = (self.tree.clone(), self.ver(v));
        let p = self.gwp(v, k);
        let it = match self.mk_iter(v, "key", 0) {
            Out::Ok(i) => match self.drain(Ok(i)) {
                (o, "err") if o.is_empty() => ERR,
                _ => 0,
            },
            o => o.code(),
        };
        let ix = match self.mk_iter(v, "idx", 0) {
            Out::Ok(i) => match self.drain(Ok(i)) {
                (o, "err") if o.is_empty() => ERR,
                _ => 0,
            },
            o => o.code(),
        };
        let r = call(|| t.get_root_hash(w)).code();
        let o = match call(|| t.get_root_hash_option(w)) {
            Out::Ok(None) => NONE,
            x => x.code(),
        };
        let c = call(|| t.get_leaf_count(w)).code();
        let key = self.u.key(k);
        let x = call(|| t.get_with_exclusion_proof(key, w)).code();
        self.emit(json!({"e":"nover","v":v,"gwp":p,"iter":it,"idx":ix,"root":r,"opt":o,"cnt":c,"excl":x}));
    }

    // ---------------------------------------------------------------- structure
    pub fn node_json(&mut self, nk: &NodeKey, node: &Node) -> Value {
        let (v, path) = node_key_path(nk);
        let (n, rep) = self.u.pos(&path);
        let v = self.rel(v);
        match node {
            Node::Null => json!({"v":v,"n":n,"k":rep,"t":"N","key":0,"val":-1,"ch":[],"cnt":0}),
            Node::Leaf(l) => {
                let (k, vh) = leaf_bytes(l);
                let key = self.u.id(&KeyHash(k));
                let val = self.vh_id.get(&vh).copied().unwrap_or(UNKNOWN);
                json!({"v":v,"n":n,"k":rep,"t":"L","key":key,"val":val,"ch":[],"cnt":1})
            }
            Node::Internal(i) => {
                let mut ch = vec![];
                for (nib, c) in i.children_sorted() {
                    let mut p = path.clone();
                    p.push(u8::from(nib));
                    let (_, crep) = self.u.pos(&p);
                    let h = c.hash;
                    let id = {
                        let n = self.hid.len() as i64;
                        *self.hid.entry(h).or_insert(n)
                    };
                    ch.push(json!([u8::from(nib), crep, self.rel(c.version), c.is_leaf() as i64, c.leaf_count().map(|x| x as i64).unwrap_or(-1), id]));
                }
                let cnt = i.leaf_count().map(|x| x as i64).unwrap_or(-1);
                json!({"v":v,"n":n,"k":rep,"t":"I","key":0,"val":-1,"ch":ch,"cnt":cnt})
            }
        }
    }
    pub fn ev_upd(&mut self, u: &Upd) {
        let nodes: Vec<Value> = u.batch.node_batch.nodes().clone().iter().map(|(k, n)| self.node_json(k, n)).collect();
        let stale: Vec<Value> = u
            .batch
            .stale_node_index_batch
            .iter()
            .map(|s| {
                let (v, p) = node_key_path(&s.node_key);
                let (n, k) = self.u.pos(&p);
                json!([self.rel(s.stale_since_version), self.rel(v), n, k])
            })
            .collect();
        let stats: Vec<Value> =
            u.batch.node_stats.iter().map(|s| json!([s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves])).collect();
        let values: Vec<Value> = u
            .batch
            .node_batch
            .values()
            .iter()
            .map(|((v, k), x)| json!([self.rel(*v), self.u.id(k), self.vid(x)]))
            .collect();
        self.emit(json!({"e":"upd","nodes":nodes,"stale":stale,"stats":stats,"values":values}));
    }
    pub fn dump(&self) -> Vec<Value> {
        let mut d: Vec<(i64, usize, i64, String, Vec<Value>)> = vec![];
        for (nk, node) in VersionedDatabase::nodes(&self.store) {
            let (v, path) = node_key_path(&nk);
            let (n, k) = self.u.pos(&path);
            let (t, ch) = match &node {
                Node::Null => ("N", vec![]),
                Node::Leaf(_) => ("L", vec![]),
                Node::Internal(i) => (
                    "I",
                    i.children_sorted()
                        .map(|(nib, c)| {
                            let mut p = path.clone();
                            p.push(u8::from(nib));
                            json!([self.u.pos(&p).1, self.rel(c.version)])
                        })
                        .collect(),
                ),
            };
            d.push((self.rel(v), n, k, t.to_string(), ch));
        }
        d.sort_by(|a, b| (a.0, a.1, a.2).cmp(&(b.0, b.1, b.2)));
        d.into_iter().map(|(v, n, k, t, ch)| json!({"v":v,"n":n,"k":k,"t":t,"ch":ch})).collect()
    }
    pub fn ev_prune(&mut self, v: i64) {
        let (s, w) = (self.store.clone(), self.ver(v));
        let res = call(|| s.purge_stale_nodes(w)).word();
        let d = self.dump();
        let num = self.store.num_nodes();
        self.emit(json!({"e":"prune","v":v,"res":res,"left":d,"num":num}));
        self.pruned = self.pruned.max(v);
    }
    pub fn ev_book(&mut self) {
        let t = self.tree.clone();
        let (len, empty, ver) = (t.len(), t.is_empty(), t.version());
        let dblen = VersionedDatabase::len(&self.store);
        let mut hist: Vec<(i64, Vec<(i64, i64)>)> = VersionedDatabase::value_history(&self.store)
            .map(|(k, h)| (self.u.id(&k), h.iter().map(|(v, x)| (self.rel(v.0), self.vid(x))).collect()))
            .collect();
        hist.sort();
        let right = match call(|| self.store.get_rightmost_leaf()) {
            Out::Ok(Some((nk, l))) => {
                let (v, p) = node_key_path(&nk);
                let (n, k) = self.u.pos(&p);
                let lk = self.u.id(&l.key_hash());
                json!([lk, self.rel(v), n, k])
            }
            Out::Ok(None) => json!([]),
            _ => json!([-3]),
        };
        let leaves: Vec<Value> = VersionedDatabase::nodes(&self.store)
            .filter_map(|(nk, n)| match n {
                Node::Leaf(l) => {
                    let (v, p) = node_key_path(&nk);
                    let (n, k) = self.u.pos(&p);
                    Some(json!([self.u.id(&l.key_hash()), self.rel(v), n, k]))
                }
                _ => None,
            })
            .collect();
        let rver = if ver == 0 && self.base > 0 { 0 } else { self.rel(ver) };
        let num = self.store.num_nodes();
        let nodes = VersionedDatabase::nodes(&self.store).count();
        self.emit(json!({"e":"book","len":len,"dblen":dblen,"empty":empty as i64,"version":rver,"hist":hist,"right":right,"leaves":leaves,"num":[num,nodes]}));
    }
}

pub fn node_hash(n: &Node) -> [u8; 32] {
    match n {
        Node::Null => PLACEHOLDER,
        Node::Leaf(l) => {
            let (k, v) = leaf_bytes(l);
            h_leaf(&k, &v)
        }
        Node::Internal(i) => i.hash(),
    }
}
/// The nibble path of a node key, as whatever (unnameable) type the tree uses for it.
fn nibble_path_of<T: borsh::BorshDeserialize>(nk: &NodeKey) -> T {
    let b = nk.try_to_vec().unwrap();
    T::try_from_slice(&b[8..]).expect("nibble path")
}

// -------------------------------------------------------------------- key universes
pub fn gen_universe(rng: &mut Rng, nput: usize, nprobe: usize) -> Universe {
    let mut keys: Vec<[u8; 32]> = vec![];
    let style = rng.below(8);
    // deep keys are expensive for the checker: allow few of them
    let mut deep = if rng.chance(1, 3) { rng.range(1, 3) } else { 0 };
    while keys.len() < nput + nprobe {
        let mut k;
        if keys.is_empty() || rng.chance(1, 12) {
            k = match rng.below(6) {
                0 => [0u8; 32],
                1 => [255u8; 32],
                _ => rng.bytes32(),
            };
        } else {
            let old = nibbles(rng.pick(&keys));
            let len = match (style, rng.below(10)) {
                (0, _) => rng.below(2),
                (1, x) if x < 8 => 1,
                (_, 0 | 1) => 0,
                (_, 2..=6) => rng.range(1, 4),
                (_, 7 | 8) => rng.range(4, 9),
                _ => {
                    if deep > 0 {
                        deep -= 1;
                        if rng.chance(1, 2) { 63 } else { rng.range(10, 62) }
                    } else {
                        rng.range(1, 5)
                    }
                }
            };
            let mut n = old.clone();
            n[len] = match rng.below(4) {
                0 => (old[len] + 1) % 16,
                1 => (old[len] + 15) % 16,
                2 => old[len] ^ (1 << rng.below(4)),
                _ => rng.below(16) as u8,
            };
            match rng.below(5) {
                0 => n[len + 1..].iter_mut().for_each(|x| *x = 0),
                1 => n[len + 1..].iter_mut().for_each(|x| *x = 15),
                2 => {}
                _ => {
                    let r = nibbles(&rng.bytes32());
                    n[len + 1..].copy_from_slice(&r[len + 1..]);
                }
            }
            k = [0u8; 32];
            k.copy_from_slice(&from_nibbles(&n));
        }
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    Universe::new(keys)
}
