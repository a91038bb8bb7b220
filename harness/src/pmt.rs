//! Drives the Patricia trie and records histories for spec/MptTrace.tla.
#![allow(deprecated)]
use crate::util::*;
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, H256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ a database that can fail
#[derive(Debug, Clone)]
pub struct Fault;
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected")
    }
}
impl std::error::Error for Fault {}

#[derive(Default, Debug)]
pub struct FState {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    light: bool,
    hidden: HashSet<Vec<u8>>,
    fail: [Option<u64>; 3], // countdown to a failing get / put / remove
    hits: u64,
}
#[derive(Default, Debug, Clone)]
pub struct FDb(Arc<Mutex<FState>>);
impl FState {
    fn tick(&mut self, i: usize) -> Result<(), Fault> {
        if let Some(n) = self.fail[i] {
            if n == 0 {
                self.fail[i] = None;
                self.hits += 1;
                return Err(Fault);
            }
            self.fail[i] = Some(n - 1);
        }
        Ok(())
    }
}
impl Database for FDb {
    type Error = Fault;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Fault> {
        let mut s = self.0.lock().unwrap();
        s.tick(0)?;
        if s.hidden.contains(key) && s.map.contains_key(key) {
            s.hits += 1;
            return Ok(None);
        }
        Ok(s.map.get(key).cloned())
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), Fault> {
        let mut s = self.0.lock().unwrap();
        s.tick(1)?;
        s.hidden.remove(key);
        s.map.insert(key.to_vec(), value);
        Ok(())
    }
    fn remove(&self, key: &[u8]) -> Result<(), Fault> {
        let mut s = self.0.lock().unwrap();
        s.tick(2)?;
        if s.light {
            s.map.remove(key);
        }
        Ok(())
    }
    fn flush(&self) -> Result<(), Fault> {
        Ok(())
    }
    fn len(&self) -> Result<usize, Fault> {
        Ok(self.0.lock().unwrap().map.len())
    }
    fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, Fault> {
        Ok(self.0.lock().unwrap().map.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
    }
    fn is_empty(&self) -> Result<bool, Fault> {
        Ok(self.0.lock().unwrap().map.is_empty())
    }
}

pub trait TestDb: Database {
    fn make(light: bool) -> Self;
    fn arm(&self, _kind: usize, _n: u64) {}
    fn hide(&self, _key: Vec<u8>) {}
    fn heal(&self) {}
    fn take_hits(&self) -> u64 {
        0
    }
    fn disarm(&self) {}
}
impl TestDb for MemoryDB {
    fn make(light: bool) -> Self {
        MemoryDB::new(light)
    }
}
impl TestDb for FDb {
    fn make(light: bool) -> Self {
        FDb(Arc::new(Mutex::new(FState { light, ..Default::default() })))
    }
    fn arm(&self, kind: usize, n: u64) {
        self.0.lock().unwrap().fail[kind] = Some(n);
    }
    fn hide(&self, key: Vec<u8>) {
        self.0.lock().unwrap().hidden.insert(key);
    }
    fn heal(&self) {
        let mut s = self.0.lock().unwrap();
        s.hidden.clear();
        s.fail = [None; 3];
    }
    fn disarm(&self) {
        self.0.lock().unwrap().fail = [None; 3];
    }
    fn take_hits(&self) -> u64 {
        std::mem::take(&mut self.0.lock().unwrap().hits)
    }
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    keccak_hash::keccak(b).0
}

// ------------------------------------------------------------------ universes
pub struct Universe {
    pub keys: Vec<Vec<u8>>,
    pub vals: Vec<Vec<u8>>, // value id v is vals[v - 1]
    pub own: bool,          // value ids are used with one key only
}

pub fn gen_keys(rng: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut set: std::collections::BTreeSet<Vec<u8>> = Default::default();
    let kind = rng.below(6);
    let alpha: Vec<u8> = match rng.below(4) {
        0 => vec![0x11, 0x12, 0x21],
        1 => vec![0x00, 0x01, 0x10],
        2 => vec![0xff, 0xf0, 0x0f, 0x7f],
        _ => (0..4).map(|_| rng.next() as u8).collect(),
    };
    let base: Vec<u8> = (0..80).map(|_| *rng.pick(&alpha)).collect();
    let fixed = *rng.pick(&[1usize, 2, 3, 20, 32]);
    let mut tries = 0;
    while set.len() < n && tries < 200 {
        tries += 1;
        let k: Vec<u8> = match kind {
            // short keys over a small alphabet, often prefixes of each other, the empty key among them
            0 | 1 => (0..rng.below(5)).map(|_| *rng.pick(&alpha)).collect(),
            // prefixes of one string with variations at the end
            2 => {
                let len = rng.below(7);
                let mut k = base[..len].to_vec();
                if rng.chance(1, 2) {
                    let low = rng.below(2) == 0;
                    k.push(if low { base[len] ^ (1 + rng.below(15)) as u8 } else { base[len] ^ (16 * (1 + rng.below(15))) as u8 });
                }
                if rng.chance(1, 4) {
                    k.push(rng.next() as u8);
                }
                k
            }
            // equal length, sharing prefixes of any number of nibbles
            3 => {
                let mut k = base[..fixed].to_vec();
                let at = rng.below(fixed.min(4));
                let at = if rng.chance(1, 3) { fixed - 1 - at } else { at };
                k[at] ^= if rng.chance(1, 2) { 1 + rng.below(15) } else { 16 * (1 + rng.below(15)) } as u8;
                for x in k.iter_mut().skip(at + 1) {
                    if rng.chance(1, 8) {
                        *x = rng.next() as u8;
                    }
                }
                k
            }
            // long keys
            4 => {
                let len = rng.range(26, 72);
                let mut k = base[..len].to_vec();
                if rng.chance(2, 3) {
                    k.push(rng.next() as u8);
                }
                k
            }
            // all nibbles of one branch
            _ => {
                let mut k = base[..rng.below(2)].to_vec();
                k.push((16 * rng.below(16) + rng.below(2)) as u8);
                k
            }
        };
        set.insert(k);
    }
    if rng.chance(1, 5) {
        set.insert(vec![]);
    }
    set.into_iter().collect()
}

fn gen_value(rng: &mut Rng) -> Vec<u8> {
    let len = match rng.below(12) {
        0 | 1 => 1,
        2 => 2,
        3 => rng.range(3, 10),
        4 | 5 => rng.range(20, 32),
        6 => *rng.pick(&[31usize, 32, 33]),
        7 => rng.range(33, 52),
        8 => rng.range(53, 58),
        9 => rng.range(60, 130),
        10 => rng.range(15, 30),
        _ => *rng.pick(&[240usize, 250, 254, 255, 256, 257, 300, 1000]),
    };
    let mut v: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
    if rng.chance(1, 3) {
        v[0] = *rng.pick(&[0x00, 0x01, 0x7f, 0x80, 0x81, 0xa0, 0xb7, 0xb8, 0xc0, 0xc1, 0xf7, 0xf8, 0xff]);
    }
    if rng.chance(1, 400) {
        v = (0..*rng.pick(&[65_530usize, 65_536, 70_000])).map(|_| rng.next() as u8).collect();
    }
    v
}

pub fn universe(rng: &mut Rng, own: bool, per_key: usize) -> Universe {
    let n = rng.range(2, 11);
    let keys = gen_keys(rng, n);
    let mut vals: Vec<Vec<u8>> = vec![];
    let uniform = rng.chance(1, 3).then(|| rng.range(1, 40));
    while vals.len() < keys.len() * per_key {
        let mut v = gen_value(rng);
        if let Some(n) = uniform {
            v = (0..n).map(|_| rng.next() as u8).collect();
        }
        if !vals.contains(&v) {
            vals.push(v);
        }
    }
    Universe { keys, vals, own }
}

// ------------------------------------------------------------------ session
pub struct Sess<D: TestDb> {
    pub u: Universe,
    pub ev: Vec<Value>,
    pub db: Arc<D>,
    pub light: bool,
    pub views: BTreeMap<i64, InnerTrie<D>>,
    next_view: i64,
    ids: HashMap<[u8; 32], i64>,
    sent: HashMap<i64, Vec<i64>>,
    bytes: HashMap<i64, Vec<u8>>,
    pub roots: Vec<([u8; 32], i64)>, // committed in this database (light: only the last)
    clean: HashMap<i64, bool>,
    at: HashMap<i64, [u8; 32]>, // root a clean view stands at
}

impl<D: TestDb> Sess<D> {
    pub fn new(focus: &str, u: Universe, light: bool) -> Self {
        let long = |v: &Vec<u8>| v.len() > 33;
        let vals: Vec<Value> = u
            .vals
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let b: Vec<i64> = if long(v) { vec![-(1_000_001 + i as i64)] } else { v.iter().map(|x| *x as i64).collect() };
                json!({"b": b, "n": v.len()})
            })
            .collect();
        let keys: Vec<Vec<u8>> = u.keys.iter().map(|k| nibbles(k)).collect();
        let ev = vec![json!({"e":"reset","f":focus,"keys":keys,"vals":vals,"light":light as i64})];
        Sess {
            u,
            ev,
            db: Arc::new(D::make(light)),
            light,
            views: BTreeMap::new(),
            next_view: 1,
            ids: HashMap::new(),
            sent: HashMap::new(),
            bytes: HashMap::new(),
            roots: vec![],
            clean: HashMap::new(),
            at: HashMap::new(),
        }
    }
    pub fn newdb(&mut self, light: bool) {
        self.db = Arc::new(D::make(light));
        self.light = light;
        self.views.clear();
        self.roots.clear();
        self.ev.push(json!({"e":"newdb","light":light as i64}));
    }
    fn id(&mut self, h: [u8; 32]) -> i64 {
        let n = self.ids.len() as i64 + 1;
        *self.ids.entry(h).or_insert(n)
    }
    fn vid(&self, v: &[u8]) -> i64 {
        self.u.vals.iter().position(|x| x == v).map(|i| i as i64 + 1).unwrap_or(UNKNOWN)
    }
    fn kid(&self, k: &[u8]) -> i64 {
        self.u.keys.iter().position(|x| x == k).map(|i| i as i64 + 1).unwrap_or(UNKNOWN)
    }
    pub fn add(&mut self) -> i64 {
        let t = self.next_view;
        self.next_view += 1;
        self.views.insert(t, InnerTrie::new(self.db.clone()));
        self.clean.insert(t, false);
        self.ev.push(json!({"e":"new","t":t}));
        t
    }
    /// A view at a committed root, opened from some existing view.
    pub fn open(&mut self, from: i64, root: ([u8; 32], i64)) -> i64 {
        let t = self.next_view;
        self.next_view += 1;
        let v = self.views[&from].at_root(H256(root.0));
        self.views.insert(t, v);
        self.clean.insert(t, true);
        self.at.insert(t, root.0);
        self.ev.push(json!({"e":"open","t":t,"root":root.1}));
        t
    }
    pub fn dup(&mut self, from: i64) -> i64 {
        let t = self.next_view;
        self.next_view += 1;
        let v = self.views[&from].clone();
        self.views.insert(t, v);
        self.clean.insert(t, self.clean[&from]);
        if let Some(r) = self.at.get(&from).copied() {
            self.at.insert(t, r);
        }
        self.ev.push(json!({"e":"dup","t":t,"of":from}));
        t
    }
    fn opt(&self, o: Out<Option<Vec<u8>>>) -> i64 {
        match o {
            Out::Ok(Some(v)) => self.vid(&v),
            Out::Ok(None) => NONE,
            x => x.code(),
        }
    }
    fn hit(&self) -> i64 {
        (self.db.take_hits() > 0) as i64
    }
    pub fn get(&mut self, t: i64, k: usize, fault: Option<(usize, u64)>) -> i64 {
        let key = self.u.keys[k].clone();
        let v = &self.views[&t];
        // with a transient fault, both calls see it or neither
        if let Some((f, n)) = fault {
            self.db.arm(f, n);
        }
        let a = call(|| v.get(&key));
        let hit = self.hit();
        if let Some((f, n)) = fault {
            self.db.disarm();
            self.db.arm(f, n);
        }
        let b = call(|| v.contains(&key));
        self.db.disarm();
        let get = self.opt(a);
        let has = match b {
            Out::Ok(b) => b as i64,
            x => x.code(),
        };
        let hit2 = self.hit();
        self.ev.push(json!({"e":"get","t":t,"k":k+1,"get":get,"has":has,"hit":hit,"hit2":hit2}));
        hit
    }
    /// v = 0: the empty value
    pub fn ins(&mut self, t: i64, k: usize, v: usize) -> i64 {
        let key = self.u.keys[k].clone();
        let val = if v == 0 { vec![] } else { self.u.vals[v - 1].clone() };
        let tr = self.views.get_mut(&t).unwrap();
        let r = call(|| tr.insert(&key, &val));
        self.db.disarm();
        let hit = self.hit();
        if r.code() == 0 {
            self.clean.insert(t, false);
        }
        self.ev.push(json!({"e":"ins","t":t,"k":k+1,"v":v,"res":r.code(),"hit":hit}));
        hit
    }
    pub fn rem(&mut self, t: i64, k: usize) -> i64 {
        let key = self.u.keys[k].clone();
        let tr = self.views.get_mut(&t).unwrap();
        let r = call(|| tr.remove(&key));
        self.db.disarm();
        let hit = self.hit();
        let res = match r {
            Out::Ok(b) => b as i64,
            x => x.code(),
        };
        if res == 1 {
            self.clean.insert(t, false);
        }
        self.ev.push(json!({"e":"rem","t":t,"k":k+1,"res":res,"hit":hit}));
        hit
    }
    fn tokens(&self, v: &[u8]) -> Vec<i64> {
        let mut out = vec![];
        let mut i = 0;
        'outer: while i < v.len() {
            if i + 32 <= v.len() {
                let h: [u8; 32] = v[i..i + 32].try_into().unwrap();
                if let Some(id) = self.ids.get(&h) {
                    out.push(-id);
                    i += 32;
                    continue;
                }
            }
            for (j, val) in self.u.vals.iter().enumerate() {
                if val.len() > 33 && v[i..].starts_with(val) {
                    out.push(-(1_000_001 + j as i64));
                    i += val.len();
                    continue 'outer;
                }
            }
            out.push(v[i] as i64);
            i += 1;
        }
        out
    }
    /// Look at the database: everything it holds, and nodes not seen before.
    fn look(&mut self) -> (Vec<i64>, Vec<Value>, i64) {
        let mut all = self.db.values().expect("listing");
        all.sort_by(|a, b| (a.1.len(), &a.0).cmp(&(b.1.len(), &b.0)));
        let mut bad = 0;
        let mut held = vec![];
        for (k, v) in &all {
            if k.len() != 32 || keccak(v)[..] != k[..] {
                bad += 1;
                continue;
            }
            let id = self.id(keccak(v));
            held.push(id);
            self.bytes.insert(id, v.clone());
        }
        let mut new = vec![];
        for id in &held {
            // (a node can be stored, by a failing commit, before the nodes it refers to)
            let tok = self.tokens(&self.bytes[id]);
            if self.sent.get(id) != Some(&tok) {
                new.push(json!({"h":id,"s":tok}));
                self.sent.insert(*id, tok);
            }
        }
        (held, new, bad)
    }
    pub fn commit(&mut self, t: i64, via_root_hash: bool) -> i64 {
        let tr = self.views.get_mut(&t).unwrap();
        let r = call(|| if via_root_hash { tr.root_hash() } else { tr.commit() });
        self.db.disarm();
        let hit = self.hit();
        let (held, new, bad) = self.look();
        let root = match &r {
            Out::Ok(h) => {
                let id = self.id(h.0);
                self.at.insert(t, h.0);
                if self.light {
                    self.roots.clear();
                }
                self.roots.retain(|x| x.1 != id);
                self.roots.push((h.0, id));
                id
            }
            _ => 0,
        };
        self.clean.insert(t, r.code() == 0);
        self.ev.push(json!({"e":"commit","t":t,"res":r.code(),"root":root,"db":held,"new":new,"bad":bad,"hit":hit}));
        hit
    }
    fn verifiers(&self, t: Option<i64>, root: [u8; 32], key: &[u8], proof: &[Vec<u8>]) -> Vec<i64> {
        let other = InnerTrie::<MemoryDB>::new(Arc::new(MemoryDB::new(true)));
        let mut out = vec![self.opt(call(|| other.verify_proof(H256(root), key, proof.to_vec())))];
        if let Some(t) = t {
            let v = &self.views[&t];
            out.push(self.opt(call(|| v.verify_proof(H256(root), key, proof.to_vec()))));
        }
        out
    }
    fn known(&self, nodes: &[Vec<u8>]) -> Vec<i64> {
        nodes.iter().map(|n| self.ids.get(&keccak(n)).copied().unwrap_or(UNKNOWN)).collect()
    }
    fn root_of(&self, t: i64) -> Option<[u8; 32]> {
        if self.clean[&t] {
            self.at.get(&t).copied()
        } else {
            None
        }
    }
    pub fn proof(&mut self, t: i64, k: usize) -> (Vec<Vec<u8>>, i64) {
        let key = self.u.keys[k].clone();
        let root = self.root_of(t);
        let tr = self.views.get_mut(&t).unwrap();
        let r = call(|| tr.get_proof(&key));
        self.db.disarm();
        let hit = self.hit();
        let code = r.code();
        let nodes = match r {
            Out::Ok(p) => p,
            _ => vec![],
        };
        let ver = match root {
            Some(root) if code == 0 => self.verifiers(Some(t), root, &key, &nodes),
            _ => vec![],
        };
        let ids = self.known(&nodes);
        self.db.take_hits();
        self.ev.push(json!({"e":"proof","t":t,"k":k+1,"res":code,"ids":ids,"ver":ver,"hit":hit}));
        (nodes, hit)
    }
    pub fn verify(&mut self, t: Option<i64>, root: [u8; 32], k: usize, nodes: &[Vec<u8>]) {
        let key = self.u.keys[k].clone();
        let res = self.verifiers(t, root, &key, nodes);
        let own = nodes.iter().any(|n| keccak(n) == root) as i64;
        let rid = self.ids.get(&root).copied().unwrap_or(0);
        let mut ids = self.known(nodes);
        ids.retain(|x| *x != UNKNOWN);
        self.ev.push(json!({"e":"verify","root":rid,"k":k+1,"ids":ids,"own":own,"res":res}));
    }
    pub fn iter(&mut self, t: i64) {
        let cap = 4 * self.u.keys.len() + 8;
        let pairs = |s: &Self, o: Out<Vec<(Vec<u8>, Vec<u8>)>>| -> Value {
            match o {
                Out::Ok(v) => json!(v.iter().map(|(k, x)| vec![s.kid(k), s.vid(x)]).collect::<Vec<_>>()),
                x => json!([[x.code(), 0]]),
            }
        };
        let v = &self.views[&t];
        let b = call(|| Ok::<_, ()>(v.iter().take(cap).collect::<Vec<_>>()));
        let o = call(|| Ok::<_, ()>(OwnedTrieIterator::new(v.clone()).take(cap).collect::<Vec<_>>()));
        let l = call(|| v.values());
        let (b, o, l) = (pairs(self, b), pairs(self, o), pairs(self, l));
        self.ev.push(json!({"e":"iter","t":t,"b":b,"o":o,"v":l}));
    }
    pub fn count(&mut self, t: i64) {
        let n = self.views[&t].len();
        let empty = self.views[&t].is_empty() as i64;
        self.ev.push(json!({"e":"count","n":n,"empty":empty}));
    }
    fn pick_val(&self, rng: &mut Rng, k: usize) -> usize {
        if self.u.own {
            let per = self.u.vals.len() / self.u.keys.len();
            1 + k * per + rng.below(per)
        } else {
            1 + rng.below(self.u.vals.len())
        }
    }
    fn pick_view(&self, rng: &mut Rng) -> i64 {
        let v: Vec<i64> = self.views.keys().copied().collect();
        *rng.pick(&v)
    }
    fn get_all(&mut self, t: i64) {
        for k in 0..self.u.keys.len() {
            self.get(t, k, None);
        }
    }
}

// ------------------------------------------------------------------ histories
pub fn history(focus: &str, rng: &mut Rng) -> Vec<Value> {
    match focus {
        "C20" => faults(rng),
        "C15" => views(rng),
        "C18" => adversary(rng),
        _ => single(focus, rng),
    }
}

fn change<D: TestDb>(s: &mut Sess<D>, rng: &mut Rng, t: i64, removes: usize) {
    let k = rng.below(s.u.keys.len());
    if rng.chance(1, 25) {
        s.ins(t, k, 0);
    } else if rng.chance(removes, 10) {
        s.rem(t, k);
    } else {
        let v = s.pick_val(rng, k);
        s.ins(t, k, v);
    }
}

/// One owner: its own view, reopened at the latest root now and then.
fn single(focus: &str, rng: &mut Rng) -> Vec<Value> {
    let light = match focus {
        "C16" => true,
        _ => rng.chance(1, 2),
    };
    let own = light || rng.chance(1, 2);
    let per = rng.range(1, 2);
    let u = universe(rng, own, per);
    let mut s = Sess::<MemoryDB>::new(focus, u, light);
    let nk = s.u.keys.len();
    let mut t = s.add();
    let steps = rng.range(4, 22);
    let mut removes = rng.range(2, 6);
    let commit_every = rng.range(2, 7);
    if rng.chance(1, 2) {
        // start from a well filled trie
        for k in 0..nk {
            if rng.chance(4, 5) {
                let v = s.pick_val(rng, k);
                s.ins(t, k, v);
            }
        }
        s.commit(t, false);
    }
    for _ in 0..steps {
        let clean = s.clean[&t];
        match rng.below(12) {
            0..=5 => change(&mut s, rng, t, removes),
            6 => {
                let k = rng.below(nk);
                s.get(t, k, None);
            }
            7 if focus == "C16" || focus == "C17" || focus == "C13" => {
                let k = rng.below(nk);
                s.proof(t, k);
            }
            8 if focus == "C19" || focus == "C13" => s.iter(t),
            9 if clean && !s.roots.is_empty() => {
                let root = s.roots.last().copied().unwrap();
                // archive databases can go back
                let root = if !light && rng.chance(1, 2) { *rng.pick(&s.roots) } else { root };
                let n = s.open(t, root);
                s.views.remove(&t);
                t = n;
                if rng.chance(1, 3) {
                    removes = rng.range(2, 9);
                }
            }
            _ if rng.chance(3, commit_every + 2) => {
                s.commit(t, rng.chance(1, 2));
                observe(focus, &mut s, rng, t);
            }
            _ => change(&mut s, rng, t, removes),
        }
    }
    if focus == "C19" || focus == "C13" {
        s.iter(t);
    }
    if focus == "C13" {
        s.get_all(t);
    }
    s.commit(t, false);
    observe(focus, &mut s, rng, t);
    if focus == "C14" {
        rebuild(&mut s, rng, t);
    }
    if focus == "C16" {
        s.commit(t, false);
        s.get_all(t);
    }
    if focus == "C14" || focus == "C16" {
        // take everything out again
        let mut t = s.views.keys().copied().next().unwrap_or(t);
        let mut ks: Vec<usize> = (0..nk).collect();
        rng.shuffle(&mut ks);
        for k in ks {
            s.rem(t, k);
            if rng.chance(1, 4) {
                s.commit(t, false);
                if rng.chance(1, 3) {
                    let root = s.roots.last().copied().unwrap();
                    let n = s.open(t, root);
                    s.views.remove(&t);
                    t = n;
                }
            }
        }
        s.commit(t, false);
    }
    s.ev
}

fn observe(focus: &str, s: &mut Sess<MemoryDB>, rng: &mut Rng, t: i64) {
    let nk = s.u.keys.len();
    match focus {
        "C16" => {
            s.count(t);
            if rng.chance(1, 2) {
                s.get_all(t);
            }
            if rng.chance(1, 3) {
                let k = rng.below(nk);
                s.proof(t, k);
            }
            if rng.chance(1, 3) {
                s.iter(t);
            }
        }
        "C17" => {
            for k in 0..nk {
                s.proof(t, k);
            }
        }
        "C19" => s.iter(t),
        "C14" if rng.chance(1, 4) => {
            s.commit(t, false);
        }
        _ => {}
    }
}

/// The same contents, built differently in an empty database: the specification expects the same root.
fn rebuild(s: &mut Sess<MemoryDB>, rng: &mut Rng, t: i64) {
    let content: Vec<(usize, usize)> = {
        let v = &s.views[&t];
        (0..s.u.keys.len())
            .filter_map(|k| match call(|| v.get(&s.u.keys[k])) {
                Out::Ok(Some(x)) => Some((k, s.vid(&x) as usize)),
                _ => None,
            })
            .collect()
    };
    let light = s.u.own && rng.chance(1, 2);
    s.newdb(light);
    let mut t = s.add();
    let mut order = content.clone();
    rng.shuffle(&mut order);
    for (k, v) in order {
        if rng.chance(1, 3) {
            let x = rng.below(s.u.keys.len());
            if !content.iter().any(|c| c.0 == x) {
                let y = s.pick_val(rng, x);
                s.ins(t, x, y);
                if rng.chance(1, 2) {
                    s.commit(t, false);
                }
                s.rem(t, x);
            }
        }
        if v <= s.u.vals.len() {
            s.ins(t, k, v);
        }
        if rng.chance(1, 5) {
            s.commit(t, false);
            if rng.chance(1, 2) {
                let root = s.roots.last().copied().unwrap();
                let n = s.open(t, root);
                s.views.remove(&t);
                t = n;
            }
        }
    }
    for x in 0..s.u.keys.len() {
        if !content.iter().any(|c| c.0 == x) {
            s.rem(t, x);
        }
    }
    s.commit(t, false);
}

/// Several views over one non-pruning database.
fn views(rng: &mut Rng) -> Vec<Value> {
    let focus = "C15";
    let own = rng.chance(1, 3);
    let u = universe(rng, own, 1);
    let mut s = Sess::<MemoryDB>::new(focus, u, false);
    s.add();
    let steps = rng.range(8, 40);
    for _ in 0..steps {
        let t = s.pick_view(rng);
        match rng.below(12) {
            0..=4 => change(&mut s, rng, t, 4),
            5 | 6 => {
                s.commit(t, rng.chance(1, 2));
            }
            7 if s.views.len() < 5 => {
                s.add();
            }
            8 if s.views.len() < 5 => {
                s.dup(t);
            }
            9 | 10 if !s.roots.is_empty() => {
                if s.views.len() >= 5 {
                    s.views.remove(&t);
                }
                let from = s.views.keys().copied().next();
                let from = match from {
                    Some(f) => f,
                    None => s.add(),
                };
                let root = *rng.pick(&s.roots);
                let n = s.open(from, root);
                if rng.chance(1, 2) {
                    s.iter(n);
                }
            }
            11 if rng.chance(1, 2) => s.iter(t),
            _ => {
                let k = rng.below(s.u.keys.len());
                s.get(t, k, None);
            }
        }
    }
    // every view shows what it should, every root still shows its contents
    for t in s.views.keys().copied().collect::<Vec<_>>() {
        s.get_all(t);
        s.iter(t);
    }
    let from = s.views.keys().copied().next().unwrap();
    for r in s.roots.clone() {
        let n = s.open(from, r);
        s.iter(n);
        s.get_all(n);
        s.views.remove(&n);
    }
    s.ev
}

// ------------------------------------------------------------------ adversarial proofs
fn mangle(rng: &mut Rng, node: &[u8]) -> Vec<u8> {
    let mut n = node.to_vec();
    for _ in 0..rng.range(1, 3) {
        match rng.below(7) {
            0 if !n.is_empty() => {
                let i = rng.below(n.len());
                n[i] ^= 1 << rng.below(8);
            }
            1 if !n.is_empty() => {
                let i = rng.below(n.len().min(4));
                n[i] = *rng.pick(&[0x00, 0x01, 0x10, 0x20, 0x30, 0x40, 0x80, 0x81, 0xa0, 0xb8, 0xbf, 0xc0, 0xc2, 0xd1, 0xf8, 0xff]);
            }
            2 => {
                let l = rng.below(n.len() + 1);
                n.truncate(l);
            }
            3 => {
                let l = rng.below(n.len() + 1);
                n.insert(l, rng.next() as u8);
            }
            4 if !n.is_empty() => {
                let l = rng.below(n.len());
                n.remove(l);
            }
            5 => n.extend_from_slice(&[0x80; 3]),
            _ if !n.is_empty() => {
                let i = rng.below(n.len());
                n[i] = rng.next() as u8;
            }
            _ => {}
        }
    }
    n
}

fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let p: Vec<u8> = items.concat();
    let mut out = match p.len() {
        n if n <= 55 => vec![0xc0 + n as u8],
        n if n < 256 => vec![0xf8, n as u8],
        n => vec![0xf9, (n >> 8) as u8, n as u8],
    };
    out.extend(p);
    out
}
fn rlp_str(b: &[u8]) -> Vec<u8> {
    let mut out = match b.len() {
        1 if b[0] < 128 => vec![],
        n if n <= 55 => vec![0x80 + n as u8],
        n => vec![0xb8, n as u8],
    };
    out.extend(b);
    out
}
/// A string that looks like a node but need not be one.
fn odd_node(rng: &mut Rng, key: &[u8], depth: usize) -> Vec<u8> {
    let item = |rng: &mut Rng, d: usize| -> Vec<u8> {
        match rng.below(6) {
            0 => vec![0x80],
            1 => rlp_str(&rng.bytes32()),
            2 if d < 3 => odd_node(rng, key, d + 1),
            3 => vec![0xc0],
            4 => rlp_str(&[rng.next() as u8]),
            _ => rlp_str(&(0..rng.below(60)).map(|_| rng.next() as u8).collect::<Vec<_>>()),
        }
    };
    let compact = |rng: &mut Rng| -> Vec<u8> {
        let nib = nibbles(key);
        let cut = rng.below(nib.len() + 1);
        let leaf = rng.chance(1, 2);
        let nib = if leaf { nib } else { nib[..cut].to_vec() };
        let odd = nib.len() % 2;
        let mut c = vec![if leaf { 0x20 } else { 0 } + if odd == 1 { 0x10 + nib[0] } else { 0 }];
        c.extend(nib[odd..].chunks(2).map(|x| x[0] * 16 + x[1]));
        match rng.below(8) {
            0 => c[0] = rng.next() as u8,
            1 => c.clear(),
            2 => c[0] &= 0xf0,
            _ => {}
        }
        rlp_str(&c)
    };
    match rng.below(6) {
        0 => rlp_list(&(0..17).map(|_| item(rng, depth)).collect::<Vec<_>>()),
        1 | 2 => rlp_list(&[compact(rng), item(rng, depth)]),
        3 => rlp_list(&(0..*rng.pick(&[0usize, 1, 3, 16, 18])).map(|_| item(rng, depth)).collect::<Vec<_>>()),
        4 => {
            let mut v = vec![0xc0];
            for _ in 0..rng.range(1, 60) {
                v = rlp_list(&[vec![0x00], v]);
            }
            v
        }
        _ => (0..rng.below(80)).map(|_| rng.next() as u8).collect(),
    }
}

fn adversary(rng: &mut Rng) -> Vec<Value> {
    let focus = "C18";
    let own = rng.chance(1, 2);
    let u = universe(rng, own, 2);
    let mut s = Sess::<MemoryDB>::new(focus, u, false);
    let t = s.add();
    let nk = s.u.keys.len();
    // two or three roots with related contents
    for _ in 0..rng.range(1, 3) {
        for k in 0..nk {
            if rng.chance(2, 3) {
                let v = s.pick_val(rng, k);
                s.ins(t, k, v);
            } else if rng.chance(1, 4) {
                s.rem(t, k);
            }
        }
        s.commit(t, false);
    }
    let now = s.roots.clone();
    let latest = match now.iter().position(|r| Some(r.1) == s.ev.last().and_then(|e| e["root"].as_i64())) {
        Some(i) => now[i],
        None => return s.ev,
    };
    let all: Vec<Vec<u8>> = {
        let mut b: Vec<(i64, Vec<u8>)> = s.bytes.iter().map(|(k, v)| (*k, v.clone())).collect();
        b.sort();
        b.into_iter().map(|x| x.1).collect()
    };
    for _ in 0..rng.range(10, 30) {
        let k = rng.below(nk);
        let key = s.u.keys[k].clone();
        let mut p = match call(|| s.views.get_mut(&t).unwrap().get_proof(&key)) {
            Out::Ok(p) => p,
            _ => vec![],
        };
        let mut root = latest.0;
        for _ in 0..rng.range(1, 2) {
            let i = rng.below(p.len().max(1));
            match rng.below(16) {
                14 => {
                    // nodes that are nothing but references, leading to a true root or nowhere
                    let long = rng.chance(1, 60);
                    let mut n = if rng.chance(1, 2) { rlp_str(&latest.0) } else { odd_node(rng, &key, 0) };
                    for _ in 0..if long { 60_000 } else { rng.range(0, 4) } {
                        p.insert(if long { p.len() } else { 0 }, n.clone());
                        n = rlp_str(&keccak(&n));
                    }
                    root = keccak(&n);
                    p.push(n);
                }
                15 => {
                    // the true proof below one more node of the adversary's making
                    let up = match rng.below(3) {
                        0 => rlp_list(&[rlp_str(&[0x00]), rlp_str(&latest.0)]),
                        1 => rlp_list(&[rlp_str(&[0x10 + (key.first().copied().unwrap_or(0) >> 4)]), rlp_str(&latest.0)]),
                        _ => {
                            let mut c = vec![vec![0x80]; 17];
                            c[16] = rlp_str(&latest.0);
                            c[rng.below(16)] = rlp_str(&latest.0);
                            rlp_list(&c)
                        }
                    };
                    if rng.chance(1, 2) {
                        root = keccak(&up);
                    }
                    p.insert(0, up);
                }
                0 if !p.is_empty() => {
                    p.remove(i);
                }
                1 if !p.is_empty() => {
                    p.truncate(i);
                }
                2 if !p.is_empty() => p[i] = mangle(rng, &p[i]),
                3 => p.reverse(),
                4 => {
                    p.extend(p.clone());
                    rng.shuffle(&mut p);
                }
                5 => p.push(rng.pick(&all).clone()),
                6 if !p.is_empty() => p[i] = rng.pick(&all).clone(),
                7 => {
                    // somebody else's proof
                    let other = s.u.keys[rng.below(nk)].clone();
                    if let Out::Ok(q) = call(|| s.views.get_mut(&t).unwrap().get_proof(&other)) {
                        p = q;
                    }
                }
                8 => root = rng.pick(&now).0,
                9 => {
                    let n = odd_node(rng, &key, 0);
                    p.push(n);
                }
                10 => {
                    let n = odd_node(rng, &key, 0);
                    root = keccak(&n);
                    p.insert(0, n);
                }
                11 if !p.is_empty() => {
                    let n = mangle(rng, &p[0]);
                    root = keccak(&n);
                    p[0] = n;
                }
                12 => p = all.clone(),
                _ => {
                    if rng.chance(1, 3) {
                        root = rng.bytes32();
                    }
                    p.push(vec![]);
                }
            }
        }
        s.verify(rng.chance(1, 3).then_some(t), root, k, &p);
    }
    s.ev
}

// ------------------------------------------------------------------ faults
fn faults(rng: &mut Rng) -> Vec<Value> {
    let light = rng.chance(1, 2);
    let own = light || rng.chance(1, 2);
    let u = universe(rng, own, 2);
    let mut s = Sess::<FDb>::new("C20", u, light);
    let nk = s.u.keys.len();
    let mut t = s.add();
    for k in 0..nk {
        if rng.chance(4, 5) {
            let v = s.pick_val(rng, k);
            s.ins(t, k, v);
        }
    }
    s.commit(t, false);
    for _ in 0..rng.range(8, 26) {
        // from a view whose nodes are not in memory
        if s.clean[&t] && !s.roots.is_empty() && rng.chance(1, 3) {
            let root = if light { *s.roots.last().unwrap() } else { *rng.pick(&s.roots) };
            let n = s.open(t, root);
            s.views.remove(&t);
            t = n;
        }
        let op = rng.below(10);
        let k = rng.below(nk);
        let v = s.pick_val(rng, k);
        let mut fault = None;
        match rng.below(6) {
            0 => {}
            1 | 2 => {
                let ks: Vec<Vec<u8>> = s.db.0.lock().unwrap().map.keys().cloned().collect();
                if !ks.is_empty() {
                    for _ in 0..rng.range(1, 2) {
                        s.db.hide(rng.pick(&ks).clone());
                    }
                }
            }
            3 | 4 => fault = Some((0, rng.below(4) as u64)),
            _ => {}
        }
        if (7..9).contains(&op) {
            fault = match rng.below(5) {
                0 => None,
                1 => Some((0, 0)),
                2 | 3 => Some((1, rng.below(6) as u64)),
                _ => Some((2, rng.below(4) as u64)),
            };
        }
        for round in 0..2 {
            let f = if round == 0 { fault } else { None };
            if op > 1 {
                if let Some((f, n)) = f {
                    s.db.arm(f, n);
                }
            }
            let hit = match op {
                0 | 1 => s.get(t, k, f),
                2 | 3 => s.ins(t, k, v),
                4..=6 => s.rem(t, k),
                7 | 8 => {
                    s.commit(t, false)
                }
                _ => {
                    s.proof(t, k).1
                }
            };
            s.db.disarm();
            if hit == 0 || round == 1 || rng.chance(1, 4) {
                break;
            }
            s.db.heal();
            s.db.take_hits();
            if rng.chance(1, 2) {
                s.get_all(t); // nothing has changed
            }
        }
        if rng.chance(2, 3) {
            s.db.heal();
        }
    }
    s.db.heal();
    s.get_all(t);
    s.iter(t);
    s.commit(t, false);
    s.get_all(t);
    if !light {
        for r in s.roots.clone() {
            let n = s.open(t, r);
            s.iter(n);
            s.get_all(n);
            s.views.remove(&n);
        }
    }
    s.ev
}

/// The history recorded in KNOWN_FINDINGS.txt for C16: two leaves that are the same node.
/// -> what the last lookup answers
pub fn known_shared_leaf() -> String {
    let mut t = InnerTrie::new(Arc::new(MemoryDB::new(true)));
    let v = vec![7u8; 40];
    let r = call(|| -> Result<Option<Vec<u8>>, patriecia::TrieError> {
        t.insert(b"1abcd", &v)?;
        t.insert(b"2abcd", &v)?;
        t.commit()?;
        t.insert(b"1abcd", b"z")?;
        t.commit()?;
        t.get(b"2abcd")
    });
    match r {
        Out::Ok(Some(x)) if x == v => "held".into(),
        Out::Err => "missing".into(),
        Out::Panic => "panic".into(),
        Out::Ok(x) => format!("wrong answer {x:?}"),
    }
}
