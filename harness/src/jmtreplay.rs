//! Replays every behaviour exported by spec/JmtMC.tla into the real versioned tree, extended by every next write,
//! and compares with the table of spec/JmtTable.tla.
use crate::jmtdrv::*;
use crate::jmtmore::{ics_accepts, section};
use crate::util::*;
use ics23::commitment_proof::Proof as Cp;
use jmt::mock::MockTreeStore;
use jmt::reader::Preimage;
use jmt::storage::{Node, NodeKey, TreeReader, TreeUpdateBatch};
use jmt::{db::VersionedDatabase, trie::VersionedTrie, JellyfishMerkleIterator, KeyHash, RootHash, Sha256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Child {
    pub nib: u8,
    pub leaf: bool,
    pub cnt: usize,
    pub hash: [u8; 32],
}
pub struct NodeSpec {
    pub key: usize, // of a leaf, else 0
    pub cnt: usize,
    pub ch: Vec<Child>,
}
pub struct Content {
    pub root: [u8; 32],
    pub nodes: BTreeMap<Vec<u8>, NodeSpec>,
    pub leaf: Vec<Option<(usize, usize)>>,
    pub sibs: Vec<Vec<[u8; 32]>>,
}
pub struct Table {
    pub nibs: Vec<Vec<u8>>,
    pub pre: Vec<Vec<u8>>,
    pub keys: Vec<KeyHash>,
    pub vals: Vec<Vec<u8>>,
    pub all: HashMap<Vec<usize>, Content>,
}
impl Table {
    pub fn vh(&self, v: usize) -> [u8; 32] {
        sha(&self.vals[v - 1])
    }
    pub fn val(&self, c: &[usize], k: usize) -> Option<Vec<u8>> {
        (c[k] != 0).then(|| self.vals[c[k] - 1].clone())
    }
    pub fn proof(&self, c: &[usize], k: usize) -> Proof {
        let s = &self.all[c];
        mk_proof(s.leaf[k].map(|(k, v)| (self.keys[k - 1].0, self.vh(v))), &s.sibs[k])
    }
    pub fn pairs(&self, c: &[usize]) -> Vec<(KeyHash, Vec<u8>)> {
        (0..c.len()).filter_map(|k| self.val(c, k).map(|v| (self.keys[k], v))).collect()
    }
    fn id(&self, k: &KeyHash) -> usize {
        self.keys.iter().position(|x| x == k).map(|i| i + 1).unwrap_or(0)
    }
}

fn list(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
/// The values of the model, each close to the one before it: the empty value is
/// left out, the first two are long and differ in their last byte only.
fn table_value(i: usize) -> Vec<u8> {
    let mut b = b"a value of the model, rather a long one; ".repeat(40);
    match i {
        0 => {}
        1 => *b.last_mut().unwrap() = 0,
        2 => b[0] = 0,
        3 => b.truncate(b.len() - 1),
        _ => b = format!("value {i}").into_bytes(),
    }
    b
}
pub fn table(path: &str) -> Table {
    let j: Value = serde_json::from_slice(&std::fs::read(path).expect("table")).expect("json");
    let nibs: Vec<Vec<u8>> = j["kj"].as_array().unwrap().iter().map(|k| list(k).iter().map(|x| *x as u8).collect()).collect();
    // a preimage for every key: its hash starts with the key's nibbles
    let mut pre: Vec<Option<Vec<u8>>> = vec![None; nibs.len()];
    let mut i = 0u64;
    while pre.iter().any(|p| p.is_none()) {
        let p = format!("key/{i}").into_bytes();
        let h = nibbles(&sha(&p));
        for (k, n) in nibs.iter().enumerate() {
            if pre[k].is_none() && h.starts_with(n) {
                pre[k] = Some(p.clone());
            }
        }
        i += 1;
    }
    let pre: Vec<Vec<u8>> = pre.into_iter().map(|p| p.unwrap()).collect();
    let keys: Vec<KeyHash> = pre.iter().map(|p| KeyHash(sha(p))).collect();
    let vals: Vec<Vec<u8>> = (0..j["nv"].as_u64().unwrap() as usize).map(table_value).collect();
    let mut t = Table { nibs, pre, keys, vals, all: HashMap::new() };
    fn hash(t: &Table, x: &Value) -> [u8; 32] {
        let a = x.as_array().unwrap();
        if a.is_empty() {
            PLACEHOLDER
        } else if a[0].is_number() {
            let l = list(x);
            h_leaf(&t.keys[l[0] - 1].0, &t.vh(l[1]))
        } else {
            h_node(&hash(t, &a[0]), &hash(t, &a[1]))
        }
    }
    let mut all = HashMap::new();
    for c in j["contents"].as_array().unwrap() {
        let mut nodes = BTreeMap::new();
        for n in c["nodes"].as_array().unwrap() {
            let ch = n["ch"].as_array().unwrap().iter()
                .map(|x| Child {
                    nib: x["nib"].as_u64().unwrap() as u8,
                    leaf: x["leaf"].as_bool().unwrap(),
                    cnt: x["cnt"].as_u64().unwrap() as usize,
                    hash: hash(&t, &x["h"]),
                })
                .collect();
            nodes.insert(
                list(&n["p"]).iter().map(|x| *x as u8).collect(),
                NodeSpec { key: n["key"].as_u64().unwrap() as usize, cnt: n["cnt"].as_u64().unwrap() as usize, ch },
            );
        }
        let proofs = c["proof"].as_array().unwrap();
        all.insert(list(&c["c"]), Content {
            root: hash(&t, &c["root"]),
            nodes,
            leaf: proofs.iter().map(|p| { let l = list(&p["leaf"]); (!l.is_empty()).then(|| (l[0], l[1])) }).collect(),
            sibs: proofs.iter().map(|p| p["sibs"].as_array().unwrap().iter().map(|x| hash(&t, x)).collect()).collect(),
        });
    }
    t.all = all;
    t
}

pub struct Mis(pub String);
/// leaf and siblings of a proof, for comparison and printing
pub fn parts(p: &Proof) -> (Option<String>, Vec<String>) {
    let l = p.leaf().map(|l| { let (k, v) = leaf_bytes(&l); format!("{} {}", show(&k), show(&v)) });
    (l, p.siblings().iter().map(|x| show(x)).collect())
}
pub type Res = Result<(), Mis>;
pub fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Res {
    if got == exp {
        Ok(())
    } else {
        Err(Mis(format!("{what}: got {got:?}, the specification says {exp:?}")))
    }
}
fn mis<T>(m: String) -> Result<T, Mis> {
    Err(Mis(m))
}

/// one version: (key id, value id or 0 to delete)
pub type Set = Vec<(usize, usize)>;
pub fn apply(c: &[usize], s: &Set) -> Vec<usize> {
    let mut c = c.to_vec();
    for (k, v) in s {
        c[k - 1] = *v;
    }
    c
}
pub struct J<'a> {
    pub t: &'a Table,
    pub store: MockTreeStore,
    pub tree: Tree,
    pub cs: Vec<Vec<usize>>,
    pub sets: Vec<Set>,
    pub pruned: usize,
    // node keys and nodes written so far, node keys retired so far (C07)
    st: BTreeMap<(usize, Vec<u8>), Node>,
    retired: BTreeSet<(usize, Vec<u8>)>,
    focus: &'a str,
    pub skip: bool,
}
fn bytes_of(t: &Table, s: &Set) -> Vec<(KeyHash, Option<Vec<u8>>)> {
    s.iter().map(|(k, v)| (t.keys[k - 1], (*v != 0).then(|| t.vals[v - 1].clone()))).collect()
}
impl<'a> J<'a> {
    pub fn new(t: &'a Table, focus: &'a str, overwrite: bool) -> Self {
        let store = MockTreeStore::new(overwrite);
        for p in &t.pre {
            store.put_key_preimage::<Sha256>(&Preimage(p.clone()));
        }
        let tree = Tree::new(Arc::new(store.clone()));
        J { t, store, tree, cs: vec![], sets: vec![], pruned: 0, st: BTreeMap::new(), retired: BTreeSet::new(), focus, skip: false }
    }
    fn content(&self, v: usize) -> &[usize] {
        &self.cs[v]
    }
    pub fn cur(&self) -> Vec<usize> {
        self.cs.last().cloned().unwrap_or_else(|| vec![0; self.t.keys.len()])
    }
    pub fn judges_updates(&self) -> bool {
        ["C01", "C02", "C06", "C07", "C12"].contains(&self.focus)
    }
    /// compute `sets` as the next versions
    pub fn compute(&self, sets: &[Set], api: usize) -> Result<Option<(TreeUpdateBatch, Vec<RootHash>)>, Mis> {
        let v = self.cs.len() as u64;
        let b: Vec<_> = sets.iter().map(|s| bytes_of(self.t, s)).collect();
        let plain = sets.iter().all(|s| !s.is_empty() && s.iter().all(|x| x.1 != 0));
        let (n, o) = if api == 3 && plain {
            let p: Vec<Vec<(KeyHash, Vec<u8>)>> = b.iter().map(|s| s.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect()).collect();
            ("batch_put_value_sets", call(|| self.tree.batch_put_value_sets(p, None, v)))
        } else if sets.len() == 1 && api != 1 {
            ("put_value_set", call(|| self.tree.put_value_set(b[0].clone(), v).map(|(r, x)| (vec![r], x))))
        } else {
            ("put_value_sets", call(|| self.tree.put_value_sets(b, v)))
        };
        match o {
            Out::Ok((r, x)) => Ok(Some((x, r))),
            o if self.judges_updates() => mis(format!("{n} at version {v}: {}", o.word())),
            _ => Ok(None),
        }
    }
    pub fn commit(&mut self, sets: &[Set], api: usize) -> Res {
        if self.skip {
            return Ok(());
        }
        let first = self.cs.len();
        let (batch, roots) = match self.compute(sets, api)? {
            Some(x) => x,
            None => {
                self.skip = true;
                return Ok(());
            }
        };
        let b2 = batch.clone();
        let r = call(|| if first % 2 == 0 { self.store.write_tree_update_batch(b2) } else { VersionedDatabase::update(&self.store, b2) });
        if r.code() != 0 {
            if self.judges_updates() {
                return mis(format!("storing the update of version {first}: {}", r.word()));
            }
            self.skip = true;
            return Ok(());
        }
        for s in sets {
            let c = apply(&self.cur(), s);
            self.cs.push(c);
            self.sets.push(s.clone());
        }
        if self.focus == "C02" {
            want("number of announced roots", roots.len(), sets.len())?;
            for (i, r) in roots.iter().enumerate() {
                want(&format!("root announced for version {}", first + i), r.0, self.spec(first + i).root)?;
            }
        }
        if self.focus == "C07" {
            self.structure(first, &batch)?;
        }
        Ok(())
    }
    fn spec(&self, v: usize) -> &'a Content {
        &self.t.all[&self.cs[v]]
    }

    // ------------------------------------------------------------------ observations of one version
    /// the answer of a call that may fail where the version is pruned
    fn ans<T, E>(&self, v: usize, what: &str, o: Out<Result<T, E>>) -> Result<Option<T>, Mis>
    where
        E: std::fmt::Debug,
    {
        match o {
            Out::Ok(Ok(x)) => Ok(Some(x)),
            Out::Ok(Err(_)) if v < self.pruned => Ok(None),
            Out::Ok(Err(e)) => mis(format!("{what} at version {v} fails: {e:?}")),
            _ => mis(format!("{what} at version {v} crashes")),
        }
    }
    fn root(&self, v: usize) -> Res {
        let w = v as u64;
        if let Some(r) = self.ans(v, "root", call(|| Ok::<_, ()>(self.tree.get_root_hash(w))))? {
            want(&format!("root of version {v}"), r.0, self.spec(v).root)?;
        }
        match self.ans(v, "optional root", call(|| Ok::<_, ()>(self.tree.get_root_hash_option(w))))? {
            Some(Some(r)) => want(&format!("root of version {v}"), r.0, self.spec(v).root)?,
            Some(None) if v >= self.pruned => return mis(format!("root of version {v} reported as missing")),
            _ => {}
        }
        Ok(())
    }
    fn reads(&self, v: usize) -> Res {
        let (w, c) = (v as u64, self.content(v));
        for (k, key) in self.t.keys.iter().enumerate() {
            let exp = self.t.val(c, k);
            let n = |x: &str| format!("{x} of key{} at version {v}", k + 1);
            match call(|| self.tree.get(*key, w)) {
                Out::Ok(x) => want(&n("lookup"), x, exp.clone())?,
                o => return mis(format!("{}: {}", n("lookup"), o.word())),
            }
            match call(|| self.tree.contains(*key, w)) {
                Out::Ok(x) => want(&n("presence"), x, exp.is_some())?,
                o => return mis(format!("{}: {}", n("presence"), o.word())),
            }
            match call(|| VersionedDatabase::get(&self.store, w.into(), *key)) {
                Out::Ok(x) => want(&n("store lookup"), x, exp.clone())?,
                o => return mis(format!("{}: {}", n("store lookup"), o.word())),
            }
            if let Some((x, _)) = self.ans(v, &n("lookup with proof"), call(|| Ok::<_, ()>(self.tree.get_with_proof(*key, w))))? {
                want(&n("lookup with proof"), x, exp)?;
            }
        }
        Ok(())
    }
    fn missing(&self, v: usize) -> Res {
        let w = v as u64;
        let key = self.t.keys[0];
        let err = |what: &str, o: Out<()>| match o {
            Out::Err => Ok(()),
            o => mis(format!("{what} at version {v}, which was never written: {}", o.word())),
        };
        err("lookup with proof", call(|| self.tree.get_with_proof(key, w).map(|_| ())))?;
        err("exclusion proof", call(|| self.tree.get_with_exclusion_proof(key, w).map(|_| ())))?;
        err("root", call(|| self.tree.get_root_hash(w).map(|_| ())))?;
        err("iteration", call(|| self.collect(self.tree.iter(w)).map(|_| ())))?;
        err("leaf count", call(|| self.tree.get_leaf_count(w).map(|_| ())))?;
        match call(|| self.tree.get_root_hash_option(w)) {
            Out::Ok(x) => want(&format!("optional root at version {v}, never written"), x.is_none(), true),
            o => mis(format!("optional root at version {v}, never written: {}", o.word())),
        }
    }
    fn collect(&self, it: anyhow::Result<JellyfishMerkleIterator<MockTreeStore>>) -> Result<Vec<(KeyHash, Vec<u8>)>, String> {
        let mut it = it.map_err(|e| format!("{e:?}"))?;
        self.rest(&mut it)
    }
    fn rest(&self, it: &mut JellyfishMerkleIterator<MockTreeStore>) -> Result<Vec<(KeyHash, Vec<u8>)>, String> {
        let mut out = vec![];
        while let Some(x) = it.next() {
            out.push(x.map_err(|e| format!("{e:?}"))?);
            if out.len() > 2 * self.t.keys.len() + 4 {
                return Err("never ends".into());
            }
        }
        if it.next().is_some() || it.next().is_some() {
            return Err("goes on after its end".into());
        }
        Ok(out)
    }
    fn iter_all(&self, v: usize) -> Res {
        if let Some(x) = self.ans(v, "iteration", call(|| Ok::<_, ()>(self.collect(self.tree.iter(v as u64)))))? {
            want(&format!("iteration of version {v}"), x, self.t.pairs(self.content(v)))?;
        }
        Ok(())
    }
    fn iter_starts(&self, v: usize) -> Res {
        let all = self.t.pairs(self.content(v));
        let mut starts = vec![KeyHash([0; 32]), KeyHash([255; 32])];
        for k in &self.t.keys {
            starts.extend([*k, shift(k, false), shift(k, true)]);
        }
        // the smallest and greatest keys under each prefix of the universe
        for n in &self.t.nibs {
            for l in 1..=n.len() {
                for fill in [0u8, 15] {
                    let mut p = n[..l].to_vec();
                    p.resize(64, fill);
                    starts.push(KeyHash(from_nibbles(&p).try_into().unwrap()));
                    p[l - 1] = (p[l - 1] + 1) % 16;
                    starts.push(KeyHash(from_nibbles(&p).try_into().unwrap()));
                }
            }
        }
        starts.sort();
        starts.dedup();
        let st = Arc::new(self.store.clone());
        for s in starts {
            let exp: Vec<_> = all.iter().filter(|x| x.0 >= s).cloned().collect();
            if let Some(x) = self.ans(v, "iteration", call(|| Ok::<_, ()>(self.collect(JellyfishMerkleIterator::new(st.clone(), v as u64, s)))))? {
                want(&format!("iteration of version {v} from {:?}", s), x, exp)?;
            }
        }
        for i in 0..=all.len() + 2 {
            let exp: Vec<_> = all.iter().skip(i).cloned().collect();
            if let Some(x) = self.ans(v, "iteration", call(|| Ok::<_, ()>(self.collect(JellyfishMerkleIterator::new_by_index(st.clone(), v as u64, i)))))? {
                want(&format!("iteration of version {v} from index {i}"), x, exp)?;
            }
        }
        Ok(())
    }
    fn count(&self, v: usize) -> Res {
        if let Some(x) = self.ans(v, "leaf count", call(|| Ok::<_, ()>(self.tree.get_leaf_count(v as u64))))? {
            want(&format!("leaf count of version {v}"), x, Some(self.spec(v).nodes[&vec![]].cnt))?;
        }
        Ok(())
    }
    fn proofs(&self, v: usize, full: bool) -> Res {
        let (w, c) = (v as u64, self.content(v));
        let root = RootHash(self.spec(v).root);
        for (k, key) in self.t.keys.iter().enumerate() {
            let n = |x: &str| format!("{x} of key{} at version {v}", k + 1);
            let exp = self.t.proof(c, k);
            let (val, p) = match self.ans(v, &n("proof"), call(|| Ok::<_, ()>(self.tree.get_with_proof(*key, w))))? {
                Some(x) => x,
                None => continue,
            };
            want(&n("proof"), parts(&p), parts(&exp))?;
            let ok = |what: &str, o: Out<()>| match o {
                Out::Ok(()) => Ok(()),
                o => mis(format!("{}: {}", n(what), o.word())),
            };
            ok("verification", call(|| p.verify(root, *key, val.clone())))?;
            if !full {
                continue;
            }
            match &val {
                Some(x) => ok("verification of presence", call(|| p.verify_existence(root, *key, x)))?,
                None => ok("verification of absence", call(|| p.verify_nonexistence(root, *key)))?,
            }
            if self.spec(v).leaf[k].is_some_and(|l| l.0 == k + 1) {
                match call(|| Ok::<_, ()>(p.root_hash())) {
                    Out::Ok(r) => want(&n("root recomputed from the proof"), r.0, root.0)?,
                    o => return mis(format!("{}: {}", n("root recomputed from the proof"), o.word())),
                }
            }
            if let Some(p) = self.ans(v, &n("get_proof"), call(|| Ok::<_, ()>(self.tree.get_proof(*key, w))))? {
                want(&n("get_proof"), parts(&p), parts(&exp))?;
                ok("verify_proof", call(|| self.tree.verify_proof(*key, w, root, p)))?;
            }
        }
        Ok(())
    }
    /// a restored version
    pub fn observed(&self, v: usize, counts: bool) -> Res {
        self.root(v)?;
        self.reads(v)?;
        self.proofs(v, true)?;
        if counts {
            self.count(v)?;
        }
        self.iter_all(v)?;
        self.iter_starts(v)
    }
    fn everything(&self, v: usize) -> Res {
        self.root(v)?;
        self.reads(v)?;
        self.proofs(v, false)?;
        self.count(v)?;
        self.iter_all(v)?;
        self.iter_starts(v)
    }
    /// C01: an unrelated key of the middle of the universe's gaps is absent too
    fn stranger(&self, v: usize) -> Res {
        for k in &self.t.keys {
            for s in [shift(k, false), shift(k, true)] {
                match call(|| self.tree.get_with_proof(s, v as u64)) {
                    Out::Ok((x, _)) => want(&format!("lookup with proof of a neighbour of a key at version {v}"), x, None)?,
                    o => return mis(format!("lookup with proof of a neighbour of a key at version {v}: {}", o.word())),
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C07
    fn reach(&self, v: usize) -> Result<BTreeMap<Vec<u8>, usize>, Mis> {
        let mut out = BTreeMap::new();
        let mut todo = vec![(v, vec![])];
        while let Some((w, p)) = todo.pop() {
            match self.st.get(&(w, p.clone())) {
                None => return mis(format!("version {v}: node {p:x?} of version {w} is referred to and was never written")),
                Some(Node::Internal(i)) => {
                    for (nib, c) in i.children_sorted() {
                        let mut q = p.clone();
                        q.push(u8::from(nib));
                        todo.push((c.version as usize, q));
                    }
                }
                _ => {}
            }
            if out.insert(p.clone(), w).is_some() || out.len() > 1000 {
                return mis(format!("version {v}: node {p:x?} is reached twice"));
            }
        }
        Ok(out)
    }
    fn structure(&mut self, first: usize, b: &TreeUpdateBatch) -> Res {
        let last = self.cs.len() - 1;
        let mut new: BTreeSet<(usize, Vec<u8>)> = BTreeSet::new();
        for (nk, n) in b.node_batch.nodes() {
            let (v, p) = node_key_path(nk);
            let id = (v as usize, p);
            if id.0 < first || id.0 > last {
                return mis(format!("the update of versions {first}..{last} writes a node of version {v}"));
            }
            if self.st.insert(id.clone(), n.clone()).is_some() {
                return mis(format!("node {id:x?} is written a second time"));
            }
            new.insert(id);
        }
        let mut vals: Vec<(usize, usize, Option<Vec<u8>>)> = vec![];
        for ((v, k), x) in b.node_batch.values() {
            vals.push((*v as usize, self.t.id(k), x.clone()));
        }
        let mut expv = BTreeMap::new();
        for v in first..=last {
            for (k, x) in &self.sets[v] {
                expv.insert((v, *k), (*x != 0).then(|| self.t.vals[x - 1].clone()));
            }
        }
        want("values of the update", vals, expv.into_iter().map(|((v, k), x)| (v, k, x)).collect())?;
        let mut stale: BTreeMap<usize, BTreeSet<(usize, Vec<u8>)>> = BTreeMap::new();
        for s in &b.stale_node_index_batch {
            let (v, p) = node_key_path(&s.node_key);
            let id = (v as usize, p);
            if !self.retired.insert(id.clone()) {
                return mis(format!("node {id:x?} is retired a second time"));
            }
            if !stale.entry(s.stale_since_version as usize).or_default().insert(id.clone()) {
                return mis(format!("node {id:x?} is retired twice"));
            }
        }
        want("number of statistics", b.node_stats.len(), last + 1 - first)?;
        let mut before = if first == 0 { BTreeMap::new() } else { self.reach(first - 1)? };
        for v in first..=last {
            let r = self.reach(v)?;
            let spec = self.spec(v);
            want(&format!("node positions of version {v}"), r.keys().collect::<Vec<_>>(), spec.nodes.keys().collect::<Vec<_>>())?;
            let at = |id: &(usize, Vec<u8>)| format!("node {:x?} of version {}, seen from version {v}", id.1, id.0);
            for (p, w) in &r {
                let id = (*w, p.clone());
                let s = &spec.nodes[p];
                match &self.st[&id] {
                    Node::Null => want(&at(&id), s.cnt, 0)?,
                    Node::Leaf(l) => {
                        let (k, x) = leaf_bytes(l);
                        if s.key == 0 {
                            return mis(format!("{} is a leaf", at(&id)));
                        }
                        want(&at(&id), (k, x), (self.t.keys[s.key - 1].0, self.t.vh(self.cs[v][s.key - 1])))?;
                    }
                    Node::Internal(i) => {
                        if s.cnt < 2 {
                            return mis(format!("{} is an internal node for {} keys", at(&id), s.cnt));
                        }
                        let ch: Vec<(u8, bool, Option<usize>, [u8; 32])> =
                            i.children_sorted().map(|(n, c)| (u8::from(n), c.is_leaf(), c.leaf_count(), c.hash)).collect();
                        want(&at(&id), ch, s.ch.iter().map(|c| (c.nib, c.leaf, Some(c.cnt), c.hash)).collect())?;
                        want(&at(&id), i.leaf_count(), Some(s.cnt))?;
                        for (n, c) in i.children_sorted() {
                            if c.version as usize > *w {
                                return mis(format!("{}: child {} has the later version {}", at(&id), u8::from(n), c.version));
                            }
                        }
                    }
                }
                if *w > v {
                    return mis(format!("{} is from the future", at(&id)));
                }
            }
            for id in new.iter().filter(|x| x.0 == v) {
                if r.get(&id.1) != Some(&v) {
                    return mis(format!("{} is written and not reachable", at(id)));
                }
            }
            // what no write touched is shared
            if v > 0 {
                let set = &self.sets[v];
                let old = &self.cs[v - 1];
                let mut cur = old.clone();
                let (mut touched, mut deleted) = (BTreeSet::new(), BTreeSet::new());
                for (k, x) in set {
                    if *x != 0 || cur[k - 1] != 0 {
                        touched.insert(*k);
                        if *x == 0 {
                            deleted.insert(*k);
                        }
                    }
                    cur[k - 1] = *x;
                }
                for (p, w) in r.iter().filter(|(p, w)| **w == v && !p.is_empty()) {
                    let under = |q: &[u8], k: usize| self.t.nibs[k - 1].starts_with(q);
                    let same = (1..=old.len()).all(|k| !under(p, k) || (old[k - 1] == self.cs[v][k - 1] && !touched.contains(&k)));
                    let leaf = spec.nodes[p].key != 0;
                    if same && (!leaf || (before.contains_key(p) && !deleted.iter().any(|k| under(&p[..p.len() - 1], *k)))) {
                        return mis(format!("{} is rewritten although nothing below it was written", at(&(*w, p.clone()))));
                    }
                }
            }
            let st = stale.remove(&v).unwrap_or_default();
            for id in &st {
                if id.0 >= v || !self.st.contains_key(id) {
                    return mis(format!("{} is retired there and was not live before", at(id)));
                }
                if r.get(&id.1) == Some(&id.0) {
                    return mis(format!("{} is retired and still reachable", at(id)));
                }
            }
            for (p, w) in &before {
                if r.get(p) != Some(w) && !p.is_empty() && !st.contains(&(*w, p.clone())) {
                    return mis(format!("{} is superseded and not retired", at(&(*w, p.clone()))));
                }
            }
            let leaf = |id: &(usize, Vec<u8>)| matches!(self.st[id], Node::Leaf(_));
            let s = &b.node_stats[v - first];
            let mine: Vec<_> = new.iter().filter(|x| x.0 == v).collect();
            want(&format!("statistics of version {v}"), (s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves),
                 (mine.len(), mine.iter().filter(|x| leaf(x)).count(), st.len(), st.iter().filter(|x| leaf(x)).count()))?;
            before = r;
        }
        if let Some(v) = stale.keys().next() {
            return mis(format!("nodes are retired at version {v}, which the update does not write"));
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C06
    fn prune(&mut self, p: usize) -> Res {
        match call(|| self.store.purge_stale_nodes(p as u64)) {
            Out::Ok(_) => {}
            o => return mis(format!("pruning at version {p}: {}", o.word())),
        }
        self.pruned = self.pruned.max(p);
        let stored: BTreeMap<(usize, Vec<u8>), Node> = VersionedDatabase::nodes(&self.store)
            .map(|(nk, n)| { let (v, p) = node_key_path(&nk); ((v as usize, p), n) })
            .collect();
        let mut live = BTreeSet::new();
        let mut todo: Vec<(usize, Vec<u8>)> = (p..self.cs.len()).map(|v| (v, vec![])).collect();
        while let Some(id) = todo.pop() {
            if let Some(Node::Internal(i)) = stored.get(&id) {
                for (nib, c) in i.children_sorted() {
                    let mut q = id.1.clone();
                    q.push(u8::from(nib));
                    let x = (c.version as usize, q);
                    if !live.contains(&x) {
                        todo.push(x);
                    }
                }
            }
            live.insert(id);
        }
        for id in stored.keys() {
            if !id.1.is_empty() && !live.contains(id) {
                return mis(format!("after pruning at version {p} the superseded node {id:x?} is still there"));
            }
        }
        want("node count", self.store.num_nodes(), stored.len())?;
        for v in 0..self.cs.len() {
            self.everything(v)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C09
    fn exclusions(&self, v: usize, tamper: bool) -> Res {
        let (w, c) = (v as u64, self.content(v).to_vec());
        let root = RootHash(self.spec(v).root);
        let empty = c.iter().all(|x| *x == 0);
        let present: Vec<usize> = (0..c.len()).filter(|k| c[*k] != 0).collect();
        let mut asked: Vec<(KeyHash, Option<usize>)> = self.t.keys.iter().enumerate().map(|(i, k)| (*k, Some(i))).collect();
        for k in &self.t.keys {
            asked.extend([(shift(k, true), None), (shift(k, false), None)]);
        }
        for (key, id) in asked {
            let n = || match id {
                Some(k) => format!("exclusion proof of key{} at version {v}", k + 1),
                None => format!("exclusion proof of {key:?} at version {v}"),
            };
            enum R {
                Val(Vec<u8>, Proof),
                Excl(String),
            }
            let r = call(|| {
                self.tree.get_with_exclusion_proof(key, w).map(|x| match x {
                    Ok((val, p)) => R::Val(val, p),
                    Err(e) => R::Excl(format!("{e:?}")),
                })
            });
            match r {
                Out::Err if empty => {}
                o if empty => return mis(format!("{}, which is empty: {}", n(), o.word())),
                Out::Ok(R::Val(x, p)) => {
                    let k = match id {
                        Some(k) => k,
                        None => return mis(format!("{}: reported as present", n())),
                    };
                    want(&n(), Some(x), self.t.val(&c, k))?;
                    want(&n(), parts(&p), parts(&self.t.proof(&c, k)))?;
                }
                Out::Ok(R::Excl(t)) => {
                    if id.is_some_and(|k| c[k] != 0) {
                        return mis(format!("{}: reported as absent", n()));
                    }
                    let (l, r) = match (section(&t, "rightmost_left_proof", "leftmost_right_proof"), section(&t, "leftmost_right_proof", "rightmost_left_proof")) {
                        (Some(l), Some(r)) if l.is_some() || r.is_some() => (l, r),
                        _ => continue, // rendering not understood
                    };
                    let left = present.iter().rev().find(|k| self.t.keys[**k] < key);
                    let right = present.iter().find(|k| self.t.keys[**k] > key);
                    for (side, got, exp) in [("left", l, left), ("right", r, right)] {
                        let got = got.map(|x| parts(&mk_proof(Some((x.key, x.vh)), &x.sibs)));
                        want(&format!("{}, {side} neighbour", n()), got, exp.map(|k| parts(&self.t.proof(&c, *k))))?;
                    }
                }
                o => return mis(format!("{}: {}", n(), o.word())),
            }
        }
        // ICS23
        for k in 0..c.len() {
            let n = || format!("ICS23 proof of key{} at version {v}", k + 1);
            let pre = self.t.pre[k].clone();
            let (val, p) = match call(|| self.tree.get_with_ics23_proof(pre.clone(), w)) {
                Out::Ok(x) => x,
                Out::Err if empty => continue,
                o => return mis(format!("{}: {}", n(), o.word())),
            };
            if empty {
                return mis(format!("{}, which is empty: ok", n()));
            }
            want(&n(), val.clone(), self.t.val(&c, k))?;
            match (&p.proof, c[k] != 0) {
                (Some(Cp::Exist(e)), true) => want(&n(), (&e.key, &e.value), (&pre, &val.clone().unwrap()))?,
                (Some(Cp::Nonexist(e)), false) => {
                    let left = present.iter().rev().find(|x| **x < k).map(|x| self.t.pre[*x].clone());
                    let right = present.iter().find(|x| **x > k).map(|x| self.t.pre[*x].clone());
                    want(&n(), (e.key.clone(), e.left.as_ref().map(|x| x.key.clone()), e.right.as_ref().map(|x| x.key.clone())), (pre.clone(), left, right))?;
                }
                _ => return mis(format!("{}: wrong kind of proof", n())),
            }
            want(&format!("{}: verifier", n()), ics_accepts(&p, &root, &pre, val.as_deref()), "ok")?;
            if !tamper {
                continue;
            }
            // the same proof claimed for everything that is false
            for k2 in 0..c.len() {
                for claim in std::iter::once(None).chain(self.t.vals.iter().cloned().map(Some)) {
                    if claim == self.t.val(&c, k2) {
                        continue;
                    }
                    let mut q = p.clone();
                    match &mut q.proof {
                        Some(Cp::Exist(e)) => {
                            e.key = self.t.pre[k2].clone();
                            if let Some(x) = &claim {
                                e.value = x.clone();
                            }
                        }
                        Some(Cp::Nonexist(e)) => e.key = self.t.pre[k2].clone(),
                        _ => {}
                    }
                    for p in [&p, &q] {
                        if ics_accepts(p, &root, &self.t.pre[k2], claim.as_deref()) == "ok" {
                            return mis(format!("{}: accepted for a false claim about key{}", n(), k2 + 1));
                        }
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C12
    fn book(&self) -> Res {
        let mut hist: BTreeMap<usize, Vec<(u64, Option<Vec<u8>>)>> = BTreeMap::new();
        for (v, s) in self.sets.iter().enumerate() {
            let mut last = BTreeMap::new();
            for (k, x) in s {
                last.insert(*k, (*x != 0).then(|| self.t.vals[x - 1].clone()));
            }
            for (k, x) in last {
                hist.entry(k).or_default().push((v as u64, x));
            }
        }
        let alive = hist.values().filter(|h| h.last().unwrap().1.is_some()).count();
        want("length", self.tree.len(), alive)?;
        want("length of the store", VersionedDatabase::len(&self.store), alive)?;
        want("emptiness", self.tree.is_empty(), alive == 0)?;
        want("emptiness of the store", VersionedDatabase::is_empty(&self.store), alive == 0)?;
        if let Some(v) = hist.values().map(|h| h.last().unwrap().0).max() {
            want("version", self.tree.version(), v)?;
        }
        let got: BTreeMap<usize, Vec<(u64, Option<Vec<u8>>)>> = VersionedDatabase::value_history(&self.store)
            .map(|(k, h)| (self.t.id(&k), h.iter().map(|(v, x)| (v.0, x.clone())).collect()))
            .collect();
        want("value history", got, hist)?;
        let leaves: Vec<(KeyHash, NodeKey)> = VersionedDatabase::nodes(&self.store)
            .filter_map(|(nk, n)| if let Node::Leaf(l) = n { Some((l.key_hash(), nk)) } else { None })
            .collect();
        match call(|| self.store.get_rightmost_leaf()) {
            Out::Ok(None) => want("rightmost leaf", leaves.len(), 0),
            Out::Ok(Some((nk, l))) => {
                want("rightmost leaf", Some(l.key_hash()), leaves.iter().map(|x| x.0).max())?;
                want("rightmost leaf is a stored leaf", leaves.contains(&(l.key_hash(), nk)), true)
            }
            o => mis(format!("rightmost leaf: {}", o.word())),
        }
    }
}
/// the key just before or after
fn shift(k: &KeyHash, up: bool) -> KeyHash {
    let mut b = k.0;
    for i in (0..32).rev() {
        let (x, over) = if up { b[i].overflowing_add(1) } else { b[i].overflowing_sub(1) };
        b[i] = x;
        if !over {
            break;
        }
    }
    KeyHash(b)
}

/// 0: one call per version; 1: one call for all; 2: mixed; 3: batch interface where possible
fn build<'a>(t: &'a Table, focus: &'a str, versions: &[Set], mode: usize) -> Result<J<'a>, Mis> {
    let mut j = J::new(t, focus, mode == 2);
    let mut i = 0;
    while i < versions.len() && !j.skip {
        let n = match mode {
            1 => versions.len(),
            2 => [2, 1, 3][i % 3].min(versions.len() - i),
            3 => {
                let ins = |s: &Set| !s.is_empty() && s.iter().all(|x| x.1 != 0);
                let m = versions[i..].iter().take_while(|s| ins(s)).count();
                m.max(1)
            }
            _ => 1,
        };
        j.commit(&versions[i..i + n], mode)?;
        i += n;
    }
    Ok(j)
}

/// one behaviour in one mode; `op`: the write appended to the last version
fn one(focus: &str, t: &Table, versions: &[Set], ext: bool, mode: usize, n: &mut u64) -> Res {
    *n += 1;
    if focus == "C22" {
        let salt = versions.len() + versions.iter().flatten().map(|x| x.0 + x.1).sum::<usize>();
        return crate::serreplay::behaviour(t, versions, ext, mode, salt);
    }
    let mut j = build(t, focus, versions, mode)?;
    if j.skip || j.cs.is_empty() {
        return Ok(());
    }
    let last = j.cs.len() - 1;
    let from = if ext { last.saturating_sub(1) } else { 0 };
    match focus {
        "C01" => {
            for v in from..=last {
                j.reads(v)?;
                j.iter_all(v)?;
            }
            j.stranger(last)?;
            j.missing(last + 1)?;
            j.missing(last + 9)
        }
        "C02" => (from..=last).try_for_each(|v| j.root(v)),
        "C03" => (from..=last).try_for_each(|v| j.proofs(v, true)),
        "C07" => (from..=last).try_for_each(|v| j.count(v)),
        "C08" => (from..=last).try_for_each(|v| { j.iter_all(v)?; j.iter_starts(v) }),
        "C09" => j.exclusions(last, ext),
        "C12" => j.book(),
        "C05" => {
            // a set of writes not stored, then stored; iterators opened before
            let mut its = vec![];
            for v in 0..=last {
                if let Out::Ok(mut it) = call(|| j.tree.iter(v as u64)) {
                    let got = call(|| it.next().transpose()).word();
                    want("iteration of a committed version", got, "ok")?;
                    its.push((v, it));
                }
            }
            let c = j.cur();
            let k = 1 + (versions.len() + versions.iter().map(|s| s.len()).sum::<usize>()) % c.len();
            let later: [Vec<Set>; 3] = [
                vec![vec![(k, if c[k - 1] == 1 { 2.min(t.vals.len()) } else { 1 })]],
                vec![(1..=c.len()).map(|k| (k, 0)).collect()],
                vec![vec![(k, 0)], (1..=c.len()).map(|k| (k, 1)).collect(), vec![]],
            ];
            for s in &later {
                let _ = j.compute(s, mode)?;
                for v in from..=last {
                    j.everything(v)?;
                }
                j.missing(last + 1)?;
            }
            for s in &later {
                j.commit(s, mode)?;
                for v in from..=last {
                    j.everything(v)?;
                }
            }
            for (v, mut it) in its {
                let exp: Vec<_> = j.t.pairs(j.content(v)).into_iter().skip(1).collect();
                match call(|| j.rest(&mut it)) {
                    Out::Ok(x) => want(&format!("rest of an iterator of version {v} opened earlier"), x, exp)?,
                    o => return mis(format!("rest of an iterator of version {v} opened earlier: {}", o.word())),
                }
            }
            Ok(())
        }
        "C06" => {
            for p in 0..=last {
                let mut j = build(t, focus, versions, mode)?;
                j.prune(p)?;
                if !ext {
                    // pruned step by step, going on in between
                    let c = j.cur();
                    for k in 1..=c.len() {
                        let v = if c[k - 1] == 0 { 1 } else { 0 };
                        j.commit(&[vec![(k, v)]], mode)?;
                        if j.skip {
                            return Ok(());
                        }
                        let l = j.cs.len() - 1;
                        j.everything(l)?;
                        if k % 2 == 0 {
                            j.prune(l - 1)?;
                        }
                    }
                }
            }
            Ok(())
        }
        _ => mis(format!("no replay for {focus}")),
    }
}

pub fn fails(m: &Mutex<Option<Vec<String>>>, lines: Vec<String>) {
    let mut b = m.lock().unwrap();
    if b.is_none() {
        *b = Some(lines);
    }
}
pub fn show(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn legend(t: &Table) -> Vec<String> {
    vec![
        format!("# keys {}", t.keys.iter().map(|x| format!("0x{}", show(&x.0))).collect::<Vec<_>>().join(" ")),
        format!("# values {}", t.vals.iter().map(|x| format!("0x{}", show(x))).collect::<Vec<_>>().join(" ")),
    ]
}
/// -> exit status.  `modes`: 1 = one way of committing per behaviour, 4 = all of them
pub fn run(focus: &str, table_path: &str, hist: &str, stride: u64, offset: u64, threads: usize, modes: usize) -> i32 {
    let t = table(table_path);
    let bad: Mutex<Option<Vec<String>>> = Mutex::new(None);
    let (cases, next, replayed) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let hists: Vec<Vec<usize>> = std::fs::read_to_string(hist).expect("behaviours").lines()
        .map(|l| l.split_whitespace().map(|x| x.parse().expect("operation")).collect()).collect();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= hists.len() || bad.lock().unwrap().is_some() {
                    break;
                }
                if (i as u64 + offset) % stride != 0 {
                    continue;
                }
                replayed.fetch_add(1, Ordering::Relaxed);
                let mut vs: Vec<Set> = vec![vec![]];
                for o in &hists[i] {
                    match o {
                        0 => vs.push(vec![]),
                        o => vs.last_mut().unwrap().push((o / 100, o % 100)),
                    }
                }
                let mut n = 0;
                let ops: Vec<Option<(usize, usize)>> = std::iter::once(None)
                    .chain((1..=t.keys.len()).flat_map(|k| (0..=t.vals.len()).map(move |v| Some((k, v)))))
                    .collect();
                'out: for (a, op) in ops.into_iter().enumerate() {
                    let mut w = vs.clone();
                    if let Some(o) = op {
                        w.last_mut().unwrap().push(o);
                    }
                    for m in 0..modes {
                        let mode = if modes == 1 { (i / stride as usize + a) % 4 } else { m };
                        if let Err(Mis(m)) = one(focus, &t, &w, op.is_some(), mode, &mut n) {
                            let mut lines = vec!["# behaviour of spec/JmtMC.tla replayed into the real tree".to_string()];
                            lines.push(format!("# {}", ["one put_value_set per version", "one put_value_sets for all versions",
                                "put_value_sets for groups of versions", "batch_put_value_sets where nothing is deleted"][mode]));
                            lines.extend(legend(&t));
                            for (v, s) in w.iter().enumerate() {
                                let ops: Vec<String> = s.iter().map(|(k, x)| match x {
                                    0 => format!("delete key{k}"),
                                    x => format!("key{k} := value{x}"),
                                }).collect();
                                lines.push(format!("version {v}: {}", ops.join(", ")));
                            }
                            lines.push(format!("=> {m}"));
                            fails(&bad, lines);
                            break 'out;
                        }
                    }
                }
                cases.fetch_add(n, Ordering::Relaxed);
            });
        }
    });
    if let Some(lines) = bad.into_inner().unwrap() {
        println!("{}", lines.join("\n"));
        return 3;
    }
    println!("{}", json!({"behaviours_replayed": replayed.into_inner(), "cases": cases.into_inner()}));
    0
}

// ---------------------------------------------------------------------- C04
/// All pairs of sibling hashes of a content's tree, and all hashes in it.
fn hashes(t: &Table, c: &[usize]) -> (BTreeSet<[u8; 32]>, BTreeSet<([u8; 32], [u8; 32])>) {
    let s = &t.all[c];
    let (mut all, mut pairs) = (BTreeSet::from([s.root]), BTreeSet::new());
    for k in 0..t.keys.len() {
        let mut h = match s.leaf[k] {
            None => PLACEHOLDER,
            Some((l, v)) => h_leaf(&t.keys[l - 1].0, &t.vh(v)),
        };
        all.insert(h);
        let n = s.sibs[k].len();
        for (i, x) in s.sibs[k].iter().enumerate() {
            all.insert(*x);
            let d = n - 1 - i; // bit position
            let bit = t.nibs[k][d / 4] >> (3 - d % 4) & 1;
            let p = if bit == 1 { (*x, h) } else { (h, *x) };
            pairs.insert(p);
            h = h_node(&p.0, &p.1);
            all.insert(h);
        }
    }
    (all, pairs)
}
/// The siblings of a proof on the given side of its leaf's path; `how` 0: as they are, else some misplaced.
fn side(p: &jmt::proof::SparseMerkleProof<jmt::Sha256>, how: u64, left: bool) -> Vec<[u8; 32]> {
    let (key, n) = (p.leaf().map(|l| leaf_bytes(&l).0).unwrap_or([0; 32]), p.siblings().len());
    p.siblings().iter().enumerate().filter(|(i, _)| {
        let d = n - 1 - i;
        let bit = d < 256 && key[d / 8] >> (7 - d % 8) & 1 == 1;
        left == match how {
            1 => true,
            2 if *i == 0 => !bit,
            _ => bit,
        }
    }).map(|x| *x.1).collect()
}
/// The same claim of presence put as a range proof: the siblings on the right, to go with those on the left.
pub fn as_range(p: &jmt::proof::SparseMerkleProof<jmt::Sha256>, how: u64) -> jmt::proof::SparseMerkleRangeProof {
    crate::jmtmore::range_proof(&side(p, how, false))
}
pub fn lefts(p: &jmt::proof::SparseMerkleProof<jmt::Sha256>, how: u64) -> Vec<[u8; 32]> {
    side(p, how, true)
}
/// Every sibling list one step away from a canonical proof, with every leaf, for every claim.
fn attack(t: &Table, c: &[usize], c2: &[usize], stride: usize, n: &mut u64, put_to: &mut u64) -> Res {
    let (mut pool, pairs) = hashes(t, c);
    let (others, pairs2) = hashes(t, c2);
    pool.insert(PLACEHOLDER);
    pool.extend(others.into_iter().take(6));
    pool.insert(sha(b"unknown"));
    let pool: Vec<[u8; 32]> = pool.into_iter().collect();
    let roots = [(c, RootHash(t.all[c].root)), (c2, RootHash(t.all[c2].root))];
    let mut leaves: Vec<Option<([u8; 32], [u8; 32])>> = vec![None];
    for k in &t.keys {
        for v in 1..=t.vals.len() {
            leaves.push(Some((k.0, t.vh(v))));
        }
        leaves.push(Some((k.0, sha(b"unknown"))));
    }
    for p in pairs.iter().chain(pairs2.iter().take(3)) {
        leaves.push(Some(*p));
        leaves.push(Some((p.1, p.0)));
    }
    let claims: Vec<(KeyHash, Option<usize>)> = t.keys.iter().enumerate().map(|(i, k)| (*k, Some(i)))
        .chain(t.keys.iter().map(|k| (shift(k, true), None))).collect();
    let mut put = |sibs: &[[u8; 32]]| -> Res {
        for l in &leaves {
            let p = mk_proof(*l, sibs);
            for (key, id) in &claims {
                for v in 0..=t.vals.len() {
                    let val = (v != 0).then(|| t.vals[v - 1].clone());
                    if l.is_none() && v > 1 {
                        continue;
                    }
                    for (con, root) in &roots {
                        let truth = id.map(|k| con[k] == v).unwrap_or(v == 0);
                        let honest = id.is_some_and(|k| {
                            let s = &t.all[*con];
                            truth && s.sibs[k] == sibs && s.leaf[k].map(|(k, v)| (t.keys[k - 1].0, t.vh(v))) == *l
                        });
                        *n += 1;
                        // true claims, and claims at odds with the leaf offered, are only put now and then
                        let odd = v != 0 && *l != Some((key.0, t.vh(v)));
                        if (odd || truth && !honest) && (*n).wrapping_mul(0x9E3779B97F4A7C15)  >> 62 != 0 {
                            continue;
                        }
                        *put_to += 1;
                        let r = match (&val, *n % 2 == 0) {
                            (Some(x), true) => call(|| p.verify_existence(*root, *key, x)),
                            (None, true) => call(|| p.verify_nonexistence(*root, *key)),
                            _ => call(|| p.verify(*root, *key, val.clone())),
                        };
                        let what = || format!("contents {con:?}, claim {} = value {v} (0: absent), proof {:?}",
                            id.map(|k| format!("key{}", k + 1)).unwrap_or(format!("{key:?}")), parts(&p));
                        let r2 = match (&val, v != 0 && *l == Some((key.0, t.vh(v)))) {
                            (Some(_), true) => call(|| as_range(&p, *n % 3).verify(*root, p.leaf().unwrap(), lefts(&p, *n % 3))),
                            _ => Out::Err,
                        };
                        match r2 {
                            Out::Ok(()) if !truth => return mis(format!("{}: accepted as a range proof", what())),
                            Out::Err if honest && v != 0 && *n % 3 == 0 => return mis(format!("{}: refused as a range proof", what())),
                            Out::Panic => return mis(format!("{}: verification as a range proof crashes", what())),
                            _ => {}
                        }
                        match r {
                            Out::Ok(()) if !truth => return mis(format!("{}: accepted", what())),
                            Out::Err if honest => return mis(format!("{}: the canonical proof is refused", what())),
                            Out::Panic => return mis(format!("{}: verification crashes", what())),
                            _ => {}
                        }
                    }
                }
            }
        }
        Ok(())
    };
    for k in 0..t.keys.len() {
        let s = &t.all[c].sibs[k];
        put(s)?;
        let mut e = 0;
        let mut turn = || { e += 1; e % stride == 0 };
        for i in 0..s.len() {
            if turn() { put(&s[i + 1..])? }
            if turn() { put(&s[..i])? }
            let mut x = s.clone();
            x.remove(i);
            if turn() { put(&x)? }
            for h in &pool {
                let mut x = s.clone();
                x[i] = *h;
                if turn() { put(&x)? }
            }
            for j in 0..i {
                let mut x = s.clone();
                x.swap(i, j);
                if turn() { put(&x)? }
            }
        }
        for i in 0..=s.len() {
            for h in &pool {
                let mut x = s.clone();
                x.insert(i, *h);
                if turn() { put(&x)? }
            }
        }
        for m in [255, 256, 257, 300] {
            let mut x = s.clone();
            x.resize(m, PLACEHOLDER);
            put(&x)?;
            x.rotate_right(m - s.len());
            put(&x)?;
        }
    }
    for l in 0..=3 {
        for h in &pool {
            put(&vec![*h; l])?;
        }
    }
    Ok(())
}
pub fn run_attack(table_path: &str, stride: u64, inner: u64, offset: u64, threads: usize) -> i32 {
    let t = table(table_path);
    let bad: Mutex<Option<Vec<String>>> = Mutex::new(None);
    let (cases, next, done) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let mut all: Vec<&Vec<usize>> = t.all.keys().collect();
    all.sort();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i as usize >= all.len() || bad.lock().unwrap().is_some() {
                    break;
                }
                if (i + offset) % stride != 0 {
                    continue;
                }
                let c = all[i as usize];
                // another content that differs in one key
                let mut c2 = c.clone();
                let k = (i + offset) as usize / stride as usize % c2.len();
                c2[k] = (c2[k] + 1) % (t.vals.len() + 1);
                let (mut n, mut m) = (i, 0);
                if let Err(Mis(m)) = attack(&t, c, &c2, inner as usize, &mut n, &mut m) {
                    let mut lines = vec!["# tampered proofs against the contents of spec/JmtTable.tla".to_string()];
                    lines.extend(legend(&t));
                    lines.push(format!("=> {m}"));
                    fails(&bad, lines);
                }
                done.fetch_add(1, Ordering::Relaxed);
                cases.fetch_add(m, Ordering::Relaxed);
            });
        }
    });
    if let Some(lines) = bad.into_inner().unwrap() {
        println!("{}", lines.join("\n"));
        return 3;
    }
    println!("{}", json!({"contents": done.into_inner(), "cases": cases.into_inner()}));
    0
}
