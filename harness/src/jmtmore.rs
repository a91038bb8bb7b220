//! Exclusion/ICS23 proofs (C09) and chunked restore (C10, C11).
use crate::jmtdrv::*;
use crate::util::*;
use borsh::{BorshDeserialize, BorshSerialize};
use ics23::commitment_proof::Proof as Cp;
use ics23::{CommitmentProof, ExistenceProof, NonExistenceProof};
use jmt::mock::MockTreeStore;
use jmt::proof::SparseMerkleRangeProof;
use jmt::reader::Preimage;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{LeafNode, Node, NodeBatch, NodeKey, TreeReader, TreeWriter};
use jmt::trie::VersionedTrie;
use jmt::{KeyHash, RootHash, Sha256};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};

// ------------------------------------------------------------------------------------- C09
/// Preimages sorted by their hash, so that neighbours share long prefixes.
fn pool() -> &'static Vec<([u8; 32], Vec<u8>)> {
    static P: OnceLock<Vec<([u8; 32], Vec<u8>)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<([u8; 32], Vec<u8>)> = (0..60_000u32)
            .map(|i| {
                let p = format!("k{}{}", i, if i % 7 == 0 { "/a/long/path/to/some/thing".repeat(3) } else { String::new() }).into_bytes();
                (sha(&p), p)
            })
            .collect();
        v.sort();
        v
    })
}
fn ics_session(rng: &mut Rng) -> Sess {
    let p = pool();
    let crowd = SCALE.with(|c| c.get()) == Scale::Crowd;
    let n = if crowd { rng.range(258, 275) } else { rng.range(2, 11) };
    let mut idx: Vec<usize> = vec![];
    if crowd {
        // next to each other: all below one node
        let a = rng.below(p.len() - n);
        idx.extend(a..a + n - 8);
    }
    while idx.len() < n {
        let i = if idx.is_empty() || rng.chance(1, 4) {
            match rng.below(6) {
                0 => 0,
                1 => p.len() - 1,
                _ => rng.below(p.len()),
            }
        } else {
            let o = *rng.pick(&idx) as i64;
            let span = [1i64, 2, 4, 16, 256, 4000][rng.below(6)];
            let d = rng.range(1, span as usize) as i64 * if rng.chance(1, 2) { 1 } else { -1 };
            (o + d).rem_euclid(p.len() as i64) as usize
        };
        if !idx.contains(&i) {
            idx.push(i);
        }
    }
    // now and then the pair of the pool with the longest common prefix
    if rng.chance(1, 4) {
        static B: OnceLock<usize> = OnceLock::new();
        let b = *B.get_or_init(|| (0..p.len() - 1).max_by_key(|i| common(&nibbles(&p[*i].0), &nibbles(&p[*i + 1].0))).unwrap());
        for i in [b, b + 1] {
            if !idx.contains(&i) {
                idx.push(i);
            }
        }
    }
    idx.sort();
    let mut u = Universe::new(idx.iter().map(|i| p[*i].0).collect());
    u.pre = idx.iter().map(|i| p[*i].1.clone()).collect();
    let mut r2 = rng.clone();
    rng.next();
    let nn = u.n();
    let mut ids: Vec<usize> = (1..=nn).collect();
    r2.shuffle(&mut ids);
    ids.truncate((nn - nn / 4).max(1));
    let mut s = Sess::new(r2, u, 0, 0, false);
    s.noempty = true;
    s.puts = ids;
    for p in &s.u.pre {
        s.store.put_key_preimage::<Sha256>(&Preimage(p.clone()));
    }
    s
}

pub fn c09(rng: &mut Rng) -> Vec<Value> {
    let deep = rng.chance(1, 3);
    let mut s = if deep { crate::jmttrace::start(rng, None) } else { ics_session(rng) };
    let nv = if s.scale == Scale::Long { s.rng.range(257, 270) } else { s.rng.range(2, 6) } as i64;
    while s.latest < s.first + nv - 1 && !s.dead {
        let before = s.latest;
        if s.step().is_none() {
            break;
        }
        if s.scale == Scale::Long && s.latest < s.first + nv - 4 && s.rng.chance(29, 30) {
            continue;
        }
        for v in before + 1..=s.latest {
            for k in s.some_keys() {
                ev_excl(&mut s, v, k);
                if !deep {
                    ev_ics(&mut s, v, k);
                }
            }
        }
        let v = s.rng.range(s.first as usize, s.latest as usize) as i64;
        let k = s.rng.range(1, s.u.n());
        ev_excl(&mut s, v, k);
    }
    s.ev
}

pub struct Neighbour {
    pub key: [u8; 32],
    pub vh: [u8; 32],
    pub sibs: Vec<[u8; 32]>,
}
/// Reads a proof out of its debug rendering (the type of exclusion proofs cannot be named from outside).
fn parse_proof(t: &str) -> Option<Neighbour> {
    let hex = |name: &str| -> Option<[u8; 32]> {
        let a = t.find(&format!("{name}(\""))? + name.len() + 2;
        let h = t.get(a..a + 64)?;
        let mut o = [0u8; 32];
        for i in 0..32 {
            o[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()?;
        }
        Some(o)
    };
    let a = t.find("siblings: [")? + "siblings: [".len();
    let mut sibs = vec![];
    let mut rest = &t[a..];
    while rest.starts_with('[') {
        let e = rest.find(']')?;
        let nums: Option<Vec<u8>> = rest[1..e].split(',').map(|x| x.trim().parse().ok()).collect();
        sibs.push(nums?.try_into().ok()?);
        rest = rest[e + 1..].trim_start_matches([',', ' ']);
    }
    Some(Neighbour { key: hex("KeyHash")?, vh: hex("ValueHash")?, sibs })
}
pub fn section(t: &str, name: &str, other: &str) -> Option<Option<Neighbour>> {
    match t.find(&format!("{name}:")) {
        None => Some(None),
        Some(a) => {
            let b = t.find(&format!("{other}:")).filter(|b| *b > a).unwrap_or(t.len());
            parse_proof(&t[a..b]).map(Some)
        }
    }
}

pub fn ev_excl(s: &mut Sess, v: i64, k: usize) {
    let (t, w, key) = (s.tree.clone(), s.ver(v), s.u.key(k));
    // what was got, as text for exclusions
    enum R {
        Val(Vec<u8>, Proof),
        Excl(String),
    }
    let r = call(|| {
        t.get_with_exclusion_proof(key, w).map(|x| match x {
            Ok((val, p)) => R::Val(val, p),
            Err(e) => R::Excl(format!("{e:?}")),
        })
    });
    let root = s.roots[&v];
    let none = json!([]);
    match r {
        Out::Ok(R::Val(val, p)) => {
            let ver = call(|| p.verify_existence(root, key, &val)).word();
            let val = s.vid(&Some(val));
            s.emit(json!({"e":"excl","v":v,"k":k,"res":"val","val":val,"ver":[ver],"left":none,"right":none}));
        }
        Out::Ok(R::Excl(t)) => {
            let l = section(&t, "rightmost_left_proof", "leftmost_right_proof");
            let r = section(&t, "leftmost_right_proof", "rightmost_left_proof");
            match (l, r) {
                (Some(l), Some(r)) if l.is_some() || r.is_some() => {
                    let mut ver = vec![];
                    let mut show = |n: &Option<Neighbour>| match n {
                        None => json!([]),
                        Some(n) => {
                            let vid = s.vh_id.get(&n.vh).copied().unwrap_or(UNKNOWN);
                            let p = mk_proof(Some((n.key, n.vh)), &n.sibs);
                            ver.push(if vid == UNKNOWN {
                                "unknown value"
                            } else {
                                call(|| p.verify_existence(root, KeyHash(n.key), s.val(vid))).word()
                            });
                            json!([s.u.id(&KeyHash(n.key)), vid])
                        }
                    };
                    let (lj, rj) = (show(&l), show(&r));
                    s.emit(json!({"e":"excl","v":v,"k":k,"res":"excl","val":-1,"ver":ver,"left":lj,"right":rj}));
                }
                _ => s.emit(json!({"e":"excl","v":v,"k":k,"res":"skip","val":-1,"ver":[],"left":none,"right":none})),
            }
        }
        o => {
            let w = o.word();
            s.emit(json!({"e":"excl","v":v,"k":k,"res":w,"val":-1,"ver":[],"left":none,"right":none}));
        }
    }
}

type Hm = ics23::HostFunctionsManager;
pub fn ics_accepts(p: &CommitmentProof, root: &RootHash, key: &[u8], val: Option<&[u8]>) -> &'static str {
    let spec = jmt::ics23_spec();
    let r = root.0.to_vec();
    match call(|| {
        Ok::<bool, ()>(match val {
            Some(x) => ics23::verify_membership::<Hm>(p, &spec, &r, key, x),
            None => ics23::verify_non_membership::<Hm>(p, &spec, &r, key),
        })
    }) {
        Out::Ok(true) => "ok",
        Out::Ok(false) => "no",
        o => o.word(),
    }
}
fn ics_get(s: &Sess, v: i64, k: usize) -> Out<(Option<Vec<u8>>, CommitmentProof)> {
    let (t, w, p) = (s.tree.clone(), s.ver(v), s.u.pre[k - 1].clone());
    call(|| t.get_with_ics23_proof(p, w))
}
fn exist_of(p: &CommitmentProof) -> Vec<ExistenceProof> {
    match &p.proof {
        Some(Cp::Exist(e)) => vec![e.clone()],
        Some(Cp::Nonexist(n)) => n.left.iter().chain(n.right.iter()).cloned().collect(),
        _ => vec![],
    }
}
pub fn ev_ics(s: &mut Sess, v: i64, k: usize) {
    let key = s.u.pre[k - 1].clone();
    let root = s.roots[&v];
    let none = json!([]);
    let (val, p) = match ics_get(s, v, k) {
        Out::Ok(x) => x,
        o => {
            let w = o.word();
            s.emit(json!({"e":"ics","v":v,"k":k,"res":w,"kind":"none","val":-1,"left":none,"right":none,"ver":"none"}));
            return;
        }
    };
    let show = |s: &Sess, e: &Option<ExistenceProof>| match e {
        None => json!([]),
        Some(e) => json!([s.u.id(&KeyHash(sha(&e.key))), s.vid(&Some(e.value.clone()))]),
    };
    let (kind, l, r, named) = match &p.proof {
        Some(Cp::Exist(e)) => ("exist", none.clone(), none.clone(), e.key == key && Some(&e.value) == val.as_ref()),
        Some(Cp::Nonexist(n)) => ("nonexist", show(s, &n.left), show(s, &n.right), n.key == key),
        _ => ("other", none.clone(), none.clone(), false),
    };
    let ver = if named { ics_accepts(&p, &root, &key, val.as_deref()) } else { "other key" };
    let vid = s.vid(&val);
    s.emit(json!({"e":"ics","v":v,"k":k,"res":"ok","kind":kind,"val":vid,"left":l,"right":r,"ver":ver}));
    if s.rng.chance(2, 3) {
        return;
    }
    // the same parts, rearranged, against claims that may be false
    let ok = s.rng.range(1, s.u.n());
    let ov = s.rng.range(s.first as usize, s.latest as usize) as i64;
    let mut parts = exist_of(&p);
    for (v2, k2) in [(v, ok), (ov, ok), (v, s.rng.range(1, s.u.n()))] {
        if let Out::Ok((_, q)) = ics_get(s, v2, k2) {
            parts.extend(exist_of(&q));
        }
    }
    if parts.is_empty() {
        return;
    }
    for _ in 0..8 {
        let ck = s.rng.range(1, s.u.n());
        let cp = s.u.pre[ck - 1].clone();
        let mut tweak = |s: &mut Sess, e: &ExistenceProof| -> ExistenceProof {
            let mut e = e.clone();
            match s.rng.below(12) {
                0 if !e.path.is_empty() => {
                    let i = s.rng.below(e.path.len());
                    e.path.remove(i);
                }
                1 if !e.path.is_empty() => {
                    let i = s.rng.below(e.path.len());
                    let o = &mut e.path[i];
                    std::mem::swap(&mut o.prefix, &mut o.suffix);
                }
                2 if !e.path.is_empty() => {
                    let i = s.rng.below(e.path.len());
                    let o = &mut e.path[i];
                    let n = o.prefix.len().min(16);
                    let tail = o.prefix.split_off(n);
                    o.suffix.extend(tail);
                }
                3 => e.key = cp.clone(),
                4 => {
                    let i = s.rng.below(s.vals.len());
                    e.value = s.vals[i].clone();
                }
                5 => {
                    if let Some(l) = &mut e.leaf {
                        l.prefix = vec![];
                    }
                }
                _ => {}
            }
            e
        };
        let a = parts[s.rng.below(parts.len())].clone();
        let b = parts[s.rng.below(parts.len())].clone();
        let (a, b) = (tweak(s, &a), tweak(s, &b));
        let which = s.rng.below(5);
        let (proof, claim): (Cp, Option<Vec<u8>>) = match which {
            0 => {
                let v = if s.rng.chance(1, 2) { a.value.clone() } else { s.vals[s.rng.below(s.vals.len())].clone() };
                (Cp::Exist(ExistenceProof { key: cp.clone(), value: v.clone(), ..a }), Some(v))
            }
            1 => (Cp::Nonexist(NonExistenceProof { key: cp.clone(), left: Some(a), right: None }), None),
            2 => (Cp::Nonexist(NonExistenceProof { key: cp.clone(), left: None, right: Some(b) }), None),
            3 => {
                let (x, y) = if sha(&a.key) <= sha(&b.key) { (a, b) } else { (b, a) };
                (Cp::Nonexist(NonExistenceProof { key: cp.clone(), left: Some(x), right: Some(y) }), None)
            }
            _ => (Cp::Nonexist(NonExistenceProof { key: cp.clone(), left: Some(a), right: Some(b) }), None),
        };
        let rv = if s.rng.chance(1, 5) { ov } else { v };
        let cid = match &claim {
            None => NONE,
            Some(_) => s.vid(&claim),
        };
        let res = ics_accepts(&CommitmentProof { proof: Some(proof) }, &s.roots[&rv], &cp, claim.as_deref());
        let res = if res == "no" { "err" } else { res };
        s.emit(json!({"e":"claim","v":rv,"k":ck,"val":cid,"res":res,"honest":0,"how":["ics", which]}));
    }
}

// ------------------------------------------------------------------------------------- restore
/// A store that can be told to refuse the next write, as a crash before or a failure of the write would.
#[derive(Clone, Default)]
pub struct RStore {
    pub inner: MockTreeStore,
    pub refuse: Arc<AtomicBool>,
    pub refused: Arc<AtomicBool>,
}
impl TreeReader for RStore {
    type Version = jmt::db::Version;
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        self.inner.get_node_option(k)
    }
    fn get_value_option(&self, v: Self::Version, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        self.inner.get_value_option(v, k)
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.inner.get_rightmost_leaf()
    }
}
impl TreeWriter for RStore {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        if self.refuse.swap(false, Ordering::SeqCst) {
            self.refused.store(true, Ordering::SeqCst);
            anyhow::bail!("store is down");
        }
        self.inner.write_node_batch(b)
    }
}

pub type Restore = JellyfishMerkleRestore<Sha256>;
struct Rs {
    store: RStore,
    v: i64,
    obj: Option<Restore>,
}
pub fn range_proof(sibs: &[[u8; 32]]) -> SparseMerkleRangeProof {
    let mut b = (sibs.len() as u32).to_le_bytes().to_vec();
    for s in sibs {
        b.extend(s);
    }
    SparseMerkleRangeProof::try_from_slice(&b).expect("range proof encoding")
}
/// Everything the store holds, in a comparable form.
pub fn digest(st: &MockTreeStore) -> Vec<u8> {
    use jmt::db::VersionedDatabase;
    let mut n: Vec<(Vec<u8>, Vec<u8>)> =
        VersionedDatabase::nodes(st).map(|(k, n)| (k.try_to_vec().unwrap(), n.try_to_vec().unwrap())).collect();
    n.sort();
    let mut h: Vec<(Vec<u8>, Vec<(u64, Option<Vec<u8>>)>)> = VersionedDatabase::value_history(st)
        .map(|(k, h)| (k.0.to_vec(), h.into_iter().map(|(v, x)| (v.0, x)).collect()))
        .collect();
    h.sort();
    format!("{n:?}{h:?}").into_bytes()
}
/// version and path of every node
pub fn node_keys(st: &MockTreeStore) -> Vec<(u64, Vec<u8>)> {
    jmt::db::VersionedDatabase::nodes(st).map(|(k, _)| node_key_path(&k)).collect()
}
fn rightmost(s: &Sess, st: &RStore) -> i64 {
    match call(|| st.get_rightmost_leaf()) {
        Out::Ok(Some((_, l))) => s.u.id(&l.key_hash()),
        Out::Ok(None) => 0,
        o => o.code(),
    }
}
fn has_root(s: &Sess, st: &RStore, v: i64) -> i64 {
    // the root of a tree sits at the empty path
    use jmt::db::VersionedDatabase;
    VersionedDatabase::nodes(&st.inner).any(|(k, _)| node_key_path(&k) == (s.ver(v), vec![])) as i64
}
fn open(s: &mut Sess, r: &mut Rs, over: bool) -> bool {
    let (st, w, root) = (Arc::new(r.store.clone()), s.ver(r.v), s.roots[&r.v]);
    let o = if over { call(|| Restore::new_overwrite(st, w, root, true)) } else { call(|| Restore::new(st, w, root, true)) };
    let res = o.word();
    r.obj = match o {
        Out::Ok(x) => Some(x),
        _ => None,
    };
    let (right, hr) = (rightmost(s, &r.store), has_root(s, &r.store, r.v));
    s.emit(json!({"e":"ropen","v":r.v,"over":over as i64,"res":res,"right":right,"root":hr}));
    r.obj.is_some()
}
/// Feed a chunk of (key id, value id); `sibs` are the right siblings, `good` whether they are the honest ones for
/// the last key. Returns the outcome.
fn feed(s: &mut Sess, r: &mut Rs, items: &[(usize, i64)], sibs: &[[u8; 32]], good: bool, crash: bool) -> &'static str {
    let chunk: Vec<(KeyHash, Vec<u8>)> = items.iter().map(|(k, v)| (s.u.key(*k), s.val(*v))).collect();
    let before = digest(&r.store.inner);
    r.store.refuse.store(crash, Ordering::SeqCst);
    r.store.refused.store(false, Ordering::SeqCst);
    let p = range_proof(sibs);
    let mut obj = r.obj.take().unwrap();
    let o = call(|| obj.add_chunk(chunk, p));
    let res = o.word();
    r.store.refuse.store(false, Ordering::SeqCst);
    let refused = r.store.refused.load(Ordering::SeqCst);
    let same = digest(&r.store.inner) == before;
    if res != "panic" {
        r.obj = Some(obj);
    }
    let (right, hr) = (rightmost(s, &r.store), has_root(s, &r.store, r.v));
    s.emit(json!({"e":"rchunk","v":r.v,"items":items,"good":good as i64,"res":res,"refused":refused as i64,"same":same as i64,"right":right,"root":hr}));
    res
}
fn finish(s: &mut Sess, r: &mut Rs, crash: bool) -> &'static str {
    let before = digest(&r.store.inner);
    r.store.refuse.store(crash, Ordering::SeqCst);
    r.store.refused.store(false, Ordering::SeqCst);
    let obj = r.obj.take().unwrap();
    let boxed = s.rng.chance(1, 3);
    let o = if boxed { call(|| Box::new(obj).finish_box()) } else { call(|| obj.finish()) };
    let res = o.word();
    r.store.refuse.store(false, Ordering::SeqCst);
    let refused = r.store.refused.load(Ordering::SeqCst);
    let same = digest(&r.store.inner) == before;
    let hr = has_root(s, &r.store, r.v);
    s.emit(json!({"e":"rfinish","v":r.v,"res":res,"refused":refused as i64,"same":same as i64,"root":hr}));
    res
}
fn honest(s: &Sess, v: i64, k: usize) -> Option<Vec<[u8; 32]>> {
    let (t, w, key) = (s.tree.clone(), s.ver(v), s.u.key(k));
    match call(|| t.get_range_proof(key, w)) {
        Out::Ok(p) => Some(p.right_siblings().to_vec()),
        _ => None,
    }
}
/// Look at the restored store through the tree: everything must be as in the source.
fn inspect(s: &mut Sess, r: &Rs) {
    let (st, tr) = (s.store.clone(), s.tree.clone());
    s.store = r.store.inner.clone();
    s.tree = Arc::new(Tree::new(Arc::new(r.store.inner.clone())));
    s.ev_root(r.v);
    s.ev_count(r.v);
    for k in s.some_keys() {
        s.ev_read(r.v, k);
        s.ev_proof(r.v, k);
    }
    s.ev_iter(r.v, "trie", 0);
    s.store = st;
    s.tree = tr;
}

pub fn restore(focus: &str, rng: &mut Rng) -> Vec<Value> {
    let mut s = crate::jmttrace::start(rng, None);
    let nv = if s.scale == Scale::Long { s.rng.range(257, 270) } else { s.rng.range(1, 4) } as i64;
    while s.latest < s.first + nv - 1 && !s.dead {
        if s.step().is_none() {
            return s.ev;
        }
    }
    let mut vs: Vec<i64> = (s.first..=s.latest).filter(|v| !s.content_at(*v).is_empty()).collect();
    if vs.is_empty() {
        return s.ev;
    }
    let v = vs.swap_remove(s.rng.below(vs.len()));
    s.ev_root(v);
    let runs = s.rng.range(1, 3);
    for _ in 0..runs {
        let c: Vec<(usize, i64)> = s.content_at(v).into_iter().collect();
        let allow = s.rng.chance(1, 3);
        let mut r = Rs { store: RStore { inner: MockTreeStore::new(allow), ..Default::default() }, v, obj: None };
        if !open(&mut s, &mut r, false) {
            continue;
        }
        let mut at = 0; // items received so far
        let mut faults = s.rng.range(0, 4);
        let mut bads = if focus == "C11" { s.rng.range(1, 5) } else { 0 };
        let mut steps = 0;
        let mut done = false;
        while !done && steps < 40 {
            steps += 1;
            if r.obj.is_none() {
                // the process restarts on what survived
                let over = allow && s.rng.chance(1, 6);
                if !open(&mut s, &mut r, over) {
                    break;
                }
                let right = rightmost(&s, &r.store);
                at = if over { 0 } else { c.iter().take_while(|(k, _)| (*k as i64) <= right).count() };
                continue;
            }
            if bads > 0 && s.rng.chance(1, 2) {
                bads -= 1;
                let res = bad(&mut s, &mut r, &c, at);
                if res == "panic" {
                    return s.ev;
                }
                // usually drop the object after a rejection
                if res != "ok" && (s.scale == Scale::Crowd || s.rng.chance(2, 3)) {
                    r.obj = None;
                } else if res == "ok" {
                    break;
                } else {
                    // carry on with the same object: what it may accept now is up to it
                    match s.rng.below(3) {
                        0 => done = finish(&mut s, &mut r, false) == "ok",
                        _ => {
                            let n = s.rng.range(0, c.len() - at);
                            let items = c[at..at + n].to_vec();
                            if let Some((k, _)) = items.last() {
                                if let Some(p) = honest(&s, v, *k) {
                                    feed(&mut s, &mut r, &items, &p, true, false);
                                }
                            }
                        }
                    }
                    r.obj = None;
                    // the store may have moved on
                }
                continue;
            }
            if faults > 0 && s.rng.chance(1, 4) {
                // the process stops between chunks
                faults -= 1;
                r.obj = None;
                continue;
            }
            if at == c.len() {
                if focus == "C11" && s.rng.chance(1, 6) {
                    // one key too many
                    let x = extra_after(&mut s, &c);
                    if let Some(x) = x {
                        let p = honest(&s, v, c.last().unwrap().0).unwrap_or_default();
                        feed(&mut s, &mut r, &[x], &p, false, false);
                        r.obj = None;
                        continue;
                    }
                }
                let crash = faults > 0 && s.rng.chance(1, 3);
                let res = finish(&mut s, &mut r, crash);
                if crash {
                    faults -= 1;
                }
                if res == "ok" {
                    done = true;
                }
                continue;
            }
            let n = match s.rng.below(3) {
                0 => 1,
                1 => s.rng.range(1, (c.len() - at).min(3)),
                _ => s.rng.range(1, c.len() - at),
            };
            let items = c[at..at + n].to_vec();
            let p = match honest(&s, v, items.last().unwrap().0) {
                Some(p) => p,
                None => {
                    s.emit(json!({"e":"rchunk","v":v,"items":items,"good":1,"res":"noproof","refused":0,"same":1,"right":0,"root":0}));
                    return s.ev;
                }
            };
            let crash = faults > 0 && s.rng.chance(1, 5);
            let res = feed(&mut s, &mut r, &items, &p, true, crash);
            if crash {
                faults -= 1;
                r.obj = None;
            } else if res == "ok" {
                at += n;
                if focus == "C11" && at < c.len() && s.rng.chance(1, 8) {
                    // too early to finish
                    done = finish(&mut s, &mut r, false) == "ok";
                }
            } else {
                r.obj = None;
            }
        }
        if done {
            if focus == "C10" {
                inspect(&mut s, &r);
            }
            // opening it once more must not do any harm
            if s.rng.chance(1, 3) {
                r.obj = None;
                open(&mut s, &mut r, false);
            }
        }
    }
    s.ev
}
/// A key above all present ones, if the universe has one.
fn extra_after(s: &mut Sess, c: &[(usize, i64)]) -> Option<(usize, i64)> {
    let last = c.last().unwrap().0;
    if last < s.u.n() {
        let k = s.rng.range(last + 1, s.u.n());
        let v = s.rng.below(s.vals.len()) as i64;
        Some((k, v))
    } else {
        None
    }
}
/// A chunk that is wrong in some way (or, rarely, turns out to be right).
fn bad(s: &mut Sess, r: &mut Rs, c: &[(usize, i64)], at: usize) -> &'static str {
    let v = r.v;
    let mut items: Vec<(usize, i64)> = if at < c.len() {
        let n = s.rng.range(1, c.len() - at);
        c[at..at + n].to_vec()
    } else {
        vec![]
    };
    let mut proof_key = items.last().map(|x| x.0).unwrap_or(c.last().unwrap().0);
    let mut proof_v = v;
    let mut tweak = 0;
    let mut swapped = false;
    match s.rng.below(15) {
        13 | 14 => {
            // right next to what is durable: the smallest absent key above it, alone or with what follows
            let last = rightmost(s, &r.store).max(if at > 0 { c[at - 1].0 as i64 } else { 0 });
            if let Some(k) = (last as usize + 1..=s.u.n()).find(|k| !c.iter().any(|x| x.0 == *k)) {
                let vv = s.rng.below(s.vals.len()) as i64;
                items = vec![(k, vv)];
                let rest: Vec<(usize, i64)> = c.iter().copied().filter(|x| x.0 > k).collect();
                let n = s.rng.range(0, rest.len());
                items.extend(&rest[..n]);
                proof_key = if n > 0 { rest[n - 1].0 } else { c[s.rng.below(c.len())].0 };
            }
        }
        0 if !items.is_empty() => {
            // altered value
            let i = s.rng.below(items.len());
            items[i].1 = s.rng.below(s.vals.len()) as i64;
        }
        1 if items.len() > 1 => {
            // incomplete at the front or inside
            let i = s.rng.below(items.len() - 1);
            items.remove(i);
        }
        2 if items.len() > 1 => {
            let i = s.rng.below(items.len() - 1);
            items.swap(i, i + 1);
            swapped = true;
            proof_key = items.last().unwrap().0;
        }
        3 if at > 0 => {
            // repeated: starts (partly) before what was received
            let lo = s.rng.below(at);
            let hi = if s.rng.chance(1, 2) { at } else { s.rng.range(lo + 1, c.len()) };
            items = c[lo..hi].to_vec();
            proof_key = items.last().unwrap().0;
        }
        4 => {
            // another version's chunk
            let ov = s.rng.range(s.first as usize, s.latest as usize) as i64;
            let oc: Vec<(usize, i64)> = s.content_at(ov).into_iter().collect();
            let after = if at > 0 { c[at - 1].0 } else { 0 };
            items = oc.into_iter().filter(|x| x.0 > after).collect();
            let n = s.rng.range(0, items.len());
            items.truncate(n.max(1));
            if let Some(x) = items.last() {
                proof_key = x.0;
            }
            proof_v = if s.rng.chance(1, 2) { ov } else { v };
        }
        5 => {
            // an extra key that the version does not have
            let absent: Vec<usize> = (1..=s.u.n()).filter(|k| !c.iter().any(|x| x.0 == *k)).collect();
            if !absent.is_empty() {
                let k = *s.rng.pick(&absent);
                let vv = s.rng.below(s.vals.len()) as i64;
                items.push((k, vv));
                if s.rng.chance(3, 4) {
                    items.sort();
                }
                if c.iter().any(|x| x.0 == items.last().unwrap().0) {
                    proof_key = items.last().unwrap().0;
                }
            }
        }
        6 => {
            // skip ahead
            if at + 1 < c.len() {
                let lo = s.rng.range(at + 1, c.len() - 1);
                let hi = s.rng.range(lo + 1, c.len());
                items = c[lo..hi].to_vec();
                proof_key = items.last().unwrap().0;
            }
        }
        7 => proof_key = c[s.rng.below(c.len())].0,
        8 => proof_v = s.rng.range(s.first as usize, s.latest as usize) as i64,
        9 => tweak = 1,
        10 => tweak = 2,
        11 => tweak = 3,
        _ => items = vec![],
    }
    let _ = swapped;
    let mut sibs = honest(s, proof_v, proof_key).unwrap_or_default();
    match tweak {
        1 if !sibs.is_empty() => {
            let i = s.rng.below(sibs.len());
            sibs[i][s.rng.below(32)] ^= 1;
        }
        2 if !sibs.is_empty() => {
            let i = s.rng.below(sibs.len());
            sibs.remove(i);
        }
        3 => {
            let i = if s.rng.chance(1, 2) { 0 } else { s.rng.below(sibs.len() + 1) };
            let n = [1, 1, 2, 40, 300][s.rng.below(5)];
            for _ in 0..n {
                sibs.insert(i, if s.rng.chance(1, 2) { PLACEHOLDER } else { s.rng.bytes32() });
            }
        }
        _ => {}
    }
    let good = items.last().and_then(|x| honest(s, v, x.0)).map(|p| p == sibs).unwrap_or(false);
    feed(s, r, &items, &sibs, good, false)
}
