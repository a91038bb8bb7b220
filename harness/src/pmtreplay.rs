//! Replays every behaviour exported by spec/MptMC.tla into the real trie, extended by every next operation,
//! and compares with the table of spec/MptTable.tla.
#![allow(deprecated)]
use crate::pmt::{keccak, FDb, TestDb};
use crate::util::*;
use patriecia::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, H256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Content {
    root: [u8; 32],
    nodes: BTreeMap<[u8; 32], Vec<u8>>,
    proof: Vec<Vec<Vec<u8>>>,
}
pub struct Table {
    keys: Vec<Vec<u8>>,
    vals: Vec<Vec<u8>>,
    all: HashMap<Vec<usize>, Content>,
}

pub fn table(path: &str) -> Table {
    let j: Value = serde_json::from_slice(&std::fs::read(path).expect("table")).expect("json");
    let list = |v: &Value| -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
    let keys: Vec<Vec<u8>> = j["kn"].as_array().unwrap().iter()
        .map(|k| from_nibbles(&list(k).iter().map(|x| *x as u8).collect::<Vec<_>>())).collect();
    // the first byte is at least 128, as the model assumes for one-byte values
    let vals: Vec<Vec<u8>> = list(&j["vals"]).iter().enumerate()
        .map(|(i, n)| (0..*n).map(|p| if p == 0 { 0xa0 + i as u8 } else { (i * 37 + p as usize * 11) as u8 }).collect()).collect();
    let mut all = HashMap::new();
    for c in j["contents"].as_array().unwrap() {
        let content: Vec<usize> = list(&c["c"]).iter().map(|x| *x as usize).collect();
        let toks: HashMap<i64, Vec<i64>> = c["nodes"].as_array().unwrap().iter().map(|n| (n["h"].as_i64().unwrap(), list(&n["s"]))).collect();
        fn bytes(id: i64, toks: &HashMap<i64, Vec<i64>>, vals: &[Vec<u8>], memo: &mut HashMap<i64, Vec<u8>>) -> Vec<u8> {
            if let Some(b) = memo.get(&id) {
                return b.clone();
            }
            let mut out = vec![];
            for t in &toks[&id] {
                match *t {
                    t if t >= 0 => out.push(t as u8),
                    t if t <= -1_000_000 => out.extend(&vals[(-t - 1_000_001) as usize]),
                    t => out.extend(keccak(&bytes(-t, toks, vals, memo))),
                }
            }
            memo.insert(id, out.clone());
            out
        }
        let mut memo = HashMap::new();
        let root = keccak(&bytes(c["root"].as_i64().unwrap(), &toks, &vals, &mut memo));
        let nodes = toks.keys().map(|id| bytes(*id, &toks, &vals, &mut memo)).map(|b| (keccak(&b), b)).collect();
        let proof = c["proof"].as_array().unwrap().iter()
            .map(|p| list(p).iter().map(|id| bytes(*id, &toks, &vals, &mut memo)).collect()).collect();
        all.insert(content, Content { root, nodes, proof });
    }
    Table { keys, vals, all }
}

pub type Op = i64;
fn name(op: Op) -> String {
    match op {
        0 => "commit".into(),
        1 => "reopen".into(),
        5 => "write out and read back".into(),
        o if o % 100 == 0 => format!("remove key{}", o / 100),
        o => format!("insert key{} value{}", o / 100, o % 100),
    }
}

struct Mis(String);
type Res = Result<(), Mis>;
fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Res {
    if got == exp {
        Ok(())
    } else {
        Err(Mis(format!("{what}: got {got:?}, the specification says {exp:?}")))
    }
}

struct S<'a, D: TestDb> {
    t: &'a Table,
    db: Arc<D>,
    v: InnerTrie<D>,
    c: Vec<usize>,
    committed: Option<(Vec<usize>, [u8; 32])>,
    clean: bool,
    olds: Vec<(Vec<usize>, [u8; 32])>,
    held: Vec<(Vec<usize>, InnerTrie<D>)>, // other views, with what each must show
    keep: bool,
    thaws: usize,
}
impl<'a, D: TestDb> S<'a, D> {
    fn new(t: &'a Table, light: bool, keep: bool) -> Self {
        let db = Arc::new(D::make(light));
        S { t, v: InnerTrie::new(db.clone()), db, c: vec![0; t.keys.len()], committed: None, clean: false, olds: vec![], held: vec![], keep, thaws: 0 }
    }
    /// the operation itself, and its immediate result against the model
    fn raw(&mut self, op: Op) -> Out<i64> {
        match op {
            0 => match call(|| self.v.commit()) {
                Out::Ok(h) => {
                    self.committed = Some((self.c.clone(), h.0));
                    Out::Ok(0)
                }
                Out::Err => Out::Err,
                Out::Panic => Out::Panic,
            },
            1 => {
                let root = self.committed.as_ref().expect("reopen after commit").1;
                self.v = self.v.at_root(H256(root));
                Out::Ok(0)
            }
            5 => {
                self.thaws += 1;
                let n = self.thaws;
                match call(|| crate::serreplay::thaw(&self.v, n)) {
                    Out::Ok(v) => {
                        self.v = v;
                        Out::Ok(0)
                    }
                    Out::Err => Out::Err,
                    Out::Panic => Out::Panic,
                }
            }
            o => {
                let (k, v) = (o as usize / 100 - 1, o as usize % 100);
                let key = &self.t.keys[k];
                if v == 0 {
                    match call(|| self.v.remove(key)) {
                        Out::Ok(b) => Out::Ok(b as i64),
                        Out::Err => Out::Err,
                        Out::Panic => Out::Panic,
                    }
                } else {
                    match call(|| self.v.insert(key, &self.t.vals[v - 1])) {
                        Out::Ok(()) => Out::Ok(0),
                        Out::Err => Out::Err,
                        Out::Panic => Out::Panic,
                    }
                }
            }
        }
    }
    fn expected(&self, op: Op) -> i64 {
        if op >= 100 && op % 100 == 0 { (self.c[op as usize / 100 - 1] != 0) as i64 } else { 0 }
    }
    fn after(&mut self, op: Op) {
        if op >= 100 {
            let (k, v) = (op as usize / 100 - 1, op as usize % 100);
            if v != 0 || self.c[k] != 0 {
                self.clean = false;
            }
            self.c[k] = v;
        } else if op == 0 {
            self.clean = true;
            if self.keep {
                self.olds.push(self.committed.clone().unwrap());
            }
        }
        if self.keep {
            self.held.push((self.c.clone(), self.v.clone()));
        }
    }
    fn step(&mut self, op: Op) -> Res {
        let exp = self.expected(op);
        match self.raw(op) {
            Out::Ok(x) => want(&format!("result of {}", name(op)), x, exp)?,
            Out::Err => return Err(Mis(format!("{} fails", name(op)))),
            Out::Panic => return Err(Mis(format!("{} crashes", name(op)))),
        }
        self.after(op);
        Ok(())
    }
    fn val(&self, c: &[usize], k: usize) -> Option<Vec<u8>> {
        (c[k] != 0).then(|| self.t.vals[c[k] - 1].clone())
    }
    fn reads(&self, what: &str, v: &InnerTrie<D>, c: &[usize]) -> Res {
        for (k, key) in self.t.keys.iter().enumerate() {
            match call(|| v.get(key)) {
                Out::Ok(x) => want(&format!("{what}: lookup of key{}", k + 1), x, self.val(c, k))?,
                o => return Err(Mis(format!("{what}: lookup of key{} {}", k + 1, o.word()))),
            }
            match call(|| v.contains(key)) {
                Out::Ok(x) => want(&format!("{what}: presence of key{}", k + 1), x, c[k] != 0)?,
                o => return Err(Mis(format!("{what}: presence of key{} {}", k + 1, o.word()))),
            }
        }
        Ok(())
    }
    fn items(&self, c: &[usize]) -> Vec<(Vec<u8>, Vec<u8>)> {
        (0..c.len()).filter_map(|k| self.val(c, k).map(|v| (self.t.keys[k].clone(), v))).collect()
    }
    fn iters(&self, what: &str, v: &InnerTrie<D>, c: &[usize]) -> Res {
        let exp = self.items(c);
        let cap = exp.len() + 3;
        for (n, r) in [
            ("iteration", call(|| Ok::<_, ()>(v.iter().take(cap).collect::<Vec<_>>()))),
            ("owned iteration", call(|| Ok::<_, ()>(OwnedTrieIterator::new(v.clone()).take(cap).collect::<Vec<_>>()))),
        ] {
            match r {
                Out::Ok(x) => want(&format!("{what}: {n}"), x, exp.clone())?,
                o => return Err(Mis(format!("{what}: {n} {}", o.word()))),
            }
        }
        match call(|| v.values()) {
            Out::Ok(x) => want(&format!("{what}: list of values"), x, exp),
            o => Err(Mis(format!("{what}: list of values {}", o.word()))),
        }
    }
    fn spec(&self, c: &[usize]) -> &'a Content {
        &self.t.all[c]
    }
    fn root_is(&self, what: &str) -> Res {
        want(what, self.committed.as_ref().unwrap().1, self.spec(&self.c).root)
    }
    fn proofs(&self, what: &str, v: &mut InnerTrie<D>, exact: bool) -> Res {
        let (c, root) = self.committed.clone().unwrap();
        if c.iter().all(|x| *x == 0) {
            return Ok(());
        }
        let other = InnerTrie::<MemoryDB>::new(Arc::new(MemoryDB::new(true)));
        for k in 0..c.len() {
            let key = self.t.keys[k].clone();
            let p = match call(|| v.get_proof(&key)) {
                Out::Ok(p) => p,
                o => return Err(Mis(format!("{what}: proof of key{} {}", k + 1, o.word()))),
            };
            let spec = self.spec(&c);
            if exact && spec.root == root {
                want(&format!("{what}: proof nodes of key{}", k + 1), &p, &spec.proof[k])?;
            }
            match call(|| other.verify_proof(H256(root), &key, p.clone())) {
                Out::Ok(x) => want(&format!("{what}: proof of key{} verifies", k + 1), x, self.val(&c, k))?,
                o => return Err(Mis(format!("{what}: verification of the proof of key{} {}", k + 1, o.word()))),
            }
        }
        Ok(())
    }
    fn stored(&self, what: &str, exact: bool) -> Res {
        let (c, root) = self.committed.clone().unwrap();
        let spec = self.spec(&c);
        if spec.root != root {
            return Ok(()); // the matter of C14
        }
        let held: BTreeMap<Vec<u8>, Vec<u8>> = self.db.values().expect("listing").into_iter().collect();
        for (h, b) in &spec.nodes {
            if held.get(&h[..]) != Some(b) {
                return Err(Mis(format!("{what}: the database lacks node {:02x?} of the committed trie", b)));
            }
        }
        if exact {
            want(&format!("{what}: number of nodes held"), held.len(), spec.nodes.len())?;
        }
        Ok(())
    }
}

/// every operation the model can do next
fn nexts(t: &Table, clean: bool) -> Vec<Op> {
    let mut ops = vec![0];
    if clean {
        ops.push(1);
    }
    let n = t.keys.len();
    for k in 0..n {
        ops.push(100 * (k as i64 + 1));
        for v in 0..t.vals.len() {
            if v % n == k {
                ops.push(100 * (k as i64 + 1) + v as i64 + 1);
            }
        }
    }
    ops
}

fn one<D: TestDb>(focus: &str, t: &Table, light: bool, h: &[Op], next: Option<Op>, n: &mut u64) -> Res {
    let mut s = S::<D>::new(t, light, focus == "C15");
    for op in h {
        s.step(*op)?;
    }
    if focus == "C22" {
        s.thaws = h.len() + next.unwrap_or(0) as usize;
        s.step(5)?;
        s.reads("read back", &s.v, &s.c)?;
        s.iters("read back", &s.v, &s.c)?;
        if s.clean && s.committed.is_some() {
            let mut v = s.v.clone();
            s.proofs("read back", &mut v, true)?;
        }
    }
    if let Some(op) = next {
        s.step(op)?;
    }
    *n += 1;
    match focus {
        "C22" => {
            s.step(5)?;
            s.reads("read back", &s.v, &s.c)?;
            s.step(0)?;
            s.root_is("root returned by commit after reading back")?;
            s.stored("after commit", false)?;
            s.step(5)?;
            s.reads("committed and read back", &s.v, &s.c)?;
            s.iters("committed and read back", &s.v, &s.c)?;
            let mut v = s.v.clone();
            s.proofs("committed and read back", &mut v, true)?;
            s.step(0)?;
            s.root_is("root returned by a second commit")?;
            return s.reads("at the end", &s.v, &s.c);
        }
        "C13" => s.reads("then", &s.v, &s.c)?,
        "C19" => s.iters("pending", &s.v, &s.c)?,
        _ => {}
    }
    if focus == "C17" && s.clean && s.committed.is_some() {
        let mut v = s.v.clone();
        s.proofs("then", &mut v, true)?;
    }
    s.step(0)?;
    match focus {
        "C13" => s.reads("after commit", &s.v, &s.c)?,
        "C14" => {
            s.root_is("root returned by commit")?;
            s.step(0)?;
            s.root_is("root returned by a second commit")?;
            match call(|| s.v.root_hash()) {
                Out::Ok(x) => want("root hash", x.0, s.spec(&s.c).root)?,
                o => return Err(Mis(format!("root hash {}", o.word()))),
            }
        }
        "C15" => {
            s.stored("after commit", false)?;
            for (c, r) in &s.olds {
                let v = s.v.at_root(H256(*r));
                s.reads("reopened root", &v, c)?;
                if let Some(bad) = v.iter().map(|x| Some(x)).zip(s.items(c).into_iter().map(Some)).find(|(a, b)| a != b) {
                    return Err(Mis(format!("reopened root: iteration shows {:?}", bad.0)));
                }
            }
            for (c, v) in &s.held {
                s.reads("other view", v, c)?;
            }
        }
        "C16" => {
            s.stored("after commit", true)?;
            let root = s.committed.clone().unwrap().1;
            let mut v = s.v.at_root(H256(root));
            s.reads("reopened", &v, &s.c)?;
            s.proofs("reopened", &mut v, false)?;
            s.step(0)?;
            s.stored("after a second commit", true)?;
        }
        "C17" => {
            let mut v = s.v.clone();
            s.proofs("after commit", &mut v, true)?;
            let mut v = s.v.at_root(H256(s.committed.clone().unwrap().1));
            s.proofs("reopened", &mut v, true)?;
            let spec = s.spec(&s.c);
            for nodes in &spec.proof {
                for x in nodes {
                    want("proof node is a stored node", s.db.get(&keccak(x)).ok().flatten().as_ref(), Some(x))?;
                }
            }
        }
        "C19" => {
            s.iters("committed", &s.v, &s.c)?;
            s.iters("reopened", &s.v.at_root(H256(s.committed.clone().unwrap().1)), &s.c)?;
        }
        _ => {}
    }
    Ok(())
}

/// One operation with one fault; then the database recovers.
fn faulty(t: &Table, light: bool, h: &[Op], op: Op, n: &mut u64) -> Res {
    let build = || -> Result<S<FDb>, Mis> {
        let mut s = S::<FDb>::new(t, light, false);
        for op in h {
            s.step(*op)?;
        }
        Ok(s)
    };
    let nodes: Vec<Vec<u8>> = build()?.db.values().expect("listing").into_iter().map(|x| x.0).collect();
    #[derive(Debug, Clone)]
    enum F {
        Nth(usize, u64),
        Hide(Vec<u8>),
    }
    let mut plans: Vec<F> = nodes.into_iter().map(F::Hide).collect();
    let kinds: &[usize] = if op == 0 { &[0, 1, 2] } else { &[0] };
    for kind in kinds {
        for i in 0..12 {
            plans.push(F::Nth(*kind, i));
        }
    }
    let mut dead = [false; 3]; // the operation makes fewer calls of this kind
    // op 50 + k: lookup, 60 + k: presence, 70 + k: proof
    for p in plans {
        if let F::Nth(k, _) = p {
            if dead[k] {
                continue;
            }
        }
        let mut s = build()?;
        let what = format!("{} with {:?}", opname(op), p);
        match &p {
            F::Nth(k, i) => s.db.arm(*k, *i),
            F::Hide(key) => s.db.hide(key.clone()),
        }
        let r = observe(&mut s, op);
        let hit = s.db.take_hits() > 0;
        s.db.heal();
        s.db.take_hits();
        *n += 1;
        if !hit {
            if let F::Nth(k, _) = p {
                dead[k] = true;
            }
        }
        // lookups: what the answer must be
        let exp = answer(&s, op);
        match (hit, r) {
            (true, Out::Err) => {}
            (true, o) => return Err(Mis(format!("{what}: not reported ({})", o.word()))),
            (false, Out::Ok(x)) => {
                want(&what, &x, &exp)?;
                if op == 0 || op >= 100 {
                    s.after(op);
                }
            }
            (false, o) => return Err(Mis(format!("{what}: {} without any failure of the database", o.word()))),
        }
        // without effect; repeated, it gives what it would have given
        s.reads(&what, &s.v, &s.c)?;
        if hit {
            let exp = answer(&s, op);
            match observe(&mut s, op) {
                Out::Ok(x) => want(&format!("{what}, repeated"), &x, &exp)?,
                o => return Err(Mis(format!("{what}, repeated: {}", o.word()))),
            }
            if op == 0 || op >= 100 {
                s.after(op);
            }
            s.reads(&format!("{what}, repeated"), &s.v, &s.c)?;
        }
        s.step(0)?;
        s.reads(&format!("{what}, then commit"), &s.v, &s.c)?;
        s.stored(&format!("{what}, then commit"), false)?;
        let v = s.v.at_root(H256(s.committed.clone().unwrap().1));
        s.reads(&format!("{what}, then commit and reopen"), &v, &s.c)?;
    }
    Ok(())
}
fn opname(op: Op) -> String {
    match op {
        50..=59 => format!("lookup of key{}", op - 49),
        60..=69 => format!("presence of key{}", op - 59),
        70..=79 => format!("proof of key{}", op - 69),
        _ => name(op),
    }
}
fn answer<D: TestDb>(s: &S<D>, op: Op) -> Vec<Vec<u8>> {
    match op {
        50..=59 => s.val(&s.c, op as usize - 50).into_iter().collect(),
        60..=69 => vec![vec![(s.c[op as usize - 60] != 0) as u8]],
        70..=79 => vec![],
        _ => vec![vec![s.expected(op) as u8]],
    }
}
fn observe<D: TestDb>(s: &mut S<D>, op: Op) -> Out<Vec<Vec<u8>>> {
    fn m<T, U>(o: Out<T>, f: impl FnOnce(T) -> U) -> Out<U> {
        match o {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err => Out::Err,
            Out::Panic => Out::Panic,
        }
    }
    match op {
        50..=59 => m(call(|| s.v.get(&s.t.keys[op as usize - 50])), |x| x.into_iter().collect()),
        60..=69 => m(call(|| s.v.contains(&s.t.keys[op as usize - 60])), |x| vec![vec![x as u8]]),
        70..=79 => m(call(|| s.v.get_proof(&s.t.keys[op as usize - 70])), |_| vec![]),
        _ => m(s.raw(op), |x| vec![vec![x as u8]]),
    }
}

/// Every subset of the stored nodes of a content, with and without those of another content, offered as proof.
fn subsets(t: &Table, c: &[usize], pair: bool, n: &mut u64) -> Res {
    let me = &t.all[c];
    let other = InnerTrie::<MemoryDB>::new(Arc::new(MemoryDB::new(true)));
    let mine: Vec<&Vec<u8>> = me.nodes.values().collect();
    let mut friends: Vec<Option<&Content>> = vec![None];
    if pair {
        friends.extend(t.all.values().map(Some));
    }
    for f in friends {
        let theirs: Vec<&Vec<u8>> = f.map(|x| x.nodes.values().filter(|b| !me.nodes.contains_key(&keccak(b))).collect()).unwrap_or_default();
        for m in 0..(1usize << mine.len()) {
            let mut p: Vec<Vec<u8>> = theirs.iter().map(|x| x.to_vec()).collect();
            for (i, b) in mine.iter().enumerate() {
                if m >> i & 1 == 1 {
                    // on either side of the foreign nodes
                    if i % 2 == 0 { p.push(b.to_vec()) } else { p.insert(0, b.to_vec()) }
                }
            }
            for (k, key) in t.keys.iter().enumerate() {
                *n += 1;
                let enough = me.proof[k].iter().all(|x| p.contains(x));
                let r = call(|| other.verify_proof(H256(me.root), key, p.clone()));
                let exp = (c[k] != 0).then(|| t.vals[c[k] - 1].clone());
                let what = || format!("content {c:?}, key{}, {} of its nodes and {} foreign ones", k + 1, m.count_ones(), theirs.len());
                match (enough, r) {
                    (true, Out::Ok(x)) => want(&what(), x, exp)?,
                    (false, Out::Err) => {}
                    (true, o) => return Err(Mis(format!("{}: sufficient proof refused ({})", what(), o.word()))),
                    (false, Out::Ok(x)) => return Err(Mis(format!("{}: insufficient proof answers {x:?}", what()))),
                    (false, Out::Panic) => return Err(Mis(format!("{}: crash", what()))),
                }
            }
        }
    }
    Ok(())
}

/// -> exit status
pub fn run(focus: &str, table_path: &str, hist: &str, light: bool, stride: u64, offset: u64, threads: usize) -> i32 {
    let t = table(table_path);
    let bad: Mutex<Option<Vec<String>>> = Mutex::new(None);
    let cases = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let hists: Vec<Vec<Op>> = std::fs::read_to_string(hist).unwrap_or_default().lines()
        .map(|l| l.split_whitespace().map(|x| x.parse().expect("operation")).collect()).collect();
    let mut contents: Vec<Vec<usize>> = t.all.keys().cloned().collect();
    contents.sort();
    let total = if focus == "C18" { contents.len() } else { hists.len() };
    let replayed = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= total || bad.lock().unwrap().is_some() {
                    break;
                }
                if (i as u64 + offset) % stride != 0 {
                    continue;
                }
                let mut n = 0;
                let mut fail = |lines: Vec<String>| {
                    let mut b = bad.lock().unwrap();
                    if b.is_none() {
                        *b = Some(lines);
                    }
                };
                replayed.fetch_add(1, Ordering::Relaxed);
                if focus == "C18" {
                    if let Err(Mis(m)) = subsets(&t, &contents[i], true, &mut n) {
                        fail(vec![m]);
                    }
                    cases.fetch_add(n, Ordering::Relaxed);
                    continue;
                }
                let h = &hists[i];
                let clean = h.iter().rposition(|o| *o == 0).is_some_and(|p| h[p..].iter().all(|o| *o < 2 || *o == 5));
                let mut todo: Vec<Option<Op>> = nexts(&t, clean).into_iter().map(Some).collect();
                if focus == "C20" {
                    todo.retain(|o| *o != Some(1));
                    for k in 0..t.keys.len() as i64 {
                        todo.extend([Some(50 + k), Some(60 + k), Some(70 + k)]);
                    }
                } else {
                    todo.push(None);
                }
                for op in todo {
                    let r = if focus == "C20" {
                        faulty(&t, light, h, op.unwrap(), &mut n)
                    } else if focus == "C22" {
                        one::<crate::serreplay::HereDb>(focus, &t, light, h, op, &mut n)
                    } else {
                        one::<MemoryDB>(focus, &t, light, h, op, &mut n)
                    };
                    if let Err(Mis(m)) = r {
                        let show = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
                        let mut lines = vec![
                            "# behaviour of spec/MptMC.tla replayed into the real trie".to_string(),
                            format!("# {} database", if light { "pruning" } else { "non-pruning" }),
                            format!("# keys {}", t.keys.iter().map(|x| format!("0x{}", show(x))).collect::<Vec<_>>().join(" ")),
                            format!("# values {}", t.vals.iter().map(|x| format!("0x{}", show(x))).collect::<Vec<_>>().join(" ")),
                        ];
                        lines.extend(h.iter().chain(op.iter()).map(|o| opname(*o)));
                        lines.push(format!("=> {m}"));
                        fail(lines);
                        break;
                    }
                }
                cases.fetch_add(n, Ordering::Relaxed);
            });
        }
    });
    if let Some(lines) = bad.into_inner().unwrap() {
        println!("{}", lines.join("\n"));
        return 3;
    }
    println!("{}", json!({"behaviours_replayed": replayed.into_inner(), "cases": cases.into_inner()}));
    0
}
