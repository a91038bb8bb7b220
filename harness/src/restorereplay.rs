//! Replays the restores exported by spec/RestoreMC.tla: every contents, every chunking, every point at which the
//! process stops or a write fails; then goes on from there with every valid (C10) or wrong (C11) next step.
use crate::jmtdrv::*;
use crate::jmtmore::{digest, node_keys, range_proof, RStore, Restore};
use crate::jmtreplay::*;
use crate::util::*;
use jmt::mock::MockTreeStore;
use jmt::restore::StateSnapshotReceiver;
use jmt::storage::TreeReader;
use jmt::{KeyHash, RootHash};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type Items = Vec<(usize, usize)>;
type Sibs = Vec<[u8; 32]>;

/// the siblings right of key k's path, bottom up
fn right(t: &Table, c: &[usize], k: usize) -> Sibs {
    let s = &t.all[c].sibs[k - 1];
    let n = s.len();
    let bit = |b: usize| t.keys[k - 1].0[b / 8] >> (7 - b % 8) & 1 == 1;
    (0..n).filter(|i| !bit(n - 1 - i)).map(|i| s[i]).collect()
}
struct R<'a> {
    t: &'a Table,
    c: &'a [usize],
    all: Items,
    v: u64,
    store: RStore,
    obj: Option<Restore>,
    got: Items, // durable when opened, then in the order taken in
    migration: bool,
    finished: bool,
    pub log: Vec<String>,
}
impl<'a> R<'a> {
    fn new(t: &'a Table, c: &'a [usize], v: u64, overwrite: bool, migration: bool) -> Self {
        R {
            t,
            c,
            all: (1..=c.len()).filter(|k| c[k - 1] != 0).map(|k| (k, c[k - 1])).collect(),
            v,
            store: RStore { inner: MockTreeStore::new(overwrite), ..Default::default() },
            obj: None,
            got: vec![],
            migration,
            finished: false,
            log: vec![],
        }
    }
    fn mis<T>(&mut self, m: String) -> Result<T, Mis> {
        Err(Mis(m))
    }
    /// keys up to the rightmost leaf in the store
    fn durable(&self) -> Result<Items, Mis> {
        match call(|| self.store.get_rightmost_leaf()) {
            Out::Ok(None) => Ok(vec![]),
            Out::Ok(Some((_, l))) => Ok(self.all.iter().copied().filter(|x| self.t.keys[x.0 - 1] <= l.key_hash()).collect()),
            o => Err(Mis(format!("rightmost leaf of the store: {}", o.word()))),
        }
    }
    fn open(&mut self, over: bool) -> Res {
        let (st, root) = (Arc::new(self.store.clone()), RootHash(self.t.all[self.c].root));
        self.log.push(if over { "open afresh".into() } else { "open".into() });
        let o = if over {
            call(|| Restore::new_overwrite(st, self.v, root, self.migration))
        } else {
            call(|| Restore::new(st, self.v, root, self.migration))
        };
        let w = o.word();
        match o {
            Out::Ok(x) => self.obj = Some(x),
            _ if self.finished && w == "err" => {}
            _ => return self.mis(format!("opening: {w}")),
        }
        self.got = if over { vec![] } else { self.durable()? };
        Ok(())
    }
    fn show(&self, items: &[(usize, usize)]) -> String {
        items.iter().map(|(k, v)| format!("key{k}=value{v}")).collect::<Vec<_>>().join(" ")
    }
    /// -> accepted
    fn chunk(&mut self, items: &[(usize, usize)], sibs: &Sibs, refuse: bool) -> Result<bool, Mis> {
        let chunk: Vec<(KeyHash, Vec<u8>)> = items.iter().map(|(k, v)| (self.t.keys[k - 1], self.t.vals[v - 1].clone())).collect();
        self.log.push(format!("chunk [{}] with proof [{}]{}", self.show(items),
            sibs.iter().map(|x| crate::jmtreplay::show(&x[..4])).collect::<Vec<_>>().join(" "),
            if refuse { ", the write fails" } else { "" }));
        let before = digest(&self.store.inner);
        self.store.refuse.store(refuse, Ordering::SeqCst);
        let mut obj = self.obj.take().unwrap();
        let o = call(|| obj.add_chunk(chunk, range_proof(sibs)));
        self.store.refuse.store(false, Ordering::SeqCst);
        match &o {
            Out::Panic => return self.mis("the chunk crashes restore".into()),
            Out::Err if digest(&self.store.inner) != before => return self.mis("a refused chunk changes the store".into()),
            _ => {}
        }
        self.obj = Some(obj);
        Ok(o.code() == 0)
    }
    fn good(&mut self, m: usize, refuse: bool) -> Res {
        let from = self.got.len();
        let to = (from + m).min(self.all.len());
        if from == to {
            return Ok(());
        }
        let items: Items = self.all[from..to].to_vec();
        let ok = self.chunk(&items, &right(self.t, self.c, items.last().unwrap().0), refuse)?;
        if ok == refuse {
            return self.mis(if ok { "the failed write is not reported".into() } else { "the chunk is refused".into() });
        }
        self.got.extend(items);
        self.truth()
    }
    /// the store holds nothing but parts of the tree, and its root only at the end
    fn truth(&mut self) -> Res {
        for (v, p) in node_keys(&self.store.inner) {
            if v != self.v || (!self.t.all[self.c].nodes.contains_key(&p)) {
                return self.mis(format!("the store holds a node at {p:x?} that the tree does not have"));
            }
            if p.is_empty() && !self.finished {
                return self.mis("the store holds a root before the restore is finished".into());
            }
        }
        Ok(())
    }
    fn finish(&mut self, refuse: bool) -> Result<bool, Mis> {
        let due = self.got == self.all;
        self.log.push(if refuse { "finish, the write fails".into() } else { "finish".into() });
        let before = digest(&self.store.inner);
        self.store.refuse.store(refuse, Ordering::SeqCst);
        let obj = self.obj.take().unwrap();
        let o = if self.v == 0 { call(|| obj.finish()) } else { call(|| Box::new(obj).finish_box()) };
        self.store.refuse.store(false, Ordering::SeqCst);
        let ok = o.code() == 0;
        if o.code() == PANIC {
            return self.mis("finishing crashes".into());
        }
        if !ok && digest(&self.store.inner) != before {
            return self.mis("a failed finish changes the store".into());
        }
        if ok && (refuse || !due) {
            return self.mis(if due { "the failed write is not reported".into() } else { "finishing succeeds with something missing".into() });
        }
        if !ok && due && !refuse {
            return self.mis("finishing fails with everything received".into());
        }
        self.finished = ok;
        Ok(ok)
    }
    /// the restored tree, through the tree API
    fn inspect(&mut self) -> Res {
        let mut j = J::new(self.t, "C10", false);
        j.store = self.store.inner.clone();
        j.tree = Tree::new(Arc::new(self.store.inner.clone()));
        j.cs = vec![self.c.to_vec(); self.v as usize + 1];
        j.observed(self.v as usize, self.migration)
    }
    /// codes of spec/RestoreMC.tla
    fn step(&mut self, code: usize) -> Res {
        match code {
            1 => self.open(false),
            2 => self.open(true),
            3 => {
                self.log.push("the process stops".into());
                self.obj = None;
                Ok(())
            }
            4 | 5 => self.finish(code == 5).map(|_| ()),
            30.. => self.good(code - 30, true),
            _ => self.good(code - 10, false),
        }
    }
}
fn reached<'a>(t: &'a Table, c: &'a [usize], steps: &[usize], v: u64) -> Result<R<'a>, (R<'a>, Mis)> {
    let over = steps.iter().any(|s| *s == 2);
    let mut r = R::new(t, c, v, over || v != 0, c.iter().sum::<usize>() % 3 != 0);
    for s in steps {
        if r.obj.is_none() && *s > 2 {
            break;
        }
        if let Err(m) = r.step(*s) {
            return Err((r, m));
        }
    }
    Ok(r)
}
macro_rules! tr {
    ($r:ident, $x:expr) => {
        match $x {
            Ok(x) => x,
            Err(m) => return Err(($r, m)),
        }
    };
}
type Bad<'a> = (R<'a>, Mis);

fn valid<'a>(t: &'a Table, c: &'a [usize], steps: &[usize], v: u64, n: &mut u64) -> Result<(), Bad<'a>> {
    let r = reached(t, c, steps, v)?;
    let rest = r.all.len() - r.got.len();
    let open = r.obj.is_some();
    drop(r);
    for m in 0..=if open { rest } else { 0 } {
        for crash in [false, true] {
            let mut r = reached(t, c, steps, v)?;
            *n += 1;
            if r.finished {
                tr!(r, r.open(false));
                tr!(r, r.inspect());
                continue;
            }
            if m > 0 {
                tr!(r, r.good(m, false));
            }
            if crash {
                r.obj = None;
            }
            if r.obj.is_none() {
                r.log.push("the process stops".into());
                tr!(r, r.open(false));
            }
            let left = r.all.len() - r.got.len();
            // the rest in one or in single chunks
            if m % 2 == 0 {
                tr!(r, r.good(left, false));
            } else {
                for _ in 0..left {
                    tr!(r, r.good(1, false));
                }
            }
            tr!(r, r.finish(false));
            tr!(r, r.truth());
            tr!(r, r.inspect());
        }
    }
    Ok(())
}
fn wrong<'a>(t: &'a Table, c: &'a [usize], steps: &[usize], v: u64, stride: usize, k0: usize, n: &mut u64) -> Result<(), Bad<'a>> {
    let r = reached(t, c, steps, v)?;
    if r.finished || r.obj.is_none() {
        return Ok(());
    }
    let all = r.all.clone();
    let got = r.got.clone();
    drop(r);
    let rest: Items = all[got.len()..].to_vec();
    // chunks of one or two pairs, all of what is left and one changed, left out, added, repeated or swapped
    let pairs: Items = (1..=t.keys.len()).flat_map(|k| (1..=t.vals.len()).map(move |v| (k, v))).collect();
    let mut items: BTreeSet<Items> = BTreeSet::new();
    items.insert(vec![]);
    for a in &pairs {
        items.insert(vec![*a]);
        for b in &pairs {
            items.insert(vec![*a, *b]);
        }
        let mut l: Items = rest.iter().copied().filter(|x| x.0 != a.0).collect();
        l.push(*a);
        items.insert(l.clone());
        l.sort();
        items.insert(l);
    }
    for i in 0..rest.len() {
        for j in i + 1..=rest.len() {
            items.insert(rest[i..j].to_vec());
        }
        let mut l = rest.clone();
        l.remove(i);
        items.insert(l);
        let mut l = rest.clone();
        l.insert(i, rest[i]);
        items.insert(l);
        if i > 0 {
            let mut l = rest.clone();
            l.swap(i - 1, i);
            items.insert(l);
        }
    }
    items.insert(all.clone());
    // proofs: of every key of this and of another version, and those with a sibling changed
    let hon: BTreeSet<Sibs> = all.iter().map(|x| right(t, c, x.0)).collect();
    let mut c2 = c.to_vec();
    let k = k0 % c2.len();
    c2[k] = (c2[k] + 1) % (t.vals.len() + 1);
    let mut sibs: BTreeSet<Sibs> = hon.clone();
    for k in 1..=c2.len() {
        if c2[k - 1] != 0 {
            sibs.insert(right(t, &c2, k));
        }
    }
    let sub: BTreeSet<[u8; 32]> = hon.iter().flatten().copied().chain([PLACEHOLDER]).collect();
    for s in &hon {
        for i in 0..=s.len() {
            for x in [PLACEHOLDER, *s.first().unwrap_or(&PLACEHOLDER), *s.last().unwrap_or(&PLACEHOLDER)] {
                let mut l = s.clone();
                l.insert(i, x);
                sibs.insert(l);
            }
            if i < s.len() {
                let mut l = s.clone();
                l.remove(i);
                sibs.insert(l);
                for x in &sub {
                    let mut l = s.clone();
                    l[i] = *x;
                    sibs.insert(l);
                }
                let mut l = s.clone();
                l[i][k0 % 32] ^= 1 << (k0 % 8);
                sibs.insert(l);
            }
        }
        for m in [130, 300] {
            let mut l = s.clone();
            l.extend(vec![PLACEHOLDER; m]);
            sibs.insert(l);
        }
    }
    // too early to finish
    if got != all {
        let mut r = reached(t, c, steps, v)?;
        tr!(r, r.finish(false));
        tr!(r, r.truth());
    }
    let mut at = k0;
    for it in &items {
        let next = it.len() <= rest.len() && !it.is_empty() && rest[..it.len()] == it[..];
        for s in &sibs {
            // whatever is right but for the proof, and whatever comes with a proof of this version, more often
            at += 1;
            let honest = it.last().is_some_and(|x| all.contains(x) && *s == right(t, c, x.0));
            let st = if next || honest { stride.div_ceil(8) } else { stride };
            if at % st != 0 {
                continue;
            }
            *n += 1;
            let mut r = reached(t, c, steps, v)?;
            let ok = tr!(r, r.chunk(it, s, false));
            if ok {
                // right is what continues what was received, with the one proof for its last key
                let due = next && *s == right(t, c, it.last().unwrap().0);
                if !due {
                    let m = if next { "a wrong proof is admitted" } else { "a wrong chunk is admitted" };
                    return Err((r, Mis(m.into())));
                }
                r.got.extend(it);
                tr!(r, r.truth());
                continue;
            }
            if next && *s == right(t, c, it.last().unwrap().0) {
                continue; // C10 judges
            }
            // the receiver is used on, after what it may have taken in of the chunk
            match at / st % 3 {
                0 => {
                    let obj = r.obj.take().unwrap();
                    r.log.push("finish".into());
                    let before = digest(&r.store.inner);
                    let o = call(|| obj.finish());
                    let same = digest(&r.store.inner) == before;
                    r.finished = o.code() == 0;
                    let root = node_keys(&r.store.inner).iter().any(|x| x.1.is_empty());
                    match o.word() {
                        "panic" => return Err((r, Mis("finishing crashes".into()))),
                        "err" if !same => return Err((r, Mis("a failed finish changes the store".into()))),
                        "ok" if !root => return Err((r, Mis("finishing succeeds without a root".into()))),
                        // everything was taken in before the chunk was refused for its proof
                        "ok" => tr!(r, r.inspect_if_ok()),
                        _ => {}
                    }
                }
                1 => {
                    let j = at % 5;
                    if j < rest.len() {
                        let l = rest[j..rest.len().min(j + 1 + at % 2)].to_vec();
                        let p = right(t, c, l.last().unwrap().0);
                        tr!(r, r.chunk(&l, &p, false));
                        tr!(r, r.truth());
                    }
                }
                _ => {}
            }
            // what is in the store can be built on
            r.obj = None;
            if !r.finished {
                tr!(r, r.truth());
                if at % 16 == 0 {
                    tr!(r, r.open(false));
                    let left = r.all.len() - r.got.len();
                    tr!(r, r.good(left, false));
                    tr!(r, r.finish(false));
                    tr!(r, r.inspect());
                }
            }
        }
    }
    Ok(())
}
impl R<'_> {
    fn inspect_if_ok(&mut self) -> Res {
        self.truth()?;
        self.inspect()
    }
}

pub fn run(focus: &str, table_path: &str, hist: &str, stride: u64, inner: u64, offset: u64, threads: usize) -> i32 {
    let t = table(table_path);
    let bad: Mutex<Option<Vec<String>>> = Mutex::new(None);
    let (cases, next, replayed) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let nk = t.keys.len();
    let hists: Vec<Vec<usize>> = std::fs::read_to_string(hist).expect("behaviours").lines()
        .map(|l| l.split_whitespace().map(|x| x.parse().expect("operation")).collect()).collect();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= hists.len() || bad.lock().unwrap().is_some() {
                    break;
                }
                if (i as u64 + offset) % stride != 0 {
                    continue;
                }
                replayed.fetch_add(1, Ordering::Relaxed);
                let (c, steps) = hists[i].split_at(nk);
                let mut n = 0;
                let v = if i % 3 == 0 { 3 } else { 0 };
                let res = match focus {
                    "C10" => range_proofs(&t, c).map_err(|m| (R::new(&t, c, v, false, true), m)).and_then(|_| valid(&t, c, steps, v, &mut n)),
                    _ => wrong(&t, c, steps, v, inner as usize, i + offset as usize, &mut n),
                };
                cases.fetch_add(n, Ordering::Relaxed);
                if let Err((r, Mis(m))) = res {
                    let mut lines = vec!["# restore of spec/RestoreMC.tla replayed into the real code".to_string()];
                    lines.extend(legend(&t));
                    lines.push(format!("contents: {}", r.show(&r.all)));
                    lines.extend(r.log.iter().cloned());
                    lines.push(format!("=> {m}"));
                    fails(&bad, lines);
                }
            });
        }
    });
    if let Some(lines) = bad.into_inner().unwrap() {
        println!("{}", lines.join("\n"));
        return 3;
    }
    println!("{}", json!({"behaviours_replayed": replayed.into_inner(), "cases": cases.into_inner()}));
    0
}
/// the tree's own range proofs are the ones of the table
fn range_proofs(t: &Table, c: &[usize]) -> Res {
    let mut j = J::new(t, "C02", false);
    j.commit(&[(1..=c.len()).filter(|k| c[k - 1] != 0).map(|k| (k, c[k - 1])).collect()], 0)?;
    for k in 1..=c.len() {
        let got = call(|| j.tree.get_range_proof(t.keys[k - 1], 0));
        match (c[k - 1], got) {
            (0, Out::Err) => {}
            (0, _) => return Err(Mis(format!("range proof for the absent key{k}"))),
            (_, Out::Ok(p)) => want(&format!("range proof of key{k}"), p.right_siblings().to_vec(), right(t, c, k))?,
            (_, o) => return Err(Mis(format!("range proof of key{k}: {}", o.word()))),
        }
    }
    Ok(())
}
