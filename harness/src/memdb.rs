//! Concurrent histories of the in-memory node database for spec/MemDbTrace.tla.
#![allow(deprecated)]
use crate::util::*;
use patriecia::{Database, InnerTrie, MemoryDB};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Ins(u8, i64),
    Rem(u8),
    InsB(Vec<u8>, Vec<i64>),
    RemB(Vec<u8>),
    Get(u8),
    Len,
    TrieLen,
    Empty,
    Values,
}
#[derive(Clone, Debug)]
struct Done {
    th: usize,
    op: Op,
    call: u64,
    ret: u64,
    res: i64,
    all: Vec<(i64, i64)>,
}

fn key(k: u8) -> Vec<u8> {
    vec![b'k', k]
}
fn val(v: i64) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}
fn unval(v: &[u8]) -> i64 {
    v.try_into().map(i64::from_le_bytes).unwrap_or(UNKNOWN)
}
fn noise_key(i: u64) -> Vec<u8> {
    format!("noise{i}").into_bytes()
}

fn run_op(db: &MemoryDB, op: &Op) -> (i64, Vec<(i64, i64)>) {
    let unit = |o: Out<()>| (o.code(), vec![]);
    match op {
        Op::Ins(k, v) => unit(call(|| db.insert(&key(*k), val(*v)))),
        Op::Rem(k) => unit(call(|| db.remove(&key(*k)))),
        Op::InsB(ks, vs) => unit(call(|| db.insert_batch(ks.iter().map(|k| key(*k)).collect(), vs.iter().map(|v| val(*v)).collect()))),
        Op::RemB(ks) => unit(call(|| db.remove_batch(&ks.iter().map(|k| key(*k)).collect::<Vec<_>>()))),
        Op::Get(k) => match call(|| db.get(&key(*k))) {
            Out::Ok(Some(v)) => (unval(&v), vec![]),
            Out::Ok(None) => (NONE, vec![]),
            x => (x.code(), vec![]),
        },
        Op::Len => match call(|| db.len()) {
            Out::Ok(n) => (n as i64, vec![]),
            x => (x.code(), vec![]),
        },
        Op::TrieLen => match call(|| Ok::<_, ()>(InnerTrie::new(Arc::new(db.clone())).len())) {
            Out::Ok(n) => (n as i64, vec![]),
            x => (x.code(), vec![]),
        },
        Op::Empty => match call(|| db.is_empty()) {
            Out::Ok(b) => (b as i64, vec![]),
            x => (x.code(), vec![]),
        },
        Op::Values => match call(|| db.values()) {
            Out::Ok(v) => {
                let n = v.len() as i64;
                let mut t: Vec<(i64, i64)> =
                    v.iter().filter(|(k, _)| k.first() == Some(&b'k')).map(|(k, x)| (k.get(1).copied().unwrap_or(0) as i64, unval(x))).collect();
                t.sort();
                (n, t)
            }
            x => (x.code(), vec![]),
        },
    }
}

fn gen_op(rng: &mut Rng, nk: u8, next: &mut i64, reads: usize, listing: bool) -> Op {
    let k = 1 + rng.below(nk as usize) as u8;
    let mut fresh = || {
        *next += 1;
        *next
    };
    if rng.chance(reads, 10) {
        match rng.below(7) {
            0 | 1 => Op::Get(k),
            2 => Op::Len,
            3 => Op::TrieLen,
            4 => Op::Empty,
            _ if listing => Op::Values,
            _ => Op::Get(k),
        }
    } else {
        match rng.below(8) {
            0..=2 => Op::Ins(k, fresh()),
            3..=5 => Op::Rem(k),
            6 => {
                let ks: Vec<u8> = (0..rng.range(1, 3)).map(|_| 1 + rng.below(nk as usize) as u8).collect();
                let vs = ks.iter().map(|_| fresh()).collect();
                Op::InsB(ks, vs)
            }
            _ => Op::RemB((0..rng.range(1, 3)).map(|_| 1 + rng.below(nk as usize) as u8).collect()),
        }
    }
}

struct Hist {
    light: bool,
    base: u64,
    init: BTreeMap<i64, i64>,
    threads: usize,
    done: Vec<Done>,
}

/// Run one concurrent history.  `big`: many other entries, so that the first insertion of a new key
/// makes the table grow, which takes a while.
fn run_history(rng: &mut Rng, big: Option<u64>, noise: usize) -> Hist {
    let light = rng.chance(3, 4);
    let db = MemoryDB::new(light);
    let nk = if big.is_some() { 4 } else { rng.range(1, 4) as u8 };
    let mut next = 0;
    let mut init = BTreeMap::new();
    // the noise makers insert an entry that is there already and remove one that is not
    let base = big.map(|b| b - (nk as u64 - 1)).unwrap_or(if noise > 0 || rng.chance(1, 2) { 1 } else { 0 });
    for i in 0..base {
        db.insert(&noise_key(i), b"x".to_vec()).unwrap();
    }
    for k in 1..=nk {
        // the first insertion into a big table is of a new key
        if if big.is_some() { k > 1 } else { rng.chance(1, 2) } {
            next += 1;
            db.insert(&key(k), val(next)).unwrap();
            init.insert(k as i64, next);
        }
    }
    let threads = if big.is_some() { 6 } else { rng.range(2, 4) };
    let per = if big.is_some() { 12 } else { rng.range(2, 5) };
    let reads = if big.is_some() { 9 } else { rng.range(3, 7) };
    let scripts: Vec<Vec<Op>> = (0..threads)
        .map(|th| {
            (0..per)
                .map(|i| {
                    if big.is_some() && th == 0 && i == 0 {
                        next += 1;
                        Op::Ins(1, next)
                    } else {
                        gen_op(rng, nk, &mut next, reads, big.is_none())
                    }
                })
                .collect()
        })
        .collect();
    let clock = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let gate = Barrier::new(threads + noise);
    let mut done: Vec<Done> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (th, script) in scripts.iter().enumerate() {
            let (db, clock, gate) = (db.clone(), &clock, &gate);
            hs.push(sc.spawn(move || {
                gate.wait();
                let mut out = vec![];
                for op in script {
                    if big.is_some() && th > 0 {
                        // spread over the time the table takes to grow
                        std::thread::sleep(std::time::Duration::from_micros(100 + 150 * th as u64));
                    }
                    let call = clock.fetch_add(1, SeqCst);
                    let (res, all) = run_op(&db, op);
                    let ret = clock.fetch_add(1, SeqCst);
                    out.push(Done { th: th + 1, op: op.clone(), call, ret, res, all });
                }
                out
            }));
        }
        for i in 0..noise {
            let (db, gate, stop) = (db.clone(), &gate, &stop);
            sc.spawn(move || {
                gate.wait();
                let gone = noise_key(u64::MAX);
                let there = noise_key(0);
                while !stop.load(SeqCst) {
                    let _ = call(|| db.remove(&gone));
                    if i % 2 == 0 {
                        let _ = call(|| db.insert(&there, b"x".to_vec()));
                    } else {
                        let _ = call(|| db.values());
                    }
                }
            });
        }
        for h in hs {
            done.extend(h.join().expect("worker"));
        }
        stop.store(true, SeqCst);
    });
    Hist { light, base, init, threads, done }
}

impl Hist {
    fn events(&self) -> Vec<Value> {
        let init: Vec<(i64, i64)> = self.init.iter().map(|(k, v)| (*k, *v)).collect();
        let mut ev = vec![json!({"e":"reset","light":self.light as i64,"base":self.base,"init":init,"threads":self.threads})];
        let mut ts: Vec<(u64, Value)> = vec![];
        for d in &self.done {
            let (op, k, v, ks, vs) = match &d.op {
                Op::Ins(k, v) => ("ins", *k, *v, vec![], vec![]),
                Op::Rem(k) => ("rem", *k, 0, vec![], vec![]),
                Op::InsB(ks, vs) => ("insb", 0, 0, ks.clone(), vs.clone()),
                Op::RemB(ks) => ("remb", 0, 0, ks.clone(), vec![]),
                Op::Get(k) => ("get", *k, 0, vec![], vec![]),
                Op::Len | Op::TrieLen => ("len", 0, 0, vec![], vec![]),
                Op::Empty => ("empty", 0, 0, vec![], vec![]),
                Op::Values => ("values", 0, 0, vec![], vec![]),
            };
            ts.push((d.call, json!({"e":"call","th":d.th,"op":op,"k":k,"v":v,"ks":ks,"vs":vs,"res":d.res,"all":d.all})));
            ts.push((d.ret, json!({"e":"ret","th":d.th})));
        }
        ts.sort_by_key(|x| x.0);
        ev.extend(ts.into_iter().map(|x| x.1));
        ev
    }
    fn overlaps(&self) -> usize {
        let mut n = 0;
        for a in &self.done {
            for b in &self.done {
                if a.th < b.th && a.call < b.ret && b.call < a.ret {
                    n += 1;
                }
            }
        }
        n
    }
    /// A quick search for a linearization.  It decides nothing: it only puts the histories for which
    /// it finds none in front, so that the specification gets to judge them.
    fn plausible(&self) -> bool {
        fn go(h: &Hist, todo: &mut Vec<(usize, usize)>, m: &mut BTreeMap<i64, i64>, fuel: &mut u64) -> bool {
            if todo.is_empty() {
                return true;
            }
            if *fuel == 0 {
                return true;
            }
            *fuel -= 1;
            let first_ret = todo.iter().map(|(i, _)| h.done[*i].ret).min().unwrap();
            for x in 0..todo.len() {
                let (i, step) = todo[x];
                let d = &h.done[i];
                if d.call > first_ret {
                    continue;
                }
                let size = h.base as i64 + m.len() as i64;
                let mut n = m.clone();
                let mut steps = 1;
                let rem = |n: &mut BTreeMap<i64, i64>, k: u8| {
                    if h.light {
                        n.remove(&(k as i64));
                    }
                };
                let ok = match &d.op {
                    Op::Ins(k, v) => {
                        n.insert(*k as i64, *v);
                        d.res == 0
                    }
                    Op::Rem(k) => {
                        rem(&mut n, *k);
                        d.res == 0
                    }
                    Op::InsB(ks, vs) => {
                        steps = ks.len();
                        n.insert(ks[step] as i64, vs[step]);
                        d.res == 0
                    }
                    Op::RemB(ks) => {
                        steps = ks.len();
                        rem(&mut n, ks[step]);
                        d.res == 0
                    }
                    Op::Get(k) => d.res == m.get(&(*k as i64)).copied().unwrap_or(NONE),
                    Op::Len | Op::TrieLen => d.res == size,
                    Op::Empty => d.res == (size == 0) as i64,
                    Op::Values => d.res == size && d.all == m.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(),
                };
                if !ok {
                    continue;
                }
                let saved = todo.clone();
                if step + 1 < steps {
                    todo[x].1 += 1;
                } else {
                    todo.remove(x);
                }
                if go(h, todo, &mut n, fuel) {
                    return true;
                }
                *todo = saved;
            }
            false
        }
        let mut todo: Vec<(usize, usize)> = (0..self.done.len()).map(|i| (i, 0)).collect();
        go(self, &mut todo, &mut self.init.clone(), &mut 20_000)
    }
}

/// `total` histories are run; those that look wrong and the most contended ones go into the traces.
pub fn traces(out: &str, shards: u64, keep: usize, total: u64, big: u64, seed: u64, budget: u64) {
    let mut kept: Vec<(bool, usize, u64, Vec<Value>)> = vec![];
    let mut suspicious = 0;
    let mut sum_overlaps = 0usize;
    let t0 = std::time::Instant::now();
    let mut run = 0;
    // the ones with a growing table first; on a busy machine fewer of the others
    for j in (total..total + big).chain(0..total) {
        if run > 200 && t0.elapsed().as_secs() > budget {
            break;
        }
        run += 1;
        let mut rng = Rng::new(seed, 77_000_000 + j);
        let h = if j >= total {
            // 7/8 of a power of two entries: the next one makes the table grow
            run_history(&mut rng, Some((1u64 << (16 + j % 4)) / 8 * 7), 0)
        } else {
            let noise = if j % 50 == 0 { 20 } else { [0, 1, 2, 4][(j % 4) as usize] };
            run_history(&mut rng, None, noise)
        };
        let bad = !h.plausible();
        suspicious += bad as u64;
        sum_overlaps += h.overlaps();
        let o = h.overlaps();
        if bad || o > 0 {
            kept.push((!bad, usize::MAX - o, j, h.events()));
        }
        if suspicious > 40 {
            break;
        }
        if kept.len() > 8 * keep * shards as usize {
            kept.sort_by_key(|x| (x.0, x.1, x.2));
            kept.truncate(keep * shards as usize);
        }
    }
    kept.sort_by_key(|x| (x.0, x.1, x.2));
    kept.truncate(keep * shards as usize);
    for i in 0..shards as usize {
        let ev: Vec<Value> = kept.iter().skip(i).step_by(shards as usize).flat_map(|x| x.3.clone()).collect();
        write_ndjson(&format!("{out}{i}.ndjson"), &ev);
    }
    println!("{}", json!({"histories_run": run, "overlapping_pairs": sum_overlaps, "validated": kept.len()}));
}
