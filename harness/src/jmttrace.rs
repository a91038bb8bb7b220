//! Random histories of the versioned tree, one flavour per property.
use crate::jmtdrv::*;
use crate::jmtreplay::{as_range, lefts};
use crate::util::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

pub fn start(rng: &mut Rng, overwrite: Option<bool>) -> Sess {
    let big = rng.chance(1, 6);
    let nput = if big { rng.range(9, 16) } else { rng.range(1, 8) };
    let nprobe = rng.range(1, 4);
    let mut u = gen_universe(rng, nput, nprobe);
    // a wide node now and then
    if rng.chance(1, 10) {
        let mut base = nibbles(&rng.bytes32());
        let at = rng.below(4);
        let mut ks = vec![];
        for x in 0..16u8 {
            if rng.chance(7, 8) {
                base[at] = x;
                let mut k = [0u8; 32];
                k.copy_from_slice(&from_nibbles(&base));
                ks.push(k);
            }
        }
        ks.extend(u.keys.iter().take(3).map(|k| k.0));
        u = Universe::new(ks);
    }
    let scale = SCALE.with(|c| c.get());
    if scale == Scale::Crowd {
        // more than 255 keys below one node, and some elsewhere
        let mut ks: Vec<[u8; 32]> = u.keys.iter().map(|k| k.0).collect();
        let base = nibbles(&rng.bytes32());
        let at = rng.below(3);
        let top = rng.range(258, 280);
        while ks.len() < top {
            let mut k = nibbles(&rng.bytes32());
            k[..at].copy_from_slice(&base[..at]);
            if rng.chance(1, 2) {
                k[at] = base[at];
            }
            ks.push(from_nibbles(&k).try_into().unwrap());
        }
        u = Universe::new(ks);
    } else if scale == Scale::Long {
        u = gen_universe(rng, 3, 1);
    }
    let first = if rng.chance(1, 5) { rng.range(1, 9) as i64 } else { 0 };
    let base = if first > 0 && rng.chance(1, 2) { 1u64 << rng.range(8, 60) } else { 0 };
    let ow = overwrite.unwrap_or(rng.chance(1, 3));
    let mut r2 = rng.clone();
    rng.next();
    let n = u.n();
    let mut ids: Vec<usize> = (1..=n).collect();
    r2.shuffle(&mut ids);
    let cutp = n - (n.saturating_sub(1)).min(nprobe);
    ids.truncate(cutp);
    let mut s = Sess::new(r2, u, base, first, ow);
    s.puts = ids;
    s
}

pub fn history(focus: &str, rng: &mut Rng) -> Vec<Value> {
    match focus {
        "C09" => return crate::jmtmore::c09(rng),
        "C10" | "C11" => return crate::jmtmore::restore(focus, rng),
        _ => {}
    }
    let mut s = start(rng, None);
    let nv = match s.scale {
        Scale::Small => s.rng.range(2, 7) as i64,
        Scale::Crowd => s.rng.range(3, 6) as i64,
        Scale::Long => s.rng.range(257, 275) as i64,
    };
    let mut opened: Vec<(i64, i64, jmt::JellyfishMerkleIterator<jmt::mock::MockTreeStore>)> = vec![];
    let mut nit = 0;
    while s.latest < s.first + nv - 1 && !s.dead {
        if (focus == "C02" || focus == "C05") && s.rng.chance(1, 3) {
            s.abandoned();
            if s.dead {
                break;
            }
        }
        if focus == "C05" && s.latest >= s.first && s.rng.chance(1, 4) {
            threaded_step(&mut s);
            continue;
        }
        let before = s.latest;
        let (u, _sets) = match s.step() {
            Some(x) => x,
            None => break,
        };
        let news: Vec<i64> = (before + 1..=s.latest).collect();
        if s.scale == Scale::Long && focus != "C07" && s.latest < s.first + nv - 4 && s.rng.chance(29, 30) {
            continue;
        }
        match focus {
            "C01" => {
                for v in news {
                    obs_reads(&mut s, v);
                }
                if s.rng.chance(1, 2) {
                    let v = s.rng.range(s.first as usize, s.latest as usize) as i64;
                    obs_reads(&mut s, v);
                }
                never(&mut s);
            }
            "C02" => {
                s.ev_roots(&u);
                for v in news {
                    s.ev_root(v);
                    if s.rng.chance(1, 2) {
                        rebuild(&mut s, v);
                    }
                }
                let v = s.rng.range(s.first as usize, s.latest as usize) as i64;
                s.ev_root(v);
            }
            "C03" => {
                for v in news {
                    for k in s.some_keys() {
                        s.ev_proof(v, k);
                    }
                }
                let v = s.rng.range(s.first as usize, s.latest as usize) as i64;
                let k = s.rng.range(1, s.u.n());
                s.ev_proof(v, k);
            }
            "C04" => {
                for v in news {
                    for _ in 0..6 {
                        claims(&mut s, v);
                    }
                }
            }
            "C05" => {
                s.ev_roots(&u);
                for v in news {
                    if s.rng.chance(1, 2) {
                        nit += 1;
                        let mode = *s.rng.pick(&["trie", "idx", "key"]);
                        let st = iter_start(&mut s, mode);
                        if let Out::Ok(i) = s.mk_iter(v, mode, st) {
                            s.emit(json!({"e":"iopen","it":nit,"v":v,"mode":mode,"start":st}));
                            opened.push((nit, v, i));
                        } else {
                            s.emit(json!({"e":"iopen","it":-1,"v":v,"mode":mode,"start":st}));
                        }
                    }
                }
                // advance some of the iterators that were opened earlier
                for _ in 0..s.rng.below(5) {
                    if !opened.is_empty() {
                        let i = s.rng.below(opened.len());
                        inext(&mut s, &mut opened, i);
                    }
                }
                let v = s.rng.range(s.first as usize, s.latest as usize) as i64;
                recheck(&mut s, v);
            }
            "C06" => {
                // store dump keeps the specification informed of what is there
                if s.latest > s.first && s.rng.chance(2, 5) {
                    let p = s.rng.range(s.pruned.max(s.first) as usize, s.latest as usize) as i64;
                    s.ev_prune(p);
                    for v in s.some_versions() {
                        if v >= s.pruned || s.rng.chance(2, 3) {
                            after_prune(&mut s, v);
                        }
                    }
                } else if s.pruned > s.first {
                    for v in news {
                        after_prune(&mut s, v);
                    }
                }
            }
            "C07" => {
                s.ev_upd(&u);
                for v in news {
                    s.ev_count(v);
                }
            }
            "C08" => {
                for v in news {
                    obs_iter(&mut s, v, 5);
                }
                let v = s.rng.range(s.first as usize, s.latest as usize) as i64;
                obs_iter(&mut s, v, 2);
            }
            "C12" => {
                s.ev_book();
                let w = s.rng.range(s.first as usize, s.latest as usize) as i64;
                let k = s.rng.range(1, s.u.n());
                let g = s.get(w, k);
                s.emit(json!({"e":"hget","v":w,"k":k,"val":g}));
                if s.rng.chance(1, 6) && s.latest > s.first {
                    let p = s.rng.range(s.pruned.max(s.first) as usize, s.latest as usize) as i64;
                    let (st, w) = (s.store.clone(), s.ver(p));
                    let _ = call(|| st.purge_stale_nodes(w));
                    s.pruned = s.pruned.max(p);
                    s.emit(json!({"e":"purged"}));
                    s.ev_book();
                }
            }
            _ => {}
        }
    }
    if !s.dead {
        match focus {
            "C05" => {
                while !opened.is_empty() {
                    let i = s.rng.below(opened.len());
                    inext(&mut s, &mut opened, i);
                }
                for v in s.some_versions() {
                    recheck(&mut s, v);
                }
            }
            "C02" => {
                for v in s.some_versions() {
                    s.ev_root(v);
                }
            }
            "C12" => raw_writes(&mut s),
            "C03" | "C07" | "C08" => {
                for v in s.some_versions() {
                    if s.scale == Scale::Long {
                        s.ev_count(v);
                        obs_iter(&mut s, v, 2);
                        let k = s.rng.range(1, s.u.n());
                        s.ev_proof(v, k);
                    }
                }
            }
            "C01" => {
                for v in s.some_versions() {
                    if s.rng.chance(1, 2) {
                        obs_reads(&mut s, v);
                    }
                }
            }
            _ => {}
        }
    }
    s.ev
}

/// Writes straight into the store, past the tree.
fn raw_writes(s: &mut Sess) {
    use borsh::{BorshDeserialize, BorshSerialize};
    use jmt::storage::{LeafNode, Node, NodeBatch, NodeKey, TreeReader, TreeWriter};
    if s.latest < s.first {
        return;
    }
    s.emit(json!({"e":"purged"}));
    let mut last: std::collections::HashMap<usize, i64> = Default::default();
    for (k, h) in jmt::db::VersionedDatabase::value_history(&s.store) {
        last.insert(s.u.id(&k) as usize, s.rel(h.last().map(|x| x.0 .0).unwrap_or(0)));
    }
    let write = |s: &Sess, b: NodeBatch| {
        let st = s.store.clone();
        call(|| TreeWriter::write_node_batch(&st, &b)).word()
    };
    for _ in 0..s.rng.range(2, 7) {
        match s.rng.below(5) {
            0..=2 => {
                let k = s.rng.range(1, s.u.n());
                let l = last.get(&k).copied().unwrap_or(s.first);
                let v = (l + [-2i64, -1, -1, 0, 0, 1, 3][s.rng.below(7)]).max(s.first);
                let val = if s.rng.chance(1, 3) || s.vals.is_empty() { NONE } else { s.rng.below(s.vals.len()) as i64 };
                let mut b = NodeBatch::default();
                let (w, key) = (s.ver(v), s.u.key(k));
                if val == NONE {
                    b.extend(vec![], vec![((w, key), None)]);
                } else {
                    b.insert_value(w, key, s.val(val));
                }
                let res = write(s, b);
                s.emit(json!({"e":"rawval","k":k,"v":v,"val":val,"res":res}));
                if res == "ok" {
                    last.insert(k, v);
                }
                for w in [v - 1, v, v + 1] {
                    if w >= s.first {
                        let g = s.get(w, k);
                        s.emit(json!({"e":"hget","v":w,"k":k,"val":g}));
                    }
                }
            }
            x => {
                let mut all: Vec<(NodeKey, Node)> = jmt::db::VersionedDatabase::nodes(&s.store).collect();
                all.sort_by_key(|a| a.0.try_to_vec().unwrap());
                let (mut nk, old) = all[s.rng.below(all.len())].clone();
                let node = if s.rng.chance(1, 4) { old } else { all[s.rng.below(all.len())].1.clone() };
                let mut had = 1;
                if s.rng.chance(1, 2) {
                    // the same place in a version to come
                    let mut b = nk.try_to_vec().unwrap();
                    let to = s.latest + s.rng.range(5, 9) as i64;
                    b[0..8].copy_from_slice(&s.ver(to).to_le_bytes());
                    nk = NodeKey::try_from_slice(&b).unwrap();
                    had = s.store.get_node_option(&nk).unwrap().is_some() as i64;
                }
                let id = |s: &mut Sess, n: Option<Node>| match n {
                    None => NONE,
                    Some(n) => s.hash_id(&sha(&n.try_to_vec().unwrap())),
                };
                let before = s.store.get_node_option(&nk).unwrap();
                let before = id(s, before);
                let (api, wrote, res, vk);
                if x == 3 {
                    let k = s.rng.range(1, s.u.n());
                    let v = s.rel(node_key_path(&nk).0);
                    if had == 0 && v < last.get(&k).copied().unwrap_or(v) {
                        continue;
                    }
                    let val = s.rng.below(s.vals.len().max(1)) as i64;
                    if s.vals.is_empty() {
                        continue;
                    }
                    let leaf = LeafNode::try_from_slice(&[s.u.key(k).0, sha(&s.val(val))].concat()).unwrap();
                    let (st, bytes, n2, l2) = (s.store.clone(), s.val(val), nk.clone(), leaf.clone());
                    res = call(|| st.put_leaf(n2, l2, bytes)).word();
                    api = "leaf";
                    wrote = id(s, Some(leaf.into()));
                    vk = Some((k, v, val));
                } else {
                    let mut b = NodeBatch::default();
                    b.insert_node(nk.clone(), node.clone());
                    res = write(s, b);
                    api = "batch";
                    wrote = id(s, Some(node));
                    vk = None;
                }
                let after = s.store.get_node_option(&nk).unwrap();
                let after = id(s, after);
                let ow = s.overwrite as i64;
                s.emit(json!({"e":"rawnode","api":api,"had":had,"overwrite":ow,"res":res,"before":before,"after":after,"wrote":wrote}));
                if let (Some((k, v, val)), "ok") = (vk, res) {
                    s.emit(json!({"e":"rawval","k":k,"v":v,"val":val,"res":"ok"}));
                    last.insert(k, v);
                }
            }
        }
        s.ev_book();
    }
}

fn obs_reads(s: &mut Sess, v: i64) {
    for k in s.some_keys() {
        s.ev_read(v, k);
    }
    s.ev_iter(v, "trie", 0);
}
fn never(s: &mut Sess) {
    let mut vs = vec![s.latest + 1, s.latest + 2, s.latest + 1000];
    if s.first > 0 {
        vs.push(s.first - 1);
        if s.base == 0 {
            vs.push(0);
        }
    }
    let v = *s.rng.pick(&vs);
    let k = s.rng.range(1, s.u.n());
    s.ev_nover(v, k);
}
fn iter_start(s: &mut Sess, mode: &str) -> i64 {
    match mode {
        "trie" => 0,
        "idx" => s.rng.range(0, s.u.n() + 1) as i64,
        _ => s.rng.range(0, s.u.n() + 1) as i64 - 1,
    }
}
fn obs_iter(s: &mut Sess, v: i64, n: usize) {
    let c = s.content_at(v).len() as i64;
    for i in 0..n {
        let mode = if i == 0 { "trie" } else { *s.rng.pick(&["idx", "key", "key"]) };
        let mut st = iter_start(s, mode);
        if mode == "idx" && s.rng.chance(1, 2) {
            st = (c + s.rng.below(3) as i64 - 1).max(0);
        }
        s.ev_iter(v, mode, st);
    }
}
fn recheck(s: &mut Sess, v: i64) {
    s.ev_root(v);
    let k = s.rng.range(1, s.u.n());
    s.ev_read(v, k);
    s.ev_proof(v, k);
    let mode = *s.rng.pick(&["trie", "idx", "key"]);
    let st = iter_start(s, mode);
    s.ev_iter(v, mode, st);
}
fn after_prune(s: &mut Sess, v: i64) {
    s.ev_root(v);
    s.ev_count(v);
    for k in s.some_keys() {
        if s.rng.chance(1, 2) {
            s.ev_read(v, k);
        }
    }
    let k = s.rng.range(1, s.u.n());
    s.ev_proof(v, k);
    s.ev_iter(v, "trie", 0);
    let st = iter_start(s, "key");
    s.ev_iter(v, "key", st);
    let st = iter_start(s, "idx");
    s.ev_iter(v, "idx", st);
}
fn inext(s: &mut Sess, opened: &mut Vec<(i64, i64, jmt::JellyfishMerkleIterator<jmt::mock::MockTreeStore>)>, i: usize) {
    let (id, _v, it) = &mut opened[i];
    let id = *id;
    let r = call(|| match it.next() {
        None => Ok(None),
        Some(Ok(x)) => Ok(Some(x)),
        Some(Err(_)) => Err(()),
    });
    let (out, done) = match r {
        Out::Ok(Some((k, v))) => (json!([s.u.id(&k), s.vid(&Some(v))]), false),
        Out::Ok(None) => (json!([]), true),
        Out::Err => (json!([ERR, ERR]), true),
        Out::Panic => (json!([PANIC, PANIC]), true),
    };
    s.emit(json!({"e":"inext","it":id,"out":out}));
    if done {
        opened.remove(i);
    }
}

/// The same contents written into a fresh tree through another path must give the same root.
fn rebuild(s: &mut Sess, v: i64) {
    let c = s.content_at(v);
    let store = jmt::mock::MockTreeStore::new(true);
    let tree = Tree::new(Arc::new(store.clone()));
    let mut items: Vec<(usize, i64)> = c.iter().map(|(k, v)| (*k, *v)).collect();
    s.rng.shuffle(&mut items);
    // extra keys that are written and removed again
    let extra: Vec<usize> = (1..=s.u.n()).filter(|k| !c.contains_key(k)).collect();
    let how = s.rng.below(4);
    let mut sets: Vec<Vec<(jmt::KeyHash, Option<Vec<u8>>)>> = vec![];
    let kv = |s: &Sess, k: usize, v: i64| (s.u.key(k), Some(s.val(v)));
    match how {
        0 => sets.push(items.iter().map(|(k, v)| kv(s, *k, *v)).collect()),
        1 => {
            for (k, v) in &items {
                sets.push(vec![kv(s, *k, *v)]);
            }
        }
        _ => {
            let mut a: Vec<_> = vec![];
            for k in &extra {
                a.push((s.u.key(*k), Some(vec![7, 7, *k as u8])));
            }
            let (x, y) = items.split_at(items.len() / 2);
            for (k, v) in x {
                a.push(kv(s, *k, *v));
            }
            sets.push(a);
            let mut b: Vec<_> = extra.iter().map(|k| (s.u.key(*k), None)).collect();
            for (k, v) in y {
                b.push(kv(s, *k, *v));
            }
            s.rng.shuffle(&mut b);
            sets.push(b);
        }
    }
    if sets.is_empty() {
        sets.push(vec![]);
    }
    let r = if how == 0 && !items.is_empty() && s.rng.chance(1, 2) {
        let plain: Vec<Vec<(jmt::KeyHash, Vec<u8>)>> =
            sets.iter().map(|x| x.iter().map(|(k, v)| (*k, v.clone().unwrap())).collect()).collect();
        call(|| tree.batch_put_value_sets(plain, None, 0).map(|x| x.0))
    } else if s.rng.chance(1, 2) {
        call(|| tree.put_value_sets(sets.clone(), 0).map(|x| x.0))
    } else {
        call(|| {
            let mut out = vec![];
            for (i, set) in sets.iter().enumerate() {
                let (r, b) = tree.put_value_set(set.clone(), i as u64)?;
                store.write_tree_update_batch(b)?;
                out.push(r);
            }
            Ok::<_, anyhow::Error>(out)
        })
    };
    let id = match r {
        Out::Ok(rs) => s.hash_id(&rs.last().unwrap().0),
        o => o.code(),
    };
    s.emit(json!({"e":"rebuild","v":v,"root":id,"how":how}));
}

/// Honest and tampered proofs, each tried against a claim.
fn claims(s: &mut Sess, v: i64) {
    let n = s.u.n();
    let k0 = s.rng.range(1, n);
    let t = s.tree.clone();
    let get = |s: &Sess, v: i64, k: usize| {
        let (w, key) = (s.ver(v), s.u.key(k));
        match call(|| t.get_with_proof(key, w)) {
            Out::Ok((_, p)) => Some(p),
            _ => None,
        }
    };
    let p = match get(s, v, k0) {
        Some(p) => p,
        None => {
            s.emit(json!({"e":"claim","v":v,"k":k0,"val":0,"res":"noproof","how":"none"}));
            return;
        }
    };
    let mut leaf = p.leaf().map(|l| leaf_bytes(&l));
    let mut sibs: Vec<[u8; 32]> = p.siblings().to_vec();
    let other_k = s.rng.range(1, n);
    let other_v = s.rng.range(s.first as usize, s.latest as usize) as i64;
    let ov = if s.rng.chance(1, 2) { v } else { other_v };
    let other = get(s, ov, other_k);
    let mut how = vec![];
    let steps = if s.rng.chance(1, 4) { 0 } else { s.rng.range(1, 2) };
    let mut claim_k = k0;
    for _ in 0..steps {
        let m = s.rng.below(15);
        how.push(m);
        match m {
            0 if !sibs.is_empty() => {
                sibs.remove(0);
            }
            1 if !sibs.is_empty() => {
                sibs.pop();
            }
            2 if !sibs.is_empty() => {
                let i = s.rng.below(sibs.len());
                let b = s.rng.below(32);
                sibs[i][b] ^= 1 << s.rng.below(8);
            }
            3 if sibs.len() > 1 => {
                let i = s.rng.below(sibs.len() - 1);
                sibs.swap(i, i + 1);
            }
            4 => {
                let i = s.rng.below(sibs.len() + 1);
                sibs.insert(i, PLACEHOLDER);
            }
            5 => leaf = None,
            6 => {
                if let Some(o) = &other {
                    leaf = o.leaf().map(|l| leaf_bytes(&l));
                }
            }
            7 => {
                if let Some(o) = &other {
                    sibs = o.siblings().to_vec();
                }
            }
            8 => {
                // fold the leaf into its parent: an inner node passed off as a leaf position
                if let (Some((k, vh)), false) = (leaf, sibs.is_empty()) {
                    let h = h_leaf(&k, &vh);
                    let sib = sibs.remove(0);
                    let bit = p.siblings().len();
                    let _ = (h, bit);
                    leaf = Some((sib, h));
                }
            }
            9 => {
                // claim the stored leaf for another key
                if let Some((_, vh)) = leaf {
                    leaf = Some((s.u.key(other_k).0, vh));
                }
            }
            10 => {
                let target = [255usize, 256, 257, 300][s.rng.below(4)];
                while sibs.len() < target {
                    sibs.push(PLACEHOLDER);
                }
            }
            11 => claim_k = other_k,
            12 => {
                if let Some((k, _)) = leaf {
                    let b = s.rng.below(s.vals.len()) as i64;
                    leaf = Some((k, sha(&s.val(b))));
                }
            }
            13 if !sibs.is_empty() => {
                let i = s.rng.below(sibs.len());
                sibs.truncate(i);
            }
            14 => {
                // hang the sibling subtree's hash in place of the leaf
                leaf = None;
                if !sibs.is_empty() && s.rng.chance(1, 2) {
                    sibs.remove(0);
                }
            }
            _ => {}
        }
    }
    let q = mk_proof(leaf, &sibs);
    let rv = if s.rng.chance(1, 6) { other_v } else { v };
    let root = s.roots[&rv];
    // every claim that could be made for a few keys with this proof
    let mut ks = vec![claim_k];
    if s.rng.chance(1, 2) {
        ks.push(other_k);
    }
    if let Some((k, _)) = leaf {
        let id = s.u.id(&jmt::KeyHash(k));
        if id > 0 {
            ks.push(id as usize);
        }
    }
    ks.sort();
    ks.dedup();
    for k in ks {
        let key = s.u.key(k);
        let mut vals: Vec<i64> = vec![NONE];
        let cur = s.content_at(rv).get(&k).copied();
        if let Some(c) = cur {
            vals.push(c);
        }
        if !s.vals.is_empty() {
            vals.push(s.rng.below(s.vals.len()) as i64);
            if let Some((_, vh)) = leaf {
                if let Some(x) = s.vh_id.get(&vh) {
                    vals.push(*x);
                }
            }
        }
        vals.sort();
        vals.dedup();
        for val in vals {
            let honest = steps == 0 && rv == v && k == k0 && cur.unwrap_or(NONE) == val;
            let res = if val == NONE {
                let a = call(|| q.verify::<Vec<u8>>(root, key, None)).word();
                let b = call(|| q.verify_nonexistence(root, key)).word();
                if a == b { a } else { "differ" }
            } else {
                let x = s.val(val);
                let a = call(|| q.verify(root, key, Some(&x))).word();
                let b = call(|| q.verify_existence(root, key, &x)).word();
                // the same claim as a range proof that ends in this leaf
                let c = match q.leaf() {
                    Some(l) if leaf_bytes(&l) == (key.0, sha(&x)) => call(|| as_range(&q, 0).verify(root, l, lefts(&q, 0))).word(),
                    _ => a,
                };
                if a == b && a == c { a } else if c == "panic" { c } else { "differ" }
            };
            s.emit(json!({"e":"claim","v":rv,"k":k,"val":val,"res":res,"honest":honest as i64,"how":how}));
        }
    }
}

/// Commits on this thread while other threads read.
fn threaded_step(s: &mut Sess) {
    let (sets, api) = s.gen_sets(s.latest);
    let upd = match s.compute(s.latest + 1, &sets, api, true) {
        Some(u) => u,
        None => return,
    };
    let lo0 = s.latest;
    let hi0 = s.latest + sets.len() as i64;
    let lo = Arc::new(AtomicI64::new(lo0)); // committed for sure
    let mut handles = vec![];
    let go = Arc::new(std::sync::Barrier::new(4));
    for th in 0..3u64 {
        let (tree, lo, go) = (s.tree.clone(), lo.clone(), go.clone());
        let mut rng = Rng::new(s.rng.next(), th);
        let keys = s.u.keys.clone();
        let (first, base) = (s.first, s.base);
        let store = s.store.clone();
        handles.push(std::thread::spawn(move || {
            let mut out = vec![];
            go.wait();
            for _ in 0..12 {
                let v = if rng.chance(1, 2) { rng.range(lo0 as usize, hi0 as usize) as i64 } else { rng.range(first as usize, hi0 as usize) as i64 };
                let w = (base as i128 + v as i128) as u64;
                let a = lo.load(Ordering::SeqCst);
                if rng.chance(1, 4) {
                    let r = call(|| -> Result<Vec<(jmt::KeyHash, Vec<u8>)>, ()> {
                        let it = jmt::JellyfishMerkleIterator::new(Arc::new(store.clone()), w, jmt::KeyHash([0; 32])).map_err(|_| ())?;
                        let mut o = vec![];
                        for x in it {
                            o.push(x.map_err(|_| ())?);
                        }
                        Ok(o)
                    });
                    out.push((v, a, 0usize, None, Some(r)));
                } else {
                    let k = rng.range(1, keys.len());
                    use jmt::trie::VersionedTrie;
                    let g = call(|| tree.get(keys[k - 1], w));
                    let p = call(|| tree.get_with_proof(keys[k - 1], w).map(|x| x.0));
                    out.push((v, a, k, Some((g, p)), None));
                }
            }
            out
        }));
    }
    go.wait();
    let (store, b) = (s.store.clone(), upd.batch.clone());
    let o = call(|| store.write_tree_update_batch(b));
    lo.store(hi0, Ordering::SeqCst);
    let res = o.word();
    let outs: Vec<_> = handles.into_iter().map(|h| h.join().expect("reader thread")).collect();
    s.emit(json!({"e":"stored","res":res}));
    if res != "ok" {
        s.dead = true;
        return;
    }
    let mut c = s.content_at(upd.first - 1);
    for (i, set) in sets.iter().enumerate() {
        c = Sess::apply(&c, set);
        s.cs.insert(upd.first + i as i64, c.clone());
        s.roots.insert(upd.first + i as i64, upd.roots[i]);
    }
    s.latest = hi0;
    s.ev_roots(&upd);
    for o in outs {
        for (v, a, k, rd, it) in o {
            if let Some((g, p)) = rd {
                let f = |s: &Sess, o: Out<Option<Vec<u8>>>| match o {
                    Out::Ok(x) => s.vid(&x),
                    o => o.code(),
                };
                let (g, p) = (f(s, g), f(s, p));
                s.emit(json!({"e":"tread","v":v,"lo":a,"k":k,"get":g,"gwp":p}));
            }
            if let Some(r) = it {
                let (st, items) = match r {
                    Out::Ok(o) => ("end", o),
                    Out::Err => ("err", vec![]),
                    Out::Panic => ("panic", vec![]),
                };
                let out: Vec<(i64, i64)> = items.into_iter().map(|(k, v)| (s.u.id(&k), s.vid(&Some(v)))).collect();
                s.emit(json!({"e":"titer","v":v,"lo":a,"st":st,"out":out}));
            }
        }
    }
}
