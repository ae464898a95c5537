//! M02: workers hold partial tries cut out of a full one; each keeps the root, answers for the
//! keys it was given, and refuses — unchanged — what it cannot compute.
use crate::common::*;
use simcore::refmpt::{self, Map, Nibs};
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::{TrieOpError, ValOrHash};
use mpt_trie::trie_subsets::{create_trie_subset, create_trie_subsets};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use simcore::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Get { w: usize, k: usize },
    Insert { w: usize, k: usize, v: Vec<u8> },
    Delete { w: usize, k: usize },
    Root { w: usize },
    Rebuild { w: usize },
    /// Cut a further subset out of worker w's trie and hand it over in a message.
    SubSubset { w: usize, keep: Vec<usize> },
    /// The worker dies; it restarts from its last checkpoint.
    Crash { w: usize },
    Checkpoint { w: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub standard: bool,
    pub shared_call: bool,
    pub keys: Vec<Nibs>,
    pub init: Vec<(usize, Vec<u8>)>,
    pub keeps: Vec<Vec<usize>>,
    pub ops: Vec<Op>,
}
#[derive(Clone)]
struct W<T> {
    t: T,
    model: Map,
    keep: BTreeSet<Nibs>,
}
pub struct M02;

/// Is a refusal to delete `k` legitimate: would the deletion leave a single, pruned, sibling?
fn orphan(model: &Map, keep: &BTreeSet<Nibs>, k: &Nibs) -> bool {
    let lcp = |a: &Nibs, b: &Nibs| a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let others: Vec<&Nibs> = model.keys().filter(|o| *o != k).collect();
    let Some(l) = others.iter().map(|o| lcp(o, k)).max() else { return false };
    let near: Vec<&&Nibs> = others.iter().filter(|o| lcp(o, k) == l).collect();
    let nib = near[0][l];
    if near.iter().any(|s| s[l] != nib) {
        return false;
    }
    let prefix = &near[0][..=l];
    !keep.iter().any(|x| x.len() > l && x[..=l] == *prefix)
}
fn items<T: PartialTrie>(t: &T) -> Vec<(Nibs, ValOrHash)> {
    t.items().map(|(k, v)| (from_nibbles(k), v)).collect()
}
fn run<T: PartialTrie + Serialize + DeserializeOwned>(p: &Plan, ctx: &mut Ctx) {
    let keys = &p.keys;
    let key = |k: usize| keys[k % keys.len()].clone();
    let mut full = T::default();
    let mut model = Map::new();
    for (k, v) in &p.init {
        full.insert(to_nibbles(&key(*k)), v.clone()).unwrap();
        model.insert(key(*k), v.clone());
    }
    let keeps: Vec<BTreeSet<Nibs>> = p.keeps.iter().map(|ks| ks.iter().map(|k| key(*k)).collect()).collect();
    let want = refmpt::root(&model);
    let as_nibs = |s: &BTreeSet<Nibs>| s.iter().map(|k| to_nibbles(k)).collect::<Vec<_>>();
    let tries: Vec<T> = if p.shared_call {
        match create_trie_subsets(&full, keeps.iter().map(as_nibs)) {
            Ok(v) => v,
            Err(e) => return ctx.fail("subset of a full trie refused", e.to_string()),
        }
    } else {
        let mut v = vec![];
        for k in &keeps {
            match create_trie_subset(&full, as_nibs(k)) {
                Ok(t) => v.push(t),
                Err(e) => return ctx.fail("subset of a full trie refused", e.to_string()),
            }
        }
        v
    };
    let mut ws: Vec<W<T>> = tries.into_iter().zip(&keeps).map(|(t, k)| W { t, model: model.clone(), keep: k.clone() }).collect();
    ws.push(W { t: full, model: model.clone(), keep: keys.iter().cloned().collect() });
    for (i, w) in ws.iter().enumerate() {
        if w.t.hash().0 != want {
            return ctx.fail("subset changes the root", format!("worker {i}"));
        }
        let pruned = w.t.items().filter(|(_, v)| matches!(v, ValOrHash::Hash(_))).count();
        ctx.fault_n("subtrees pruned away", pruned as u64);
    }
    let mut disk: Vec<W<T>> = ws.clone();
    for (i, op) in p.ops.iter().enumerate() {
        let n = ws.len();
        match op {
            Op::Get { w, k } => {
                let (c, k) = (&ws[w % n], key(*k));
                let (got, want) = (c.t.get(to_nibbles(&k)).map(|x| x.to_vec()), c.model.get(&k).cloned());
                let ok = got == want || (got.is_none() && !c.keep.contains(&k));
                if !ok {
                    return ctx.fail("wrong lookup", format!("op {i}: {got:?}, expected {want:?}, kept {}", c.keep.contains(&k)));
                }
                ctx.ev(format!("{i} get {:?}", got.map(|v| v.len())));
            }
            Op::Insert { w, k, v } => {
                let (c, k) = (&mut ws[w % n], key(*k));
                let before = (items(&c.t), c.t.hash());
                match c.t.insert(to_nibbles(&k), v.clone()) {
                    Ok(()) => {
                        c.model.insert(k.clone(), v.clone());
                        c.keep.insert(k);
                        let (got, want) = (c.t.hash(), refmpt::root(&c.model));
                        ctx.state(want);
                        if got.0 != want {
                            return ctx.fail("wrong root after insert", format!("op {i}"));
                        }
                        ctx.ev(format!("{i} insert ok"));
                    }
                    Err(e) => {
                        ctx.probe("insert refused");
                        if c.keep.contains(&k) {
                            return ctx.fail("insert of a kept key refused", format!("op {i}: {e}"));
                        }
                        if (items(&c.t), c.t.hash()) != before {
                            return ctx.fail("refused insert changed the trie", format!("op {i}: {e}"));
                        }
                        ctx.ev(format!("{i} insert refused"));
                    }
                }
            }
            Op::Delete { w, k } => {
                let (c, k) = (&mut ws[w % n], key(*k));
                let before = (items(&c.t), c.t.hash());
                match c.t.delete(to_nibbles(&k)) {
                    Ok(got) => {
                        let had = c.model.get(&k).cloned();
                        if got != had {
                            return ctx.fail("wrong delete result", format!("op {i}: {got:?}, expected {had:?}"));
                        }
                        if had.is_some() {
                            c.model.remove(&k);
                            ctx.probe("delete of present key");
                        }
                        let (got, want) = (c.t.hash(), refmpt::root(&c.model));
                        ctx.state(want);
                        if got.0 != want {
                            return ctx.fail("wrong root after delete", format!("op {i}"));
                        }
                        ctx.ev(format!("{i} delete ok"));
                    }
                    Err(e) => {
                        ctx.probe("delete refused");
                        let legit = !c.keep.contains(&k)
                            || (matches!(e, TrieOpError::ExtensionCollapsedIntoHashError(..)) && orphan(&c.model, &c.keep, &k));
                        if !legit {
                            return ctx.fail("delete of a kept key refused", format!("op {i}: {e}"));
                        }
                        if (items(&c.t), c.t.hash()) != before {
                            return ctx.fail("refused delete changed the trie", format!("op {i}: {e}"));
                        }
                        ctx.ev(format!("{i} delete refused"));
                    }
                }
            }
            Op::Root { w } => {
                let c = &ws[w % n];
                if c.t.hash().0 != refmpt::root(&c.model) {
                    return ctx.fail("wrong root", format!("op {i}"));
                }
            }
            Op::Rebuild { w } => {
                // hand over as a list of items and put together again
                let c = &mut ws[w % n];
                let mut t = T::default();
                let list = items(&c.t);
                let vals: Vec<Vec<u8>> = list.iter().filter_map(|(_, v)| v.as_val().cloned()).collect();
                for k in &c.keep {
                    if let Some(v) = c.model.get(k) {
                        if !list.iter().any(|(k2, v2)| k2 == k && v2.as_val() == Some(v)) {
                            return ctx.fail("iteration misses a kept key", format!("op {i}: {k:?}"));
                        }
                    }
                }
                for (k, v) in list {
                    let r = match v {
                        ValOrHash::Val(v) => t.insert(to_nibbles(&k), v),
                        ValOrHash::Hash(h) => t.insert(to_nibbles(&k), h),
                    };
                    if let Err(e) = r {
                        return ctx.fail("items of a trie cannot be put together", format!("op {i}: {e}"));
                    }
                }
                if t.hash() != c.t.hash() {
                    return ctx.fail("items of a trie make another trie", format!("op {i}: {} values", vals.len()));
                }
                c.t = t;
                ctx.ev(format!("{i} rebuilt"));
            }
            Op::SubSubset { w, keep } => {
                if n >= 8 {
                    continue;
                }
                let c = &ws[w % n];
                let keep: BTreeSet<Nibs> = keep.iter().map(|k| key(*k)).collect();
                match create_trie_subset(&c.t, as_nibs(&keep)) {
                    Ok(t) => {
                        if t.hash() != c.t.hash() {
                            return ctx.fail("subset changes the root", format!("op {i}"));
                        }
                        // the message is serialised
                        let b = serde_json::to_vec(&t).unwrap();
                        let t: T = serde_json::from_slice(&b).unwrap();
                        if t.hash() != c.t.hash() {
                            return ctx.fail("serialisation changes the trie", format!("op {i}"));
                        }
                        let keep = keep.intersection(&c.keep).cloned().collect();
                        let nw = W { t, model: c.model.clone(), keep };
                        ws.push(nw.clone());
                        disk.push(nw);
                        ctx.ev(format!("{i} subsubset"));
                    }
                    Err(_) => {
                        if keep.is_subset(&c.keep) {
                            return ctx.fail("subset of kept keys refused", format!("op {i}"));
                        }
                        ctx.ev(format!("{i} subsubset refused"));
                    }
                }
            }
            Op::Checkpoint { w } => {
                let i = w % n;
                disk[i] = ws[i].clone();
                let b = serde_json::to_vec(&disk[i].t).unwrap();
                disk[i].t = serde_json::from_slice(&b).unwrap();
            }
            Op::Crash { w } => {
                let i = w % n;
                ws[i] = disk[i].clone();
                ctx.fault("worker crash and restart");
                if ws[i].t.hash().0 != refmpt::root(&ws[i].model) {
                    return ctx.fail("checkpoint changes the trie", format!("worker {i}"));
                }
            }
        }
    }
    for c in &ws {
        ctx.ev(format!("{:x}", c.t.hash()));
        if c.t.hash().0 != refmpt::root(&c.model) {
            return ctx.fail("wrong final root", "");
        }
        for k in &c.keep {
            if c.t.get(to_nibbles(k)) != c.model.get(k).map(|v| v.as_slice()) {
                return ctx.fail("wrong lookup", format!("at the end: kept key {k:?}"));
            }
        }
    }
}
impl Property for M02 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "M02",
            level: "exploration",
            rule: "one seed = a full trie (up to 40 keys, six key shapes), 1..5 workers each given a subset by key set, and 20..100 interleaved operations incl. sub-subsets shipped as messages, item-wise rebuilds, crashes and restarts; both trie types. Non-trivial: at least one subtree was actually pruned or a worker crashed.",
            states_measure: "distinct trie roots reached after a successful mutation",
            real: &["mpt_trie::trie_subsets", "mpt_trie::trie_ops", "mpt_trie::partial_trie (both trie types)", "mpt_trie::trie_hashing", "serde of tries"],
            stubs: &["messages and checkpoints are in-memory buffers"],
            assumptions: &["no key in use is a prefix of another", "default orphan strategy (reject)", "reference root computed independently"],
            quick_runs: 30000,
            thorough_runs: 800000,
            quick_cap_s: 60,
            thorough_cap_s: 1500,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "M02", run);
        let n = r.range(2, 40) as usize;
        let (_, keys) = key_pool(&mut r, n);
        let dens = r.range(2, 8);
        let mut init = vec![];
        for i in 0..keys.len() {
            if r.chance(dens, 8) {
                init.push((i, value(&mut r)));
            }
        }
        r.shuffle(&mut init);
        let keeps: Vec<Vec<usize>> = (0..r.range(1, 5))
            .map(|_| {
                let d = r.below(6);
                (0..keys.len()).filter(|_| r.chance(d, 6)).collect()
            })
            .collect();
        let w: Vec<u64> = [14u64, 24, 24, 4, 5, 2, 2, 3].iter().map(|&x| if r.chance(1, 6) { 0 } else { x * r.range(1, 3) }).collect();
        let w = if w.iter().sum::<u64>() == 0 { vec![1; 8] } else { w };
        let ops = (0..r.range(20, 100))
            .map(|_| {
                let wk = r.idx(8);
                let k = r.idx(keys.len());
                match r.weighted(&w) {
                    0 => Op::Get { w: wk, k },
                    1 => Op::Insert { w: wk, k, v: value(&mut r) },
                    2 => Op::Delete { w: wk, k },
                    3 => Op::Root { w: wk },
                    4 => Op::Rebuild { w: wk },
                    5 => {
                        let d = r.below(6);
                        Op::SubSubset { w: wk, keep: (0..keys.len()).filter(|_| r.chance(d, 6)).collect() }
                    }
                    6 => Op::Crash { w: wk },
                    _ => Op::Checkpoint { w: wk },
                }
            })
            .collect();
        Plan { standard: r.chance(1, 5), shared_call: r.chance(1, 2), keys, init, keeps, ops }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        if p.standard {
            run::<StandardTrie>(p, ctx)
        } else {
            run::<HashedPartialTrie>(p, ctx)
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out: Vec<Plan> = drop_chunks(&p.ops).into_iter().map(|ops| Plan { ops, ..p.clone() }).collect();
        out.extend(drop_chunks(&p.init).into_iter().map(|init| Plan { init, ..p.clone() }));
        if p.keeps.len() > 1 {
            out.extend(drop_chunks(&p.keeps).into_iter().map(|keeps| Plan { keeps, ..p.clone() }));
        }
        out
    }
}
