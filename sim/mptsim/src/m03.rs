//! M03: a trie is assembled from per-key proofs that arrive lossily; whatever arrives, it is a
//! partial view of the claimed trie and nothing else, and with the proofs of the block before and
//! after delivered, the block's changes can be replayed on it.
use crate::common::value;
use simcore::refmpt::{self, Map, Nibs};
use mpt_trie::builder::PartialTrieBuilder;
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie};
use mpt_trie::trie_ops::TrieOpError;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fate {
    Deliver,
    Lose,
    /// Nodes of this proof that get lost (by index modulo length).
    LoseNode(usize),
    Duplicate,
    /// One byte of one node is flipped on the way.
    Corrupt(usize, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub keys: Vec<Nibs>,
    pub init: Vec<(usize, Vec<u8>)>,
    /// Changes of the block: new value, or deletion.
    pub changes: Vec<(usize, Option<Vec<u8>>)>,
    pub reads: Vec<usize>,
    /// Order and fate of the proof messages (index into touched keys).
    pub msgs: Vec<(usize, Fate)>,
    /// Stale proofs from the later block are mixed in as if from this one.
    pub stale: Vec<usize>,
}
pub struct M03;

impl Property for M03 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "M03",
            level: "exploration",
            rule: "one seed = a trie of up to 60 32-byte keys, a block of up to 20 changes, and one proof message per touched key, delivered reordered, duplicated, lost, with lost nodes or with a flipped byte, mixed with proofs of the wrong block. Non-trivial: at least one message was not delivered plainly.",
            states_measure: "distinct (claimed root, delivered key set) pairs",
            real: &["mpt_trie::builder", "mpt_trie::partial_trie", "mpt_trie::trie_ops"],
            stubs: &["the RPC node serving proofs is a reference trie written from the yellow paper"],
            assumptions: &["64-nibble keys and values of at least 32 bytes, as in Ethereum's state tries (no inlined nodes)"],
            quick_runs: 40000,
            thorough_runs: 800000,
            quick_cap_s: 50,
            thorough_cap_s: 1200,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "M03", run);
        let n = r.range(2, 60) as usize;
        let mode = r.below(4);
        let mut keys: Vec<Nibs> = vec![];
        while keys.len() < n {
            let mut k: Nibs = (0..64).map(|_| r.below(16) as u8).collect();
            match mode {
                0 => {}
                1 => {
                    k[0] = r.below(2) as u8;
                    k[1] = r.below(2) as u8;
                    k[2] = r.below(3) as u8;
                }
                _ => {
                    if !keys.is_empty() && r.chance(4, 5) {
                        let o = r.pick(&keys).clone();
                        let c = *r.pick(&[1usize, 1, 2, 2, 3, 3, 5, 8, 30, 50]);
                        k[..c].copy_from_slice(&o[..c]);
                    }
                }
            }
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        let val = |r: &mut Rng| {
            let mut v = value(r);
            v.resize(v.len().max(32), 7);
            v
        };
        let dens = r.range(3, 8);
        let mut init = vec![];
        for i in 0..n {
            if r.chance(dens, 8) {
                init.push((i, val(&mut r)));
            }
        }
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let nc = r.range(1, 20).min(n as u64) as usize;
        let del = r.below(5);
        let changes: Vec<_> = order[..nc].iter().map(|&k| (k, if r.chance(del, 5) { None } else { Some(val(&mut r)) })).collect();
        let reads: Vec<usize> = order[nc..].iter().copied().filter(|_| r.chance(1, 4)).collect();
        let touched = changes.len() + reads.len();
        let faulty = r.below(4);
        let mut msgs: Vec<(usize, Fate)> = (0..touched)
            .map(|i| {
                let f = if faulty == 0 || r.chance(3, 4) {
                    Fate::Deliver
                } else {
                    match r.below(4) {
                        0 => Fate::Lose,
                        1 => Fate::LoseNode(r.idx(6)),
                        2 => Fate::Duplicate,
                        _ => Fate::Corrupt(r.idx(6), r.idx(600)),
                    }
                };
                (i, f)
            })
            .collect();
        r.shuffle(&mut msgs);
        let stale = if r.chance(1, 3) { (0..n).filter(|_| r.chance(1, 5)).collect() } else { vec![] };
        Plan { keys, init, changes, reads, msgs, stale }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let pre: Map = p.init.iter().map(|(k, v)| (p.keys[*k].clone(), v.clone())).collect();
        let mut post = pre.clone();
        for (k, v) in &p.changes {
            match v {
                Some(v) => drop(post.insert(p.keys[*k].clone(), v.clone())),
                None => drop(post.remove(&p.keys[*k])),
            }
        }
        let touched: Vec<&Nibs> = p.changes.iter().map(|(k, _)| *k).chain(p.reads.iter().copied()).map(|k| &p.keys[k]).collect();
        let (root_pre, root_post) = (refmpt::root(&pre), refmpt::root(&post));
        let mut b = PartialTrieBuilder::<HashedPartialTrie>::new(root_pre.into(), HashMap::new());
        let mut have: BTreeSet<Nibs> = BTreeSet::new();
        let mut have_nodes: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut all_clean = true;
        for (i, fate) in &p.msgs {
            let Some(k) = touched.get(*i) else { continue };
            let (before, after) = (refmpt::proof(&pre, k), refmpt::proof(&post, k));
            let mut send = before.clone();
            match fate {
                Fate::Deliver => {}
                Fate::Lose => {
                    ctx.fault("proof lost");
                    all_clean = false;
                    continue;
                }
                Fate::LoseNode(j) => {
                    ctx.fault("proof node lost");
                    let j = j % send.len().max(1);
                    if send.is_empty() {
                        continue;
                    }
                    send.remove(j);
                    all_clean = false;
                }
                Fate::Duplicate => {
                    ctx.fault("proof duplicated");
                    b.insert_proof(send.clone());
                    b.insert_short_node_variants_from_proof(after.clone());
                }
                Fate::Corrupt(j, at) => {
                    ctx.fault("proof node corrupted");
                    let j = j % send.len().max(1);
                    if send.is_empty() {
                        continue;
                    }
                    let at = at % send[j].len();
                    send[j][at] ^= 1 << (at % 8);
                    all_clean = false;
                }
            }
            have_nodes.extend(send.iter().cloned());
            b.insert_proof(send);
            b.insert_short_node_variants_from_proof(after);
        }
        for k in &p.stale {
            ctx.fault("proof of another block delivered");
            let pr = refmpt::proof(&post, &p.keys[*k]);
            have_nodes.extend(pr.iter().cloned());
            b.insert_proof(pr);
        }
        for k in &p.keys {
            if refmpt::proof(&pre, k).iter().all(|n| have_nodes.contains(n)) {
                have.insert(k.clone());
            }
        }
        ctx.ev(format!("{} of {} keys provable", have.len(), p.keys.len()));
        ctx.state(format!("{root_pre:?}{have:?}"));
        let mut t = b.build();
        if t.hash().0 != root_pre {
            return ctx.fail("assembled trie has another root", "");
        }
        for k in &p.keys {
            let (got, want) = (t.get(crate::common::to_nibbles(k)).map(|v| v.to_vec()), pre.get(k).cloned());
            if got != want && (have.contains(k) || got.is_some()) {
                return ctx.fail("assembled trie answers wrongly", format!("{k:?}: {got:?}, expected {want:?}, fully proved {}", have.contains(k)));
            }
        }
        // replay the block: insertions and updates first, then deletions
        let mut now = pre.clone();
        for (k, v) in p.changes.iter().filter(|c| c.1.is_some()).chain(p.changes.iter().filter(|c| c.1.is_none())) {
            let k = &p.keys[*k];
            match v {
                Some(v) => match t.insert(crate::common::to_nibbles(k), v.clone()) {
                    Ok(()) => drop(now.insert(k.clone(), v.clone())),
                    Err(e) if have.contains(k) => return ctx.fail("change to a proved key refused", e.to_string()),
                    Err(_) => ctx.probe("insert refused"),
                },
                None => match t.delete(crate::common::to_nibbles(k)) {
                    Ok(got) => {
                        if got != now.remove(k) {
                            return ctx.fail("wrong delete result", format!("{k:?}"));
                        }
                        ctx.probe("delete replayed");
                    }
                    Err(e) => {
                        ctx.probe("delete refused");
                        let pruned_branch = matches!(e, TrieOpError::ExtensionCollapsedIntoHashError(..)) && sibling_is_branch(&now, k);
                        if all_clean && !pruned_branch {
                            return ctx.fail("deletion refused although both blocks' proofs are there", e.to_string());
                        }
                        if have.contains(k) && !matches!(e, TrieOpError::ExtensionCollapsedIntoHashError(..)) {
                            return ctx.fail("deletion of a proved key refused", e.to_string());
                        }
                    }
                },
            }
            if t.hash().0 != refmpt::root(&now) {
                return ctx.fail("wrong root while replaying the block", format!("{k:?}"));
            }
        }
        if now == post {
            ctx.probe("block fully replayed");
            if t.hash().0 != root_post {
                return ctx.fail("wrong root after the block", "");
            }
        }
        ctx.ev(format!("{:x}", t.hash()));
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        out.extend(drop_chunks(&p.init).into_iter().map(|init| Plan { init, ..p.clone() }));
        out.extend(drop_chunks(&p.stale).into_iter().map(|stale| Plan { stale, ..p.clone() }));
        for i in 0..p.msgs.len() {
            if p.msgs[i].1 != Fate::Deliver {
                let mut q = p.clone();
                q.msgs[i].1 = Fate::Deliver;
                out.push(q);
            }
        }
        out
    }
}
/// After deleting `k`, would its branch be left with one child that is itself a branch?
fn sibling_is_branch(now: &Map, k: &Nibs) -> bool {
    let lcp = |a: &Nibs, b: &Nibs| a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let others: Vec<&Nibs> = now.keys().filter(|o| *o != k).collect();
    let Some(l) = others.iter().map(|o| lcp(o, k)).max() else { return false };
    let near: Vec<&&Nibs> = others.iter().filter(|o| lcp(o, k) == l).collect();
    near.iter().all(|s| s[l] == near[0][l]) && near.iter().any(|s| s[l + 1] != near[0][l + 1])
}
