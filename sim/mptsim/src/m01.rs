//! M01: a trie behaves as a map with a canonical root, for every history of interleaved clients
//! that share structure, hash, checkpoint and crash.
use crate::common::*;
use simcore::refmpt::{self, Map, Nibs};
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie};
use mpt_trie::trie_ops::ValOrHash;
use serde::{Deserialize, Serialize};
use simcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert { h: usize, k: usize, v: Vec<u8> },
    Extend { h: usize, kv: Vec<(usize, Vec<u8>)> },
    Delete { h: usize, k: usize },
    Get { h: usize, k: usize },
    Hash { h: usize },
    Fork { h: usize },
    Drop { h: usize },
    Items { h: usize },
    /// Write handle h to its durable slot (format 0 JSON, 1 CBOR).
    Checkpoint { h: usize, fmt: u8 },
    /// The client dies; it restarts from its durable slot (or empty).
    Crash { h: usize },
    /// The checkpoint write is torn after `keep`/256 of its bytes, and the client dies.
    TornCheckpoint { h: usize, keep: u8, fmt: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub keys: Vec<Nibs>,
    pub ops: Vec<Op>,
}
struct Client {
    trie: HashedPartialTrie,
    model: Map,
    disk: Option<(Vec<u8>, u8, Map)>,
}
pub struct M01;

fn ser(t: &HashedPartialTrie, fmt: u8) -> Vec<u8> {
    if fmt == 0 {
        serde_json::to_vec(t).unwrap()
    } else {
        let mut o = vec![];
        ciborium::into_writer(t, &mut o).unwrap();
        o
    }
}
fn de(b: &[u8], fmt: u8) -> Result<HashedPartialTrie, String> {
    if fmt == 0 {
        serde_json::from_slice(b).map_err(|e| e.to_string())
    } else {
        ciborium::from_reader(b).map_err(|e| e.to_string())
    }
}
fn audit(ctx: &mut Ctx, who: usize, c: &Client, keys: &[Nibs]) {
    let got = c.trie.hash();
    let want = refmpt::root(&c.model);
    if got.0 != want {
        return ctx.fail("wrong root", format!("client {who}: root {got:x}, but its contents have root {}", hexs(&want)));
    }
    for k in keys {
        let got = c.trie.get(to_nibbles(k));
        if got != c.model.get(k).map(|v| v.as_slice()) {
            return ctx.fail("wrong lookup", format!("client {who}: key {k:?} gives {got:?}, expected {:?}", c.model.get(k)));
        }
    }
}
fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl Property for M01 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "M01",
            level: "exploration",
            rule: "one seed = one plan of 20..120 operations by up to 6 clients over a pool of up to 40 keys (six key shapes); clients fork and share trie structure, interleave, checkpoint, crash, restart and tear checkpoints. Non-trivial: at least one crash, torn checkpoint, fork or delete of a present key happened.",
            states_measure: "distinct trie roots audited against the reference",
            real: &["mpt_trie::partial_trie", "mpt_trie::trie_ops", "mpt_trie::trie_hashing", "mpt_trie::nibbles", "serde of tries"],
            stubs: &["the clients' durable slot is an in-memory buffer with torn writes"],
            assumptions: &["no key in use is a prefix of another (Ethereum's tries)", "values are non-empty", "reference root computed independently from the yellow paper"],
            quick_runs: 24000,
            thorough_runs: 600000,
            quick_cap_s: 60,
            thorough_cap_s: 1500,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "M01", run);
        let n = r.range(2, 40) as usize;
        let (_, keys) = key_pool(&mut r, n);
        let n_ops = r.range(20, 120);
        // swarm: each run has its own operation mix
        let w: Vec<u64> = [30u64, 6, 24, 4, 10, 6, 2, 2, 4, 2, 1].iter().map(|&x| if r.chance(1, 5) { 0 } else { x * r.range(1, 3) }).collect();
        let w = if w.iter().take(2).sum::<u64>() == 0 { vec![30, 6, 24, 4, 10, 6, 2, 2, 4, 2, 1] } else { w };
        let ops = (0..n_ops)
            .map(|_| {
                let h = r.idx(6);
                let k = r.idx(keys.len());
                match r.weighted(&w) {
                    0 => Op::Insert { h, k, v: value(&mut r) },
                    1 => Op::Extend { h, kv: (0..r.range(1, 8)).map(|_| (r.idx(keys.len()), value(&mut r))).collect() },
                    2 => Op::Delete { h, k },
                    3 => Op::Get { h, k },
                    4 => Op::Hash { h },
                    5 => Op::Fork { h },
                    6 => Op::Drop { h },
                    7 => Op::Items { h },
                    8 => Op::Checkpoint { h, fmt: r.below(2) as u8 },
                    9 => Op::Crash { h },
                    _ => Op::TornCheckpoint { h, keep: r.below(256) as u8, fmt: r.below(2) as u8 },
                }
            })
            .collect();
        Plan { keys, ops }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let mut cs = vec![Client { trie: HashedPartialTrie::default(), model: Map::new(), disk: None }];
        let keys = &p.keys;
        let key = |k: usize| keys[k % keys.len()].clone();
        for (i, op) in p.ops.iter().enumerate() {
            let n = cs.len();
            match op {
                Op::Insert { h, k, v } => {
                    let c = &mut cs[h % n];
                    if let Err(e) = c.trie.insert(to_nibbles(&key(*k)), v.clone()) {
                        return ctx.fail("insert failed", e.to_string());
                    }
                    c.model.insert(key(*k), v.clone());
                }
                Op::Extend { h, kv } => {
                    let c = &mut cs[h % n];
                    if let Err(e) = c.trie.extend(kv.iter().map(|(k, v)| (to_nibbles(&key(*k)), v.clone()))) {
                        return ctx.fail("extend failed", e.to_string());
                    }
                    for (k, v) in kv {
                        c.model.insert(key(*k), v.clone());
                    }
                }
                Op::Delete { h, k } => {
                    let c = &mut cs[h % n];
                    let want = c.model.remove(&key(*k));
                    if want.is_some() {
                        ctx.probe("delete of present key");
                        ctx.nontrivial = true;
                    }
                    match c.trie.delete(to_nibbles(&key(*k))) {
                        Ok(got) if got == want => {}
                        Ok(got) => return ctx.fail("wrong delete result", format!("op {i}: {got:?}, expected {want:?}")),
                        Err(e) => return ctx.fail("delete failed", format!("op {i}: {e}")),
                    }
                }
                Op::Get { h, k } => {
                    let c = &cs[h % n];
                    let got = c.trie.get(to_nibbles(&key(*k))).map(|x| x.to_vec());
                    if got.as_ref() != c.model.get(&key(*k)) || c.trie.contains(to_nibbles(&key(*k))) != got.is_some() {
                        return ctx.fail("wrong lookup", format!("op {i}: {got:?}, expected {:?}", c.model.get(&key(*k))));
                    }
                }
                Op::Hash { h } => {
                    let c = &cs[h % n];
                    let (got, want) = (c.trie.hash(), refmpt::root(&c.model));
                    ctx.state(want);
                    if got.0 != want {
                        return ctx.fail("wrong root", format!("op {i}: {got:x}, contents have {}", hexs(&want)));
                    }
                }
                Op::Fork { h } => {
                    if n < 6 {
                        let c = &cs[h % n];
                        let f = Client { trie: c.trie.clone(), model: c.model.clone(), disk: None };
                        cs.push(f);
                        ctx.probe("fork");
                        ctx.nontrivial = true;
                    }
                }
                Op::Drop { h } => {
                    if n > 1 {
                        cs.remove(h % n);
                    }
                }
                Op::Items { h } => {
                    let c = &cs[h % n];
                    let got: Vec<(Nibs, Vec<u8>)> = c
                        .trie
                        .items()
                        .map(|(k, v)| match v {
                            ValOrHash::Val(v) => (from_nibbles(k), v),
                            ValOrHash::Hash(h) => (from_nibbles(k), h.0.to_vec()),
                        })
                        .collect();
                    let want: Vec<(Nibs, Vec<u8>)> = c.model.clone().into_iter().collect();
                    if got != want {
                        return ctx.fail("wrong iteration", format!("op {i}: {got:?} expected {want:?}"));
                    }
                    if c.trie.keys().count() != want.len() || c.trie.values().count() != want.len() {
                        return ctx.fail("wrong iteration", "keys()/values() disagree with items()");
                    }
                }
                Op::Checkpoint { h, fmt } => {
                    let c = &mut cs[h % n];
                    c.disk = Some((ser(&c.trie, *fmt), *fmt, c.model.clone()));
                }
                Op::Crash { h } => {
                    let c = &mut cs[h % n];
                    ctx.fault("client crash and restart");
                    match &c.disk {
                        None => (c.trie, c.model) = (Default::default(), Map::new()),
                        Some((b, f, m)) => match de(b, *f) {
                            Ok(t) => (c.trie, c.model) = (t, m.clone()),
                            Err(e) => return ctx.fail("checkpoint unreadable", e),
                        },
                    }
                    audit(ctx, h % n, &cs[h % n], keys);
                }
                Op::TornCheckpoint { h, keep, fmt } => {
                    let c = &mut cs[h % n];
                    let full = ser(&c.trie, *fmt);
                    let cut = full.len() * (*keep as usize) / 256;
                    ctx.fault("torn checkpoint");
                    if let Ok(t) = de(&full[..cut], *fmt) {
                        if t.hash().0 != refmpt::root(&c.model) {
                            return ctx.fail("torn checkpoint accepted", format!("op {i}: {cut} of {} bytes decode to another trie", full.len()));
                        }
                    }
                    match &c.disk {
                        None => (c.trie, c.model) = (Default::default(), Map::new()),
                        Some((b, f, m)) => (c.trie, c.model) = (de(b, *f).unwrap(), m.clone()),
                    }
                }
            }
            if ctx.failed() {
                return;
            }
            ctx.ev(format!("{i} {:?}", std::mem::discriminant(op)));
            if i % 9 == 8 || i + 1 == p.ops.len() {
                for w in 0..cs.len() {
                    audit(ctx, w, &cs[w], keys);
                    ctx.state(cs[w].trie.hash().0);
                    if ctx.failed() {
                        return;
                    }
                }
            }
        }
        for w in 0..cs.len() {
            ctx.ev(format!("end {w} {:x}", cs[w].trie.hash()));
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out: Vec<Plan> = drop_chunks(&p.ops).into_iter().map(|ops| Plan { keys: p.keys.clone(), ops }).collect();
        for (i, op) in p.ops.iter().enumerate() {
            if let Op::Insert { h, k, v } = op {
                if v.len() > 1 {
                    let mut q = p.clone();
                    q.ops[i] = Op::Insert { h: *h, k: *k, v: v[..1].to_vec() };
                    out.push(q);
                }
            }
        }
        out
    }
}
