//! M04: the sparse Merkle tree over a content-addressed node store that crashes and loses writes.
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
use serde::{Deserialize, Serialize};
use simcore::*;
use smt_trie::bits::Bits;
use smt_trie::db::Db;
use smt_trie::smt::{hash_serialize, HashOut, Key, Node, Smt, F};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type U = alloy::primitives::U256;
type K4 = [u64; 4];
type Map = BTreeMap<K4, [u64; 4]>;

/// The node store: completed writes survive a crash, unless the device lost them.
#[derive(Clone, Default)]
struct SimDb {
    map: HashMap<Key, Node>,
    log: Vec<(Key, Node)>,
}
impl Db for SimDb {
    fn get_node(&self, k: &Key) -> Option<&Node> {
        self.map.get(k)
    }
    fn set_node(&mut self, k: Key, v: Node) {
        self.log.push((k, v));
        self.map.insert(k, v);
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set { k: usize, v: [u64; 4] },
    Delete { k: usize },
    Get { k: usize },
    /// Record the root durably.
    Commit,
    /// Crash after `part`/256 of the writes made since the last commit reached the store.
    Crash { part: u8 },
    /// A write since the last commit is lost by the device, then crash: the *next* commit is read.
    LostWrite { at: usize },
    /// Read an earlier committed root again.
    TimeTravel { back: usize },
    /// Ship a pruned serialisation to a verifier.
    Ship { keep: Vec<usize> },
    /// A verifier builds a partial tree of hashes and kept leaves, and replays updates on it.
    Partial { keep: Vec<usize>, upd: Vec<(usize, [u64; 4])> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub keys: Vec<K4>,
    pub ops: Vec<Op>,
}
pub struct M04;

const ORDER: u64 = 0xFFFF_FFFF_0000_0001;
fn key(k: &K4) -> Key {
    Key(k.map(F::from_canonical_u64))
}
fn val(v: &[u64; 4]) -> U {
    U::from_limbs(*v)
}
// ---------------------------------------------------------------- reference
fn bit(k: &K4, d: usize) -> u64 {
    (k[d % 4] >> (d / 4)) & 1
}
fn rem(k: &K4, d: usize) -> K4 {
    std::array::from_fn(|i| {
        let n = d / 4 + usize::from(d % 4 > i);
        if n >= 64 {
            0
        } else {
            k[i] >> n
        }
    })
}
fn poseidon(a: &[u64]) -> K4 {
    let mut s = [F::ZERO; 12];
    for (i, &x) in a.iter().enumerate() {
        s[i] = F::from_canonical_u64(x);
    }
    let h = F::poseidon(s);
    std::array::from_fn(|i| h[i].to_canonical_u64())
}
fn ref_node(items: &[(&K4, &[u64; 4])], d: usize, prefix: Vec<bool>, out: &mut impl FnMut(&[bool], K4, usize)) -> K4 {
    let h = match items.len() {
        0 => return [0; 4],
        1 => {
            let v = items[0].1;
            let limbs: Vec<u64> = v.iter().flat_map(|x| [x & 0xffff_ffff, x >> 32]).collect();
            let vh = poseidon(&limbs);
            let r = rem(items[0].0, d);
            poseidon(&[r[0], r[1], r[2], r[3], vh[0], vh[1], vh[2], vh[3], 1])
        }
        _ => {
            let (l, r): (Vec<_>, Vec<_>) = items.iter().partition(|(k, _)| bit(k, d) == 0);
            let (mut pl, mut pr) = (prefix.clone(), prefix.clone());
            pl.push(false);
            pr.push(true);
            let (a, b) = (ref_node(&l, d + 1, pl, out), ref_node(&r, d + 1, pr, out));
            poseidon(&[a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]])
        }
    };
    out(&prefix, h, items.len());
    h
}
fn ref_root(m: &Map) -> K4 {
    let items: Vec<_> = m.iter().collect();
    ref_node(&items, 0, vec![], &mut |_, _, _| {})
}
fn root4(h: HashOut) -> K4 {
    std::array::from_fn(|i| h.elements[i].to_canonical_u64())
}
/// Independent reader of the serialised form.
fn lookup(v: &[U], k: &K4) -> Result<Option<U>, String> {
    let g = |i: usize| v.get(i).copied().ok_or("pointer out of range".to_string());
    let (mut p, mut d) = (2usize, 0);
    loop {
        let t = g(p)?;
        if t == U::ZERO {
            // hash: only an empty subtree says "absent"
            return if g(p + 1)? == U::ZERO { Ok(Some(U::ZERO)) } else { Ok(None) };
        } else if t == U::from(1) {
            p = g(p + 1 + bit(k, d) as usize)?.as_limbs()[0] as usize;
            d += 1;
        } else {
            let r = rem(k, d);
            return Ok(Some(if g(p + 1)? == U::from_limbs(r) { g(p + 2)? } else { U::ZERO }));
        }
    }
}

impl Property for M04 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "M04",
            level: "exploration",
            rule: "one seed = a pool of up to 24 keys (random, sharing long bit prefixes, or differing in single bits) and 15..70 operations on a tree over a simulated node store: sets, deletes, commits, crashes after a prefix of the writes, lost writes, reads of old roots, pruned serialisations, partial trees. Non-trivial: a crash, lost write or pruned subtree happened.",
            states_measure: "distinct tree roots compared with the reference",
            real: &["smt_trie::smt", "smt_trie::bits", "smt_trie::db (trait)", "Poseidon permutation of plonky2"],
            stubs: &["node store: in-memory, crash keeps a prefix of the writes, can lose a write"],
            assumptions: &["the Poseidon permutation itself is taken from plonky2", "reference tree written from the documented rules"],
            quick_runs: 12000,
            thorough_runs: 300000,
            quick_cap_s: 60,
            thorough_cap_s: 1500,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "M04", run);
        let n = r.range(1, 24) as usize;
        let mode = r.below(4);
        let mut keys: Vec<K4> = vec![];
        while keys.len() < n {
            let mut k: K4 = std::array::from_fn(|_| r.below(ORDER));
            match mode {
                0 => {}
                1 => {
                    if !keys.is_empty() {
                        // share the first d bits with an earlier key
                        let o = *r.pick(&keys);
                        let d = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 16, 31, 60, 100, 200]);
                        for j in 0..d {
                            let (w, b) = (j % 4, j / 4);
                            k[w] = (k[w] & !(1 << b)) | (o[w] & (1 << b));
                        }
                    }
                }
                2 => {
                    if !keys.is_empty() {
                        k = *r.pick(&keys);
                        let j = r.idx(250);
                        k[j % 4] ^= 1 << (j / 4);
                    }
                }
                _ => k = std::array::from_fn(|_| r.below(3)),
            }
            if k.iter().any(|&x| x >= ORDER) {
                continue;
            }
            if !keys.contains(&k) {
                keys.push(k);
            } else if mode == 3 && keys.len() > 15 {
                break;
            }
        }
        let v = |r: &mut Rng| match r.below(6) {
            0 => [0; 4],
            1 => [r.range(1, 3), 0, 0, 0],
            2 => [0, 0, 0, 1 << 63],
            3 => [u64::MAX; 4],
            _ => std::array::from_fn(|_| r.next()),
        };
        let w: Vec<u64> = [30u64, 20, 10, 6, 3, 2, 2, 2, 2].iter().map(|&x| if r.chance(1, 6) { 0 } else { x * r.range(1, 3) }).collect();
        let w = if w[0] == 0 { vec![30, 20, 10, 6, 3, 2, 2, 2, 2] } else { w };
        let subset = |r: &mut Rng| {
            let d = r.below(5);
            (0..keys.len()).filter(|_| r.chance(d, 4)).collect::<Vec<_>>()
        };
        let ops = (0..r.range(15, 70))
            .map(|_| {
                let k = r.idx(keys.len());
                match r.weighted(&w) {
                    0 => Op::Set { k, v: v(&mut r) },
                    1 => Op::Delete { k },
                    2 => Op::Get { k },
                    3 => Op::Commit,
                    4 => Op::Crash { part: r.next() as u8 },
                    5 => Op::LostWrite { at: r.idx(1000) },
                    6 => Op::TimeTravel { back: r.idx(10) },
                    7 => Op::Ship { keep: subset(&mut r) },
                    _ => {
                        let keep = subset(&mut r);
                        let upd = if keep.is_empty() { vec![] } else { (0..r.range(0, 8)).map(|_| (*r.pick(&keep), v(&mut r))).collect() };
                        Op::Partial { keep, upd }
                    }
                }
            })
            .collect();
        Plan { keys, ops }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let kx = |k: usize| p.keys[k % p.keys.len()];
        let mut s = Smt::<SimDb>::default();
        let mut model = Map::new();
        // durable: (root, contents) per commit; the store's durable contents
        let mut commits: Vec<(HashOut, Map)> = vec![(s.root, Map::new())];
        let mut durable: HashMap<Key, Node> = HashMap::new();
        let open = |map: &HashMap<Key, Node>, root: HashOut, m: &Map| Smt::<SimDb> {
            db: SimDb { map: map.clone(), log: vec![] },
            kv_store: m.iter().map(|(k, v)| (key(k), val(v))).collect(),
            root,
        };
        macro_rules! audit {
            ($s:expr, $m:expr, $what:expr) => {{
                let (got, want) = (root4($s.root), ref_root($m));
                ctx.state(format!("{want:?}"));
                if got != want {
                    return ctx.fail("wrong root", format!("{}: {got:x?}, contents have {want:x?}", $what));
                }
                for k in &p.keys {
                    match guarded(|| $s.get(key(k))) {
                        Ok(g) if g == $m.get(k).map(val).unwrap_or_default() => {}
                        Ok(g) => return ctx.fail("wrong lookup", format!("{}: {k:x?} gives {g}", $what)),
                        Err(e) => return ctx.fail("lookup panics", format!("{}: {k:x?}: {e}", $what)),
                    }
                }
            }};
        }
        for (i, op) in p.ops.iter().enumerate() {
            match op {
                Op::Set { k, v } => {
                    s.set(key(&kx(*k)), val(v));
                    if *v == [0; 4] {
                        model.remove(&kx(*k));
                    } else {
                        model.insert(kx(*k), *v);
                    }
                    if root4(s.root) != ref_root(&model) {
                        return ctx.fail("wrong root", format!("op {i}: after set"));
                    }
                }
                Op::Delete { k } => {
                    if model.remove(&kx(*k)).is_some() {
                        ctx.probe("delete of present key");
                    }
                    s.delete(key(&kx(*k)));
                    if root4(s.root) != ref_root(&model) {
                        return ctx.fail("wrong root", format!("op {i}: after delete"));
                    }
                }
                Op::Get { k } => match guarded(|| s.get(key(&kx(*k)))) {
                    Ok(g) if g == model.get(&kx(*k)).map(val).unwrap_or_default() => {}
                    Ok(g) => return ctx.fail("wrong lookup", format!("op {i}: {g}")),
                    Err(e) => return ctx.fail("lookup panics", format!("op {i}: {e}")),
                },
                Op::Commit => {
                    for (k, v) in s.db.log.drain(..) {
                        durable.insert(k, v);
                    }
                    commits.push((s.root, model.clone()));
                }
                Op::Crash { part } => {
                    ctx.fault("crash");
                    let log = std::mem::take(&mut s.db.log);
                    let n = log.len() * (*part as usize) / 256;
                    for (k, v) in &log[..n] {
                        durable.insert(*k, *v);
                    }
                    let (root, m) = commits.last().unwrap().clone();
                    s = open(&durable, root, &m);
                    model = m;
                    audit!(s, &model, format!("op {i}: after crash with {n} of {} writes", log.len()));
                }
                Op::LostWrite { at } => {
                    // a reader of the current root over a store that lost one write
                    let log = s.db.log.clone();
                    if log.is_empty() {
                        continue;
                    }
                    ctx.fault("lost write");
                    let lost = log[at % log.len()].0;
                    let mut map = durable.clone();
                    map.extend(log.iter().copied().filter(|(k, _)| *k != lost));
                    let r = open(&map, s.root, &model);
                    for k in &p.keys {
                        match guarded(|| r.get(key(k))) {
                            Ok(g) if g != model.get(k).map(val).unwrap_or_default() => {
                                return ctx.fail("lost write read as another value", format!("op {i}: {k:x?}: {g}"))
                            }
                            Ok(_) => {}
                            Err(_) => ctx.probe("lost node detected"),
                        }
                    }
                }
                Op::TimeTravel { back } => {
                    let (root, m) = &commits[commits.len() - 1 - back % commits.len()];
                    let r = open(&durable, *root, m);
                    audit!(r, m, format!("op {i}: old root"));
                }
                Op::Ship { keep } => {
                    let ks: Vec<K4> = keep.iter().map(|k| kx(*k)).collect();
                    let v = s.serialize_and_prune(ks.iter().map(key));
                    if root4(hash_serialize(&v)) != ref_root(&model) {
                        return ctx.fail("serialised tree has another root", format!("op {i}"));
                    }
                    for k in &p.keys {
                        let want = model.get(k).map(val).unwrap_or_default();
                        match lookup(&v, k) {
                            Ok(Some(g)) if g == want => {}
                            Ok(None) if !ks.contains(k) => ctx.fault("subtree pruned away"),
                            other => return ctx.fail("serialised tree answers wrongly", format!("op {i}: {k:x?}: {other:?}, expected {want}")),
                        }
                    }
                    let full = s.serialize();
                    if root4(hash_serialize(&full)) != ref_root(&model) {
                        return ctx.fail("serialised tree has another root", format!("op {i}: unpruned"));
                    }
                }
                Op::Partial { keep, upd } => {
                    let ks: BTreeSet<K4> = keep.iter().map(|k| kx(*k)).collect();
                    // maximal subtrees holding no kept key
                    let mut nodes: Vec<(Vec<bool>, K4, usize)> = vec![];
                    let items: Vec<_> = model.iter().collect();
                    ref_node(&items, 0, vec![], &mut |pre, h, n| nodes.push((pre.to_vec(), h, n)));
                    nodes.sort_by_key(|x| x.0.len());
                    let mut cut: Vec<Vec<bool>> = vec![];
                    let mut t = Smt::<SimDb>::default();
                    for (pre, h, _) in &nodes {
                        let on_path = ks.iter().any(|k| pre.iter().enumerate().all(|(d, &b)| (bit(k, d) == 1) == b));
                        if on_path || cut.iter().any(|c| pre.starts_with(c)) {
                            continue;
                        }
                        cut.push(pre.clone());
                        let mut bits = Bits::empty();
                        pre.iter().for_each(|&b| bits.push_bit(b));
                        t.set_hash(bits, HashOut { elements: h.map(F::from_canonical_u64) });
                        ctx.fault("subtree pruned away");
                    }
                    // leaves of pruned single keys stay hashes; kept leaves are set
                    let mut m = model.clone();
                    let covered = |k: &K4| cut.iter().any(|c| c.iter().enumerate().all(|(d, &b)| (bit(k, d) == 1) == b));
                    let present: Vec<_> = model.iter().filter(|(k, _)| !covered(k)).collect();
                    let r = guarded(|| {
                        for (k, v) in &present {
                            t.set(key(k), val(v));
                        }
                    });
                    if let Err(e) = r {
                        return ctx.fail("partial tree cannot be built", format!("op {i}: {e}"));
                    }
                    if root4(t.root) != ref_root(&m) {
                        return ctx.fail("partial tree has another root", format!("op {i}"));
                    }
                    for (k, v) in upd {
                        let k = kx(*k);
                        let deletion = *v == [0; 4];
                        match guarded(|| t.set(key(&k), val(v))) {
                            Ok(()) => {}
                            // removing the sibling of a pruned subtree cannot be done
                            Err(_) if deletion => {
                                ctx.probe("partial tree refused a deletion");
                                break;
                            }
                            Err(e) => return ctx.fail("partial tree refused an update", format!("op {i}: {e}")),
                        }
                        if deletion {
                            m.remove(&k);
                        } else {
                            m.insert(k, *v);
                        }
                        if root4(t.root) != ref_root(&m) {
                            return ctx.fail("partial tree goes to another root", format!("op {i}"));
                        }
                    }
                }
            }
            ctx.ev(format!("{i} {:x?}", s.root.elements[0].to_canonical_u64()));
        }
        audit!(s, &model, "end");
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        drop_chunks(&p.ops).into_iter().map(|ops| Plan { keys: p.keys.clone(), ops }).collect()
    }
}
