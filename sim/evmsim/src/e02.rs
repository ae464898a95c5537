//! E02: cutting a batch into segments changes nothing, however long they are, in whatever order
//! workers run them and whatever they had to be told again.
use crate::chain::{self, BlockPlan};
use crate::common::*;
use evm_arithmetization::all_stark::Table;
use evm_arithmetization::generation::{generate_traces, TablesWithPVs, TrimmedGenerationInputs};
use evm_arithmetization::{verif_hooks, AllStark, GenerationSegmentData, SegmentDataIterator, StarkConfig};
use ethereum_types::U256;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::util::timing::TimingTree;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub block: BlockPlan,
    pub batch: u64,
    /// Segments are of 2^log cycles.
    pub log: usize,
    /// Another length for the same batch.
    pub log2: usize,
    /// Segments (modulo their number) whose neighbours are compared.
    pub at: Vec<u64>,
    /// The order in which they are run.
    pub order: Vec<u64>,
    /// Which run first crosses a wire.
    pub wire: Vec<bool>,
    pub again: bool,
    /// Gas or a root is claimed wrongly.
    pub lie: Option<u8>,
}
pub struct E02;
pub type Segment = (TrimmedGenerationInputs<F>, GenerationSegmentData);

/// Ends an endless execution.
struct Watch(u64);
impl verif_hooks::Hook for Watch {
    fn advice(&mut self, _: &str, honest: Option<U256>, _: &[U256], _: &dyn Fn(usize, usize, usize) -> U256, _: &mut Vec<verif_hooks::Poke>) -> Option<U256> {
        honest
    }
    fn initial_memory(&mut self, _: usize, _: &mut Vec<Option<U256>>) {}
    fn step(&mut self, _: usize, _: bool, _: usize, _: U256) -> anyhow::Result<()> {
        self.0 += 1;
        anyhow::ensure!(self.0 < 40_000_000, "endless execution");
        Ok(())
    }
}
/// The segments of a batch whose indices are wanted, and the number of all.
pub fn segments(i: &Inputs, log: usize, want: &[usize]) -> Result<(Vec<Segment>, usize), String> {
    verif_hooks::set(Some(Box::new(Watch(0))));
    let go = || {
        let (mut out, mut n) = (vec![], 0);
        for s in SegmentDataIterator::<F>::new(i, Some(log)) {
            let s = s.map_err(|e| first_cause(&e.to_string()))?;
            if want.contains(&n) {
                out.push(s)
            }
            n += 1
        }
        Ok((out, n))
    };
    let r = guarded(go);
    verif_hooks::set(None);
    r.unwrap_or_else(|m| Err(format!("panic: {m}")))
}
/// What a worker makes of a segment.
pub fn traces(all: &AllStark<F, 2>, i: &TrimmedGenerationInputs<F>, s: &GenerationSegmentData) -> Result<TablesWithPVs<F>, String> {
    let mut s = s.clone();
    // traces are large: not too many at a time
    static TURN: Mutex<()> = Mutex::new(());
    static TURN2: Mutex<()> = Mutex::new(());
    let _turn = match TURN.try_lock() {
        Ok(t) => t,
        _ => TURN2.lock().unwrap_or_else(|e| e.into_inner()),
    };
    match guarded(|| generate_traces(all, i, &StarkConfig::standard_fast_config(), &mut s, &mut TimingTree::default()).map_err(|e| first_cause(&format!("{e:#}")))) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {m}")),
    }
}
pub fn wire<T: Serialize + for<'a> Deserialize<'a>>(x: &T) -> Result<T, String> {
    let mut v = vec![];
    ciborium::into_writer(x, &mut v).map_err(|e| e.to_string())?;
    ciborium::from_reader(&v[..]).map_err(|e| e.to_string())
}
/// The rows of a table, without its padding, sorted.
fn rows(t: &TablesWithPVs<F>, k: Table) -> Vec<Vec<F>> {
    let t = &t.tables[k as usize];
    (0..t[0].len()).map(|i| t.iter().map(|c| c.values[i]).collect()).collect()
}
fn run(all: &AllStark<F, 2>, s: &Segment, over: bool, ctx: &mut Ctx) -> Result<TablesWithPVs<F>, (String, String)> {
    let s = if over {
        ctx.fault("segment restarted from the stored payload");
        match wire(s) {
            Ok(s) => s,
            Err(e) => return Err(("a stored segment cannot be read back".into(), e)),
        }
    } else {
        s.clone()
    };
    traces(all, &s.0, &s.1).map_err(|e| (format!("a segment of a valid batch cannot be run on its own: {}", short(&e)), e))
}
/// Only the memory that neighbours share, and the length.
fn trim(t: &mut TablesWithPVs<F>, full: bool) {
    for k in 0..t.tables.len() {
        if !full && k != Table::MemBefore as usize && k != Table::MemAfter as usize {
            t.tables[k].truncate(1);
        }
    }
}
impl Property for E02 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "E02",
            level: "exploration",
            rule: "one seed = a block as in E01, one of its batches cut into segments of 2^9 to 2^17 cycles and into segments of a second length, and workers that generate the traces of up to 4 pairs of neighbouring segments, in any order, some from what was stored before a restart, some twice. The batch is accepted whatever the length, and refused whatever the length if a root or the gas is claimed wrongly; each segment can be run alone, ends in the registers and the memory the next begins with, within its length, from the kernel alone in the first to the halt in the last. Non-trivial: at least two segments.",
            states_measure: "distinct (length, number of segments, registers at a cut)",
            real: &["evm_arithmetization: kernel, interpreter, segment iterator, witness generation, trace tables, public values", "trace_decoder"],
            stubs: &["the node: a reference EVM and trie", "commitments and proofs (what they commit to is compared instead)"],
            assumptions: &["mainnet (Cancun) rules"],
            quick_runs: 100000,
            thorough_runs: 10_000_000,
            quick_cap_s: 80,
            thorough_cap_s: 800,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "E02", run);
        let block = chain::gen(&mut r, chain::SMALL);
        let n = r.range(1, 4) as usize;
        Plan {
            block,
            batch: r.next(),
            log: *r.pick(&[9, 10, 10, 11, 12, 13, 14, 15, 16]),
            log2: *r.pick(&[9, 9, 10, 11, 12, 17]),
            at: (0..n).map(|_| r.next()).collect(),
            order: (0..2 * n).map(|_| r.next()).collect(),
            wire: (0..2 * n).map(|_| r.chance(1, 2)).collect(),
            again: r.chance(1, 4),
            lie: if r.chance(1, 4) { Some(r.below(4) as u8) } else { None },
        }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let b = chain::build(&p.block);
        ctx.sim_ms += 12000;
        let out = match decode(b.trace.clone(), b.other.clone(), p.block.batch) {
            Ok(o) => o,
            Err(e) => return ctx.ev(format!("decoder refused the block (E01): {e}")),
        };
        let inputs = &out[(p.batch % out.len() as u64) as usize];
        dump(|| serde_json::json!({"kind": "cut", "inputs": inputs, "log": p.log}));
        if let Err(e) = execute(inputs, None) {
            return ctx.ev(format!("valid batch refused (E01): {e}"));
        }
        if let Some(l) = p.lie {
            ctx.fault("wrong claim");
            let mut i = inputs.clone();
            match l {
                0 => i.gas_used_after += 1.into(),
                1 => i.trie_roots_after.state_root.0[31] ^= 1,
                2 => i.trie_roots_after.transactions_root.0[31] ^= 1,
                _ => i.trie_roots_after.receipts_root.0[31] ^= 1,
            }
            if let Ok((_, n)) = segments(&i, p.log, &[]) {
                return ctx.fail("a wrong claim is accepted when the batch is cut", format!("claim {l}: {n} segments of 2^{}", p.log));
            }
        }
        let n = match segments(inputs, p.log, &[]) {
            Ok((_, n)) => n,
            Err(e) => return ctx.fail(format!("a valid batch is refused when cut: {}", short(&e)), format!("segments of 2^{}: {e}", p.log)),
        };
        if let Err(e) = segments(inputs, p.log2, &[]) {
            return ctx.fail(format!("a valid batch is refused when cut: {}", short(&e)), format!("segments of 2^{}: {e}", p.log2));
        }
        ctx.steps += n as u64;
        ctx.nontrivial = n > 1;
        ctx.ev(format!("{n} segments of 2^{}", p.log));
        let all = AllStark::<F, 2>::default();
        // which segments to run: pairs of neighbours
        let mut want: Vec<usize> = p.at.iter().flat_map(|a| { let k = (a % n as u64) as usize; [k, k + 1] }).filter(|k| *k < n).collect();
        want.sort();
        want.dedup();
        let segs: BTreeMap<usize, Segment> = match segments(inputs, p.log, &want) {
            Ok((s, m)) if m == n => want.iter().copied().zip(s).collect(),
            r => return ctx.fail("a batch is not cut in the same way again", format!("segments of 2^{}: {n}, then {:?}", p.log, r.map(|r| r.1))),
        };
        for (k, s) in &segs {
            if s.1.segment_index() != *k {
                return ctx.fail("a segment has a wrong index", format!("{} instead of {k}", s.1.segment_index()));
            }
        }
        let mut order: Vec<(u64, usize)> = want.iter().enumerate().map(|(j, k)| (p.order[j % p.order.len()], *k)).collect();
        order.sort();
        if order.windows(2).any(|w| w[0].1 > w[1].1) {
            ctx.fault("segments out of order");
        }
        let mut done = BTreeMap::new();
        for (j, (_, k)) in order.iter().enumerate() {
            match run(&all, &segs[k], p.wire[j % p.wire.len()], ctx) {
                Ok(mut t) => {
                    trim(&mut t, p.again && *k == want[0]);
                    done.insert(*k, t)
                }
                Err((c, d)) => return ctx.fail(c, format!("segment {k} of {n} of 2^{}: {d}", p.log)),
            };
        }
        if p.again {
            ctx.fault("segment run again");
            let k = want[0];
            match run(&all, &segs[&k], !p.wire[0], ctx) {
                Ok(t) => {
                    let d = &done[&k];
                    if (0..t.tables.len()).any(|x| t.tables[x] != d.tables[x]) || t.public_values != d.public_values || t.table_in_use != d.table_in_use {
                        return ctx.fail("a segment run again gives other traces", format!("segment {k} of {n} of 2^{}", p.log));
                    }
                }
                Err((c, d)) => return ctx.fail(c, format!("segment {k} of {n} of 2^{}: {d}", p.log)),
            }
        }
        for (k, t) in &done {
            let pv = &t.public_values;
            let at = format!("segment {k} of {n} of 2^{}", p.log);
            ctx.state(format!("{} {n} {:?}", p.log, pv.registers_after));
            if t.tables[Table::Cpu as usize][0].len() > 1 << p.log {
                return ctx.fail("a segment is longer than it may be", format!("{at}: {}", t.tables[Table::Cpu as usize][0].len()));
            }
            let x = &pv.extra_block_data;
            if pv.trie_roots_before != segs[k].0.trie_roots_before
                || pv.trie_roots_after != inputs.trie_roots_after
                || x.gas_used_before != inputs.gas_used_before
                || x.gas_used_after != inputs.gas_used_after
                || x.txn_number_before != inputs.txn_number_before
                || x.txn_number_after != inputs.txn_number_before + inputs.signed_txns.len()
                || pv.block_metadata != inputs.block_metadata
                || pv.block_hashes != inputs.block_hashes
                || x.checkpoint_state_trie_root != inputs.checkpoint_state_trie_root
                || x.checkpoint_consolidated_hash != inputs.checkpoint_consolidated_hash
            {
                return ctx.fail("a segment has other public values than its batch", format!("{at}: {pv:?}"));
            }
            if *k == 0 {
                let r = &pv.registers_before;
                let main = verif_hooks::offset("main").unwrap();
                if r.program_counter != main.into() || r.is_kernel != 1.into() || !r.stack_len.is_zero() || !r.context.is_zero() || !r.gas_used.is_zero() {
                    return ctx.fail("the first segment does not begin at the start of the kernel", format!("{at}: {r:?}"));
                }
            }
            let halt = verif_hooks::offset("halt").unwrap();
            if (*k + 1 == n) != (pv.registers_after.program_counter == halt.into()) {
                return ctx.fail("not the last segment and it alone ends in the halt", format!("{at}: {:?}", pv.registers_after));
            }
            let Some(next) = done.get(&(k + 1)) else { continue };
            ctx.probe("neighbours compared");
            if pv.registers_after != next.public_values.registers_before {
                return ctx.fail("a segment does not begin with the registers the one before ends with", format!("{at}: {:?} then {:?}", pv.registers_after, next.public_values.registers_before));
            }
            if !t.table_in_use[Table::MemAfter as usize] || t.tables[Table::MemAfter as usize] != next.tables[Table::MemBefore as usize] {
                let (a, b) = (rows(t, Table::MemAfter), rows(next, Table::MemBefore));
                let diff: Vec<_> = a.iter().zip(&b).enumerate().filter(|(_, (x, y))| x != y).take(2).collect();
                return ctx.fail("a segment does not begin with the memory the one before ends with", format!("{at}: {} and {} rows, differing in {diff:?}", a.len(), b.len()));
            }
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        if p.at.len() > 1 {
            out.extend((0..p.at.len()).map(|i| Plan { at: vec![p.at[i]], ..p.clone() }));
        }
        if p.again {
            out.push(Plan { again: false, ..p.clone() });
        }
        if p.lie.is_some() {
            out.push(Plan { lie: None, ..p.clone() });
        }
        out.extend((p.log + 1..18).rev().map(|log| Plan { log, ..p.clone() }));
        out.extend(chain::shrink(&p.block).into_iter().map(|block| Plan { block, ..p.clone() }));
        out
    }
}
