//! Running the code under test on payloads.
use crate::chain::{Built, Roots};
use evm_arithmetization::{GenerationInputs, SegmentDataIterator};
use mpt_trie::partial_trie::PartialTrie as _;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use simcore::*;
use trace_decoder::{observer::DummyObserver, BlockTrace, OtherBlockData, WireDisposition};

pub type Inputs = GenerationInputs;

pub fn decode(trace: BlockTrace, other: OtherBlockData, batch: usize) -> Result<Vec<Inputs>, String> {
    match guarded(|| trace_decoder::entrypoint(trace, other, batch, &mut DummyObserver::new(), WireDisposition::Type1)) {
        Ok(r) => r.map_err(|e| format!("{e:#}")),
        Err(m) => Err(format!("panic: {m}")),
    }
}
/// Executes a batch to the end; the number of segments, or why it was refused.
pub fn execute(inputs: &Inputs, len_log: Option<usize>) -> Result<usize, String> {
    let r = guarded(|| -> Result<usize, String> {
        let mut n = 0;
        for s in SegmentDataIterator::<F>::new(inputs, len_log) {
            s.map_err(|e| first_cause(&e.to_string()))?;
            n += 1;
        }
        Ok(n)
    });
    match r {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {m}")),
    }
}
pub fn first_cause(s: &str) -> String {
    match s.split_once("failed with error ") {
        Some((_, b)) => b.chars().take(300).collect(),
        None => s.chars().take(300).collect(),
    }
}
pub fn roots_before(i: &Inputs) -> Roots {
    Roots { state: i.tries.state_trie.hash(), txs: i.tries.transactions_trie.hash(), receipts: i.tries.receipts_trie.hash() }
}
pub fn roots_after(i: &Inputs) -> Roots {
    Roots { state: i.trie_roots_after.state_root, txs: i.trie_roots_after.transactions_root, receipts: i.trie_roots_after.receipts_root }
}
/// Checks that the batches partition the block and chain from its first root to its last.
pub fn check_batches(b: &Built, batch: usize, out: &[Inputs]) -> Result<(), (&'static str, String)> {
    let total = b.done.len();
    if out.len() < 2 {
        return Err(("fewer than two batches", format!("{}", out.len())));
    }
    let (mut n, mut gas) = (0usize, 0u64);
    for (k, i) in out.iter().enumerate() {
        let last = k + 1 == out.len();
        let before = if n == 0 && k == 0 { Roots { state: crate::chain::state_root(&b.pre), ..b.roots(0, false) } } else { b.roots(n, false) };
        if roots_before(i) != before {
            return Err(("batch starts from a wrong root", format!("batch {k}: {:?} instead of {before:?}", roots_before(i))));
        }
        if i.txn_number_before != n.into() || i.gas_used_before != gas.into() {
            return Err(("batch starts at a wrong count", format!("batch {k}: txn {} gas {} instead of {n} {gas}", i.txn_number_before, i.gas_used_before)));
        }
        let m = i.signed_txns.len();
        if m > batch || n + m > total || (0..m).any(|j| i.signed_txns[j] != b.done[n + j].raw) {
            return Err(("batch holds the wrong transactions", format!("batch {k}: {m} transactions from {n} of {total}, size hint {batch}")));
        }
        gas += b.done[n..n + m].iter().map(|d| d.gas_used).sum::<u64>();
        n += m;
        let after = b.roots(n, last);
        if roots_after(i) != after {
            let what = if roots_after(i).state != after.state {
                "batch claims a wrong state root"
            } else {
                "batch claims a wrong transactions or receipts root"
            };
            return Err((what, format!("batch {k} of {}: {:?} instead of {after:?}", out.len(), roots_after(i))));
        }
        if i.gas_used_after != gas.into() {
            return Err(("batch ends at a wrong count", format!("batch {k}: gas {} instead of {gas}", i.gas_used_after)));
        }
        let wd: Vec<_> = if last { b.other.b_data.withdrawals.iter().map(|(a, g)| (*a, *g * 1_000_000_000u64)).collect() } else { vec![] };
        if i.withdrawals != wd {
            return Err(("batch holds the wrong withdrawals", format!("batch {k}: {:?} instead of {wd:?}", i.withdrawals)));
        }
    }
    if n != total {
        return Err(("transactions missing from the batches", format!("{n} of {total}")));
    }
    Ok(())
}

/// Writes what a demonstration needs to the file named by SIM_DUMP, while a replay is executed.
pub fn dump(v: impl FnOnce() -> serde_json::Value) {
    if let Ok(f) = std::env::var("SIM_DUMP") {
        std::fs::write(f, v().to_string()).unwrap();
    }
}
