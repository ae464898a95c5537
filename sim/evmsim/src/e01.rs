//! E01: every valid block, sent by a node as witness and traces, becomes batches that chain from
//! its first root to its last and that workers can execute in any order, repeatedly and after
//! restarts.
use crate::chain::{self, BlockPlan};
use crate::common::*;
use serde::{Deserialize, Serialize};
use simcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// Execute batch (modulo their number).
    Run(usize),
    /// The worker dies and another one starts from the stored payload.
    Restart(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub block: BlockPlan,
    /// The payload crosses a wire (JSON) before decoding.
    pub wire: bool,
    pub order: Vec<u64>,
    pub extra: Vec<Job>,
}
pub struct E01;
impl Property for E01 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "E01",
            level: "exploration",
            rule: "one seed = a pre-state (6 funded senders, up to 4 contracts with random structured programs, up to 50 other accounts), a block of up to 6 signed transactions of types 0-3 (calls, creations, value, access lists, blobs, out-of-gas at a chosen point), withdrawals, a witness format, a batch size, and a schedule of workers executing the batches out of order, repeatedly, and from stored payloads after a crash. Non-trivial: at least one failed call or transaction, one repeated or restarted batch, or an out-of-order start.",
            states_measure: "distinct (state root after a batch, batch size, witness format)",
            real: &["trace_decoder", "evm_arithmetization: kernel, interpreter, prover inputs", "mpt_trie"],
            stubs: &["the node: a reference EVM and trie written from the yellow paper and EIPs", "proof generation (the execution that precedes it is real)"],
            assumptions: &["mainnet (Cancun) rules", "pairings and openings are generated with known discrete logarithms", "gas below 1.5 million per transaction"],
            quick_runs: 100000,
            thorough_runs: 10_000_000,
            quick_cap_s: 90,
            thorough_cap_s: 800,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "E01", run);
        let block = chain::gen(&mut r, if run % 3 == 0 { chain::MEDIUM } else { chain::SMALL });
        Plan {
            block,
            wire: r.chance(1, 2),
            order: (0..8).map(|_| r.next()).collect(),
            extra: (0..r.below(2)).map(|_| if r.chance(1, 2) { Job::Run(r.idx(8)) } else { Job::Restart(r.idx(8)) }).collect(),
        }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let b = chain::build(&p.block);
        ctx.ev(format!("block of {} transactions ({} skipped), {} accounts, root {:?}", b.done.len(), b.skipped, b.pre.len(), chain::state_root(&b.after_withdrawals)));
        ctx.sim_ms += 12000;
        for d in &b.done {
            for (k, n) in &d.probes {
                ctx.probe_n(k, *n);
                if ["fail", "halt", "revert", "refused", "collision"].iter().any(|w| k.contains(w)) {
                    ctx.nontrivial = true;
                }
            }
            ctx.probe(if d.success { "transaction succeeded" } else { "transaction failed" });
        }
        dump(|| serde_json::json!({"kind": "block", "trace": &b.trace, "other": &b.other, "batch": p.block.batch}));
        let (mut trace, mut other) = (b.trace.clone(), b.other.clone());
        if p.wire {
            ctx.fault("payload through the wire");
            let s = serde_json::to_string(&(&trace, &other)).unwrap();
            (trace, other) = match serde_json::from_str(&s) {
                Ok(x) => x,
                Err(e) => return ctx.fail("payload does not survive the wire", e.to_string()),
            };
        }
        let out = match decode(trace, other, p.block.batch) {
            Ok(o) => o,
            Err(e) => return ctx.fail(format!("decoder refused a valid block: {}", short(&e)), e),
        };
        if let Err((c, d)) = check_batches(&b, p.block.batch, &out) {
            return ctx.fail(c, d);
        }
        for i in &out {
            ctx.state(format!("{:?} {} {}", i.trie_roots_after.state_root, p.block.batch, p.block.compact));
        }
        let mut jobs: Vec<(u64, Job)> = (0..out.len()).map(|i| (p.order.get(i).copied().unwrap_or(0), Job::Run(i))).collect();
        jobs.sort_by_key(|j| j.0);
        if jobs.iter().enumerate().any(|(i, j)| !matches!(j.1, Job::Run(k) if k == i)) {
            ctx.fault("batches out of order");
        }
        for j in jobs.into_iter().map(|j| j.1).chain(p.extra.iter().cloned()) {
            let (k, inputs) = match j {
                Job::Run(k) => (k % out.len(), out[k % out.len()].clone()),
                Job::Restart(k) => {
                    ctx.fault("worker restarted from the stored payload");
                    let s = serde_json::to_vec(&out[k % out.len()]).unwrap();
                    match serde_json::from_slice(&s) {
                        Ok(i) => (k % out.len(), i),
                        Err(e) => return ctx.fail("stored payload cannot be read back", e.to_string()),
                    }
                }
            };
            match execute(&inputs, None) {
                Ok(_) => ctx.ev(format!("batch {k} executed")),
                Err(e) => return ctx.fail(format!("valid batch refused: {}", short(&e)), format!("batch {k}: {e}")),
            }
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        if !p.extra.is_empty() {
            out.push(Plan { extra: vec![], ..p.clone() });
        }
        if p.wire {
            out.push(Plan { wire: false, ..p.clone() });
        }
        out.extend(chain::shrink(&p.block).into_iter().map(|block| Plan { block, ..p.clone() }));
        out
    }
}
