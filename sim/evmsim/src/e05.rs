//! E05: whatever a prover answers where the kernel asks for advice, it cannot have another result
//! accepted than the one the EVM computes.
use crate::adversary::{self, Lie};
use crate::chain::{self, BlockPlan};
use crate::common::*;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub block: BlockPlan,
    pub batch: u64,
    /// Lies to tell; each entry is one execution. Empty: drawn from `draw` once the honest
    /// prover's questions are known.
    pub lies: Vec<Vec<Lie>>,
    pub draw: u64,
    pub n: usize,
}
pub struct E05;
impl Property for E05 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "E05",
            level: "exploration",
            rule: "one seed = a block as in E01, one of its batches, the record of the honest prover's advice, and up to 24 lying provers: each changes one or two answers (or a run of answers of one kind), or words and nodes of the preinitialised memory, then adopts as its claims whatever gas and roots the kernel computes. A lying prover must be refused, or end with the honest claims. Non-trivial: at least one lie was told.",
            states_measure: "distinct (kind of advice, place in the kernel that refused it)",
            real: &["evm_arithmetization: kernel, interpreter, prover inputs", "trace_decoder", "mpt_trie"],
            stubs: &["the prover's advice, behind the guarded hook", "the node: a reference EVM and trie"],
            assumptions: &["the STARK constraints enforce what the interpreter does (E06)", "transactions, withdrawals and exit roots are data, not advice", "a refusal by the interpreter's Rust code counts as a refusal"],
            quick_runs: 450,
            thorough_runs: 10_000_000,
            quick_cap_s: 90,
            thorough_cap_s: 800,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "E05", run);
        let block = chain::gen(&mut r, chain::SMALL);
        Plan { block, batch: r.next(), lies: vec![], draw: r.next(), n: r.range(8, 24) as usize }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let b = chain::build(&p.block);
        let out = match decode(b.trace.clone(), b.other.clone(), p.block.batch) {
            Ok(o) => o,
            Err(e) => return ctx.ev(format!("decoder refused the block (E01): {e}")),
        };
        // prefer batches with transactions
        let full: Vec<usize> = (0..out.len()).filter(|&i| !out[i].signed_txns.is_empty()).collect();
        let k = if full.is_empty() { 0 } else { full[(p.batch % full.len() as u64) as usize] };
        let inputs = &out[k];
        let h = match adversary::honest(inputs) {
            Ok(h) => Rc::new(h),
            Err(e) => return ctx.ev(format!("honest prover refused (E01): {e}")),
        };
        let names = h.names();
        ctx.ev(format!("batch {k} of {}: {} steps, advice asked for: {}", out.len(), h.steps, names.iter().map(|n| format!("{n} x{}", h.calls[n].len())).collect::<Vec<_>>().join(", ")));
        let lies = if p.lies.is_empty() {
            let mut r = Rng::derive(p.draw, "lies", 0);
            (0..p.n).map(|_| (0..if r.chance(1, 5) { 2 } else { 1 }).map(|_| adversary::gen_lie(&mut r, &names)).collect()).collect()
        } else {
            p.lies.clone()
        };
        let mut failures: Vec<(String, String)> = vec![];
        for l in &lies {
            let v = adversary::lie(inputs, &h, l);
            ctx.steps += v.steps;
            if v.told.is_empty() {
                continue;
            }
            ctx.nontrivial = true;
            for a in &v.about {
                ctx.fault(&format!("lie about {a}"));
            }
            match v.accepted {
                Some(c) if c.is_empty() => {
                    ctx.probe("lie without effect");
                    ctx.state(format!("{:?} accepted", v.about));
                }
                Some(c) => {
                    ctx.ev(format!("{l:?}: {}", v.told.join("; ")));
                    let class = if v.denied { "a false result is accepted: a JUMPDEST denied".into() } else { format!("a false result is accepted: lie about {}", v.about.join(" and ")) };
                    failures.push((class, format!("batch {k}: {}; accepted with {:?} instead of gas {} and {:?}; lies {}", v.told.join("; "), c, inputs.gas_used_after, inputs.trie_roots_after, serde_json::to_string(l).unwrap())));
                }
                None => {
                    ctx.probe("lie refused");
                    ctx.state(format!("{:?} {}", v.about, short(&v.why)));
                }
            }
        }
        // what is known must not hide what is not
        let known = |c: &str| c.ends_with("a JUMPDEST denied") || c.contains("kzg_point_eval");
        failures.sort_by_key(|f| known(&f.0));
        if let Some((class, detail)) = failures.into_iter().next() {
            ctx.fail(class, detail);
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        if p.lies.is_empty() {
            // make the drawn lies explicit
            let b = chain::build(&p.block);
            let Ok(o) = decode(b.trace.clone(), b.other.clone(), p.block.batch) else { return vec![] };
            let full: Vec<usize> = (0..o.len()).filter(|&i| !o[i].signed_txns.is_empty()).collect();
            let k = if full.is_empty() { 0 } else { full[(p.batch % full.len() as u64) as usize] };
            let Ok(h) = adversary::honest(&o[k]) else { return vec![] };
            let names = h.names();
            let mut r = Rng::derive(p.draw, "lies", 0);
            let lies: Vec<Vec<Lie>> = (0..p.n).map(|_| (0..if r.chance(1, 5) { 2 } else { 1 }).map(|_| adversary::gen_lie(&mut r, &names)).collect()).collect();
            return lies.into_iter().map(|l| Plan { lies: vec![l], ..p.clone() }).collect();
        }
        for (i, l) in p.lies.iter().enumerate() {
            if l.len() > 1 {
                for j in 0..l.len() {
                    let mut q = p.clone();
                    q.lies[i].remove(j);
                    out.push(q);
                }
            }
        }
        if p.lies.len() > 1 {
            out.extend((0..p.lies.len()).map(|i| Plan { lies: vec![p.lies[i].clone()], ..p.clone() }));
        }
        out.extend(chain::shrink(&p.block).into_iter().map(|block| Plan { block, ..p.clone() }));
        out
    }
}
