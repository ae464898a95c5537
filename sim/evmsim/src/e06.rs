//! E06: the constraint system accepts what the machine does, and nothing else.
use crate::cs::*;
use crate::e02;
use crate::chain;
use crate::common::*;
use evm_arithmetization::verif_hooks::starks;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use simcore::*;
use starky::lookup::GrandProductChallenge;
use ethereum_types::U256;
use serde::{Deserialize, Serialize};
use evm_arithmetization::proof::PublicValues;
use std::collections::{BTreeMap, HashMap, HashSet};

/// A table by rows.
pub type Rows = Vec<Vec<F>>;
pub struct Trace {
    pub rows: Vec<Rows>,
    pub pv: PublicValues<F>,
    /// Questions to Arithmetic that only ask for the values to be in range.
    pub range_checks: HashSet<Vec<u64>>,
}
pub fn felt(r: &mut Rng) -> F {
    F::from_noncanonical_u64(r.next())
}
impl Trace {
    pub fn new(s: &System, t: evm_arithmetization::generation::TablesWithPVs<F>) -> Trace {
        let rows: Vec<Rows> = t.tables.iter().enumerate().map(|(k, t_)| if t.table_in_use[k] { (0..t_[0].len()).map(|i| t_.iter().map(|c| c.values[i]).collect()).collect() } else { vec![] }).collect();
        let ops = s.names[&CPU].get("op");
        let only: Vec<usize> = ["push_prover_input", "syscall", "exception"].iter().map(|c| ops.get(c).num() as usize).collect();
        let mut range_checks = HashSet::new();
        for (c, side, looking) in s.sides(CPU) {
            for i in 0..rows[CPU].len() - 1 {
                let (l, x) = (&rows[CPU][i], &rows[CPU][i + 1]);
                if *looking && s.ctls[*c].looked.table == ARITHMETIC && only.iter().any(|c| l[*c].is_one()) && side.filter.eval(l, x).is_one() {
                    range_checks.insert(side.cols.iter().map(|c| u(c.eval(l, x))).collect());
                }
            }
        }
        let mut pv = t.public_values;
        // Not known before the proof is made, nor read by the lookups.
        for cap in [&mut pv.mem_before, &mut pv.mem_after] {
            cap.mem_cap = vec![[U256::zero(); 4]; 16];
        }
        Trace { rows, pv, range_checks }
    }
    pub fn next(&self, t: usize, i: usize) -> &[F] {
        &self.rows[t][(i + 1) % self.rows[t].len()]
    }
}
/// What the system refuses in a trace, if anything: (where, details).
pub fn check(s: &System, t: &Trace, r: &mut Rng) -> Option<(String, String)> {
    let alphas = [felt(r), felt(r)];
    for k in 0..TABLES {
        let n = t.rows[k].len();
        for i in 0..n {
            let (l, x) = (&t.rows[k][i], t.next(k, i));
            if i > 1 && i + 1 < n && l == &t.rows[k][i - 1] && x == &l[..] {
                continue;
            }
            if !s.holds(k, l, x, &alphas, i == 0, i + 1 == n) {
                return Some((format!("a constraint of {}", NAMES[k]), format!("row {i} of {n}: {l:?}, then {x:?}")));
            }
        }
        for (j, look) in s.lookups[k].iter().enumerate() {
            let mut want: HashMap<u64, F> = HashMap::new();
            for i in 0..n {
                let (l, x) = (&t.rows[k][i][..], t.next(k, i));
                for (c, f) in look.cols.iter().zip(&look.filters) {
                    let f = f.eval(l, x);
                    if !f.is_zero() {
                        *want.entry(u(c.eval(l, x))).or_default() += f;
                    }
                }
                let f = look.freq.eval(l, x);
                if !f.is_zero() {
                    *want.entry(u(look.table.eval(l, x))).or_default() -= f;
                }
            }
            if let Some((v, d)) = want.iter().find(|(_, d)| !d.is_zero()) {
                return Some((format!("lookup {j} within {}", NAMES[k]), format!("value {v}, {d} times too often")));
            }
        }
    }
    for c in s.ctls.iter() {
        let ch = GrandProductChallenge { beta: felt(r), gamma: felt(r) };
        let combine = |v: &[F]| v.iter().rev().fold(F::ZERO, |a, x| a * ch.beta + *x) + ch.gamma;
        let (mut den, mut num) = (vec![], vec![]);
        for (side, looked) in c.looking.iter().map(|l| (l, false)).chain([(&c.looked, true)]) {
            let n = t.rows[side.table].len();
            for i in 0..n {
                let (l, x) = (&t.rows[side.table][i][..], t.next(side.table, i));
                let f = side.filter.eval(l, x);
                if f.is_zero() {
                    continue;
                }
                if !f.is_one() {
                    return Some((format!("a filter of {}", NAMES[side.table]), format!("row {i}: {f}")));
                }
                den.push(combine(&side.cols.iter().map(|c| c.eval(l, x)).collect::<Vec<_>>()));
                num.push(if looked { -F::ONE } else { F::ONE });
            }
        }
        let mut sum: F = invert(&den).into_iter().zip(&num).map(|(a, b)| a * *b).sum();
        if c.looked.table == MEMORY {
            match public_sums(&t.pv, ch) {
                Ok((a, b)) if a == b => sum += a,
                Ok(_) => return Some(("the public values' part of the lookups into Memory".into(), "the verifier and its circuit disagree".into())),
                Err(e) => return Some(("the public values' part of the lookups into Memory".into(), e)),
            }
        }
        if !sum.is_zero() {
            return Some((format!("the lookup into {}", NAMES[c.looked.table]), format!("{}", why(c, t))));
        }
    }
    None
}
fn public_sums(pv: &PublicValues<F>, ch: GrandProductChallenge<F>) -> Result<(F, F), String> {
    match guarded(|| starks::extra_looking_sums::<F, plonky2::plonk::config::PoseidonGoldilocksConfig, 2>(pv, ch)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(m) => Err(format!("panic: {m}")),
    }
}
/// The difference of the two sides.
fn why(c: &Ctl, t: &Trace) -> String {
    let mut m: HashMap<Vec<u64>, (i64, String)> = HashMap::new();
    for (side, d) in c.looking.iter().map(|l| (l, 1)).chain([(&c.looked, -1)]) {
        for i in 0..t.rows[side.table].len() {
            let (l, x) = (&t.rows[side.table][i][..], t.next(side.table, i));
            if !side.filter.eval(l, x).is_zero() {
                let e = m.entry(side.cols.iter().map(|c| u(c.eval(l, x))).collect()).or_default();
                e.0 += d;
                e.1 = format!("{} row {i}", NAMES[side.table]);
            }
        }
    }
    let mut d: Vec<_> = m.into_iter().filter(|x| x.1 .0 != 0).collect();
    d.sort();
    format!("{} differences, among them {:?}", d.len(), &d[..d.len().min(3)])
}
/// What a row does.
fn kind(s: &System, t: &Trace, k: usize, i: usize) -> String {
    let (l, x) = (&t.rows[k][i], t.next(k, i));
    let mut v: String = s.sides(k).iter().map(|(_, side, _)| if side.filter.eval(l, x).is_zero() { '.' } else { '#' }).collect();
    if k == ARITHMETIC {
        v += &format!(" {:?}", (0..18).filter(|c| !l[*c].is_zero()).collect::<Vec<_>>());
    }
    if k == CPU {
        let n = &s.names[&CPU];
        let bits: u64 = n.get("opcode_bits").all().iter().enumerate().map(|(b, c)| u(l[*c]) << b).sum();
        v += &format!(" op {bits:02x} kernel {}", l[n.get("is_kernel_mode").num() as usize]);
        let V::S(ops) = n.get("op") else { panic!() };
        v += &format!(" {:?}", ops.iter().filter(|(_, c)| !l[c.num() as usize].is_zero()).map(|x| x.0).collect::<Vec<_>>());
    }
    v
}

/// For which operations a row is, in words.
fn doing(s: &System, t: &Trace, k: usize, i: usize) -> String {
    let l = &t.rows[k][i];
    match k {
        CPU => {
            let n = &s.names[&CPU];
            let V::S(ops) = n.get("op") else { panic!() };
            let bit = |b: usize| !l[n.get("opcode_bits").list()[b].num() as usize].is_zero();
            let ops: Vec<String> = ops.iter().filter(|(_, c)| !l[c.num() as usize].is_zero()).map(|x| if x.0 == "push_prover_input" { (if bit(7) { "prover_input" } else { "push" }).into() } else { x.0.clone() }).collect();
            let ops = if ops.is_empty() { "padding".into() } else { ops.join(" and ") };
            format!("{ops} ({})", if l[n.get("is_kernel_mode").num() as usize].is_zero() { "user" } else { "kernel" })
        }
        ARITHMETIC => format!("{:?}", (0..18).filter(|c| !l[*c].is_zero()).collect::<Vec<_>>()),
        _ => String::new(),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// Change something of the public values.
    Public,
    /// Forge a row of this table.
    Row(usize),
    /// Forge the value of a PUSH of the kernel's.
    KernelPush,
    /// Have a row execute an opcode of another kind.
    Decode,
    /// Leave a zero out of the final memory.
    Zero,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub block: chain::BlockPlan,
    pub batch: u64,
    pub log: usize,
    pub segment: u64,
    /// Each with its choices.
    pub attacks: Vec<(Mode, u64)>,
}
pub struct E06;
thread_local! {
    static SYSTEM: std::rc::Rc<System> = std::rc::Rc::new(System::new());
}
impl Property for E06 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "E06",
            level: "exploration",
            rule: "one seed = a block as in E01, one of its batches cut into segments, and one segment's tables, all of whose rows and lookups the constraint system must accept; then up to 24 Byzantine provers: each takes one row (of a kind drawn evenly) and computes, from the derivatives of all constraints on it, changes that keep every constraint, every answer it gets and every question it is asked, and looks for one that changes what the row concludes: its answers, its questions, the next state. Others change one public value. Each must be refused. Non-trivial: at least one row was attacked.",
            states_measure: "distinct kinds of row attacked (table, operation, lookups it takes part in)",
            real: &["evm_arithmetization: kernel, witness generation, the constraints of all nine tables as the prover evaluates them, lookups and cross-table lookups, the verifier's and its circuit's share of the public values"],
            stubs: &["FRI and Fiat-Shamir: a constraint or lookup holds or not, on the trace itself", "the prover: its traces are changed after it made them"],
            assumptions: &["Keccak's own table is sound", "changes of single rows and pairs of rows, by one step from what the honest prover fills in"],
            quick_runs: 400,
            thorough_runs: 10_000_000,
            quick_cap_s: 100,
            thorough_cap_s: 800,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "E06", run);
        let block = chain::gen(&mut r, chain::SMALL);
        let (batch, log, segment) = (r.next(), *r.pick(&[10, 11, 11, 12]), r.next());
        let mut attacks = vec![(Mode::Public, r.next())];
        for _ in 0..r.range(60, 100) {
            let t = *r.pick(&[CPU, CPU, CPU, CPU, CPU, CPU, CPU, ARITHMETIC, ARITHMETIC, PACKING, LOGIC, MEMORY, MEMORY, MEMORY, BEFORE, AFTER]);
            attacks.push((Mode::Row(t), r.next()));
        }
        for _ in 0..2 {
            attacks.push((Mode::Row(SPONGE), r.next()));
        }
        for _ in 0..6 {
            attacks.push((Mode::Decode, r.next()));
        }
        if r.chance(1, 4) {
            attacks.push((Mode::KernelPush, r.next()));
        }
        if r.chance(1, 2) {
            attacks.push((Mode::Zero, r.next()));
        }
        Plan { block, batch, log, segment, attacks }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let b = chain::build(&p.block);
        let out = match decode(b.trace.clone(), b.other.clone(), p.block.batch) {
            Ok(o) => o,
            Err(e) => return ctx.ev(format!("decoder refused the block (E01): {e}")),
        };
        let inputs = &out[(p.batch % out.len() as u64) as usize];
        let n = match e02::segments(inputs, p.log, &[]) {
            Ok((_, n)) => n,
            Err(e) => return ctx.ev(format!("honest prover refused (E01): {e}")),
        };
        let want = (p.segment % n as u64) as usize;
        let Ok((segs, _)) = e02::segments(inputs, p.log, &[want]) else { return };
        let (i, d) = &segs[0];
        let s = SYSTEM.with(|s| s.clone());
        let t = match e02::traces(&s.all, i, d) {
            Ok(t) => Trace::new(&s, t),
            Err(e) => return ctx.ev(format!("no trace (E02): {e}")),
        };
        ctx.steps += t.rows[CPU].len() as u64;
        ctx.ev(format!("segment {want} of {n}: {:?} rows", t.rows.iter().map(|r| r.len()).collect::<Vec<_>>()));
        let mut r = Rng::derive(p.segment, "check", 0);
        if let Some((what, detail)) = check(&s, &t, &mut r) {
            return ctx.fail(format!("an honest trace is refused: {what}"), format!("segment {want} of {n}: {detail}"));
        }
        ctx.probe("honest segment accepted");
        let mut kinds: HashMap<usize, BTreeMap<String, Vec<usize>>> = HashMap::new();
        let mut mem = HashMap::new();
        for (m, (mode, draw)) in p.attacks.iter().enumerate() {
            let mut r = Rng::derive(*draw, "attack", 0);
            let k = match mode {
                Mode::Public => {
                    match public(&t, &mut r) {
                        Ok(what) => {
                            ctx.fault("public value changed");
                            ctx.state(format!("public value {what}"));
                        }
                        Err((class, detail)) => return ctx.fail(class, format!("attack {m}: {detail}")),
                    }
                    continue;
                }
                Mode::Row(k) => *k,
                Mode::KernelPush | Mode::Decode => CPU,
                Mode::Zero => MEMORY,
            };
            if t.rows[k].len() < 8 {
                continue;
            }
            let mem = mem.entry(k).or_insert_with(|| crate::pin::members(&s, &t, k));
            let kinds = kinds.entry(k).or_insert_with(|| {
                let mut v: BTreeMap<String, Vec<usize>> = BTreeMap::new();
                for i in 0..t.rows[k].len() {
                    let edge = if i == 0 { "first " } else if i + 1 == t.rows[k].len() { "last " } else { "" };
                    v.entry(format!("{edge}{}", kind(&s, &t, k, i))).or_default().push(i);
                }
                v
            });
            let all: Vec<(&String, &Vec<usize>)> = match mode {
                Mode::KernelPush => kinds.iter().filter(|(_, v)| doing(&s, &t, k, v[0]) == "push (kernel)").collect(),
                _ => kinds.iter().collect(),
            };
            if all.is_empty() {
                continue;
            }
            let (name, is) = *r.pick(&all);
            let i = if *mode == Mode::Zero {
                let zeros: Vec<usize> = (1..t.rows[k].len() - 3).filter(|i| crate::pin::dropped(&s, &t, *i, true)).collect();
                if zeros.is_empty() {
                    continue;
                }
                *r.pick(&zeros)
            } else {
                *r.pick(is)
            };
            let about = doing(&s, &t, k, i);
            let mut a = crate::pin::Attack::new(&s, &t, k, i, mem, !matches!(mode, Mode::Row(_)));
            ctx.nontrivial = true;
            ctx.state(format!("{} {name}", NAMES[k]));
            ctx.fault(&if *mode == Mode::Decode { "opcode taken for another kind".into() } else { format!("forged row of {}", NAMES[k]) });
            let decode = *mode == Mode::Decode;
            let mut f = if decode { a.decode().into_iter().collect() } else { a.forge(&mut r) };
            for _ in 0..if decode { 0 } else { 8 } {
                f.extend(a.flip(&mut r));
                if [ARITHMETIC, LOGIC].contains(&k) && r.chance(1, 2) {
                    let is = r.pick(&all).1;
                    f.extend(a.impersonate(*r.pick(is), &mut r));
                    ctx.fault("row that answers for another");
                }
            }
            ctx.probe_n("forgeries refused by range checks or of higher order only", f.iter().filter(|f| !f.exact).count() as u64);
            if let Some(f) = f.iter().find(|f| f.exact) {
                let what = f.what.split(" (cell").next().unwrap();
                let zero = if *mode == Mode::Zero { " (of a zero that has to be kept)" } else { "" };
                return ctx.fail(
                    format!("a forged row is accepted: {} {about}: {what}{zero}", NAMES[k]).replace(" :", ":"),
                    format!("segment {want} of {n}, attack {m}, row {i} ({name}): {}; (row + i, column, honest, forged): {:?}", f.what, f.changed),
                );
            }
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        if p.attacks.len() > 1 {
            out.extend(p.attacks.iter().map(|a| Plan { attacks: vec![a.clone()], ..p.clone() }));
        }
        if !p.attacks.is_empty() {
            out.push(Plan { attacks: vec![], ..p.clone() });
        }
        out.extend(chain::shrink(&p.block).into_iter().map(|block| Plan { block, ..p.clone() }));
        out
    }
}
/// Change one public value: both sums must notice.
fn public(t: &Trace, r: &mut Rng) -> Result<String, (String, String)> {
    fn leaves(v: &serde_json::Value, path: &str, out: &mut Vec<String>) {
        match v {
            serde_json::Value::Object(m) => m.iter().for_each(|(k, v)| leaves(v, &format!("{path}/{k}"), out)),
            serde_json::Value::Array(m) => m.iter().enumerate().for_each(|(k, v)| leaves(v, &format!("{path}/{k}"), out)),
            serde_json::Value::Null => {}
            _ => out.push(path.into()),
        }
    }
    let mut v = serde_json::to_value(&t.pv).unwrap();
    let mut all = vec![];
    leaves(&v, "", &mut all);
    // Fields first, then their elements.
    let field = |p: &str| p.split('/').filter(|x| x.parse::<u64>().is_err()).collect::<Vec<_>>().join("/");
    let mut fields: Vec<String> = all.iter().map(|p| field(p)).filter(|f| !UNBOUND.iter().any(|u| f.contains(u))).collect();
    fields.dedup();
    let f = r.pick(&fields).clone();
    let paths: Vec<&String> = all.iter().filter(|p| field(p) == f).collect();
    let path = *r.pick(&paths);
    let leaf = v.pointer_mut(path).unwrap();
    let old = leaf.clone();
    *leaf = match &old {
        serde_json::Value::Bool(b) => (!b).into(),
        serde_json::Value::Number(n) => (n.as_u64().unwrap() ^ 1 << r.below(8)).into(),
        serde_json::Value::String(h) => {
            let mut c: Vec<char> = h.chars().collect();
            let digits: Vec<usize> = (0..c.len()).filter(|i| *i > 1).collect();
            let i = *r.pick(&digits);
            c[i] = char::from_digit(c[i].to_digit(16).unwrap() ^ 1 << r.below(4), 16).unwrap();
            // No leading zero.
            if i == 2 && c[2] == '0' {
                c[2] = if h.starts_with("0xf") { '1' } else { 'f' };
            }
            c.into_iter().collect::<String>().into()
        }
        _ => old.clone(),
    };
    let new = leaf.clone();
    let Ok(pv) = serde_json::from_value::<PublicValues<F>>(v) else { return Ok(format!("{f}: cannot be written down")) };
    let ch = GrandProductChallenge { beta: felt(r), gamma: felt(r) };
    let Ok(was) = public_sums(&t.pv, ch) else { return Ok(f) };
    match public_sums(&pv, ch) {
        Ok((a, b)) if a == was.0 => Err((format!("a changed public value is accepted by the verifier: {f}"), format!("{path}: {old} or {new}; circuit {}", b == was.1))),
        Ok((_, b)) if b == was.1 => Err((format!("a changed public value is accepted by the verifier's circuit: {f}"), format!("{path}: {old} or {new}"))),
        Ok((a, b)) if a != b => Err((format!("the verifier and its circuit disagree about {f}"), format!("{path}: {old}, {new}"))),
        _ => Ok(f),
    }
}
/// Public values that only the aggregation's circuits deal with.
const UNBOUND: &[&str] = &["mem_before", "mem_after", "checkpoint_"];
