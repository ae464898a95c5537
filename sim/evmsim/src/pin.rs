//! Forging rows: an adversary that keeps every constraint on a row, every answer the row is given
//! and every question it is asked, and looks for a way to change what the row concludes.
use crate::cs::*;
use crate::dual::Dual;
use crate::e06::Trace;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use simcore::Rng;
use std::collections::HashSet;

/// Which cells of a tuple answer the question that the others put.
fn answers(ctl: usize, s: &System, t: &Trace, tuple: &[F]) -> std::ops::Range<usize> {
    let n = tuple.len();
    match s.ctls[ctl].looked.table {
        // Values that only have to be in range are all given.
        ARITHMETIC if t.range_checks.contains(&tuple.iter().map(|x| u(*x)).collect::<Vec<_>>()) => 0..0,
        ARITHMETIC => 25..33,
        LOGIC | SPONGE => n - 8..n,
        PACKING if tuple[0].is_one() => n - 8..n,
        MEMORY if tuple[0].is_one() => 4..12,
        // The first of the two hands the input over, the second takes the output.
        KECCAK if s.ctls[..ctl].iter().any(|c| c.looked.table == KECCAK) => 0..n - 1,
        _ => 0..0,
    }
}
/// Cells of a question that do not matter: what a range check is told beyond the top of the stack,
/// and the third operand of operations that have two.
fn idle(ctl: usize, s: &System, t: &Trace, tuple: &[F]) -> std::ops::Range<usize> {
    if s.ctls[ctl].looked.table != ARITHMETIC {
        0..0
    } else if t.range_checks.contains(&tuple.iter().map(|x| u(*x)).collect::<Vec<_>>()) {
        9..33
    } else if [0x08, 0x09, 0x0f, 0x1b, 0x1c].contains(&u(tuple[0])) {
        0..0
    } else {
        17..25
    }
}
/// A row under attack.
pub struct Attack<'a> {
    pub s: &'a System,
    pub t: &'a Trace,
    pub k: usize,
    pub i: usize,
    /// Variables: (0 for the row or 1 for its successor, column).
    vars: Vec<(usize, usize)>,
    both: bool,
    after: bool,
    members: &'a [HashSet<u64>],
    /// Whether to include what is known to be free.
    known: bool,
    /// The opcodes' columns, if it is not asked which opcode the code has there.
    opcode: Vec<usize>,
    /// A question put to this row that is not its own.
    question: Option<(usize, Vec<F>)>,
}
pub struct Forged {
    pub what: String,
    pub changed: Vec<(usize, usize, u64, u64)>,
    pub exact: bool,
}
fn lift<const N: usize>(v: &[F]) -> Vec<Dual<N>> {
    v.iter().map(|x| Dual::from(*x)).collect()
}
fn values(v: &[Dual<1>]) -> Vec<F> {
    v.iter().map(|x| x.0[0]).collect()
}

impl<'a> Attack<'a> {
    pub fn new(s: &'a System, t: &'a Trace, k: usize, i: usize, members: &'a [HashSet<u64>], known: bool) -> Self {
        let w = t.rows[k][i].len();
        let state = cpu_state(s);
        // A row that nobody asks and that asks nothing belongs to the row before it.
        let n = t.rows[k].len();
        let idle = |i: usize| s.sides(k).iter().all(|(_, side, _)| side.filter.eval(&t.rows[k][i % n], t.next(k, i % n)).is_zero());
        let (both, after) = match k {
            _ if i + 1 == n => (false, false),
            CPU | MEMORY => (true, false),
            ARITHMETIC => (idle(i + 1), idle(i + 1)),
            _ => (false, false),
        };
        // What the row starts with is the row before's, except in the first; there, the kernel itself
        // checks the context and the stack.
        let first: Vec<usize> = if i == 0 && k == CPU { ["program_counter", "is_kernel_mode", "clock"].iter().map(|c| s.names[&CPU].get(c).num() as usize).collect() } else { vec![] };
        // Which exception it is is for the kernel to check.
        let code: Vec<usize> = if k == CPU && !t.rows[k][i][s.names[&CPU].get("op").get("exception").num() as usize].is_zero() && t.rows[k][i][s.names[&CPU].get("is_kernel_mode").num() as usize].is_zero() {
            s.names[&CPU].get("general").all()[..3].to_vec()
        } else {
            vec![]
        };
        let mut vars: Vec<(usize, usize)> = (0..w).filter(|c| !code.contains(c) && (k != CPU || first.contains(c) || !state.contains(c))).map(|c| (0, c)).collect();
        if both {
            vars.extend((0..w).map(|c| (1, c)));
        }
        Attack { s, t, k, i, vars, both, after, members, known, opcode: vec![], question: None }
    }
    /// What must stay as it is: the constraints, the answers it gets, and the questions it is asked.
    fn kept<const N: usize>(&self, l: &[Dual<N>], x: &[Dual<N>]) -> Vec<Dual<N>> {
        let (s, k) = (self.s, self.k);
        let n = self.t.rows[k].len();
        let mut v = s.eval(k, &lift(self.row(-1)), l, self.i == 1, self.i == 0);
        v.extend(s.eval(k, l, x, self.i == 0, self.i + 1 == n));
        let y = lift(self.row(2));
        if self.after {
            v.extend(s.eval(k, x, &y, false, self.i + 2 == n));
        }
        if let Some((ctl, tuple)) = &self.question {
            let side = &s.ctls[*ctl].looked;
            let ans = answers(*ctl, s, self.t, tuple);
            v.push(side.filter.eval(l, x));
            v.extend(side.cols.iter().enumerate().filter(|(j, _)| !ans.contains(j)).map(|(_, c)| c.eval(l, x)));
            return v;
        }
        for (at, (a, b)) in [(self.row(0), self.row(1)), (self.row(1), self.row(2))].into_iter().enumerate() {
            let (na, nb) = if at == 0 { (l, x) } else { (x, &y[..]) };
            if at == 1 && (!self.both || k == CPU) {
                break;
            }
            for (ctl, side, looking) in s.sides(k).iter().map(|x| (x.0, &x.1, x.2)) {
                let on = !side.filter.eval(a, b).is_zero();
                if !looking {
                    v.push(side.filter.eval(na, nb));
                }
                if on {
                    let honest: Vec<F> = side.cols.iter().map(|c| c.eval(a, b)).collect();
                    let ans = answers(ctl, s, self.t, &honest);
                    let skip = if looking || ans.is_empty() { 0..0 } else { idle(ctl, s, self.t, &honest) };
                    let free = |c: &Col| looking && s.ctls[ctl].looked.table == MEMORY && c.lin.iter().any(|l| self.opcode.contains(&l.0));
                    v.extend(side.cols.iter().enumerate().filter(|(j, c)| ans.contains(j) == looking && !skip.contains(j) && !free(c)).map(|(_, c)| c.eval(na, nb)));
                }
            }
        }
        v
    }
    /// What that has to be.
    fn wanted(&self) -> Vec<F> {
        let mut v: Vec<F> = values(&self.kept::<1>(&lift(self.row(0)), &lift(self.row(1))));
        if let Some((ctl, tuple)) = &self.question {
            let ans = answers(*ctl, self.s, self.t, tuple);
            let given: Vec<F> = [F::ONE].into_iter().chain(tuple.iter().enumerate().filter(|(j, _)| !ans.contains(j)).map(|(_, c)| *c)).collect();
            let n = v.len() - given.len();
            v[n..].copy_from_slice(&given);
        }
        v
    }
    /// The honest outcome.
    fn usual(&self) -> Vec<F> {
        let mut v = self.outcome(self.row(0), self.row(1), &mut None);
        if let Some((ctl, tuple)) = &self.question {
            let ans = answers(*ctl, self.s, self.t, tuple);
            v.copy_from_slice(&tuple[ans]);
        }
        v
    }
    /// Names of the parts of the outcome.
    fn names(&self) -> Vec<String> {
        let mut names = Some(vec![]);
        self.outcome(self.row(0), self.row(1), &mut names);
        names.unwrap()
    }
    /// What the row must determine: the questions it asks, the answers it gives, the next state.
    fn outcome<P: PackedField<Scalar = F>>(&self, l: &[P], x: &[P], names: &mut Option<Vec<String>>) -> Vec<P> {
        let (s, k) = (self.s, self.k);
        let mut v = vec![];
        let mut push = |name: &dyn Fn() -> String, x: P| {
            v.push(x);
            if let Some(n) = names {
                n.push(name());
            }
        };
        if let Some((ctl, tuple)) = &self.question {
            let cols = &s.ctls[*ctl].looked.cols;
            for j in answers(*ctl, s, self.t, tuple) {
                push(&|| format!("its answer as {} (cell {j})", NAMES[k]), cols[j].eval(l, x));
            }
            return v;
        }
        let y: Vec<P> = self.row(2).iter().map(|c| P::from(*c)).collect();
        for (at, (a, b)) in [(self.row(0), self.row(1)), (self.row(1), self.row(2))].into_iter().enumerate() {
            let (na, nb) = if at == 0 { (l, x) } else { (x, &y[..]) };
            if at == 1 && (k != MEMORY || !self.both) {
                break;
            }
            for (ctl, side, looking) in s.sides(k).iter().map(|x| (x.0, &x.1, x.2)) {
                let on = !side.filter.eval(a, b).is_zero();
                let to = NAMES[s.ctls[ctl].looked.table];
                // How often contexts are named is counted on both sides.
                if looking && at == 0 && s.ctls[ctl].looked.table != CPU && (k != MEMORY || self.known || !dropped(s, self.t, self.i, false) && !advice(s, self.t, self.i)) {
                    push(&|| format!("whether it asks {to}"), side.filter.eval(na, nb));
                }
                if on && (at == 0 || !looking) {
                    let honest: Vec<F> = side.cols.iter().map(|c| c.eval(a, b)).collect();
                    let ans = answers(ctl, s, self.t, &honest);
                    let skip = idle(ctl, s, self.t, &honest);
                    let given = if k == MEMORY && advice(s, self.t, self.i + at) { s.names[&MEMORY].get("value_limbs").all() } else { vec![] };
                    let name = if looking { "what it asks" } else { "its answer as" };
                    for (j, c) in side.cols.iter().enumerate().filter(|(j, _)| ans.contains(j) != looking && !skip.contains(j)) {
                        if c.lin.iter().any(|l| given.contains(&l.0)) {
                            continue;
                        }
                        push(&|| format!("{name} {to} (cell {j})"), c.eval(na, nb));
                    }
                }
            }
        }
        // Padding concludes nothing.
        if k == CPU && s.names[&CPU].get("op").all().iter().any(|c| !self.row(0)[*c].is_zero()) {
            let n = &s.names[&CPU];
            let kernel = n.get("is_kernel_mode").num() as usize;
            for c in ["context", "program_counter", "stack_len", "is_kernel_mode", "gas", "clock"] {
                let col = n.get(c).num() as usize;
                if self.i == 0 && ["program_counter", "is_kernel_mode", "clock"].contains(&c) {
                    push(&|| format!("the first {c}"), l[col]);
                }
                // Gas is not counted in the kernel: whoever enters or leaves it says how much there is.
                if c != "gas" || self.row(0)[kernel].is_zero() || self.row(1)[kernel].is_zero() {
                    push(&|| format!("the next {c}"), x[col]);
                }
            }
            let ch = &n.get("mem_channels").list()[0];
            let used = ch.get("used").num() as usize;
            let next = self.row(1);
            push(&|| "whether the next row reads its top".into(), x[used]);
            if !next[used].is_zero() {
                for c in ["is_read", "addr_context", "addr_segment", "addr_virtual"] {
                    push(&|| format!("the next row's top: {c}"), x[ch.get(c).num() as usize]);
                }
            } else if !self.free_top() {
                for c in ch.get("value").all() {
                    push(&|| "the next top of the stack".into(), x[c]);
                }
            }
        }
        v
    }
    /// Whether the row leaves the top of the stack to the prover.
    fn free_top(&self) -> bool {
        let n = &self.s.names[&CPU];
        let l = self.row(0);
        let bits: u64 = n.get("opcode_bits").all().iter().enumerate().map(|(b, c)| u(l[*c]) << b).sum();
        let kernel = !l[n.get("is_kernel_mode").num() as usize].is_zero();
        // Advice; known; nothing.
        bits == 0xee && kernel || (0x60..0x80).contains(&bits) && kernel && !self.known || self.row(1)[n.get("stack_len").num() as usize].is_zero()
    }
    fn row(&self, d: isize) -> &[F] {
        let n = self.t.rows[self.k].len();
        &self.t.rows[self.k][(self.i + n).wrapping_add_signed(d) % n]
    }
    fn at(&self, v: usize) -> F {
        let (a, c) = self.vars[v];
        self.row(a as isize)[c]
    }
    /// The two rows, moved.
    fn moved(&self, by: &[(usize, F)]) -> (Vec<F>, Vec<F>) {
        let (mut l, mut x) = (self.row(0).to_vec(), self.row(1).to_vec());
        for (v, d) in by {
            let (a, c) = self.vars[*v];
            if a == 0 {
                l[c] += *d
            } else {
                x[c] += *d
            }
        }
        (l, x)
    }
    /// Derivatives of what is kept, of which only those that are not all zero are given, and of the
    /// outcome, at a point; and how far what is kept is from what it has to be.
    fn jacobian(&self, at: &[(usize, F)]) -> (Vec<Vec<F>>, Vec<Vec<F>>, Vec<F>) {
        const N: usize = 16;
        let (l, x) = self.moved(at);
        let n = self.vars.len();
        let (mut jac, mut out): (Vec<Vec<F>>, Vec<Vec<F>>) = (vec![], vec![]);
        let want = self.wanted();
        let mut off = vec![];
        for from in (0..n).step_by(N - 1) {
            let (mut dl, mut dx) = (lift::<N>(&l), lift::<N>(&x));
            let these = from..n.min(from + N - 1);
            for (j, (a, c)) in self.vars[these.clone()].iter().enumerate() {
                (if *a == 0 { &mut dl } else { &mut dx })[*c].0[j + 1] = F::ONE;
            }
            for (to, f) in [(&mut jac, self.kept(&dl, &dx)), (&mut out, self.outcome(&dl, &dx, &mut None))] {
                to.resize(f.len(), vec![]);
                for (row, d) in to.iter_mut().zip(&f) {
                    row.extend(&d.0[1..=these.len()]);
                }
                if from == 0 && off.is_empty() {
                    off = want.iter().zip(&f).map(|(w, d)| *w - d.0[0]).collect();
                }
            }
        }
        let used: Vec<usize> = (0..jac.len()).filter(|e| !off[*e].is_zero() || jac[*e].iter().any(|d| !d.is_zero())).collect();
        (used.iter().map(|e| std::mem::take(&mut jac[*e])).collect(), out, used.iter().map(|e| off[*e]).collect())
    }
    /// The variables, last those that the outcome depends on.
    fn order(&self, out: &[Vec<F>]) -> Vec<usize> {
        let mut order: Vec<usize> = (0..self.vars.len()).collect();
        order.sort_by_cached_key(|v| out.iter().any(|d| !d[*v].is_zero()));
        order
    }
    /// Change some variables and look for changes of others that make up for it.
    pub fn repair(&self, by: &[(usize, F)]) -> Option<Forged> {
        let (jac, out, off) = self.jacobian(by);
        let order: Vec<usize> = self.order(&out).into_iter().filter(|v| by.iter().all(|b| b.0 != *v)).collect();
        let mut rows: Vec<Vec<F>> = jac.iter().zip(&off).map(|(d, off)| order.iter().map(|v| d[*v]).chain([*off]).collect()).collect();
        let pivots = reduce(&mut rows, order.len() + 1);
        if pivots.last() == Some(&order.len()) {
            return None;
        }
        let mut all = by.to_vec();
        for (row, p) in pivots.iter().enumerate() {
            if !rows[row][order.len()].is_zero() {
                all.push((order[*p], rows[row][order.len()]));
            }
        }
        self.exact(&all).then(|| self.forged(&all, None))
    }
    fn forged(&self, by: &[(usize, F)], what: Option<String>) -> Forged {
        let (l, x) = self.moved(by);
        let what = what.unwrap_or_else(|| {
            let (a, b) = (self.usual(), self.outcome(&l, &x, &mut None));
            self.names().swap_remove((0..a.len()).find(|i| a[*i] != b[*i]).unwrap())
        });
        Forged { what, changed: by.iter().map(|(v, d)| (self.vars[*v].0, self.vars[*v].1, u(self.at(*v)), u(self.at(*v) + *d))).collect(), exact: true }
    }
    /// Flip what looks like a flag, or a pair.
    pub fn flip(&self, r: &mut Rng) -> Option<Forged> {
        let flags: Vec<usize> = (0..self.vars.len()).filter(|v| u(self.at(*v)) < 2).collect();
        let (on, off): (Vec<usize>, Vec<usize>) = flags.iter().partition(|v| self.at(**v).is_one());
        // Those that make it ask first.
        let asks: Vec<usize> = off.iter().copied().filter(|v| self.vars[*v].0 == 0 && self.s.sides(self.k).iter().any(|(_, side, looking)| *looking && side.filter.uses(self.vars[*v].1))).collect();
        let mut by = vec![];
        if !asks.is_empty() && r.chance(1, 3) {
            by.push((*r.pick(&asks), F::ONE));
        } else {
            if !on.is_empty() && r.chance(3, 4) {
                by.push((*r.pick(&on), -F::ONE));
            }
            if !off.is_empty() && (by.is_empty() || r.chance(2, 3)) {
                by.push((*r.pick(&off), F::ONE));
            }
        }
        if by.is_empty() {
            return None;
        }
        self.repair(&by)
    }
    /// Have the row execute an opcode that its kind of operation is not for.
    pub fn decode(&mut self) -> Option<Forged> {
        let n = &self.s.names[&CPU];
        let l = &self.t.rows[CPU][self.i];
        let kernel = !l[n.get("is_kernel_mode").num() as usize].is_zero();
        let V::S(ops) = n.get("op") else { panic!() };
        let (flag, col) = ops.iter().map(|(name, c)| (name, c.num() as usize)).find(|(_, c)| l[*c].is_one())?;
        let bits = n.get("opcode_bits").all();
        self.opcode = bits.clone();
        let want = self.wanted();
        for opcode in (0..=255u8).filter(|o| !executes(flag, *o, kernel)) {
            let by: Vec<(usize, F)> = bits
                .iter()
                .enumerate()
                .map(|(b, c)| (self.vars.iter().position(|v| *v == (0, *c)).unwrap(), F::from_canonical_u8(opcode >> b & 1) - l[*c]))
                .collect();
            let (a, b) = self.moved(&by);
            if values(&self.kept::<1>(&lift(&a), &lift(&b))).iter().zip(&want).filter(|(x, y)| x != y).count() > 8 {
                continue;
            }
            if let Some(f) = self.repair(&by) {
                if f.changed.iter().all(|c| (c.0, c.1) != (0, col)) {
                    return Some(Forged { what: format!("it executes an opcode of another kind (cell {opcode:02x})"), ..f });
                }
            }
        }
        None
    }
    /// Answer a question that another row answers, otherwise than that one does.
    pub fn impersonate(&mut self, other: usize, r: &mut Rng) -> Option<Forged> {
        let (s, t, k) = (self.s, self.t, self.k);
        let (ctl, side, _) = s.sides(k).iter().find(|x| !x.2)?;
        let (a, b) = (&t.rows[k][other], t.next(k, other));
        let tuple: Vec<F> = side.cols.iter().map(|c| c.eval(a, b)).collect();
        let ans = answers(*ctl, s, t, &tuple);
        if ans.is_empty() || side.filter.eval(a, b).is_zero() {
            return None;
        }
        // The columns that make up the operands are taken over, those of the answer spoilt.
        let (mut by, mut cells) = (vec![], vec![]);
        for (j, c) in side.cols.iter().enumerate().skip(1) {
            for (col, _) in &c.lin {
                if by.iter().all(|x: &(usize, F)| x.0 != *col) && !a[*col].is_zero() | !t.rows[k][self.i][*col].is_zero() | ans.contains(&j) {
                    by.push((*col, a[*col] - t.rows[k][self.i][*col]));
                    if ans.contains(&j) {
                        cells.push(by.len() - 1);
                    }
                }
            }
        }
        let c = *r.pick(&cells);
        let spoilt = if a[by[c].0].is_zero() { F::ONE } else { -F::ONE };
        by[c].1 += spoilt;
        // Variables of the row come first and in order.
        self.question = Some((*ctl, tuple));
        let f = self.repair(&by);
        self.question = None;
        f.map(|f| Forged { what: format!("{}, asked of row {other}", f.what), ..f })
    }
    /// All directions that no constraint notices and that some conclusion does, as far as they
    /// are independent.
    pub fn forge(&self, r: &mut Rng) -> Vec<Forged> {
        let n = self.vars.len();
        let (jac, out, _) = self.jacobian(&[]);
        // Outcomes last, so that they are what is left free.
        let order = self.order(&out);
        let mut rows: Vec<Vec<F>> = jac.iter().map(|d| order.iter().map(|v| d[*v]).collect()).collect();
        let pivots = reduce(&mut rows, n);
        let names = self.names();
        let mut found = vec![];
        for free in (0..n).filter(|c| !pivots.contains(c)) {
            let mut dir = vec![(order[free], F::ONE)];
            for (row, p) in pivots.iter().enumerate() {
                if !rows[row][free].is_zero() {
                    dir.push((order[*p], -rows[row][free]));
                }
            }
            let Some(what) = (0..names.len()).find(|e| !dir.iter().map(|(v, d)| *d * out[*e][*v]).sum::<F>().is_zero()) else { continue };
            // Small or typical steps first.
            let mut steps = vec![F::ONE, -F::ONE];
            steps.extend(dir.iter().map(|(v, d)| -self.at(*v) * d.inverse()).filter(|t| !t.is_zero()));
            steps.push(crate::e06::felt(r));
            let hit = steps.iter().find(|t| self.exact(&dir.iter().map(|(v, d)| (*v, *d * **t)).collect::<Vec<_>>()));
            let t = hit.copied().unwrap_or(F::ONE);
            let by: Vec<_> = dir.iter().map(|(v, d)| (*v, *d * t)).collect();
            found.push(Forged { exact: hit.is_some(), ..self.forged(&by, Some(names[what].clone())) });
        }
        found
    }
    /// Whether the whole system accepts the change, and it changes a conclusion.
    fn exact(&self, by: &[(usize, F)]) -> bool {
        let (l0, x0) = (self.row(0), self.row(1));
        let (l, x) = self.moved(by);
        if values(&self.kept::<1>(&lift(&l), &lift(&x))) != self.wanted() || self.outcome(&l, &x, &mut None) == self.usual() {
            return false;
        }
        // Any instruction may be claimed to be a system call or an exception: the kernel's handlers
        // panic if it is none.
        if self.k == CPU {
            let op = self.s.names[&CPU].get("op");
            let trap = |c: &str| !l[op.get(c).num() as usize].is_zero() && l0[op.get(c).num() as usize].is_zero();
            if trap("syscall") || trap("exception") {
                return false;
            }
        }
        // Only what those tables can do is ever answered.
        for (ctl, side, looking) in self.s.sides(self.k) {
            let asked = &self.s.ctls[*ctl].looked;
            if *looking && [ARITHMETIC, LOGIC].contains(&asked.table) && !side.filter.eval(&l, &x).is_zero() {
                // One of its flags, which sets the cells that only depend on the flags.
                let cells: &[usize] = if asked.table == ARITHMETIC { &[0, asked.cols.len() - 1] } else { &[0] };
                let opcodes = &asked.cols[0].lin;
                let can = asked.filter.columns().iter().any(|flag| {
                    cells.iter().all(|j| {
                        let of = |c: &Col| c.lin.iter().find(|(c, _)| c == flag).map_or(F::ZERO, |(_, f)| *f);
                        // The opcode of a range check is free.
                        *j == 0 && opcodes.iter().all(|(c, _)| c != flag) || of(&asked.cols[*j]) == side.cols[*j].eval(&l, &x)
                    })
                });
                if !can {
                    return false;
                }
            }
        }
        for (look, members) in self.s.lookups[self.k].iter().zip(self.members) {
            for (c, f) in look.cols.iter().zip(&look.filters) {
                for (a, b) in [(self.row(-1), &l[..]), (&l, &x)].into_iter().chain(self.after.then_some((&x[..], self.row(2)))) {
                    if !f.eval(a, b).is_zero() && !members.contains(&u(c.eval(a, b))) {
                        return false;
                    }
                }
            }
            // The looked-up column itself stays.
            if look.table.eval(&l, &x) != look.table.eval(l0, x0) || look.table.eval(self.row(-1), &l) != look.table.eval(self.row(-1), l0) {
                return false;
            }
        }
        true
    }
}
/// Which opcodes an operation is for.
fn executes(flag: &str, opcode: u8, kernel: bool) -> bool {
    match flag {
        "binary_op" => matches!(opcode, 0x01..=0x04 | 0x06 | 0x10 | 0x11 | 0x1a),
        "ternary_op" => matches!(opcode, 0x08 | 0x09) || kernel && opcode == 0x0f,
        "fp254_op" => kernel && matches!(opcode, 0x0c..=0x0e),
        "eq_iszero" => matches!(opcode, 0x14 | 0x15),
        "logic_op" => matches!(opcode, 0x16..=0x18),
        "not_pop" => matches!(opcode, 0x19 | 0x50),
        "shift" => matches!(opcode, 0x1b | 0x1c),
        "jumpdest_keccak_general" => opcode == 0x5b || kernel && opcode == 0x21,
        "push_prover_input" => matches!(opcode, 0x60..=0x7f) || kernel && opcode == 0xee,
        "jumps" => matches!(opcode, 0x56 | 0x57),
        "pc_push0" => matches!(opcode, 0x58 | 0x5f),
        "dup_swap" => matches!(opcode, 0x80..=0x9f),
        "context_op" => kernel && matches!(opcode, 0xf6 | 0xf7),
        "m_op_32bytes" => kernel && matches!(opcode, 0xc0..=0xdf | 0xf8),
        "exit_kernel" => kernel && opcode == 0xf9,
        "m_op_general" => kernel && matches!(opcode, 0xfb | 0xfc),
        // System calls and exceptions are for all: the kernel looks.
        _ => true,
    }
}
pub fn cpu_state(s: &System) -> Vec<usize> {
    let n = &s.names[&CPU];
    let mut v: Vec<usize> = ["context", "program_counter", "stack_len", "is_kernel_mode", "gas", "clock"].iter().map(|c| n.get(c).num() as usize).collect();
    v.extend(n.get("mem_channels").list()[0].all());
    v
}
/// Row echelon form; the pivot columns.
fn reduce(m: &mut Vec<Vec<F>>, n: usize) -> Vec<usize> {
    let mut pivots = vec![];
    let mut r = 0;
    for c in 0..n {
        let Some(p) = (r..m.len()).find(|i| !m[*i][c].is_zero()) else { continue };
        m.swap(r, p);
        let inv = m[r][c].inverse();
        for x in &mut m[r][c..] {
            *x *= inv;
        }
        let row = m[r].clone();
        for (i, other) in m.iter_mut().enumerate() {
            if i != r && !other[c].is_zero() {
                let f = other[c];
                for j in c..n {
                    other[j] -= f * row[j];
                }
            }
        }
        pivots.push(c);
        r += 1;
        if r == m.len() {
            break;
        }
    }
    pivots
}
/// The values a lookup's table holds.
pub fn members(s: &System, t: &Trace, k: usize) -> Vec<HashSet<u64>> {
    s.lookups[k].iter().map(|look| (0..t.rows[k].len()).map(|i| u(look.table.eval(&t.rows[k][i], t.next(k, i)))).collect()).collect()
}
/// Whether a prover may choose if the value an address ends up with is kept: if it is zero and would
/// be taken for zero anyway, or belongs to a context that was given up. If `known`, whether it is a
/// zero that has to be kept.
pub fn dropped(s: &System, t: &Trace, i: usize, known: bool) -> bool {
    let n = &s.names[&MEMORY];
    let l = &t.rows[MEMORY][i];
    let is = |c: &str| !l[n.get(c).num() as usize].is_zero();
    let zero = n.get("value_limbs").all().iter().all(|c| l[*c].is_zero());
    if known {
        zero && is("mem_after_filter")
    } else {
        zero && is("maybe_in_mem_after") || is("is_stale")
    }
}
/// Whether the value of an access is the prover's to choose: the first access to an address that
/// starts with something, as long as nothing is written to it. The kernel checks what it reads there.
fn advice(s: &System, t: &Trace, i: usize) -> bool {
    let n = &s.names[&MEMORY];
    let rows = &t.rows[MEMORY];
    let at = |i: usize, c: &str| u(rows[i][n.get(c).num() as usize]);
    let address = |i: usize| ["addr_context", "addr_segment", "addr_virtual"].map(|c| at(i, c));
    // Code, the tries' data, the lists of accounts and of slots.
    let mut i = i % rows.len();
    while at(i, "is_read") == 1 && [0, 12, 34, 35].contains(&at(i, "addr_segment")) {
        if i == 0 || address(i - 1) != address(i) {
            return true;
        }
        i -= 1;
    }
    false
}
