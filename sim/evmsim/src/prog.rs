//! Random but structured contract programs: statements that the minimiser can drop, and their assembler.
use ethereum_types::U256;
use serde::{Deserialize, Serialize};
use simcore::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    C(U256),
    /// No-argument opcode.
    Env(u8),
    Un(u8, Box<E>),
    Bin(u8, Box<E>, Box<E>),
    Tri(u8, Box<E>, Box<E>, Box<E>),
    Keccak(u16, u16),
    /// kind opcode, gas, address, value, in offset/len, out offset/len
    Call(u8, Box<E>, Box<E>, Box<E>, u16, u16, u16, u16),
    /// kind opcode, value, salt, constructor, runtime
    Create(u8, Box<E>, u64, Vec<S>, Vec<S>),
    /// Init code given as bytes.
    CreateRaw(u8, Box<E>, u64, Vec<u8>),
    /// Init code is whatever the memory holds: kind opcode, offset, length.
    CreateMem(u8, u16, u16),
    /// Push all, apply DUP/SWAP opcodes, keep the top.
    Stack(Vec<E>, Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum S {
    Pop(E),
    SStore(E, E),
    TStore(E, E),
    MStore(u16, E),
    MStore8(u16, E),
    Log(u16, u16, Vec<E>),
    /// CALLDATACOPY / CODECOPY / RETURNDATACOPY / MCOPY: dst, src, len
    Copy(u8, u16, E, u16),
    ExtCopy(E, u16, u16, u16),
    If(E, Vec<S>),
    Loop(u8, Vec<S>),
    Return(u16, u16),
    Revert(u16, u16),
    Stop,
    SelfDestruct(E),
    Raw(Vec<u8>),
    /// Jump over that many bytes of that value.
    Far(u16, u8),
    /// Conditional jump to a 0x5b that is push data, after some jump destinations and before some.
    BadJump(E, u8, u8),
    /// Call a precompile (call opcode, address, input, gas); store a digest of success and output.
    Pre(u8, u8, Vec<u8>, u64, u64),
}

#[derive(Default)]
struct Asm {
    code: Vec<u8>,
    data: Vec<(usize, Vec<u8>)>,
}
impl Asm {
    fn push(&mut self, u: U256) {
        let n = u.bits().div_ceil(8);
        let mut b = [0; 32];
        u.to_big_endian(&mut b);
        self.code.push(0x5f + n as u8);
        self.code.extend(&b[32 - n..]);
    }
    fn n(&mut self, n: u16) {
        self.push(n.into())
    }
    fn label(&mut self) -> usize {
        self.code.extend([0x61, 0, 0]);
        self.code.len() - 2
    }
    fn patch(&mut self, at: usize, v: usize) {
        self.code[at..at + 2].copy_from_slice(&(v as u16).to_be_bytes());
    }
    fn e(&mut self, e: &E) {
        match e {
            E::C(u) => self.push(*u),
            E::Env(o) => self.code.push(*o),
            E::Un(o, a) => {
                self.e(a);
                self.code.push(*o)
            }
            E::Bin(o, a, b) => {
                self.e(b);
                self.e(a);
                self.code.push(*o)
            }
            E::Tri(o, a, b, c) => {
                self.e(c);
                self.e(b);
                self.e(a);
                self.code.push(*o)
            }
            E::Keccak(o, l) => {
                self.n(*l);
                self.n(*o);
                self.code.push(0x20)
            }
            E::Call(k, g, a, v, io, il, oo, ol) => {
                for x in [ol, oo, il, io] {
                    self.n(*x)
                }
                if matches!(k, 0xf1 | 0xf2) {
                    self.e(v)
                }
                self.e(a);
                self.e(g);
                self.code.push(*k)
            }
            E::Create(k, v, salt, ctor, runtime) => {
                let init = assemble_init(ctor, runtime);
                self.create(*k, v, *salt, init)
            }
            E::CreateRaw(k, v, salt, init) => self.create(*k, v, *salt, init.clone()),
            E::CreateMem(k, o, l) => {
                self.push(3.into());
                self.n(*l);
                self.n(*o);
                self.push(0.into());
                self.code.push(*k);
                if *k == 0xf0 {
                    self.code.extend([0x90, 0x50]);
                }
            }
            E::Stack(es, ops) => {
                for x in es {
                    self.e(x)
                }
                self.code.extend(ops);
                // Drop everything below the top: store the top, pop the rest, load it again.
                let dups = ops.iter().filter(|o| (0x80..=0x8f).contains(*o)).count();
                let depth = es.len() + dups;
                for _ in 1..depth {
                    self.code.extend([0x90, 0x50]);
                }
            }
        }
    }
    fn create(&mut self, k: u8, v: &E, salt: u64, init: Vec<u8>) {
        let len = init.len();
        self.n(len as u16);
        let at = self.label();
        self.data.push((at, init));
        self.n(512);
        self.code.push(0x39);
        if k == 0xf5 {
            self.push(salt.into())
        }
        self.n(len as u16);
        self.n(512);
        self.e(v);
        self.code.push(k)
    }
    fn s(&mut self, s: &S) {
        match s {
            S::Pop(e) => {
                self.e(e);
                self.code.push(0x50)
            }
            S::SStore(k, v) | S::TStore(k, v) => {
                self.e(v);
                self.e(k);
                self.code.push(if matches!(s, S::SStore(..)) { 0x55 } else { 0x5d })
            }
            S::MStore(o, e) | S::MStore8(o, e) => {
                self.e(e);
                self.n(*o);
                self.code.push(if matches!(s, S::MStore(..)) { 0x52 } else { 0x53 })
            }
            S::Log(o, l, ts) => {
                for t in ts {
                    self.e(t)
                }
                self.n(*l);
                self.n(*o);
                self.code.push(0xa0 + ts.len() as u8)
            }
            S::Copy(op, d, src, l) => {
                self.n(*l);
                self.e(src);
                self.n(*d);
                self.code.push(*op)
            }
            S::ExtCopy(a, d, src, l) => {
                self.n(*l);
                self.n(*src);
                self.n(*d);
                self.e(a);
                self.code.push(0x3c)
            }
            S::If(c, body) => {
                self.e(c);
                self.code.push(0x15);
                let at = self.label();
                self.code.push(0x57);
                for x in body {
                    self.s(x)
                }
                let here = self.code.len();
                self.patch(at, here);
                self.code.push(0x5b)
            }
            S::Loop(n, body) => {
                // Counter in transient slot-free style: kept on the stack below the body's operands.
                self.n(*n as u16);
                let top = self.code.len();
                self.code.push(0x5b);
                for x in body {
                    self.s(x)
                }
                // counter -= 1; loop while nonzero
                self.code.extend([0x60, 1, 0x90, 0x03, 0x80]);
                let at = self.label();
                self.patch(at, top);
                self.code.push(0x57);
                self.code.push(0x50)
            }
            S::Return(o, l) | S::Revert(o, l) => {
                self.n(*l);
                self.n(*o);
                self.code.push(if matches!(s, S::Return(..)) { 0xf3 } else { 0xfd })
            }
            S::Stop => self.code.push(0),
            S::SelfDestruct(e) => {
                self.e(e);
                self.code.push(0xff)
            }
            S::Raw(b) => self.code.extend(b),
            S::Far(n, b) => {
                let at = self.label();
                self.code.push(0x56);
                self.code.extend(std::iter::repeat(*b).take(*n as usize));
                let here = self.code.len();
                self.patch(at, here);
                self.code.push(0x5b)
            }
            S::Pre(op, n, input, gas, slot) => {
                for (i, w) in input.chunks(32).enumerate() {
                    let mut b = [0u8; 32];
                    b[..w.len()].copy_from_slice(w);
                    self.push(U256::from_big_endian(&b));
                    self.n(0x100 + 32 * i as u16);
                    self.code.push(0x52);
                }
                // out length and offset, input, value, address, gas
                self.n(128);
                self.n(32);
                self.n(input.len() as u16);
                self.n(0x100);
                if matches!(*op, 0xf1 | 0xf2) {
                    self.code.push(0x5f);
                }
                self.push(U256::from(*n));
                self.push(U256::from(*gas));
                self.code.push(*op);
                // mem[0] = success, mem[160] = length of the output
                self.code.extend([0x5f, 0x52, 0x3d, 0x60, 0xa0, 0x52, 0x60, 0xc0, 0x5f, 0x20]);
                self.push(U256::from(*slot));
                self.code.push(0x55);
            }
            S::BadJump(c, pre, post) => {
                for _ in 0..*pre {
                    self.code.push(0x5b)
                }
                self.e(c);
                let at = self.label();
                self.code.push(0x57);
                // PUSHn with a jump destination as data.
                self.code.extend([0x61, 0x5b, 0x5b, 0x50]);
                let here = self.code.len() - 3 + (*post as usize & 1);
                self.patch(at, here);
                for _ in 0..*post {
                    self.code.push(0x5b)
                }
            }
        }
    }
    fn finish(mut self) -> Vec<u8> {
        if !self.data.is_empty() {
            self.code.push(0);
        }
        for (at, d) in std::mem::take(&mut self.data) {
            let here = self.code.len();
            self.patch(at, here);
            self.code.extend(d);
        }
        self.code
    }
}
pub fn assemble(p: &[S]) -> Vec<u8> {
    let mut a = Asm::default();
    for s in p {
        a.s(s)
    }
    a.finish()
}
/// Constructor statements, then deployment of the runtime program.
pub fn assemble_init(ctor: &[S], runtime: &[S]) -> Vec<u8> {
    let rt = assemble(runtime);
    let mut a = Asm::default();
    for s in ctor {
        a.s(s)
    }
    let len = rt.len();
    a.n(len as u16);
    let at = a.label();
    a.data.push((at, rt));
    a.code.extend([0x5f, 0x39]);
    a.n(len as u16);
    a.code.extend([0x5f, 0xf3]);
    a.finish()
}

/// What programs may refer to.
pub struct Env<'a> {
    pub addrs: &'a [U256],
    pub slots: &'a [u64],
}
pub fn konst(r: &mut Rng) -> U256 {
    match r.weighted(&[4, 4, 2, 2, 2, 1]) {
        0 => r.below(4).into(),
        1 => r.below(300).into(),
        2 => U256::one() << r.idx(256),
        3 => (U256::one() << r.idx(256)).overflowing_sub(U256::one()).0,
        4 => U256::from_big_endian(&r.b32()),
        _ => U256::MAX - r.below(3),
    }
}
pub fn expr(r: &mut Rng, env: &Env, d: usize) -> E {
    if d == 0 {
        return match r.weighted(&[5, 3, 2]) {
            0 => E::C(konst(r)),
            1 => E::Env(*r.pick(&[
                0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a,
            ])),
            _ => E::C(*r.pick(env.addrs)),
        };
    }
    let sub = |r: &mut Rng| Box::new(if r.chance(2, 3) { expr(r, env, d - 1) } else { expr(r, env, 0) });
    match r.weighted(&[4, 12, 2, 2, 8, 5, 2, 2, 1, 2]) {
        0 => E::Un(*r.pick(&[0x15, 0x19]), sub(r)),
        1 => E::Bin(
            *r.pick(&[
                1, 2, 3, 4, 5, 6, 7, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d, 4, 6, 2, 3,
            ]),
            sub(r),
            sub(r),
        ),
        2 => E::Tri(*r.pick(&[8, 9]), sub(r), sub(r), sub(r)),
        3 => E::Keccak(r.below(100) as u16, r.below(150) as u16),
        4 => {
            let op = *r.pick(&[0x31, 0x3b, 0x3f, 0x40, 0x35, 0x54, 0x54, 0x54, 0x5c, 0x51, 0x49]);
            let arg = match op {
                0x31 | 0x3b | 0x3f => E::C(*r.pick(env.addrs)),
                0x54 => E::C((*r.pick(env.slots)).into()),
                0x5c => tkey(r, env),
                0x51 => E::C(r.below(200).into()),
                0x35 => E::C(r.below(100).into()),
                0x49 => E::C(r.below(4).into()),
                _ => E::Bin(0x03, Box::new(E::Env(0x43)), Box::new(E::C(U256::from(r.below(260))))),
            };
            E::Un(op, Box::new(arg))
        }
        5 => {
            let k = *r.pick(&[0xf1, 0xf1, 0xf1, 0xf2, 0xf4, 0xfa]);
            let g = match r.below(4) {
                0 => E::Env(0x5a),
                1 => E::C(r.below(3000).into()),
                2 => E::C(r.range(3000, 90000).into()),
            _ => E::C(U256::from(100_000 * r.range(1, 8))),
            };
            let v = match r.below(5) {
                0 => E::C(r.below(1000).into()),
                1 if r.chance(1, 3) => E::Un(0x31, Box::new(E::Env(0x30))),
                _ => E::C(U256::zero()),
            };
            E::Call(k, Box::new(g), Box::new(E::C(*r.pick(env.addrs))), Box::new(v), r.below(64) as u16, r.below(140) as u16, r.below(128) as u16, r.below(80) as u16)
        }
        6 => {
            let k = *r.pick(&[0xf0, 0xf5, 0xf5]);
            let v = E::C(if r.chance(1, 3) { r.below(50).into() } else { U256::zero() });
            match r.below(9) {
                8 => E::CreateMem(k, r.below(100) as u16, *r.pick(&[0, 1, 30, 3000, 49152, 49153])),
                0 => E::CreateRaw(k, Box::new(v), r.below(3), {
                    let n = r.idx(8);
                    r.bytes(n)
                }),
                // deploys code starting with 0xEF
                1 => E::CreateRaw(k, Box::new(v), r.below(3), vec![0x60, 0xef, 0x5f, 0x53, 0x60, r.range(0, 3) as u8, 0x5f, 0xf3]),
                // deploys zeros, perhaps more than the size limit
                2 => E::CreateRaw(k, Box::new(v), r.below(3), {
                    let n = *r.pick(&[1u16, 100, 24576, 24577, 300]);
                    let b = n.to_be_bytes();
                    vec![0x61, b[0], b[1], 0x5f, 0xf3]
                }),
                // reverts with data
                3 => E::CreateRaw(k, Box::new(v), r.below(3), vec![0x60, 0x2a, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xfd]),
                _ => {
                    let ctor = stmts(r, env, 0, 3);
                    let rt = stmts(r, env, 1, 4);
                    E::Create(k, Box::new(v), r.below(3), ctor, rt)
                }
            }
        }
        7 => {
            let n = r.range(1, 17) as usize;
            let es = (0..n).map(|_| expr(r, env, 0)).collect();
            let k = r.idx(4);
            let ops = (0..k)
                .filter_map(|_| {
                    let i = r.idx(n);
                    if r.chance(1, 2) {
                        Some(0x80 + i.min(15) as u8)
                    } else {
                        (i > 0).then(|| 0x8f + i.min(16) as u8)
                    }
                })
                .collect();
            E::Stack(es, ops)
        }
        8 => E::Bin(0x0a, sub(r), Box::new(E::C(r.below(1000).into()))),
        _ => E::Un(0x54, Box::new(expr(r, env, 0))),
    }
}
/// A transient slot; keys, values and addresses share a domain, so that they get confused if they can be.
pub fn tkey(r: &mut Rng, env: &Env) -> E {
    match r.below(8) {
        0 => E::Env(0x30),
        1 => E::C(*r.pick(env.addrs)),
        2 => E::C(r.below(3).into()),
        _ => E::C((*r.pick(env.slots)).into()),
    }
}
pub fn tstore(r: &mut Rng, env: &Env) -> S {
    let k = tkey(r, env);
    S::TStore(
        k,
        match r.below(3) {
            0 => expr(r, env, 1),
            _ => tkey(r, env),
        },
    )
}
pub fn stmt(r: &mut Rng, env: &Env, d: usize) -> S {
    let slot = |r: &mut Rng| if r.chance(5, 6) { E::C((*r.pick(env.slots)).into()) } else { E::C(konst(r)) };
    match r.weighted(&[4, 14, 4, 5, 2, 5, 4, 2, if d > 0 { 4 } else { 0 }, if d > 0 { 3 } else { 0 }, 1, 1, 1, 1, 1, 6, 1, 1, 1]) {
        0 => S::Pop(expr(r, env, 2)),
        1 => {
            let v = match r.below(4) {
                0 => E::C(U256::zero()),
                1 => E::C(r.below(3).into()),
                _ => expr(r, env, 2),
            };
            S::SStore(slot(r), v)
        }
        2 => tstore(r, env),
        3 => S::MStore(r.below(160) as u16, expr(r, env, 2)),
        4 => S::MStore8(r.below(160) as u16, expr(r, env, 1)),
        5 => {
            let n = r.idx(5);
            S::Log(r.below(96) as u16, r.below(100) as u16, (0..n).map(|_| expr(r, env, 1)).collect())
        }
        6 => {
            let op = *r.pick(&[0x37, 0x39, 0x3e, 0x5e]);
            let src = if op == 0x3e || r.chance(4, 5) { E::C(r.below(40).into()) } else if op == 0x5e { E::C(r.below(3000).into()) } else { E::C(konst(r)) };
            let len = if op == 0x3e && r.chance(2, 3) { 0 } else { r.below(100) };
            S::Copy(op, r.below(150) as u16, src, len as u16)
        }
        7 => S::ExtCopy(E::C(*r.pick(env.addrs)), r.below(100) as u16, r.below(60) as u16, r.below(100) as u16),
        8 => S::If(expr(r, env, 1), stmts(r, env, d - 1, 3)),
        9 => S::Loop(r.range(1, 4) as u8, stmts(r, env, 0, 2)),
        10 => S::Return(r.below(100) as u16, r.below(100) as u16),
        11 => S::Revert(r.below(100) as u16, r.below(100) as u16),
        12 => S::Stop,
        13 => S::SelfDestruct(E::C(*r.pick(env.addrs))),
        14 => {
            let n = r.range(1, 3) as usize;
            S::Raw(r.bytes(n))
        }
        16 => S::Far(
            match r.below(4) {
                0 => r.below(40),
                1 => r.range(20000, 24000),
                2 => r.range(24000, 40000),
                _ => r.below(3000),
            } as u16,
            *r.pick(&[0, 0, 0x5b, 0x60, 0x7f, 1]),
        ),
        17 => S::BadJump(expr(r, env, 0), *r.pick(&[0, 1, 30, 31, 32, 33, 64]), *r.pick(&[0, 1, 2, 31, 40])),
        18 => pre(r, env.slots),
        _ => {
            // A call whose result is kept.
            let e = loop {
                let e = expr(r, env, 1);
                if matches!(e, E::Call(..) | E::Create(..) | E::CreateRaw(..) | E::CreateMem(..)) {
                    break e;
                }
            };
            if r.chance(1, 2) {
                S::SStore(slot(r), e)
            } else {
                S::Pop(e)
            }
        }
    }
}
/// A call of a precompile with an input that means something to it.
pub fn pre(r: &mut Rng, slots: &[u64]) -> S {
    let n = *r.pick(&[1u8, 1, 1, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9, 10]);
    let (i, g) = crate::precomp::sample(r, n as u64);
    S::Pre(*r.pick(&[0xf1, 0xf2, 0xf4, 0xfa]), n, i, g, *r.pick(slots))
}
pub fn stmts(r: &mut Rng, env: &Env, d: usize, max: usize) -> Vec<S> {
    let n = r.range(1, max as u64) as usize;
    (0..n).map(|_| stmt(r, env, d)).collect()
}
fn shrink_e(e: &E) -> Vec<E> {
    let mut o = vec![];
    let sub: Vec<&E> = match e {
        E::C(u) if u.bits() > 8 => {
            o.push(E::C(1.into()));
            vec![]
        }
        E::C(_) => vec![],
        E::Env(_) => {
            o.push(E::C(1.into()));
            vec![]
        }
        E::Un(_, a) => vec![a],
        E::Bin(_, a, b) => vec![a, b],
        E::Tri(_, a, b, c) => vec![a, b, c],
        E::Keccak(..) => {
            o.push(E::C(1.into()));
            vec![]
        }
        E::Stack(es, ops) => {
            if !ops.is_empty() {
                o.push(E::Stack(es.clone(), vec![]));
            }
            es.iter().collect()
        }
        E::Call(k, g, a, v, io, il, oo, ol) => {
            if (*io, *il, *oo, *ol) != (0, 0, 0, 0) {
                o.push(E::Call(*k, g.clone(), a.clone(), v.clone(), 0, 0, 0, 0));
            }
            vec![g, v]
        }
        E::Create(k, v, s, c, r) => {
            for x in simcore::drop_chunks(c) {
                o.push(E::Create(*k, v.clone(), *s, x, r.clone()));
            }
            for x in simcore::drop_chunks(r) {
                o.push(E::Create(*k, v.clone(), *s, c.clone(), x));
            }
            for (i, s1) in c.iter().enumerate() {
                for s2 in shrink_s(s1) {
                    let mut c2 = c.clone();
                    c2[i] = s2;
                    o.push(E::Create(*k, v.clone(), *s, c2, r.clone()));
                }
            }
            vec![]
        }
        E::CreateRaw(k, v, s, b) => {
            for x in simcore::drop_chunks(b) {
                o.push(E::CreateRaw(*k, v.clone(), *s, x));
            }
            vec![]
        }
        E::CreateMem(k, _, l) => {
            if *l > 0 {
                o.push(E::CreateMem(*k, 0, l / 2));
            }
            vec![]
        }
    };
    o.extend(sub.into_iter().cloned());
    // Simplify operands in place.
    match e {
        E::Un(k, a) => o.extend(shrink_e(a).into_iter().map(|a| E::Un(*k, a.into()))),
        E::Bin(k, a, b) => {
            o.extend(shrink_e(a).into_iter().map(|a| E::Bin(*k, a.into(), b.clone())));
            o.extend(shrink_e(b).into_iter().map(|b| E::Bin(*k, a.clone(), b.into())));
        }
        E::Call(k, g, a, v, io, il, oo, ol) => {
            o.extend(shrink_e(v).into_iter().map(|v| E::Call(*k, g.clone(), a.clone(), v.into(), *io, *il, *oo, *ol)));
        }
        _ => {}
    }
    o
}
/// Simpler statements.
pub fn shrink_s(s: &S) -> Vec<S> {
    match s {
        S::Pop(e) => shrink_e(e).into_iter().map(S::Pop).collect(),
        S::SStore(k, v) => {
            let mut o = vec![S::Pop(v.clone())];
            o.extend(shrink_e(k).into_iter().map(|k| S::SStore(k, v.clone())));
            o.extend(shrink_e(v).into_iter().map(|v| S::SStore(k.clone(), v)));
            o
        }
        S::TStore(k, v) => {
            let mut o = vec![S::Pop(v.clone())];
            o.extend(shrink_e(v).into_iter().map(|v| S::TStore(k.clone(), v)));
            o
        }
        S::MStore(a, e) => shrink_e(e).into_iter().map(|e| S::MStore(*a, e)).collect(),
        S::MStore8(a, e) => shrink_e(e).into_iter().map(|e| S::MStore8(*a, e)).collect(),
        S::Log(a, l, ts) => simcore::drop_chunks(ts).into_iter().map(|ts| S::Log(*a, *l, ts)).chain((*l > 0).then(|| S::Log(0, 0, ts.clone()))).collect(),
        S::If(c, b) => {
            let mut o: Vec<S> = b.clone();
            o.extend(simcore::drop_chunks(b).into_iter().map(|b| S::If(c.clone(), b)));
            o.extend(shrink_e(c).into_iter().map(|c| S::If(c, b.clone())));
            o
        }
        S::Loop(n, b) => {
            let mut o: Vec<S> = b.clone();
            o.extend(simcore::drop_chunks(b).into_iter().map(|b| S::Loop(*n, b)));
            o
        }
        S::Pre(op, n, i, g, s) if !i.is_empty() && *n != 8 => vec![S::Pre(*op, *n, i[..i.len() / 2].to_vec(), *g, *s), S::Pre(*op, *n, i[..i.len() - 1].to_vec(), *g, *s)],
        S::Far(n, b) if *n > 0 => vec![S::Far(n / 2, *b), S::Far(n - 1, 0)],
        S::BadJump(c, a, b) if *a > 0 || *b > 0 => vec![S::BadJump(c.clone(), a / 2, *b), S::BadJump(c.clone(), *a, b / 2), S::BadJump(E::C(1.into()), *a, *b)],
        _ => vec![],
    }
}
