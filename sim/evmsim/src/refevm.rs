//! Reference Ethereum state transition (Cancun), written from the yellow paper and the EIPs,
//! independent of the code under test. Besides the new state and receipt it reports what a
//! tracing node reports: accounts and slots accessed, and what changed.
use crate::precomp;
use ethereum_types::{Address, H256, U256, U512};
use keccak_hash::keccak;
use simcore::refmpt::{rlp_list, rlp_str};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Acct {
    pub nonce: u64,
    pub balance: U256,
    pub code: Rc<Vec<u8>>,
    pub storage: BTreeMap<U256, U256>,
}
impl Acct {
    pub fn is_empty(&self) -> bool {
        self.nonce == 0 && self.balance.is_zero() && self.code.is_empty()
    }
}
pub type World = BTreeMap<Address, Acct>;

#[derive(Clone, Debug)]
pub struct Header {
    pub coinbase: Address,
    pub timestamp: u64,
    pub number: u64,
    pub random: H256,
    pub gas_limit: u64,
    pub chain_id: u64,
    pub base_fee: u64,
    pub excess_blob_gas: u64,
    pub beacon_root: H256,
    pub prev_hashes: Vec<H256>,
}
impl Header {
    pub fn blob_base_fee(&self) -> U256 {
        // fake_exponential(1, excess, 3338477)
        let (mut i, mut out, d) = (U256::one(), U256::zero(), U256::from(3338477u64));
        let mut acc = d;
        while !acc.is_zero() {
            out += acc;
            acc = acc * U256::from(self.excess_blob_gas) / (d * i);
            i += U256::one();
        }
        out / d
    }
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub ty: u8,
    pub from: Address,
    pub nonce: u64,
    pub to: Option<Address>,
    pub value: U256,
    pub data: Vec<u8>,
    pub gas_limit: u64,
    pub max_fee: u64,
    pub max_prio: u64,
    pub access_list: Vec<(Address, Vec<U256>)>,
    pub blob_hashes: Vec<H256>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub addr: Address,
    pub topics: Vec<H256>,
    pub data: Vec<u8>,
}

#[derive(Clone, Default)]
struct St {
    world: World,
    warm: BTreeSet<Address>,
    warm_slots: BTreeSet<(Address, U256)>,
    transient: BTreeMap<(Address, U256), U256>,
    refund: i64,
    logs: Vec<Log>,
    destroyed: BTreeSet<Address>,
    created: BTreeSet<Address>,
    touched: BTreeSet<Address>,
}
/// What was accessed; not undone by reverts.
#[derive(Default, Clone, Debug)]
pub struct Access {
    pub accts: BTreeSet<Address>,
    pub slots: BTreeSet<(Address, U256)>,
}
pub struct TxOut {
    pub success: bool,
    pub gas_used: u64,
    pub logs: Vec<Log>,
    pub access: Access,
    pub created: Option<Address>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub struct Evm<'a> {
    st: St,
    hdr: &'a Header,
    tx: &'a Tx,
    gas_price: u64,
    orig: World,
    acc: Access,
    probes: BTreeMap<&'static str, u64>,
}

struct Frame {
    code: Rc<Vec<u8>>,
    this: Address,
    caller: Address,
    value: U256,
    input: Vec<u8>,
    is_static: bool,
    depth: usize,
    gas: u64,
}
enum End {
    Ok(Vec<u8>),
    Revert(Vec<u8>),
    Halt,
}
struct Halt;
type R<T> = Result<T, Halt>;

fn addr_of(u: U256) -> Address {
    let mut b = [0; 32];
    u.to_big_endian(&mut b);
    Address::from_slice(&b[12..])
}
pub fn u_of(a: Address) -> U256 {
    U256::from_big_endian(a.as_bytes())
}
pub fn be(u: U256) -> [u8; 32] {
    let mut b = [0; 32];
    u.to_big_endian(&mut b);
    b
}
pub fn rlp_uint(u: U256) -> Vec<u8> {
    let b = be(u);
    rlp_str(&b[b.iter().position(|x| *x != 0).unwrap_or(32)..])
}
pub fn create_address(sender: Address, nonce: u64) -> Address {
    let h = keccak(rlp_list(&[rlp_str(sender.as_bytes()), rlp_uint(nonce.into())]));
    Address::from_slice(&h.0[12..])
}
pub fn create2_address(sender: Address, salt: U256, init: &[u8]) -> Address {
    let mut b = vec![0xff];
    b.extend(sender.as_bytes());
    b.extend(be(salt));
    b.extend(keccak(init).0);
    Address::from_slice(&keccak(b).0[12..])
}
pub fn is_precompile(a: Address) -> Option<u64> {
    let u = u_of(a);
    (u >= 1.into() && u <= 10.into()).then(|| u.as_u64())
}
fn neg(u: U256) -> U256 {
    (!u).overflowing_add(U256::one()).0
}
fn is_neg(u: U256) -> bool {
    u.bit(255)
}
fn abs(u: U256) -> U256 {
    if is_neg(u) {
        neg(u)
    } else {
        u
    }
}
fn jumpdests(code: &[u8]) -> BTreeSet<usize> {
    let (mut i, mut out) = (0, BTreeSet::new());
    while i < code.len() {
        match code[i] {
            0x5b => {
                out.insert(i);
            }
            c @ 0x60..=0x7f => i += c as usize - 0x5f,
            _ => {}
        }
        i += 1;
    }
    out
}
fn slice(src: &[u8], off: U256, len: usize) -> Vec<u8> {
    let mut o = vec![0; len];
    if off < U256::from(src.len()) {
        let s = &src[off.as_usize()..];
        let n = s.len().min(len);
        o[..n].copy_from_slice(&s[..n]);
    }
    o
}
fn words(n: u64) -> u64 {
    n.div_ceil(32)
}

struct Machine {
    stack: Vec<U256>,
    mem: Vec<u8>,
    gas: u64,
    ret: Vec<u8>,
}
impl Machine {
    fn pop(&mut self) -> R<U256> {
        self.stack.pop().ok_or(Halt)
    }
    fn push(&mut self, u: U256) -> R<()> {
        if self.stack.len() >= 1024 {
            return Err(Halt);
        }
        self.stack.push(u);
        Ok(())
    }
    fn charge(&mut self, g: u64) -> R<()> {
        if self.gas < g {
            self.gas = 0;
            return Err(Halt);
        }
        self.gas -= g;
        Ok(())
    }
    fn need(&self, n: usize) -> R<()> {
        if self.stack.len() < n {
            Err(Halt)
        } else {
            Ok(())
        }
    }
    /// Charges memory expansion; returns the range as usize.
    fn expand(&mut self, off: U256, len: U256) -> R<(usize, usize)> {
        if len.is_zero() {
            return Ok((0, 0));
        }
        let end = off.checked_add(len).ok_or(Halt)?;
        if end > U256::from(u32::MAX) {
            return Err(Halt);
        }
        let end = end.as_u64();
        let (old, new) = (self.mem.len() as u64 / 32, words(end));
        if new > old {
            let c = |w: u64| 3 * w + w * w / 512;
            self.charge(c(new) - c(old))?;
            self.mem.resize(new as usize * 32, 0);
        }
        Ok((off.as_usize(), len.as_usize()))
    }
    fn copy_cost(&mut self, len: U256) -> R<()> {
        if len > U256::from(u32::MAX) {
            return Err(Halt);
        }
        self.charge(3 * words(len.as_u64()))
    }
}

impl<'a> Evm<'a> {
    fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_default() += 1;
    }
    fn acct(&self, a: Address) -> Option<&Acct> {
        self.st.world.get(&a)
    }
    fn acct_mut(&mut self, a: Address) -> &mut Acct {
        self.st.touched.insert(a);
        self.st.world.entry(a).or_default()
    }
    fn balance(&self, a: Address) -> U256 {
        self.acct(a).map_or(U256::zero(), |x| x.balance)
    }
    fn dead(&self, a: Address) -> bool {
        self.acct(a).map_or(true, |x| x.is_empty())
    }
    fn code(&self, a: Address) -> Rc<Vec<u8>> {
        self.acct(a).map_or_else(Default::default, |x| x.code.clone())
    }
    /// Marks warm; true if it was cold.
    fn warm(&mut self, a: Address) -> bool {
        self.acc.accts.insert(a);
        self.st.warm.insert(a)
    }
    fn transfer(&mut self, from: Address, to: Address, v: U256) {
        self.acc.accts.insert(to);
        if !v.is_zero() {
            self.acct_mut(from).balance -= v;
            self.acct_mut(to).balance += v;
        } else {
            self.st.touched.insert(to);
        }
    }

    /// A call into `code_addr` with the effects of a message call; returns (success, gas left, output).
    fn call(&mut self, f: Frame, code_addr: Address, transfers: bool) -> (bool, u64, Vec<u8>) {
        let snap = self.st.clone();
        if transfers {
            self.transfer(f.caller, f.this, f.value);
        }
        if let Some(n) = is_precompile(code_addr) {
            let r = precomp::run(n, &f.input, f.gas);
            return match r {
                Some((cost, out)) if cost <= f.gas => {
                    self.probe("precompile ok");
                    (true, f.gas - cost, out)
                }
                _ => {
                    self.probe("precompile failed");
                    self.st = snap;
                    (false, 0, vec![])
                }
            };
        }
        let (end, gas) = self.run(f);
        match end {
            End::Ok(o) => (true, gas, o),
            End::Revert(o) => {
                self.st = snap;
                (false, gas, o)
            }
            End::Halt => {
                self.st = snap;
                (false, 0, vec![])
            }
        }
    }

    /// Runs init code at `addr`. (success, gas left, returndata)
    fn create(&mut self, sender: Address, addr: Address, value: U256, init: Vec<u8>, gas: u64, depth: usize) -> (bool, u64, Vec<u8>) {
        self.acc.accts.insert(addr);
        let snap = self.st.clone();
        if self.acct(addr).is_some_and(|a| a.nonce != 0 || !a.code.is_empty()) {
            self.probe("create collision");
            return (false, 0, vec![]);
        }
        self.st.created.insert(addr);
        self.acct_mut(addr).nonce = 1;
        self.transfer(sender, addr, value);
        let f = Frame { code: Rc::new(init), this: addr, caller: sender, value, input: vec![], is_static: false, depth, gas };
        let (end, gas) = self.run(f);
        match end {
            End::Ok(code) => {
                if code.first() == Some(&0xef) {
                    self.probe("create EF refused");
                } else if code.len() > 24576 {
                    self.probe("create too large");
                } else if code.len() as u64 * 200 > gas {
                    self.probe("create deposit unaffordable");
                } else {
                    let left = gas - code.len() as u64 * 200;
                    self.acct_mut(addr).code = Rc::new(code);
                    self.probe("create ok");
                    return (true, left, vec![]);
                }
                self.st = snap;
                (false, 0, vec![])
            }
            End::Revert(o) => {
                self.probe("create reverted");
                self.st = snap;
                (false, gas, o)
            }
            End::Halt => {
                self.probe("create halted");
                self.st = snap;
                (false, 0, vec![])
            }
        }
    }

    fn run(&mut self, f: Frame) -> (End, u64) {
        let mut m = Machine { stack: vec![], mem: vec![], gas: f.gas, ret: vec![] };
        let jd = jumpdests(&f.code);
        let mut pc = 0usize;
        loop {
            let op = f.code.get(pc).copied().unwrap_or(0);
            match self.step(&f, &mut m, &mut pc, op, &jd) {
                Ok(None) => {}
                Ok(Some(end)) => return (end, m.gas),
                Err(Halt) => {
                    self.probe(match op {
                        0x0c..=0x0f | 0x1e | 0x1f | 0x21..=0x2f | 0x4b..=0x4f | 0xa5..=0xef | 0xf6..=0xf9 | 0xfb | 0xfc | 0xfe => "halt: invalid opcode",
                        _ if m.gas == 0 => "halt: out of gas",
                        _ => "halt: other",
                    });
                    return (End::Halt, 0);
                }
            }
        }
    }

    fn step(&mut self, f: &Frame, m: &mut Machine, pc: &mut usize, op: u8, jd: &BTreeSet<usize>) -> R<Option<End>> {
        let b = |x: bool| if x { U256::one() } else { U256::zero() };
        *pc += 1;
        // Stack requirements come before gas: an underflow is a halt either way.
        match op {
            0x00 => return Ok(Some(End::Ok(vec![]))),
            0x01..=0x0b => {
                let cost = match op {
                    0x01 | 0x03 => 3,
                    0x08 | 0x09 => 8,
                    0x0a => 10,
                    _ => 5,
                };
                m.need(if op == 8 || op == 9 { 3 } else { 2 })?;
                m.charge(cost)?;
                let (x, y) = (m.pop()?, m.pop()?);
                let z = match op {
                    0x01 => x.overflowing_add(y).0,
                    0x02 => x.overflowing_mul(y).0,
                    0x03 => x.overflowing_sub(y).0,
                    0x04 => x.checked_div(y).unwrap_or_default(),
                    0x05 => {
                        if y.is_zero() {
                            U256::zero()
                        } else {
                            let q = abs(x) / abs(y);
                            if is_neg(x) != is_neg(y) { neg(q) } else { q }
                        }
                    }
                    0x06 => x.checked_rem(y).unwrap_or_default(),
                    0x07 => {
                        if y.is_zero() {
                            U256::zero()
                        } else {
                            let r = abs(x) % abs(y);
                            if is_neg(x) { neg(r) } else { r }
                        }
                    }
                    0x08 | 0x09 => {
                        let n = m.pop()?;
                        if n.is_zero() {
                            n
                        } else {
                            let v = if op == 8 { U512::from(x) + U512::from(y) } else { x.full_mul(y) };
                            (v % U512::from(n)).try_into().unwrap()
                        }
                    }
                    0x0a => {
                        m.charge(50 * (y.bits() as u64).div_ceil(8))?;
                        x.overflowing_pow(y).0
                    }
                    _ => {
                        if x >= 31.into() {
                            y
                        } else {
                            let bit = x.as_usize() * 8 + 7;
                            let mask = (U256::one() << (bit + 1)) - 1;
                            if y.bit(bit) { y | !mask } else { y & mask }
                        }
                    }
                };
                m.push(z)?;
            }
            0x10..=0x1d => {
                m.need(if op == 0x15 || op == 0x19 { 1 } else { 2 })?;
                m.charge(3)?;
                let x = m.pop()?;
                let z = match op {
                    0x15 => b(x.is_zero()),
                    0x19 => !x,
                    _ => {
                        let y = m.pop()?;
                        match op {
                            0x10 => b(x < y),
                            0x11 => b(x > y),
                            0x12 => b(if is_neg(x) != is_neg(y) { is_neg(x) } else { x < y }),
                            0x13 => b(if is_neg(x) != is_neg(y) { is_neg(y) } else { x > y }),
                            0x14 => b(x == y),
                            0x16 => x & y,
                            0x17 => x | y,
                            0x18 => x ^ y,
                            0x1a => if x < 32.into() { U256::from(be(y)[x.as_usize()]) } else { U256::zero() },
                            0x1b => if x < 256.into() { y << x.as_usize() } else { U256::zero() },
                            0x1c => if x < 256.into() { y >> x.as_usize() } else { U256::zero() },
                            _ => {
                                let n = if x < 256.into() { x.as_usize() } else { 256 };
                                if is_neg(y) {
                                    if n >= 256 { U256::MAX } else if n == 0 { y } else { (y >> n) | (U256::MAX << (256 - n)) }
                                } else if n >= 256 {
                                    U256::zero()
                                } else {
                                    y >> n
                                }
                            }
                        }
                    }
                };
                m.push(z)?;
            }
            0x20 => {
                m.need(2)?;
                m.charge(30)?;
                let (o, l) = (m.pop()?, m.pop()?);
                if l > U256::from(u32::MAX) {
                    return Err(Halt);
                }
                m.charge(6 * words(l.as_u64()))?;
                let (o, l) = m.expand(o, l)?;
                let h = keccak(&m.mem[o..o + l]);
                m.push(U256::from_big_endian(&h.0))?;
            }
            0x30 => { m.charge(2)?; m.push(u_of(f.this))? }
            0x31 | 0x3b | 0x3f => {
                m.need(1)?;
                let a = addr_of(m.pop()?);
                let cold = self.warm(a);
                if let Err(e) = m.charge(if cold { 2600 } else { 100 }) {
                    return Err(e);
                }
                let v = match op {
                    0x31 => self.balance(a),
                    0x3b => self.code(a).len().into(),
                    _ => if self.dead(a) { U256::zero() } else { U256::from_big_endian(&keccak(&**self.code(a)).0) },
                };
                m.push(v)?;
            }
            0x32 => { m.charge(2)?; m.push(u_of(self.tx.from))? }
            0x33 => { m.charge(2)?; m.push(u_of(f.caller))? }
            0x34 => { m.charge(2)?; m.push(f.value)? }
            0x35 => {
                m.need(1)?;
                m.charge(3)?;
                let o = m.pop()?;
                m.push(U256::from_big_endian(&slice(&f.input, o, 32)))?;
            }
            0x36 => { m.charge(2)?; m.push(f.input.len().into())? }
            0x38 => { m.charge(2)?; m.push(f.code.len().into())? }
            0x3a => { m.charge(2)?; m.push(self.gas_price.into())? }
            0x3d => { m.charge(2)?; m.push(m.ret.len().into())? }
            0x37 | 0x39 | 0x3e => {
                m.need(3)?;
                m.charge(3)?;
                let (d, s, l) = (m.pop()?, m.pop()?, m.pop()?);
                m.copy_cost(l)?;
                if op == 0x3e && s.checked_add(l).map_or(true, |e| e > m.ret.len().into()) {
                    return Err(Halt);
                }
                let (d, l) = m.expand(d, l)?;
                let src = match op {
                    0x37 => slice(&f.input, s, l),
                    0x39 => slice(&f.code, s, l),
                    _ => slice(&m.ret, s, l),
                };
                m.mem[d..d + l].copy_from_slice(&src);
            }
            0x3c => {
                m.need(4)?;
                let (a, d, s, l) = (addr_of(m.pop()?), m.pop()?, m.pop()?, m.pop()?);
                let cold = self.warm(a);
                m.charge(if cold { 2600 } else { 100 })?;
                m.copy_cost(l)?;
                let (d, l) = m.expand(d, l)?;
                let src = slice(&self.code(a), s, l);
                m.mem[d..d + l].copy_from_slice(&src);
            }
            0x40 => {
                m.need(1)?;
                m.charge(20)?;
                let n = m.pop()?;
                let cur = self.hdr.number;
                let v = if n < cur.into() && n + 256 >= cur.into() {
                    let back = cur - n.as_u64();
                    U256::from_big_endian(&self.hdr.prev_hashes[256 - back as usize].0)
                } else {
                    U256::zero()
                };
                m.push(v)?;
            }
            0x41 => { m.charge(2)?; m.push(u_of(self.hdr.coinbase))? }
            0x42 => { m.charge(2)?; m.push(self.hdr.timestamp.into())? }
            0x43 => { m.charge(2)?; m.push(self.hdr.number.into())? }
            0x44 => { m.charge(2)?; m.push(U256::from_big_endian(&self.hdr.random.0))? }
            0x45 => { m.charge(2)?; m.push(self.hdr.gas_limit.into())? }
            0x46 => { m.charge(2)?; m.push(self.hdr.chain_id.into())? }
            0x47 => { m.charge(5)?; m.push(self.balance(f.this))? }
            0x48 => { m.charge(2)?; m.push(self.hdr.base_fee.into())? }
            0x49 => {
                m.need(1)?;
                m.charge(3)?;
                let i = m.pop()?;
                let v = if i < self.tx.blob_hashes.len().into() { U256::from_big_endian(&self.tx.blob_hashes[i.as_usize()].0) } else { U256::zero() };
                m.push(v)?;
            }
            0x4a => { m.charge(2)?; m.push(self.hdr.blob_base_fee())? }
            0x50 => { m.need(1)?; m.charge(2)?; m.pop()?; }
            0x51 => {
                m.need(1)?;
                m.charge(3)?;
                let o = m.pop()?;
                let (o, _) = m.expand(o, 32.into())?;
                m.push(U256::from_big_endian(&m.mem[o..o + 32]))?;
            }
            0x52 | 0x53 => {
                m.need(2)?;
                m.charge(3)?;
                let (o, v) = (m.pop()?, m.pop()?);
                let (o, l) = m.expand(o, if op == 0x52 { 32.into() } else { 1.into() })?;
                m.mem[o..o + l].copy_from_slice(&be(v)[32 - l..]);
            }
            0x54 => {
                m.need(1)?;
                let k = m.pop()?;
                let cold = self.st.warm_slots.insert((f.this, k));
                self.acc.slots.insert((f.this, k));
                m.charge(if cold { 2100 } else { 100 })?;
                let v = self.acct(f.this).and_then(|a| a.storage.get(&k)).copied().unwrap_or_default();
                m.push(v)?;
            }
            0x55 => {
                m.need(2)?;
                if f.is_static {
                    return Err(Halt);
                }
                if m.gas <= 2300 {
                    m.gas = 0;
                    return Err(Halt);
                }
                let (k, v) = (m.pop()?, m.pop()?);
                let cold = self.st.warm_slots.insert((f.this, k));
                self.acc.slots.insert((f.this, k));
                let get = |w: &World| w.get(&f.this).and_then(|a| a.storage.get(&k)).copied().unwrap_or_default();
                let cur = get(&self.st.world);
                // A contract created in this transaction starts from empty storage.
                let orig = if self.st.created.contains(&f.this) { U256::zero() } else { get(&self.orig) };
                let mut g = if cold { 2100 } else { 0 };
                g += if v == cur {
                    100
                } else if cur == orig {
                    if orig.is_zero() { 20000 } else { 2900 }
                } else {
                    100
                };
                m.charge(g)?;
                if v != cur {
                    if cur == orig {
                        if !orig.is_zero() && v.is_zero() {
                            self.st.refund += 4800;
                        }
                    } else {
                        if !orig.is_zero() {
                            if cur.is_zero() {
                                self.st.refund -= 4800;
                            } else if v.is_zero() {
                                self.st.refund += 4800;
                            }
                        }
                        if v == orig {
                            self.st.refund += if orig.is_zero() { 19900 } else { 2800 };
                        }
                    }
                    let a = self.acct_mut(f.this);
                    if v.is_zero() {
                        a.storage.remove(&k);
                    } else {
                        a.storage.insert(k, v);
                    }
                }
            }
            0x56 | 0x57 => {
                m.need(if op == 0x56 { 1 } else { 2 })?;
                m.charge(if op == 0x56 { 8 } else { 10 })?;
                let d = m.pop()?;
                let go = op == 0x56 || !m.pop()?.is_zero();
                if go {
                    if d > U256::from(u32::MAX) || !jd.contains(&d.as_usize()) {
                        return Err(Halt);
                    }
                    *pc = d.as_usize();
                }
            }
            0x58 => { m.charge(2)?; m.push((*pc - 1).into())? }
            0x59 => { m.charge(2)?; m.push(m.mem.len().into())? }
            0x5a => { m.charge(2)?; m.push(m.gas.into())? }
            0x5b => m.charge(1)?,
            0x5c => {
                m.need(1)?;
                m.charge(100)?;
                let k = m.pop()?;
                m.push(self.st.transient.get(&(f.this, k)).copied().unwrap_or_default())?;
            }
            0x5d => {
                m.need(2)?;
                if f.is_static {
                    return Err(Halt);
                }
                m.charge(100)?;
                let (k, v) = (m.pop()?, m.pop()?);
                self.st.transient.insert((f.this, k), v);
            }
            0x5e => {
                m.need(3)?;
                m.charge(3)?;
                let (d, s, l) = (m.pop()?, m.pop()?, m.pop()?);
                m.copy_cost(l)?;
                m.expand(d.max(s), l)?;
                if !l.is_zero() {
                    let (d, s, l) = (d.as_usize(), s.as_usize(), l.as_usize());
                    m.mem.copy_within(s..s + l, d);
                }
            }
            0x5f => { m.charge(2)?; m.push(U256::zero())? }
            0x60..=0x7f => {
                m.charge(3)?;
                let n = op as usize - 0x5f;
                m.push(U256::from_big_endian(&slice(&f.code, (*pc).into(), n)))?;
                *pc += n;
            }
            0x80..=0x8f => {
                let n = op as usize - 0x7f;
                m.need(n)?;
                m.charge(3)?;
                let v = m.stack[m.stack.len() - n];
                m.push(v)?;
            }
            0x90..=0x9f => {
                let n = op as usize - 0x8f;
                m.need(n + 1)?;
                m.charge(3)?;
                let l = m.stack.len();
                m.stack.swap(l - 1, l - 1 - n);
            }
            0xa0..=0xa4 => {
                let n = op as usize - 0xa0;
                m.need(n + 2)?;
                if f.is_static {
                    return Err(Halt);
                }
                let (o, l) = (m.pop()?, m.pop()?);
                if l > U256::from(u32::MAX) {
                    return Err(Halt);
                }
                m.charge(375 * (n as u64 + 1) + 8 * l.as_u64())?;
                let (o, l) = m.expand(o, l)?;
                let topics = (0..n).map(|_| m.pop().map(|t| H256(be(t)))).collect::<R<Vec<_>>>()?;
                self.st.logs.push(Log { addr: f.this, topics, data: m.mem[o..o + l].to_vec() });
            }
            0xf0 | 0xf5 => {
                m.need(if op == 0xf0 { 3 } else { 4 })?;
                if f.is_static {
                    return Err(Halt);
                }
                let (v, o, l) = (m.pop()?, m.pop()?, m.pop()?);
                let salt = if op == 0xf5 { m.pop()? } else { U256::zero() };
                if l > 49152.into() {
                    return Err(Halt);
                }
                m.charge(32000 + words(l.as_u64()) * if op == 0xf5 { 8 } else { 2 })?;
                let (o, l) = m.expand(o, l)?;
                let init = m.mem[o..o + l].to_vec();
                m.ret = vec![];
                let nonce = self.acct(f.this).map_or(0, |a| a.nonce);
                if self.balance(f.this) < v || f.depth >= 1024 || nonce == u64::MAX {
                    self.probe("create refused before start");
                    m.push(U256::zero())?;
                    return Ok(None);
                }
                self.acct_mut(f.this).nonce += 1;
                let addr = if op == 0xf0 { create_address(f.this, nonce) } else { create2_address(f.this, salt, &init) };
                self.warm(addr);
                let g = m.gas - m.gas / 64;
                m.gas -= g;
                let (ok, left, ret) = self.create(f.this, addr, v, init, g, f.depth + 1);
                m.gas += left;
                m.ret = ret;
                m.push(if ok { u_of(addr) } else { U256::zero() })?;
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                m.need(if op == 0xf1 || op == 0xf2 { 7 } else { 6 })?;
                let (g, a) = (m.pop()?, addr_of(m.pop()?));
                let v = if op == 0xf1 || op == 0xf2 { m.pop()? } else { U256::zero() };
                let (io, il, oo, ol) = (m.pop()?, m.pop()?, m.pop()?, m.pop()?);
                if op == 0xf1 && f.is_static && !v.is_zero() {
                    return Err(Halt);
                }
                let (io, il) = m.expand(io, il)?;
                let (oo, ol) = m.expand(oo, ol)?;
                let cold = self.warm(a);
                let mut cost = if cold { 2600 } else { 100 };
                if !v.is_zero() {
                    cost += 9000;
                    if op == 0xf1 && self.dead(a) {
                        cost += 25000;
                    }
                }
                m.charge(cost)?;
                let cap = m.gas - m.gas / 64;
                let mut g = if g < cap.into() { g.as_u64() } else { cap };
                m.gas -= g;
                if !v.is_zero() {
                    g += 2300;
                }
                let input = m.mem[io..io + il].to_vec();
                m.ret = vec![];
                if self.balance(f.this) < v || f.depth >= 1024 {
                    self.probe("call refused before start");
                    m.gas += g;
                    m.push(U256::zero())?;
                    return Ok(None);
                }
                let (this, caller, value) = match op {
                    0xf1 | 0xfa => (a, f.this, v),
                    0xf2 => (f.this, f.this, v),
                    _ => (f.this, f.caller, f.value),
                };
                let code = if is_precompile(a).is_some() { Default::default() } else { self.code(a) };
                let sub = Frame { code, this, caller, value, input, is_static: f.is_static || op == 0xfa, depth: f.depth + 1, gas: g };
                let (ok, left, ret) = self.call(sub, a, op == 0xf1);
                m.gas += left;
                let n = ret.len().min(ol);
                m.mem[oo..oo + n].copy_from_slice(&ret[..n]);
                m.ret = ret;
                self.probe(if ok { "call ok" } else { "call failed" });
                m.push(b(ok))?;
            }
            0xf3 | 0xfd => {
                m.need(2)?;
                let (o, l) = (m.pop()?, m.pop()?);
                let (o, l) = m.expand(o, l)?;
                let out = m.mem[o..o + l].to_vec();
                return Ok(Some(if op == 0xf3 { End::Ok(out) } else { End::Revert(out) }));
            }
            0xff => {
                m.need(1)?;
                if f.is_static {
                    return Err(Halt);
                }
                let to = addr_of(m.pop()?);
                let cold = self.warm(to);
                let bal = self.balance(f.this);
                let mut g = 5000 + if cold { 2600 } else { 0 };
                if !bal.is_zero() && self.dead(to) {
                    g += 25000;
                }
                m.charge(g)?;
                let new = self.st.created.contains(&f.this);
                self.probe(if new { "selfdestruct of new contract" } else { "selfdestruct of old contract" });
                self.st.touched.insert(to);
                if to != f.this {
                    self.transfer(f.this, to, bal);
                } else if new {
                    self.acct_mut(f.this).balance = U256::zero();
                }
                if new {
                    self.st.destroyed.insert(f.this);
                }
                return Ok(Some(End::Ok(vec![])));
            }
            _ => return Err(Halt),
        }
        Ok(None)
    }
}

pub fn intrinsic(tx: &Tx) -> u64 {
    let mut g = 21000;
    g += tx.data.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum::<u64>();
    if tx.to.is_none() {
        g += 32000 + 2 * words(tx.data.len() as u64);
    }
    g + tx.access_list.iter().map(|(_, s)| 2400 + 1900 * s.len() as u64).sum::<u64>()
}

/// Whether the transaction may be included (the sender is an externally owned account with code-less state).
pub fn valid(world: &World, hdr: &Header, tx: &Tx, block_gas_used: u64) -> bool {
    let d = Acct::default();
    let s = world.get(&tx.from).unwrap_or(&d);
    let blob = U256::from(131072 * tx.blob_hashes.len() as u64) * hdr.blob_base_fee();
    tx.nonce == s.nonce
        && s.code.is_empty()
        && tx.max_fee >= hdr.base_fee
        && tx.max_fee >= tx.max_prio
        && tx.gas_limit >= intrinsic(tx)
        && tx.gas_limit + block_gas_used <= hdr.gas_limit
        && (tx.to.is_some() || tx.data.len() <= 49152)
        && (tx.ty != 3 || (tx.to.is_some() && !tx.blob_hashes.is_empty()))
        && s.balance >= U256::from(tx.gas_limit) * tx.max_fee + tx.value + blob
}

/// Executes a valid transaction.
pub fn execute(world: &mut World, hdr: &Header, tx: &Tx) -> TxOut {
    let prio = tx.max_prio.min(tx.max_fee - hdr.base_fee);
    let price = hdr.base_fee + prio;
    let mut e = Evm { st: St { world: world.clone(), ..Default::default() }, hdr, tx, gas_price: price, orig: world.clone(), acc: Default::default(), probes: Default::default() };
    let blob = U256::from(131072 * tx.blob_hashes.len() as u64) * hdr.blob_base_fee();
    e.acc.accts.extend([tx.from, hdr.coinbase]);
    let s = e.acct_mut(tx.from);
    s.balance -= U256::from(tx.gas_limit) * price + blob;
    s.nonce += 1;
    e.st.warm.insert(tx.from);
    e.st.warm.insert(hdr.coinbase);
    for i in 1..=10 {
        e.st.warm.insert(Address::from_low_u64_be(i));
    }
    for (a, ks) in &tx.access_list {
        e.warm(*a);
        for k in ks {
            e.st.warm_slots.insert((*a, *k));
            e.acc.slots.insert((*a, *k));
        }
    }
    e.orig = e.st.world.clone();
    let gas = tx.gas_limit - intrinsic(tx);
    let (ok, left, created) = match tx.to {
        None => {
            let addr = create_address(tx.from, tx.nonce);
            e.warm(addr);
            let (ok, left, _) = e.create(tx.from, addr, tx.value, tx.data.clone(), gas, 0);
            (ok, left, Some(addr))
        }
        Some(to) => {
            e.warm(to);
            let code = if is_precompile(to).is_some() { Default::default() } else { e.code(to) };
            let f = Frame { code, this: to, caller: tx.from, value: tx.value, input: tx.data.clone(), is_static: false, depth: 0, gas };
            let (ok, left, _) = e.call(f, to, true);
            (ok, left, None)
        }
    };
    let used = tx.gas_limit - left;
    let refund = if ok { (e.st.refund.max(0) as u64).min(used / 5) } else { 0 };
    if refund > 0 {
        e.probe(if refund == used / 5 { "refund capped" } else { "refund" });
    }
    let used = used - refund;
    e.acct_mut(tx.from).balance += U256::from(tx.gas_limit - used) * price;
    e.acct_mut(hdr.coinbase).balance += U256::from(used) * prio;
    for a in e.st.destroyed.clone() {
        e.st.world.remove(&a);
    }
    e.st.world.retain(|_, a| !a.is_empty());
    *world = e.st.world;
    TxOut { success: ok, gas_used: used, logs: if ok { e.st.logs } else { vec![] }, access: e.acc, created, probes: e.probes }
}

/// EIP-4788 write at the start of the block.
pub fn beacon_hook(world: &mut World, hdr: &Header) {
    let a = beacon_addr();
    let acct = world.entry(a).or_default();
    let i = U256::from(hdr.timestamp % 8191);
    for (k, v) in [(i, U256::from(hdr.timestamp)), (i + 8191, U256::from_big_endian(&hdr.beacon_root.0))] {
        if v.is_zero() {
            acct.storage.remove(&k);
        } else {
            acct.storage.insert(k, v);
        }
    }
}
pub fn beacon_addr() -> Address {
    "000F3df6D732807Ef1319fB7B8bB8522d0Beac02".parse().unwrap()
}

// ------------------------------------------------------------------ encodings
pub fn bloom(logs: &[Log]) -> [u8; 256] {
    let mut o = [0; 256];
    let mut add = |b: &[u8]| {
        let h = keccak(b).0;
        for i in 0..3 {
            let bit = (((h[2 * i] as usize) << 8) | h[2 * i + 1] as usize) & 2047;
            o[255 - bit / 8] |= 1 << (bit % 8);
        }
    };
    for l in logs {
        add(l.addr.as_bytes());
        for t in &l.topics {
            add(&t.0);
        }
    }
    o
}
pub fn receipt_rlp(ty: u8, ok: bool, cum: u64, logs: &[Log]) -> Vec<u8> {
    let ls: Vec<_> = logs
        .iter()
        .map(|l| {
            let ts: Vec<_> = l.topics.iter().map(|t| rlp_str(&t.0)).collect();
            rlp_list(&[rlp_str(l.addr.as_bytes()), rlp_list(&ts), rlp_str(&l.data)])
        })
        .collect();
    let body = rlp_list(&[rlp_uint(U256::from(ok as u8)), rlp_uint(cum.into()), rlp_str(&bloom(logs)), rlp_list(&ls)]);
    if ty == 0 {
        body
    } else {
        [vec![ty], body].concat()
    }
}
fn tx_fields(tx: &Tx, chain: u64) -> Vec<Vec<u8>> {
    let to = rlp_str(tx.to.as_ref().map_or(&[][..], |a| a.as_bytes()));
    let al = rlp_list(
        &tx.access_list
            .iter()
            .map(|(a, ks)| rlp_list(&[rlp_str(a.as_bytes()), rlp_list(&ks.iter().map(|k| rlp_str(&be(*k))).collect::<Vec<_>>())]))
            .collect::<Vec<_>>(),
    );
    let u = |x: u64| rlp_uint(x.into());
    let mut f = match tx.ty {
        0 => return vec![u(tx.nonce), u(tx.max_fee), u(tx.gas_limit), to, rlp_uint(tx.value), rlp_str(&tx.data)],
        1 => vec![u(chain), u(tx.nonce), u(tx.max_fee)],
        _ => vec![u(chain), u(tx.nonce), u(tx.max_prio), u(tx.max_fee)],
    };
    f.extend([u(tx.gas_limit), to, rlp_uint(tx.value), rlp_str(&tx.data), al]);
    if tx.ty == 3 {
        f.push(u(1_000_000_000));
        f.push(rlp_list(&tx.blob_hashes.iter().map(|h| rlp_str(&h.0)).collect::<Vec<_>>()));
    }
    f
}
pub fn key_of(i: u64) -> k256::ecdsa::SigningKey {
    k256::ecdsa::SigningKey::from_slice(&keccak(format!("key {i}")).0).unwrap()
}
pub fn addr_of_key(k: &k256::ecdsa::SigningKey) -> Address {
    let p = k.verifying_key().to_encoded_point(false);
    Address::from_slice(&keccak(&p.as_bytes()[1..]).0[12..])
}
/// Signed transaction as it appears in the transactions trie. `old_v`: legacy without a chain id.
pub fn sign(tx: &Tx, chain: u64, key: &k256::ecdsa::SigningKey, old_v: bool) -> Vec<u8> {
    let mut f = tx_fields(tx, chain);
    let u = |x: u64| rlp_uint(x.into());
    let msg = match (tx.ty, old_v) {
        (0, true) => rlp_list(&f),
        (0, false) => rlp_list(&[f.clone(), vec![u(chain), u(0), u(0)]].concat()),
        _ => [vec![tx.ty], rlp_list(&f)].concat(),
    };
    let (sig, rec) = key.sign_prehash_recoverable(&keccak(msg).0).unwrap();
    let p = rec.to_byte() as u64;
    f.push(match (tx.ty, old_v) {
        (0, true) => u(27 + p),
        (0, false) => u(35 + 2 * chain + p),
        _ => u(p),
    });
    let (r, s) = sig.split_bytes();
    f.push(rlp_uint(U256::from_big_endian(&r)));
    f.push(rlp_uint(U256::from_big_endian(&s)));
    let body = rlp_list(&f);
    if tx.ty == 0 {
        body
    } else {
        [vec![tx.ty], body].concat()
    }
}
