//! A prover that lies: it chooses other advice for the kernel than the honest prover, and then
//! claims whatever final values the kernel computes.
use crate::common::*;
use ethereum_types::{H256, U256};
use evm_arithmetization::verif_hooks::{self, Hook, Poke};
use evm_arithmetization::SegmentDataIterator;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use serde::{Deserialize, Serialize};
use simcore::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Advice that is data committed to by the claimed roots, or not checked by design of the claims.
const DATA: &[&str] = &["rlp", "withdrawal", "ger"];
/// Advice that every batch asks for.
const COMMON: &[&str] = &["access_lists", "linked_list", "trie_ptr", "account_code", "num_bits", "jumpdest", "cancel"];
const SEG_ACCOUNTS: usize = 34;
const SEG_STORAGE: usize = 35;
const SEG_TRIE: usize = 12;
const SEG_CODE: usize = 0;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Twist {
    Zero,
    One,
    Max,
    Add(u64),
    Sub(u64),
    Flip(u8),
    /// minus the value, modulo one of the curve primes
    Neg(u8),
    /// plus one of the curve primes
    Wrap(u8),
    /// the result of another call of the same name
    Other(u64),
    /// a word of the stack, plus something
    Stack(u8, u8),
    /// the word on top of the stack, minus something
    Before(u8),
    /// another node's offset in the list the value points into
    Node(i8),
    Word([u64; 4]),
    /// (list pointers) another node of the list with a smaller key, or a later one
    Below(u64),
    Above(u64),
    /// (list pointers) a node at an offset in any segment of the kernel's memory
    Address(u8, u64),
    /// (loaded code) the length as claimed by another code, or a changed byte, or bytes appended
    CodeByte(u64, u8),
    CodeTail(u8, u8),
    /// (loaded trie) another word at a free place of the trie data
    TrieWord(u64, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Lie {
    /// name index, occurrence, twist, and for how many calls of that name
    Advice(u64, u64, Twist, u8),
    /// the n-th jump destination is kept out of the table, and the proof that it is none starts
    /// so many bytes before it
    Deny(u64, u8),
    /// segment, index, twist
    Memory(u8, u64, Twist),
    /// segment, index: the node is left out of its list
    Skip(u8, u64),
    /// segment, index, change: a node is inserted a second time behind itself
    Twin(u8, u64, u8),
    /// kind of list question, occurrence, which: of the questions whose answer is in the list,
    /// one is answered with another node that precedes it, as if it were missing
    Miss(u64, u64, u64),
}
const PRIMES: [&str; 6] = [
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
    "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47",
    "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001",
    "ffffffff00000001",
    "100000000",
];
fn prime(k: u8) -> U256 {
    U256::from_str_radix(PRIMES[k as usize % PRIMES.len()], 16).unwrap()
}
pub fn gen_twist(r: &mut Rng, name: Option<&str>) -> Twist {
    if name == Some("account_code") && r.chance(3, 4) {
        return match r.below(3) {
            0 => Twist::CodeByte(r.next(), r.below(256) as u8),
            1 => Twist::CodeTail(r.below(40) as u8, r.below(256) as u8),
            _ => Twist::Add(r.range(1, 64)),
        };
    }
    if name == Some("trie_ptr::initial_state") && r.chance(3, 4) {
        return Twist::TrieWord(r.next(), r.next());
    }
    match r.below(if name.is_some_and(|n| n.contains("list")) { 24 } else { 16 }) {
        0 => Twist::Zero,
        1 => Twist::One,
        2 => Twist::Max,
        3 => Twist::Add(1),
        4 => Twist::Sub(1),
        5 => Twist::Add(r.range(1, 70)),
        6 => Twist::Sub(r.range(1, 70)),
        7 => Twist::Flip(r.below(256) as u8),
        8 => Twist::Flip(r.below(20) as u8),
        9 => Twist::Neg(r.below(6) as u8),
        10 => Twist::Wrap(r.below(6) as u8),
        11 | 12 => Twist::Other(r.next()),
        13 | 14 => Twist::Stack(r.below(8) as u8, r.below(3) as u8),
        15 => Twist::Word([r.next(), r.next(), r.next(), r.next()]),
        18..=20 => Twist::Below(r.next()),
        21 => Twist::Above(r.next()),
        16 | 17 => Twist::Address(r.below(40) as u8, if r.chance(1, 2) { r.below(64) } else { r.below(1 << 20) }),
        _ => Twist::Node(r.range(0, 16) as i8 - 8),
    }
}
pub fn gen_lie(r: &mut Rng, names: &[String]) -> Lie {
    match r.below(22) {
        20 | 21 => Lie::Miss(r.next(), r.next(), r.next()),
        0 => Lie::Deny(r.next(), r.below(40) as u8),
        1..=14 => {
            // mostly kinds of advice with many answers, or that few batches ask for
            let weight = |n: &str| if list(n).is_some() { 5 } else if n == "access_lists::reset" || n == "end_of_txns" { 1 } else if n.starts_with("ff::secp") || n == "num_bits" { 2 } else if COMMON.iter().any(|c| n.starts_with(c)) { 3 } else { 8 };
            let mut k = r.below(names.iter().map(|n| weight(n)).sum::<u64>().max(1));
            let mut n = 0;
            while n + 1 < names.len() && k >= weight(&names[n]) {
                k -= weight(&names[n]);
                n += 1;
            }
            let n = n as u64;
            let t = gen_twist(r, names.get(n as usize).map(|s| s.as_str()));
            Lie::Advice(n, r.next(), t, if r.chance(1, 4) { r.range(1, 4) as u8 } else { 0 })
        }
        15 | 16 => Lie::Memory(r.below(3) as u8, r.next(), gen_twist(r, Some("list"))),
        17 => Lie::Skip(r.below(2) as u8, r.next()),
        _ => Lie::Twin(r.below(2) as u8, r.next(), r.below(4) as u8),
    }
}

/// What an honest prover answered.
#[derive(Clone, Default)]
pub struct Honest {
    pub calls: BTreeMap<String, Vec<U256>>,
    /// For list questions: which ask for something that is in the list.
    pub present: BTreeMap<String, Vec<u64>>,
    pub steps: u64,
}
impl Honest {
    pub fn names(&self) -> Vec<String> {
        self.calls.keys().filter(|k| !DATA.contains(&k.as_str())).cloned().collect()
    }
}
struct State {
    /// (name, first occurrence, last occurrence, twist)
    lies: Vec<(String, u64, u64, Twist)>,
    memory: Vec<Lie>,
    count: BTreeMap<String, u64>,
    honest: Rc<Honest>,
    seen: Honest,
    record: bool,
    limit: u64,
    steps: u64,
    ring: [(usize, U256); 4],
    told: Vec<String>,
    /// Nodes inserted into the initial lists: segment, index, and length before.
    shifted: Vec<(usize, usize, usize)>,
    /// A JUMPDEST was said to be none.
    denied: bool,
    /// What was told, word by word.
    script: Script,
}
#[derive(Clone, Default, Serialize)]
pub struct Script {
    pub advice: Vec<(String, u64, Option<U256>, Vec<Poke>)>,
    pub memory: Vec<(usize, Vec<Option<U256>>)>,
}
struct Watch(Rc<RefCell<State>>);
fn twist(t: &Twist, honest: Option<U256>, stack: &[U256], others: &[U256], node: u64, memory: bool) -> U256 {
    let v = honest.unwrap_or_default();
    match t {
        Twist::Zero => U256::zero(),
        Twist::One => U256::one(),
        Twist::Max => U256::MAX,
        Twist::Add(n) => v.overflowing_add((*n).into()).0,
        Twist::Sub(n) => v.overflowing_sub((*n).into()).0,
        Twist::Flip(b) => v ^ (U256::one() << (*b as usize)),
        Twist::Neg(p) => prime(*p).overflowing_sub(v).0,
        Twist::Wrap(p) => v.overflowing_add(prime(*p)).0,
        Twist::Other(k) => others.get((*k % others.len().max(1) as u64) as usize).copied().unwrap_or_default(),
        Twist::Stack(k, d) => stack.get(*k as usize).copied().unwrap_or_default().overflowing_add((*d).into()).0,
        Twist::Before(d) => stack.first().copied().unwrap_or_default().saturating_sub((*d).into()),
        Twist::Node(k) => {
            let d = U256::from(if memory { node } else { 1 } * k.unsigned_abs() as u64);
            if *k < 0 { v.overflowing_sub(d).0 } else { v.overflowing_add(d).0 }
        }
        Twist::Word(w) => U256(*w),
        Twist::Address(s, o) => U256::from(((*s as u64) << 32) + o * node) / node,
        Twist::CodeByte(..) | Twist::CodeTail(..) | Twist::TrieWord(..) | Twist::Below(_) | Twist::Above(_) => v,
    }
}
/// A list in the kernel's memory.
struct List {
    segment: usize,
    size: usize,
    /// Pointers count from the start of the memory.
    absolute: bool,
    keys: usize,
}
fn list(name: &str) -> Option<List> {
    let (segment, size, absolute, keys) = match name {
        "access_lists::address_insert" | "access_lists::address_remove" => (20, 2, true, 1),
        "access_lists::storage_insert" | "access_lists::storage_remove" => (21, 4, true, 2),
        "linked_list::remove_address_slots" => (SEG_STORAGE, 5, false, 1),
        n if n.starts_with("linked_list") && n.contains("account") => (SEG_ACCOUNTS, 4, true, 1),
        n if n.starts_with("linked_list") => (SEG_STORAGE, 5, false, 2),
        _ => return None,
    };
    Some(List { segment, size, absolute, keys })
}
impl List {
    fn base(&self) -> u64 {
        if self.absolute { (self.segment as u64) << 32 } else { 0 }
    }
    /// The offset in the segment of the node a pointer names.
    fn offset(&self, pointer: U256) -> usize {
        pointer.checked_mul(self.size.into()).and_then(|p| p.checked_sub(self.base().into())).map_or(0, |x| (x.low_u64() & 0xffff_ffff) as usize)
    }
    fn pointer(&self, offset: usize) -> U256 {
        U256::from(self.base() + offset as u64) / self.size
    }
}
/// The offsets of the nodes of a list, and their keys; at usize::MAX the key that is asked for.
fn nodes<'a>(l: &'a List, stack: &'a [U256], memory: &'a dyn Fn(usize, usize, usize) -> U256) -> (Vec<usize>, impl Fn(usize) -> Vec<U256> + 'a) {
    let offsets = (0..2000).map(|k| k * l.size).take_while(|o| !memory(0, l.segment, o + l.size - 1).is_zero()).collect();
    (offsets, move |o| (0..l.keys).map(|k| if o == usize::MAX { stack.get(k).copied().unwrap_or_default() } else { memory(0, l.segment, o + k) }).collect())
}
/// Nodes are named by their offset divided by the size of a node.
fn node_size(name: &str) -> u64 {
    match name {
        "access_lists::address_insert" | "access_lists::address_remove" => 2,
        n if n.starts_with("access_lists") => 4,
        n if n.contains("account") => 4,
        _ => 5,
    }
}
impl Hook for Watch {
    fn advice(&mut self, name: &str, honest: Option<U256>, stack: &[U256], memory: &dyn Fn(usize, usize, usize) -> U256, pokes: &mut Vec<Poke>) -> Option<U256> {
        let s = &mut *self.0.borrow_mut();
        if s.record {
            if let (Some(l), Some(h)) = (list(name), honest) {
                let (_, key) = nodes(&l, stack, memory);
                let at = l.offset(h);
                if key(at) == key(usize::MAX) {
                    let k = s.seen.calls.get(name).map_or(0, |v| v.len() as u64);
                    s.seen.present.entry(name.to_string()).or_default().push(k);
                }
            }
            s.seen.calls.entry(name.to_string()).or_default().push(honest.unwrap_or_default());
            return honest;
        }
        if name == "jumpdest_table::non_jumpdest_proof" {
            let a = stack.first().copied().unwrap_or_default();
            s.denied |= s.honest.calls.get("jumpdest_table::next_address").is_some_and(|v| v.contains(&(a + 1)));
        }
        let c = s.count.entry(name.to_string()).or_default();
        let k = *c;
        *c += 1;
        let mut value = honest;
        if let (Some(l), Some(h)) = (list(name), honest) {
            // the honest prover does not know of the nodes inserted into the initial lists
            let n = s.shifted.iter().filter(|(seg, i, n)| *seg == l.segment && l.offset(h) > *i && l.offset(h) < *n).count();
            value = Some(h + n);
        }
        let honest = value;
        for (n, from, to, t) in &s.lies {
            if n != name || k < *from || k > *to {
                continue;
            }
            let none = vec![];
            let others = s.honest.calls.get(name).unwrap_or(&none);
            let lie = match (t, list(name), honest) {
                (Twist::Below(w) | Twist::Above(w), Some(l), Some(h)) => {
                    let (offsets, key) = nodes(&l, stack, memory);
                    let asked = key(usize::MAX);
                    let below = matches!(t, Twist::Below(_));
                    let c: Vec<usize> = offsets.into_iter().filter(|&o| o != l.offset(h) && (o == 0 || (key(o) < asked) == below)).collect();
                    if c.is_empty() {
                        continue;
                    }
                    l.pointer(c[(*w % c.len() as u64) as usize])
                }
                _ => twist(t, honest, stack, others, node_size(name), false),
            };
            let ctx = stack.get(1).map_or(0, |c| (*c >> 64).low_u64() as usize);
            let len = honest.unwrap_or_default().low_u64() as usize;
            match t {
                Twist::CodeByte(i, d) if name == "account_code" => {
                    pokes.push((ctx, SEG_CODE, (*i % (len as u64 + 34)) as usize, (*d).into()))
                }
                Twist::CodeTail(m, b) if name == "account_code" => pokes.extend((0..34.max(*m as usize)).map(|j| (ctx, SEG_CODE, len + j, (*b).into()))),
                Twist::TrieWord(i, w) => pokes.push((0, SEG_TRIE, (*i % 4096) as usize, if w % 2 == 0 { (w % 5000).into() } else { (*w).into() })),
                _ => {}
            }
            s.told.push(format!("{name} #{k}: {} instead of {}", lie, honest.map_or("nothing".into(), |h| h.to_string())));
            value = Some(lie);
            s.script.advice.push((name.to_string(), k, value, pokes.clone()));
        }
        value
    }
    fn initial_memory(&mut self, segment: usize, content: &mut Vec<Option<U256>>) {
        let s = &mut *self.0.borrow_mut();
        let n = content.len() as u64;
        if s.record || n == 0 {
            return;
        }
        let before = s.told.len();
        let which = |k: u8| [SEG_ACCOUNTS, SEG_STORAGE, SEG_TRIE][k as usize % 3];
        let size = if segment == SEG_ACCOUNTS { 4 } else { 5 };
        for l in s.memory.clone() {
            match l {
                Lie::Memory(k, i, t) if which(k) == segment => {
                    let i = (i % n) as usize;
                    let others: Vec<U256> = content.iter().map(|c| c.unwrap_or_default()).collect();
                    let v = twist(&t, Some(others[i]), &others[i..], &others, size, true);
                    s.told.push(format!("segment {segment} word {i} of {n}: {v} instead of {}", others[i]));
                    content[i] = Some(v);
                }
                Lie::Skip(k, i) if which(k) == segment => {
                    // the next pointer is the last word of a node
                    let i = ((i % (n / size).max(1)) * size) as usize;
                    let next = content.get(i + size as usize - 1).copied().flatten().unwrap_or_default();
                    let j = next.checked_sub((segment as u64 * (1u64 << 32)).into()).map_or(0, |x| x.low_u64() as usize);
                    if let Some(nn) = content.get(j + size as usize - 1).copied() {
                        s.told.push(format!("segment {segment}: node at {j} left out"));
                        content[i + size as usize - 1] = nn;
                    }
                }
                Lie::Twin(k, i, d) if which(k) == segment => {
                    let (i, size, base) = (((i % (n / size).max(1)) * size) as usize, size as usize, U256::from((segment as u64) << 32));
                    if i + size > content.len() {
                        continue;
                    }
                    let (second, before) = (content[i..i + size].to_vec(), content.len());
                    // what comes behind moves, and so do the pointers to it
                    for next in content.iter_mut().skip(size - 1).step_by(size) {
                        if next.is_some_and(|x| x > base + i) {
                            *next = next.map(|x| x + size);
                        }
                    }
                    let moved = content[i + size - 1];
                    content.splice(i + size..i + size, second);
                    content[i + size - 1] = Some(base + i + size);
                    content[i + 2 * size - 1] = moved;
                    match d {
                        0 => {}
                        // another key for the second
                        1 => content[i + size] = content[i + size].map(|x| x.overflowing_add(1.into()).0),
                        2 if segment == SEG_STORAGE => content[i + size + 1] = content[i + size + 1].map(|x| x.overflowing_add(1.into()).0),
                        // another payload or value for the first
                        _ if segment == SEG_STORAGE => content[i + 2] = content[i + 2].map(|x| x.overflowing_add(1.into()).0),
                        _ => {
                            let j = (i + size * 2 + (i / size % 3) * size + 1) % content.len();
                            content[i + 1] = content[j / size * size + 1];
                        }
                    }
                    s.shifted.push((segment, i, before));
                    s.told.push(format!("segment {segment}: node at {i} twice"));
                }
                _ => {}
            }
        }
        if s.told.len() > before {
            s.script.memory.push((segment, content.clone()));
        }
    }
    fn step(&mut self, depth: usize, kernel: bool, pc: usize, top: U256) -> anyhow::Result<()> {
        let s = &mut *self.0.borrow_mut();
        s.steps += 1;
        if s.steps > s.limit {
            anyhow::bail!("step limit of the simulation");
        }
        if depth == 0 && kernel {
            s.ring.rotate_left(1);
            s.ring[3] = (pc, top);
        }
        Ok(())
    }
}
pub enum Out {
    Accepted,
    /// why, and the claim that a final check refused, with the value the kernel computed
    Refused(String, Option<(Claim, U256)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Claim {
    Gas,
    Txs,
    Receipts,
    State,
}
fn run(inputs: &Inputs, state: Rc<RefCell<State>>) -> Out {
    verif_hooks::set(Some(Box::new(Watch(state.clone()))));
    let r = guarded(|| -> Result<(), String> {
        crate::memcap::with_cap(192 << 20, || {
            for s in SegmentDataIterator::<F>::new(inputs, None) {
                s.map_err(|e| first_cause(&e.to_string()))?;
            }
            Ok(())
        })
    });
    verif_hooks::set(None);
    let e = match r {
        Ok(Ok(())) => return Out::Accepted,
        Ok(Err(e)) => e,
        Err(m) => format!("rust panic: {m}"),
    };
    let s = state.borrow();
    let at = |l: &str| verif_hooks::offset(l).unwrap_or(usize::MAX);
    if e.contains("panic") && !e.contains("rust panic") || e.contains("KernelPanic") {
        // SUB [claimed], PUSH panic [difference], JUMPI, PANIC
        let (pc, claimed) = s.ring[0];
        let diff = s.ring[1].1;
        let computed = claimed.overflowing_sub(diff).0;
        let within = |a: &str, b: &str| pc >= at(a) && pc < at(b);
        let claim = if within("perform_final_checks", "check_txn_trie") && claimed == inputs.gas_used_after && claimed != inputs.txn_number_before + inputs.signed_txns.len() {
            Some(Claim::Gas)
        } else if within("check_txn_trie", "check_receipt_trie") {
            Some(Claim::Txs)
        } else if within("check_receipt_trie", "check_state_trie") {
            Some(Claim::Receipts)
        } else if pc >= at("check_final_state_trie") && pc < at("check_final_state_trie") + 400 && claimed == U256::from_big_endian(&inputs.trie_roots_after.state_root.0) {
            Some(Claim::State)
        } else {
            None
        };
        let place = verif_hooks::label(s.ring[0].0);
        return Out::Refused(format!("kernel panic after {}", place.split("below ").last().unwrap_or("")), claim.map(|c| (c, computed)));
    }
    Out::Refused(e, None)
}
pub fn claim(inputs: &mut Inputs, c: Claim, v: U256) {
    let mut b = [0u8; 32];
    v.to_big_endian(&mut b);
    match c {
        Claim::Gas => inputs.gas_used_after = v,
        Claim::Txs => inputs.trie_roots_after.transactions_root = H256(b),
        Claim::Receipts => inputs.trie_roots_after.receipts_root = H256(b),
        Claim::State => inputs.trie_roots_after.state_root = H256(b),
    }
}
fn fresh(honest: Rc<Honest>, record: bool, limit: u64) -> State {
    State {
        lies: vec![],
        memory: vec![],
        count: BTreeMap::new(),
        honest,
        seen: Honest::default(),
        record,
        limit,
        steps: 0,
        ring: Default::default(),
        told: vec![],
        shifted: vec![],
        denied: false,
        script: Script::default(),
    }
}
/// The honest prover; None if it is refused.
pub fn honest(inputs: &Inputs) -> Result<Honest, String> {
    let st = Rc::new(RefCell::new(fresh(Rc::new(Honest::default()), true, u64::MAX)));
    match run(inputs, st.clone()) {
        Out::Accepted => {
            let mut s = st.borrow_mut();
            s.seen.steps = s.steps;
            Ok(std::mem::take(&mut s.seen))
        }
        Out::Refused(e, _) => Err(e),
    }
}
pub struct Verdict {
    /// Accepted with these claims changed.
    pub accepted: Option<Vec<(Claim, U256)>>,
    pub why: String,
    pub told: Vec<String>,
    pub denied: bool,
    pub steps: u64,
    /// names of the advice lied about
    pub about: Vec<String>,
}
/// Executes with lies, adopting as claims the final values the kernel computes.
pub fn lie(inputs: &Inputs, h: &Rc<Honest>, lies: &[Lie]) -> Verdict {
    let names = h.names();
    let (mut adv, mut mem, mut about) = (vec![], vec![], vec![]);
    for l in lies {
        match l {
            Lie::Advice(n, k, t, more) => {
                if names.is_empty() {
                    continue;
                }
                let name = names[(*n % names.len() as u64) as usize].clone();
                let k = k % h.calls[&name].len() as u64;
                about.push(name.clone());
                adv.push((name, k, k.saturating_add(*more as u64), t.clone()));
            }
            Lie::Deny(k, d) => {
                let Some(n) = h.calls.get("jumpdest_table::next_address").map(|v| v.len() as u64) else { continue };
                about.push("jumpdest_table::non_jumpdest_proof".into());
                adv.push(("jumpdest_table::next_address".into(), k % n, k % n, Twist::Zero));
                adv.push(("jumpdest_table::non_jumpdest_proof".into(), 0, u64::MAX, Twist::Before(*d)));
            }
            Lie::Miss(n, k, w) => {
                let of: Vec<&String> = h.present.keys().collect();
                if of.is_empty() {
                    continue;
                }
                let name = of[(*n % of.len() as u64) as usize].clone();
                let k = h.present[&name][(*k % h.present[&name].len() as u64) as usize];
                about.push(name.clone());
                adv.push((name, k, k, Twist::Below(*w)));
            }
            Lie::Memory(k, ..) | Lie::Skip(k, _) | Lie::Twin(k, ..) => {
                about.push(format!("initial memory {}", ["of accounts", "of storage", "of tries"][*k as usize % 3]));
                mem.push(l.clone());
            }
        }
    }
    about.sort();
    about.dedup();
    let mut inputs = inputs.clone();
    let mut changed: Vec<(Claim, U256)> = vec![];
    let mut steps = 0;
    for _ in 0..6 {
        let mut s = fresh(h.clone(), false, h.steps * 3 + 300_000);
        s.lies = adv.clone();
        s.memory = mem.clone();
        let st = Rc::new(RefCell::new(s));
        let out = run(&inputs, st.clone());
        let s = st.borrow();
        steps += s.steps;
        match out {
            Out::Accepted => {
                dump(|| serde_json::json!({"kind": "lie", "inputs": &inputs, "script": &s.script}));
                return Verdict { accepted: Some(changed), why: String::new(), told: s.told.clone(), denied: s.denied, steps, about };
            }
            Out::Refused(why, Some((c, v))) if !changed.iter().any(|x| x.0 == c) => {
                let _ = why;
                claim(&mut inputs, c, v);
                changed.push((c, v));
            }
            Out::Refused(why, _) => return Verdict { accepted: None, why, told: s.told.clone(), denied: s.denied, steps, about },
        }
    }
    Verdict { accepted: None, why: "final checks".into(), told: vec![], denied: false, steps, about }
}
