//! E04: a transaction that Ethereum refuses has no effect, whoever proves the batch it is in.
use crate::adversary::{self, Claim};
use crate::chain::{self, BlockPlan};
use crate::common::*;
use crate::refevm::*;
use ethereum_types::{Address, U256};
use evm_arithmetization::generation::TrieInputs;
use keccak_hash::keccak;
use serde::{Deserialize, Serialize};
use simcore::refmpt::{rlp_list, rlp_str};
use simcore::*;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// Nothing wrong with it: the control.
    No,
    NonceLow(u64),
    NonceHigh(u64),
    /// An earlier transaction of the block again.
    Replay(u64),
    /// The sender can pay the actual price but not the maximal one.
    CannotPayMax(u64),
    /// The sender can pay for gas but not for the value, by so much.
    CannotPayValue(u64),
    /// (blobs) The sender cannot pay for the blobs.
    CannotPayBlobs(u64),
    /// (blobs) The sender can pay the actual blob price but not the maximal one.
    CannotPayMaxBlobs,
    /// Gas limit times fee exceeds 2^256 and is small modulo it; the fee is 2^(256-k).
    FeeOverflow(u8),
    /// Value plus fee exceeds 2^256.
    ValueOverflow(u64),
    ChainId(u64),
    FeeBelowBase(u64),
    PrioAboveMax(u64),
    GasBelowIntrinsic(u64),
    GasAboveBlock(u64),
    /// More gas than is left in the block.
    GasAboveRest,
    BigInitCode,
    BlobFeeLow,
    BlobCreate,
    NoBlobs,
    BlobVersion(u8),
    TooManyBlobs,
    SenderHasCode,
    NonceMax,
    HighS,
    /// y parity, or v
    Parity(u64),
    R(u8),
    S(u8),
    /// A bit of the signed message is changed after signing.
    Forged(u64),
    ToLen(u8),
    HashLen(u8),
    /// Field (modulo the number of fields): 33 bytes
    TooBig(u8),
    ExtraField,
    MissingField,
    Truncated(u8),
    Type(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub block: BlockPlan,
    pub at: u64,
    pub from: usize,
    pub ty: u8,
    pub to: u64,
    pub value: u64,
    pub bad: Vec<Bad>,
}
pub struct E04;

#[derive(Clone)]
struct Raw {
    ty: u8,
    chain: U256,
    nonce: U256,
    prio: U256,
    fee: U256,
    gas: U256,
    to: Vec<u8>,
    value: U256,
    data: Vec<u8>,
    al: Vec<(Vec<u8>, Vec<Vec<u8>>)>,
    blob_fee: U256,
    hashes: Vec<Vec<u8>>,
}
fn uint(u: U256) -> Vec<u8> {
    rlp_uint(u)
}
/// A field longer than any word.
fn too_big(item: &[u8]) -> Vec<u8> {
    let content = match item[0] {
        b if b < 0x80 => item,
        b if b <= 0xb7 => &item[1..],
        b if b < 0xc0 => &item[1 + (b - 0xb7) as usize..],
        _ => return item.to_vec(),
    };
    rlp_str(&[&vec![1; 33usize.saturating_sub(content.len())], content].concat())
}
fn fields(t: &Raw) -> Vec<Vec<u8>> {
    let al = rlp_list(&t.al.iter().map(|(a, ks)| rlp_list(&[rlp_str(a), rlp_list(&ks.iter().map(|k| rlp_str(k)).collect::<Vec<_>>())])).collect::<Vec<_>>());
    let mut f = match t.ty {
        0 => return vec![uint(t.nonce), uint(t.fee), uint(t.gas), rlp_str(&t.to), uint(t.value), rlp_str(&t.data)],
        1 => vec![uint(t.chain), uint(t.nonce), uint(t.fee)],
        _ => vec![uint(t.chain), uint(t.nonce), uint(t.prio), uint(t.fee)],
    };
    f.extend([uint(t.gas), rlp_str(&t.to), uint(t.value), rlp_str(&t.data), al]);
    if t.ty == 3 {
        f.push(uint(t.blob_fee));
        f.push(rlp_list(&t.hashes.iter().map(|h| rlp_str(h)).collect::<Vec<_>>()));
    }
    f
}
const N: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
fn sign_raw(t: &Raw, key: &k256::ecdsa::SigningKey, bad: &Bad) -> Vec<u8> {
    let mut f = fields(t);
    let n = f.len();
    match bad {
        Bad::TooBig(k) => f[*k as usize % n] = too_big(&f[*k as usize % n]),
        Bad::ExtraField => f.push(vec![1]),
        Bad::MissingField => {
            f.pop();
        }
        _ => {}
    }
    let msg = if t.ty == 0 { rlp_list(&[f.clone(), vec![uint(t.chain), vec![0x80], vec![0x80]]].concat()) } else { [vec![t.ty], rlp_list(&f)].concat() };
    let mut h = keccak(msg).0;
    if let Bad::Forged(b) = bad {
        h[(*b / 8 % 32) as usize] ^= 1 << (b % 8);
    }
    let (sig, rec) = key.sign_prehash_recoverable(&h).unwrap();
    let (r, s) = sig.split_bytes();
    let order = U256::from_str_radix(N, 16).unwrap();
    let (mut p, mut r, mut s) = (U256::from(rec.to_byte()), U256::from_big_endian(&r), U256::from_big_endian(&s));
    match bad {
        Bad::HighS => {
            s = order - s;
            p = U256::one() - p;
        }
        Bad::R(k) => r = [U256::zero(), order, U256::MAX, r.overflowing_add(order).0][*k as usize % 4],
        Bad::S(k) => s = [U256::zero(), order, U256::MAX, s.overflowing_add(order).0][*k as usize % 4],
        Bad::Parity(k) if t.ty != 0 => p += (*k).into(),
        _ => {}
    }
    let mut v = if t.ty == 0 { t.chain * 2 + 35 + p } else { p };
    if t.ty == 0 {
        if let Bad::Parity(k) = bad {
            v = match k % 4 {
                0 => p,
                1 => p + 29,
                2 => p + 33,
                _ => t.chain * 2 + 35 + p + 2 * (k / 4 + 1),
            };
        }
    }
    f.extend([uint(v), uint(r), uint(s)]);
    let body = match bad {
        Bad::Truncated(k) => {
            let b = rlp_list(&f);
            b[..b.len() - (*k as usize % 40 + 1)].to_vec()
        }
        _ => rlp_list(&f),
    };
    match (t.ty, bad) {
        (_, Bad::Type(k)) => [vec![*k], body].concat(),
        (0, _) => body,
        _ => [vec![t.ty], body].concat(),
    }
}
pub fn kind(b: &Bad) -> String {
    format!("{b:?}").split('(').next().unwrap().to_string()
}
fn gen_bad(r: &mut Rng) -> Bad {
    let k = r.below(8) as u8;
    match r.below(38) {
        0 => Bad::NonceLow(r.range(1, 3)),
        1 => Bad::NonceHigh(r.range(1, 3)),
        2 | 3 => Bad::Replay(r.next()),
        4 => Bad::CannotPayMax(r.range(1, 1000)),
        5 => Bad::CannotPayValue(r.range(1, 3)),
        6 => Bad::CannotPayBlobs(r.range(1, 3)),
        7 => Bad::CannotPayMaxBlobs,
        8 | 9 => Bad::FeeOverflow(r.range(3, 14) as u8),
        10 => Bad::ValueOverflow(r.range(1, 1000)),
        11 => Bad::ChainId(*r.pick(&[0, 2, 5, 1 << 40])),
        12 => Bad::FeeBelowBase(r.range(1, 3)),
        13 => Bad::PrioAboveMax(r.range(1, 3)),
        14 => Bad::GasBelowIntrinsic(*r.pick(&[1, 2, 5000, 21000])),
        15 => Bad::GasAboveBlock(r.range(1, 3)),
        16 => Bad::GasAboveRest,
        17 => Bad::BigInitCode,
        18 => Bad::BlobFeeLow,
        19 => Bad::BlobCreate,
        20 => Bad::NoBlobs,
        21 => Bad::BlobVersion(*r.pick(&[0, 2, 255])),
        22 => Bad::TooManyBlobs,
        23 => Bad::SenderHasCode,
        24 => Bad::NonceMax,
        25 => Bad::HighS,
        26 => Bad::Parity(r.range(1, 40)),
        27 => Bad::R(k),
        28 => Bad::S(k),
        29 => Bad::Forged(r.next()),
        30 => Bad::ToLen(*r.pick(&[1, 19, 21, 32, 33])),
        31 => Bad::HashLen(*r.pick(&[0, 1, 31, 33, 40])),
        32 | 33 => Bad::TooBig(r.below(12) as u8),
        34 => Bad::ExtraField,
        35 => Bad::MissingField,
        36 => Bad::Truncated(r.below(256) as u8),
        _ => Bad::Type(*r.pick(&[0, 4, 5, 0x7f, 0x80, 0xb8, 1, 2, 3])),
    }
}
/// The tries of a world and the transactions so far, nothing left out.
pub fn full_tries(w: &World, done: &[chain::TxDone]) -> TrieInputs {
    let whole = |m: &simcore::refmpt::Map| chain::to_trie(&chain::tree(m, &m.keys().cloned().collect(), &Default::default()));
    TrieInputs {
        state_trie: whole(&chain::state_map(w)).into(),
        transactions_trie: whole(&chain::list_map(&done.iter().map(|d| d.raw.clone()).collect::<Vec<_>>())).into(),
        receipts_trie: whole(&chain::list_map(&done.iter().map(|d| d.receipt.clone()).collect::<Vec<_>>())).into(),
        storage_tries: w.iter().map(|(a, x)| (keccak(a), whole(&chain::storage_map(x)).into())).collect(),
    }
}
impl Property for E04 {
    type Plan = Plan;
    fn info(&self) -> Info {
        Info {
            id: "E04",
            level: "exploration",
            rule: "one seed = a block as in E01, one of its batches, and up to 10 hostile transactions, each broken in one way (nonce, replay, funds, overflowing fees, chain, gas, blobs, init code, signature, fields, type), inserted at a point of the batch by an aggregator that holds the whole state and adopts as its claims whatever gas and roots the kernel computes. The batch must be refused, or leave the state and the gas it would leave without the transaction. Non-trivial: at least one hostile transaction was inserted and its valid counterpart is accepted.",
            states_measure: "distinct (kind of flaw, transaction type, what refused it)",
            real: &["evm_arithmetization: kernel, interpreter, prover inputs", "trace_decoder", "mpt_trie"],
            stubs: &["the aggregator", "the node: a reference EVM and trie"],
            assumptions: &["mainnet (Cancun) rules", "the kernel may include a refused transaction as one that failed and used no gas", "encodings that Ethereum refuses but that say the same as a valid one (leading zeros, long length prefixes, trailing bytes, items of access lists of another length) are out of scope, as rlp/decode.asm has it"],
            quick_runs: 100000,
            thorough_runs: 10_000_000,
            quick_cap_s: 80,
            thorough_cap_s: 800,
            threads: 8,
        }
    }
    fn plan(&self, seed: u64, run: u64, _t: Tier) -> Plan {
        let mut r = Rng::derive(seed, "E04", run);
        let mut block = chain::gen(&mut r, chain::SMALL);
        // a key whose account has code
        let code = vec![crate::prog::S::Stop];
        block.contracts.push(chain::ContractPlan { addr: chain::keys()[5].1, code, storage: vec![], balance: U256::from(10).pow(20.into()), nonce: block.eoa_nonces[5] });
        let n = r.range(4, 10) as usize;
        Plan { block, at: r.next(), from: r.idx(5), ty: *r.pick(&[0, 1, 2, 2, 3]), to: r.next(), value: r.below(1000), bad: (0..n).map(|_| gen_bad(&mut r)).collect() }
    }
    fn execute(&self, p: &Plan, ctx: &mut Ctx) {
        let b = chain::build(&p.block);
        ctx.sim_ms += 12000;
        let out = match decode(b.trace.clone(), b.other.clone(), p.block.batch) {
            Ok(o) => o,
            Err(e) => return ctx.ev(format!("decoder refused the block (E01): {e}")),
        };
        let mut points = vec![];
        let mut n = 0;
        for (k, i) in out.iter().enumerate() {
            points.extend((0..=i.signed_txns.len()).map(|j| (k, n, j)));
            n += i.signed_txns.len();
        }
        let (k, first, j) = points[(p.at % points.len() as u64) as usize];
        let last = k + 1 == out.len();
        let start = if k == 0 { &b.pre } else { &b.worlds[first] };
        let mut base = out[k].clone();
        base.tries = full_tries(start, &b.done[..first]);
        for w in b.worlds.iter().chain([&b.pre]) {
            for x in w.values() {
                base.contract_code.insert(keccak(&**x.code), x.code.to_vec());
            }
        }
        let want = b.roots(first + base.signed_txns.len(), last).state;
        let now = &b.worlds[first + j];
        let used: u64 = b.done[..first + j].iter().map(|d| d.gas_used).sum();
        let mut control = false;
        let mut failures: Vec<(String, String)> = vec![];
        for bad in std::iter::once(&Bad::No).chain(&p.bad) {
            let Some((raw, ty)) = make(p, &b, now, used, first + j, bad) else { continue };
            let mut i = base.clone();
            // what the hostile transaction would run
            i.signed_txns.insert(j, raw.clone());
            let h = Rc::new(adversary::Honest { steps: 2_000_000, ..Default::default() });
            let v = adversary::lie(&i, &h, &[]);
            ctx.steps += v.steps;
            if *bad == Bad::No {
                // Everything after it may change, so that only its inclusion is checked.
                control = v.accepted.is_some();
                ctx.probe(&if control { "valid counterpart accepted".to_string() } else { format!("valid counterpart refused: {}", short(&v.why)) });
                ctx.ev(format!("batch {k} of {}, before transaction {j}: counterpart of type {ty}: {}", out.len(), if control { "accepted".into() } else { v.why.clone() }));
                continue;
            }
            ctx.fault(&format!("hostile transaction: {}", kind(bad)));
            ctx.nontrivial |= control;
            ctx.ev(format!("{bad:?}, type {ty}: {} {} in {} steps", keccak(&raw), if v.accepted.is_some() { "included" } else { "refused" }, v.steps));
            match v.accepted {
                None => {
                    ctx.probe("refused");
                    ctx.state(format!("{} {ty} {}", kind(bad), short(&v.why)));
                }
                Some(c) => {
                    ctx.probe("included without effect");
                    ctx.state(format!("{} {ty} included", kind(bad)));
                    let state = c.iter().find(|x| x.0 == Claim::State).map(|x| x.1);
                    let gas = c.iter().find(|x| x.0 == Claim::Gas).map(|x| x.1);
                    if let Some(s) = state.filter(|s| *s != U256::from_big_endian(&want.0)) {
                        failures.push((format!("an invalid transaction changes the state: {}", kind(bad)), format!("{bad:?}, type {ty}, batch {k} before transaction {j}: state root {s:#x} instead of {want:?}; transaction 0x{}", hex(&raw))));
                    } else if let Some(g) = gas {
                        failures.push((format!("an invalid transaction uses gas: {}", kind(bad)), format!("{bad:?}, type {ty}, batch {k} before transaction {j}: gas {g} instead of {}; transaction 0x{}", base.gas_used_after, hex(&raw))));
                    }
                }
            }
        }
        if let Some((c, d)) = failures.into_iter().next() {
            ctx.fail(c, d);
        }
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out: Vec<Plan> = if p.bad.len() > 1 { p.bad.iter().map(|b| Plan { bad: vec![b.clone()], ..p.clone() }).collect() } else { vec![] };
        if p.value > 0 {
            out.push(Plan { value: 0, ..p.clone() });
        }
        if p.at > 0 {
            out.push(Plan { at: 0, ..p.clone() });
        }
        out.extend(chain::shrink(&p.block).into_iter().filter(|b| b.contracts.iter().any(|c| c.addr == chain::keys()[5].1)).map(|block| Plan { block, ..p.clone() }));
        out
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(400).map(|x| format!("{x:02x}")).collect()
}
/// The transaction as broken by `bad`, and its type. None if this block has no occasion for it.
fn make(p: &Plan, b: &chain::Built, now: &World, used: u64, index: usize, bad: &Bad) -> Option<(Vec<u8>, u8)> {
    let hdr = &b.hdr;
    if let Bad::Replay(k) = bad {
        // not one that is valid again, which none is: its nonce is used up
        let d = b.done.get((k % index.max(1) as u64) as usize).filter(|_| index > 0)?;
        return Some((d.raw.clone(), d.tx.ty));
    }
    let from = if *bad == Bad::SenderHasCode { 5 } else { p.from };
    let (key, addr) = &chain::keys()[from];
    let d = Acct::default();
    let a = now.get(addr).unwrap_or(&d);
    let ty = match bad {
        Bad::BlobFeeLow | Bad::BlobCreate | Bad::NoBlobs | Bad::BlobVersion(_) | Bad::TooManyBlobs | Bad::CannotPayBlobs(_) | Bad::CannotPayMaxBlobs | Bad::HashLen(_) => 3,
        Bad::BigInitCode if p.ty == 3 => 2,
        Bad::PrioAboveMax(_) | Bad::CannotPayMax(_) if p.ty < 2 => 2,
        _ => p.ty,
    };
    let tos: Vec<Address> = b.pre.keys().copied().chain([Address::from_low_u64_be(4), chain::addr_named("nobody")]).collect();
    let to = tos[(p.to % tos.len() as u64) as usize];
    let bbf = hdr.blob_base_fee();
    let mut t = Raw {
        ty,
        chain: hdr.chain_id.into(),
        nonce: a.nonce.into(),
        prio: 1.into(),
        fee: U256::from(hdr.base_fee) + 1,
        gas: 200_000.into(),
        to: to.as_bytes().to_vec(),
        value: p.value.into(),
        data: vec![1, 0, 2],
        al: if ty > 0 { vec![(to.as_bytes().to_vec(), vec![be(1.into()).to_vec()])] } else { vec![] },
        blob_fee: bbf.into(),
        hashes: if ty == 3 { vec![[vec![1], vec![7; 31]].concat()] } else { vec![] },
    };
    let per_blob = U256::from(131072);
    match bad {
        Bad::NonceLow(k) => t.nonce = a.nonce.checked_sub(*k)?.into(),
        Bad::NonceHigh(k) => t.nonce += (*k).into(),
        Bad::NonceMax => t.nonce = u64::MAX.into(),
        Bad::CannotPayMax(k) => {
            // as high a limit on the fee as the balance exceeds
            t.fee = (a.balance.saturating_sub(t.value) / t.gas) + *k;
            if t.fee <= hdr.base_fee.into() {
                return None;
            }
        }
        Bad::CannotPayValue(k) => t.value = a.balance.checked_sub(t.fee * t.gas + if ty == 3 { per_blob * bbf } else { 0.into() })? + *k,
        Bad::CannotPayBlobs(k) => t.value = a.balance.checked_sub(t.fee * t.gas + per_blob * bbf)? + *k,
        Bad::CannotPayMaxBlobs => t.blob_fee = a.balance / per_blob + 1,
        Bad::FeeOverflow(k) => {
            // gas is a multiple of 2^k
            t.gas = ((t.gas >> (*k as usize)) + 1) << (*k as usize);
            t.fee = (U256::one() << (256 - *k as usize)) + t.fee;
            if p.to % 2 == 0 {
                t.prio = t.fee;
            }
        }
        Bad::ValueOverflow(k) => t.value = U256::MAX - t.fee * t.gas + *k,
        Bad::ChainId(c) => t.chain = (*c).into(),
        Bad::FeeBelowBase(k) => {
            t.fee = U256::from(hdr.base_fee).checked_sub((*k).into())?;
            t.prio = 0.into();
        }
        Bad::PrioAboveMax(k) => t.prio = t.fee + *k,
        Bad::GasBelowIntrinsic(k) => {
            let tx = Tx { ty, from: *addr, nonce: 0, to: Some(to), value: t.value, data: t.data.clone(), gas_limit: 0, max_fee: 0, max_prio: 0, access_list: if ty > 0 { vec![(to, vec![1.into()])] } else { vec![] }, blob_hashes: vec![] };
            t.gas = (intrinsic(&tx) - k.min(&intrinsic(&tx))).into();
        }
        Bad::GasAboveBlock(k) => t.gas = U256::from(hdr.gas_limit) + *k,
        Bad::GasAboveRest => {
            if used == 0 {
                return None;
            }
            t.gas = U256::from(hdr.gas_limit) - used + 1;
            t.fee = U256::from(hdr.base_fee);
            t.prio = 0.into();
        }
        Bad::BigInitCode => {
            t.to = vec![];
            t.data = vec![0; 49153];
            t.gas = 1_000_000.into();
        }
        Bad::BlobFeeLow => t.blob_fee = U256::from(bbf) - 1,
        Bad::BlobCreate => t.to = vec![],
        Bad::NoBlobs => t.hashes = vec![],
        Bad::BlobVersion(v) => t.hashes[0][0] = *v,
        Bad::TooManyBlobs => t.hashes = vec![t.hashes[0].clone(); 7],
        Bad::ToLen(n) => t.to = [vec![1; (*n as usize).saturating_sub(20)], t.to[..20.min(*n as usize)].to_vec()].concat(),
        Bad::HashLen(n) => t.hashes = vec![vec![1; *n as usize]],
        Bad::Type(k) if *k == ty => return None,
        _ => {}
    }
    if t.prio > t.fee && !matches!(bad, Bad::PrioAboveMax(_)) {
        t.prio = t.fee;
    }
    let raw = sign_raw(&t, key, bad);
    if let Bad::TooBig(k) = bad {
        let data = match ty {
            0 => 5,
            1 => 6,
            _ => 7,
        };
        // data may be anything
        if *k as usize % fields(&t).len() == data || raw == sign_raw(&t, key, &Bad::No) {
            return None;
        }
    }
    Some((raw, ty))
}
