//! Simulated chain: explicit block plans, their execution by the reference node, and the payload
//! (witness, traces, receipts) that a node sends to the prover.
use crate::prog::{self, assemble, assemble_init, Env, S};
use crate::refevm::*;
use ethereum_types::{Address, H256, U256};
use evm_arithmetization::proof::{BlockHashes, BlockMetadata};
use keccak_hash::keccak;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node};
use serde::{Deserialize, Serialize};
use simcore::refmpt::{self, nibs_of, rlp_list, rlp_str, Map, Nibs};
use simcore::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::OnceLock;
use trace_decoder::*;

pub const N_KEYS: u64 = 6;
pub fn keys() -> &'static [(k256::ecdsa::SigningKey, Address)] {
    static K: OnceLock<Vec<(k256::ecdsa::SigningKey, Address)>> = OnceLock::new();
    K.get_or_init(|| {
        (0..N_KEYS)
            .map(|i| {
                let k = key_of(i);
                let a = addr_of_key(&k);
                (k, a)
            })
            .collect()
    })
}
/// Slots whose hashed keys sit close together in the storage trie, besides small numbers.
pub fn slots() -> &'static [u64] {
    static K: OnceLock<Vec<u64>> = OnceLock::new();
    K.get_or_init(|| {
        let h = |i: u64| nibs_of(&keccak(be(i.into())).0);
        let mut out: Vec<u64> = (0..8).collect();
        let base = h(0);
        for depth in [3usize, 2, 2, 1] {
            let mut i = 100;
            while out.contains(&i) || h(i)[..depth] != base[..depth] {
                i += 1
            }
            out.push(i);
        }
        let base = h(1);
        for depth in [2usize, 2] {
            let mut i = 100;
            while out.contains(&i) || h(i)[..depth] != base[..depth] {
                i += 1
            }
            out.push(i);
        }
        out
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ContractPlan {
    pub addr: Address,
    pub code: Vec<S>,
    pub storage: Vec<(u64, U256)>,
    pub balance: U256,
    pub nonce: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Gas {
    /// Intrinsic gas plus this much.
    Plus(u64),
    /// Runs out: this many thousandths of the gas it would use beyond the intrinsic part.
    Cut(u64),
    /// Exactly what it uses before refunds, plus or minus.
    Near(i64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Payload {
    Call(Address, #[serde(with = "hexser")] Vec<u8>),
    Create(Vec<S>, Vec<S>),
    CreateRaw(#[serde(with = "hexser")] Vec<u8>),
}
mod hexser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        Ok((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxPlan {
    pub from: usize,
    pub ty: u8,
    pub payload: Payload,
    pub value: U256,
    pub gas: Gas,
    pub prio: u64,
    pub extra_fee: u64,
    pub access_list: Vec<(Address, Vec<u64>)>,
    pub blobs: u8,
    pub old_v: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockPlan {
    pub coinbase: Address,
    pub timestamp: u64,
    pub number: u64,
    pub random: H256,
    pub base_fee: u64,
    pub excess_blob_gas: u64,
    pub beacon_root: H256,
    pub chain_id: u64,
    /// Storage the beacon-roots contract has before (slot, value).
    pub beacon_storage: Vec<(u64, U256)>,
    pub eoas: Vec<U256>,
    pub eoa_nonces: Vec<u64>,
    pub contracts: Vec<ContractPlan>,
    /// Other accounts with a balance.
    pub fillers: Vec<(Address, U256)>,
    pub txs: Vec<TxPlan>,
    /// Gwei.
    pub withdrawals: Vec<(Address, u64)>,
    /// Compact wire format, or separate tries.
    pub compact: bool,
    /// Code comes inside the witness (else beside it).
    pub inline_code: bool,
    pub batch: usize,
}

pub fn addr_named(s: &str) -> Address {
    Address::from_slice(&keccak(s).0[12..])
}
fn mined(base: &Address, depth: usize, tag: u64) -> Address {
    let want = nibs_of(&keccak(base).0);
    for i in 0.. {
        let a = addr_named(&format!("near {tag} {i}"));
        if nibs_of(&keccak(a).0)[..depth] == want[..depth] {
            return a;
        }
    }
    unreachable!()
}

#[derive(Clone, Copy)]
pub struct Size {
    pub max_contracts: u64,
    pub max_txs: u64,
    pub depth: usize,
    pub gas: u64,
}
pub const SMALL: Size = Size { max_contracts: 3, max_txs: 3, depth: 1, gas: 150_000 };
pub const MEDIUM: Size = Size { max_contracts: 4, max_txs: 6, depth: 2, gas: 300_000 };

pub fn gen(r: &mut Rng, size: Size) -> BlockPlan {
    let ks = keys();
    let nc = r.range(1, size.max_contracts) as usize;
    let ntx = match r.below(12) {
        0 => 0,
        1 | 2 => 1,
        _ => r.range(1, size.max_txs) as usize,
    };
    let tag = r.below(40);
    // Addresses.
    let caddrs: Vec<Address> = (0..nc)
        .map(|i| match r.below(4) {
            0 => mined(&ks[0].1, 2, tag * 8 + i as u64),
            _ => addr_named(&format!("contract {tag} {i}")),
        })
        .collect();
    let fresh: Vec<Address> = (0..3)
        .map(|i| match r.below(3) {
            0 => mined(&caddrs[0], *r.clone().pick(&[1, 2, 3]), 1000 + tag * 8 + i),
            _ => addr_named(&format!("fresh {tag} {i}")),
        })
        .collect();
    let eoa_nonces: Vec<u64> = (0..N_KEYS).map(|_| *r.pick(&[0, 0, 1, 5, 127, 128, 255, 256, 70000])).collect();
    let mut created: Vec<Address> = vec![create_address(ks[0].1, eoa_nonces[0]), create_address(ks[1].1, eoa_nonces[1])];
    let nonces: Vec<u64> = caddrs.iter().map(|_| *r.pick(&[1, 1, 1, 2, 300])).collect();
    for (a, n) in caddrs.iter().zip(&nonces) {
        created.push(create_address(*a, *n));
    }
    let coinbase = match r.below(6) {
        0 => ks[0].1,
        1 => fresh[0],
        2 => caddrs[0],
        _ => addr_named("coinbase"),
    };
    let mut pool: Vec<U256> = vec![];
    for _ in 0..3 {
        pool.extend(caddrs.iter().map(|a| u_of(*a)));
    }
    pool.extend(ks.iter().take(3).map(|k| u_of(k.1)));
    pool.extend(created.iter().map(|a| u_of(*a)));
    pool.extend(fresh.iter().map(|a| u_of(*a)));
    pool.extend([1u64, 2, 3, 4, 5, 6, 7, 8, 9, 10].map(U256::from));
    pool.push(u_of(beacon_addr()));
    pool.push(u_of(coinbase));
    let env = Env { addrs: &pool, slots: slots() };

    let contracts = caddrs
        .iter()
        .zip(nonces)
        .map(|(a, nonce)| ContractPlan {
            addr: *a,
            code: if r.chance(1, 12) { vec![] } else { prog::stmts(r, &env, size.depth, 7) },
            storage: {
                let n = r.below(7);
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    m.insert(*r.pick(slots()), *r.pick(&[U256::one(), 2.into(), 127.into(), 128.into(), U256::MAX, U256::one() << 200]));
                }
                m.into_iter().collect()
            },
            balance: if r.chance(1, 2) { r.below(100000).into() } else { U256::zero() },
            nonce,
        })
        .collect();
    let mut fillers: Vec<(Address, U256)> = vec![];
    for i in 0..r.below(40) {
        fillers.push((addr_named(&format!("filler {tag} {i}")), r.range(1, u64::MAX / 2).into()));
    }
    // Some to-be-created or fresh addresses already have a balance.
    for a in created.iter().chain(&fresh) {
        if r.chance(1, 6) {
            fillers.push((*a, r.range(1, 5000).into()));
        }
    }
    for i in 0..r.below(3) {
        fillers.push((mined(&fresh[0], 2, 2000 + i), 7.into()));
    }
    if r.chance(2, 3) && !fillers.iter().any(|f| f.0 == coinbase) {
        fillers.push((coinbase, 1000.into()));
    }
    let al = |r: &mut Rng| -> Vec<(Address, Vec<u64>)> {
        (0..r.below(3))
            .map(|_| {
                let mut b = [0; 32];
                r.pick(&pool).to_big_endian(&mut b);
                let n = r.below(3);
                (Address::from_slice(&b[12..]), (0..n).map(|_| *r.pick(slots())).collect())
            })
            .collect()
    };
    let txs = (0..ntx)
        .map(|_| {
            let ty = *r.pick(&[0, 0, 1, 2, 2, 2, 3]);
            let to_pool: Vec<Address> =
                caddrs.iter().chain(&caddrs).chain(&caddrs).copied().chain(fresh.clone()).chain(created.clone()).chain([ks[1].1, coinbase]).chain([1u64, 2, 3, 4, 5, 6, 7, 8, 9, 10].map(Address::from_low_u64_be)).collect();
            let payload = if ty != 3 && r.chance(1, 6) {
                match r.below(5) {
                    0 => Payload::CreateRaw({
                        let n = r.idx(6);
                        r.bytes(n)
                    }),
                    // init code that destroys itself
                    1 => Payload::CreateRaw([vec![0x73], r.pick(&to_pool).as_bytes().to_vec(), vec![0xff]].concat()),
                    // init code about the size limit
                    2 if r.chance(1, 3) => Payload::CreateRaw(vec![0; *r.pick(&[49152, 49151, 24577])]),
                    2 => Payload::CreateRaw(vec![0x61, 0x60, *r.pick(&[0, 1]), 0x5f, 0xf3]),
                    _ => Payload::Create(prog::stmts(r, &env, 0, 3), prog::stmts(r, &env, 1, 3)),
                }
            } else {
                let n = match r.below(4) {
                    0 => 0,
                    _ => r.idx(100),
                };
                let mut d = r.bytes(n);
                for b in d.iter_mut() {
                    if r.chance(1, 3) {
                        *b = 0
                    }
                }
                Payload::Call(*r.pick(&to_pool), d)
            };
            TxPlan {
                from: r.idx(3),
                ty,
                payload,
                value: match r.below(5) {
                    0 => r.below(1000).into(),
                    1 => U256::from(10).pow(15.into()),
                    _ => U256::zero(),
                },
                gas: match r.below(8) {
                    0 | 1 => Gas::Cut(r.below(1000)),
                    2 => Gas::Near(r.range(0, 6) as i64 - 3),
                    _ => Gas::Plus(r.range(size.gas / 10, size.gas)),
                },
                prio: *r.pick(&[0, 1, 7, 1_000_000_000]),
                extra_fee: *r.pick(&[0, 1, 1_000_000_000]),
                access_list: if ty > 0 && r.chance(1, 2) { al(r) } else { vec![] },
                blobs: r.range(1, 3) as u8,
                old_v: r.chance(1, 4),
            }
        })
        .collect();
    let mut contracts: Vec<ContractPlan> = contracts;
    let mut txs: Vec<TxPlan> = txs;
    // Some blocks have a theme.
    if !txs.is_empty() && r.chance(1, 3) {
        let k = r.idx(txs.len());
        let stores = |r: &mut Rng, max: u64| -> Vec<prog::S> {
            (0..r.range(1, max)).map(|_| prog::S::SStore(prog::E::C((*r.pick(slots())).into()), prog::E::C(r.below(3).into()))).collect()
        };
        let die = |r: &mut Rng| prog::S::SelfDestruct(prog::E::C(*r.pick(&pool)));
        match r.below(10) {
            // precompiles with inputs that mean something to them
            0 | 1 => {
                contracts[0].code = (0..r.range(1, 3)).map(|_| prog::pre(r, slots())).collect();
                txs[k].payload = Payload::Call(caddrs[0], vec![]);
                txs[k].gas = Gas::Plus(600_000);
            }
            2 => {
                let n = r.range(1, 10);
                txs[k].payload = Payload::Call(Address::from_low_u64_be(n), crate::precomp::sample(r, n).0);
                txs[k].gas = if r.chance(1, 3) { Gas::Plus(600_000) } else { Gas::Near(r.range(0, 6) as i64 - 3) };
            }
            // a contract that stores and dies within its own transaction
            3 if txs[k].ty != 3 => {
                let mut init = stores(r, 4);
                if r.chance(1, 3) {
                    init.push(prog::stmt(r, &env, 1));
                }
                init.push(die(r));
                txs[k].payload = Payload::Create(init, vec![]);
                txs[k].gas = Gas::Plus(600_000);
            }
            3 | 4 => {
                let mut ctor = stores(r, 4);
                let dies = die(r);
                let kind = *r.pick(&[0xf0, 0xf5]);
                let mut code = stores(r, 3);
                if r.chance(1, 2) {
                    ctor.push(dies);
                    code.push(prog::S::Pop(prog::E::Create(kind, Box::new(prog::E::C(0.into())), 1, ctor, vec![])));
                } else {
                    // it dies when called later in the transaction
                    let child = prog::E::Create(kind, Box::new(prog::E::C(0.into())), 1, ctor, vec![stores(r, 3).remove(0), dies]);
                    code.push(prog::S::MStore(0x300, child));
                    let c = prog::E::Un(0x51, Box::new(prog::E::C(0x300.into())));
                    let call = prog::E::Call(0xf1, Box::new(prog::E::C(200_000.into())), Box::new(c), Box::new(prog::E::C(0.into())), 0, 0, 0, 0);
                    code.push(prog::S::Pop(call));
                }
                contracts[0].code = code;
                txs[k].payload = Payload::Call(caddrs[0], vec![]);
                txs[k].gas = Gas::Plus(600_000);
            }
            // transient storage, across calls that may fail
            5 => {
                let few = [prog::E::Env(0x30), prog::tkey(r, &env), prog::tkey(r, &env), prog::E::C(u_of(*r.pick(&caddrs)))];
                for c in contracts.iter_mut() {
                    c.code = (0..r.range(2, 7))
                        .map(|_| match r.below(6) {
                            0 | 1 => prog::S::SStore(
                                prog::E::C((*r.pick(slots())).into()),
                                prog::E::Un(0x5c, Box::new(r.pick(&few).clone())),
                            ),
                            2 => prog::S::Pop(prog::E::Call(
                                *r.pick(&[0xf1, 0xf2, 0xf4, 0xfa]),
                                Box::new(prog::E::C(U256::from(60_000 * r.range(1, 4)))),
                                Box::new(prog::E::C(u_of(*r.pick(&caddrs)))),
                                Box::new(prog::E::C(0.into())),
                                0,
                                0,
                                0,
                                0,
                            )),
                            _ => prog::S::TStore(r.pick(&few).clone(), r.pick(&few).clone()),
                        })
                        .collect();
                    if r.chance(1, 4) {
                        c.code.push(prog::S::Revert(0, 0));
                    }
                }
                txs[k].payload = Payload::Call(caddrs[0], vec![]);
                txs[k].gas = Gas::Plus(600_000);
            }
            // creations in frames that still hold what a call returned
            6 => {
                let last = contracts.len() - 1;
                contracts[last].code = vec![
                    prog::S::MStore8(0, prog::E::C((*r.pick(&[0xefu64, 0xef, 0xfe])).into())),
                    if r.chance(1, 2) { prog::S::Return(0, r.range(1, 80) as u16) } else { prog::S::Revert(0, r.range(1, 80) as u16) },
                ];
                let call = prog::E::Call(
                    *r.pick(&[0xf1, 0xf2, 0xf4, 0xfa]),
                    Box::new(prog::E::C(100_000.into())),
                    Box::new(prog::E::C(u_of(caddrs[last]))),
                    Box::new(prog::E::C(0.into())),
                    0,
                    0,
                    0,
                    r.below(40) as u16,
                );
                let mut code = vec![prog::S::Pop(call)];
                for i in 0..r.range(1, 4) {
                    let init: Vec<u8> = match r.below(6) {
                        0 => vec![],
                        1 => vec![0],
                        2 => vec![0x5f, 0x5f, 0xf3],
                        3 => vec![0x5f, 0x5f, 0xfd],
                        4 => vec![0x60, 0x01, 0x5f, 0xf3],
                        _ => {
                            let n = r.idx(8);
                            r.bytes(n)
                        }
                    };
                    let e = prog::E::CreateRaw(*r.pick(&[0xf0, 0xf5]), Box::new(prog::E::C(0.into())), i, init);
                    code.push(prog::S::SStore(prog::E::C((*r.pick(slots())).into()), e));
                    if r.chance(1, 2) {
                        code.push(prog::S::SStore(prog::E::C((*r.pick(slots())).into()), prog::E::Env(0x3d)));
                    }
                }
                if last == 0 {
                    txs[k].payload = Payload::Create(code[1..].to_vec(), vec![]);
                } else {
                    contracts[0].code = code;
                    txs[k].payload = Payload::Call(caddrs[0], vec![]);
                }
                if txs[k].ty == 3 {
                    txs[k].ty = 2;
                }
                txs[k].gas = Gas::Plus(600_000);
            }
            // the same creation several times
            7 => {
                let init: Vec<u8> = match r.below(4) {
                    0 => vec![],
                    1 => vec![0x5f, 0x5f, 0xfd],
                    2 => vec![0x33, 0xff],
                    _ => vec![0x60, 0x01, 0x5f, 0xf3],
                };
                let mut code = vec![];
                for _ in 0..r.range(2, 4) {
                    let v = prog::E::C(if r.chance(1, 2) { r.below(50).into() } else { U256::zero() });
                    let e = prog::E::CreateRaw(0xf5, Box::new(v), 7, init.clone());
                    code.push(prog::S::SStore(prog::E::C((*r.pick(slots())).into()), e));
                    if r.chance(1, 3) {
                        code.push(prog::stmt(r, &env, 1));
                    }
                }
                if r.chance(1, 4) {
                    code.push(prog::S::Revert(0, 0));
                }
                contracts[0].code = code;
                let twice = r.idx(txs.len());
                for k in [k, twice] {
                    txs[k].payload = Payload::Call(caddrs[0], vec![]);
                    txs[k].gas = Gas::Plus(600_000);
                }
            }
            // what was touched in a frame that fails is cold again
            8 => {
                let touch = |r: &mut Rng| -> prog::S {
                    let e = match r.below(3) {
                        0 => prog::E::Un(0x54, Box::new(prog::E::C((*r.pick(slots())).into()))),
                        _ => prog::E::Un(*r.pick(&[0x31, 0x3b, 0x3f]), Box::new(prog::E::C(*r.pick(&pool)))),
                    };
                    prog::S::Pop(e)
                };
                for c in contracts.iter_mut() {
                    c.code = (0..r.range(2, 8))
                        .map(|_| match r.below(5) {
                            0 => prog::S::Pop(prog::E::Call(
                                *r.pick(&[0xf1, 0xf2, 0xf4, 0xfa]),
                                Box::new(prog::E::C(U256::from(20_000 * r.range(1, 4)))),
                                Box::new(prog::E::C(u_of(*r.pick(&caddrs)))),
                                Box::new(prog::E::C(0.into())),
                                0,
                                0,
                                0,
                                0,
                            )),
                            1 => prog::S::SStore(prog::E::C((*r.pick(slots())).into()), prog::E::Env(0x5a)),
                            _ => touch(r),
                        })
                        .collect();
                    match r.below(4) {
                        0 => c.code.push(prog::S::Revert(0, 0)),
                        1 => c.code.push(prog::S::Raw(vec![0xfe])),
                        _ => {}
                    }
                }
                txs[k].payload = Payload::Call(caddrs[0], vec![]);
                txs[k].gas = Gas::Plus(600_000);
            }
            // destinations that are none
            _ => {
                contracts[0].code.insert(0, prog::S::BadJump(prog::E::C(r.below(2).into()), r.below(70) as u8, r.below(40) as u8));
                txs[k].payload = Payload::Call(caddrs[0], vec![]);
                txs[k].gas = Gas::Plus(300_000);
            }
        }
    }
    let timestamp = match r.below(8) {
        0 => 8191 * 3,
        _ => r.range(1_700_000_000, 1_800_000_000),
    };
    let i = timestamp % 8191;
    let mut beacon_storage = vec![];
    for k in [i, i + 8191, i + 1, 3, 5000] {
        if r.chance(1, 2) {
            beacon_storage.push((k, U256::from_big_endian(&r.b32())));
        }
    }
    beacon_storage.sort();
    beacon_storage.dedup_by_key(|x| x.0);
    BlockPlan {
        coinbase,
        timestamp,
        number: *r.pick(&[1, 2, 100, 255, 256, 257, 300, 19_999_999]),
        random: H256(r.b32()),
        base_fee: *r.pick(&[7, 1_000_000_000, 30_000_000_000, 1]),
        excess_blob_gas: *r.pick(&[0, 393216, 10_000_000, 60_000_000]),
        beacon_root: if r.chance(1, 6) { H256::zero() } else { H256(r.b32()) },
        chain_id: 1,
        beacon_storage,
        eoas: (0..N_KEYS).map(|_| if r.chance(1, 10) { U256::from(10).pow(16.into()) } else { U256::from(10).pow(21.into()) }).collect(),
        eoa_nonces,
        contracts,
        fillers,
        txs,
        withdrawals: (0..if r.chance(1, 2) { r.below(4) } else { 0 })
            .map(|_| {
                let cands: Vec<Address> = fresh.iter().copied().chain(caddrs.iter().copied()).chain([ks[0].1, ks[5].1, coinbase]).collect();
                (*r.pick(&cands), r.range(1, 40_000_000_000))
            })
            .collect(),
        compact: r.chance(2, 3),
        inline_code: r.chance(1, 2),
        batch: r.range(1, 4) as usize,
    }
}
pub fn shrink(p: &BlockPlan) -> Vec<BlockPlan> {
    let mut out = vec![];
    macro_rules! chunks {
        ($f:ident) => {
            for v in simcore::drop_chunks(&p.$f) {
                out.push(BlockPlan { $f: v, ..p.clone() });
            }
        };
    }
    chunks!(txs);
    chunks!(contracts);
    chunks!(fillers);
    chunks!(withdrawals);
    chunks!(beacon_storage);
    for (i, c) in p.contracts.iter().enumerate() {
        for code in simcore::drop_chunks(&c.code) {
            let mut q = p.clone();
            q.contracts[i].code = code;
            out.push(q);
        }
        for (j, s) in c.code.iter().enumerate() {
            for s2 in prog::shrink_s(s) {
                let mut q = p.clone();
                q.contracts[i].code[j] = s2;
                out.push(q);
            }
        }
        for st in simcore::drop_chunks(&c.storage) {
            let mut q = p.clone();
            q.contracts[i].storage = st;
            out.push(q);
        }
    }
    for (i, t) in p.txs.iter().enumerate() {
        let mut push = |t2: TxPlan| {
            let mut q = p.clone();
            q.txs[i] = t2;
            out.push(q);
        };
        if t.ty != 0 {
            push(TxPlan { ty: 0, ..t.clone() });
        }
        if !t.access_list.is_empty() {
            push(TxPlan { access_list: vec![], ..t.clone() });
        }
        if !t.value.is_zero() {
            push(TxPlan { value: 0.into(), ..t.clone() });
        }
        if !matches!(t.gas, Gas::Plus(_)) {
            push(TxPlan { gas: Gas::Plus(500000), ..t.clone() });
        }
        match &t.payload {
            Payload::Call(a, d) if !d.is_empty() => push(TxPlan { payload: Payload::Call(*a, vec![]), ..t.clone() }),
            Payload::Create(c, rt) => {
                for v in simcore::drop_chunks(c) {
                    push(TxPlan { payload: Payload::Create(v, rt.clone()), ..t.clone() });
                }
                for v in simcore::drop_chunks(rt) {
                    push(TxPlan { payload: Payload::Create(c.clone(), v), ..t.clone() });
                }
                for (j, s) in c.iter().enumerate() {
                    for s2 in prog::shrink_s(s) {
                        let mut c2 = c.clone();
                        c2[j] = s2;
                        push(TxPlan { payload: Payload::Create(c2, rt.clone()), ..t.clone() });
                    }
                }
            }
            _ => {}
        }
    }
    out
}

// ------------------------------------------------------------------ execution by the reference
#[derive(Clone, Debug, PartialEq)]
pub struct Roots {
    pub state: H256,
    pub txs: H256,
    pub receipts: H256,
}
pub struct TxDone {
    pub tx: Tx,
    pub raw: Vec<u8>,
    pub receipt: Vec<u8>,
    pub success: bool,
    pub gas_used: u64,
    pub probes: BTreeMap<&'static str, u64>,
}
pub struct Built {
    pub hdr: Header,
    pub trace: BlockTrace,
    pub other: OtherBlockData,
    pub done: Vec<TxDone>,
    pub pre: World,
    /// World after the pre-execution hook and each transaction; the last one includes withdrawals.
    pub worlds: Vec<World>,
    pub after_withdrawals: World,
    pub skipped: usize,
    pub n_kept: usize,
}
pub fn state_map(w: &World) -> Map {
    w.iter().map(|(a, x)| (nibs_of(&keccak(a).0), acct_rlp(x))).collect()
}
pub fn storage_map(x: &Acct) -> Map {
    x.storage.iter().map(|(k, v)| (nibs_of(&keccak(be(*k)).0), rlp_uint(*v))).collect()
}
fn acct_rlp(x: &Acct) -> Vec<u8> {
    rlp_list(&[rlp_uint(x.nonce.into()), rlp_uint(x.balance), rlp_str(&refmpt::root(&storage_map(x))), rlp_str(&keccak(&**x.code).0)])
}
pub fn state_root(w: &World) -> H256 {
    H256(refmpt::root(&state_map(w)))
}
/// Root of the transactions or receipts trie.
pub fn list_map(items: &[Vec<u8>]) -> Map {
    items.iter().enumerate().map(|(i, v)| (nibs_of(&rlp_uint(i.into())), v.clone())).collect()
}
pub fn list_root(items: &[Vec<u8>]) -> H256 {
    H256(refmpt::root(&list_map(items)))
}
impl Built {
    /// Roots after `n` of the transactions (and after the withdrawals if `end`).
    pub fn roots(&self, n: usize, end: bool) -> Roots {
        Roots {
            state: state_root(if end { &self.after_withdrawals } else { &self.worlds[n] }),
            txs: list_root(&self.done[..n].iter().map(|d| d.raw.clone()).collect::<Vec<_>>()),
            receipts: list_root(&self.done[..n].iter().map(|d| d.receipt.clone()).collect::<Vec<_>>()),
        }
    }
}

pub const BEACON_CODE: &str = "3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500";
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn world_of(p: &BlockPlan) -> World {
    let mut w = World::new();
    for (a, b) in &p.fillers {
        w.insert(*a, Acct { balance: *b, ..Default::default() });
    }
    for (i, b) in p.eoas.iter().enumerate() {
        w.insert(keys()[i].1, Acct { balance: *b, nonce: p.eoa_nonces[i], ..Default::default() });
    }
    for c in &p.contracts {
        let mut code = assemble(&c.code);
        code.truncate(24576);
        if code.len() > 24576 {
            continue;
        }
        w.insert(
            c.addr,
            Acct { nonce: c.nonce, balance: c.balance, code: Rc::new(code), storage: c.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| ((*k).into(), *v)).collect() },
        );
    }
    w.insert(
        beacon_addr(),
        Acct { nonce: 1, balance: 0.into(), code: Rc::new(unhex(BEACON_CODE)), storage: p.beacon_storage.iter().map(|(k, v)| ((*k).into(), *v)).collect() },
    );
    w
}
pub fn header_of(p: &BlockPlan) -> Header {
    Header {
        coinbase: p.coinbase,
        timestamp: p.timestamp,
        number: p.number,
        random: p.random,
        gas_limit: 30_000_000,
        chain_id: p.chain_id,
        base_fee: p.base_fee,
        excess_blob_gas: p.excess_blob_gas,
        beacon_root: p.beacon_root,
        prev_hashes: (0..256u64).map(|i| if i + p.number < 256 { H256::zero() } else { keccak(format!("block {}", i + p.number - 256)) }).collect(),
    }
}
pub fn build(p: &BlockPlan) -> Built {
    build_on(p, world_of(p))
}
/// Executes the block on `pre` and makes the payload for it.
pub fn build_on(p: &BlockPlan, pre: World) -> Built {
    let hdr = header_of(p);
    let mut w = pre.clone();
    beacon_hook(&mut w, &hdr);
    let mut worlds = vec![w.clone()];
    let mut keep_accts: BTreeSet<Address> = BTreeSet::from([hdr.coinbase, beacon_addr()]);
    let mut keep_slots: BTreeSet<(Address, U256)> = BTreeSet::new();
    let mut gone_slots: BTreeSet<(Address, U256)> = BTreeSet::new();
    let mut gone_accts: BTreeSet<Address> = BTreeSet::new();
    let i = U256::from(hdr.timestamp % 8191);
    for k in [i, i + 8191] {
        keep_slots.insert((beacon_addr(), k));
        if hdr.beacon_root.is_zero() {
            gone_slots.insert((beacon_addr(), k));
        }
    }
    let (mut txn_info, mut done, mut skipped, mut cum, mut blobs) = (vec![], vec![], 0, 0u64, 0u64);
    let mut all_logs = vec![];
    for t in &p.txs {
        let (key, from) = &keys()[t.from];
        let nonce = w.get(from).map_or(0, |a| a.nonce);
        let (to, data) = match &t.payload {
            Payload::Call(a, d) => (Some(*a), d.clone()),
            Payload::Create(c, rt) => {
                let mut init = assemble_init(c, rt);
                init.truncate(49152);
                (None, init)
            }
            Payload::CreateRaw(b) => (None, b.clone()),
        };
        let ty = if t.ty == 3 && to.is_none() { 2 } else { t.ty };
        let mut tx = Tx {
            ty,
            from: *from,
            nonce,
            to,
            value: t.value,
            data,
            gas_limit: 0,
            max_fee: hdr.base_fee + t.extra_fee,
            max_prio: if ty < 2 { hdr.base_fee + t.extra_fee } else { t.prio.min(hdr.base_fee + t.extra_fee) },
            access_list: if ty > 0 { t.access_list.iter().map(|(a, k)| (*a, k.iter().map(|x| (*x).into()).collect())).collect() } else { vec![] },
            blob_hashes: if ty == 3 {
                (0..t.blobs)
                    .map(|i| {
                        let mut h = keccak([i]);
                        h.0[0] = 1;
                        h
                    })
                    .collect()
            } else {
                vec![]
            },
        };
        let intr = intrinsic(&tx);
        tx.gas_limit = intr
            + match t.gas {
                Gas::Plus(g) => g,
                Gas::Cut(_) | Gas::Near(_) => {
                    let mut probe = tx.clone();
                    probe.gas_limit = intr + 1_000_000;
                    if !valid(&w, &hdr, &probe, cum) {
                        skipped += 1;
                        continue;
                    }
                    let used = execute(&mut w.clone(), &hdr, &probe).gas_used;
                    let more = used.saturating_sub(intr);
                    match t.gas {
                        Gas::Cut(c) => (more * c / 1000).min(400_000),
                        Gas::Near(d) => (more as i64 + d).clamp(0, 1_000_000) as u64,
                        _ => unreachable!(),
                    }
                }
            };
        if !valid(&w, &hdr, &tx, cum) || blobs + tx.blob_hashes.len() as u64 > 6 {
            skipped += 1;
            continue;
        }
        blobs += tx.blob_hashes.len() as u64;
        let before = w.clone();
        let out = execute(&mut w, &hdr, &tx);
        cum += out.gas_used;
        let raw = sign(&tx, hdr.chain_id, key, t.old_v && tx.ty == 0);
        let receipt = receipt_rlp(tx.ty, out.success, cum, &out.logs);
        all_logs.extend(out.logs.clone());
        // What a tracing node reports.
        let mut traces: BTreeMap<Address, TxnTrace> = BTreeMap::new();
        for a in &out.access.accts {
            keep_accts.insert(*a);
            let (b, n) = (before.get(a), w.get(a));
            let mut tr = TxnTrace::default();
            let d = Acct::default();
            let (bb, nn) = (b.unwrap_or(&d), n.unwrap_or(&d));
            let slots: Vec<U256> = out.access.slots.iter().filter(|s| s.0 == *a).map(|s| s.1).collect();
            tr.storage_read = slots.iter().map(|k| H256(be(*k))).collect();
            if n.is_some() {
                tr.balance = (bb.balance != nn.balance).then_some(nn.balance);
                tr.nonce = (bb.nonce != nn.nonce).then_some(nn.nonce.into());
                if bb.code != nn.code {
                    tr.code_usage = Some(ContractCodeUsage::Write(nn.code.to_vec()));
                } else if !nn.code.is_empty() {
                    tr.code_usage = Some(ContractCodeUsage::Read(keccak(&**nn.code)));
                }
                for k in &slots {
                    let (o, v) = (bb.storage.get(k).copied().unwrap_or_default(), nn.storage.get(k).copied().unwrap_or_default());
                    if o != v {
                        tr.storage_written.insert(H256(be(*k)), v);
                        if v.is_zero() {
                            gone_slots.insert((*a, *k));
                        }
                    }
                }
            } else if b.is_some() {
                tr.self_destructed = true;
                gone_accts.insert(*a);
            }
            traces.insert(*a, tr);
        }
        keep_slots.extend(out.access.slots.iter().copied());
        txn_info.push(TxnInfo {
            traces,
            meta: TxnMeta {
                byte_code: raw.clone(),
                new_receipt_trie_node_byte: if tx.ty == 0 { receipt.clone() } else { rlp_str(&receipt) },
                gas_used: out.gas_used,
            },
        });
        done.push(TxDone { tx, raw, receipt, success: out.success, gas_used: out.gas_used, probes: out.probes });
        worlds.push(w.clone());
    }
    for (a, g) in &p.withdrawals {
        keep_accts.insert(*a);
        w.entry(*a).or_default().balance += U256::from(*g) * 1_000_000_000u64;
    }
    // ---------------------------------------------------------------- witness
    let kn = |a: &Address| nibs_of(&keccak(a).0);
    let keep: BTreeSet<Nibs> = keep_accts.iter().map(kn).collect();
    let exp: BTreeSet<Nibs> = gone_accts.iter().map(kn).collect();
    let smap = state_map(&pre);
    let stree = tree(&smap, &keep, &exp);
    let by_hash: BTreeMap<Nibs, (Address, &Acct)> = pre.iter().map(|(a, x)| (kn(a), (*a, x))).collect();
    let storage_tree = |a: &Address, x: &Acct| {
        let kn = |k: &U256| nibs_of(&keccak(be(*k)).0);
        let f = |s: &BTreeSet<(Address, U256)>| s.iter().filter(|s| s.0 == *a).map(|s| kn(&s.1)).collect::<BTreeSet<Nibs>>();
        tree(&storage_map(x), &f(&keep_slots), &f(&gone_slots))
    };
    let mut code_db: BTreeSet<Vec<u8>> = BTreeSet::new();
    let codes = || pre.iter().filter(|(a, x)| keep_accts.contains(*a) && !x.code.is_empty()).map(|(_, x)| x.code.to_vec());
    let pre_images = if p.compact {
        let mut o = vec![1u8];
        encode(&stree, &mut o, &mut |key, path, o| {
            let (a, x) = &by_hash[path];
            let kept = keep_accts.contains(a);
            let mut flags = 0;
            if !x.code.is_empty() {
                flags |= 1;
                if kept && p.inline_code {
                    o.push(4);
                    cbor_bytes(o, &x.code);
                } else {
                    o.push(3);
                    o.extend(keccak(&**x.code).0);
                }
            }
            if !x.storage.is_empty() {
                flags |= 2;
                let t = if kept { storage_tree(a, x) } else { T::Hash(H256(refmpt::root(&storage_map(x)))) };
                encode(&t, o, &mut |key, path, o| {
                    o.push(0);
                    cbor_bytes(o, &enc_key(key));
                    let v = x.storage.iter().find(|(k, _)| nibs_of(&keccak(be(**k)).0) == *path).unwrap().1;
                    let b = be(*v);
                    cbor_bytes(o, &b[b.iter().position(|y| *y != 0).unwrap()..]);
                });
            }
            if x.nonce != 0 {
                flags |= 4;
            }
            if !x.balance.is_zero() {
                flags |= 8;
            }
            o.push(5);
            cbor_bytes(o, &enc_key(key));
            o.push(flags);
            if x.nonce != 0 {
                cbor_uint(o, x.nonce);
            }
            if !x.balance.is_zero() {
                let b = be(x.balance);
                cbor_bytes(o, &b[b.iter().position(|y| *y != 0).unwrap()..]);
            }
            if !x.code.is_empty() {
                cbor_uint(o, x.code.len() as u64);
            }
        });
        if !p.inline_code {
            code_db.extend(codes());
        }
        BlockTraceTriePreImages::Combined(CombinedPreImages { compact: o })
    } else {
        code_db.extend(codes());
        let mut storage = std::collections::HashMap::new();
        for a in &keep_accts {
            if let Some(x) = pre.get(a) {
                if keep_slots.iter().any(|s| s.0 == *a) || a.0[19] & 1 == 0 {
                    storage.insert(keccak(a), SeparateTriePreImage::Direct(to_trie(&storage_tree(a, x))));
                }
            }
        }
        BlockTraceTriePreImages::Separate(SeparateTriePreImages {
            state: SeparateTriePreImage::Direct(to_trie(&stree)),
            storage: SeparateStorageTriesPreImage::MultipleTries(storage),
        })
    };
    let bl = bloom(&all_logs);
    let other = OtherBlockData {
        b_data: BlockLevelData {
            b_meta: BlockMetadata {
                block_beneficiary: hdr.coinbase,
                block_timestamp: hdr.timestamp.into(),
                block_number: hdr.number.into(),
                block_difficulty: 0.into(),
                block_random: hdr.random,
                block_gaslimit: hdr.gas_limit.into(),
                block_chain_id: hdr.chain_id.into(),
                block_base_fee: hdr.base_fee.into(),
                block_gas_used: cum.into(),
                block_blob_gas_used: (131072 * blobs).into(),
                block_excess_blob_gas: hdr.excess_blob_gas.into(),
                parent_beacon_block_root: hdr.beacon_root,
                block_bloom: std::array::from_fn(|i| U256::from_big_endian(&bl[32 * i..32 * i + 32])),
            },
            b_hashes: BlockHashes { prev_hashes: hdr.prev_hashes.clone(), cur_hash: keccak("current block") },
            withdrawals: p.withdrawals.iter().map(|(a, g)| (*a, (*g).into())).collect(),
        },
        checkpoint_state_trie_root: keccak("checkpoint"),
        checkpoint_consolidated_hash: Default::default(),
        burn_addr: None,
        ger_data: None,
    };
    Built {
        hdr,
        trace: BlockTrace { trie_pre_images: pre_images, code_db, txn_info },
        other,
        done,
        pre,
        worlds,
        after_withdrawals: w,
        skipped,
        n_kept: keep_accts.len(),
    }
}

// ------------------------------------------------------------------ partial tries
#[derive(Clone, Debug)]
pub enum T {
    Empty,
    Hash(H256),
    Leaf(Nibs, Vec<u8>),
    Ext(Nibs, Box<T>),
    Br(Vec<T>),
}
/// The trie of `m` cut down to the paths of `keep`; around `exp` one more level is kept, as
/// nodes do for deletions.
pub fn tree(m: &Map, keep: &BTreeSet<Nibs>, exp: &BTreeSet<Nibs>) -> T {
    let items: Vec<_> = m.iter().collect();
    let k: Vec<_> = keep.iter().collect();
    let e: Vec<_> = exp.iter().collect();
    cut(&items, 0, &k, &e, false)
}
fn cut(items: &[(&Nibs, &Vec<u8>)], depth: usize, keep: &[&Nibs], exp: &[&Nibs], force: bool) -> T {
    if items.is_empty() {
        return T::Empty;
    }
    if keep.is_empty() && !force {
        let n = refmpt::node_rlp(items, depth);
        if n.len() >= 32 || depth == 0 {
            return T::Hash(keccak(n));
        }
    }
    if items.len() == 1 {
        return T::Leaf(items[0].0[depth..].to_vec(), items[0].1.clone());
    }
    let (a, b) = (items[0].0, items[items.len() - 1].0);
    let mut j = depth;
    while a[j] == b[j] {
        j += 1;
    }
    let on = |v: &[&Nibs], lo: usize, hi: usize, p: &[u8]| -> bool { v.iter().any(|k| k[lo..hi] != *p) };
    if j > depth {
        let p = &a[depth..j];
        let f = |v: &[&Nibs]| -> Vec<Nibs> { v.iter().filter(|k| k[depth..j] == *p).map(|k| (*k).clone()).collect() };
        let (k2, e2) = (f(keep), f(exp));
        return T::Ext(p.to_vec(), Box::new(cut(items, j, &k2.iter().collect::<Vec<_>>(), &e2.iter().collect::<Vec<_>>(), on(exp, depth, j, p))));
    }
    T::Br(
        (0..16u8)
            .map(|nib| {
                let f = |v: &[&Nibs]| -> Vec<Nibs> { v.iter().filter(|k| k[depth] == nib).map(|k| (*k).clone()).collect() };
                let here: Vec<_> = items.iter().filter(|(k, _)| k[depth] == nib).copied().collect();
                let (k2, e2) = (f(keep), f(exp));
                cut(&here, depth + 1, &k2.iter().collect::<Vec<_>>(), &e2.iter().collect::<Vec<_>>(), !exp.is_empty())
            })
            .collect(),
    )
}
fn nb(n: &[u8]) -> Nibbles {
    let mut o = Nibbles::default();
    for x in n {
        o.push_nibble_back(*x);
    }
    o
}
pub fn to_trie(t: &T) -> HashedPartialTrie {
    match t {
        T::Empty => Node::Empty.into(),
        T::Hash(h) => Node::Hash(*h).into(),
        T::Leaf(k, v) => Node::Leaf { nibbles: nb(k), value: v.clone() }.into(),
        T::Ext(k, c) => Node::Extension { nibbles: nb(k), child: std::sync::Arc::new(Box::new(to_trie(c))) }.into(),
        T::Br(cs) => Node::Branch { children: std::array::from_fn(|i| std::sync::Arc::new(Box::new(to_trie(&cs[i])))), value: vec![] }.into(),
    }
}
fn cbor_head(o: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => o.push(m | n as u8),
        24..=0xff => o.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            o.push(m | 25);
            o.extend((n as u16).to_be_bytes())
        }
        0x10000..=0xffffffff => {
            o.push(m | 26);
            o.extend((n as u32).to_be_bytes())
        }
        _ => {
            o.push(m | 27);
            o.extend(n.to_be_bytes())
        }
    }
}
fn cbor_bytes(o: &mut Vec<u8>, b: &[u8]) {
    cbor_head(o, 2, b.len() as u64);
    o.extend(b);
}
fn cbor_uint(o: &mut Vec<u8>, n: u64) {
    cbor_head(o, 0, n)
}
fn enc_key(k: &[u8]) -> Vec<u8> {
    if k.len() == 1 {
        return vec![k[0]];
    }
    let mut o = vec![(k.len() % 2) as u8];
    for p in k.chunks(2) {
        o.push(p[0] << 4 | p.get(1).copied().unwrap_or(0));
    }
    o
}
fn encode(t: &T, o: &mut Vec<u8>, leaf: &mut impl FnMut(&[u8], &Nibs, &mut Vec<u8>)) {
    enc(t, &mut vec![], o, leaf)
}
fn enc(t: &T, path: &mut Nibs, o: &mut Vec<u8>, leaf: &mut impl FnMut(&[u8], &Nibs, &mut Vec<u8>)) {
    let n = path.len();
    match t {
        T::Empty => o.push(6),
        T::Hash(h) => {
            o.push(3);
            o.extend(h.0);
        }
        T::Leaf(k, _) => {
            path.extend(k);
            leaf(k, path, o);
        }
        T::Ext(k, c) => {
            path.extend(k);
            enc(c, path, o, leaf);
            o.push(1);
            cbor_bytes(o, &enc_key(k));
        }
        T::Br(cs) => {
            let mut mask = 0u64;
            for (i, c) in cs.iter().enumerate() {
                if !matches!(c, T::Empty) {
                    mask |= 1 << i;
                    path.push(i as u8);
                    enc(c, path, o, leaf);
                    path.truncate(n);
                }
            }
            o.push(2);
            cbor_uint(o, mask);
        }
    }
    path.truncate(n);
}
