//! Reference precompiled contracts 0x01-0x0a, from the yellow paper and the EIPs.
use ethereum_types::{U256, U512};
use num_bigint::BigUint;
use sha2::Digest as _;

pub fn recover(hash: &[u8; 32], parity: u8, r: &[u8; 32], s: &[u8; 32]) -> Option<[u8; 20]> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    let sig = Signature::from_scalars(*r, *s).ok()?;
    // k256 refuses to recover from a high s; normalising s flips the parity.
    let (sig, parity) = match sig.normalize_s() {
        Some(n) => (n, parity ^ 1),
        None => (sig, parity),
    };
    let key = VerifyingKey::recover_from_prehash(hash, &sig, RecoveryId::from_byte(parity)?).ok()?;
    let pt = key.to_encoded_point(false);
    let h = keccak_hash::keccak(&pt.as_bytes()[1..]);
    Some(h.0[12..].try_into().unwrap())
}

fn pad(input: &[u8], off: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| input.get(off + i).copied().unwrap_or(0)).collect()
}
fn word(input: &[u8], off: usize) -> U256 {
    U256::from_big_endian(&pad(input, off, 32))
}
fn words(n: usize) -> u64 {
    n.div_ceil(32) as u64
}

/// `None`: failure, all gas consumed. `Some((gas, output))` otherwise (gas may exceed what is left).
pub fn run(n: u64, input: &[u8], gas: u64) -> Option<(u64, Vec<u8>)> {
    match n {
        1 => {
            let (h, v, r, s) = (pad(input, 0, 32), word(input, 32), pad(input, 64, 32), pad(input, 96, 32));
            let out = if v == 27.into() || v == 28.into() {
                recover(&h.try_into().unwrap(), v.low_u32() as u8 - 27, &r.try_into().unwrap(), &s.try_into().unwrap())
            } else {
                None
            };
            Some((3000, out.map_or(vec![], |a| [&[0u8; 12][..], &a].concat())))
        }
        2 => Some((60 + 12 * words(input.len()), sha2::Sha256::digest(input).to_vec())),
        3 => {
            let h = ripemd::Ripemd160::digest(input);
            Some((600 + 120 * words(input.len()), [&[0u8; 12][..], &h].concat()))
        }
        4 => Some((15 + 3 * words(input.len()), input.to_vec())),
        5 => modexp(input, gas),
        6 => {
            let p = g1(word(input, 0), word(input, 32))?;
            let q = g1(word(input, 64), word(input, 96))?;
            Some((150, g1_out(g1_add(p, q))))
        }
        7 => {
            if gas < 6000 {
                return None;
            }
            let p = g1(word(input, 0), word(input, 32))?;
            let k = word(input, 64);
            let mut acc = None;
            for i in (0..k.bits()).rev() {
                acc = g1_add(acc, acc);
                if k.bit(i) {
                    acc = g1_add(acc, p);
                }
            }
            Some((6000, g1_out(acc)))
        }
        8 => {
            if input.len() % 192 != 0 || gas < 45000 + 34000 * (input.len() as u64 / 192) {
                return None;
            }
            let mut f = f12_one();
            for pair in input.chunks(192) {
                let p = g1(word(pair, 0), word(pair, 32))?;
                let q = g2([word(pair, 96), word(pair, 64)], [word(pair, 160), word(pair, 128)])?;
                if let (Some(p), Some(q)) = (p, q) {
                    f = f12_mul(&f, &miller(p, q));
                }
            }
            let mut out = vec![0; 32];
            out[31] = u8::from(f12_final(&f) == f12_one());
            Some((45000 + 34000 * (input.len() as u64 / 192), out))
        }
        9 => {
            if input.len() != 213 || input[212] > 1 {
                return None;
            }
            let rounds = u32::from_be_bytes(input[..4].try_into().unwrap());
            if rounds as u64 > gas {
                return None;
            }
            Some((rounds as u64, blake2f(rounds, input)))
        }
        10 => {
            if gas < 50000 || input.len() != 192 {
                return None;
            }
            let mut h: [u8; 32] = sha2::Sha256::digest(&input[96..144]).into();
            h[0] = 1;
            let r = bls_r();
            if h != input[..32] || word(input, 32) >= r || word(input, 64) >= r || !kzg(&input[32..]) {
                return None;
            }
            let mut out = vec![0; 64];
            out[30] = 0x10;
            r.to_big_endian(&mut out[32..]);
            Some((50000, out))
        }
        _ => unreachable!(),
    }
}
fn bls_r() -> U256 {
    U256::from_str_radix("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16).unwrap()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
const INFINITY: &str = "c00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000";
const BLS_G1: &str = "97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb";
/// z, y, commitment, proof of valid openings of polynomials that are not constant (c-kzg-4844's test vectors).
const OPENINGS: [[&str; 4]; 2] = [
    [
        "0000000000000000000000000000000000000000000000000000000000000001",
        "0000000000000000000000000000000000000000000000000000000000000000",
        "93efc82d2017e9c57834a1246463e64774e56183bb247c8fc9dd98c56817e878d97b05f5c8d900acf1fbbbca6f146556",
        "b9241c6816af6388d1014cd4d7dd21662a6e3d47f96c0257bce642b70e8e375839a880864638669c6a709b414ab8bffc",
    ],
    [
        "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000000",
        "1522a4a7f34e1ea350ae07c29c96c7e79655aa926122e95fe69fcbd932ca49e9",
        "8f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7",
        "a62ad71d14c5719385c0686f1871430475bf3a00f0aa3f7b8dd99a9abc2160744faf0070725e00b60ad9a026a15b1a8c",
    ],
];
/// Whether this is a valid opening (z, y, commitment, proof). Decided without a pairing: commitments
/// to the constants 0 and 1 open to themselves everywhere with proof 0, other valid
/// openings are known, and nobody can find more.
fn kzg(i: &[u8]) -> bool {
    let y = word(i, 32);
    let (c, p) = (&i[64..112], &i[112..160]);
    OPENINGS.iter().any(|o| i == unhex(&o.concat()))
        || p == unhex(INFINITY) && (c == unhex(INFINITY) && y.is_zero() || c == unhex(BLS_G1) && y == U256::one())
}

fn modexp(input: &[u8], gas: u64) -> Option<(u64, Vec<u8>)> {
    let (bl, el, ml) = (word(input, 0), word(input, 32), word(input, 64));
    let big = |u: U256| {
        let mut b = [0; 32];
        u.to_big_endian(&mut b);
        BigUint::from_bytes_be(&b)
    };
    // The first word of the exponent, which may lie beyond the input.
    let head_len = el.min(32.into()).as_usize();
    let head = match usize::try_from(bl) {
        Ok(b) if b < input.len() => BigUint::from_bytes_be(&pad(input, 96 + b, head_len)),
        _ => BigUint::default(),
    };
    let mult = {
        let w = (big(bl.max(ml)) + 7u8) / 8u8;
        &w * &w
    };
    let hb = head.bits().saturating_sub(1);
    let iter = if el <= 32.into() { BigUint::from(hb) } else { (big(el) - 32u8) * 8u8 + hb }.max(1u8.into());
    let cost = (mult * iter / 3u8).max(200u8.into());
    if cost > gas.into() {
        return None;
    }
    let cost = u64::try_from(cost).unwrap();
    if bl.is_zero() && ml.is_zero() {
        return Some((cost, vec![]));
    }
    // Paid for, so not large.
    let (bl, el, ml) = (bl.as_usize(), el.as_usize(), ml.as_usize());
    let b = pad(input, 96, bl);
    let e = pad(input, 96 + bl, el);
    let m = pad(input, 96 + bl + el, ml);
    let m = BigUint::from_bytes_be(&m);
    let out = if m == BigUint::default() { BigUint::default() } else { BigUint::from_bytes_be(&b).modpow(&BigUint::from_bytes_be(&e), &m) };
    let o = if out == BigUint::default() { vec![] } else { out.to_bytes_be() };
    let mut res = vec![0; ml - o.len().min(ml)];
    res.extend_from_slice(&o[o.len().saturating_sub(ml)..]);
    Some((cost, res))
}

fn p_mod() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap()
}
fn mulm(a: U256, b: U256) -> U256 {
    let r: U512 = a.full_mul(b) % U512::from(p_mod());
    r.try_into().unwrap()
}
fn addm(a: U256, b: U256) -> U256 {
    (a + b) % p_mod()
}
fn subm(a: U256, b: U256) -> U256 {
    (a + p_mod() - b) % p_mod()
}
fn inv(a: U256) -> U256 {
    let mut e = p_mod() - 2;
    let (mut r, mut b) = (U256::one(), a);
    while !e.is_zero() {
        if e.bit(0) {
            r = mulm(r, b);
        }
        b = mulm(b, b);
        e >>= 1;
    }
    r
}
type G1 = Option<(U256, U256)>;
fn g1(x: U256, y: U256) -> Option<G1> {
    if x >= p_mod() || y >= p_mod() {
        return None;
    }
    if x.is_zero() && y.is_zero() {
        return Some(None);
    }
    (mulm(y, y) == addm(mulm(x, mulm(x, x)), 3.into())).then_some(Some((x, y)))
}
fn g1_add(p: G1, q: G1) -> G1 {
    let ((x1, y1), (x2, y2)) = match (p, q) {
        (None, q) => return q,
        (p, None) => return p,
        (Some(p), Some(q)) => (p, q),
    };
    let l = if x1 == x2 {
        if addm(y1, y2).is_zero() {
            return None;
        }
        mulm(mulm(3.into(), mulm(x1, x1)), inv(addm(y1, y1)))
    } else {
        mulm(subm(y2, y1), inv(subm(x2, x1)))
    };
    let x = subm(subm(mulm(l, l), x1), x2);
    Some((x, subm(mulm(l, subm(x1, x)), y1)))
}
fn g1_out(p: G1) -> Vec<u8> {
    let (x, y) = p.unwrap_or_default();
    let mut o = vec![0; 64];
    x.to_big_endian(&mut o[..32]);
    y.to_big_endian(&mut o[32..]);
    o
}
// ------------------------------------------------------------------ pairing
type F2 = [U256; 2];
fn xi() -> F2 {
    [9.into(), 1.into()]
}
fn f2_mul(a: F2, b: F2) -> F2 {
    [subm(mulm(a[0], b[0]), mulm(a[1], b[1])), addm(mulm(a[0], b[1]), mulm(a[1], b[0]))]
}
fn f2_add(a: F2, b: F2) -> F2 {
    [addm(a[0], b[0]), addm(a[1], b[1])]
}
fn f2_sub(a: F2, b: F2) -> F2 {
    [subm(a[0], b[0]), subm(a[1], b[1])]
}
fn f2_inv(a: F2) -> F2 {
    let n = inv(addm(mulm(a[0], a[0]), mulm(a[1], a[1])));
    [mulm(a[0], n), mulm(subm(0.into(), a[1]), n)]
}
fn f2_conj(a: F2) -> F2 {
    [a[0], subm(0.into(), a[1])]
}
fn f2_pow(a: F2, e: U256) -> F2 {
    let mut r: F2 = [1.into(), 0.into()];
    for i in (0..e.bits()).rev() {
        r = f2_mul(r, r);
        if e.bit(i) {
            r = f2_mul(r, a);
        }
    }
    r
}
type G2 = Option<(F2, F2)>;
fn r_mod() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088548364400416034343698204186575808495617").unwrap()
}
fn g2_add(p: G2, q: G2) -> G2 {
    let ((x1, y1), (x2, y2)) = match (p, q) {
        (None, q) => return q,
        (p, None) => return p,
        (Some(p), Some(q)) => (p, q),
    };
    let l = slope((x1, y1), (x2, y2))?;
    let x = f2_sub(f2_sub(f2_mul(l, l), x1), x2);
    Some((x, f2_sub(f2_mul(l, f2_sub(x1, x)), y1)))
}
fn slope((x1, y1): (F2, F2), (x2, y2): (F2, F2)) -> Option<F2> {
    if x1 == x2 {
        if f2_add(y1, y2) == [U256::zero(); 2] {
            return None;
        }
        let xx = f2_mul(x1, x1);
        Some(f2_mul(f2_add(xx, f2_add(xx, xx)), f2_inv(f2_add(y1, y1))))
    } else {
        Some(f2_mul(f2_sub(y2, y1), f2_inv(f2_sub(x2, x1))))
    }
}
fn g2_mul(k: U256, p: G2) -> G2 {
    let mut acc = None;
    for i in (0..k.bits()).rev() {
        acc = g2_add(acc, acc);
        if k.bit(i) {
            acc = g2_add(acc, p);
        }
    }
    acc
}
fn twist_b() -> F2 {
    f2_mul([3.into(), 0.into()], f2_inv(xi()))
}
fn g2(x: F2, y: F2) -> Option<G2> {
    if x.iter().chain(&y).any(|c| *c >= p_mod()) {
        return None;
    }
    if x.iter().chain(&y).all(|c| c.is_zero()) {
        return Some(None);
    }
    if f2_mul(y, y) != f2_add(f2_mul(x, f2_mul(x, x)), twist_b()) {
        return None;
    }
    g2_mul(r_mod(), Some((x, y))).is_none().then_some(Some((x, y)))
}
/// Fp[w] / (w^12 - 18 w^6 + 82), where w^6 = 9 + i.
type F12 = [U256; 12];
fn f12_one() -> F12 {
    let mut f = [U256::zero(); 12];
    f[0] = U256::one();
    f
}
fn f12_mul(a: &F12, b: &F12) -> F12 {
    let mut s = [U512::zero(); 23];
    for i in 0..12 {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..12 {
            // at most 12 products of 508 bits
            s[i + j] = s[i + j] + a[i].full_mul(b[j]);
        }
    }
    let p = U512::from(p_mod());
    let mut c: Vec<U256> = s.iter().map(|x| (*x % p).try_into().unwrap()).collect();
    for k in (12..23).rev() {
        let t = c[k];
        c[k - 6] = addm(c[k - 6], mulm(t, 18.into()));
        c[k - 12] = subm(c[k - 12], mulm(t, 82.into()));
    }
    c[..12].try_into().unwrap()
}
/// The line through two points of the twist, at a point of the curve.
fn line(l: F2, t: (F2, F2), (xp, yp): (U256, U256)) -> F12 {
    let mut f = [U256::zero(); 12];
    let mut put = |k: usize, c: F2| {
        f[k] = subm(c[0], mulm(9.into(), c[1]));
        f[k + 6] = c[1];
    };
    put(0, [subm(0.into(), yp), 0.into()]);
    put(1, f2_mul(l, [xp, 0.into()]));
    put(3, f2_sub(t.1, f2_mul(l, t.0)));
    f
}
fn miller(p: (U256, U256), q: (F2, F2)) -> F12 {
    let count: u128 = 29793968203157093288;
    let (mut f, mut t) = (f12_one(), q);
    for i in (0..64).rev() {
        let l = slope(t, t).unwrap();
        f = f12_mul(&f12_mul(&f, &f), &line(l, t, p));
        t = g2_add(Some(t), Some(t)).unwrap();
        if count >> i & 1 == 1 {
            let l = slope(t, q).unwrap();
            f = f12_mul(&f, &line(l, t, p));
            t = g2_add(Some(t), Some(q)).unwrap();
        }
    }
    let e = p_mod() - 1;
    let frob = |(x, y): (F2, F2)| (f2_mul(f2_conj(x), f2_pow(xi(), e / 3)), f2_mul(f2_conj(y), f2_pow(xi(), e / 2)));
    let q1 = frob(q);
    let q2 = frob(q1);
    let nq2 = (q2.0, f2_sub([0.into(); 2], q2.1));
    let l = slope(t, q1).unwrap();
    f = f12_mul(&f, &line(l, t, p));
    t = g2_add(Some(t), Some(q1)).unwrap();
    let l = slope(t, nq2).unwrap();
    f12_mul(&f, &line(l, t, p))
}
fn f12_final(f: &F12) -> F12 {
    let big = |u: U256| {
        let mut b = [0; 32];
        u.to_big_endian(&mut b);
        BigUint::from_bytes_be(&b)
    };
    let e = (big(p_mod()).pow(12) - 1u8) / big(r_mod());
    let mut r = f12_one();
    for i in (0..e.bits()).rev() {
        r = f12_mul(&r, &r);
        if e.bit(i) {
            r = f12_mul(&r, f);
        }
    }
    r
}
fn g2_gen() -> G2 {
    let d = |s| U256::from_dec_str(s).unwrap();
    Some((
        [
            d("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
            d("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        ],
        [
            d("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
            d("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        ],
    ))
}
fn g2_out(p: G2) -> Vec<u8> {
    let (x, y) = p.unwrap_or_default();
    let mut o = vec![0; 128];
    for (i, c) in [x[1], x[0], y[1], y[0]].into_iter().enumerate() {
        c.to_big_endian(&mut o[32 * i..32 * i + 32]);
    }
    o
}
/// An input of a precompile, mostly a valid one, and an amount of gas that is mostly enough.
pub fn sample(r: &mut simcore::Rng, n: u64) -> (Vec<u8>, u64) {
    let neg = |p: Vec<u8>| g1_out(g1(word(&p, 0), word(&p, 32)).unwrap().map(|(x, y)| (x, subm(0.into(), y))));
    let b32 = |u: U256| {
        let mut b = [0; 32];
        u.to_big_endian(&mut b);
        b.to_vec()
    };
    let small = |r: &mut simcore::Rng| *r.pick(&[0u64, 1, 2, 3, 5, 77, 1 << 40, u64::MAX]);
    let mut input = match n {
        1 => {
            let (k, _) = r.pick(crate::chain::keys());
            let h = r.b32();
            let (sig, rec) = k.sign_prehash_recoverable(&h).unwrap();
            let (sb, mut v) = (sig.to_bytes(), rec.to_byte());
            let mut s = U256::from_big_endian(&sb[32..]);
            if r.chance(1, 4) {
                // the other root, with a high s
                s = U256::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap() - s;
                v ^= 1;
            }
            [h.to_vec(), b32((v + 27).into()), sb[..32].to_vec(), b32(s)].concat()
        }
        5 => {
            let len = |r: &mut simcore::Rng| *r.pick(&[0usize, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 65, 100]);
            let (b, e, m) = (len(r), len(r).min(33), len(r));
            let bytes = |r: &mut simcore::Rng, n: usize| -> Vec<u8> {
                let mut v = r.bytes(n);
                match r.below(6) {
                    0 => v.iter_mut().for_each(|x| *x = 0),
                    1 => v.iter_mut().for_each(|x| *x = 255),
                    2 => v.iter_mut().rev().skip(3).for_each(|x| *x = 0),
                    3 => v.iter_mut().skip(1).for_each(|x| *x = 0),
                    _ => {}
                }
                v
            };
            let (bb, eb, mb) = (bytes(r, b), bytes(r, e), bytes(r, m));
            [b32(b.into()), b32(e.into()), b32(m.into()), bb, eb, mb].concat()
        }
        6 => {
            let (a, b) = (g1_point(small(r)), g1_point(small(r)));
            let b = if r.chance(1, 5) { neg(a.clone()) } else if r.chance(1, 5) { a.clone() } else { b };
            [a, b].concat()
        }
        7 => {
            let k = match r.below(6) {
                0 => r_mod() - r.below(3),
                1 => U256::from_big_endian(&r.b32()),
                2 => U256::MAX,
                3 => r_mod() + r.below(3),
                _ => r.below(20).into(),
            };
            [g1_point(small(r)), b32(k)].concat()
        }
        8 => {
            let (a, b) = (r.range(1, 1000), r.range(1, 1000));
            let q = |k: u64| g2_out(g2_mul(k.into(), g2_gen()));
            match r.below(8) {
                0 => vec![],
                1 => [g1_point(a), q(b)].concat(),
                2 => [g1_point(0), q(b)].concat(),
                3 => [g1_point(a), q(0)].concat(),
                4 => [g1_point(a), q(b), neg(g1_point(a * b + 1)), q(1)].concat(),
                _ => [g1_point(a), q(b), neg(g1_point(a * b)), q(1)].concat(),
            }
        }
        10 => {
            let mut z = b32(match r.below(6) {
                0 => bls_r() - r.below(2),
                1 => bls_r() + r.below(2),
                2 => U256::from_big_endian(&r.b32()) >> 2,
                _ => r.below(3).into(),
            });
            let (mut y, mut p) = (r.below(2), unhex(INFINITY));
            let mut c = match r.below(6) {
                // a point outside the subgroup, of order 3
                0 => {
                    y = 0;
                    let mut c = vec![0; 48];
                    c[0] = *r.pick(&[0x80, 0xa0]);
                    c
                }
                1 => {
                    p = unhex(BLS_G1);
                    unhex(INFINITY)
                }
                2 => unhex(BLS_G1),
                _ => unhex(INFINITY),
            };
            let mut y = match r.below(6) {
                0 => b32(bls_r() + y),
                _ => b32(y.into()),
            };
            if r.chance(1, 4) {
                let o = r.pick(&OPENINGS);
                (z, y, c, p) = (unhex(o[0]), unhex(o[1]), unhex(o[2]), unhex(o[3]));
            }
            let mut h = sha2::Sha256::digest(&c).to_vec();
            h[0] = 1;
            let mut i = [h, z, y, c, p].concat();
            match r.below(8) {
                0 => i.truncate(160),
                1 => i.extend([0; 32]),
                _ => {}
            }
            i
        }
        9 => {
            let mut i = r.bytes(213);
            i[..4].copy_from_slice(&(*r.pick(&[0u32, 1, 2, 12, 13])).to_be_bytes());
            i[212] = r.below(2) as u8;
            i
        }
        _ => {
            let n = *r.pick(&[0usize, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 128, 200]);
            r.bytes(n)
        }
    };
    if r.chance(1, 8) && !input.is_empty() {
        let i = r.idx(input.len());
        match r.below(4) {
            0 => input.truncate(i),
            1 => input.push(1),
            _ => input[i] ^= 1 << r.below(8),
        }
    }
    let cost = run(n, &input, 10_000_000).map_or(if n == 10 { 50000 } else { 3000 }, |x| x.0);
    let gas = match r.below(8) {
        0 => cost.saturating_sub(1),
        1 => cost,
        _ => cost + r.below(1000),
    };
    (input, gas)
}
/// A point of the curve, for generators.
pub fn g1_point(k: u64) -> Vec<u8> {
    let mut acc = None;
    for i in (0..64).rev() {
        acc = g1_add(acc, acc);
        if k >> i & 1 == 1 {
            acc = g1_add(acc, Some((1.into(), 2.into())));
        }
    }
    g1_out(acc)
}

fn blake2f(rounds: u32, input: &[u8]) -> Vec<u8> {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let rd = |o: usize| u64::from_le_bytes(input[o..o + 8].try_into().unwrap());
    let h: Vec<u64> = (0..8).map(|i| rd(4 + 8 * i)).collect();
    let m: Vec<u64> = (0..16).map(|i| rd(68 + 8 * i)).collect();
    let mut v: Vec<u64> = h.iter().copied().chain(IV).collect();
    v[12] ^= rd(196);
    v[13] ^= rd(204);
    if input[212] == 1 {
        v[14] = !v[14];
    }
    fn g(v: &mut [u64], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    for r in 0..rounds as usize {
        let s = &SIGMA[r % 10];
        for (i, (a, b, c, d)) in [
            (0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
            (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14),
        ].into_iter().enumerate() {
            g(&mut v, a, b, c, d, m[s[2 * i]], m[s[2 * i + 1]]);
        }
    }
    (0..8).flat_map(|i| (h[i] ^ v[i] ^ v[i + 8]).to_le_bytes()).collect()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn openings() {
        let mut r = simcore::Rng::new(1);
        let n = (0..400).filter(|_| {
            let (i, g) = sample(&mut r, 10);
            run(10, &i, g).is_some()
        });
        assert!(n.count() > 50);
    }
    #[test]
    fn pairing() {
        let q = |k: u64| g2_out(g2_mul(k.into(), g2_gen()));
        let neg = |p: Vec<u8>| g1_out(g1(word(&p, 0), word(&p, 32)).unwrap().map(|(x, y)| (x, subm(0.into(), y))));
        let ok = |i: Vec<u8>| run(8, &i, 1_000_000).unwrap().1[31];
        assert_eq!(ok([g1_point(3), q(5), neg(g1_point(15)), q(1)].concat()), 1);
        assert_eq!(ok([g1_point(3), q(5), neg(g1_point(16)), q(1)].concat()), 0);
        assert_eq!(ok([g1_point(3), q(5)].concat()), 0);
    }
}
