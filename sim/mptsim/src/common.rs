use simcore::refmpt::{Map, Nibs};
use mpt_trie::nibbles::Nibbles;
use simcore::Rng;

pub fn to_nibbles(n: &[u8]) -> Nibbles {
    let mut o = Nibbles::new();
    for &x in n {
        o.push_nibble_back(x);
    }
    o
}
pub fn from_nibbles(mut n: Nibbles) -> Nibs {
    let mut o = vec![];
    while !n.is_empty() {
        o.push(n.pop_next_nibble_front());
    }
    o
}
/// A pool of distinct keys of which none is a prefix of another.
pub fn key_pool(r: &mut Rng, n: usize) -> (u8, Vec<Nibs>) {
    let mode = r.below(6) as u8;
    let mut v: Vec<Nibs> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < n * 20 {
        tries += 1;
        let k: Nibs = match mode {
            // short keys, tiny alphabet: every split and merge shape
            0 => (0..4).map(|_| *r.pick(&[0u8, 1, 15])).collect(),
            // 32-byte keys sharing long prefixes with earlier ones
            1 => {
                let mut k: Nibs = (0..64).map(|_| r.below(16) as u8).collect();
                if !v.is_empty() && r.chance(4, 5) {
                    let o = r.pick(&v).clone();
                    let c = *r.pick(&[1usize, 2, 3, 5, 8, 20, 40, 62, 63]);
                    k[..c].copy_from_slice(&o[..c]);
                }
                k
            }
            // transaction-index keys
            2 => simcore::refmpt::nibs_of(&rlp::encode(&(r.below(300) as usize))),
            // uniformly random 32-byte keys, first nibbles crowded
            3 => (0..64).map(|i| if i < 2 { r.below(3) as u8 } else { r.below(16) as u8 }).collect(),
            4 => (0..6).map(|_| r.below(2) as u8 * 9).collect(),
            _ => {
                let mut k: Nibs = (0..64).map(|_| r.below(16) as u8).collect();
                for x in k.iter_mut().take(60) {
                    *x = 0;
                }
                k
            }
        };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    (mode, v)
}
pub fn value(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1usize, 1, 2, 5, 20, 31, 32, 33, 54, 55, 56, 70, 110, 300]);
    let mut v = r.bytes(n);
    if n == 1 && r.chance(1, 2) {
        v[0] = r.below(0x80) as u8;
    }
    v
}
pub fn random_map(r: &mut Rng, pool: &[Nibs], density: u64) -> Map {
    let mut m = Map::new();
    for k in pool {
        if r.chance(density, 8) {
            m.insert(k.clone(), value(r));
        }
    }
    m
}
