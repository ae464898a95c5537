//! Independent reference for Merkle-Patricia tries (yellow paper, appendix D), written from the
//! specification: a sorted map is turned into RLP nodes recursively.
use keccak_hash::keccak;
use std::collections::BTreeMap;

pub type Nibs = Vec<u8>;
pub type Map = BTreeMap<Nibs, Vec<u8>>;

pub fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = rlp_len(b.len(), 0x80);
    o.extend_from_slice(b);
    o
}
fn rlp_len(n: usize, base: u8) -> Vec<u8> {
    if n < 56 {
        vec![base + n as u8]
    } else {
        let be: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
        let mut o = vec![base + 55 + be.len() as u8];
        o.extend(be);
        o
    }
}
pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let n = items.iter().map(|x| x.len()).sum();
    let mut o = rlp_len(n, 0xc0);
    for i in items {
        o.extend_from_slice(i);
    }
    o
}
pub fn hex_prefix(n: &[u8], leaf: bool) -> Vec<u8> {
    let flag = if leaf { 2 } else { 0 };
    let mut o = vec![];
    let rest = if n.len() % 2 == 1 {
        o.push(((flag + 1) << 4) | n[0]);
        &n[1..]
    } else {
        o.push(flag << 4);
        n
    };
    for p in rest.chunks(2) {
        o.push((p[0] << 4) | p[1]);
    }
    o
}
/// Reference to a node as it appears in its parent: itself if short, its hash otherwise.
fn as_child(node: Vec<u8>, out: &mut impl FnMut(&[u8], &[u8])) -> Vec<u8> {
    if node.len() < 32 {
        node
    } else {
        let h = keccak(&node);
        out(h.as_bytes(), &node);
        rlp_str(h.as_bytes())
    }
}
/// RLP of the node for `items` (all sharing the first `depth` nibbles); `out` sees every hashed node.
fn node(items: &[(&Nibs, &Vec<u8>)], depth: usize, out: &mut impl FnMut(&[u8], &[u8])) -> Vec<u8> {
    if items.is_empty() {
        return vec![0x80];
    }
    if items.len() == 1 {
        let (k, v) = items[0];
        return rlp_list(&[rlp_str(&hex_prefix(&k[depth..], true)), rlp_str(v)]);
    }
    let (a, b) = (items[0].0, items[items.len() - 1].0);
    let mut j = depth;
    while j < a.len() && j < b.len() && a[j] == b[j] {
        j += 1;
    }
    if j > depth {
        let child = node(items, j, out);
        let c = as_child(child, out);
        return rlp_list(&[rlp_str(&hex_prefix(&a[depth..j], false)), c]);
    }
    let mut parts = vec![];
    let mut value: Vec<u8> = vec![];
    let mut rest = items;
    if rest[0].0.len() == depth {
        value = rest[0].1.clone();
        rest = &rest[1..];
    }
    for nib in 0..16u8 {
        let n = rest.iter().take_while(|(k, _)| k[depth] == nib).count();
        let (here, more) = rest.split_at(n);
        rest = more;
        if here.is_empty() {
            parts.push(vec![0x80]);
        } else {
            let c = node(here, depth + 1, out);
            parts.push(as_child(c, out));
        }
    }
    parts.push(rlp_str(&value));
    rlp_list(&parts)
}
pub fn root(m: &Map) -> [u8; 32] {
    let items: Vec<_> = m.iter().collect();
    let n = node(&items, 0, &mut |_, _| {});
    keccak(&n).0
}
/// All nodes of the trie (hash -> RLP), the root included.
pub fn all_nodes(m: &Map) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut all = BTreeMap::new();
    let items: Vec<_> = m.iter().collect();
    let n = node(&items, 0, &mut |h, n| {
        all.insert(h.to_vec(), n.to_vec());
    });
    all.insert(keccak(&n).as_bytes().to_vec(), n);
    all
}
/// Inclusion or exclusion proof: RLP nodes on the path of `key`, the root first.
pub fn proof(m: &Map, key: &Nibs) -> Vec<Vec<u8>> {
    if m.is_empty() {
        return vec![];
    }
    let mut out = vec![];
    let mut items: Vec<_> = m.iter().collect();
    let mut depth = 0;
    loop {
        let mut dummy = |_: &[u8], _: &[u8]| {};
        let n = node(&items, depth, &mut dummy);
        out.push(n);
        if items.len() <= 1 {
            return out;
        }
        let (a, b) = (items[0].0.clone(), items[items.len() - 1].0.clone());
        let mut j = depth;
        while j < a.len() && j < b.len() && a[j] == b[j] {
            j += 1;
        }
        if j > depth {
            if key[depth..].len() < j - depth || key[depth..j] != a[depth..j] {
                return out;
            }
            depth = j;
            continue;
        }
        items.retain(|(k, _)| k[depth] == key[depth]);
        depth += 1;
        if items.is_empty() {
            return out;
        }
    }
}
pub fn nibs_of(bytes: &[u8]) -> Nibs {
    bytes.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
/// RLP of the subtree node for `items`, which share their first `depth` nibbles.
pub fn node_rlp(items: &[(&Nibs, &Vec<u8>)], depth: usize) -> Vec<u8> {
    node(items, depth, &mut |_, _| {})
}
