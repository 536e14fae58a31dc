//! Replays of the Smt* specifications on smt_trie.
use std::collections::{BTreeMap, BTreeSet};

use alloy::primitives::U256;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
use serde_json::Value;
use smt_trie::bits::Bits;
use smt_trie::db::MemoryDb;
use smt_trie::smt::{hash_serialize, hash_serialize_u256, HashOut, Key, Smt};

use crate::ensure;
use crate::util::*;

type Path = Vec<u8>; // 256 bits, root first
type Map = BTreeMap<Path, U256>;
type S = Smt<MemoryDb>;

fn val(v: u64) -> U256 {
    match v {
        0 => U256::ZERO,
        1 => U256::from(1),
        2 => U256::MAX,
        3 => U256::from(1) << 32,
        _ => U256::from_limbs([0x0102030405060708, u64::MAX, 0, 0xff00000000000000]),
    }
}

/// A model key is placed in a 256-bit key: `before` bits in front, then the model bits, then a tail.
/// Path bit i is bit i/4 of limb i%4, so the tails below keep every limb a canonical field element.
#[derive(Clone, Copy)]
struct Family {
    before: usize,
    fill: u8,
    split: bool, // the last model bit goes to the very end of the key
}
const FAMILIES: [Family; 6] = [
    Family { before: 0, fill: 0, split: false },
    Family { before: 0, fill: 1, split: false },
    Family { before: 3, fill: 2, split: false },
    Family { before: 117, fill: 2, split: false },
    Family { before: 0, fill: 0, split: true },
    Family { before: 57, fill: 2, split: true },
];
fn path(k: &[u8], f: Family) -> Path {
    let mut p = vec![0u8; 256];
    for (i, b) in p.iter_mut().enumerate() {
        *b = match f.fill {
            0 => 0,
            1 => (i < 120) as u8,
            _ => (i < 200 && (i * i / 3 + i) % 3 == 0) as u8,
        };
    }
    for (i, b) in k.iter().enumerate() {
        let at = if f.split && i + 1 == k.len() { 255 } else { f.before + i };
        p[at] = *b;
    }
    p
}
fn limbs(bits: &[u8]) -> [u64; 4] {
    let mut l = [0u64; 4];
    for (i, b) in bits.iter().enumerate() {
        l[i % 4] |= (*b as u64) << (i / 4);
    }
    l
}
/// Remaining key after `done` bits of the path: every limb loses the bits already used.
fn rem(p: &[u8], done: usize) -> [u64; 4] {
    let l = limbs(p);
    std::array::from_fn(|i| {
        let used = (done + 3 - i) / 4;
        if used >= 64 { 0 } else { l[i] >> used }
    })
}
fn key(p: &Path) -> Key {
    Key(limbs(p).map(F::from_canonical_u64))
}
fn pos(x: [F; 12]) -> [F; 4] {
    F::poseidon(x)[0..4].try_into().unwrap()
}
fn leaf_hash(rem: [u64; 4], v: U256) -> [F; 4] {
    let mut a = [F::ZERO; 12];
    for i in 0..8 {
        a[i] = F::from_canonical_u64((v >> (32 * i)).as_limbs()[0] & 0xffff_ffff);
    }
    let vh = pos(a);
    let mut b = [F::ZERO; 12];
    for i in 0..4 {
        b[i] = F::from_canonical_u64(rem[i]);
        b[4 + i] = vh[i];
    }
    b[8] = F::ONE;
    pos(b)
}
fn inner(l: [F; 4], r: [F; 4]) -> [F; 4] {
    let mut b = [F::ZERO; 12];
    b[0..4].copy_from_slice(&l);
    b[4..8].copy_from_slice(&r);
    pos(b)
}
/// The specification's Canon, on 256-bit keys.
fn ref_hash(items: &[(&Path, &U256)], level: usize) -> [F; 4] {
    match items {
        [] => [F::ZERO; 4],
        [(p, v)] => leaf_hash(rem(p, level), **v),
        _ => {
            let (a, b): (Vec<_>, Vec<_>) = items.iter().copied().partition(|(p, _)| p[level] == 0);
            inner(ref_hash(&a, level + 1), ref_hash(&b, level + 1))
        }
    }
}
fn ref_root(m: &Map) -> HashOut {
    HashOut { elements: ref_hash(&m.iter().collect::<Vec<_>>(), 0) }
}
/// Hash of a specification tree: `pre` is the path walked so far; keys continue as in family 0.
fn tree_hash_at(t: &Value, pre: &mut Vec<u8>) -> [F; 4] {
    match st(&t[0]) {
        "E" => [F::ZERO; 4],
        "H" => tree_hash_at(&t[1], pre),
        "L" => {
            let mut full = pre.clone();
            full.extend(bytes(&t[1]));
            leaf_hash(rem(&path(&full, FAMILIES[0]), pre.len()), val(u(&t[2])))
        }
        _ => {
            pre.push(0);
            let l = tree_hash_at(&t[1], pre);
            pre.pop();
            pre.push(1);
            let r = tree_hash_at(&t[2], pre);
            pre.pop();
            inner(l, r)
        }
    }
}
fn map_of(v: &Value, f: Family) -> Map {
    arr(v).iter().map(|p| (path(&bytes(&p[0]), f), val(u(&p[1])))).collect()
}
fn build(m: &Map, rev: bool) -> S {
    let mut s = S::default();
    let it: Vec<_> = m.iter().collect();
    for (p, v) in if rev { it.into_iter().rev().collect::<Vec<_>>() } else { it } {
        s.set(key(p), *v);
    }
    s
}

pub fn state(file: &str) -> Report {
    let cases = read_emitted(file);
    let keys: BTreeSet<Vec<u8>> = cases.iter().flat_map(|c| arr(&c["m"]).iter().map(|p| bytes(&p[0]))).collect();
    let vals: BTreeSet<u64> = cases.iter().flat_map(|c| arr(&c["m"]).iter().map(|p| u(&p[1]))).collect();
    let mut rep = Report::default();
    let edges = std::sync::atomic::AtomicUsize::new(0);
    rep.run(&cases, |c| {
        let mut n = 0;
        for (fi, f) in FAMILIES.into_iter().enumerate() {
            let m = map_of(&c["m"], f);
            let root = ref_root(&m);
            if fi == 0 && tree_hash_at(&c["tree"], &mut vec![]) != root.elements {
                tool_error("reference root disagrees with the specification");
            }
            let s = build(&m, false);
            let s2 = build(&m, true);
            ensure!(s.root == root && s2.root == root, "family {fi}: root of {:?} depends on the order or is wrong", c["m"]);
            for k in &keys {
                let p = path(k, f);
                let want = m.get(&p).copied().unwrap_or_default();
                let got = s.get(key(&p));
                ensure!(got == want, "family {fi}: get({k:?}) = {got}, expected {want}");
                n += 1;
                for v in vals.iter().copied().chain([0]) {
                    let mut m2 = m.clone();
                    if v == 0 { m2.remove(&p); } else { m2.insert(p.clone(), val(v)); }
                    let mut t = s.clone();
                    t.set(key(&p), val(v));
                    let want = ref_root(&m2);
                    ensure!(t.root == want, "family {fi}: root after set({k:?}, {v}) on {:?}", c["m"]);
                    if v == 0 {
                        let mut t = s2.clone();
                        t.delete(key(&p));
                        ensure!(t.root == want, "family {fi}: root after delete({k:?})");
                        ensure!(t.kv_store.get(&key(&p)).is_none(), "family {fi}: delete leaves the entry");
                    }
                    for k2 in &keys {
                        let p2 = path(k2, f);
                        ensure!(t.get(key(&p2)) == m2.get(&p2).copied().unwrap_or_default(), "family {fi}: get({k2:?}) after set({k:?}, {v})");
                    }
                    n += 2;
                    edges.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            }
        }
        Ok(n)
    });
    rep.extra.insert("edges_replayed".into(), edges.into_inner().into());
    rep
}

pub fn hist(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    rep.run(&cases, |c| {
        let mut n = 0;
        for (fi, f) in FAMILIES.into_iter().enumerate() {
            let mut s = S::default();
            let mut m = Map::new();
            for (i, o) in arr(&c["ops"]).iter().enumerate() {
                let p = path(&bytes(&o[1]), f);
                let v = val(u(&o[2]));
                match st(&o[0]) {
                    "get" => ensure!(s.get(key(&p)) == v, "family {fi}, step {i}: get"),
                    "del" => {
                        s.delete(key(&p));
                        m.remove(&p);
                    }
                    _ => {
                        s.set(key(&p), v);
                        if v.is_zero() { m.remove(&p); } else { m.insert(p, v); }
                    }
                }
                ensure!(s.root == ref_root(&m), "family {fi}, step {i} {o}: root");
                n += 1;
            }
            ensure!(m == map_of(&c["m"], f), "family {fi}: the harness's map");
            for (p, v) in &m {
                ensure!(s.get(key(p)) == *v, "family {fi}: final get");
            }
            let ser = s.serialize();
            ensure!(hash_serialize(&ser) == s.root, "family {fi}: hash of the serialisation");
            for (p, v) in &m {
                ensure!(read_ser(&ser, p) == Some(*v), "family {fi}: the serialisation holds every entry");
            }
            for part in 0..4 {
                let keep: Vec<_> = m.iter().enumerate().filter(|(i, _)| (i + i / 4) % 4 <= part).map(|(_, e)| e).collect();
                let ks: Vec<Key> = keep.iter().map(|(p, _)| key(p)).collect();
                let ser = s.serialize_and_prune(ks.iter());
                ensure!(hash_serialize(&ser) == s.root, "family {fi}: hash of the pruned serialisation");
                for (p, v) in keep {
                    ensure!(read_ser(&ser, p) == Some(*v), "family {fi}: the pruned serialisation keeps every requested entry");
                }
            }
        }
        Ok(n)
    });
    rep
}

/// The value a serialisation shows for a key; None if that part is hidden.
fn read_ser(w: &[U256], p: &Path) -> Option<U256> {
    let mut at = 2;
    let mut level = 0;
    loop {
        match w[at].to::<u64>() {
            0 => return w[at + 1].is_zero().then_some(U256::ZERO),
            1 => {
                let c: usize = w[at + 1 + p[level] as usize].to();
                if c == 0 {
                    return Some(U256::ZERO);
                }
                at = c;
                level += 1;
            }
            _ => {
                let same = w[at + 1] == U256::from_limbs(rem(p, level));
                return Some(if same { w[at + 2] } else { U256::ZERO });
            }
        }
    }
}

fn to_u(h: [F; 4]) -> U256 {
    U256::from_limbs(h.map(|x| x.to_canonical_u64()))
}

pub fn ser(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    rep.run(&cases, |c| {
        let f = FAMILIES[0];
        let m = map_of(&c["m"], f);
        let root = ref_root(&m);
        let build_part = |rev: bool| -> S {
            // hidden subtrees first, then the visible leaves
            let mut s = S::default();
            for h in arr(&c["hashes"]) {
                let pre = bytes(&h[0]);
                let mut b = Bits::empty();
                for x in &pre {
                    b.push_bit(*x == 1);
                }
                s.set_hash(b, HashOut { elements: tree_hash_at(&h[1], &mut pre.clone()) });
            }
            let l: Vec<_> = arr(&c["leaves"]).iter().collect();
            let it: Vec<_> = if rev { l.into_iter().rev().collect() } else { l };
            for p in it {
                s.set(key(&path(&bytes(&p[0]), f)), val(u(&p[1])));
            }
            s
        };
        let mut n = 0;
        for rev in [false, true] {
            let s = build_part(rev);
            ensure!(s.root == root, "root with hidden subtrees {}", c["hashes"]);
            for p in arr(&c["leaves"]) {
                ensure!(s.get(key(&path(&bytes(&p[0]), f))) == val(u(&p[1])), "visible value");
            }
            for sr in arr(&c["sers"]) {
                let keep: Vec<Key> = arr(&sr[0]).iter().map(|k| key(&path(&bytes(k), f))).collect();
                let got = s.serialize_and_prune(keep.iter());
                let want = words(&sr[1], &m)?;
                ensure!(got == want, "serialisation keeping {}: {got:?}, expected {want:?}", sr[0]);
                ensure!(hash_serialize(&got) == root && hash_serialize_u256(&got) == to_u(root.elements), "hash of the serialisation keeping {}", sr[0]);
                n += 2;
            }
            let all = s.serialize();
            ensure!(hash_serialize(&all) == root, "hash of the full serialisation");
            n += 3;
        }
        Ok(n)
    });
    rep
}

/// The real words of a specification serialisation; the walk recovers each node's position.
fn words(v: &Value, _m: &Map) -> R<Vec<U256>> {
    let w = arr(v);
    let mut out = vec![U256::ZERO; w.len()];
    fn go(w: &[Value], p: usize, pre: &mut Vec<u8>, out: &mut [U256]) {
        let n = |i: usize| u(&w[i][1]);
        match n(p) {
            0 => {
                if st(&w[p + 1][0]) == "h" {
                    out[p + 1] = to_u(tree_hash_at(&w[p + 1][1], &mut pre.clone()));
                }
            }
            1 => {
                out[p] = U256::from(1);
                for b in 0..2 {
                    let c = n(p + 1 + b) as usize;
                    out[p + 1 + b] = U256::from(c);
                    if c != 0 {
                        pre.push(b as u8);
                        go(w, c, pre, out);
                        pre.pop();
                    }
                }
            }
            _ => {
                out[p] = U256::from(2);
                let mut full = pre.clone();
                full.extend(bytes(&w[p + 1][1]));
                out[p + 1] = U256::from_limbs(rem(&path(&full, FAMILIES[0]), pre.len()));
                out[p + 2] = val(u(&w[p + 2][1]));
            }
        }
    }
    go(w, 2, &mut vec![], &mut out);
    Ok(out)
}
