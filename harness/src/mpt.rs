//! Replays of the Mpt* specifications on mpt_trie.
use std::collections::BTreeMap;
use std::sync::Arc;

use ethereum_types::H256;
use keccak_hash::keccak;
use mpt_trie::debug_tools::diff::create_full_diff_between_tries;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, OnOrphanedHashNode, PartialTrie, StandardTrie};
use mpt_trie::special_query::path_for_query;
use mpt_trie::trie_ops::ValOrHash;
use mpt_trie::trie_subsets::{create_trie_subset, create_trie_subsets};
use mpt_trie::utils::TrieSegment;
use serde_json::Value;

use crate::ensure;
use crate::util::*;

pub type Key = Vec<u8>;
pub type Map = BTreeMap<Key, Vec<u8>>;

pub fn nib(k: &[u8]) -> Nibbles {
    let mut n = Nibbles::default();
    for x in k {
        n.push_nibble_back(*x);
    }
    n
}
pub fn unnib(n: &Nibbles) -> Key {
    (0..n.count).map(|i| n.get_nibble(i)).collect()
}

/// The value table of the specifications (ValOf).
pub fn val_of(v: u64) -> Vec<u8> {
    match v {
        1 => vec![7],
        2 => vec![171; 33],
        3 => vec![200],
        4 => vec![1; 27],
        5 => vec![255; 28],
        6 => vec![9; 60],
        7 => vec![80; 300],
        n => vec![(n % 256) as u8; n as usize],
    }
}
pub fn map_of(v: &Value) -> Map {
    arr(v).iter().map(|p| (bytes(&p[0]), val_of(u(&p[1])))).collect()
}

/// A byte string of the specification: bytes, and atoms {"k": s} that stand for keccak(s).
pub fn term(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    for e in arr(v) {
        match e {
            Value::Number(n) => out.push(n.as_u64().unwrap() as u8),
            o => out.extend_from_slice(keccak(term(&o["k"])).as_bytes()),
        }
    }
    out
}

/// Builds the implementation's node for a specification node.
pub fn build<T: PartialTrie>(v: &Value) -> T {
    T::new(match st(&v["t"]) {
        "E" => Node::Empty,
        "H" => Node::Hash(keccak(term(&v["e"]))),
        "L" => Node::Leaf { nibbles: nib(&bytes(&v["n"])), value: bytes(&v["v"]) },
        "X" => Node::Extension { nibbles: nib(&bytes(&v["n"])), child: Arc::new(Box::new(build(&v["c"]))) },
        "B" => Node::Branch {
            children: std::array::from_fn(|i| Arc::new(Box::new(kid(&v["c"], i).map_or(T::default(), |c| build(c))))),
            value: bytes(&v["v"]),
        },
        x => tool_error(&format!("node type {x}")),
    })
}
/// A function with domain within 0..15; TLC writes it as an array when its domain is 1..n.
fn kid(c: &Value, i: usize) -> Option<&Value> {
    match c {
        Value::Array(a) => if i >= 1 { a.get(i - 1) } else { None },
        o => o.get(i.to_string()),
    }
}
/// Structural comparison of a trie with a specification node.
pub fn same<T: PartialTrie>(t: &T, v: &Value) -> bool {
    match (&**t, st(&v["t"])) {
        (Node::Empty, "E") => true,
        (Node::Hash(h), "H") => *h == keccak(term(&v["e"])),
        (Node::Leaf { nibbles, value }, "L") => unnib(nibbles) == bytes(&v["n"]) && *value == bytes(&v["v"]),
        (Node::Extension { nibbles, child }, "X") => unnib(nibbles) == bytes(&v["n"]) && same(&***child, &v["c"]),
        (Node::Branch { children, value }, "B") => {
            *value == bytes(&v["v"])
                && (0..16).all(|i| match kid(&v["c"], i) {
                    Some(c) => same(&**children[i], c),
                    None => matches!(&***children[i], Node::Empty),
                })
        }
        _ => false,
    }
}

/// Reference root of a map, an independent rendering of the specification's Canon/Enc
/// (checked against the specification's own encodings on every state of MptState).
pub fn ref_root(m: &Map) -> H256 {
    let items: Vec<(&[u8], &[u8])> = m.iter().map(|(k, v)| (&k[..], &v[..])).collect();
    keccak(ref_enc(&items, 0))
}
fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 128 {
        return b.to_vec();
    }
    let mut o = rlp_head(128, b.len());
    o.extend_from_slice(b);
    o
}
pub fn rlp_head(base: u8, n: usize) -> Vec<u8> {
    if n < 56 {
        vec![base + n as u8]
    } else {
        let be: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        let mut o = vec![base + 55 + be.len() as u8];
        o.extend(be);
        o
    }
}
fn rlp_list(b: Vec<u8>) -> Vec<u8> {
    let mut o = rlp_head(192, b.len());
    o.extend(b);
    o
}
fn hp(n: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2 } else { 0 };
    let mut nn = if n.len() % 2 == 0 { vec![f, 0] } else { vec![f + 1] };
    nn.extend_from_slice(n);
    nn.chunks(2).map(|c| c[0] * 16 + c[1]).collect()
}
fn ref_enc(items: &[(&[u8], &[u8])], i: usize) -> Vec<u8> {
    if items.is_empty() {
        return vec![128];
    }
    if items.len() == 1 {
        let mut b = rlp_str(&hp(&items[0].0[i..], true));
        b.extend(rlp_str(items[0].1));
        return rlp_list(b);
    }
    let first = items[0].0;
    let last = items[items.len() - 1].0;
    let mut j = i;
    while j < first.len() && j < last.len() && first[j] == last[j] {
        j += 1;
    }
    let reference = |e: Vec<u8>| if e.len() < 32 { e } else { rlp_str(keccak(e).as_bytes()) };
    if j > i {
        let mut b = rlp_str(&hp(&first[i..j], false));
        b.extend(reference(ref_enc(items, j)));
        return rlp_list(b);
    }
    let mut b = vec![];
    for n in 0..16u8 {
        let sub: Vec<_> = items.iter().filter(|x| x.0[i] == n).copied().collect();
        b.extend(if sub.is_empty() { vec![128] } else { reference(ref_enc(&sub, i + 1)) });
    }
    b.push(128);
    rlp_list(b)
}

/// Everything a user can observe of a trie, against the map it should hold.
pub fn observe<T: PartialTrie>(t: &T, m: &Map, keys: &[Key]) -> R<usize> {
    let mut n = 0;
    for k in keys {
        let got = t.get(nib(k)).map(|x| x.to_vec());
        ensure!(got.as_ref() == m.get(k), "get({k:?}) = {got:?}, expected {:?}", m.get(k));
        ensure!(t.contains(nib(k)) == m.contains_key(k), "contains({k:?}) = {}", t.contains(nib(k)));
        n += 2;
    }
    let items: Vec<(Key, Option<Vec<u8>>)> = t.items().map(|(k, v)| (unnib(&k), v.into_val().ok())).collect();
    let want: Vec<(Key, Option<Vec<u8>>)> = m.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
    ensure!(items == want, "items = {items:?}, expected {want:?}");
    let keys2: Vec<Key> = t.keys().map(|k| unnib(&k)).collect();
    ensure!(keys2.iter().eq(m.keys()), "keys = {keys2:?}");
    let vals: Vec<Option<Vec<u8>>> = t.values().map(|v| v.into_val().ok()).collect();
    ensure!(vals == want.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "values = {vals:?}");
    Ok(n + 3)
}

/// MptState: one state per map. Edges: every insert and delete from every state, checked in
/// structure and root against the target state.
pub fn state(file: &str, roots: bool) -> Report {
    let cases = read_emitted(file);
    let mut keys: Vec<Key> = vec![];
    for c in &cases {
        for p in arr(&c["m"]) {
            let k = bytes(&p[0]);
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
    }
    let mut vals: Vec<u64> = cases.iter().flat_map(|c| arr(&c["m"]).iter().map(|p| u(&p[1]))).collect();
    vals.sort();
    vals.dedup();
    let idm = |c: &Value| -> BTreeMap<Key, u64> { arr(&c["m"]).iter().map(|p| (bytes(&p[0]), u(&p[1]))).collect() };
    let index: BTreeMap<BTreeMap<Key, u64>, (usize, H256)> = cases.iter().enumerate().map(|(i, c)| (idm(c), (i, keccak(term(&c["root"]))))).collect();
    let mut rep = Report::default();
    let edges = std::sync::atomic::AtomicUsize::new(0);
    rep.run(&cases, |c| {
        let m = idm(c);
        let contents = map_of(&c["m"]);
        let mut n = 0;
        let root = keccak(term(&c["root"]));
        if ref_root(&contents) != root {
            tool_error("reference root disagrees with the specification");
        }
        // reach the state by insertion in ascending and in descending order
        let mut t = HashedPartialTrie::default();
        for (k, v) in &contents {
            t.insert(nib(k), v.clone()).map_err(|e| format!("insert: {e}"))?;
        }
        let mut s = StandardTrie::default();
        for (k, v) in contents.iter().rev() {
            s.insert(nib(k), v.clone()).map_err(|e| format!("insert: {e}"))?;
        }
        if roots {
            ensure!(same(&t, &c["tree"]), "structure after ascending insertion: {t:?}");
            ensure!(same(&s, &c["tree"]), "structure after descending insertion: {s:?}");
            ensure!(t.hash() == root, "root {:?}, expected {root:?}", t.hash());
            ensure!(s.hash() == root, "root (uncached trie) {:?}, expected {root:?}", s.hash());
            n += 4;
        } else {
            n += observe(&t, &contents, &keys)? + observe(&s, &contents, &keys)?;
        }
        // all outgoing transitions
        for k in &keys {
            for v in &vals {
                let mut m2 = m.clone();
                m2.insert(k.clone(), *v);
                let (j, r) = &index[&m2];
                let mut t2 = t.clone();
                t2.insert(nib(k), val_of(*v)).map_err(|e| format!("insert {k:?}: {e}"))?;
                if roots {
                    ensure!(same(&t2, &cases[*j]["tree"]), "structure after inserting {k:?}={v}: {t2:?}");
                    ensure!(t2.hash() == *r, "root after inserting {k:?}={v}");
                } else {
                    observe(&t2, &map_of(&cases[*j]["m"]), &keys).map_err(|e| format!("after inserting {k:?}={v}: {e}"))?;
                }
                n += 2;
                edges.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            let mut m2 = m.clone();
            let old = m2.remove(k);
            let (j, r) = &index[&m2];
            let mut t2 = t.clone();
            let got = t2.delete(nib(k)).map_err(|e| format!("delete {k:?}: {e}"))?;
            let mut s2 = s.clone();
            let got2 = s2.delete(nib(k)).map_err(|e| format!("delete {k:?}: {e}"))?;
            if roots {
                ensure!(same(&t2, &cases[*j]["tree"]), "structure after deleting {k:?}: {t2:?}");
                ensure!(same(&s2, &cases[*j]["tree"]), "structure after deleting {k:?}: {s2:?}");
                ensure!(t2.hash() == *r && s2.hash() == *r, "root after deleting {k:?}");
            } else {
                ensure!(got == old.map(val_of), "delete({k:?}) returned {got:?}");
                ensure!(got2 == old.map(val_of), "delete({k:?}) returned {got2:?}");
                observe(&t2, &map_of(&cases[*j]["m"]), &keys).map_err(|e| format!("after deleting {k:?}: {e}"))?;
            }
            n += 3;
            edges.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        if roots {
            ensure!(t.hash() == root, "root of the original after its clones changed");
        }
        Ok(n)
    });
    rep.extra.insert("edges_replayed".into(), edges.into_inner().into());
    rep
}

/// MptHist: histories with several handles.
pub fn hist(file: &str, roots: bool) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    rep.run(&cases, |c| {
        let mut t: BTreeMap<u64, HashedPartialTrie> = (1..=3).map(|h| (h, HashedPartialTrie::default())).collect();
        let keys: Vec<Key> = {
            let mut s = std::collections::BTreeSet::new();
            for o in arr(&c["ops"]) {
                for f in ["k", "l"] {
                    if !o[f].is_null() {
                        s.insert(bytes(&o[f]));
                    }
                }
            }
            s.into_iter().collect()
        };
        let mut n = 0;
        for (i, o) in arr(&c["ops"]).iter().enumerate() {
            let h = u(&o["h"]);
            let at = |e: String| format!("step {i} {o}: {e}");
            match st(&o["op"]) {
                "ins" => t.get_mut(&h).unwrap().insert(nib(&bytes(&o["k"])), val_of(u(&o["v"]))).map_err(|e| at(e.to_string()))?,
                "ext" => {
                    let v = val_of(u(&o["v"]));
                    t.get_mut(&h).unwrap().extend([(nib(&bytes(&o["k"])), v.clone()), (nib(&bytes(&o["l"])), v)]).map_err(|e| at(e.to_string()))?
                }
                "del" => {
                    let got = t.get_mut(&h).unwrap().delete(nib(&bytes(&o["k"]))).map_err(|e| at(e.to_string()))?;
                    let want = match u(&o["old"]) { 0 => None, v => Some(val_of(v)) };
                    if !roots {
                        ensure!(got == want, "step {i} {o}: delete returned {got:?}");
                        n += 1;
                    }
                }
                "clone" => {
                    let x = t[&h].clone();
                    t.insert(u(&o["g"]), x);
                }
                "obs" => {
                    let m = map_of(&o["m"]);
                    match u(&o["how"]) {
                        1 => if !roots { n += observe(&t[&h], &m, &keys).map_err(at)? },
                        2 => {
                            let sub = create_trie_subset(&t[&h], Vec::<Nibbles>::new()).map_err(|e| at(e.to_string()))?;
                            if roots {
                                ensure!(sub.hash() == ref_root(&m), "step {i} {o}: root of the empty subset");
                                n += 1;
                            }
                        }
                        _ => {
                            let r = t[&h].hash();
                            if roots {
                                ensure!(r == ref_root(&m), "step {i} {o}: root {r:?}");
                                n += 1;
                            }
                        }
                    }
                }
                x => tool_error(&format!("op {x}")),
            }
        }
        for (i, m) in arr(&c["maps"]).iter().enumerate() {
            let m = map_of(m);
            let t = &t[&(i as u64 + 1)];
            if roots {
                ensure!(t.hash() == ref_root(&m), "final root of handle {}: {:?}, expected {:?}", i + 1, t.hash(), ref_root(&m));
                n += 1;
            } else {
                n += observe(t, &m, &keys).map_err(|e| format!("final observation of handle {}: {e}", i + 1))?;
            }
        }
        Ok(n)
    });
    rep
}

/// MptPartial, operations.
pub fn partial_ops(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    rep.run(&cases, |c| {
        let m = map_of(&c["m"]);
        let p: HashedPartialTrie = build(&c["part"]);
        let s: StandardTrie = build(&c["part"]);
        let root = ref_root(&m);
        ensure!(p.hash() == root && s.hash() == root, "root of the partial trie");
        let mut n = 2;
        for o in arr(&c["ops"]) {
            let (k, res) = (bytes(&o[1]), st(&o[3]));
            match st(&o[0]) {
                "get" => {
                    let got = p.get(nib(&k)).map(|x| x.to_vec());
                    let want = if res == "hidden" { None } else { m.get(&k).cloned() };
                    ensure!(got == want, "get({k:?}) = {got:?}");
                    n += 1;
                }
                "ins" => {
                    let mut m2 = m.clone();
                    m2.insert(k.clone(), val_of(u(&o[2])));
                    let mut t = p.clone();
                    let r = t.insert(nib(&k), val_of(u(&o[2])));
                    let mut t1 = s.clone();
                    let r1 = t1.insert(nib(&k), val_of(u(&o[2])));
                    ensure!(r.is_ok() == r1.is_ok(), "{o}: the two trie kinds differ");
                    n += outcome(o, r.is_ok(), res == "ok", t.hash(), ref_root(&m2), root)?;
                    ensure!(t1.hash() == t.hash(), "{o}: the two trie kinds differ in root");
                }
                "del" => {
                    let mut m2 = m.clone();
                    let old = m2.remove(&k);
                    for kind in 0..2 {
                        let (r, h) = if kind == 0 {
                            let mut t = p.clone();
                            (t.delete(nib(&k)), t.hash())
                        } else {
                            let mut t = s.clone();
                            (t.delete(nib(&k)), t.hash())
                        };
                        if let Ok(v) = &r {
                            ensure!(*v == old, "{o}: delete returned {v:?}");
                        }
                        n += outcome(o, r.is_ok(), res == "ok", h, ref_root(&m2), root)?;
                    }
                    // the mode that collapses orphans: right whenever the orphan is a branch
                    if st(&o[4]) == "ok" {
                        let node: HashedPartialTrie = build(&c["part"]);
                        let mut t = HashedPartialTrie::new_with_strategy((*node).clone(), OnOrphanedHashNode::CollapseToExtension);
                        let r = t.delete(nib(&k)).map_err(|e| format!("{o}: collapse mode refused: {e}"))?;
                        ensure!(r == old && t.hash() == ref_root(&m2), "{o}: collapse mode: wrong root or value");
                        n += 1;
                    }
                }
                x => tool_error(x),
            }
        }
        // a bulk extension that fails midway leaves the root that of the contents
        for o in arr(&c["ops"]) {
            if st(&o[0]) == "ins" && st(&o[3]) != "ok" {
                for o1 in arr(&c["ops"]) {
                    if st(&o1[0]) == "ins" && st(&o1[3]) == "ok" && u(&o1[2]) == u(&o[2]) {
                        let mut t = p.clone();
                        let _ = create_trie_subset(&t, Vec::<Nibbles>::new());
                        let v = val_of(u(&o[2]));
                        let r = t.extend([(nib(&bytes(&o1[1])), v.clone()), (nib(&bytes(&o[1])), v.clone())]);
                        let mut m1 = m.clone();
                        m1.insert(bytes(&o1[1]), v.clone());
                        let has = t.get(nib(&bytes(&o1[1]))).map(|x| x.to_vec()) == Some(v);
                        let want = if has { ref_root(&m1) } else { root };
                        ensure!(r.is_err(), "extend into a hidden part succeeded");
                        ensure!(t.hash() == want, "root after a failed extend is not the root of the contents");
                        n += 1;
                    }
                }
            }
        }
        Ok(n)
    });
    rep
}
fn outcome(o: &Value, ok: bool, want_ok: bool, root: H256, want: H256, before: H256) -> R<usize> {
    if ok {
        ensure!(root == want, "{o}: succeeded with root {root:?}, expected {want:?}");
        ensure!(want_ok, "{o}: succeeded although it needs a hidden part");
    } else {
        ensure!(!want_ok, "{o}: refused although everything needed is present");
        ensure!(root == before, "{o}: failed and changed the trie");
    }
    Ok(1)
}

/// MptPartial, subsets.
pub fn partial_subsets(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    rep.run(&cases, |c| {
        let m = map_of(&c["m"]);
        let root = ref_root(&m);
        let p: HashedPartialTrie = build(&c["part"]);
        let s: StandardTrie = build(&c["part"]);
        let mut n = 0;
        let mut good = vec![];
        for sub in arr(&c["subs"]) {
            let ks: Vec<Key> = arr(&sub[0]).iter().map(bytes).collect();
            let r = create_trie_subset(&p, ks.iter().map(|k| nib(k)));
            let r2 = create_trie_subset(&s, ks.iter().rev().map(|k| nib(k)));
            ensure!(r.is_ok() == r2.is_ok(), "{ks:?}: the two trie kinds differ");
            match (st(&sub[1]), r) {
                ("err", Err(_)) => {}
                ("err", Ok(t)) => return Err(format!("{ks:?}: subset through a hidden part: {t:?}")),
                (_, Err(e)) => return Err(format!("{ks:?}: refused: {e}")),
                (_, Ok(t)) => {
                    ensure!(t.hash() == root, "{ks:?}: root of the subset");
                    ensure!(same(&t, &sub[2]), "{ks:?}: subset is {t:?}, expected {}", sub[2]);
                    ensure!(same(&r2.unwrap(), &sub[2]), "{ks:?}: uncached subset");
                    for k in &ks {
                        ensure!(t.get(nib(k)) == p.get(nib(k)), "{ks:?}: get({k:?}) on the subset");
                    }
                    good.push((ks.clone(), &sub[2]));
                    n += 3;
                }
            }
        }
        // several subsets of one base in one call must not influence each other
        let rot: Vec<_> = good.iter().chain(good.iter().rev()).collect();
        let all = create_trie_subsets(&p, rot.iter().map(|(ks, _)| ks.iter().map(|k| nib(k)).collect::<Vec<_>>()))
            .map_err(|e| format!("create_trie_subsets refused: {e}"))?;
        for ((ks, want), got) in rot.iter().zip(all) {
            ensure!(got.hash() == root && same(&got, want), "create_trie_subsets({ks:?}) = {got:?}, expected {want}");
            n += 1;
        }
        ensure!(p.hash() == root, "root of the base after taking subsets");
        Ok(n)
    });
    rep
}

fn segs(it: impl Iterator<Item = TrieSegment>) -> Vec<Value> {
    it.map(|s| match s {
        TrieSegment::Empty => serde_json::json!(["empty"]),
        TrieSegment::Hash => serde_json::json!(["hash"]),
        TrieSegment::Branch(n) => serde_json::json!(["branch", n]),
        TrieSegment::Extension(n) => serde_json::json!(["ext", unnib(&n)]),
        TrieSegment::Leaf(n) => serde_json::json!(["leaf", unnib(&n)]),
    })
    .collect()
}

fn at_path<'a>(t: &'a HashedPartialTrie, path: &[u8]) -> Option<&'a HashedPartialTrie> {
    if path.is_empty() {
        return Some(t);
    }
    match &**t {
        Node::Branch { children, .. } => at_path(&children[path[0] as usize], &path[1..]),
        Node::Extension { nibbles, child } => {
            let n = unnib(nibbles);
            if path.starts_with(&n) { at_path(child, &path[n.len()..]) } else { None }
        }
        _ => None,
    }
}

/// MptPartial, path queries and comparison of tries.
pub fn partial_paths(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    // full tries, one per map, for comparison
    let mut full: BTreeMap<Map, HashedPartialTrie> = BTreeMap::new();
    for c in &cases {
        let m = map_of(&c["m"]);
        full.entry(m.clone()).or_insert_with(|| {
            let mut t = HashedPartialTrie::default();
            for (k, v) in &m {
                let _ = t.insert(nib(k), v.clone());
            }
            t
        });
    }
    let fulls: Vec<(&Map, &HashedPartialTrie)> = full.iter().collect();
    rep.run(&cases, |c| {
        let m = map_of(&c["m"]);
        let p: HashedPartialTrie = build(&c["part"]);
        let mut n = 0;
        for q in arr(&c["paths"]) {
            let k = bytes(&q[0]);
            let got = segs(path_for_query(&p, nib(&k), q[1].as_bool().unwrap()));
            ensure!(got == *arr(&q[2]), "path of {q}: {got:?}");
            n += 1;
        }
        let d = create_full_diff_between_tries(&p, &full[&m]);
        ensure!(d.diff_points.is_empty(), "difference between a trie and its partial form: {d:?}");
        let d = create_full_diff_between_tries(&full[&m], &p);
        ensure!(d.diff_points.is_empty(), "difference between a trie and its partial form: {d:?}");
        let step = fulls.len() / 48 + 1;
        let off = n_hash(&m) as usize % step;
        for (m2, t2) in fulls.iter().skip(off).step_by(step) {
            let d = create_full_diff_between_tries(&p, t2);
            ensure!(d.diff_points.is_empty() == (m == **m2), "comparison of {m:?} (partial) with {m2:?}: {d:?}");
            for pt in &d.diff_points {
                let key = unnib(&pt.key);
                let (a, b) = (at_path(&p, &key), at_path(t2, &key));
                ensure!(a.is_some() && b.is_some(), "difference reported at {key:?}, which is no node of both tries: {pt:?}");
                let (a, b) = (a.unwrap(), b.unwrap());
                ensure!(a.hash() != b.hash(), "difference reported at {key:?}, where the tries agree");
                ensure!(pt.a_info.hash == a.hash() && pt.b_info.hash == b.hash(), "difference at {key:?} reports other hashes");
            }
            n += 1;
        }
        Ok(n)
    });
    rep
}
fn n_hash(m: &Map) -> u64 {
    m.iter().fold(1u64, |a, (k, v)| k.iter().fold(a.wrapping_mul(31).wrapping_add(v.len() as u64), |a, x| a.wrapping_mul(131).wrapping_add(*x as u64))) >> 3
}

#[allow(dead_code)]
pub fn is_hash(v: &ValOrHash) -> bool {
    matches!(v, ValOrHash::Hash(_))
}
