//! Replay of the Nibbles specification on mpt_trie::nibbles.
use std::str::FromStr;

use ethereum_types::{H256, U256};
use mpt_trie::nibbles::{Nibbles, NibblesIntern, ToNibbles};

use crate::ensure;
use crate::mpt::{nib, unnib};
use crate::util::*;

fn hex(n: &[u8]) -> String {
    n.iter().map(|x| format!("{x:x}")).collect()
}
/// Canonical: also the packed form must carry nothing beyond the nibbles.
fn is(n: &Nibbles, want: &[u8]) -> bool {
    let mut packed = NibblesIntern::zero();
    for x in want {
        packed = (packed << 4) | NibblesIntern::from(*x);
    }
    n.count == want.len() && n.packed == packed && unnib(n) == want && *n == nib(want)
}

pub fn run(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut rep = Report::default();
    rep.run(&cases, |c| {
        let (s, t) = (bytes(&c["s"]), bytes(&c["t"]));
        let (ns, nt) = (nib(&s), nib(&t));
        let mut n = 0;
        macro_rules! eq {
            ($got:expr, $want:expr, $($what:tt)*) => {{
                let g = $got;
                let w: &[u8] = &$want;
                ensure!(is(&g, w), "{}: got {:?}, expected {:?}", format!($($what)*), g, w);
                n += 1;
            }};
        }
        eq!(ns, s, "push_nibble_back");
        let mut f = Nibbles::new();
        for x in s.iter().rev() {
            f.push_nibble_front(*x);
        }
        eq!(f, s, "push_nibble_front");
        ensure!(ns.is_empty() == s.is_empty(), "is_empty");
        for cut in arr(&c["cuts"]) {
            let i = u(&cut["i"]) as usize;
            let (pre, post) = (bytes(&cut["pre"]), bytes(&cut["post"]));
            let (a, b) = ns.split_at_idx(i);
            eq!(a, pre, "split_at_idx({i}).0");
            eq!(b, post, "split_at_idx({i}).1");
            eq!(ns.split_at_idx_prefix(i), pre, "split_at_idx_prefix({i})");
            eq!(ns.split_at_idx_postfix(i), post, "split_at_idx_postfix({i})");
            eq!(ns.truncate_n_nibbles_front(i), post, "truncate_n_nibbles_front({i})");
            eq!(ns.truncate_n_nibbles_back(post.len()), pre, "truncate_n_nibbles_back");
            eq!(ns.get_next_nibbles(i), pre, "get_next_nibbles({i})");
            let mut x = ns;
            eq!(x.pop_nibbles_front(i), pre, "pop_nibbles_front({i}) result");
            eq!(x, post, "pop_nibbles_front({i}) rest");
            let mut x = ns;
            eq!(x.pop_nibbles_back(post.len()), bytes(&cut["backpop"]), "pop_nibbles_back result");
            eq!(x, pre, "pop_nibbles_back rest");
            let mut x = ns;
            x.truncate_n_nibbles_front_mut(i);
            eq!(x, post, "truncate_n_nibbles_front_mut({i})");
            let mut x = ns;
            x.truncate_n_nibbles_back_mut(post.len());
            eq!(x, pre, "truncate_n_nibbles_back_mut");
            if i < s.len() {
                ensure!(ns.get_nibble(i) == s[i], "get_nibble({i})");
                let mut x = nib(&post);
                ensure!(x.pop_next_nibble_front() == s[i], "pop_next_nibble_front");
                eq!(x, post[1..], "pop_next_nibble_front rest");
            }
            if i > 0 {
                let mut x = nib(&pre);
                ensure!(x.pop_next_nibble_back() == s[i - 1], "pop_next_nibble_back");
                eq!(x, pre[..i - 1], "pop_next_nibble_back rest");
                eq!(nib(&pre[..i - 1]).merge_nibble(s[i - 1]), pre, "merge_nibble");
            }
            eq!(nib(&pre).merge_nibbles(&nib(&post)), s, "merge_nibbles at {i}");
            let mut x = nib(&pre);
            x.push_nibbles_back(&nib(&post));
            eq!(x, s, "push_nibbles_back at {i}");
            let mut x = nib(&post);
            x.push_nibbles_front(&nib(&pre));
            eq!(x, s, "push_nibbles_front at {i}");
        }
        eq!(ns.truncate_n_nibbles_front(s.len() + 1), [0u8; 0], "over-truncate front");
        eq!(ns.truncate_n_nibbles_back(s.len() + 3), [0u8; 0], "over-truncate back");
        for r in arr(&c["ranges"]) {
            let (i, j) = (u(&r[0]) as usize, u(&r[1]) as usize);
            if i <= j {
                eq!(ns.get_nibble_range(i..j), bytes(&r[2]), "get_nibble_range({i}..{j})");
            }
        }
        let cat = bytes(&c["cat"]);
        if cat.len() <= 64 {
            eq!(ns.merge_nibbles(&nt), cat, "merge_nibbles");
            let mut x = ns;
            x.push_nibbles_back(&nt);
            eq!(x, cat, "push_nibbles_back");
            let mut x = nt;
            x.push_nibbles_front(&ns);
            eq!(x, cat, "push_nibbles_front");
        } else {
            ensure!(catch(|| ns.merge_nibbles(&nt)).is_err(), "merge beyond 64 nibbles was accepted");
            ensure!(catch(|| { let mut x = ns; x.push_nibbles_back(&nt); x }).is_err(), "push beyond 64 nibbles was accepted");
        }
        if s.len() == 64 {
            ensure!(catch(|| { let mut x = ns; x.push_nibble_back(1); x }).is_err(), "65th nibble was accepted");
            ensure!(catch(|| { let mut x = ns; x.push_nibble_front(0); x }).is_err(), "65th nibble was accepted");
        }
        let common = u(&c["common"]) as usize;
        let got = Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&ns, &nt);
        ensure!(got == common, "first difference: {got}, expected {common}");
        if s.len() == t.len() {
            let got = Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&ns, &nt);
            ensure!(got == common, "first difference (equal lengths): {got}, expected {common}");
        }
        let same = c["same"].as_bool().unwrap();
        ensure!(ns.nibbles_are_identical_up_to_smallest_count(&nt) == same, "identical up to smallest count");
        ensure!((ns == nt) == (s == t), "equality");
        n += 4;
        eq!(ns.reverse(), bytes(&c["rev"]), "reverse");
        for (leaf, want) in [(false, bytes(&c["hp"])), (true, bytes(&c["hpl"]))] {
            let got = ns.to_hex_prefix_encoding(leaf);
            ensure!(got[..] == want[..], "hex prefix (leaf {leaf}): {got:?}, expected {want:?}");
            let back = Nibbles::from_hex_prefix_encoding(&want).map_err(|e| format!("from_hex_prefix: {e}"))?;
            // decoding keeps a leaf's terminator as a trailing 0x10
            let mut w = s.clone();
            if leaf {
                w.extend([1, 0]);
            }
            ensure!(unnib(&back) == w && back.count == w.len(), "from_hex_prefix(leaf {leaf}): {back:?}");
            n += 2;
        }
        let be = bytes(&c["be"]);
        ensure!(ns.bytes_be() == be, "bytes_be: {:?}, expected {be:?}", ns.bytes_be());
        ensure!(ns.min_bytes() == be.len(), "min_bytes");
        let le: Vec<u8> = be.iter().rev().copied().collect();
        ensure!(ns.as_byte_slice() == &le[..], "as_byte_slice");
        n += 3;
        if s.len() % 2 == 0 && !s.is_empty() {
            eq!(Nibbles::from_bytes_be(&be).map_err(|e| e.to_string())?, s, "from_bytes_be");
            eq!(Nibbles::from_bytes_le(&le).map_err(|e| e.to_string())?, s, "from_bytes_le");
        }
        let num = bytes(&c["num"]);
        let padded: Vec<u8> = if num.len() % 2 == 0 { num.clone() } else { [vec![0], num.clone()].concat() };
        if s.len() <= 64 {
            let mut b = [0u8; 32];
            b[32 - be.len()..].copy_from_slice(&be);
            let v = U256::from_big_endian(&b);
            eq!(v.to_nibbles(), num, "U256::to_nibbles");
            eq!(v.to_nibbles_byte_padded(), padded, "U256::to_nibbles_byte_padded");
            ensure!(U256::try_from(&ns) == Ok(v), "U256::try_from");
            ensure!(TryInto::<U256>::try_into(ns) == Ok(v), "try_into U256");
            ensure!(H256::from(ns) == H256(b), "H256::from");
            let mut w = vec![0u8; 64 - s.len()];
            w.extend_from_slice(&s);
            eq!(Nibbles::from_h256_be(H256(b)), w, "from_h256_be");
            let mut bl = b;
            bl.reverse();
            eq!(Nibbles::from_h256_le(H256(bl)), w, "from_h256_le");
            if num.len() <= 16 {
                let x = v.as_u64();
                eq!(Nibbles::from(x), num, "from u64");
                eq!(x.to_nibbles_byte_padded(), padded, "u64 padded");
                if num.len() <= 8 {
                    eq!(Nibbles::from(x as u32), num, "from u32");
                }
                if num.len() <= 4 {
                    eq!(Nibbles::from(x as u16), num, "from u16");
                }
                if num.len() <= 2 {
                    eq!(Nibbles::from(x as u8), num, "from u8");
                }
            }
        }
        if !s.is_empty() {
            let h = hex(&s);
            eq!(Nibbles::from_str(&h).map_err(|e| e.to_string())?, s, "from_str({h})");
            eq!(Nibbles::from_str(&format!("0x{h}")).map_err(|e| e.to_string())?, s, "from_str(0x{h})");
        }
        ensure!(format!("{ns:x}") == format!("0x{}", hex(&s)), "lower hex: {ns:x}");
        ensure!(format!("{ns:X}") == format!("0x{}", hex(&s).to_uppercase()), "upper hex: {ns:X}");
        ensure!(format!("{ns}") == format!("0x{}", hex(&s)), "display: {ns}");
        ensure!(serde_json::from_str::<Nibbles>(&serde_json::to_string(&ns).unwrap()).map(|x| x == ns).unwrap_or(false), "serde round trip");
        Ok(n + 4)
    });
    rep
}
