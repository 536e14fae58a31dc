//! Replays of the Wire specification: each emitted stream goes to the decoder, and the tries
//! that come out are compared with what the specification says the stream means.
use std::collections::BTreeMap;

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::proof::{BlockHashes, BlockMetadata};
use evm_arithmetization::world::Type1World;
use evm_arithmetization::EMPTY_CONSOLIDATED_BLOCKHASH;
use keccak_hash::keccak;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use mpt_trie::trie_ops::ValOrHash;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use serde_json::{json, Value};
use trace_decoder::observer::TriesObserver;
use trace_decoder::*;

use crate::ensure;
use crate::mpt::{nib, unnib};
use crate::util::*;

type T = HashedPartialTrie;
const BEACON: [u8; 20] = hex_literal::hex!("000F3df6D732807Ef1319fB7B8bB8522d0Beac02");
const TIME: u64 = 12345;

fn be(v: &Value) -> U256 {
    U256::from_big_endian(&bytes(v))
}
fn slots() -> [(Vec<u8>, Vec<u8>); 2] {
    let path = |n: u64| {
        let mut b = [0; 32];
        U256::from(n).to_big_endian(&mut b);
        keccak(b).0.iter().flat_map(|x| [x >> 4, x & 15]).collect::<Vec<u8>>()
    };
    [(path(TIME % 8191), vec![48, 57]), (path(TIME % 8191 + 8191), (65..97).collect())]
}

// ---------------------------------------------------------------------------
// The state that the stream was made from.

struct Full {
    state: T,
    storage: BTreeMap<Vec<u8>, T>,
    code: BTreeMap<Vec<u8>, Vec<u8>>,
}
fn leaf(n: U256, b: U256, root: H256, code: H256) -> Vec<u8> {
    let mut s = rlp::RlpStream::new_list(4);
    s.append(&n).append(&b).append(&root).append(&code);
    s.out().to_vec()
}
fn put(t: &mut T, p: &[u8], v: Vec<u8>) {
    t.insert(nib(p), v).unwrap_or_else(|e| tool_error(&format!("the harness cannot build its trie: {e:?}")))
}
fn full(st: &Value, with_slots: bool) -> Full {
    let mut f = Full { state: Node::Empty.into(), storage: BTreeMap::new(), code: BTreeMap::new() };
    let beacon = path_of(keccak(BEACON));
    for a in arr(st) {
        let p = bytes(&a[0]);
        let mut t: T = Node::Empty.into();
        for kv in arr(&a[4]) {
            put(&mut t, &bytes(&kv[0]), rlp::encode(&bytes(&kv[1])).to_vec());
        }
        if with_slots && p == beacon {
            for (k, v) in slots() {
                put(&mut t, &k, rlp::encode(&v).to_vec());
            }
        }
        let code = bytes(&a[3]);
        put(&mut f.state, &p, leaf(be(&a[1]), be(&a[2]), t.hash(), keccak(&code)));
        f.storage.insert(p.clone(), t);
        f.code.insert(p, code);
    }
    f
}
fn path_of(h: H256) -> Vec<u8> {
    h.0.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}
fn at<'a>(t: &'a T, p: &[u8]) -> Option<&'a T> {
    if p.is_empty() {
        return Some(t);
    }
    match &**t {
        Node::Branch { children, .. } => at(&children[p[0] as usize], &p[1..]),
        Node::Extension { nibbles, child } => p.strip_prefix(&unnib(nibbles)[..]).and_then(|r| at(child, r)),
        _ => None,
    }
}
fn hashes(f: &Full, hl: &Value) -> Vec<H256> {
    arr(hl)
        .iter()
        .map(|h| {
            let p = bytes(&h[1]);
            match st(&h[0]) {
                "S" => at(&f.state, &p).map(|t| t.hash()),
                "T" => at(&f.storage[&p], &bytes(&h[2])).map(|t| t.hash()),
                _ => Some(keccak(&f.code[&p])),
            }
            .unwrap_or_else(|| tool_error(&format!("nothing to hide at {h}")))
        })
        .collect()
}

// ---------------------------------------------------------------------------

fn hash_at(v: &Value, hs: &[H256]) -> H256 {
    let q = arr(v);
    match q.len() {
        1 => hs[u(&q[0]) as usize - 1001],
        _ => H256::from_slice(&bytes(v)),
    }
}
#[derive(PartialEq, Eq, Clone)]
enum Slot {
    V(Vec<u8>),
    H(H256),
}
type Slots = BTreeMap<Vec<u8>, Slot>;
impl std::fmt::Debug for Slot {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Slot::V(v) => write!(f, "V({})", hex::encode(v)),
            Slot::H(h) => write!(f, "H({h:?})"),
        }
    }
}
fn content(t: &T) -> Slots {
    t.items()
        .map(|(k, x): (Nibbles, _)| {
            (
                unnib(&k),
                match x {
                    ValOrHash::Val(v) => Slot::V(v),
                    ValOrHash::Hash(h) => Slot::H(h),
                },
            )
        })
        .collect()
}
fn want_slots(v: &Value, hs: &[H256]) -> Slots {
    arr(v)
        .iter()
        .map(|x| (bytes(&x[0]), if x[1] == "H" { Slot::H(hash_at(&x[2], hs)) } else { Slot::V(rlp::encode(&bytes(&x[2])).to_vec()) }))
        .collect()
}
fn diff(a: &Slots, b: &Slots) -> String {
    let mut out = vec![];
    for (k, v) in a {
        if b.get(k) != Some(v) {
            out.push(format!("{} is {v:?}, not {:?}", hex_nib(k), b.get(k)));
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            out.push(format!("{} {v:?} is missing", hex_nib(k)));
        }
    }
    out.truncate(3);
    out.join("; ")
}
fn hex_nib(k: &[u8]) -> String {
    k.iter().map(|x| char::from_digit(*x as u32, 16).unwrap_or('?')).collect()
}

fn other() -> OtherBlockData {
    OtherBlockData {
        b_data: BlockLevelData {
            b_meta: BlockMetadata {
                block_timestamp: TIME.into(),
                block_number: 1000.into(),
                parent_beacon_block_root: H256::from_slice(&slots()[1].1),
                ..Default::default()
            },
            b_hashes: BlockHashes { prev_hashes: vec![H256::zero(); 256], cur_hash: H256::zero() },
            withdrawals: vec![],
        },
        checkpoint_state_trie_root: H256::zero(),
        checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
        burn_addr: None,
        ger_data: None,
    }
}
fn decode(compact: &[u8], txn_info: Vec<TxnInfo>) -> Result<Result<(Type1World, Vec<Vec<u8>>), String>, String> {
    let t = BlockTrace {
        trie_pre_images: BlockTraceTriePreImages::Combined(CombinedPreImages { compact: compact.to_vec() }),
        code_db: Default::default(),
        txn_info,
    };
    let mut o = TriesObserver::new();
    catch(|| entrypoint(t, other(), 1000, &mut o, WireDisposition::Type1)).map(|r| {
        r.map(|ps| {
            let codes = ps.into_iter().flat_map(|p| p.contract_code.into_values()).collect();
            (o.data.remove(0).tries.world, codes)
        })
        .map_err(|e| format!("{e:#}"))
    })
}

fn case(c: &Value) -> R<usize> {
    let f = full(&c["st"], false);
    let hs = hashes(&f, &c["hl"]);
    let mut stream = vec![];
    for x in arr(&c["str"]) {
        match u(x) {
            b if b < 256 => stream.push(b as u8),
            k => stream.extend(hs[k as usize - 1001].0),
        }
    }
    let loose = c["l"].as_bool().unwrap();
    let got = decode(&stream, vec![]);
    if c["o"] == "any" {
        return Ok(0);
    }
    let got = got.map_err(|p| format!("{} on stream {}: {p}", if c["o"] == "no" { "panic instead of an error" } else { "panic" }, hex::encode(&stream)))?;
    if c["o"] == "no" {
        ensure!(got.is_err(), "accepted the malformed stream {}", hex::encode(&stream));
        return Ok(1);
    }
    let world = match got {
        Ok((w, _)) => w,
        Err(_) if loose => return Ok(1),
        Err(e) => return Err(format!("refused a well-formed stream ({e:.300}): {}", hex::encode(&stream))),
    };
    let s = hex::encode(&stream);
    let s = &s[..s.len().min(400)];
    let mut n = 1;
    let root = world.state_trie().hash();
    let (state, storage) = world.into_state_and_storage();
    let beacon = path_of(keccak(BEACON));
    let mut want = Slots::new();
    let mut codes = vec![];
    for e in arr(&c["e"]) {
        let p = bytes(&e[0]);
        if e[1] == "H" {
            want.insert(p, Slot::H(hash_at(&e[2], &hs)));
            continue;
        }
        let mut ws = want_slots(&e[5], &hs);
        if p == beacon {
            for (k, v) in slots() {
                ws.insert(k, Slot::V(rlp::encode(&v).to_vec()));
            }
        }
        let code = match st(&e[4][0]) {
            "none" => keccak([]),
            "hash" => hash_at(&e[4][1], &hs),
            _ => {
                codes.push(bytes(&e[4][1]));
                keccak(codes.last().unwrap())
            }
        };
        let ha = H256::from_slice(&p.chunks(2).map(|x| x[0] << 4 | x[1]).collect::<Vec<u8>>());
        let t = storage.get(&ha).ok_or_else(|| format!("no storage for the account at {ha:?} of {s}"))?;
        let t: &T = t.as_hashed_partial_trie();
        let gs = content(t);
        ensure!(gs == ws, "storage of {ha:?}: {} (stream {s})", diff(&gs, &ws));
        want.insert(p, Slot::V(leaf(be(&e[2]), be(&e[3]), t.hash(), code)));
        n += 1;
    }
    let got = content(&state.into());
    ensure!(got == want, "state: {} (stream {s})", diff(&got, &want));
    if c["dmg"] == 0 {
        let f = full(&c["st"], true);
        for (p, t) in &f.storage {
            let ha = H256::from_slice(&p.chunks(2).map(|x| x[0] << 4 | x[1]).collect::<Vec<u8>>());
            if let Some(x) = storage.get(&ha) {
                ensure!(x.as_hashed_partial_trie().hash() == t.hash(), "storage root of {ha:?} is not that of the witnessed storage (stream {s})");
            }
        }
        ensure!(root == f.state.hash(), "root of the decoded state is {root:?}, not {:?} (stream {s})", f.state.hash());
        n += 1 + f.storage.len();
    }
    if !codes.is_empty() {
        let receipt = {
            let mut r = rlp::RlpStream::new_list(4);
            r.append(&true).append(&U256::from(21000)).append(&vec![0u8; 256]);
            r.begin_list(0);
            r.out().to_vec()
        };
        let txs = codes
            .iter()
            .map(|x| TxnInfo {
                traces: [(Address::from(BEACON), TxnTrace { code_usage: Some(ContractCodeUsage::Read(keccak(x))), ..Default::default() })].into(),
                meta: TxnMeta { byte_code: vec![1], new_receipt_trie_node_byte: receipt.clone(), gas_used: 21000 },
            })
            .collect();
        let (_, got) = decode(&stream, txs).map_err(|p| format!("panic with transactions: {p} (stream {s})"))?.map_err(|e| format!("refused with transactions: {e} (stream {s})"))?;
        for x in &codes {
            ensure!(got.contains(x), "code {} is not among the codes of the payloads (stream {s})", hex::encode(x));
            n += 1;
        }
    }
    Ok(n)
}

pub fn run(file: &str) -> Report {
    let cases = read_emitted(file);
    let mut r = Report::default();
    r.run(&cases, case);
    let count = |o: &str, l: bool| cases.iter().filter(|c| c["o"] == o && c["l"] == l).count();
    r.extra.insert("well_formed".into(), json!(count("yes", false)));
    r.extra.insert("unusual".into(), json!(count("yes", true)));
    r.extra.insert("malformed".into(), json!(count("no", false) + count("no", true)));
    r
}
