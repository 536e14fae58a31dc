//! Replays of the Evm specification in the kernel: each emitted block becomes one or more
//! payloads with real signed transactions, which must be accepted with the specification's
//! roots and gas, and (E14) rejected when a claim is falsified.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::{GenerationInputs, TrieInputs};
use evm_arithmetization::proof::{BlockHashes, BlockMetadata, TrieRoots};
use evm_arithmetization::prover::testing::simulate_execution;
use evm_arithmetization::{SegmentDataIterator, EMPTY_CONSOLIDATED_BLOCKHASH};
use k256::ecdsa::SigningKey;
use keccak_hash::keccak;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use rlp::RlpStream;
use serde_json::{json, Value};

use crate::util::*;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Acct {
    pub n: U256,
    pub b: U256,
    pub code: Arc<Vec<u8>>,
    pub st: BTreeMap<U256, U256>,
}
pub type World = BTreeMap<Address, Acct>;

pub fn word(v: &Value) -> U256 {
    U256::from_little_endian(&bytes(v))
}
pub fn addr(v: &Value) -> Address {
    let mut b = bytes(v);
    b.resize(20, 0);
    b.reverse();
    Address::from_slice(&b)
}
fn h256(x: U256) -> H256 {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    H256(b)
}

/// The specification's greatest nonce stands for the real one.
pub fn nonce(v: &Value) -> u64 {
    match u(v) {
        2147483647 => u64::MAX,
        n => n,
    }
}
fn acct(v: &[Value]) -> Acct {
    Acct {
        n: nonce(&v[1]).into(),
        b: word(&v[2]),
        code: Arc::new(bytes(&v[3])),
        st: arr(&v[4]).iter().map(|kv| (word(&kv[0]), word(&kv[1]))).collect(),
    }
}
pub fn world(v: &Value) -> World {
    arr(v).iter().map(|x| (addr(&x[0]), acct(arr(x)))).collect()
}
pub fn apply(w: &World, diff: &Value) -> World {
    let mut w = w.clone();
    for x in arr(diff) {
        let x = arr(x);
        if x.len() == 1 {
            w.remove(&addr(&x[0]));
        } else {
            w.insert(addr(&x[0]), acct(x));
        }
    }
    w
}

fn key_of(bytes: &[u8]) -> Nibbles {
    Nibbles::from_bytes_be(keccak(bytes).as_bytes()).unwrap()
}
pub fn storage_trie(st: &BTreeMap<U256, U256>) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::new(Node::Empty);
    for (k, v) in st {
        t.insert(key_of(h256(*k).as_bytes()), rlp::encode(v).to_vec()).unwrap();
    }
    t
}
pub fn account_rlp(a: &Acct, root: H256) -> Vec<u8> {
    let mut s = RlpStream::new_list(4);
    s.append(&a.n).append(&a.b).append(&root).append(&keccak(&*a.code));
    s.out().to_vec()
}
pub fn state_trie(w: &World) -> (HashedPartialTrie, Vec<(H256, HashedPartialTrie)>) {
    let mut t = HashedPartialTrie::new(Node::Empty);
    let mut ss = vec![];
    for (a, x) in w {
        let s = storage_trie(&x.st);
        t.insert(key_of(a.as_bytes()), account_rlp(x, s.hash())).unwrap();
        ss.push((keccak(a.as_bytes()), s));
    }
    (t, ss)
}
fn index_key(i: usize) -> Nibbles {
    Nibbles::from_bytes_be(&rlp::encode(&i)).unwrap()
}
pub fn indexed_trie(items: &[Vec<u8>]) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::new(Node::Empty);
    for (i, x) in items.iter().enumerate() {
        t.insert(index_key(i), x.clone()).unwrap();
    }
    t
}

// ---------------------------------------------------------------------------
// Transactions and receipts

fn key(from: Address) -> SigningKey {
    thread_local! { static KEYS: HashMap<Address, SigningKey> = (1..=4u8).map(|i| {
        let mut b = [0; 32];
        b[31] = i;
        let k = SigningKey::from_slice(&b).unwrap();
        let p = k.verifying_key().to_encoded_point(false);
        (Address::from_slice(&keccak(&p.as_bytes()[1..])[12..]), k)
    }).collect(); }
    KEYS.with(|m| m.get(&from).cloned()).unwrap_or_else(|| tool_error(&format!("no key for {from:?}")))
}

fn append_to(s: &mut RlpStream, t: &Value) {
    if t["create"].as_bool().unwrap() {
        s.append_empty_data();
    } else {
        s.append(&addr(&t["to"]));
    }
}

/// The transaction as it goes into the transaction trie.
pub fn signed(t: &Value) -> Vec<u8> {
    let ty = u(&t["type"]);
    let chain = t["chain"].as_i64().unwrap();
    let body = |s: &mut RlpStream| {
        if ty > 0 {
            s.append(&(chain as u64));
        }
        s.append(&nonce(&t["nonce"]));
        if ty >= 2 {
            s.append(&word(&t["tip"]));
        }
        s.append(&word(&t["price"]));
        s.append(&u(&t["gas"]));
        append_to(s, t);
        s.append(&word(&t["val"]));
        s.append(&bytes(&t["data"]));
        if ty > 0 {
            s.begin_list(arr(&t["al"]).len());
            for e in arr(&t["al"]) {
                s.begin_list(2);
                s.append(&addr(&e[0]));
                s.begin_list(arr(&e[1]).len());
                for k in arr(&e[1]) {
                    s.append(&h256(word(k)));
                }
            }
        }
        if ty == 3 {
            s.append(&t.get("blobmax").map(word).unwrap_or(U256::from(1_000_000_000u64)));
            s.begin_list(arr(&t["blobs"]).len());
            for b in arr(&t["blobs"]) {
                s.append(&h256(word(b)));
            }
        }
    };
    let mut s = RlpStream::new();
    s.begin_unbounded_list();
    body(&mut s);
    if ty == 0 && chain >= 0 {
        s.append(&(chain as u64)).append(&0u8).append(&0u8);
    }
    s.finalize_unbounded_list();
    let mut pre = s.out().to_vec();
    if ty > 0 {
        pre.insert(0, ty as u8);
    }
    let (sig, rec) = key(addr(&t["from"])).sign_prehash_recoverable(keccak(&pre).as_bytes()).unwrap();
    let y = rec.to_byte() as u64 & 1;
    let (r, sv) = (U256::from_big_endian(&sig.r().to_bytes()), U256::from_big_endian(&sig.s().to_bytes()));
    let mut s = RlpStream::new();
    s.begin_unbounded_list();
    body(&mut s);
    let v = if ty > 0 { y } else if chain < 0 { 27 + y } else { 35 + 2 * chain as u64 + y };
    s.append(&v).append(&r).append(&sv);
    s.finalize_unbounded_list();
    let mut out = s.out().to_vec();
    if ty > 0 {
        out.insert(0, ty as u8);
    }
    out
}

fn bloom_add(b: &mut [u8; 256], x: &[u8]) {
    let h = keccak(x).0;
    for i in 0..3 {
        let bit = ((h[2 * i] as usize) << 8 | h[2 * i + 1] as usize) & 2047;
        b[255 - bit / 8] |= 1 << (bit % 8);
    }
}
pub fn receipt(r: &Value) -> (Vec<u8>, [u8; 256]) {
    let mut bloom = [0u8; 256];
    let logs = arr(&r["logs"]);
    for l in logs {
        bloom_add(&mut bloom, addr(&l["a"]).as_bytes());
        for t in arr(&l["t"]) {
            bloom_add(&mut bloom, h256(word(t)).as_bytes());
        }
    }
    let mut s = RlpStream::new_list(4);
    s.append(&(r["ok"].as_bool().unwrap() as u8));
    s.append(&u(&r["cum"]));
    s.append(&bloom.to_vec());
    s.begin_list(logs.len());
    for l in logs {
        s.begin_list(3);
        s.append(&addr(&l["a"]));
        s.begin_list(arr(&l["t"]).len());
        for t in arr(&l["t"]) {
            s.append(&h256(word(t)));
        }
        s.append(&bytes(&l["d"]));
    }
    let mut out = s.out().to_vec();
    if u(&r["type"]) > 0 {
        out.insert(0, u(&r["type"]) as u8);
    }
    (out, bloom)
}

// ---------------------------------------------------------------------------
// Blocks and payloads

pub struct Block {
    pub pre: World,
    /// `after[i]`: the world after i transactions (0: after the beacon root).
    pub after: Vec<World>,
    pub end: World,
    pub txs: Vec<Vec<u8>>,
    pub receipts: Vec<Vec<u8>>,
    /// `cum[i]`: gas used by the first i transactions.
    pub cum: Vec<u64>,
    pub wds: Vec<(Address, U256)>,
    pub meta: BlockMetadata,
    pub hashes: Vec<H256>,
    pub cur: H256,
}

pub fn block(v: &Value) -> Block {
    let pre = world(&v["pre"]);
    let mut after = vec![apply(&pre, &v["begin"])];
    let mut cum = vec![0];
    let mut receipts = vec![];
    let mut bloom = [0u8; 256];
    for o in arr(&v["outs"]) {
        after.push(apply(after.last().unwrap(), &o["w"]));
        cum.push(u(&o["rec"]["cum"]));
        let (r, b) = receipt(&o["rec"]);
        receipts.push(r);
        bloom.iter_mut().zip(b).for_each(|(x, y)| *x |= y);
    }
    let end = apply(after.last().unwrap(), &v["end"]);
    let (meta, hashes) = header(&v["blk"], arr(&v["txs"]), *cum.last().unwrap(), &bloom);
    Block {
        pre,
        after,
        end,
        txs: arr(&v["txs"]).iter().map(signed).collect(),
        receipts,
        cum,
        wds: withdrawals(&v["wds"]),
        meta,
        hashes,
        cur: H256::repeat_byte(0xc4),
    }
}
fn withdrawals(v: &Value) -> Vec<(Address, U256)> {
    arr(v).iter().map(|x| (addr(&x[0]), word(&x[1]))).collect()
}
fn header(b: &Value, txs: &[Value], used: u64, bloom: &[u8; 256]) -> (BlockMetadata, Vec<H256>) {
    let meta = BlockMetadata {
        block_beneficiary: addr(&b["coinbase"]),
        block_timestamp: u(&b["time"]).into(),
        block_number: u(&b["number"]).into(),
        block_difficulty: U256::zero(),
        block_random: h256(word(&b["random"])),
        block_gaslimit: u(&b["limit"]).into(),
        block_chain_id: u(&b["chain"]).into(),
        block_base_fee: word(&b["base"]),
        block_gas_used: used.into(),
        block_blob_gas_used: txs.iter().map(|t| 131072 * arr(&t["blobs"]).len() as u64).sum::<u64>().into(),
        block_excess_blob_gas: u(&b["excess"]).into(),
        parent_beacon_block_root: h256(word(&b["beaconroot"])),
        block_bloom: std::array::from_fn(|i| U256::from_big_endian(&bloom[32 * i..32 * i + 32])),
    };
    // hash[0] is the parent's; the payload wants the oldest first
    let mut hashes: Vec<H256> = arr(&b["hash"]).iter().map(|x| h256(word(x))).collect();
    hashes.reverse();
    (meta, hashes)
}

/// Transactions lo..hi of the block; the last payload also takes the withdrawals.
pub fn payload(b: &Block, lo: usize, hi: usize, last: bool) -> GenerationInputs<F> {
    let start = if lo == 0 { &b.pre } else { &b.after[lo] };
    let end = if last { &b.end } else { &b.after[hi] };
    let (state, storage) = state_trie(start);
    let mut codes: HashMap<H256, Vec<u8>> = start.values().map(|a| (keccak(&*a.code), a.code.to_vec())).collect();
    codes.insert(keccak([]), vec![]);
    GenerationInputs {
        txn_number_before: lo.into(),
        gas_used_before: b.cum[lo].into(),
        gas_used_after: b.cum[hi].into(),
        signed_txns: b.txs[lo..hi].to_vec(),
        burn_addr: None,
        withdrawals: if last { b.wds.clone() } else { vec![] },
        tries: TrieInputs {
            state_trie: state,
            transactions_trie: indexed_trie(&b.txs[..lo]),
            receipts_trie: indexed_trie(&b.receipts[..lo]),
            storage_tries: storage,
        },
        trie_roots_after: TrieRoots {
            state_root: state_trie(end).0.hash(),
            transactions_root: indexed_trie(&b.txs[..hi]).hash(),
            receipts_root: indexed_trie(&b.receipts[..hi]).hash(),
        },
        checkpoint_state_trie_root: H256::repeat_byte(0x77),
        checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
        contract_code: codes,
        block_metadata: b.meta.clone(),
        block_hashes: BlockHashes { prev_hashes: b.hashes.clone(), cur_hash: b.cur },
        ger_data: None,
    }
}

pub fn runs(inputs: &GenerationInputs<F>) -> Result<(), String> {
    match catch(|| simulate_execution(inputs.clone())) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// What the kernel computed instead, in terms of the accounts and receipts of the block.
fn diagnose(b: &Block, inputs: &GenerationInputs<F>, hi: usize, last: bool) -> String {
    let end = if last { &b.end } else { &b.after[hi] };
    let res = catch(|| {
        for s in SegmentDataIterator::<F>::new(inputs, Some(20)) {
            if let Err(e) = s {
                return Some(e);
            }
        }
        None
    });
    let e = match res {
        Ok(Some(e)) => e,
        Ok(None) => return "accepted when run in segments".into(),
        Err(p) => return format!("panic: {p}"),
    };
    let Some(tries) = e.tries else { return "no tries".into() };
    let mut out = vec![];
    let show = |x: Option<&[u8]>| match x {
        None => "absent".to_string(),
        Some(x) => {
            let r = rlp::Rlp::new(x);
            let get = |i: usize| r.at(i).and_then(|x| x.as_val::<U256>()).unwrap_or_default();
            format!("nonce {} balance {} storage {:.8} code {:.8}", get(0), get(1),
                r.at(2).map(|x| hex::encode(x.data().unwrap_or(&[]))).unwrap_or_default(),
                r.at(3).map(|x| hex::encode(x.data().unwrap_or(&[]))).unwrap_or_default())
        }
    };
    let (want, _) = state_trie(end);
    let mut addrs: Vec<Address> = b.pre.keys().chain(end.keys()).chain(b.after.iter().flat_map(|w| w.keys())).copied().collect();
    addrs.sort();
    addrs.dedup();
    // the state is only written back after the gas and receipts were found right
    let back = addrs.iter().any(|a| tries.state_trie.get(key_of(a.as_bytes())).is_some());
    for a in addrs.into_iter().filter(|_| back) {
        let k = key_of(a.as_bytes());
        let (w, g) = (want.get(k), tries.state_trie.get(k));
        if w != g {
            out.push(format!("account {a:?}: expected {}, got {}", show(w), show(g)));
        }
    }
    if want.hash() != tries.state_trie.hash() && out.is_empty() {
        let known: Vec<Nibbles> = want.keys().collect();
        for k in tries.state_trie.keys() {
            if !known.contains(&k) {
                out.push(format!("unexpected account with key {k:x}: {}", show(tries.state_trie.get(k))));
            }
        }
    }
    for i in 0..hi {
        let got = tries.receipt_trie.get(index_key(i));
        if got != Some(&b.receipts[i][..]) {
            let dec = |x: &[u8]| {
                let x = if x.first().map_or(false, |c| *c < 4) { &x[1..] } else { x };
                let r = rlp::Rlp::new(x);
                format!("status {} cumulative gas {} logs {:?}", r.val_at::<u64>(0).unwrap_or(99), r.val_at::<u64>(1).unwrap_or(0),
                    r.at(3).map(|l| hex::encode(l.as_raw()).chars().take(2600).collect::<String>()).unwrap_or_default())
            };
            out.insert(0, format!("receipt {i}: expected {}, got {}", dec(&b.receipts[i]), got.map(dec).unwrap_or("none".into())));
            break;
        }
    }
    if tries.transaction_trie.hash() != inputs.trie_roots_after.transactions_root {
        out.push("transaction trie differs".into());
    }
    out.truncate(6);
    out.join("; ")
}

fn accept(b: &Block, lo: usize, hi: usize, last: bool) -> R {
    let inputs = payload(b, lo, hi, last);
    runs(&inputs).map_err(|e| {
        let d = catch(|| diagnose(b, &inputs, hi, last)).unwrap_or_else(|p| format!("diagnosis: {p}"));
        format!("transactions {lo}..{hi} of {}: not accepted with the specification's outcome ({:.120}): {d}", b.txs.len(), e)
    })
}

/// Execute each block in one payload.
pub fn exec(path: &str) -> Report {
    let cases = read_emitted(path);
    let mut r = Report::default();
    r.run1(&cases, |c| {
        let b = block(c);
        accept(&b, 0, b.txs.len(), true)?;
        Ok(b.txs.len() + 3)
    });
    r.extra.insert("transactions".into(), json!(cases.iter().map(|c| arr(&c["txs"]).len()).sum::<usize>()));
    r
}

/// Execute each block in payloads: every range of transactions that a cut of the block can
/// yield (the empty ones too), each with the state, tries, counters and claims at its ends.
pub fn cuts(path: &str) -> Report {
    let cases = read_emitted(path);
    let mut r = Report::default();
    r.run1(&cases, |c| {
        let b = block(c);
        let n = b.txs.len();
        let mut checks = 0;
        for lo in 0..=n {
            for hi in lo..=n {
                if n > 5 && hi - lo > 2 && lo > 0 && hi < n {
                    continue;
                }
                accept(&b, lo, hi, false)?;
                checks += 1;
            }
            accept(&b, lo, n, true)?;
            checks += 1;
        }
        Ok(checks)
    });
    r
}

fn numbered(v: &Value, enc: impl Fn(&Value) -> Vec<u8>) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::new(Node::Empty);
    for x in arr(v) {
        t.insert(index_key(u(&x[0]) as usize), enc(&x[1])).unwrap();
    }
    t
}

/// A payload of the specification with its claims.
fn claimed(v: &Value) -> GenerationInputs<F> {
    let (p, c) = (&v["pay"], &v["claim"]);
    let pre = world(&p["pre"]);
    let (mut state, mut storage) = state_trie(&pre);
    let _ = &mut state;
    let mut codes: HashMap<H256, Vec<u8>> = pre.values().map(|a| (keccak(&*a.code), a.code.to_vec())).collect();
    codes.insert(keccak([]), vec![]);
    let supply = arr(&p["supply"]);
    match supply.first().and_then(|x| x.as_str()) {
        Some("code") => {
            codes.insert(keccak(&*pre[&addr(&supply[1])].code), bytes(&supply[2]));
        }
        Some("slot") => {
            let a = addr(&supply[1]);
            let mut st = pre[&a].st.clone();
            let val = word(&supply[3]);
            if val.is_zero() {
                st.remove(&word(&supply[2]));
            } else {
                st.insert(word(&supply[2]), val);
            }
            storage.iter_mut().find(|x| x.0 == keccak(a.as_bytes())).unwrap().1 = storage_trie(&st);
        }
        _ => {}
    }
    let (meta, hashes) = header(&p["blk"], arr(&p["txs"]), u(&c["gas"]), &[0; 256]);
    let end = world(&c["w"]);
    GenerationInputs {
        txn_number_before: u(&p["n0"]).into(),
        gas_used_before: u(&p["gas0"]).into(),
        gas_used_after: u(&c["gas"]).into(),
        signed_txns: arr(&p["txs"]).iter().map(signed).collect(),
        burn_addr: None,
        withdrawals: withdrawals(&p["wds"]),
        tries: TrieInputs {
            state_trie: state,
            transactions_trie: numbered(&p["prevtx"], signed),
            receipts_trie: numbered(&p["prevrec"], |r| receipt(r).0),
            storage_tries: storage,
        },
        trie_roots_after: TrieRoots {
            state_root: state_trie(&end).0.hash(),
            transactions_root: numbered(&c["txs"], signed).hash(),
            receipts_root: numbered(&c["recs"], |r| receipt(r).0).hash(),
        },
        checkpoint_state_trie_root: H256::repeat_byte(0x77),
        checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
        contract_code: codes,
        block_metadata: meta,
        block_hashes: BlockHashes { prev_hashes: hashes, cur_hash: H256::repeat_byte(0xc4) },
        ger_data: None,
    }
}

/// Payloads with true and with falsified claims: accepted exactly when the specification
/// says that the payload yields its claims.
pub fn claims(path: &str) -> Report {
    let cases = read_emitted(path);
    let mut r = Report::default();
    let mut n: BTreeMap<bool, usize> = BTreeMap::new();
    for c in &cases {
        *n.entry(c["accept"].as_bool().unwrap()).or_default() += 1;
    }
    r.run1(&cases, |c| {
        let inputs = claimed(c);
        match (c["accept"].as_bool().unwrap(), runs(&inputs)) {
            (true, Err(e)) => Err(format!("{}: a payload with true claims was not accepted: {e:.200}", c["mut"])),
            (false, Ok(())) => Err(format!("{}: a payload with a false claim was accepted", c["mut"])),
            _ => Ok(1),
        }
    });
    r.extra.insert("true_claims".into(), json!(n.get(&true)));
    r.extra.insert("false_claims".into(), json!(n.get(&false)));
    r
}
