//! Replays of the Traces specification in the trace decoder: each emitted block, with what a
//! tracer reports about it, goes through `entrypoint` in several forms of pre-image and with
//! every batch size.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use ethereum_types::{Address, H256, U256};
use evm_arithmetization::generation::GenerationInputs;
use evm_arithmetization::proof::BlockHashes;
use evm_arithmetization::EMPTY_CONSOLIDATED_BLOCKHASH;
use keccak_hash::keccak;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use serde_json::{json, Value};
use trace_decoder::observer::DummyObserver;
use trace_decoder::*;

use crate::ensure;
use crate::evm::*;
use crate::mpt::unnib;
use crate::util::*;

type T = HashedPartialTrie;
type Keys = Vec<Vec<u8>>;
fn arc(t: T) -> Arc<Box<T>> {
    Arc::new(Box::new(t))
}

fn path(bytes: &[u8]) -> Vec<u8> {
    keccak(bytes).0.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

// ---------------------------------------------------------------------------
// Pruned pre-images: what leads to some keys, and what lies next to it.

fn hidden(n: &T) -> T {
    match **n {
        Node::Empty | Node::Hash(_) => n.clone(),
        _ => T::new(Node::Hash(n.hash())),
    }
}
/// A node with its children hidden.
fn opened(n: &T) -> T {
    match &**n {
        Node::Branch { children, value } => T::new(Node::Branch {
            children: std::array::from_fn(|i| arc(hidden(&children[i]))),
            value: value.clone(),
        }),
        // what an extension leads to shows which kind of node it is
        Node::Extension { nibbles, child } => T::new(Node::Extension { nibbles: *nibbles, child: arc(opened(child)) }),
        _ => n.clone(),
    }
}
/// Keep what leads to the keys; beside it the nodes that a removal on the way would merge.
fn prune(n: &T, keys: &[&[u8]]) -> T {
    if keys.is_empty() {
        return opened(n);
    }
    match &**n {
        Node::Branch { children, value } => T::new(Node::Branch {
            children: std::array::from_fn(|i| {
                let ks: Vec<&[u8]> = keys.iter().filter(|k| k[0] as usize == i).map(|k| &k[1..]).collect();
                arc(prune(&children[i], &ks))
            }),
            value: value.clone(),
        }),
        Node::Extension { nibbles, child } => {
            let x = unnib(nibbles);
            let ks: Vec<&[u8]> = keys.iter().filter(|k| k.starts_with(&x)).map(|k| &k[x.len()..]).collect();
            T::new(Node::Extension { nibbles: *nibbles, child: arc(prune(child, &ks)) })
        }
        _ => n.clone(),
    }
}

// ---------------------------------------------------------------------------
// The compact form.

fn cbor_head(out: &mut Vec<u8>, major: u8, n: u64) {
    match n {
        0..=23 => out.push(major << 5 | n as u8),
        24..=255 => out.extend([major << 5 | 24, n as u8]),
        256..=65535 => {
            out.push(major << 5 | 25);
            out.extend((n as u16).to_be_bytes());
        }
        65536..=4294967295 => {
            out.push(major << 5 | 26);
            out.extend((n as u32).to_be_bytes());
        }
        _ => {
            out.push(major << 5 | 27);
            out.extend(n.to_be_bytes());
        }
    }
}
fn cbor_bytes(out: &mut Vec<u8>, b: &[u8]) {
    cbor_head(out, 2, b.len() as u64);
    out.extend(b);
}
fn compact_key(out: &mut Vec<u8>, k: &[u8]) {
    let mut b = vec![];
    if k.len() == 1 {
        b.push(k[0]);
    } else {
        b.push((k.len() % 2) as u8);
        for c in k.chunks(2) {
            b.push(c[0] << 4 | c.get(1).copied().unwrap_or(0));
        }
    }
    cbor_bytes(out, &b);
}
fn compact_node(out: &mut Vec<u8>, n: &T, leaf: &dyn Fn(&mut Vec<u8>, &[u8], &[u8], &[u8]), at: &[u8]) {
    match &**n {
        Node::Empty => out.push(6),
        Node::Hash(h) => {
            out.push(3);
            out.extend(h.as_bytes());
        }
        Node::Branch { children, .. } => {
            let mut mask = 0;
            for (i, c) in children.iter().enumerate() {
                if !matches!(****c, Node::Empty) {
                    mask |= 1 << i;
                    compact_node(out, c, leaf, &[at, &[i as u8]].concat());
                }
            }
            out.push(2);
            cbor_head(out, 0, mask);
        }
        Node::Extension { nibbles, child } => {
            let x = unnib(nibbles);
            compact_node(out, child, leaf, &[at, &x].concat());
            out.push(1);
            compact_key(out, &x);
        }
        Node::Leaf { nibbles, value } => {
            let x = unnib(nibbles);
            leaf(out, &x, value, &[at, &x].concat());
        }
    }
}
fn storage_leaf(out: &mut Vec<u8>, k: &[u8], v: &[u8], _: &[u8]) {
    out.push(0);
    compact_key(out, k);
    cbor_bytes(out, &rlp::decode::<Vec<u8>>(v).unwrap());
}
/// `codes`: by hash, those given in the clear; `storage` by hashed address.
pub fn compact(state: &T, storage: &BTreeMap<H256, T>, codes: &BTreeMap<H256, Vec<u8>>) -> Vec<u8> {
    let mut out = vec![1];
    let leaf = |out: &mut Vec<u8>, k: &[u8], v: &[u8], full: &[u8]| {
        let r = rlp::Rlp::new(v);
        let (n, b) = (r.val_at::<u64>(0).unwrap(), r.val_at::<U256>(1).unwrap());
        let root = H256::from_slice(&r.val_at::<Vec<u8>>(2).unwrap());
        let code = H256::from_slice(&r.val_at::<Vec<u8>>(3).unwrap());
        let mut flags = 0;
        if code != keccak([]) {
            flags |= 1;
            match codes.get(&code) {
                Some(c) => {
                    out.push(4);
                    cbor_bytes(out, c);
                }
                None => {
                    out.push(3);
                    out.extend(code.as_bytes());
                }
            }
        }
        if root != T::new(Node::Empty).hash() {
            flags |= 2;
            let ha = H256::from_slice(&full.chunks(2).map(|c| c[0] << 4 | c[1]).collect::<Vec<u8>>());
            match storage.get(&ha) {
                Some(t) => compact_node(out, t, &storage_leaf, &[]),
                None => {
                    out.push(3);
                    out.extend(root.as_bytes());
                }
            }
        }
        flags |= if n > 0 { 4 } else { 0 } | if !b.is_zero() { 8 } else { 0 };
        out.push(5);
        compact_key(out, k);
        out.push(flags);
        if n > 0 {
            cbor_head(out, 0, n);
        }
        if !b.is_zero() {
            let mut x = [0; 32];
            b.to_big_endian(&mut x);
            let z = x.iter().take_while(|c| **c == 0).count();
            cbor_bytes(out, &x[z..]);
        }
        if flags & 1 != 0 {
            cbor_head(out, 0, codes.get(&code).map_or(0, |c| c.len()) as u64);
        }
    };
    compact_node(&mut out, state, &leaf, &[]);
    out
}

// ---------------------------------------------------------------------------
// Block traces.

struct Given {
    b: Block,
    infos: Vec<TxnInfo>,
    /// slots named per account, all transactions together
    named: BTreeMap<Address, BTreeSet<U256>>,
    codes: BTreeSet<Vec<u8>>,
    fake: bool,
}
const BEACON: [u8; 20] = hex_literal::hex!("000F3df6D732807Ef1319fB7B8bB8522d0Beac02");

fn given(v: &Value) -> Given {
    let b = block(v);
    let mut named: BTreeMap<Address, BTreeSet<U256>> = BTreeMap::new();
    let mut codes = BTreeSet::new();
    let time = b.meta.block_timestamp;
    let ring: U256 = 8191.into();
    named.insert(Address::from(BEACON), [time % ring, time % ring + ring].into());
    for (a, _) in &b.wds {
        named.entry(*a).or_default();
    }
    let infos = arr(&v["traces"])
        .iter()
        .enumerate()
        .map(|(i, rs)| TxnInfo {
            traces: arr(rs)
                .iter()
                .map(|r| {
                    let a = addr(&r["a"]);
                    let slot = |x: &Value| h(word(x));
                    let t = TxnTrace {
                        balance: arr(&r["b"]).first().map(word),
                        nonce: arr(&r["n"]).first().map(|x| nonce(x).into()),
                        storage_read: arr(&r["r"]).iter().map(slot).collect(),
                        storage_written: arr(&r["w"]).iter().map(|kv| (slot(&kv[0]), word(&kv[1]))).collect(),
                        code_usage: arr(&r["c"]).first().map(|k| {
                            let c = bytes(&r["c"][1]);
                            if k == "read" {
                                codes.insert(c.clone());
                                ContractCodeUsage::Read(keccak(&c))
                            } else {
                                ContractCodeUsage::Write(c)
                            }
                        }),
                        self_destructed: r["d"].as_bool().unwrap(),
                    };
                    let e = named.entry(a).or_default();
                    e.extend(arr(&r["r"]).iter().map(word));
                    e.extend(arr(&r["w"]).iter().map(|kv| word(&kv[0])));
                    (a, t)
                })
                .collect(),
            meta: TxnMeta {
                byte_code: b.txs[i].clone(),
                new_receipt_trie_node_byte: if b.receipts[i][0] < 4 { rlp::encode(&b.receipts[i]).to_vec() } else { b.receipts[i].clone() },
                gas_used: b.cum[i + 1] - b.cum[i],
            },
        })
        .collect();
    Given { b, infos, named, codes, fake: v["fake"] != "none" }
}
fn h(x: U256) -> H256 {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    H256(b)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Direct,
    DirectPruned,
    Compact,
    CompactPruned,
}
const FORMS: [Form; 4] = [Form::Direct, Form::CompactPruned, Form::Compact, Form::DirectPruned];

fn trace(g: &Given, form: Form) -> BlockTrace {
    let (mut state, storage) = state_trie(&g.b.pre);
    let mut storage: BTreeMap<H256, T> = storage.into_iter().collect();
    if matches!(form, Form::DirectPruned | Form::CompactPruned) {
        let keys: Keys = g.named.keys().map(|a| path(a.as_bytes())).collect();
        state = prune(&state, &keys.iter().map(|k| &k[..]).collect::<Vec<_>>());
        let mut st = BTreeMap::new();
        for (a, slots) in &g.named {
            if let Some(t) = storage.get(&keccak(a)) {
                let keys: Keys = slots.iter().map(|k| path(h(*k).as_bytes())).collect();
                st.insert(keccak(a), prune(t, &keys.iter().map(|k| &k[..]).collect::<Vec<_>>()));
            }
        }
        storage = st;
    }
    let trie_pre_images = match form {
        Form::Direct | Form::DirectPruned => BlockTraceTriePreImages::Separate(SeparateTriePreImages {
            state: SeparateTriePreImage::Direct(state),
            storage: SeparateStorageTriesPreImage::MultipleTries(
                storage.into_iter().map(|(k, t)| (k, SeparateTriePreImage::Direct(t))).collect(),
            ),
        }),
        Form::Compact | Form::CompactPruned => {
            let codes = g.b.pre.iter().filter(|(a, _)| form == Form::Compact || g.named.contains_key(*a)).map(|(_, x)| (keccak(&*x.code), x.code.to_vec())).collect();
            BlockTraceTriePreImages::Combined(CombinedPreImages { compact: compact(&state, &storage, &codes) })
        }
    };
    let code_db = match form {
        Form::Direct | Form::DirectPruned => g.codes.clone(),
        _ => BTreeSet::new(),
    };
    BlockTrace { trie_pre_images, code_db, txn_info: g.infos.clone() }
}
fn other(g: &Given) -> OtherBlockData {
    OtherBlockData {
        b_data: BlockLevelData {
            b_meta: g.b.meta.clone(),
            b_hashes: BlockHashes { prev_hashes: g.b.hashes.clone(), cur_hash: g.b.cur },
            withdrawals: g.b.wds.iter().map(|(a, x)| (*a, x / U256::from(1_000_000_000u64))).collect(),
        },
        checkpoint_state_trie_root: H256::repeat_byte(0x77),
        checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
        burn_addr: None,
        ger_data: None,
    }
}
fn decoded(g: &Given, form: Form, hint: usize) -> Result<Vec<GenerationInputs<F>>, String> {
    let t = trace(g, form);
    let o = other(g);
    match catch(|| entrypoint(t, o, hint, &mut DummyObserver::new(), WireDisposition::Type1)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Ends of the payloads, counted in transactions, as their contents say.
fn ends(ps: &[GenerationInputs<F>]) -> Vec<(usize, usize)> {
    let mut at = 0;
    ps.iter()
        .map(|p| {
            let lo = at;
            at += p.signed_txns.len();
            (lo, at)
        })
        .collect()
}

/// D01: contents and continuity.
fn chained(g: &Given, hint: usize, ps: &[GenerationInputs<F>]) -> R<usize> {
    let n = g.b.txs.len();
    ensure!(ps.len() >= 2, "{} payloads", ps.len());
    let all: Vec<&Vec<u8>> = ps.iter().flat_map(|p| &p.signed_txns).collect();
    ensure!(all == g.b.txs.iter().collect::<Vec<_>>(), "the payloads have {} transactions, not the block's {n} in order", all.len());
    let (mut prev_state, mut prev_txn, mut prev_rec) = (state_trie(&g.b.pre).0.hash(), T::new(Node::Empty).hash(), T::new(Node::Empty).hash());
    for (k, (p, (lo, hi))) in ps.iter().zip(ends(ps)).enumerate() {
        ensure!(hi - lo <= hint, "payload {k} has {} transactions, more than {hint}", hi - lo);
        ensure!(p.txn_number_before == lo.into(), "payload {k}: number before is {}, not {lo}", p.txn_number_before);
        ensure!(p.gas_used_before == g.b.cum[lo].into(), "payload {k}: gas before is {}, not {}", p.gas_used_before, g.b.cum[lo]);
        ensure!(p.gas_used_after == g.b.cum[hi].into(), "payload {k}: gas after is {}, not {}", p.gas_used_after, g.b.cum[hi]);
        let w = if k + 1 == ps.len() { &g.b.wds[..] } else { &[] };
        ensure!(p.withdrawals == w, "payload {k} of {}: withdrawals {:?}, not {w:?}", ps.len(), p.withdrawals);
        ensure!(p.tries.state_trie.hash() == prev_state, "payload {k} does not start from the state the previous ended in");
        ensure!(p.tries.transactions_trie.hash() == prev_txn, "payload {k} does not start from the previous transaction trie");
        ensure!(p.tries.receipts_trie.hash() == prev_rec, "payload {k} does not start from the previous receipt trie");
        (prev_state, prev_txn, prev_rec) = (p.trie_roots_after.state_root, p.trie_roots_after.transactions_root, p.trie_roots_after.receipts_root);
        let o = other(g);
        ensure!(
            p.block_metadata == o.b_data.b_meta && p.block_hashes.prev_hashes == o.b_data.b_hashes.prev_hashes
                && p.block_hashes.cur_hash == o.b_data.b_hashes.cur_hash
                && p.checkpoint_state_trie_root == o.checkpoint_state_trie_root
                && p.checkpoint_consolidated_hash == o.checkpoint_consolidated_hash && p.burn_addr.is_none() && p.ger_data.is_none(),
            "payload {k}: block data differ"
        );
    }
    Ok(ps.len() * 8 + 2)
}

/// D02: the roots after each payload are those of the world the reports describe.
fn rooted(g: &Given, ps: &[GenerationInputs<F>]) -> R<usize> {
    for (k, (p, (_, hi))) in ps.iter().zip(ends(ps)).enumerate() {
        let w = if k + 1 == ps.len() { &g.b.end } else { &g.b.after[hi] };
        ensure!(p.trie_roots_after.state_root == state_trie(w).0.hash(), "payload {k} of {} (after {hi} transactions): state root after it is not that of the described state", ps.len());
        ensure!(p.trie_roots_after.transactions_root == indexed_trie(&g.b.txs[..hi]).hash(), "payload {k}: transaction root after {hi} transactions");
        ensure!(p.trie_roots_after.receipts_root == indexed_trie(&g.b.receipts[..hi]).hash(), "payload {k}: receipt root after {hi} transactions");
    }
    Ok(3 * ps.len())
}

/// D03: the kernel can run each payload with the parts that it has.
fn sufficient(g: &Given, ps: &[GenerationInputs<F>]) -> R<usize> {
    for (k, (p, (lo, hi))) in ps.iter().zip(ends(ps)).enumerate() {
        let w = if lo == 0 && k == 0 { &g.b.pre } else { &g.b.after[lo] };
        let want = state_trie(w).0.hash();
        ensure!(p.tries.state_trie.hash() == want, "payload {k}: the partial state trie does not have the root of the state before it");
        for (ha, t) in &p.tries.storage_tries {
            if let Some((_, x)) = w.iter().find(|(a, _)| keccak(a) == *ha) {
                ensure!(t.hash() == storage_trie(&x.st).hash(), "payload {k}: a partial storage trie has another root than the account's storage");
            }
        }
        ensure!(p.tries.transactions_trie.hash() == indexed_trie(&g.b.txs[..lo]).hash(), "payload {k}: partial transaction trie has another root");
        ensure!(p.tries.receipts_trie.hash() == indexed_trie(&g.b.receipts[..lo]).hash(), "payload {k}: partial receipt trie has another root");
        runs(p).map_err(|e| format!("payload {k} of {} (transactions {lo}..{hi}) does not run with what it contains: {e:.300}", ps.len()))?;
    }
    Ok(ps.len() * 4)
}

pub fn run(file: &str, what: &str) -> Report {
    let mut cases = read_emitted(file);
    if what != "roots" {
        cases.retain(|c| c["fake"] == "none");
    }
    let mut r = Report::default();
    r.run1(&cases, |c| {
        let g = given(c);
        let id = u(&c["id"]) as usize;
        let mut checks = 0;
        for hint in 1..=g.b.txs.len() + 1 {
            for (f, form) in FORMS.into_iter().enumerate() {
                if what == "run" && (id + hint) % 4 != f || g.fake && (id + hint) % 2 != f % 2 {
                    continue;
                }
                let ps = match decoded(&g, form, hint) {
                    Ok(x) => x,
                    Err(_) if g.fake => continue,
                    Err(e) => return Err(format!("{form:?}, batches of {hint}: refused: {e:.300}")),
                };
                checks += match what {
                    "chain" => chained(&g, hint, &ps),
                    "roots" => rooted(&g, &ps),
                    _ => sufficient(&g, &ps),
                }
                .map_err(|e| format!("{form:?}, batches of {hint}, {} transactions: {e}", g.b.txs.len()))?;
            }
        }
        Ok(checks)
    });
    r.extra.insert("falsified".into(), json!(cases.iter().filter(|c| c["fake"] != "none").count()));
    r
}
