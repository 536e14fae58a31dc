//! Histories of the memory (Memory.tla) against the constraints of the memory table:
//! honest tables of legal histories hold and carry over what they must, and no table at all
//! over small sets of rows makes an illegal history, or a wrong carry, acceptable.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use ethereum_types::U256;
use evm_arithmetization::verif_hooks as hk;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use serde_json::{json, Value};

use crate::ensure;
use crate::tables::*;
use crate::util::*;

type Addr = [usize; 3];

fn cell(v: &Value) -> Addr {
    let name = st(&v["seg"]);
    let seg = hk::segment(name).unwrap_or_else(|| tool_error(&format!("no memory segment {name}")));
    [u(&v["ctx"]) as usize, seg, u(&v["virt"]) as usize]
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| tool_error(&format!("not a number: {v}")))
}
/// The word that stands for a value: it differs from the others only in limb k.
fn word(v: i64, k: usize) -> U256 {
    U256::from(v as u64) << (32 * k)
}
fn fu(x: usize) -> F {
    F::from_canonical_usize(x)
}

#[derive(Clone, Debug)]
struct Op {
    at: usize,
    write: bool,
    value: i64,
}
struct Case {
    layout: Vec<Addr>,
    before: Vec<i64>,
    pruned: Vec<usize>,
    ops: Vec<Op>,
    legal: bool,
    cell: Vec<i64>,
    touched: BTreeSet<usize>,
    must: BTreeSet<usize>,
}
fn case(c: &Value) -> Case {
    let set = |v: &Value| arr(v).iter().map(|x| u(x) as usize - 1).collect::<BTreeSet<_>>();
    Case {
        layout: arr(&c["layout"]).iter().map(cell).collect(),
        before: arr(&c["before"]).iter().map(int).collect(),
        pruned: arr(&c["pruned"]).iter().map(|x| u(x) as usize).collect(),
        ops: arr(&c["ops"])
            .iter()
            .map(|o| Op { at: u(&o["at"]) as usize - 1, write: o["write"].as_bool().unwrap(), value: int(&o["value"]) })
            .collect(),
        legal: c["legal"].as_bool().unwrap(),
        cell: arr(&c["cell"]).iter().map(int).collect(),
        touched: set(&c["touched"]),
        must: set(&c["must"]),
    }
}

struct Names {
    filter: usize,
    timestamp: usize,
    timestamp_inv: usize,
    is_read: usize,
    address: [usize; 3],
    limbs: Vec<usize>,
    flags: [usize; 3],
    initialize_aux: usize,
    pre: usize,
    pre_aux: usize,
    pre_inv: Option<usize>,
    stale_contexts: usize,
    is_pruned: usize,
    stale_freq: usize,
    is_stale: usize,
    maybe: usize,
    maf: usize,
    range_check: usize,
    counter: usize,
    frequencies: usize,
}
fn columns() -> Names {
    let n = names(MEMORY);
    let g = |s: &str| *n.get(s).unwrap_or_else(|| tool_error(&format!("the memory table has no column {s}")));
    Names {
        filter: g("filter"),
        timestamp: g("timestamp"),
        timestamp_inv: g("timestamp_inv"),
        is_read: g("is_read"),
        address: [g("addr_context"), g("addr_segment"), g("addr_virtual")],
        limbs: (0..8).map(|i| g(&format!("value_limbs[{i}]"))).collect(),
        flags: [g("context_first_change"), g("segment_first_change"), g("virtual_first_change")],
        initialize_aux: g("initialize_aux"),
        pre: g("preinitialized_segments"),
        pre_aux: g("preinitialized_segments_aux"),
        pre_inv: n.get("preinitialized_segments_inv").copied(),
        stale_contexts: g("stale_contexts"),
        is_pruned: g("is_pruned"),
        stale_freq: g("stale_context_frequencies"),
        is_stale: g("is_stale"),
        maybe: g("maybe_in_mem_after"),
        maf: g("mem_after_filter"),
        range_check: g("range_check"),
        counter: g("counter"),
        frequencies: g("frequencies"),
    }
}

/// What the neighbouring tables see of a memory table.
struct Faces {
    ops: Side,
    before: Side,
    after: Side,
    pruned: Side,
}
fn faces(sys: &System) -> Faces {
    let (mut ops, mut before, mut after, mut pruned) = (None, None, None, None);
    for (k, c) in sys.cross.iter().enumerate() {
        for s in c.looking.iter().chain([&c.looked]).filter(|s| s.table == MEMORY) {
            let others: BTreeSet<usize> = c.looking.iter().chain([&c.looked]).map(|s| s.table).filter(|&t| t != MEMORY).collect();
            if k == hk::MEMORY_CTL {
                ops = Some(s.clone());
            } else if others.contains(&MEM_BEFORE) {
                before = Some(s.clone());
            } else if others.contains(&MEM_AFTER) {
                after = Some(s.clone());
            } else if others.contains(&CPU) {
                pruned = Some(s.clone());
            }
        }
    }
    let e = || tool_error("the memory table is not connected as expected");
    Faces {
        ops: ops.unwrap_or_else(e),
        before: before.unwrap_or_else(e),
        after: after.unwrap_or_else(e),
        pruned: pruned.unwrap_or_else(e),
    }
}

fn address_values(a: &Addr, w: U256) -> Vec<F> {
    let mut r: Vec<F> = a.iter().map(|&x| fu(x)).collect();
    r.extend((0..8).map(|j| F::from_canonical_u32((w >> (32 * j)).low_u32())));
    r
}
fn access_values(write: bool, a: &Addr, w: U256, ts: usize) -> Vec<F> {
    let mut r = vec![F::from_bool(!write)];
    r.extend(address_values(a, w));
    r.push(fu(ts));
    r
}

impl System {
    fn sum_of(&self, tuples: &[Vec<F>]) -> F {
        tuples
            .iter()
            .map(|t| (t.iter().rev().fold(F::ZERO, |r, c| r * self.beta + *c) + self.gamma).inverse())
            .sum()
    }
}

/// Does the table satisfy its constraints, with these accesses, initial values and pruned contexts?
fn accepted(sys: &System, f: &Faces, rows: &Rows, ops: &[Vec<F>], before: &[Vec<F>], pruned: &[usize]) -> R {
    if let Some(i) = sys.violated(MEMORY, rows) {
        return Err(format!("a constraint does not hold on row {i}"));
    }
    if let Some(l) = sys.within_broken(MEMORY, rows) {
        return Err(format!("lookup {l} does not hold"));
    }
    ensure!(sys.side_sum(&f.ops, rows) == sys.sum_of(ops), "the accesses differ");
    ensure!(sys.side_sum(&f.before, rows) == sys.sum_of(before), "the initial values differ");
    let p: Vec<Vec<F>> = pruned.iter().map(|&c| vec![fu(c)]).collect();
    ensure!(sys.side_sum(&f.pruned, rows) == sys.sum_of(&p), "the pruned contexts differ");
    Ok(())
}

/// The first byte of the kernel's code is in every memory: it makes the first row.
fn anchor() -> (Addr, U256) {
    ([0, hk::segment("Code").unwrap(), 0], U256::one())
}
struct Encoded {
    accesses: Vec<hk::Access>,
    before: Vec<(Addr, U256)>,
    op_values: Vec<Vec<F>>,
    before_values: Vec<Vec<F>>,
}
fn encode(c: &Case, k: usize, ts: impl Fn(usize) -> usize) -> Encoded {
    let mut accesses = vec![];
    let mut op_values = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        let (a, w) = (c.layout[o.at], word(o.value, k));
        accesses.push((true, !o.write, ts(i), a, w));
        op_values.push(access_values(o.write, &a, w, ts(i)));
    }
    let mut before: Vec<(Addr, U256)> =
        c.before.iter().enumerate().filter(|(_, &v)| v >= 0).map(|(a, &v)| (c.layout[a], word(v, k))).collect();
    before.push(anchor());
    // The table is always far longer than the gaps between contexts or segments: a real one begins with
    // the accesses of the bootstrapping.
    let filler = hk::segment("ShiftTable").unwrap();
    for i in 0..48 {
        accesses.push((true, true, 1 + i, [0, filler, i], U256::zero()));
        op_values.push(access_values(false, &[0, filler, i], U256::zero(), 1 + i));
    }
    op_values.extend(before.iter().map(|(a, w)| access_values(true, a, *w, 0)));
    let before_values = before.iter().map(|(a, w)| address_values(a, *w)).collect();
    Encoded { accesses, before, op_values, before_values }
}

/// The honest table of a history: it holds exactly if the history is legal, and then carries what it must.
fn honest(sys: &System, f: &Faces, c: &Case, k: usize, gap: usize) -> R<usize> {
    let e = encode(c, k, |i| 1 + i * gap);
    let (cols, carried) = hk::memory_table(&e.accesses, &e.before, &c.pruned);
    let rows = rows(&cols);
    let r = accepted(sys, f, &rows, &e.op_values, &e.before_values, &c.pruned);
    if !c.legal {
        ensure!(r.is_err(), "the table of an illegal history is accepted");
        return Ok(1);
    }
    r.map_err(|e| format!("the table of a legal history is not accepted: {e}"))?;
    let mut must: Vec<Vec<F>> = c.must.iter().map(|&a| address_values(&c.layout[a], word(c.cell[a], k))).collect();
    if !c.pruned.contains(&0) {
        must.push(address_values(&anchor().0, anchor().1));
    }
    ensure!(sys.side_sum(&f.after, &rows) == sys.sum_of(&must), "the table does not carry over what it must");
    let want: BTreeSet<Vec<u64>> = must.iter().map(|r| [F::ONE].iter().chain(r).map(|&x| n(x)).collect()).collect();
    let got: BTreeSet<Vec<u64>> = carried.iter().map(|r| r.iter().map(|&x| n(x)).collect()).collect();
    ensure!(got == want && carried.len() == want.len(), "the rows of the next memory are {got:?} and not {want:?}");
    let mut done = 3;
    // A phantom write that cancels itself out, for a read that saw it.
    if let Some(i) = c.ops.iter().position(|o| !o.write) {
        let o = &c.ops[i];
        let (a, w) = (c.layout[o.at], word(o.value + 1, k));
        let mut forged = c.ops.clone();
        forged[i].value += 1;
        let fc = Case { ops: forged, layout: c.layout.clone(), before: c.before.clone(), pruned: c.pruned.clone(), legal: false, cell: vec![], touched: BTreeSet::new(), must: BTreeSet::new() };
        let g = gap.max(2);
        let mut e = encode(&fc, k, |i| 3 + i * g);
        let t = 3 + i * g - 1;
        e.accesses.push((true, false, t, a, w));
        e.accesses.push((true, false, t, a, w));
        let (cols, _) = hk::memory_table(&e.accesses, &e.before, &c.pruned);
        let mut rs = crate::tables::rows(&cols);
        let nm = columns();
        let tail: Vec<usize> = (0..rs.len()).filter(|&j| rs[j][nm.timestamp] == fu(t) && rs[j][nm.filter] == F::ONE && nm.address.iter().zip(a).all(|(&c, x)| rs[j][c] == fu(x))).collect();
        if tail.len() == 2 {
            rs[tail[1]][nm.filter] = F::NEG_ONE;
            ensure!(
                accepted(sys, f, &rs, &e.op_values, &e.before_values, &c.pruned).is_err(),
                "a write that no one made, counted once positively and once negatively, is accepted"
            );
            done += 1;
        }
    }
    // Contexts that were not pruned, declared stale.
    let nm = columns();
    let contexts: BTreeSet<usize> = c.layout.iter().map(|a| a[0]).collect();
    for ctx in contexts {
        if c.pruned.contains(&ctx) {
            continue;
        }
        for way in 0..3 {
            let mut rs = rows.clone();
            let of = |r: &Vec<F>| r[nm.address[0]] == fu(ctx);
            let mut count = F::ZERO;
            for r in rs.iter_mut().filter(|r| of(r)) {
                r[nm.is_stale] = F::ONE;
                r[nm.maybe] = F::ZERO;
                r[nm.maf] = F::ZERO;
                if let Some(c) = nm.pre_inv {
                    r[c] = F::ZERO;
                }
                count += F::ONE;
            }
            if count == F::ZERO {
                continue;
            }
            let free: Vec<usize> = (0..rs.len()).filter(|&j| rs[j][nm.stale_contexts] == F::ZERO).collect();
            if free.len() < 2 {
                continue;
            }
            rs[free[0]][nm.stale_contexts] = fu(ctx + 1);
            rs[free[0]][nm.stale_freq] = count;
            if way == 1 {
                rs[free[0]][nm.is_pruned] = F::ONE;
                rs[free[1]][nm.stale_contexts] = fu(ctx + 1);
                rs[free[1]][nm.is_pruned] = F::NEG_ONE;
            }
            if way == 2 {
                rs[free[0]][nm.is_pruned] = F::ONE;
            }
            ensure!(
                accepted(sys, f, &rs, &e.op_values, &e.before_values, &c.pruned).is_err(),
                "context {ctx} counts as stale though it was not pruned (way {way})"
            );
            done += 1;
        }
    }
    Ok(done)
}

pub fn honest_all(path: &str, gap: usize, seed: u64) -> Report {
    let cases = read_emitted(path);
    let sys = system(seed);
    let f = faces(&sys);
    let mut rep = Report::default();
    rep.run(&cases, |v| {
        let c = case(v);
        let h = c.ops.len() + c.before.iter().filter(|&&x| x >= 0).count();
        honest(&sys, &f, &c, h % 8, gap)
    });
    rep
}

// ---- every table over a small universe of rows

#[derive(Clone, Debug)]
struct Row {
    cells: Vec<F>,
    /// 0: a dummy; 1..: an access at that time; -1: an initial value
    role: i8,
    addr: usize,
    write: bool,
    value: i64,
    carried: bool,
    stale: i8,
}

struct Universe {
    rows: Vec<Row>,
    next: Vec<Vec<u16>>,
    first: Vec<bool>,
    last: Vec<bool>,
}

const N: usize = 5;

fn pre_product(seg: usize) -> F {
    ["Code", "TrieData", "AccountsLinkedList", "StorageLinkedList"].iter().map(|s| fu(seg) - fu(hk::segment(s).unwrap())).product()
}
fn pre_pair(seg: usize) -> F {
    ["AccountsLinkedList", "StorageLinkedList"].iter().map(|s| fu(seg) - fu(hk::segment(s).unwrap())).product()
}

/// Can this be made a pair of neighbours? With the cells that only matter for the pair.
fn pair(nm: &Names, alpha: F, a: &[F], b: &[F], at: [bool; 3], size: usize) -> Option<Vec<F>> {
    let seg = n(b[nm.address[1]]) as usize;
    let changed: F = nm.flags.iter().map(|&c| a[c]).sum();
    let pre = pre_product(seg);
    let init = pre * changed * b[nm.is_read];
    let in_range = |x: F| n(x) < size as u64;
    let mut b = b.to_vec();
    b[nm.counter] = a[nm.counter] + F::ONE;
    let b = &b[..];
    if a[nm.flags[0]] + a[nm.flags[1]] != F::ZERO && !in_range(b[nm.address[2]]) {
        return None;
    }
    let options = [[pre_pair(seg), pre, init], [F::ZERO, pre, init], [pre_pair(seg), F::ZERO, F::ZERO], [pre_pair(seg), F::ZERO, init], [pre_pair(seg), pre, F::ZERO]];
    for o in options {
        let mut lv = a.to_vec();
        lv[nm.pre_aux] = o[0];
        lv[nm.pre] = o[1];
        lv[nm.initialize_aux] = o[2];
        lv[nm.range_check] = F::ZERO;
        let e0 = hk::eval(MEMORY, &lv, b, at, alpha);
        lv[nm.range_check] = F::ONE;
        let e1 = hk::eval(MEMORY, &lv, b, at, alpha);
        let slope = e1 - e0;
        let rc = if slope == F::ZERO {
            if e0 != F::ZERO {
                continue;
            }
            F::ZERO
        } else {
            -e0 * slope.inverse()
        };
        if in_range(rc) {
            lv[nm.range_check] = rc;
            return Some(lv);
        }
    }
    None
}

fn universe(sys: &System, nm: &Names, layout: &[Addr], values: i64, ops: usize, k: usize) -> Universe {
    let mut bases = vec![];
    for (ai, a) in layout.iter().enumerate() {
        for v in 0..values {
            for ts in 0..=ops + 1 {
                for write in [false, true] {
                    for real in [false, true] {
                        if (real && ts == ops + 1) || (real && ts == 0 && !write) || (!real && ts == 0) {
                            continue;
                        }
                        let mut r = vec![F::ZERO; hk::widths()[MEMORY]];
                        r[nm.filter] = F::from_bool(real);
                        r[nm.timestamp] = fu(ts);
                        r[nm.timestamp_inv] = fu(ts).try_inverse().unwrap_or_default();
                        r[nm.is_read] = F::from_bool(!write);
                        for j in 0..3 {
                            r[nm.address[j]] = fu(a[j]);
                        }
                        r[nm.limbs[k]] = fu(v as usize);
                        let role = if !real { 0 } else if ts == 0 { -1 } else { ts as i8 };
                        bases.push(Row { cells: r, role, addr: ai, write, value: v, carried: false, stale: 0 });
                    }
                }
            }
        }
    }
    {
        let mut r = bases.iter().find(|b| b.role == -1).unwrap().clone();
        r.role = -2;
        r.value = 1;
        for j in 0..3 {
            r.cells[nm.address[j]] = fu(anchor().0[j]);
        }
        for j in 0..8 {
            r.cells[nm.limbs[j]] = F::from_bool(j == 0);
        }
        bases.push(r);
    }
    let flag_values = [F::ZERO, F::ONE, F::TWO, F::NEG_ONE, fu(3) * F::TWO.inverse()];
    let zero = vec![F::ZERO; hk::widths()[MEMORY]];
    let rows: Vec<Row> = par_map(&bases, |b| {
        let mut out = vec![];
        let pre = pre_product(n(b.cells[nm.address[1]]) as usize).try_inverse().unwrap_or_default();
        for f0 in flag_values {
            for f1 in flag_values {
                for f2 in flag_values {
                    for stale in [0i8, 1, -1, 2] {
                        for maybe in [false, true] {
                            for maf in [false, true] {
                                let mut r = b.clone();
                                r.cells[nm.flags[0]] = f0;
                                r.cells[nm.flags[1]] = f1;
                                r.cells[nm.flags[2]] = f2;
                                r.cells[nm.is_stale] = F::from_noncanonical_i64(stale as i64);
                                r.cells[nm.maybe] = F::from_bool(maybe);
                                r.cells[nm.maf] = F::from_bool(maf);
                                if let Some(c) = nm.pre_inv {
                                    r.cells[c] = pre;
                                }
                                r.carried = maf;
                                r.stale = stale;
                                if hk::eval(MEMORY, &r.cells, &zero, [false; 3], sys.alpha) == F::ZERO {
                                    out.push(r);
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    })
    .concat();
    let ids: Vec<usize> = (0..rows.len()).collect();
    let info = par_map(&ids, |&i| {
        let a = &rows[i].cells;
        let next: Vec<u16> = (0..rows.len()).filter(|&j| pair(nm, sys.alpha, a, &rows[j].cells, [true, false, false], N).is_some()).map(|j| j as u16).collect();
        let first = hk::eval(MEMORY, a, &zero, [false, true, false], sys.alpha) == F::ZERO;
        let last = pair(nm, sys.alpha, a, &zero, [false, false, true], N).is_some();
        (next, first, last)
    });
    Universe {
        next: info.iter().map(|x| x.0.clone()).collect(),
        first: info.iter().map(|x| x.1).collect(),
        last: info.iter().map(|x| x.2).collect(),
        rows,
    }
}

// state: row 16 | ops 3 x 4 | before 2 x 2 | carried 6 x 2 | stale sums 2 x 4 | first row in range 1
type State = u64;
fn op_id(r: &Row, values: i64) -> u64 {
    1 + (r.addr as u64 * values as u64 + r.value as u64) * 2 + r.write as u64
}

struct Space<'a> {
    u: &'a Universe,
    values: i64,
    layout: &'a [Addr],
    pruned: &'a [usize],
}

impl Space<'_> {
    fn enter(&self, s: State, row: usize) -> Option<State> {
        let r = &self.u.rows[row];
        let mut t = (s & !0xffff) | row as u64;
        let mut field = |shift: u32, bits: u32, f: &dyn Fn(u64) -> Option<u64>| -> Option<()> {
            let mask = ((1u64 << bits) - 1) << shift;
            let v = f((t & mask) >> shift)?;
            t = (t & !mask) | (v << shift);
            Some(())
        };
        match r.role {
            0 => {}
            -2 => return None,
            -1 => field(28 + 2 * r.addr as u32, 2, &|v| (v == 0).then_some(1 + r.value as u64))?,
            ts => field(16 + 4 * (ts as u32 - 1), 4, &|v| (v == 0).then(|| op_id(r, self.values)))?,
        }
        if r.carried {
            field(32 + 2 * (r.addr as u32 * 3 + r.value as u32), 2, &|v| Some((v + 1).min(3)))?;
        }
        if r.stale != 0 && !self.pruned.contains(&self.layout[r.addr][0]) {
            // 8 stands for a sum of zero
            let of = self.layout.iter().position(|a| a[0] == self.layout[r.addr][0]).unwrap();
            field(44 + 4 * of as u32, 4, &|v| Some((v as i64 + r.stale as i64).clamp(0, 15) as u64))?;
        }
        Some(t)
    }
    fn start(&self, row: usize) -> State {
        (8 << 44) | (8 << 48) | ((self.u.rows[row].carried as u64) << 52) | row as u64
    }
}

type History = (Vec<u64>, Vec<u64>); // op ids, before values + 1

/// One layout and set of pruned contexts: every table of N rows.
fn explore(sys: &System, f: &Faces, nm: &Names, space: &Space, ops: usize, k: usize, want: &HashMap<History, Case>) -> R<(usize, usize, usize)> {
    let un = space.u;
    let mut layers: Vec<HashMap<State, State>> = vec![HashMap::new()];
    for row in 0..un.rows.len() {
        if un.first[row] && un.rows[row].role == -2 {
            let s = space.start(row);
            layers[0].insert(s, 0);
        }
    }
    let mut cut = 0;
    for l in 1..N {
        let mut next = HashMap::new();
        for &s in layers[l - 1].keys() {
            // Never reached while the constraints are as tight as they should be.
            if next.len() > 300_000 {
                cut += 1;
                continue;
            }
            for &j in &un.next[(s & 0xffff) as usize] {
                if let Some(t) = space.enter(s, j as usize) {
                    next.entry(t).or_insert(s);
                }
            }
        }
        layers.push(next);
    }
    let total = layers.iter().map(|l| l.len()).sum();
    let mut complete = 0;
    let mut suspects = 0;
    for &s in layers[N - 1].keys() {
        let row = (s & 0xffff) as usize;
        if !un.last[row] || (s >> 44) & 0xff != 0x88 {
            continue;
        }
        let ids: Vec<u64> = (0..3).map(|i| s >> (16 + 4 * i) & 15).collect();
        let len = ids.iter().position(|&x| x == 0).unwrap_or(3);
        if ids[len..].iter().any(|&x| x != 0) || len > ops {
            continue;
        }
        let h: History = (ids[..len].to_vec(), (0..2).map(|a| s >> (28 + 2 * a) & 3).collect());
        let Some(c) = want.get(&h) else { continue };
        complete += 1;
        let mut wrong = None;
        if !space.pruned.contains(&0) && s >> 52 & 1 == 0 {
            wrong = Some("a history without carrying over the kernel's code".to_string());
        }
        if !c.legal {
            wrong = Some("an illegal history".to_string());
        } else {
            for a in 0..2usize {
                let counts: Vec<u64> = (0..3).map(|v| s >> (32 + 2 * (a as u32 * 3 + v)) & 3).collect();
                for (v, &m) in counts.iter().enumerate() {
                    let right = c.touched.contains(&a) && c.cell[a] == v as i64;
                    if m > right as u64 {
                        wrong = Some(format!("a history with {v} carried over for cell {a}"));
                    }
                }
                if c.must.contains(&a) && counts.iter().sum::<u64>() == 0 {
                    wrong = Some(format!("a history with nothing carried over for cell {a}"));
                }
            }
        }
        let Some(what) = wrong else { continue };
        suspects += 1;
        if suspects > 200 {
            continue;
        }
        // Put the table together and judge it as a whole.
        let mut path = vec![s];
        for l in (1..N).rev() {
            let p = layers[l][path.last().unwrap()];
            path.push(p);
        }
        path.reverse();
        let mut rs: Rows = path.iter().map(|s| un.rows[(s & 0xffff) as usize].cells.clone()).collect();
        for i in 0..N {
            let at = [i < N - 1, i == 0, i == N - 1];
            if let Some(r) = pair(nm, sys.alpha, &rs[i], &rs[(i + 1) % N].clone(), at, N) {
                rs[i] = r;
            }
        }
        for &p in space.pruned {
            if p < N {
                rs[p][nm.stale_contexts] = fu(p + 1);
                rs[p][nm.is_pruned] = F::ONE;
            }
        }
        for i in 0..N {
            rs[i][nm.counter] = fu(i);
        }
        for i in 0..N {
            let x = n(rs[i][nm.range_check]) as usize;
            if x < N {
                rs[x][nm.frequencies] += F::ONE;
            }
            let w = rs[i][nm.flags[0]] + rs[i][nm.flags[1]];
            let v = n(rs[(i + 1) % N][nm.address[2]]) as usize;
            if v < N {
                rs[v][nm.frequencies] += w;
            }
            let st = rs[i][nm.is_stale];
            let ctx = n(rs[i][nm.address[0]]) as usize;
            if ctx < N {
                rs[ctx][nm.stale_freq] += st;
            }
        }
        let mut e = encode(c, k, |i| i + 1);
        e.op_values.drain(c.ops.len()..c.ops.len() + 48);
        if accepted(sys, f, &rs, &e.op_values, &e.before_values, space.pruned).is_ok() {
            let show: Vec<String> = path
                .iter()
                .map(|s| {
                    let r = &un.rows[(s & 0xffff) as usize];
                    format!("{} {} {}:={}{}", match r.role { 0 => "dummy".into(), -2 => "code".into(), -1 => "initial".into(), t => format!("t{t}") }, if r.write { "W" } else { "R" }, r.addr, r.value, if r.carried { " carried" } else { "" })
                })
                .collect();
            return Err(format!(
                "the table accepts {what}: cells {:?}, initial {:?}, pruned {:?}, accesses {:?}; rows {show:?}",
                c.layout, c.before, c.pruned, c.ops
            ));
        }
    }
    Ok((total, complete, cut))
}

pub fn explore_all(path: &str, seed: u64) -> Report {
    let cases = read_emitted(path);
    let sys = system(seed);
    let f = faces(&sys);
    let nm = columns();
    let mut groups: BTreeMap<String, Vec<Case>> = BTreeMap::new();
    let (mut values, mut ops) = (0, 0);
    for v in &cases {
        let c = case(v);
        values = values.max(1 + c.ops.iter().map(|o| o.value).chain(c.before.iter().copied()).max().unwrap_or(0));
        ops = ops.max(c.ops.len());
        groups.entry(v["layout"].to_string()).or_default().push(c);
    }
    let mut rep = Report::default();
    let (mut states, mut tables, mut cut) = (0, 0, 0);
    let mut sizes = vec![];
    for (g, (_, cs)) in groups.into_iter().enumerate() {
        let layout = cs[0].layout.clone();
        let k = (g + seed as usize) % 8;
        let un = universe(&sys, &nm, &layout, values, ops, k);
        sizes.push(un.rows.len());
        let mut by: BTreeMap<Vec<usize>, HashMap<History, Case>> = BTreeMap::new();
        for c in cs {
            let ids = c.ops.iter().map(|o| 1 + (o.at as u64 * values as u64 + o.value as u64) * 2 + o.write as u64).collect();
            let b = c.before.iter().map(|&v| (v + 1) as u64).collect();
            by.entry(c.pruned.clone()).or_default().insert((ids, b), c);
        }
        let jobs: Vec<_> = by.into_iter().collect();
        let res = par_map1(&jobs, |(pruned, want)| {
            guard(|| explore(&sys, &f, &nm, &Space { u: &un, values, layout: &layout, pruned }, ops, k, want))
        });
        for ((pruned, want), r) in jobs.iter().zip(res) {
            rep.traces += want.len();
            match r {
                Ok((s, t, c)) => {
                    cut += c;
                    states += s;
                    tables += t;
                    rep.checks += t;
                }
                Err(e) => rep.violations.push(json!({"what": e, "case": {"cells": format!("{layout:?}"), "pruned": pruned}})),
            }
        }
    }
    rep.extra.insert("rows_of_universe".into(), json!(sizes));
    rep.extra.insert("table_states".into(), json!(states));
    rep.extra.insert("accepted_tables".into(), json!(tables));
    rep.extra.insert("states_not_expanded".into(), json!(cut));
    rep
}
