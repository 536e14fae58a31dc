//! Operations of the tables (Alu.tla): the rows for them hold and claim what the specification
//! says; and no row that holds claims anything false about any operands.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use ethereum_types::{U256, U512};
use evm_arithmetization::verif_hooks as hk;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use serde_json::{json, Value};

use crate::ensure;
use crate::evm::word;
use crate::tables::*;
use crate::util::*;

fn bn() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap()
}
fn wide(x: U256) -> U512 {
    x.into()
}
fn narrow(x: U512) -> U256 {
    U256::try_from(x).unwrap()
}

const OPCODES: [(u64, &str); 19] = [
    (0x01, "Add"), (0x02, "Mul"), (0x03, "Sub"), (0x04, "Div"), (0x06, "Mod"), (0x08, "AddMod"), (0x09, "MulMod"),
    (0x0c, "AddFp254"), (0x0d, "MulFp254"), (0x0e, "SubFp254"), (0x0f, "SubMod"), (0x10, "Lt"), (0x11, "Gt"),
    (0x1a, "Byte"), (0x1b, "Shl"), (0x1c, "Shr"), (0x16, "And"), (0x17, "Or"), (0x18, "Xor"),
];

/// What an operation yields; shifts take the power of two as the third operand.
/// Compared with the specification on every case.
fn yields(op: &str, a: U256, b: U256, c: U256) -> U256 {
    let modulo = |x: U512, m: U256| if m.is_zero() { U256::zero() } else { narrow(x % wide(m)) };
    let sub = |m: U256| {
        if m.is_zero() {
            U256::zero()
        } else {
            narrow((wide(a % m) + wide(m) - wide(b % m)) % wide(m))
        }
    };
    match op {
        "Add" => a.overflowing_add(b).0,
        "Sub" => a.overflowing_sub(b).0,
        "Mul" => a.overflowing_mul(b).0,
        "Div" => a.checked_div(b).unwrap_or_default(),
        "Mod" => a.checked_rem(b).unwrap_or_default(),
        "Lt" => U256::from((a < b) as u8),
        "Gt" => U256::from((a > b) as u8),
        "Byte" => if a < 32.into() { U256::from(b.byte(31 - a.as_usize())) } else { U256::zero() },
        "Shl" => b.overflowing_mul(c).0,
        "Shr" => b.checked_div(c).unwrap_or_default(),
        "AddFp254" => modulo(wide(a) + wide(b), bn()),
        "MulFp254" => modulo(a.full_mul(b), bn()),
        "SubFp254" => sub(bn()),
        "AddMod" => modulo(wide(a) + wide(b), c),
        "MulMod" => modulo(a.full_mul(b), c),
        "SubMod" => sub(c),
        "And" => a & b,
        "Or" => a | b,
        "Xor" => a ^ b,
        _ => tool_error(&format!("operation {op}")),
    }
}

fn limbs(x: U256) -> [u64; 8] {
    let mut r = [0; 8];
    for i in 0..8 {
        r[i] = (x.0[i / 2] >> (32 * (i % 2))) & 0xffff_ffff;
    }
    r
}
fn of_limbs(l: &[u64]) -> Option<U256> {
    let mut x = U256::zero();
    for (i, &v) in l.iter().enumerate() {
        if v >> 32 != 0 {
            return None;
        }
        x = x | (U256::from(v) << (32 * i));
    }
    Some(x)
}
fn set_word(row: &mut [F], cols: &[usize], x: U256) {
    for (i, &c) in cols.iter().enumerate() {
        row[c] = F::from_canonical_u64(if i < 16 { (x.0[i / 4] >> (16 * (i % 4))) & 0xffff } else { 0 });
    }
}

#[derive(Clone, Debug)]
struct Op {
    name: &'static str,
    x: [U256; 3],
}

fn name_of(s: &str) -> &'static str {
    OPCODES.iter().find(|o| o.1 == s).map(|o| o.1).unwrap_or_else(|| tool_error(&format!("operation {s}")))
}
fn is_logic(name: &str) -> bool {
    ["And", "Or", "Xor"].contains(&name)
}
fn power(x: U256) -> U256 {
    if x < 256.into() { U256::one() << x.as_usize() } else { U256::zero() }
}

/// A table with the tuples it exposes.
struct Tab<'a> {
    sys: &'a System,
    table: usize,
    rows: Rows,
    looked: Vec<(usize, &'a Side)>,
    memory: Vec<&'a Side>,
    ranges: Vec<(usize, HashSet<u64>)>,
    /// columns that only serve the lookups within the table
    own: Vec<usize>,
}

impl<'a> Tab<'a> {
    fn new(sys: &'a System, table: usize, rows: Rows) -> Tab<'a> {
        let n = rows.len();
        let looked = sys.cross.iter().enumerate().filter(|(_, c)| c.looked.table == table).map(|(i, c)| (i, &c.looked)).collect();
        let memory = sys.cross[hk::MEMORY_CTL].looking.iter().filter(|s| s.table == table).collect();
        let mut own = vec![];
        let ranges = sys.within[table]
            .iter()
            .enumerate()
            .map(|(k, l)| {
                l.table.uses(&mut own);
                l.frequencies.uses(&mut own);
                (k, (0..n).map(|i| l.table.at(&rows[i], &rows[(i + 1) % n]).to_canonical_u64()).collect())
            })
            .collect();
        Tab { sys, table, rows, looked, memory, ranges, own }
    }

    fn tuples(&self, lv: &[F], nv: &[F]) -> Vec<(F, Vec<u64>)> {
        self.looked
            .iter()
            .filter_map(|(_, s)| {
                let f = s.filter.at(lv, nv);
                (f != F::ZERO).then(|| (f, s.columns.iter().map(|c| n(c.at(lv, nv))).collect()))
            })
            .collect()
    }

    fn in_range(&self, lv: &[F], nv: &[F]) -> bool {
        self.ranges.iter().all(|(k, set)| {
            let l = &self.sys.within[self.table][*k];
            l.columns.iter().enumerate().all(|(j, c)| {
                let f = l.filters.get(j).map(|f| f.at(lv, nv)).unwrap_or(F::ONE);
                f == F::ZERO || set.contains(&n(c.at(lv, nv)))
            })
        })
    }

    fn pair(&self, a: &[F], b: &[F], at: [bool; 3]) -> bool {
        hk::eval(self.table, a, b, at, self.sys.alpha) == F::ZERO
    }

    /// Do these rows hold at place k of the table?
    fn holds_at(&self, k: usize, new: &[Vec<F>]) -> bool {
        let n = self.rows.len();
        let m = new.len();
        let get = |i: usize| if i >= k && i < k + m { &new[i - k] } else { &self.rows[i % n] };
        let lo = if k == 0 { 0 } else { k - 1 };
        (lo..k + m).all(|i| i >= n || self.pair(get(i), get(i + 1), [i < n - 1, i == 0, i == n - 1]))
            && (0..m).all(|i| self.in_range(&new[i], get(k + i + 1)))
    }

    /// Something false that rows at place k claim.
    fn lie(&self, k: usize, new: &[Vec<F>]) -> Option<String> {
        let n = self.rows.len();
        (0..new.len()).find_map(|i| {
            let nv = if i + 1 < new.len() { &new[i + 1] } else { &self.rows[(k + i + 1) % n] };
            self.lie_of(&new[i], nv)
        })
    }

    fn lie_of(&self, lv: &[F], nv: &[F]) -> Option<String> {
        let t = self.tuples(lv, nv);
        if let Some((f, x)) = t.iter().find(|(f, _)| *f != F::ONE) {
            return Some(format!("{x:?} is claimed {f} times"));
        }
        if self.table == BYTE_PACKING {
            let acc: Vec<(F, Vec<u64>)> = self
                .memory
                .iter()
                .filter_map(|s| {
                    let f = s.filter.at(lv, nv);
                    (f != F::ZERO).then(|| (f, s.columns.iter().map(|c| self::n(c.at(lv, nv))).collect()))
                })
                .collect();
            return lie_of_packing(t.first().map(|x| &x.1), &acc);
        }
        t.iter().find_map(|(_, x)| lie_of_alu(x, self.table == ARITHMETIC))
    }
}

fn lie_of_alu(t: &[u64], arithmetic: bool) -> Option<String> {
    let words = |i: usize| of_limbs(&t[1 + 8 * i..9 + 8 * i]);
    if !arithmetic {
        let (a, b) = (words(0)?, words(1)?);
        let op = OPCODES.iter().find(|o| o.0 == t[0])?.1;
        let want = yields(op, a, b, U256::zero());
        return (words(2) != Some(want)).then(|| format!("{op} of {a:#x} and {b:#x} is claimed to be {:x?}", &t[17..]));
    }
    // A range check claims that everything is a word.
    if t.len() > 33 && t[33] != 0 {
        return (0..4).find(|&i| words(i).is_none()).map(|_| format!("{:x?} pass for words", &t[1..33]));
    }
    let op = OPCODES.iter().find(|o| o.0 == t[0])?.1;
    let (a, b) = (words(0)?, words(1)?);
    let c = match op {
        "Shl" | "Shr" | "AddMod" | "MulMod" | "SubMod" => words(2)?,
        _ => U256::zero(),
    };
    let want = yields(op, a, b, c);
    (words(3) != Some(want)).then(|| format!("{op} of {a:#x}, {b:#x} (and {c:#x}) is claimed to be {:x?}", &t[25..33]))
}

/// The claim: reading or writing, context, segment, offset, length, time, word; with the accesses
/// of single bytes that it stands for.
fn lie_of_packing(claim: Option<&Vec<u64>>, acc: &[(F, Vec<u64>)]) -> Option<String> {
    if let Some((f, x)) = acc.iter().find(|(f, _)| *f != F::ONE) {
        return Some(format!("the access {x:?} happens {f} times"));
    }
    let Some(c) = claim else {
        return (!acc.is_empty()).then(|| format!("accesses {acc:?} that stand for nothing"));
    };
    let len = c[4];
    if len == 0 || len > 32 {
        return Some(format!("a sequence of {len} bytes"));
    }
    let Some(value) = of_limbs(&c[6..14]) else { return Some(format!("{:?} passes for a word", &c[6..14])) };
    let mut want: BTreeSet<Vec<u64>> = BTreeSet::new();
    for i in 0..32u64 {
        let byte = value.byte(i as usize) as u64;
        if i < len {
            // field arithmetic, as an offset may be any element
            let at = n(F::from_noncanonical_u64(c[3]) + F::from_canonical_u64(len - 1 - i));
            let mut a = vec![c[0], c[1], c[2], at, byte];
            a.extend([0; 7]);
            a.push(c[5]);
            want.insert(a);
        } else if byte != 0 {
            return Some(format!("{value:#x} for {len} bytes"));
        }
    }
    let got: BTreeSet<Vec<u64>> = acc.iter().map(|x| x.1.clone()).collect();
    if got != want || acc.len() != want.len() {
        return Some(format!("{c:?} stands for the accesses {got:?}"));
    }
    if c[0] > 1 {
        return Some(format!("{c:?} neither reads nor writes"));
    }
    None
}

// ---- the rows for true statements

struct Honest {
    op: Op,
    at: usize,
    len: usize,
}

fn arithmetic<'a>(sys: &'a System, ops: &[Op]) -> (Tab<'a>, Vec<Honest>) {
    let pad = Op { name: "Add", x: [U256::zero(); 3] };
    let input: Vec<(&str, Vec<U256>)> = ops.iter().chain([&pad]).map(|o| (o.name, o.x.to_vec())).collect();
    let tab = Tab::new(sys, ARITHMETIC, rows(&hk::arithmetic_table(&input)));
    let honest = places(&tab, ops);
    (tab, honest)
}
fn logic<'a>(sys: &'a System, ops: &[Op]) -> (Tab<'a>, Vec<Honest>) {
    let input: Vec<(&str, U256, U256)> = ops.iter().map(|o| (o.name, o.x[0], o.x[1])).collect();
    let tab = Tab::new(sys, LOGIC, rows(&hk::logic_table(&input)));
    let honest = places(&tab, ops);
    (tab, honest)
}
fn places(tab: &Tab, ops: &[Op]) -> Vec<Honest> {
    let m = tab.rows.len();
    let mut starts: Vec<usize> = (0..m).filter(|&i| !tab.tuples(&tab.rows[i], &tab.rows[(i + 1) % m]).is_empty()).collect();
    starts.push(m);
    ops.iter()
        .enumerate()
        .filter(|(i, _)| i + 1 < starts.len())
        .map(|(i, o)| Honest { op: o.clone(), at: starts[i], len: if tab.table == ARITHMETIC { (starts[i + 1] - starts[i]).clamp(1, 2) } else { 1 } })
        .collect()
}

fn op_of(v: &Value) -> Op {
    let a = arr(&v["in"]);
    Op { name: name_of(st(&v["op"])), x: [word(&a[0]), word(&a[1]), word(&a[2])] }
}

pub fn honest(path: &str, seed: u64) -> Report {
    let cases = read_emitted(path);
    let sys = system(seed);
    let mut rep = Report::default();
    let (packs, alus): (Vec<&Value>, Vec<&Value>) = cases.iter().partition(|v| st(&v["op"]) == "Pack");
    // the oracle of the forgeries agrees with the specification
    rep.run(&cases, |v| {
        if st(&v["op"]) == "Pack" {
            return Ok(0);
        }
        let (o, out) = (op_of(v), word(&v["out"]));
        if yields(o.name, o.x[0], o.x[1], o.x[2]) != out {
            tool_error(&format!("the harness and the specification disagree on {v}"));
        }
        Ok(0)
    });
    let expect = |v: &&Value| -> Vec<u64> {
        let (o, out) = (op_of(v), word(&v["out"]));
        let code = OPCODES.iter().find(|x| x.1 == o.name).unwrap().0;
        let mut t = vec![code];
        t.extend(limbs(o.x[0]));
        t.extend(limbs(o.x[1]));
        if !is_logic(o.name) && ["Shl", "Shr", "AddMod", "MulMod", "SubMod"].contains(&o.name) {
            t.extend(limbs(o.x[2]));
        }
        t.extend(limbs(out));
        t
    };
    // what a tuple says, without what it leaves open
    let said = |t: &Vec<u64>| -> Vec<u64> {
        if t.len() < 33 || ["Shl", "Shr", "AddMod", "MulMod", "SubMod"].iter().any(|n| OPCODES.iter().any(|o| o.1 == *n && o.0 == t[0])) {
            t[..t.len().min(33)].to_vec()
        } else {
            [&t[..17], &t[25..33]].concat()
        }
    };
    let check = |tab: &Tab, want: Vec<Vec<u64>>| -> R<usize> {
        if let Some(i) = tab.sys.violated(tab.table, &tab.rows) {
            return Err(format!("a constraint of table {} does not hold on row {i}: {:?}", NAMES[tab.table],
                tab.tuples(&tab.rows[i], &tab.rows[(i + 1) % tab.rows.len()])));
        }
        if let Some(l) = tab.sys.within_broken(tab.table, &tab.rows) {
            return Err(format!("lookup {l} of table {} does not hold", NAMES[tab.table]));
        }
        let m = tab.rows.len();
        let mut got: BTreeMap<Vec<u64>, i64> = BTreeMap::new();
        for i in 0..m {
            for (f, t) in tab.tuples(&tab.rows[i], &tab.rows[(i + 1) % m]) {
                ensure!(f == F::ONE, "{t:?} is claimed {f} times");
                *got.entry(said(&t)).or_default() += 1;
            }
        }
        for w in &want {
            *got.entry(w.clone()).or_default() -= 1;
        }
        // unused rows may repeat the zero operation
        got.retain(|k, v| *v != 0 && !(k.iter().skip(1).all(|x| *x == 0) && *v > 0));
        ensure!(got.is_empty(), "the table {} claims {got:x?}", NAMES[tab.table]);
        Ok(want.len())
    };
    let mut all = |name: &str, r: R<usize>, cases: &[&Value]| {
        let c: Vec<Value> = cases.iter().take(1).map(|v| json!({"table": name, "first": v})).collect();
        let k = cases.len();
        rep.absorb(&c, vec![r]);
        rep.traces += k.saturating_sub(1);
    };
    for (chunk, name) in alus.chunks(6000).flat_map(|c| [(c, "arithmetic"), (c, "logic")]) {
        let part: Vec<&Value> = chunk.iter().copied().filter(|v| is_logic(st(&v["op"])) == (name == "logic")).collect();
        let ops: Vec<Op> = part.iter().map(|v| op_of(v)).collect();
        let want: Vec<Vec<u64>> = part.iter().map(expect).collect();
        let r = guard(|| {
            if name == "logic" {
                let (t, _) = logic(&sys, &ops);
                check(&t, want.clone())
            } else {
                let (t, _) = arithmetic(&sys, &ops);
                let extra = {
                    let mut z = vec![1u64];
                    z.extend([0; 24]);
                    z
                };
                let mut w = want.clone();
                w.push(extra);
                check(&t, w)
            }
        });
        all(name, r, &part);
    }
    let r = guard(|| {
        let tab = Tab::new(&sys, BYTE_PACKING, rows(&hk::byte_packing_table(&packs.iter().map(|v| pack_of(v)).collect::<Vec<_>>())));
        let mut mem: BTreeMap<Vec<u64>, i64> = BTreeMap::new();
        let want = packs
            .iter()
            .map(|v| {
                let (read, [c, s, a], time, bytes) = pack_of(v);
                let mut t = vec![read as u64, c as u64, s as u64, a as u64, bytes.len() as u64, time as u64];
                t.extend(limbs(word(&v["out"])));
                for x in arr(&v["mem"]) {
                    let mut m = vec![read as u64, c as u64, s as u64, u(&x[0]), u(&x[1])];
                    m.extend([0; 7]);
                    m.push(time as u64);
                    *mem.entry(m).or_default() += 1;
                }
                t
            })
            .collect();
        let k = check(&tab, want)?;
        let m = tab.rows.len();
        for i in 0..m {
            for s in &tab.memory {
                let (lv, nv) = (&tab.rows[i], &tab.rows[(i + 1) % m]);
                let f = s.filter.at(lv, nv);
                if f != F::ZERO {
                    *mem.entry(s.columns.iter().map(|c| n(c.at(lv, nv))).collect()).or_default() -= n(f) as i64;
                }
            }
        }
        mem.retain(|_, v| *v != 0);
        ensure!(mem.is_empty(), "byte packing touches memory otherwise: {mem:?}");
        Ok(k)
    });
    all("byte packing", r, &packs);
    rep
}

fn pack_of(v: &Value) -> (bool, [usize; 3], usize, Vec<u8>) {
    (v["read"].as_bool().unwrap(), [u(&v["ctx"]) as usize, u(&v["seg"]) as usize, u(&v["virt"]) as usize], u(&v["time"]) as usize, bytes(&v["bytes"]))
}

// ---- forgeries

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
}

struct Tried {
    rows: usize,
    held: usize,
}

struct Forger<'a, 'b> {
    tab: &'b Tab<'a>,
    /// free columns of a row
    free: Vec<usize>,
    tried: Tried,
    found: Option<String>,
}

impl<'a, 'b> Forger<'a, 'b> {
    fn new(tab: &'b Tab<'a>) -> Self {
        let width = tab.rows[0].len();
        let free = (0..width).filter(|c| !tab.own.contains(c)).collect();
        Forger { tab, free, tried: Tried { rows: 0, held: 0 }, found: None }
    }

    /// Rows at place k: if they hold, what they claim must be true.
    fn try_at(&mut self, k: usize, new: &[Vec<F>], how: &dyn Fn() -> String) {
        if self.found.is_some() {
            return;
        }
        self.tried.rows += 1;
        if self.tab.holds_at(k, new) {
            self.tried.held += 1;
            if let Some(l) = self.tab.lie(k, new) {
                self.found = Some(format!("table {} accepts a false row ({}): {l}", NAMES[self.tab.table], how()));
            }
        }
    }

    /// In the middle, first and last.
    fn try_everywhere(&mut self, k: usize, new: &[Vec<F>], how: &dyn Fn() -> String) {
        self.try_at(k, new, how);
        let m = self.tab.rows.len();
        for place in [m - 1, 0] {
            let mut r = vec![new[0].clone()];
            for &c in &self.tab.own {
                r[0][c] = self.tab.rows[place][c];
            }
            if place == 0 && new.len() > 1 {
                r.push(new[1].clone());
                for &c in &self.tab.own {
                    r[1][c] = self.tab.rows[1][c];
                }
            }
            self.try_at(place, &r, &|| format!("{} at row {place}", how()));
        }
    }

    /// One cell becomes something else.
    fn cells(&mut self, h: &Honest, rng: &mut Rng) {
        let base: Vec<Vec<F>> = self.tab.rows[h.at..h.at + h.len].to_vec();
        for r in 0..h.len {
            for c in self.free.clone() {
                let v = base[r][c];
                let mut values = vec![F::ZERO, F::ONE, F::TWO, v + F::ONE, v - F::ONE, -v, F::NEG_ONE,
                    v + F::from_canonical_u64(1 << 16), v - F::from_canonical_u64(1 << 16), v + F::from_canonical_u64(256),
                    F::from_canonical_u64(65535), F::from_noncanonical_u64(rng.next())];
                values.retain(|x| *x != v);
                for x in values {
                    let mut new = base.clone();
                    new[r][c] = x;
                    self.try_at(h.at, &new, &|| format!("cell {c} of row {r} of {:?} set to {x}", h.op));
                }
            }
        }
    }

    /// Some cells are set; then another one is chosen so that everything holds.
    fn solved(&mut self, h: &Honest, preset: &[(usize, usize, F)], how: &str) {
        let mut base: Vec<Vec<F>> = self.tab.rows[h.at..h.at + h.len].to_vec();
        for &(r, c, x) in preset {
            base[r][c] = x;
        }
        let m = self.tab.rows.len();
        let total = |b: &Vec<Vec<F>>| -> F {
            let get = |i: usize| if i >= h.at && i < h.at + h.len { &b[i - h.at] } else { &self.tab.rows[i % m] };
            let mut s = F::ZERO;
            let mut w = F::ONE;
            for i in h.at.saturating_sub(1)..h.at + h.len {
                s += w * hk::eval(self.tab.table, get(i), get(i + 1), [i < m - 1, i == 0, i == m - 1], self.tab.sys.beta);
                w *= self.tab.sys.gamma;
            }
            s
        };
        let e0 = total(&base);
        let mut found = vec![];
        if e0 == F::ZERO {
            found.push(base.clone());
        }
        for r in 0..h.len {
            for &c in &self.free {
                if preset.iter().any(|p| (p.0, p.1) == (r, c)) {
                    continue;
                }
                let v = base[r][c];
                base[r][c] = v + F::ONE;
                let e1 = total(&base);
                if e1 != e0 {
                    let x = v - e0 / (e1 - e0);
                    base[r][c] = x;
                    if total(&base) == F::ZERO {
                        found.push(base.clone());
                    }
                }
                base[r][c] = v;
            }
        }
        for b in found {
            self.try_at(h.at, &b, &|| format!("{how} of {:?} with one more cell", h.op));
        }
    }

    /// Parts from a true row, the others from another.
    fn crossed(&mut self, h: &Honest, groups: &[Vec<(usize, usize)>], other: &[Vec<F>], what: &str) {
        let base: Vec<Vec<F>> = self.tab.rows[h.at..h.at + h.len].to_vec();
        let blank = vec![F::ZERO; base[0].len()];
        let two = h.len.max(other.len());
        for mask in 1u32..1 << groups.len() {
            let mut new: Vec<Vec<F>> = (0..two).map(|r| base.get(r).cloned().unwrap_or_else(|| {
                let mut b = blank.clone();
                for &c in &self.tab.own {
                    b[c] = self.tab.rows[(h.at + r) % self.tab.rows.len()][c];
                }
                b
            })).collect();
            let mut changed = false;
            for (g, cells) in groups.iter().enumerate() {
                if mask >> g & 1 == 1 {
                    for &(r, c) in cells {
                        if r < two {
                            let x = other.get(r).map(|o| o[c]).unwrap_or(F::ZERO);
                            changed |= new[r][c] != x;
                            new[r][c] = x;
                        }
                    }
                }
            }
            if !changed {
                continue;
            }
            let how = || format!("{:?} crossed with {what} in groups {mask:b}", h.op);
            if two > h.len {
                // takes the place of what follows: only the pairs of its own rows count
                self.try_last(&new, &how);
            } else {
                self.try_at(h.at, &new, &how);
            }
            if mask % 7 == 1 {
                self.try_everywhere(h.at, &new, &how);
            }
        }
    }

    fn try_last(&mut self, new: &[Vec<F>], how: &dyn Fn() -> String) {
        let m = self.tab.rows.len();
        let k = m - 1 - new.len();
        let mut r = new.to_vec();
        for i in 0..r.len() {
            for &c in &self.tab.own {
                r[i][c] = self.tab.rows[k + i][c];
            }
        }
        self.try_at(k, &r, how);
    }
}

/// Cells by the part of the claim that they belong to; then the others.
fn groups(tab: &Tab, parts: &[std::ops::Range<usize>], more: &[Vec<(usize, usize)>], len: usize) -> Vec<Vec<(usize, usize)>> {
    let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut out = vec![];
    let side = tab.looked[0].1;
    for p in parts {
        let mut g = BTreeSet::new();
        for c in &side.columns[p.clone()] {
            for &(col, _) in &c.here {
                if seen.insert((0, col)) {
                    g.insert((0, col));
                }
            }
        }
        out.push(g.into_iter().collect());
    }
    for m in more {
        let g: Vec<_> = m.iter().copied().filter(|x| seen.insert(*x)).collect();
        out.push(g);
    }
    let mut rest = vec![];
    for r in 0..len {
        for c in 0..tab.rows[0].len() {
            if !tab.own.contains(&c) && seen.insert((r, c)) {
                rest.push((r, c));
            }
        }
    }
    out.push(rest);
    out.retain(|g| !g.is_empty());
    out
}

/// Cells of neighbouring weights within one column of a claim that is not the result:
/// they can change without changing it.
fn slack(tab: &Tab, parts: std::ops::Range<usize>) -> Vec<(usize, usize, F)> {
    let mut out = vec![];
    for c in &tab.looked[0].1.columns[parts] {
        let mut t = c.here.clone();
        t.sort_by_key(|x| n(x.1));
        for w in t.windows(2) {
            out.push((w[1].0, w[0].0, w[1].1 / w[0].1));
        }
    }
    out
}

fn near(o: &Op, rng: &mut Rng) -> Vec<Op> {
    let [a, b, c] = o.x;
    let one = U256::one();
    let up = |x: U256| x.overflowing_add(one).0;
    let down = |x: U256| x.overflowing_sub(one).0;
    let mk = |x: [U256; 3]| Op { name: o.name, x: if ["Shl", "Shr"].contains(&o.name) { [x[0], x[1], power(x[0])] } else { x } };
    let mut v = vec![mk([up(a), b, c]), mk([down(a), b, c]), mk([a, up(b), c]), mk([a, down(b), c]), mk([b, a, c]), mk([a, b, up(c)]), mk([a, b, down(c)]),
        mk([a, U256::zero(), c]), mk([a, b, U256::zero()]), mk([U256::zero(), b, c]), mk([a, b, one])];
    let others: Vec<&str> = OPCODES.iter().map(|x| x.1).filter(|x| is_logic(x) == is_logic(o.name) && *x != o.name).collect();
    for _ in 0..3 {
        let m = name_of(others[rng.next() as usize % others.len()]);
        let x = if ["Shl", "Shr"].contains(&m) { [a, b, power(a)] } else { [a, b, c] };
        v.push(Op { name: m, x });
    }
    // the general operation with this modulus for those whose modulus is fixed, and back
    for (m, w) in [("AddFp254", "AddMod"), ("MulFp254", "MulMod"), ("SubFp254", "SubMod")] {
        if o.name == m {
            v.push(Op { name: w, x: [a, b, down(bn())] });
            v.push(Op { name: w, x: [a, b, U256::from(7)] });
        }
    }
    // the kernel subtracts reduced numbers only
    for o in &mut v {
        if o.name == "SubMod" {
            o.x[1] = o.x[1].checked_rem(o.x[2]).unwrap_or_default();
        }
    }
    v
}

/// False remainders and quotients with everything else computed to fit.
fn modular(f: &mut Forger, h: &Honest, lay: &BTreeMap<String, usize>) {
    let cols = |name: &str, k: usize| -> Vec<usize> { (0..k).map(|i| lay[&format!("{name}[{i}]")]).collect() };
    let (in2, out, aux) = (cols("in2", 16), cols("out", 16), cols("aux", 32));
    let (reduced, low, high) = (cols("reduced", 16), cols("low", 31), cols("high", 31));
    let (zero, dzero) = (lay["zero[0]"], lay["zero[1]"]);
    let _ = in2;
    let [a, b, c] = h.op.x;
    let fp = |m: U256| if h.op.name.ends_with("Fp254") { bn() } else { m };
    let div = ["Div", "Shr"].contains(&h.op.name);
    let (input, m): (U512, U256) = match h.op.name {
        "Div" | "Mod" => (wide(a), b),
        "Shr" => (wide(b), c),
        "AddMod" | "AddFp254" => (wide(a) + wide(b), fp(c)),
        "MulMod" | "MulFp254" => (a.full_mul(b), fp(c)),
        _ => return,
    };
    let digits = |x: U512, k: usize| -> Vec<i128> { (0..k).map(|i| ((x >> (16 * i)).low_u64() & 0xffff) as i128).collect() };
    let honest = f.tab.rows[h.at..h.at + 2].to_vec();
    for mz in 0..2u64 {
        for dz in 0..2u64 {
            let modulus = wide(m) + U512::from(mz);
            let q0 = if modulus.is_zero() { U512::zero() } else { input / modulus };
            for (kind, q) in [q0, q0.saturating_sub(U512::one()), q0 + U512::one(), U512::zero(), q0 >> 1].into_iter().enumerate() {
                let prod = match q.checked_mul(modulus) {
                    Some(p) if p <= input => p,
                    _ => continue,
                };
                let rem = input - prod;
                if rem >> 256 != U512::zero() || (div || h.op.name == "Mod") && q >> 256 != U512::zero() {
                    continue;
                }
                let r = narrow(rem);
                // (q m + r - input)(x) + (x - 2^16) s(x) = 0; the input in the form the table uses
                let poly_in: Vec<i128> = match h.op.name {
                    "AddMod" | "AddFp254" => digits(wide(a), 32).iter().zip(digits(wide(b), 32)).map(|(x, y)| x + y).collect(),
                    "MulMod" | "MulFp254" => {
                        let (x, y) = (digits(wide(a), 16), digits(wide(b), 16));
                        let mut p = vec![0; 32];
                        for i in 0..16 {
                            for j in 0..16 {
                                p[i + j] += x[i] * y[j];
                            }
                        }
                        p
                    }
                    _ => digits(input, 32),
                };
                let (qd, mut md) = (digits(q, 32), digits(wide(m), 16));
                md[0] += mz as i128;
                let mut p: Vec<i128> = poly_in.iter().zip(digits(rem, 32)).map(|(x, y)| x - y).collect();
                for i in 0..32 {
                    for j in 0..16 {
                        if i + j < 32 {
                            p[i + j] -= qd[i] * md[j];
                        }
                    }
                }
                // p = (x - 2^16) s
                let mut s = vec![0i128; 32];
                let mut carry = 0i128;
                for i in 0..31 {
                    // p_i = s_{i-1} - 2^16 s_i
                    let t = carry - p[i];
                    s[i] = t >> 16;
                    if s[i] << 16 != t {
                        s[i] = i128::MAX;
                        break;
                    }
                    carry = s[i];
                }
                if s.iter().any(|x| *x == i128::MAX) {
                    continue;
                }
                for red in 0..3 {
                    let mut new = honest.clone();
                    match h.op.name {
                        "Div" | "Shr" => {
                            set_word(&mut new[0], &out, narrow(q));
                            set_word(&mut new[0], &aux[..16], r);
                        }
                        "Mod" => {
                            set_word(&mut new[0], &out, r);
                            set_word(&mut new[0], &aux[..16], narrow(q));
                        }
                        _ => {
                            set_word(&mut new[0], &out, r);
                            for (i, d) in digits(q, 32).iter().enumerate() {
                                new[0][aux[i]] = F::from_canonical_u64(*d as u64);
                            }
                        }
                    }
                    new[1][zero] = F::from_canonical_u64(mz);
                    new[1][dzero] = F::from_canonical_u64(dz);
                    for i in 0..31 {
                        let v = s[i] + (1 << 20);
                        if !(0..1i128 << 32).contains(&v) {
                            continue;
                        }
                        new[1][low[i]] = F::from_canonical_u64((v & 0xffff) as u64);
                        new[1][high[i]] = F::from_canonical_u64((v >> 16) as u64);
                    }
                    match red {
                        0 => set_word(&mut new[1], &reduced, r.overflowing_sub(m).0),
                        1 => set_word(&mut new[1], &reduced, r.overflowing_sub(m).0.overflowing_sub(U256::from(mz)).0),
                        _ => {}
                    }
                    f.try_everywhere(h.at, &new, &|| format!("{:?}: remainder {r:#x}, quotient {q:#x}, flags {mz}{dz}, choice {kind}{red}", h.op));
                }
            }
        }
    }
}

pub fn forge(path: &str, most: usize, deep: usize, seed: u64) -> Report {
    let cases = read_emitted(path);
    let sys = system(seed);
    let mut rep = Report::default();
    let mut per: HashMap<String, usize> = HashMap::new();
    // some of each operation
    let (mut bases, mut packs) = (vec![], vec![]);
    for v in &cases {
        let k = per.entry(st(&v["op"]).to_string()).or_default();
        *k += 1;
        if *k <= most || st(&v["op"]) == "Pack" && *k <= 3 * most {
            if st(&v["op"]) == "Pack" { packs.push(v.clone()) } else { bases.push(v.clone()) }
        }
    }
    for kind in ["arithmetic", "logic"] {
        let chosen: Vec<Value> = bases.iter().filter(|v| is_logic(st(&v["op"])) == (kind == "logic")).cloned().collect();
        let ops: Vec<Op> = chosen.iter().map(op_of).collect();
        let mut rng = Rng(seed * 77 + 5);
        let partners: Vec<Vec<Op>> = ops.iter().map(|o| near(o, &mut rng)).collect();
        let flat: Vec<Op> = partners.iter().flatten().cloned().collect();
        let made = catch(|| {
            if kind == "logic" { (logic(&sys, &ops), logic(&sys, &flat)) } else { (arithmetic(&sys, &ops), arithmetic(&sys, &flat)) }
        });
        let ((tab, hs), (tab2, hs2)) = match made {
            Ok(x) => x,
            Err(e) => {
                rep.absorb(&chosen[..1], vec![Err(format!("the table cannot be made: {e}"))]);
                continue;
            }
        };
        if hs.len() != ops.len() || hs2.len() != flat.len() {
            rep.absorb(&chosen[..1], vec![Err(format!("the table {kind} claims {} operations of {}", hs.len(), ops.len()))]);
            continue;
        }
        let lay = names(tab.table);
        let parts = if kind == "logic" { vec![0..1, 1..9, 9..17, 17..25] } else { vec![0..1, 1..9, 9..17, 17..25, 25..33] };
        let result = parts.last().unwrap().clone();
        let more: Vec<Vec<(usize, usize)>> = if kind == "logic" {
            vec![]
        } else {
            let g = |name: &str, r: usize| lay.iter().filter(|(k, _)| k.starts_with(name)).map(|(_, c)| (r, *c)).collect::<Vec<_>>();
            vec![g("aux", 0), g("reduced", 1), g("zero", 1), [g("low", 1), g("high", 1)].concat()]
        };
        let mut start = 0;
        let jobs: Vec<(usize, std::ops::Range<usize>)> = partners.iter().enumerate().map(|(i, p)| {
            start += p.len();
            (i, start - p.len()..start)
        }).collect();
        let gs = [groups(&tab, &parts, &more, 1), groups(&tab, &parts, &more, 2)];
        let slacks = slack(&tab, 1..17);
        let result_cells: Vec<(usize, F)> = tab.looked[0].1.columns[result].iter().flat_map(|c| c.here.clone()).collect();
        let res = par_map1(&jobs, |(i, range)| {
            guard(|| {
                let h = &hs[*i];
                let mut rng = Rng(seed * 1_000_003 + *i as u64 * 7919 + 1);
                let mut f = Forger::new(&tab);
                f.cells(h, &mut rng);
                for j in range.clone() {
                    let o = &hs2[j];
                    let other: Vec<Vec<F>> = tab2.rows[o.at..o.at + o.len].to_vec();
                    let g = &gs[h.len.max(o.len) - 1];
                    f.crossed(h, g, &other, &format!("{:?}", o.op));
                }
                if h.len == 2 {
                    modular(&mut f, h, &lay);
                }
                if *i % (most.max(1)) < deep || rng.next() % 16 < 1 {
                    let base = &tab.rows[h.at];
                    for (c, _) in &result_cells {
                        for d in [F::ONE, F::NEG_ONE] {
                            f.solved(h, &[(0, *c, base[*c] + d)], "a changed result");
                        }
                    }
                    for (k, &(hi, lo, w)) in slacks.iter().enumerate() {
                        if kind == "logic" && k % 16 != i % 16 {
                            continue;
                        }
                        for d in [F::ONE, F::NEG_ONE] {
                            f.solved(h, &[(0, hi, base[hi] + d), (0, lo, base[lo] - d * w)], "another form of the operands");
                        }
                    }
                }
                match f.found {
                    Some(x) => Err(x),
                    None => Ok(f.tried.rows),
                }
            })
        });
        rep.absorb(&chosen, res);
    }
    // byte packing
    let made = catch(|| Tab::new(&sys, BYTE_PACKING, rows(&hk::byte_packing_table(&packs.iter().map(pack_of).collect::<Vec<_>>()))));
    match made {
        Err(e) => rep.absorb(&packs[..1], vec![Err(format!("the table cannot be made: {e}"))]),
        Ok(tab) => {
            let gs = groups(&tab, &[0..1, 1..4, 4..5, 5..6, 6..10, 10..14], &[], 1);
            let jobs: Vec<usize> = (0..packs.len()).collect();
            let result_cells: Vec<usize> = tab.looked[0].1.columns.iter().flat_map(|c| c.here.iter().map(|x| x.0)).collect();
            let res = par_map1(&jobs, |&i| {
                guard(|| {
                    let dummy = Op { name: "Add", x: [U256::from(i), U256::zero(), U256::zero()] };
                    let h = Honest { op: dummy, at: i, len: 1 };
                    let mut rng = Rng(seed * 1_000_003 + i as u64 * 104729 + 1);
                    let mut f = Forger::new(&tab);
                    f.cells(&h, &mut rng);
                    for j in [i + 1, i + 2, i + 5, packs.len() + 3] {
                        let other = vec![tab.rows[j % tab.rows.len()].clone()];
                        f.crossed(&h, &gs, &other, &format!("row {j}"));
                    }
                    for &c in &result_cells {
                        for d in [F::ONE, F::NEG_ONE, F::from_canonical_u64(256)] {
                            f.solved(&h, &[(0, c, tab.rows[i][c] + d)], "a changed claim");
                        }
                    }
                    match f.found {
                        Some(x) => Err(x),
                        None => Ok(f.tried.rows),
                    }
                })
            });
            rep.absorb(&packs, res);
        }
    }
    rep
}
