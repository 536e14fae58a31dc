//! The tables of the proof system: constraints, lookups within and between tables.
use std::collections::BTreeMap;

use evm_arithmetization::proof::PublicValues;
use evm_arithmetization::verif_hooks as hk;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, PrimeField64, Sample};
use serde_json::{json, Value};

use crate::util::R;

pub const ARITHMETIC: usize = 0;
pub const BYTE_PACKING: usize = 1;
pub const CPU: usize = 2;
pub const KECCAK: usize = 3;
pub const KECCAK_SPONGE: usize = 4;
pub const LOGIC: usize = 5;
pub const MEMORY: usize = 6;
pub const MEM_BEFORE: usize = 7;
pub const MEM_AFTER: usize = 8;
pub const NAMES: [&str; 9] =
    ["Arithmetic", "BytePacking", "Cpu", "Keccak", "KeccakSponge", "Logic", "Memory", "MemBefore", "MemAfter"];

pub fn random(seed: u64) -> F {
    use rand::SeedableRng;
    F::sample(&mut rand_chacha::ChaCha8Rng::seed_from_u64(seed))
}

// What Rust's Debug prints, as JSON.
pub fn parse_debug(text: &str) -> Value {
    let b = text.as_bytes();
    let mut i = 0;
    let v = value(b, &mut i);
    v
}

fn space(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i].is_ascii_whitespace() || b[*i] == b',') {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Value {
    space(b, i);
    let start = *i;
    while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b[*i] == b'_') {
        *i += 1;
    }
    let word = std::str::from_utf8(&b[start..*i]).unwrap();
    if word.starts_with(|c: char| c.is_ascii_digit()) {
        return json!(word.parse::<u64>().unwrap());
    }
    space(b, i);
    match b.get(*i) {
        Some(b'{') => {
            *i += 1;
            let mut m = serde_json::Map::new();
            loop {
                space(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return Value::Object(m);
                }
                let s = *i;
                while b[*i] != b':' {
                    *i += 1;
                }
                let name = std::str::from_utf8(&b[s..*i]).unwrap().to_string();
                *i += 1;
                m.insert(name, value(b, i));
            }
        }
        Some(c @ (b'[' | b'(')) => {
            let end = if *c == b'[' { b']' } else { b')' };
            *i += 1;
            let mut l = vec![];
            loop {
                space(b, i);
                if b[*i] == end {
                    *i += 1;
                    return Value::Array(l);
                }
                l.push(value(b, i));
            }
        }
        _ => json!(word),
    }
}

/// A linear combination of this and the next row.
#[derive(Clone, Debug)]
pub struct Lin {
    pub here: Vec<(usize, F)>,
    pub next: Vec<(usize, F)>,
    pub constant: F,
}

impl Lin {
    fn of(v: &Value) -> Lin {
        let terms = |v: &Value| {
            v.as_array().unwrap().iter().map(|t| (t[0].as_u64().unwrap() as usize, F::from_noncanonical_u64(t[1].as_u64().unwrap()))).collect()
        };
        Lin {
            here: terms(&v["linear_combination"]),
            next: terms(&v["next_row_linear_combination"]),
            constant: F::from_noncanonical_u64(v["constant"].as_u64().unwrap()),
        }
    }
    pub fn at(&self, lv: &[F], nv: &[F]) -> F {
        let mut r = self.constant;
        for &(c, k) in &self.here {
            r += lv[c] * k;
        }
        for &(c, k) in &self.next {
            r += nv[c] * k;
        }
        r
    }
    pub fn uses(&self, out: &mut Vec<usize>) {
        out.extend(self.here.iter().map(|x| x.0));
    }
}

#[derive(Clone, Debug)]
pub struct Fil {
    products: Vec<(Lin, Lin)>,
    constants: Vec<Lin>,
}

impl Fil {
    fn of(v: &Value) -> Fil {
        Fil {
            products: v["products"].as_array().unwrap().iter().map(|p| (Lin::of(&p[0]), Lin::of(&p[1]))).collect(),
            constants: v["constants"].as_array().unwrap().iter().map(Lin::of).collect(),
        }
    }
    pub fn at(&self, lv: &[F], nv: &[F]) -> F {
        self.products.iter().map(|(a, b)| a.at(lv, nv) * b.at(lv, nv)).sum::<F>() + self.constants.iter().map(|c| c.at(lv, nv)).sum::<F>()
    }
}

/// Columns of a table with a filter.
#[derive(Clone, Debug)]
pub struct Side {
    pub table: usize,
    pub columns: Vec<Lin>,
    pub filter: Fil,
}

impl Side {
    fn of(v: &Value) -> Side {
        Side {
            table: v["table"].as_u64().unwrap() as usize,
            columns: v["columns"].as_array().unwrap().iter().map(Lin::of).collect(),
            filter: Fil::of(&v["filter"]),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cross {
    pub looking: Vec<Side>,
    pub looked: Side,
}

#[derive(Clone, Debug)]
pub struct Within {
    pub columns: Vec<Lin>,
    pub filters: Vec<Fil>,
    pub table: Lin,
    pub frequencies: Lin,
}

pub struct System {
    pub cross: Vec<Cross>,
    pub within: Vec<Vec<Within>>,
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
}

pub fn system(seed: u64) -> System {
    let cross = hk::cross_lookups()
        .iter()
        .map(|c| {
            let v = parse_debug(&format!("{c:?}"));
            Cross {
                looking: v["looking_tables"].as_array().unwrap().iter().map(Side::of).collect(),
                looked: Side::of(&v["looked_table"]),
            }
        })
        .collect();
    let within = (0..hk::TABLES)
        .map(|t| {
            hk::lookups(t)
                .iter()
                .map(|l| Within {
                    columns: l.columns.iter().map(|c| Lin::of(&parse_debug(&format!("{c:?}")))).collect(),
                    filters: l.filter_columns.iter().map(|c| Fil::of(&parse_debug(&format!("{c:?}")))).collect(),
                    table: Lin::of(&parse_debug(&format!("{:?}", l.table_column))),
                    frequencies: Lin::of(&parse_debug(&format!("{:?}", l.frequencies_column))),
                })
                .collect()
        })
        .collect();
    System { cross, within, alpha: random(seed * 3 + 1), beta: random(seed * 3 + 2), gamma: random(seed * 3 + 3) }
}

/// Names of columns, those of arrays with their index.
pub fn names(table: usize) -> BTreeMap<String, usize> {
    fn walk(v: &Value, at: String, out: &mut BTreeMap<String, usize>) {
        match v {
            Value::Number(n) => {
                out.insert(at, n.as_u64().unwrap() as usize);
            }
            Value::Array(l) => {
                for (i, x) in l.iter().enumerate() {
                    walk(x, format!("{at}[{i}]"), out);
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    walk(x, if at.is_empty() { k.clone() } else { format!("{at}.{k}") }, out);
                }
            }
            _ => {}
        }
    }
    let mut out = BTreeMap::new();
    walk(&parse_debug(&hk::layout(table)), String::new(), &mut out);
    out
}

pub type Rows = Vec<Vec<F>>;

pub fn rows(columns: &[PolynomialValues<F>]) -> Rows {
    let n = columns[0].values.len();
    (0..n).map(|i| columns.iter().map(|c| c.values[i]).collect()).collect()
}

/// Sum of weight / value.
fn log_sum(weights: &[F], values: &[F]) -> F {
    F::batch_multiplicative_inverse(values).iter().zip(weights).map(|(a, b)| *a * *b).sum()
}

impl System {
    pub fn combine(&self, cols: &[Lin], lv: &[F], nv: &[F]) -> F {
        let mut r = F::ZERO;
        for c in cols.iter().rev() {
            r = r * self.beta + c.at(lv, nv);
        }
        r + self.gamma
    }

    /// The first row on which some constraint of a table does not hold.
    pub fn violated(&self, table: usize, rows: &Rows) -> Option<usize> {
        let n = rows.len();
        (0..n).find(|&i| hk::eval(table, &rows[i], &rows[(i + 1) % n], [i < n - 1, i == 0, i == n - 1], self.alpha) != F::ZERO)
    }

    /// The first lookup within a table that does not hold.
    pub fn within_broken(&self, table: usize, rows: &Rows) -> Option<usize> {
        let n = rows.len();
        self.within[table].iter().position(|l| {
            let (mut w, mut v) = (vec![], vec![]);
            for i in 0..n {
                let (lv, nv) = (&rows[i], &rows[(i + 1) % n]);
                for (k, c) in l.columns.iter().enumerate() {
                    let f = l.filters.get(k).map(|f| f.at(lv, nv)).unwrap_or(F::ONE);
                    if f != F::ZERO {
                        w.push(f);
                        v.push(c.at(lv, nv) + self.gamma);
                    }
                }
                let f = l.frequencies.at(lv, nv);
                if f != F::ZERO {
                    w.push(-f);
                    v.push(l.table.at(lv, nv) + self.gamma);
                }
            }
            log_sum(&w, &v) != F::ZERO
        })
    }

    pub fn side_sum(&self, s: &Side, rows: &Rows) -> F {
        let n = rows.len();
        let (mut w, mut v) = (vec![], vec![]);
        for i in 0..n {
            let (lv, nv) = (&rows[i], &rows[(i + 1) % n]);
            let f = s.filter.at(lv, nv);
            if f != F::ZERO {
                w.push(f);
                v.push(self.combine(&s.columns, lv, nv));
            }
        }
        log_sum(&w, &v)
    }

    /// The first cross-table lookup that does not hold.
    pub fn cross_broken(&self, tables: &[Option<Rows>], public: &[Vec<F>]) -> Option<usize> {
        let empty: Rows = vec![];
        let get = |t: usize| tables[t].as_ref().unwrap_or(&empty);
        self.cross.iter().enumerate().position(|(k, c)| {
            let mut sum: F = c.looking.iter().map(|s| self.side_sum(s, get(s.table))).sum();
            if k == hk::MEMORY_CTL {
                let v: Vec<F> = public
                    .iter()
                    .map(|r| {
                        let mut x = F::ZERO;
                        for c in r.iter().rev() {
                            x = x * self.beta + *c;
                        }
                        x + self.gamma
                    })
                    .collect();
                sum += log_sum(&vec![F::ONE; v.len()], &v);
            }
            sum != self.side_sum(&c.looked, get(c.looked.table))
        })
    }

    /// Everything that a verifier would check about the tables.
    pub fn holds(&self, tables: &[Option<Rows>], pv: &PublicValues<F>) -> R {
        for (t, rows) in tables.iter().enumerate() {
            let Some(rows) = rows else { continue };
            if let Some(i) = self.violated(t, rows) {
                return Err(format!("a constraint of table {} does not hold on row {i} of {}", NAMES[t], rows.len()));
            }
            if let Some(l) = self.within_broken(t, rows) {
                return Err(format!("lookup {l} of table {} does not hold", NAMES[t]));
            }
        }
        if let Some(c) = self.cross_broken(tables, &hk::public_memory(pv)) {
            return Err(format!("cross-table lookup {c} does not hold"));
        }
        Ok(())
    }
}

pub fn n(x: F) -> u64 {
    x.to_canonical_u64()
}
