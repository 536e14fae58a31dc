//! Shared plumbing: reading what TLC emitted, running cases, reporting.
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

use serde_json::{json, Value};

pub type R<T = ()> = Result<T, String>;

/// Lines written by TLC's CSVWrite(ToJson(..)): each is a JSON string holding JSON.
pub fn read_emitted(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| tool_error(&format!("{path}: {e}")));
    let lines: Vec<String> = std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| l.starts_with("\"{") || l.starts_with('{'))
        .collect();
    par_map(&lines, |l| parse_emitted(l))
}

pub fn parse_emitted(l: &str) -> Value {
    match serde_json::from_str::<Value>(l) {
        Ok(Value::String(s)) => {
            serde_json::from_str(&s)
                .unwrap_or_else(|e| tool_error(&format!("bad emitted JSON: {e}: {s}")))
        }
        Ok(v) => v,
        Err(e) => tool_error(&format!("bad emitted line: {e}: {l}")),
    }
}

pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR: {msg}");
    std::process::exit(2)
}

pub fn threads() -> usize {
    std::env::var("ZKVH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

pub fn par_map<T: Sync, U: Send>(items: &[T], f: impl Fn(&T) -> U + Sync) -> Vec<U> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, U)>> = Mutex::new(Vec::with_capacity(items.len()));
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let lo = next.fetch_add(16, Ordering::Relaxed);
                    if lo >= items.len() {
                        break;
                    }
                    let hi = (lo + 16).min(items.len());
                    let r: Vec<(usize, U)> = (lo..hi).map(|i| (i, f(&items[i]))).collect();
                    out.lock().unwrap().extend(r);
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// Like par_map with one item per grab, for expensive items.
pub fn par_map1<T: Sync, U: Send>(items: &[T], f: impl Fn(&T) -> U + Sync) -> Vec<U> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, U)>> = Mutex::new(Vec::with_capacity(items.len()));
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(&items[i]);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// A panic in the code under test is data.
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

/// Value of a call that may panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default)]
pub struct Report {
    pub traces: usize,
    pub checks: usize,
    pub violations: Vec<Value>,
    pub samples: Vec<Value>,
    pub extra: serde_json::Map<String, Value>,
}

impl Report {
    /// Runs every case, in parallel; a case returns how many comparisons it made.
    pub fn run(&mut self, cases: &[Value], f: impl Fn(&Value) -> R<usize> + Sync) {
        let res = par_map(cases, |c| guard(|| f(c)));
        self.absorb(cases, res);
    }
    pub fn run1(&mut self, cases: &[Value], f: impl Fn(&Value) -> R<usize> + Sync) {
        let res = par_map1(cases, |c| guard(|| f(c)));
        self.absorb(cases, res);
    }
    pub fn absorb(&mut self, cases: &[Value], res: Vec<R<usize>>) {
        for (c, r) in cases.iter().zip(res) {
            self.traces += 1;
            match r {
                Ok(n) => self.checks += n,
                Err(e) => {
                    if self.violations.len() < 200 {
                        self.violations.push(json!({"what": e, "case": c}));
                    }
                }
            }
        }
        for c in cases.iter().take(2) {
            if self.samples.len() < 4 {
                let s = c.to_string();
                self.samples.push(if s.len() > 1500 { Value::String(format!("{}...", s.chars().take(1500).collect::<String>())) } else { c.clone() });
            }
        }
    }
    pub fn print(&self) {
        let mut m = self.extra.clone();
        m.insert("traces".into(), json!(self.traces));
        m.insert("checks".into(), json!(self.checks));
        m.insert("violations".into(), json!(self.violations));
        m.insert("samples".into(), json!(self.samples));
        println!("RESULT {}", Value::Object(m));
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap_or_else(|| tool_error(&format!("not a byte list: {v}"))).iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| tool_error(&format!("not a list: {v}")))
}
pub fn u(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| tool_error(&format!("not a natural: {v}")))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| tool_error(&format!("not a string: {v}")))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
