#![allow(clippy::all)]
mod decode;
mod evm;
#[cfg(feature = "tables")]
mod alu;
#[cfg(feature = "tables")]
mod mem;
mod mpt;
mod nibs;
#[cfg(feature = "tables")]
mod segs;
mod smt;
#[cfg(feature = "tables")]
mod tables;
mod util;
mod wire;

#[cfg(feature = "tables")]
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn main() {
    util::install_quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let f = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or_else(|| util::tool_error("missing argument"));
    let rep = match f(0) {
        "mpt-state-map" => mpt::state(f(1), false),
        "mpt-state-root" => mpt::state(f(1), true),
        "mpt-hist-map" => mpt::hist(f(1), false),
        "mpt-hist-root" => mpt::hist(f(1), true),
        "mpt-partial-ops" => mpt::partial_ops(f(1)),
        "mpt-partial-subsets" => mpt::partial_subsets(f(1)),
        "mpt-partial-paths" => mpt::partial_paths(f(1)),
        "smt-state" => smt::state(f(1)),
        "smt-hist" => smt::hist(f(1)),
        "smt-ser" => smt::ser(f(1)),
        "evm-exec" => evm::exec(f(1)),
        "evm-cuts" => evm::cuts(f(1)),
        "evm-claims" => evm::claims(f(1)),
        "decode-chain" => decode::run(f(1), "chain"),
        "decode-roots" => decode::run(f(1), "roots"),
        "decode-run" => decode::run(f(1), "run"),
        "wire" => wire::run(f(1)),
        "nibbles" => nibs::run(f(1)),
        #[cfg(feature = "tables")]
        x => of_tables(x, &f),
        #[cfg(not(feature = "tables"))]
        x => util::tool_error(&format!("unknown command {x}")),
    };
    rep.print();
}

/// What looks into the proof system: built with the hooks in /repo.
#[cfg(feature = "tables")]
fn of_tables<'a>(command: &str, f: &dyn Fn(usize) -> &'a str) -> util::Report {
    match command {
        "mem-honest" => mem::honest_all(f(1), f(2).parse().unwrap(), seed()),
        "alu-honest" => alu::honest(f(1), seed()),
        "alu-forge" => alu::forge(f(1), f(2).parse().unwrap(), f(3).parse().unwrap(), seed()),
        "mem-tables" => mem::explore_all(f(1), seed()),
        "seg-probe" => segs::probe(f(1), f(2).parse().unwrap()),
        x => util::tool_error(&format!("unknown command {x}")),
    }
}
