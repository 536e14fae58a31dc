//! Payloads cut into segments.
use evm_arithmetization::generation::generate_traces;
use evm_arithmetization::{AllStark, SegmentDataIterator, StarkConfig};
use evm_arithmetization::verif_hooks as hk;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::util::timing::TimingTree;

use crate::evm::{block, payload};
use crate::tables::*;
use crate::util::*;

pub fn probe(path: &str, log: usize) -> Report {
    let cases = read_emitted(path);
    let b = block(&cases[0]);
    let inputs = payload(&b, 0, b.txs.len(), true);
    let sys = system(1);
    for x in SegmentDataIterator::<F>::new(&inputs, Some(log)) {
        let (tr, mut data) = x.ok().expect("runs");
        let v = hk::view(&data);
        eprintln!("segment {} {:?} -> {:?} memory {} pre {:?}", v.index, v.registers_before, v.registers_after, v.memory.len(), v.preinitialized.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>());
        let t = std::time::Instant::now();
        let tp = generate_traces(&AllStark::<F, 2>::default(), &tr, &StarkConfig::standard_fast_config(), &mut data, &mut TimingTree::default()).expect("traces");
        eprintln!("  traces {:?}: {:?} {:?}", t.elapsed(), tp.tables.iter().map(|t| t[0].values.len()).collect::<Vec<_>>(), tp.table_in_use);
        let t = std::time::Instant::now();
        let ts: Vec<Option<Rows>> = (0..9).map(|i| tp.table_in_use[i].then(|| rows(&tp.tables[i]))).collect();
        eprintln!("  rows {:?}", t.elapsed());
        let t = std::time::Instant::now();
        eprintln!("  {:?} {:?}", sys.holds(&ts, &tp.public_values), t.elapsed());
    }
    Report::default()
}
