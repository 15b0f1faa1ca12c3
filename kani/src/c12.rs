//! CRUD analysis: which operations run, over which elements, in which order -- and what is analysed
use crate::{util::*, attempts::*};
use big_o_test::low_level_analysis::types::*;
use runners::crud::analyse_crud_algorithms;
use std::ops::Range;

/// identification of the given functions, as told by what they return
const CREATE: u32 = 0; const READ: u32 = 1; const UPDATE: u32 = 2; const DELETE: u32 = 3; const RESET: u32 = 4;
/// what happens on each run of the given functions
const WARM_UP: u32 = 0; const FIRST: u32 = 1; const SECOND: u32 = 2;
/// the order in which everything happens: `ORDER[function][run]`
const ORDER: [[u8; 3]; 5] = [[1, 6, 9], [2, 7, 10], [3, 8, 11], [4, 12, 13], [5, 0, 0]];

struct Ghost {
    magic: u64,
    warmup: u32,
    /// iterations per pass of each operation -- 0 if it doesn't run
    sizes: [u32; 4],
    threads: [u32; 4],
    /// how many times each function ran
    runs: [u32; 5],
    /// the last thing to happen -- as in [ORDER]
    last: u8,
    /// elements created by the warm up
    warmup_created: u32,
    /// what was measured by each pass: `results[operation][pass]`
    results: [[PassResult; 2]; 4],
    /// the verdicts for each operation
    time:  [Option<BigOAlgorithmComplexity>; 4],
    space: [Option<BigOAlgorithmComplexity>; 4],
}
static mut G: Ghost = Ghost { magic: 0x1212_0001, warmup: 0, sizes: [0; 4], threads: [0; 4], runs: [0; 5], last: 0, warmup_created: 0, results: [[NO_RESULT; 2]; 4], time: [None; 4], space: [None; 4] };

/// tells which run of the function `id` is this one
fn happens(id: u32) -> u32 {
    unsafe {
        let run = G.runs[id as usize] + if G.warmup > 0 { 0 } else { FIRST };
        assert!(run <= SECOND && (id != RESET || run == WARM_UP), "no more passes than needed");
        let position = ORDER[id as usize][run as usize];
        assert!(position > G.last, "operations run in order");
        G.last = position;
        G.runs[id as usize] += 1;
        run
    }
}
/// if `iterations` are `G.warmup` percent of `n` (rounding down)
fn is_warmup(iterations: u32, n: u32) -> bool {
    let (hundreds, exact) = unsafe { (iterations as u64 * 100, n as u64 * G.warmup as u64) };
    hundreds <= exact && exact < hundreds + 100
}
/// tells the results of the passes apart
fn tag(operation: u32, pass: u32) -> u32 { operation * 2 + pass + 1 }

/// contract of an iterator pass: the elements of the range are run (see C09) & any measurements are given (see C10)
pub fn run_iterator_pass_contract<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>(f: &_AlgorithmClosure, _t: &BigOIteratorAlgorithmType, range: Range<u32>, threads: u32) -> (PassResult, u32) {
    let id = f(0);
    assert!(id <= DELETE, "only operations have passes");
    let run = happens(id);
    // ranges may be given in any order
    let (lowest, highest) = (range.start.min(range.end), range.start.max(range.end));
    let mut result = any_pass_result();
    unsafe {
        let n = G.sizes[id as usize];
        assert!(n > 0, "disabled operations don't run");
        assert!(threads == G.threads[id as usize], "operations run on the given number of threads");
        if run == WARM_UP {
            assert!(lowest == 0 && is_warmup(highest, n), "the warm up works on the first elements");
            if id == CREATE { G.warmup_created = highest; }
        } else {
            // deletes start from the last elements
            let pass = if (run == FIRST) == (id != DELETE) { 0 } else { 1 };
            let (start, end) = if pass == 0 { (0, n) } else { (n, n + n) };
            assert!(lowest == start && highest == end, "each pass works on its own elements");
            result.time_measurements = Duration::new(result.time_measurements.as_secs(), tag(id, pass));
            result.space_measurements.used_memory_before = tag(id, pass) as usize;
            G.results[id as usize][pass as usize] = result;
        }
    }
    (result, kani::any())
}
fn reset(elements: u32) -> u32 {
    happens(RESET);
    unsafe { assert!(elements == G.warmup_created, "reset gets the number of created elements"); }
    kani::any()
}

/// the operation whose passes had their results tagged with `pass_1` & `pass_2`
fn operation_of(pass_1: u32, pass_2: u32) -> usize {
    assert!(pass_1 > 0 && pass_1 <= 8 && pass_1 % 2 == 1 && pass_2 == pass_1 + 1, "passes 1 & 2 of the same operation are analysed");
    (pass_1 as usize - 1) / 2
}
fn same_time_measurements(m: &BigOTimeMeasurements) -> usize {
    let op = operation_of(m.pass_1_measurements.subsec_nanos(), m.pass_2_measurements.subsec_nanos());
    unsafe { assert!(m.pass_1_measurements == G.results[op][0].time_measurements && m.pass_2_measurements == G.results[op][1].time_measurements, "the measured times are analysed"); }
    op
}
fn same_space_measurements(m: &BigOSpaceMeasurements) -> usize {
    let op = operation_of(m.pass_1_measurements.used_memory_before as u32, m.pass_2_measurements.used_memory_before as u32);
    unsafe { assert!(same_space(&m.pass_1_measurements, &G.results[op][0].space_measurements) && same_space(&m.pass_2_measurements, &G.results[op][1].space_measurements), "the measured space is analysed"); }
    op
}
fn check_constant_set(i: &ConstantSetIteratorAlgorithmPassesInfo, op: usize) {
    unsafe {
        assert!(op == 1 || op == 2, "reads & updates operate over a constant set");
        assert!(i.pass_1_set_size == G.sizes[0], "set size for pass 1");
        assert!(i.pass_2_set_size == G.sizes[0] * 2, "set size for pass 2");
        assert!(i.repetitions == G.sizes[op], "repetitions");
    }
}
fn check_set_resizing(i: &SetResizingIteratorAlgorithmPassesInfo, op: usize) {
    unsafe {
        assert!(op == 0 || op == 3, "creates & deletes resize the set");
        assert!(i.delta_set_size == G.sizes[op], "number of added or removed elements");
    }
}
fn constant_set_time(i: &ConstantSetIteratorAlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
    let (op, c) = (same_time_measurements(m), any_class());
    check_constant_set(i, op);
    unsafe { G.time[op] = Some(c); }
    c
}
fn constant_set_space(i: &ConstantSetIteratorAlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
    let (op, c) = (same_space_measurements(m), any_class());
    check_constant_set(i, op);
    unsafe { G.space[op] = Some(c); }
    c
}
fn set_resizing_time(i: &SetResizingIteratorAlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
    let (op, c) = (same_time_measurements(m), any_class());
    check_set_resizing(i, op);
    unsafe { G.time[op] = Some(c); }
    c
}
fn set_resizing_space(i: &SetResizingIteratorAlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
    let (op, c) = (same_space_measurements(m), any_class());
    check_set_resizing(i, op);
    unsafe { G.space[op] = Some(c); }
    c
}

fn analysed<T: BigOAlgorithmMeasurements>(analysis: &Option<BigOAlgorithmAnalysis<T>>, op: usize) {
    unsafe {
        let runs = G.sizes[op] > 0;
        match analysis {
            Some(a) => {
                assert!(runs, "operations that don't run are not analysed");
                assert!(G.time[op] == Some(a.time_complexity), "the time verdict is the one for this operation");
                assert!(G.space[op] == Some(a.space_complexity), "the space verdict is the one for this operation");
            },
            None => assert!(!runs, "operations that run are analysed"),
        }
    }
}

/// tells if all & if none of the operations ran
fn analyse(warmup: u32, possible: impl Fn(u32) -> bool) -> (bool, bool) {
    let n: [u32; 4] = kani::any();
    let threads: [u32; 4] = kani::any();
    let mut op = 0;
    while op < 4 {
        kani::assume(possible(n[op]));
        unsafe {
            G.sizes[op] = if threads[op] > 0 { n[op] } else { 0 };
            G.threads[op] = threads[op];
        }
        op += 1;
    }
    unsafe { G.warmup = warmup; }
    let (create, read, update, delete, report) = analyse_crud_algorithms("", reset, |_| CREATE, |_| READ, |_| UPDATE, |_| DELETE,
                                                                         warmup, n[0], n[1], n[2], n[3], threads[0], threads[1], threads[2], threads[3]);
    unsafe {
        let warmups = if warmup > 0 { 1 } else { 0 };
        let mut op = 0;
        while op < 4 {
            assert!(G.runs[op] == if G.sizes[op] > 0 { warmups + 2 } else { 0 }, "all the enabled operations run");
            op += 1;
        }
        assert!(G.runs[RESET as usize] == warmups, "reset runs after warming up");
    }
    analysed(&create, 0);
    analysed(&read, 1);
    analysed(&update, 2);
    analysed(&delete, 3);
    let result = (create.is_some() && read.is_some() && update.is_some() && delete.is_some(), create.is_none() && read.is_none() && update.is_none() && delete.is_none());
    std::mem::forget((create, read, update, delete, report));
    result
}

fn addressable(n: u32) -> bool { n <= ADDRESSABLE }
fn no_time() -> Instant { unsafe { std::mem::transmute::<(i64, u32), Instant>((1, 1)) } }
fn none_elapsed(_i: &Instant) -> Duration { Duration::ZERO }
fn none_since(_a: &Instant, _b: Instant) -> Duration { Duration::ZERO }

/// the most elements an operation may have per pass, so all of them may be numbered
const ADDRESSABLE: u32 = u32::MAX / 2;

macro_rules! proof {
    ($($name: ident $body: block)+) => {
        $(#[kani::proof]
          #[kani::unwind(6)]
          #[kani::stub(std::time::Instant::now, no_time)]
          #[kani::stub(std::time::Instant::elapsed, none_elapsed)]
          #[kani::stub(std::time::Instant::duration_since, none_since)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::string::String::push_str, push_str_stub)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity_for_constant_set_iterator_algorithm, constant_set_time)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity_for_constant_set_iterator_algorithm, constant_set_space)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity_for_set_resizing_iterator_algorithm, set_resizing_time)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity_for_set_resizing_iterator_algorithm, set_resizing_space)]
          #[kani::stub(big_o_test::runners::common::run_iterator_pass, run_iterator_pass_contract)]
          fn $name() $body)+
    }
}
proof! {
    without_warmup { let (all, none) = analyse(0, addressable); kani::cover!(all, "all the operations"); kani::cover!(none, "no operations"); }
    warmup_1       { let (all, _) = analyse(1, addressable); kani::cover!(all, "all the operations"); }
    big_warmup     { let (all, _) = analyse(100, |n| n == 0 || n == 42_949_673 || n == ADDRESSABLE); kani::cover!(all, "all the operations"); }
    warmup_100     { let (all, _) = analyse(100, addressable); kani::cover!(all, "all the operations"); }
    any_warmup     { let warmup: u32 = kani::any(); kani::assume(warmup > 0 && warmup <= 100); let (all, _) = analyse(warmup, |n| n <= 100); kani::cover!(all, "all the operations"); }
}
