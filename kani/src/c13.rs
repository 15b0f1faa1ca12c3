//! CRUD tests: which combinations of complexities are acceptable -- and what happens when they aren't.
//!
//! What is observed on each attempt is chosen beforehand, so what should happen is known from the start.
use crate::{util::*, attempts::*};
use big_o_test::low_level_analysis::types::*;
use runners::crud::test_crud_algorithms;
use std::{ops::Range, collections::BTreeMap};

/// identification of the given functions, as told by what they return
const CREATE: u32 = 0; const READ: u32 = 1; const UPDATE: u32 = 2; const DELETE: u32 = 3; const RESET: u32 = 4;
const MAX_ATTEMPTS: usize = 4;

type Pair = (u8, u8);
struct Ghost {
    magic: u64,
    enabled: [bool; 4],
    /// the attempt going on
    attempt: usize,
    /// number of attempts that must be made
    must_start: usize,
    /// passes run for each operation, on this attempt
    passes: [u32; 4],
    /// ranks of the time & space complexities observed for each operation on each attempt
    observed: [[Pair; 4]; MAX_ATTEMPTS],
    time_analysed: [bool; 4],
    space_analysed: [bool; 4],
}
static mut G: Ghost = Ghost { magic: 0x1313_0001, enabled: [false; 4], attempt: 0, must_start: 0, passes: [0; 4], observed: [[(0, 0); 4]; MAX_ATTEMPTS], time_analysed: [false; 4], space_analysed: [false; 4] };

fn tag(operation: u32, pass: u32) -> u32 { operation * 2 + pass + 1 }

/// contract of an iterator pass: the elements of the range are run (see C09) & any measurements are given (see C10)
pub fn run_iterator_pass_contract<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>(f: &_AlgorithmClosure, _t: &BigOIteratorAlgorithmType, _range: Range<u32>, _threads: u32) -> (PassResult, u32) {
    let id = f(0);
    let mut result = NO_RESULT;
    unsafe {
        assert!(G.enabled[id as usize], "disabled operations don't run");
        let run = G.passes[id as usize];
        assert!(run < 2, "two passes per operation, per attempt -- with a reset in between attempts");
        G.passes[id as usize] += 1;
        let pass = if (run == 0) == (id != DELETE) { 0 } else { 1 };
        result.time_measurements = Duration::new(1, tag(id, pass));
        result.space_measurements.used_memory_before = tag(id, pass) as usize;
    }
    (result, 0)
}
fn reset(_elements: u32) -> u32 {
    unsafe {
        G.attempt += 1;
        assert!(G.attempt < G.must_start, "only time mismatches are retried, no more than the given number of times");
        G.passes = [0; 4];
        G.time_analysed = [false; 4];
        G.space_analysed = [false; 4];
    }
    0
}

/// the operation whose passes had their results tagged with `pass_1` & `pass_2`
fn operation_of(pass_1: u32, pass_2: u32) -> usize {
    assert!(pass_1 > 0 && pass_1 <= 8 && pass_1 % 2 == 1 && pass_2 == pass_1 + 1, "passes 1 & 2 of the same operation are analysed");
    let op = (pass_1 as usize - 1) / 2;
    unsafe { assert!(G.passes[op] == 2, "analysis takes place after both passes"); }
    op
}
fn time(m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
    let op = operation_of(m.pass_1_measurements.subsec_nanos(), m.pass_2_measurements.subsec_nanos());
    unsafe {
        G.time_analysed[op] = true;
        CLASSES[G.observed[G.attempt][op].0 as usize]
    }
}
fn space(m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
    let op = operation_of(m.pass_1_measurements.used_memory_before as u32, m.pass_2_measurements.used_memory_before as u32);
    unsafe {
        G.space_analysed[op] = true;
        CLASSES[G.observed[G.attempt][op].1 as usize]
    }
}
fn constant_set_time(_i: &ConstantSetIteratorAlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity { time(m) }
fn constant_set_space(_i: &ConstantSetIteratorAlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity { space(m) }
fn set_resizing_time(_i: &SetResizingIteratorAlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity { time(m) }
fn set_resizing_space(_i: &SetResizingIteratorAlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity { space(m) }

fn any_rank() -> u8 { any_below(kani::any(), 17) as u8 }

/// `only`: the only operation to be enabled -- with a single iteration per pass
fn test(given_attempts: u32, only: Option<u32>, must_pass: bool) {
    let sizes: [u8; 4] = kani::any();
    let threads: [u32; 4] = if only.is_some() { [1; 4] } else { kani::any() };
    let mut n = [0; 4];
    let expected: [Pair; 4] = [(any_rank(), any_rank()), (any_rank(), any_rank()), (any_rank(), any_rank()), (any_rank(), any_rank())];
    let attempts = given_attempts.max(1) as usize;
    let mut op = 0;
    while op < 4 {
        n[op] = match only { Some(only) => (op == only as usize) as u32, None => [0, 1, 1000][any_below(sizes[op], 3)] };
        unsafe { G.enabled[op] = n[op] > 0 && threads[op] > 0; }
        op += 1;
    }
    // what is to be observed -- and what must be concluded
    let mut passes = false;
    let mut over = false;
    let mut attempt = 0;
    while attempt < attempts {
        let (mut time_mismatch, mut space_mismatch) = (false, false);
        let mut op = 0;
        while op < 4 {
            let observed = (any_rank(), any_rank());
            unsafe {
                G.observed[attempt][op] = observed;
                if G.enabled[op] && observed.0 > expected[op].0 { time_mismatch = true; }
                if G.enabled[op] && observed.1 > expected[op].1 { space_mismatch = true; }
            }
            op += 1;
        }
        if !over {
            unsafe { G.must_start = attempt + 1; }
            // whether to retry or not is up to the operation for which a mismatch is found first
            kani::assume(!(time_mismatch && space_mismatch && attempt + 1 < attempts));
            if !time_mismatch && !space_mismatch { passes = true; }
            if !time_mismatch || space_mismatch { over = true; }
        }
        attempt += 1;
    }
    kani::assume(passes == must_pass);
    kani::cover!(true, "not vacuous");
    let class = |r: u8| CLASSES[r as usize];
    test_crud_algorithms("", given_attempts, reset,
                         |_| CREATE, class(expected[0].0), class(expected[0].1),
                         |_| READ,   class(expected[1].0), class(expected[1].1),
                         |_| UPDATE, class(expected[2].0), class(expected[2].1),
                         |_| DELETE, class(expected[3].0), class(expected[3].1),
                         0, n[0], n[1], n[2], n[3], threads[0], threads[1], threads[2], threads[3]);
    assert!(must_pass, "unacceptable complexities are rejected");
    unsafe {
        assert!(G.attempt + 1 == G.must_start, "time mismatches are retried");
        let mut op = 0;
        while op < 4 {
            assert!(G.passes[op] == if G.enabled[op] { 2 } else { 0 }, "all the enabled operations run");
            assert!(G.time_analysed[op] == G.enabled[op] && G.space_analysed[op] == G.enabled[op], "all the enabled operations are analysed");
            op += 1;
        }
    }
}

fn no_time() -> Instant { unsafe { std::mem::transmute::<(i64, u32), Instant>((1, 1)) } }
fn none_elapsed(_i: &Instant) -> Duration { Duration::ZERO }
fn none_since(_a: &Instant, _b: Instant) -> Duration { Duration::ZERO }

// the report on failed attempts is not verified
fn insert<K: Ord, V, A: std::alloc::Allocator + Clone>(_map: &mut BTreeMap<K, V, A>, key: K, value: V) -> Option<V> { std::mem::forget((key, value)); None }

macro_rules! proof {
    ($($name: ident = $attempts: literal, $only: expr, $must_pass: literal $(, $accepted: literal)?;)+) => {
        $(#[kani::proof]
          #[kani::unwind(8)]
          #[kani::stub(std::time::Instant::now, no_time)]
          #[kani::stub(std::time::Instant::elapsed, none_elapsed)]
          #[kani::stub(std::time::Instant::duration_since, none_since)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::string::String::push_str, push_str_stub)]
          #[kani::stub(std::collections::BTreeMap::insert, insert)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity_for_constant_set_iterator_algorithm, constant_set_time)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity_for_constant_set_iterator_algorithm, constant_set_space)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity_for_set_resizing_iterator_algorithm, set_resizing_time)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity_for_set_resizing_iterator_algorithm, set_resizing_space)]
          #[kani::stub(big_o_test::runners::common::run_iterator_pass, run_iterator_pass_contract)]
          fn $name() { test($attempts, $only, $must_pass); $(kani::cover!(true, $accepted);)? })+
    }
}
proof! {
    accepted_0 = 0, None, true, "accepted";   accepted_1 = 1, None, true, "accepted";   accepted_2 = 2, None, true, "accepted";   accepted_3 = 3, None, true, "accepted";
    rejected_0 = 0, None, false;  rejected_1 = 1, None, false;  rejected_2 = 2, None, false;  rejected_3 = 3, None, false;
    create_4 = 4, Some(CREATE), true, "accepted";  rejected_create_4 = 4, Some(CREATE), false;
    delete_4 = 4, Some(DELETE), true, "accepted";  rejected_delete_4 = 4, Some(DELETE), false;
}
