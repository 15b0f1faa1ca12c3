//! Async tests: the given functions run in order, over the right data -- and tests pass if & only if, in some attempt, no
//! complexity is worse than expected.
use crate::{util::*, attempts::{self, *}, measured::{self, *}};
use now_future::{ready, Now};

// the steps of an attempt
const RESET: u8 = 0; const WARMUP: u8 = 1; const SECOND_RESET: u8 = 2; const PASS1: u8 = 3; const ASSERTION1: u8 = 4; const IN_BETWEEN_RESET: u8 = 5; const PASS2: u8 = 6; const ASSERTION2: u8 = 7;
const DONE: u8 = 8;

struct Steps {
    magic: u64,
    reset: bool, warmup: bool, assertion1: bool, assertion2: bool,
    /// the step that has to run next -- `DONE` if none
    next: u8,
    /// what the former step produced
    data: Option<u32>,
    n: [u32; 2],
}
static mut S: Steps = Steps { magic: 0x1414_0001, reset: false, warmup: false, assertion1: false, assertion2: false, next: DONE, data: None, n: [0x1414_0002, 0x1414_0003] };

/// the first step from `step` on that was asked for
unsafe fn asked(step: u8) -> u8 {
    let mut step = step;
    if step == RESET            { if S.reset             { return step } step += 1; }
    if step == WARMUP           { if S.warmup            { return step } step += 1; }
    if step == SECOND_RESET     { if S.reset && S.warmup { return step } step += 1; }
    if step == PASS1            { return step }
    if step == ASSERTION1       { if S.assertion1        { return step } step += 1; }
    if step == IN_BETWEEN_RESET { if S.reset             { return step } step += 1; }
    if step == PASS2            { return step }
    if step == ASSERTION2       { if S.assertion2        { return step } step += 1; }
    step
}
/// checks that it is time for a function to run, over the right data
unsafe fn enter(is_it: impl Fn(u8) -> bool) {
    if S.next == DONE {
        // a new attempt
        attempts::start();
        S.next = asked(RESET);
        // attempts not resetting the data of the former one start with none
        if S.next != RESET { S.data = None; }
    }
    assert!(is_it(S.next), "functions run in order");
    if S.next == SECOND_RESET { S.data = None; }
}
fn manipulate(data: Option<u32>, is_it: impl Fn(u8) -> bool) -> u32 {
    unsafe {
        enter(is_it);
        assert!(data == S.data, "functions work on the data the former one produced");
        let produced: u32 = kani::any();
        S.data = Some(produced);
        M.pass = match S.next { PASS1 => 0, PASS2 => 1, _ => 0xEE };
        S.next = asked(S.next + 1);
        produced
    }
}
fn check(data: &u32, is_it: impl Fn(u8) -> bool) {
    unsafe {
        enter(is_it);
        assert!(S.data == Some(*data), "assertions are made on the data the pass produced");
        S.next = asked(S.next + 1);
    }
}

fn check_info(i: &AlgorithmPassesInfo) {
    unsafe {
        assert!(M.pass == 1, "analysis takes place after pass 2");
        assert!(i.pass1_n == S.n[0] && i.pass2_n == S.n[1], "the given set sizes are analysed");
    }
}
fn time_contract(i: &AlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
    check_info(i);
    check_time(m);
    attempts::observed().0
}
fn space_contract(i: &AlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
    check_info(i);
    check_space(m);
    attempts::observed().1
}

fn test(retries: Option<u32>, given: u8, must_pass: bool) {
    let (time, space) = (if kani::any() { Some(any_class()) } else { None }, if kani::any() { Some(any_class()) } else { None });
    kani::assume(attempts::any_outcomes(retries.unwrap_or(0) + 1, time, space) == must_pass);
    let (n1, n2): (u32, u32) = (kani::any(), kani::any());
    // reports -- which are stubbed under Kani -- are about passes over, at least, an element
    #[cfg(not(kani))] kani::assume(n1 > 0 && n2 > 0);
    unsafe {
        S.n = [n1, n2];
        S.reset = given & 1 != 0;
        S.warmup = given & 2 != 0;
        S.assertion1 = given & 4 != 0;
        S.assertion2 = given & 8 != 0;
    }
    kani::cover!(true, "not vacuous");
    let mut test = RegularAsyncAnalyzerBuilder::new("")
        .first_pass(n1, |data: Option<u32>| ready(manipulate(data, |step| step == PASS1)))
        .second_pass(n2, |data: Option<u32>| ready(manipulate(data, |step| step == PASS2)));
    if given & 1 != 0 { test = test.with_reset_fn(|data| ready(manipulate(data, |step| step == RESET || step == SECOND_RESET || step == IN_BETWEEN_RESET))); }
    if given & 2 != 0 { test = test.warmup_pass(|data| ready(manipulate(data, |step| step == WARMUP))); }
    if given & 4 != 0 { test = test.first_pass_assertion(|data| { check(data, |step| step == ASSERTION1); ready(()) }); }
    if given & 8 != 0 { test = test.second_pass_assertion(|data| { check(data, |step| step == ASSERTION2); ready(()) }); }
    if let Some(retries) = retries { test = test.with_max_reattempts(retries); }
    if let Some(time)    = time    { test = test.with_time_measurements(time); }
    if let Some(space)   = space   { test = test.with_space_measurements(space); }
    test.test_algorithm().now();
    assert!(must_pass, "unacceptable complexities are rejected");
    unsafe { assert!(S.next == DONE && attempts::all_started(), "all the functions run"); }
}

macro_rules! proof {
    ($($name: ident = $retries: expr, $given: expr, $must_pass: literal $(, $accepted: literal)?;)+) => {
        $(#[kani::proof]
          #[kani::unwind(5)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::time::Instant::now, measured::now)]
          #[kani::stub(std::time::Instant::elapsed, measured::elapsed)]
          #[kani::stub(std::time::Instant::duration_since, measured::duration_since)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::save_point, measured::save_point)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::delta_statistics, measured::delta_statistics)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity, time_contract)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity, space_contract)]
          fn $name() { test($retries, $given, $must_pass); $(kani::cover!(true, $accepted);)? })+
    }
}
/// the given functions: 1 = reset; 2 = warm up; 4 = assertions on pass 1; 8 = assertions on pass 2
fn any_given() -> u8 { let given: u8 = kani::any(); kani::assume(given < 16); given }
proof! { accepted_0 = None, any_given(), true, "accepted"; accepted_1 = Some(1), any_given(), true, "accepted"; accepted_2_all = Some(2), 15, true, "accepted"; accepted_2_none = Some(2), 0, true, "accepted"; 
 rejected_0 = Some(0), any_given(), false;  rejected_1 = Some(1), any_given(), false; rejected_2_all = Some(2), 15, false; rejected_2_none = Some(2), 0, false; }
