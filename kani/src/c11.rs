//! Regular algorithms: tests pass if & only if, in some attempt, no complexity is worse than expected.
//!
//! What is observed on each attempt is chosen beforehand (`OUTCOMES`), so what should happen is known from the start.
use crate::{util::*, attempts::{self, *}, measured::{self, *}};

const RESET: u8 = 1; const PASS1: u8 = 2; const PASS2: u8 = 3;
static mut STEPS: (u64, u8, [u32; 2]) = (0x1111_0001, 0, [0x1111_0002, 0x1111_0003]);

fn step(expected_previous: u8, this: u8) {
    unsafe {
        assert!(STEPS.1 == expected_previous, "reset, pass 1 & pass 2 run in this order");
        STEPS.1 = this;
        M.pass = this.wrapping_sub(PASS1);
    }
}
fn check_info(i: &AlgorithmPassesInfo) {
    unsafe {
        assert!(STEPS.1 == PASS2, "analysis takes place after pass 2");
        assert!(i.pass1_n == STEPS.2[0] && i.pass2_n == STEPS.2[1], "the given set sizes are analysed");
    }
}
fn time_contract(i: &AlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity {
    check_info(i);
    check_time(m);
    attempts::observed().0
}
fn space_contract(i: &AlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity {
    check_info(i);
    check_space(m);
    attempts::observed().1
}

fn test(retries: u32, must_pass: bool) {
    let (time, space) = (any_class(), any_class());
    kani::assume(attempts::any_outcomes(retries + 1, Some(time), Some(space)) == must_pass);
    let (n1, n2): (u32, u32) = (kani::any(), kani::any());
    // reports -- which are stubbed under Kani -- are about passes over, at least, an element
    #[cfg(not(kani))] kani::assume(n1 > 0 && n2 > 0);
    unsafe { STEPS.2 = [n1, n2]; }
    kani::cover!(true, "not vacuous");
    test_algorithm("", retries,
                   || { step(if attempts::started() == 0 { 0 } else { PASS2 }, RESET); attempts::start(); },
                   n1, || { step(RESET, PASS1); kani::any() },
                   n2, || { step(PASS1, PASS2); kani::any() },
                   time, space);
    assert!(must_pass, "unacceptable complexities are rejected");
    unsafe { assert!(STEPS.1 == PASS2 && attempts::all_started(), "all the passes run"); }
}

macro_rules! proof {
    ($($name: ident = $retries: literal, $must_pass: literal $(, $accepted: literal)?;)+) => {
        $(#[kani::proof]
          #[kani::unwind(7)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::time::Instant::now, measured::now)]
          #[kani::stub(std::time::Instant::elapsed, measured::elapsed)]
          #[kani::stub(std::time::Instant::duration_since, measured::duration_since)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::save_point, measured::save_point)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::delta_statistics, measured::delta_statistics)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity, time_contract)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity, space_contract)]
          fn $name() { test($retries, $must_pass); $(kani::cover!(true, $accepted);)? })+
    }
}
proof! {
    accepted_0 = 0, true, "accepted";   accepted_1 = 1, true, "accepted";   accepted_2 = 2, true, "accepted";   accepted_4 = 4, true, "accepted";
    rejected_0 = 0, false;  rejected_1 = 1, false;  rejected_2 = 2, false;  rejected_4 = 4, false;
}
