//! The retry policy: what each attempt observes is chosen beforehand, so what must happen is known from the start
use crate::util::*;
use big_o_test::BigOAlgorithmComplexity;

pub const MAX: usize = 5;
pub struct Attempts {
    magic: u64,
    /// number of attempts started so far
    started: u32,
    /// number of attempts that must be made
    must_start: u32,
    observed: [(BigOAlgorithmComplexity, BigOAlgorithmComplexity); MAX],
}
pub static mut A: Attempts = Attempts { magic: 0xA77E_0001, started: 0, must_start: 0, observed: [(BigOAlgorithmComplexity::O1, BigOAlgorithmComplexity::O1); MAX] };

/// chooses what each of the attempts will observe & tells if the test must pass
pub fn any_outcomes(attempts: u32, expected_time: Option<BigOAlgorithmComplexity>, expected_space: Option<BigOAlgorithmComplexity>) -> bool {
    let (max_time, max_space) = (expected_time.map(rank).unwrap_or(u8::MAX), expected_space.map(rank).unwrap_or(u8::MAX));
    unsafe {
        let mut i = 0;
        while i < attempts as usize { A.observed[i] = (any_class(), any_class()); i += 1; }
        let mut i = 0;
        while i < attempts as usize {
            A.must_start = i as u32 + 1;
            let (time, space) = A.observed[i];
            if rank(space) > max_space { return false; }        // space mismatches are final
            if rank(time) <= max_time { return true; }          // time mismatches are retried
            i += 1;
        }
        false
    }
}
pub fn start() {
    unsafe {
        A.started += 1;
        assert!(A.started <= A.must_start, "only time mismatches are retried, no more than the given number of times");
    }
}
pub fn started() -> u32 { unsafe { A.started } }
pub fn observed() -> (BigOAlgorithmComplexity, BigOAlgorithmComplexity) { unsafe { A.observed[A.started as usize - 1] } }
pub fn all_started() -> bool { unsafe { A.started == A.must_start } }

pub fn any_pass_result() -> PassResult {
    PassResult {
        time_measurements: Duration::new(kani::any::<u32>() as u64, 0),
        space_measurements: BigOSpacePassMeasurements { used_memory_before: kani::any(), used_memory_after: kani::any(), min_used_memory: kani::any(), max_used_memory: kani::any() },
    }
}
pub const NO_RESULT: PassResult = PassResult {
    time_measurements: Duration::new(0xA77E_0002, 0xA77E),
    space_measurements: BigOSpacePassMeasurements { used_memory_before: 0xA77E_0003, used_memory_after: 0xA77E_0004, min_used_memory: 0xA77E_0005, max_used_memory: 0xA77E_0006 },
};
