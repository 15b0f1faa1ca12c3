//! Shared stubs & ghost state.
//!
//! NOTE: ghost statics bear unique & non-zero initial values, as Kani may merge constants having the same contents.
pub use big_o_test::*;
pub use big_o_test::low_level_analysis::types::*;
#[cfg(any(verif = "analysis", verif = "runners", verif = "presentable", verif = "measurer"))]
pub use big_o_test::verif_hooks::*;
pub use big_o_test::metrics_allocator::*;
pub use std::time::{Instant, Duration};
use big_o_test::metrics_allocator::ring_buffer::RingBufferOverflowError;
use BigOAlgorithmComplexity::*;

/// the 17 complexity classes, in order
pub const CLASSES: [BigOAlgorithmComplexity; 17] = [BetterThanO1, O1, BetweenO1AndOLogN, OLogN, BetweenOLogNAndON, ON, BetweenONAndONLogN, ONLogN,
    BetweenONLogNAndON2, ON2, BetweenON2AndON3, ON3, BetweenON3AndON4, ON4, BetweenON4AndOkN, OkN, WorseThanExponential];

pub fn rank(c: BigOAlgorithmComplexity) -> u8 {
    match c { BetterThanO1 => 0, O1 => 1, BetweenO1AndOLogN => 2, OLogN => 3, BetweenOLogNAndON => 4, ON => 5, BetweenONAndONLogN => 6, ONLogN => 7,
              BetweenONLogNAndON2 => 8, ON2 => 9, BetweenON2AndON3 => 10, ON3 => 11, BetweenON3AndON4 => 12, ON4 => 13, BetweenON4AndOkN => 14, OkN => 15,
              WorseThanExponential => 16 }
}
pub fn any_class() -> BigOAlgorithmComplexity {
    let x: u8 = kani::any();
    CLASSES[any_below(x, 17)]
}
/// `x`, assumed to be below `n` -- natively, `x` is often random: so as not to reject most of them, they're folded
pub fn any_below(x: u8, n: u8) -> usize {
    #[cfg(not(kani))] let x = x % n;
    kani::assume(x < n);
    x as usize
}

/// a monotonic clock: `Instant`s are (seconds, nanoseconds) pairs, never going backwards
pub struct Clock { magic: u64, last: (i64, u32) }
pub static mut CLOCK: Clock = Clock { magic: 0xC10C_0001, last: (1, 1) };
pub fn raw(i: &Instant) -> (i64, u32) { unsafe { std::mem::transmute_copy(i) } }
pub fn now_stub() -> Instant {
    let s: u32 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n < 1_000_000_000);
    unsafe {
        kani::assume((s as i64, n) >= CLOCK.last);
        CLOCK.last = (s as i64, n);
        std::mem::transmute::<(i64, u32), Instant>((s as i64, n))
    }
}
pub fn since(a: (i64, u32), b: (i64, u32)) -> Duration {
    if a < b { return Duration::ZERO; }
    if a.1 >= b.1 { Duration::new((a.0 - b.0) as u64, a.1 - b.1) } else { Duration::new((a.0 - b.0 - 1) as u64, a.1 + 1_000_000_000 - b.1) }
}
pub fn duration_since_stub(a: &Instant, b: Instant) -> Duration { since(raw(a), raw(&b)) }
pub fn elapsed_stub(a: &Instant) -> Duration { let now = now_stub(); since(raw(&now), raw(a)) }
pub fn sleep_stub(_d: Duration) {}
/// hints for whoever waits
pub fn nothing_stub() {}
pub fn format_stub(_a: std::fmt::Arguments<'_>) -> String { String::new() }
pub fn push_str_stub(_s: &mut String, _text: &str) {}

#[cfg(verif = "runners")]
pub fn same_space(a: &BigOSpacePassMeasurements, b: &BigOSpacePassMeasurements) -> bool {
    a.used_memory_before == b.used_memory_before && a.used_memory_after == b.used_memory_after && a.min_used_memory == b.min_used_memory && a.max_used_memory == b.max_used_memory
}
#[cfg(verif = "allocator")]
pub fn stats(cur: usize, min: usize, max: usize) -> MetricsAllocatorStatistics<usize> {
    verif::statistics([0, 0, 0, 0, 0, 0, 0, 0, 0, cur, min, max])
}

/// uninterpreted `f64` functions: the arithmetic operators in here are turned into uninterpreted functions before the
/// obligations are handed to the SMT solvers -- being the tags used nowhere else, any real function is a model of these
pub fn log2_stub(x: f64) -> f64 { x / 0.7771234501 }
pub fn powf_stub(x: f64, y: f64) -> f64 { (x / 0.7771234502) - y }
pub fn powi_stub(x: f64, y: i32) -> f64 { (x / 0.7771234503) - (y as f64) }

/// anything the allocator & the conversions may give -- for properties not depending on them
pub fn any_f64(_d: &Duration) -> f64 { 1.0 }
pub fn any_duration(_s: f64) -> Duration { Duration::new(kani::any::<u32>() as u64, 0) }
#[cfg(verif = "allocator")]
pub fn any_save_point<'x, 'y: 'y, const RING_BUFFER_SIZE: usize>(a: &'x MetricsAllocator<'y, RING_BUFFER_SIZE>) -> MetricsAllocatorSavePoint<'x, RING_BUFFER_SIZE> {
    verif::save_point(a, stats(kani::any(), kani::any(), kani::any()), 0)
}
#[cfg(verif = "allocator")]
pub fn any_delta<'y: 'y, const RING_BUFFER_SIZE: usize>(_a: &MetricsAllocator<'y, RING_BUFFER_SIZE>, _sp: &MetricsAllocatorSavePoint<'_, RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
    Ok(stats(kani::any(), kani::any(), kani::any()))
}
