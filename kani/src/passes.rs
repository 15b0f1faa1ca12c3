//! Contracts for what a pass depends on:
//!   * the clock, which is advanced only by `tick()`;
//!   * the metrics allocator, whose save points & deltas are recorded -- and may be anything.
use crate::util::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBufferOverflowError, verif::overflow_error};
use std::time::{Duration, Instant};

pub struct Ghost {
    magic: u64,
    /// seconds -- advanced by the algorithm & by what surrounds it
    pub clock: u32,
    pub save_points: u32, pub deltas: u32,
    pub before: usize,
    pub after: usize, pub min: usize, pub max: usize,
    pub fails: bool,
    /// set when the algorithm runs
    pub ran: u32,
}
pub static mut G: Ghost = Ghost { magic: 0x9A55_0001, clock: 1, save_points: 0, deltas: 0, before: 0, after: 0, min: 0, max: 0, fails: false, ran: 0 };

pub fn tick(seconds: u32) { unsafe { G.clock += seconds; } }
pub fn any_seconds() -> u32 { let s: u32 = kani::any(); kani::assume(s < 16); s }

pub fn now() -> Instant { unsafe { std::mem::transmute::<(i64, u32), Instant>((G.clock as i64, 0)) } }
pub fn elapsed(i: &Instant) -> Duration { unsafe { Duration::new(G.clock as u64 - raw(i).0 as u64, 0) } }
pub fn duration_since(a: &Instant, b: Instant) -> Duration { Duration::new((raw(a).0 - raw(&b).0) as u64, 0) }
pub fn as_secs_f64(d: &Duration) -> f64 { d.as_secs() as u32 as f64 }
pub fn from_secs_f64(s: f64) -> Duration { Duration::new(s as u32 as u64, ((s - (s as u32) as f64) * 16.0) as u32) }

pub fn save_point<'x, 'y: 'y, const RING_BUFFER_SIZE: usize>(a: &'x MetricsAllocator<'y, RING_BUFFER_SIZE>) -> MetricsAllocatorSavePoint<'x, RING_BUFFER_SIZE> {
    unsafe {
        assert!(G.save_points == 0 && G.ran == 0, "memory measurements start once, before the algorithm");
        G.save_points += 1;
        G.before = kani::any();
        G.clock += 1;
        verif::save_point(a, stats(G.before, kani::any(), kani::any()), 0)
    }
}
pub fn delta_statistics<'y: 'y, const RING_BUFFER_SIZE: usize>(a: &MetricsAllocator<'y, RING_BUFFER_SIZE>, sp: &MetricsAllocatorSavePoint<'_, RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
    unsafe {
        assert!(G.save_points == 1 && G.ran > 0, "memory measurements end after the algorithm");
        G.deltas += 1;
        G.clock += 1;
        G.after = kani::any(); G.min = kani::any(); G.max = kani::any();
        G.fails = kani::any();
        if G.fails { Err(overflow_error()) } else { Ok(stats(G.after, G.min, G.max)) }
    }
}
/// the measurements reported are the ones the allocator gave -- or the documented sentinel if it can't tell
pub fn check_space(m: &BigOSpacePassMeasurements) {
    unsafe {
        assert!(G.save_points == 1 && G.deltas == 1, "memory is measured");
        if G.fails {
            assert!(m.used_memory_before == usize::MIN, "sentinel: before");
            assert!(m.used_memory_after == usize::MAX, "sentinel: after");
            assert!(m.min_used_memory == usize::MIN, "sentinel: min");
            assert!(m.max_used_memory == usize::MAX, "sentinel: max");
        } else {
            assert!(m.used_memory_before == G.before, "memory in use when the pass started");
            assert!(m.used_memory_after == G.after, "memory in use when the pass ended");
            assert!(m.min_used_memory == G.min, "minimum memory in use during the pass");
            assert!(m.max_used_memory == G.max, "maximum memory in use during the pass");
        }
        kani::cover!(G.fails, "sentinel");
        kani::cover!(!G.fails, "measurements");
    }
}
