//! Contracts of the clock & of the allocator for tests made of two passes: anything may be measured -- what was measured for each pass is kept.
use crate::util::*;
use big_o_test::metrics_allocator::ring_buffer::RingBufferOverflowError;

pub struct Measured {
    magic: u64,
    /// which pass is being measured -- 0, 1, or anything else if not a pass
    pub pass: u8,
    pub time: [u32; 2],
    pub space: [BigOSpacePassMeasurements; 2],
    before: usize,
}
const NOTHING: BigOSpacePassMeasurements = BigOSpacePassMeasurements { used_memory_before: 0x3EA5_0003, used_memory_after: 0x3EA5_0004, min_used_memory: 0x3EA5_0005, max_used_memory: 0x3EA5_0006 };
pub static mut M: Measured = Measured { magic: 0x3EA5_0001, pass: 0xEE, time: [0x3EA5_0007, 0x3EA5_0008], space: [NOTHING, NOTHING], before: 0x3EA5_0002 };

pub fn now() -> Instant { unsafe { std::mem::transmute::<(i64, u32), Instant>((1, 1)) } }
pub fn elapsed(_i: &Instant) -> Duration {
    let seconds: u32 = kani::any();
    unsafe { if M.pass < 2 { M.time[M.pass as usize] = seconds; } }
    Duration::new(seconds as u64, 0)
}
pub fn duration_since(_a: &Instant, _b: Instant) -> Duration { elapsed(_a) }
pub fn save_point<'x, 'y: 'y, const RING_BUFFER_SIZE: usize>(a: &'x MetricsAllocator<'y, RING_BUFFER_SIZE>) -> MetricsAllocatorSavePoint<'x, RING_BUFFER_SIZE> {
    unsafe {
        M.before = kani::any();
        verif::save_point(a, stats(M.before, 0, 0), 0)
    }
}
pub fn delta_statistics<'y: 'y, const RING_BUFFER_SIZE: usize>(_a: &MetricsAllocator<'y, RING_BUFFER_SIZE>, _sp: &MetricsAllocatorSavePoint<'_, RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
    unsafe {
        let m = BigOSpacePassMeasurements { used_memory_before: M.before, used_memory_after: kani::any(), min_used_memory: kani::any(), max_used_memory: kani::any() };
        // reports -- which are stubbed under Kani -- are about measurements that are possible
        #[cfg(not(kani))] kani::assume(m.min_used_memory <= m.used_memory_before.min(m.used_memory_after) && m.max_used_memory >= m.used_memory_before.max(m.used_memory_after) && m.max_used_memory < 1 << 60);
        if M.pass < 2 { M.space[M.pass as usize] = m; }
        Ok(stats(m.used_memory_after, m.min_used_memory, m.max_used_memory))
    }
}
pub fn check_time(m: &BigOTimeMeasurements) {
    unsafe { assert!(m.pass_1_measurements == Duration::new(M.time[0] as u64, 0) && m.pass_2_measurements == Duration::new(M.time[1] as u64, 0), "the time of passes 1 & 2 are analysed"); }
}
pub fn check_space(m: &BigOSpaceMeasurements) {
    unsafe { assert!(same_space(&m.pass_1_measurements, &M.space[0]) && same_space(&m.pass_2_measurements, &M.space[1]), "the space of passes 1 & 2 are analysed"); }
}
