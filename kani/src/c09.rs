//! An iterator pass calls the algorithm exactly once for each element of the range -- each thread taking a contiguous chunk of it.
//!
//! BOUNDED: up to `LEN` elements (starting anywhere), 1 to 5 threads. Threads are sequential (kani has no threads): iterations do
//! not share state, so any interleaving of them makes the same calls.
use crate::{util::*, passes};
use crossbeam::thread::{RUNNING, NONE};

const LEN: u32 = 6;
struct Chunk { calls: u32, low: u32, high: u32 }
struct Calls { magic: u64, witness: u32, chunks: [Chunk; 6], on_witness: u32 }
const EMPTY: Chunk = Chunk { calls: 0, low: u32::MAX, high: 0 };
static mut CALLS: Calls = Calls { magic: 0x0909_0001, witness: 0, chunks: [EMPTY; 6], on_witness: 0 };

fn algorithm(e: u32) -> u32 {
    unsafe {
        assert!(RUNNING != NONE, "the algorithm runs on the threads");
        let chunk = &mut CALLS.chunks[RUNNING];
        chunk.calls += 1;
        chunk.low = chunk.low.min(e);
        chunk.high = chunk.high.max(e);
        if e == CALLS.witness { CALLS.on_witness += 1; }
    }
    kani::any()
}

fn pass(threads: u32) {
    let low: u32 = kani::any();
    let len: u32 = kani::any();
    kani::assume(len <= LEN && low < u32::MAX - LEN);
    let high = low + len;
    let range = if kani::any() { low..high } else { high..low };
    let algorithm_type = if kani::any() { BigOIteratorAlgorithmType::SetResizing } else { BigOIteratorAlgorithmType::ConstantSet };
    let witness: u32 = kani::any();
    unsafe { CALLS.witness = witness; }
    kani::cover!(len == LEN && range.start > range.end, "shrinking");
    kani::cover!(len == LEN - 1 && range.start < range.end, "growing");
    let _ = run_iterator_pass(&algorithm, &algorithm_type, range, threads);
    unsafe {
        let expected = if witness >= low && witness < high { 1 } else { 0 };
        assert!(CALLS.on_witness == expected, "each iteration runs exactly once");
        let t: usize = kani::any();
        kani::assume(t < CALLS.chunks.len());
        let chunk = &CALLS.chunks[t];
        // as no element is called twice, a thread's calls are contiguous if there are as many as the span of their elements
        assert!(chunk.calls == 0 || chunk.high - chunk.low == chunk.calls - 1, "each thread runs a contiguous chunk");
        assert!(chunk.calls == 0 || t < threads as usize, "no more threads than requested are used");
    }
}

macro_rules! threads {
    ($($name: ident = $threads: literal;)+) => {
        $(#[kani::proof]
          #[kani::unwind(8)]
          #[kani::stub(std::time::Instant::now, passes::now)]
          #[kani::stub(std::time::Instant::elapsed, passes::elapsed)]
          #[kani::stub(std::time::Instant::duration_since, passes::duration_since)]
          #[kani::stub(std::time::Duration::as_secs_f64, any_f64)]
          #[kani::stub(std::time::Duration::from_secs_f64, any_duration)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::save_point, any_save_point)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::delta_statistics, any_delta)]
          fn $name() { pass($threads) })+
    }
}
threads! { threads_1 = 1; threads_2 = 2; threads_3 = 3; threads_4 = 4; threads_5 = 5; }
