//! Passes report what the clock & the allocator tell about the algorithm -- and nothing else
use crate::{util::*, passes::{self, *}};

/// polls a future which never waits
pub fn run<T>(future: impl std::future::Future<Output=T>) -> T {
    let mut future = std::pin::pin!(future);
    let mut context = std::task::Context::from_waker(std::task::Waker::noop());
    match future.as_mut().poll(&mut context) {
        std::task::Poll::Ready(r) => r,
        std::task::Poll::Pending => panic!("nothing to wait for"),
    }
}

macro_rules! proof {
    ($(#[$meta: meta])* fn $name: ident $body: block) => {
        #[kani::proof]
        #[kani::stub(std::time::Instant::now, passes::now)]
        #[kani::stub(std::time::Instant::elapsed, passes::elapsed)]
        #[kani::stub(std::time::Instant::duration_since, passes::duration_since)]
        #[kani::stub(std::time::Duration::as_secs_f64, passes::as_secs_f64)]
        #[kani::stub(std::time::Duration::from_secs_f64, passes::from_secs_f64)]
        #[kani::stub(std::fmt::format, format_stub)]
        #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::save_point, passes::save_point)]
        #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::delta_statistics, passes::delta_statistics)]
        $(#[$meta])*
        fn $name() $body
    }
}

proof! { fn synchronous_pass {
    let computed: u32 = kani::any();
    let seconds = any_seconds();
    let (pass, r) = run_sync_pass(|| { unsafe { G.ran += 1; } tick(seconds); computed });
    unsafe { assert!(G.ran == 1, "the algorithm runs once"); }
    assert!(r == computed, "what was computed is handed back");
    assert!(pass.time_measurements == Duration::new(seconds as u64, 0), "the elapsed time is the one of the algorithm");
    check_space(&pass.space_measurements);
}}

proof! { fn asynchronous_pass {
    let given: Option<u32> = kani::any();
    let computed: u32 = kani::any();
    let (before, after) = (any_seconds(), any_seconds());
    let (pass, r) = run(run_async_pass(given, |data| {
        assert!(data == given, "the algorithm gets the given data");
        tick(before);
        async move { unsafe { G.ran += 1; } tick(after); computed }
    }));
    unsafe { assert!(G.ran == 1, "the algorithm runs once"); }
    assert!(r == computed, "what was computed is handed back");
    assert!(pass.time_measurements == Duration::new((before + after) as u64, 0), "the elapsed time is the one of the algorithm");
    check_space(&pass.space_measurements);
}}

static mut SECONDS: [u32; 5] = [0x1010_0001, 1, 2, 3, 4];
fn iterator_pass(threads: u32) {
    unsafe { SECONDS = [any_seconds(), any_seconds(), any_seconds(), any_seconds(), 0x1010_0001]; }
    let len = threads;      // one iteration per thread
    let range = if kani::any() { 0..len } else { len..0 };
    let (pass, _r) = run_iterator_pass(&|_e: u32| unsafe { G.ran += 1; tick(SECONDS[crossbeam::thread::RUNNING]); 0u32 }, &BigOIteratorAlgorithmType::SetResizing, range, threads);
    let mut sum = 0;
    unsafe {
        let mut t = 0;
        while t < threads as usize { sum += SECONDS[t]; t += 1; }
    }
    // durations of a fraction of a second are compared in 1/16s (see `from_secs_f64()`) -- but if running natively
    const FRACTIONS: u64 = if cfg!(kani) { 16 } else { 1_000_000_000 };
    let expected = Duration::new((sum / threads) as u64, ((sum % threads) as u64 * FRACTIONS / threads as u64) as u32);
    assert!(pass.time_measurements == expected, "the elapsed time is the average for the threads");
    check_space(&pass.space_measurements);
}
proof! { #[kani::unwind(6)] fn iterator_pass_1_thread  { iterator_pass(1) } }
proof! { #[kani::unwind(6)] fn iterator_pass_2_threads { iterator_pass(2) } }
proof! { #[kani::unwind(6)] fn iterator_pass_4_threads { iterator_pass(4) } }
