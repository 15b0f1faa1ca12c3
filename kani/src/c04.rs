//! The metrics allocator accounts for every request that was granted -- and for nothing else.
//!
//! Each harness starts at arbitrary statistics and shows what one operation does to them, so these hold for histories of any length.
use crate::{util::*, system::{self, *}};
use std::alloc::GlobalAlloc;
use big_o_test::metrics_allocator::ring_buffer;

const N: usize = 2;
const ALLOCS: usize = 0; const DEALLOCS: usize = 1; const ZEROED: usize = 2; const REALLOCS: usize = 3;
const ALLOC_BYTES: usize = 4; const DEALLOC_BYTES: usize = 5; const ZEROED_BYTES: usize = 6; const REALLOC_OLD: usize = 7; const REALLOC_NEW: usize = 8;
const CURRENT: usize = 9; const MIN: usize = 10; const MAX: usize = 11;

/// statistics that may be reached -- no counter gets even close to 2^62
fn any_statistics() -> [usize; 12] {
    let s: [usize; 12] = kani::any();
    let mut i = 0;
    while i < 12 { kani::assume(s[i] < 1 << 62); i += 1; }
    s
}

#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
fn requests_are_accounted_for() {
    let before = any_statistics();
    let allocator = verif::allocator::<N>(before, kani::any(), kani::any());
    let layout = any_layout();
    let size = layout.size();
    let ptr: usize = kani::any();
    let new_size: usize = kani::any();
    kani::assume(size < 1 << 62 && new_size < 1 << 62);
    let mut expected = before;
    let operation: u8 = kani::any();
    system::any_answer();
    let granted = unsafe {
        match operation {
            0 => {
                let granted = !allocator.alloc(layout).is_null();
                if granted { expected[ALLOCS] += 1; expected[ALLOC_BYTES] += size; expected[CURRENT] += size; }
                granted
            },
            1 => {
                let granted = !allocator.alloc_zeroed(layout).is_null();
                if granted { expected[ZEROED] += 1; expected[ZEROED_BYTES] += size; expected[CURRENT] += size; }
                granted
            },
            2 => {
                kani::assume(size <= before[CURRENT]);      // the block being reallocated is in use
                let granted = !allocator.realloc(ptr as *mut u8, layout, new_size).is_null();
                if granted { expected[REALLOCS] += 1; expected[REALLOC_OLD] += size; expected[REALLOC_NEW] += new_size; expected[CURRENT] = expected[CURRENT] - size + new_size; }
                granted
            },
            _ => {
                kani::assume(size <= before[CURRENT]);      // the block being deallocated is in use
                allocator.dealloc(ptr as *mut u8, layout);
                expected[DEALLOCS] += 1; expected[DEALLOC_BYTES] += size; expected[CURRENT] -= size;
                true
            },
        }
    };
    let after = verif::state(&allocator);
    assert!(after[ALLOCS] == expected[ALLOCS], "count of allocations");
    assert!(after[DEALLOCS] == expected[DEALLOCS], "count of deallocations");
    assert!(after[ZEROED] == expected[ZEROED], "count of zeroed allocations");
    assert!(after[REALLOCS] == expected[REALLOCS], "count of reallocations");
    assert!(after[ALLOC_BYTES] == expected[ALLOC_BYTES], "allocated bytes");
    assert!(after[DEALLOC_BYTES] == expected[DEALLOC_BYTES], "deallocated bytes");
    assert!(after[ZEROED_BYTES] == expected[ZEROED_BYTES], "zeroed bytes");
    assert!(after[REALLOC_OLD] == expected[REALLOC_OLD], "reallocated bytes: originals");
    assert!(after[REALLOC_NEW] == expected[REALLOC_NEW], "reallocated bytes: news");
    assert!(after[CURRENT] == expected[CURRENT], "used memory");
    if !granted {
        assert!(after[MIN] == before[MIN] && after[MAX] == before[MAX], "refused requests change nothing");
    }
    kani::cover!(operation == 2 && granted && new_size < size, "shrunk");
    kani::cover!(operation == 2 && granted && new_size > size, "grown");
    kani::cover!(operation == 2 && !granted, "refused");
    std::mem::forget(allocator);
}

#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
fn new_allocator_is_zeroed() {
    let allocator = MetricsAllocator::<N>::new();
    let s = verif::state(&allocator);
    let i: usize = kani::any();
    kani::assume(i < 12);
    assert!(s[i] == 0, "nothing was requested yet");
    kani::cover!(i == MAX, "not vacuous");
    std::mem::forget(allocator);
}

#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
fn save_points_hold_the_statistics() {
    let before = any_statistics();
    let tail: usize = kani::any();
    kani::assume(tail < usize::MAX);
    let allocator = verif::allocator::<N>(before, kani::any(), tail);
    let save_point = allocator.save_point();
    let (saved, after) = (verif::as_array(&save_point.metrics), verif::state(&allocator));
    let i: usize = kani::any();
    kani::assume(i < MIN);
    assert!(saved[i] == before[i], "save points hold the statistics");
    assert!(after[i] == before[i], "save points don't change the statistics");
    kani::cover!(true, "not vacuous");
}

#[kani::proof]
#[kani::unwind(14)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
#[kani::stub(std::fmt::format, format_stub)]
fn deltas_are_exact() {
    let (saved, now) = (any_statistics(), any_statistics());
    let i: usize = kani::any();
    kani::assume(i < MIN);
    let mut j = 0;
    while j < CURRENT { kani::assume(saved[j] <= now[j]); j += 1; }   // the counters never decrease
    let (tail, head): (usize, usize) = (kani::any(), kani::any());
    kani::assume(head <= tail && tail - head <= N);
    let allocator = verif::allocator::<N>(now, kani::any(), tail);
    let save_point = verif::save_point(&allocator, verif::statistics(saved), head);
    match allocator.delta_statistics(&save_point) {
        Ok(delta) => {
            let delta = verif::as_array(&delta);
            if i == CURRENT {
                assert!(delta[CURRENT] == now[CURRENT], "used memory");
            } else {
                assert!(delta[i] == now[i] - saved[i], "deltas count what happened since the save point");
            }
        },
        Err(_) => panic!("deltas are available for as long as save points don't overflow"),
    }
    let after = verif::state(&allocator);
    assert!(after[i] == now[i], "deltas don't change the statistics");
    kani::cover!(tail - head == N, "not vacuous");
}
