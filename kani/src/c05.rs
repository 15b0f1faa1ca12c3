//! The minimum & maximum used memory since a save point are exact, whatever other save points were created.
//!
//! For any save point, let `low` & `high` be the minimum & maximum memory that was in use since it was created (ghosts). The inductive
//! invariant is: folding the (min,max) of all the subsequent save points along with the current (min,max) gives (low,high), provided
//! no more than `N` save points were subsequently created. Each harness starts at an arbitrary state that satisfies it.
use crate::{util::*, system::{self, *}};
use std::alloc::GlobalAlloc;

const CURRENT: usize = 9; const MIN: usize = 10; const MAX: usize = 11;

struct State<const N: usize> { allocator: MetricsAllocator<'static, N>, head: usize, low: usize, high: usize }

/// `low` & `high` for the save point created after `head` save points
fn fold<const N: usize>(allocator: &MetricsAllocator<'static, N>, head: usize) -> (usize, usize) {
    let s = verif::state(allocator);
    let (tail, slots) = verif::save_points(allocator);
    let (mut low, mut high) = (s[MIN], s[MAX]);
    let mut i = 0;
    while i < N {
        if i < tail - head {
            let (min, max) = slots[(head + i) % N];
            if min < low { low = min }
            if max > high { high = max }
        }
        i += 1;
    }
    (low, high)
}

/// an arbitrary state satisfying the invariant for a save point with `low`, `high` & `head`
fn any_state<const N: usize>() -> State<N> {
    let s: [usize; 12] = kani::any();
    let tail: usize = kani::any();
    let head: usize = kani::any();
    kani::assume(tail < usize::MAX && head <= tail && tail - head <= N);
    kani::assume(s[MIN] <= s[CURRENT] && s[CURRENT] <= s[MAX] && s[MAX] < 1 << 62);
    let allocator = verif::allocator::<N>(s, kani::any(), tail);
    let (low, high) = fold(&allocator, head);
    State { allocator, head, low, high }
}

fn requests<const N: usize>() {
    let State { allocator, head, low, high } = any_state::<N>();
    let before = verif::state(&allocator);
    let layout = any_layout();
    let new_size: usize = kani::any();
    kani::assume(layout.size() < 1 << 62 && new_size < 1 << 62);
    let operation: u8 = kani::any();
    system::any_answer();
    unsafe {
        match operation {
            0 => { allocator.alloc(layout); },
            1 => { allocator.alloc_zeroed(layout); },
            2 => { kani::assume(layout.size() <= before[CURRENT]); allocator.realloc(kani::any::<usize>() as *mut u8, layout, new_size); },
            _ => { kani::assume(layout.size() <= before[CURRENT]); allocator.dealloc(kani::any::<usize>() as *mut u8, layout); },
        }
    }
    let after = verif::state(&allocator);
    let current = after[CURRENT];
    assert!(after[MIN] <= current && current <= after[MAX]);
    let (new_low, new_high) = fold(&allocator, head);
    assert!(new_low == low.min(current), "the minimum follows the used memory");
    assert!(new_high == high.max(current), "the maximum follows the used memory");
    kani::cover!(current < low, "new minimum");
    kani::cover!(current > high, "new maximum");
    std::mem::forget(allocator);
}

fn save_point<const N: usize>() {
    let State { allocator, head, low, high } = any_state::<N>();
    let before = verif::state(&allocator);
    let (tail, _) = verif::save_points(&allocator);
    let new = allocator.save_point();
    // the new save point
    let after = verif::state(&allocator);
    assert!(after[MIN] == before[CURRENT] && after[MAX] == before[CURRENT] && after[CURRENT] == before[CURRENT], "measurements start anew");
    assert!(new.metrics.current_used_memory == before[CURRENT]);
    match allocator.delta_statistics(&new) {
        Ok(delta) => assert!(delta.min_used_memory == before[CURRENT] && delta.max_used_memory == before[CURRENT], "nothing happened since a new save point"),
        Err(_) => panic!("a new save point is not overflown"),
    }
    // the previous save points
    assert!(verif::save_points(&allocator).0 == tail + 1);
    if tail + 1 - head <= N {
        assert!(fold(&allocator, head) == (low, high), "new save points don't interfere with the previous ones");
    }
    kani::cover!(tail + 1 - head == N, "not vacuous");
}

fn delta<const N: usize>() {
    let State { allocator, head, low, high } = any_state::<N>();
    let now = verif::state(&allocator);
    let save_point = verif::save_point(&allocator, verif::statistics([0; 12]), head);
    match allocator.delta_statistics(&save_point) {
        Ok(delta) => {
            assert!(delta.min_used_memory == low, "minimum used memory since the save point");
            assert!(delta.max_used_memory == high, "maximum used memory since the save point");
        },
        Err(_) => panic!("deltas are available for as long as save points don't overflow"),
    }
    assert!(verif::state(&allocator)[MIN] == now[MIN] && verif::state(&allocator)[MAX] == now[MAX], "deltas don't change the statistics");
    kani::cover!(verif::save_points(&allocator).0 - head == N, "all slots");
}

fn overflown<const N: usize>() {
    let (tail, head): (usize, usize) = (kani::any(), kani::any());
    kani::assume(head <= tail && tail - head > N);
    let allocator = verif::allocator::<N>(kani::any(), kani::any(), tail);
    let save_point = verif::save_point(&allocator, verif::statistics([0; 12]), head);
    let delta = allocator.delta_statistics(&save_point);
    assert!(delta.is_err(), "no measurements are made up if they are not available");
    std::mem::forget(delta);
    kani::cover!(tail - head == N + 1, "not vacuous");
}

macro_rules! sizes {
    ($($name: ident = $function: ident :: <$n: literal>;)+) => {
        $(#[kani::proof]
          #[kani::unwind(14)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::hint::spin_loop, nothing_stub)]
          #[kani::stub(std::thread::yield_now, nothing_stub)]
          fn $name() { $function::<$n>() })+
    }
}
sizes! {
    requests_1 = requests::<1>;     requests_2 = requests::<2>;     requests_3 = requests::<3>;     requests_4 = requests::<4>;
    save_point_1 = save_point::<1>; save_point_2 = save_point::<2>; save_point_3 = save_point::<3>; save_point_4 = save_point::<4>;
    delta_1 = delta::<1>;           delta_2 = delta::<2>;           delta_3 = delta::<3>;           delta_4 = delta::<4>;
    overflown_1 = overflown::<1>;   overflown_2 = overflown::<2>;   overflown_3 = overflown::<3>;   overflown_4 = overflown::<4>;
}
