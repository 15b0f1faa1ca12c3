//! Ring buffer: overflows are always detected, and consumers never recover from them
use crate::util::*;
use big_o_test::metrics_allocator::ring_buffer::{*, verif as state};

fn overflown<const N: usize>() {
    let slots: [u32; N] = kani::any();
    let (tail, head): (usize, usize) = (kani::any(), kani::any());
    kani::assume(tail < usize::MAX && head <= tail && tail - head > N);
    let rb = state::ring_buffer(slots, tail);
    let consumer = state::consumer(&rb, head);
    if kani::any() {
        let r = consumer.dequeue();
        assert!(r.is_err(), "dequeueing an overwritten element fails");
        std::mem::forget(r);
    } else {
        let r = consumer.peek_all();
        assert!(r.is_err(), "peeking an overwritten element fails");
        std::mem::forget(r);
    }
    // the overflow condition is preserved
    if kani::any() {
        rb.enqueue(kani::any());
    }
    let (_, now) = state::tails(&rb);
    let head = state::head(&consumer);
    assert!(now >= tail && head <= now && now - head > N, "an overflown consumer is so forever");
    kani::cover!(tail - head == N + 1, "barely overflown");
}

fn not_overflown<const N: usize>() {
    let slots: [u32; N] = kani::any();
    let (tail, head): (usize, usize) = (kani::any(), kani::any());
    kani::assume(tail < usize::MAX && head <= tail && tail - head <= N);
    let rb = state::ring_buffer(slots, tail);
    let consumer = state::consumer(&rb, head);
    if kani::any() {
        assert!(consumer.dequeue().is_ok(), "no overflow is reported without one");
    } else {
        assert!(consumer.peek_all().is_ok(), "no overflow is reported without one");
    }
    kani::cover!(tail - head == N, "full");
}

macro_rules! sizes {
    ($($name: ident = $function: ident :: <$n: literal>;)+) => {
        $(#[kani::proof]
          #[kani::unwind(4)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::hint::spin_loop, nothing_stub)]
          #[kani::stub(std::thread::yield_now, nothing_stub)]
          fn $name() { $function::<$n>() })+
    }
}
sizes! {
    overflown_1 = overflown::<1>; overflown_2 = overflown::<2>; overflown_3 = overflown::<3>; overflown_4 = overflown::<4>; overflown_1024 = overflown::<1024>;
    not_overflown_1 = not_overflown::<1>; not_overflown_2 = not_overflown::<2>; not_overflown_3 = not_overflown::<3>; not_overflown_4 = not_overflown::<4>; not_overflown_1024 = not_overflown::<1024>;
}
