//! Ring buffer: elements are delivered in order, exactly once per consumer, and are dropped exactly once.
//!
//! Inductive invariant, after any history of operations: `reserved_tail == published_tail == number of elements enqueued` and,
//! for each of the last `N` elements `p`, `slots[p % N]` holds it; `head` of a consumer is the number of elements enqueued
//! before its creation plus the ones it dequeued. Each harness starts at an arbitrary state satisfying the invariant and
//! shows an operation to preserve it & to respect its contract -- so these hold for histories of any length.
use crate::util::*;
use big_o_test::metrics_allocator::ring_buffer::{*, verif as state};

fn any_tail() -> usize {
    let tail: usize = kani::any();
    kani::assume(tail < usize::MAX);    // no more than 2^64 elements will ever be enqueued
    tail
}
fn any_head(tail: usize) -> usize {
    let head: usize = kani::any();
    kani::assume(head <= tail);
    head
}

#[kani::proof]
#[kani::stub(std::fmt::format, format_stub)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
fn new_ring_buffer_is_empty() {
    let rb = RingBuffer::<u32, 3>::new();
    assert!(state::tails(&rb) == (0, 0));
    let consumer = rb.consumer();
    assert!(state::head(&consumer) == 0);
    assert!(matches!(consumer.dequeue(), Ok(None)));
    match consumer.peek_all() {
        Ok([a, b]) => assert!(a.len() + b.len() == 0),
        Err(_) => panic!("a new ring buffer has nothing to overflow"),
    }
    assert!(rb.get_buffer_size() == 3);
}

fn enqueue<const N: usize>() {
    let slots: [u32; N] = kani::any();
    let tail = any_tail();
    let rb = state::ring_buffer(slots, tail);
    let consumer = state::consumer(&rb, any_head(tail));
    let head = state::head(&consumer);
    let element: u32 = kani::any();
    rb.enqueue(element);
    assert!(state::tails(&rb) == (tail + 1, tail + 1), "an element is published");
    assert!(state::slots(&rb)[tail % N] == element, "the element is stored");
    let p: usize = kani::any();     // any of the previous N-1 elements
    if p < tail && tail - p < N {
        assert!(state::slots(&rb)[p % N] == slots[p % N], "the previous N-1 elements are kept");
    }
    assert!(state::head(&consumer) == head, "consumers are left alone");
    kani::cover!(tail >= N && p < tail && tail - p == 1, "not vacuous");
}

fn dequeue<const N: usize>() {
    let slots: [u32; N] = kani::any();
    let tail = any_tail();
    let head = any_head(tail);
    kani::assume(tail - head <= N);
    let rb = state::ring_buffer(slots, tail);
    let consumer = state::consumer(&rb, head);
    let other_head = any_head(tail);
    let other = state::consumer(&rb, other_head);
    match consumer.dequeue() {
        Ok(Some(element)) => {
            assert!(head < tail, "only what was enqueued is dequeued");
            assert!(*element == slots[head % N], "elements are dequeued in order");
            assert!(state::head(&consumer) == head + 1, "elements are dequeued once");
        },
        Ok(None) => {
            assert!(head == tail, "no element is skipped");
            assert!(state::head(&consumer) == head);
        },
        Err(_) => panic!("no more elements than the ring buffer size are pending"),
    }
    assert!(state::tails(&rb) == (tail, tail), "the ring buffer is left alone");
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(state::slots(&rb)[i] == slots[i], "the elements are left alone");
    assert!(state::head(&other) == other_head, "consumers are independent");
    kani::cover!(tail - head == N, "full");
    kani::cover!(tail == head, "empty");
}

fn peek<const N: usize>() {
    let slots: [u32; N] = kani::any();
    let tail = any_tail();
    let head = any_head(tail);
    kani::assume(tail - head <= N);
    let rb = state::ring_buffer(slots, tail);
    let consumer = state::consumer(&rb, head);
    match consumer.peek_all() {
        Ok([a, b]) => {
            assert!(a.len() + b.len() == tail - head, "all the pending elements are peeked -- and nothing else");
            let i: usize = kani::any();
            kani::assume(i < tail - head);
            let element = if i < a.len() { a[i] } else { b[i - a.len()] };
            assert!(element == slots[(head + i) % N], "elements are peeked in order");
            kani::cover!(i >= a.len() || N == 1, "wrapped");
        },
        Err(_) => panic!("no more elements than the ring buffer size are pending"),
    }
    assert!(state::head(&consumer) == head, "peeking doesn't consume");
    assert!(state::tails(&rb) == (tail, tail));
    kani::cover!(tail - head == N, "full");
}

fn consumer<const N: usize>() {
    let slots: [u32; N] = kani::any();
    let tail = any_tail();
    let rb = state::ring_buffer(slots, tail);
    let consumer = rb.consumer();
    assert!(state::head(&consumer) == tail, "consumers get the elements enqueued after their creation");
    assert!(state::tails(&rb) == (tail, tail));
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(state::slots(&rb)[i] == slots[i]);
}

macro_rules! sizes {
    ($($name: ident = $function: ident :: <$n: literal>;)+) => {
        $(#[kani::proof]
          #[kani::unwind(4)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::hint::spin_loop, nothing_stub)]
          #[kani::stub(std::thread::yield_now, nothing_stub)]
          fn $name() { $function::<$n>() })+
    }
}
sizes! {
    enqueue_1 = enqueue::<1>;  enqueue_2 = enqueue::<2>;  enqueue_3 = enqueue::<3>;  enqueue_4 = enqueue::<4>;  enqueue_1024 = enqueue::<1024>;
    dequeue_1 = dequeue::<1>;  dequeue_2 = dequeue::<2>;  dequeue_3 = dequeue::<3>;  dequeue_4 = dequeue::<4>;  dequeue_1024 = dequeue::<1024>;
    peek_1 = peek::<1>;        peek_2 = peek::<2>;        peek_3 = peek::<3>;        peek_4 = peek::<4>;      peek_64 = peek::<64>;    peek_1024 = peek::<1024>;
    consumer_1 = consumer::<1>; consumer_3 = consumer::<3>; consumer_1024 = consumer::<1024>;
}

/// an element that tells when it is dropped
struct Element(u32);
static mut DROPS: (u32, u32, u32) = (0x0D0D0001, 0, 0);   // (magic, times an element was dropped, xor of their contents)
impl Drop for Element {
    fn drop(&mut self) { unsafe { DROPS.1 += 1; DROPS.2 ^= self.0; } }
}

#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::fmt::format, format_stub)]
#[kani::stub(std::hint::spin_loop, nothing_stub)]
#[kani::stub(std::thread::yield_now, nothing_stub)]
fn elements_are_dropped_once() {
    let contents: [u32; 3] = kani::any();
    let tail = any_tail();
    let rb = std::mem::ManuallyDrop::new(state::ring_buffer(contents.map(Element), tail));
    unsafe { DROPS.1 = 0; DROPS.2 = 0; }
    rb.enqueue(Element(kani::any()));
    if tail < 3 {
        assert!(unsafe { DROPS.1 } == 0, "on the first lap there is nothing to drop");
    } else {
        assert!(unsafe { DROPS.1 } == 1, "a single element is overwritten");
        assert!(unsafe { DROPS.2 } == contents[tail % 3], "the overwritten element is dropped");
    }
    unsafe { DROPS.1 = 0; }
    let head = any_head(tail + 1);
    let consumer = state::consumer(&rb, head);
    let _ = consumer.dequeue();
    let _ = consumer.peek_all();
    assert!(unsafe { DROPS.1 } == 0, "consuming doesn't drop");
    kani::cover!(tail > 3, "not vacuous");
}
