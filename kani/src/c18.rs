//! Concurrent operations -- thread-modular (rely/guarantee) reasoning.
//!
//! Each operation runs by itself, but the atomics it shares with other threads may have any value -- that the other threads' operations
//! might have led to (the *rely*) -- whenever they're accessed; what the operation does to them (the *guarantee*) is checked at each access:
//! being it what other threads rely on, the conclusions hold for any number of threads & any interleaving.
//!   * Counters: are changed only through read-modify-write accesses, so totals are the sum of each operation's contribution -- proved to be
//!     exact regardless of what other threads do;
//!   * Ring buffer: a position belongs to whoever reserved it; `published_tail` stays at a position until its owner stores the element &
//!     publishes it; `head` is moved by a single position by whoever takes the element there.
use crate::{util::*, system::{self, *}};
use std::alloc::GlobalAlloc;
use std::sync::atomic::{AtomicUsize, Ordering};
use big_o_test::metrics_allocator::ring_buffer::{self, RingBuffer};

// statistics
const ALLOCS: usize = 0; const DEALLOCS: usize = 1; const ZEROED: usize = 2; const REALLOCS: usize = 3;
const ALLOC_BYTES: usize = 4; const DEALLOC_BYTES: usize = 5; const ZEROED_BYTES: usize = 6; const REALLOC_OLD: usize = 7; const REALLOC_NEW: usize = 8;
const CURRENT: usize = 9; const MIN: usize = 10; const MAX: usize = 11;
// ring buffer
const RESERVED: usize = 0; const PUBLISHED: usize = 1; const HEAD: usize = 2;
const PRIVATE: usize = 99;
/// how many times other threads get in the way of a compare & exchange (or keep us waiting) -- for each atomic
const FAILURES: u8 = 2;

#[derive(Clone, Copy, PartialEq)]
enum Mode { Off, Recording, Requesting, SavingPoints, Producing, Consuming }
struct Ghost {
    magic: u64,
    mode: Mode,
    /// the shared atomics
    cells: [*const AtomicUsize; 12],
    count: usize,
    failures: [u8; 12],
    /// what each atomic is known to be at least
    low: [usize; 12],
    /// the last value read
    read: [usize; 12],
    writes: usize,
    // requests
    contribution: [usize; 12],
    floor: usize,
    /// used memory, as observed first & last -- if after contributing
    observed: Option<(usize, usize)>,
    // producers
    position: Option<usize>,
    published: bool,
    slots: *const u64,
    size: usize,
    element: u64,
    // consumers
    acquired: usize,
    taken: Option<usize>,
}
static mut G: Ghost = Ghost { magic: 0x1818_0001, mode: Mode::Off, cells: [std::ptr::null(); 12], count: 0, failures: [0; 12], low: [0; 12], read: [0; 12], writes: 0, contribution: [0; 12],
    floor: 0, observed: None, position: None, published: false, slots: std::ptr::null(), size: 0, element: 0, acquired: 0, taken: None };

fn cell(a: &AtomicUsize) -> usize {
    unsafe {
        let mut i = 0;
        while i < G.count {
            if std::ptr::eq(a, G.cells[i]) { return i; }
            i += 1;
        }
        PRIVATE
    }
}
fn shared(i: usize) -> bool { unsafe { i != PRIVATE && G.mode != Mode::Off && G.mode != Mode::Recording } }

/// the rely: what other threads might have done to an atomic
fn interfere(i: usize, value: *mut usize) {
    unsafe {
        let now: usize = kani::any();
        kani::assume(now < 1 << 62);
        match G.mode {
            Mode::Requesting | Mode::SavingPoints => if i == CURRENT {
                // blocks this thread has in use are accounted for
                kani::assume(now >= G.floor.wrapping_add(G.contribution[CURRENT]));
            },
            Mode::Producing | Mode::Consuming => {
                // positions only grow: head <= published <= reserved
                kani::assume(now >= G.low[i]);
                if i == PUBLISHED {
                    if let (Some(position), false) = (G.position, G.published) {
                        // ... and nobody else publishes my position -- but all the previous ones are to be published
                        kani::assume(now <= position);
                        if G.failures[PUBLISHED] >= FAILURES { kani::assume(now == position); }
                    }
                }
                know(i, now);
            },
            _ => (),
        }
        *value = now;
    }
}
fn know(i: usize, value: usize) {
    unsafe {
        if value > G.low[i] { G.low[i] = value; }
        if i == HEAD && value > G.low[PUBLISHED] { G.low[PUBLISHED] = value; }
        if i != RESERVED && value > G.low[RESERVED] { G.low[RESERVED] = value; }
    }
}
fn acquires(o: Ordering) -> bool { o == Ordering::Acquire || o == Ordering::AcqRel || o == Ordering::SeqCst }
fn releases(o: Ordering) -> bool { o == Ordering::Release || o == Ordering::AcqRel || o == Ordering::SeqCst }

fn observe(i: usize, value: usize, order: Ordering) {
    unsafe {
        G.read[i] = value;
        match G.mode {
            Mode::Requesting => if i == CURRENT {
                G.observed = Some(match G.observed { Some((first, _)) => (first, value), None => (value, value) });
            },
            Mode::Producing | Mode::Consuming => if i == PUBLISHED && acquires(order) && value > G.acquired { G.acquired = value; },
            _ => (),
        }
    }
}
/// the guarantee: what an operation does to an atomic
fn changed(i: usize, old: usize, new: usize, order: Ordering, plain: bool) {
    unsafe {
        G.writes += 1;
        match G.mode {
            Mode::Requesting => {
                assert!(!plain, "statistics are changed by read-modify-write accesses -- so as not to lose the changes of other threads");
                match i {
                    MIN => assert!(new <= old, "requests never raise the minimum"),
                    MAX => assert!(new >= old, "requests never lower the maximum"),
                    _ => G.contribution[i] = G.contribution[i].wrapping_add(new.wrapping_sub(old)),
                }
                if i == CURRENT { G.observed = Some((new, new)); }
                if i >= MIN { G.read[i] = new; }
            },
            Mode::SavingPoints => assert!(i >= MIN, "save points & deltas do not change the statistics -- so as not to lose requests of other threads"),
            Mode::Producing => match i {
                RESERVED => {
                    assert!(!plain && new == old + 1 && G.position.is_none(), "each element gets a position of its own");
                    G.position = Some(old);
                },
                PUBLISHED => {
                    assert!(G.position == Some(old) && !G.published && new == old + 1, "elements are published in order: once & by whoever reserved their positions");
                    assert!(*G.slots.add(old % G.size) == G.element, "elements are published only after being stored");
                    assert!(releases(order), "elements are published only after being stored, as seen by other threads");
                    G.published = true;
                },
                _ => (),
            },
            Mode::Consuming => {
                assert!(i == HEAD, "consuming only moves the head");
                assert!(!plain && new == old + 1 && G.taken.is_none(), "an element is taken by a single thread");
                assert!(old < G.low[PUBLISHED], "only published elements are taken");
                G.taken = Some(old);
            },
            _ => (),
        }
        know_if_positions(i, new);
    }
}
fn know_if_positions(i: usize, new: usize) { unsafe { if G.mode == Mode::Producing || G.mode == Mode::Consuming { know(i, new); } } }

// atomic accesses
fn load_stub(a: &AtomicUsize, order: Ordering) -> usize {
    unsafe {
        if G.mode == Mode::Recording {
            G.cells[G.count] = a;
            G.count += 1;
        }
        let i = cell(a);
        if shared(i) {
            interfere(i, a.as_ptr());
            observe(i, *a.as_ptr(), order);
            if G.mode == Mode::Producing { G.failures[i] += 1; }
        }
        *a.as_ptr()
    }
}
/// any read-modify-write access
fn modify(a: &AtomicUsize, order: Ordering, new: impl FnOnce(usize) -> usize) -> usize {
    unsafe {
        let i = cell(a);
        if shared(i) { interfere(i, a.as_ptr()); }
        let old = *a.as_ptr();
        if shared(i) {
            observe(i, old, order);
            let new = new(old);
            changed(i, old, new, order, false);
            *a.as_ptr() = new;
        } else {
            *a.as_ptr() = new(old);
        }
        old
    }
}
fn store_stub(a: &AtomicUsize, value: usize, order: Ordering) {
    unsafe {
        let i = cell(a);
        if shared(i) {
            interfere(i, a.as_ptr());
            changed(i, *a.as_ptr(), value, order, true);
        }
        *a.as_ptr() = value;
    }
}
fn swap_stub(a: &AtomicUsize, value: usize, order: Ordering) -> usize { modify(a, order, |_| value) }
fn fetch_add_stub(a: &AtomicUsize, value: usize, order: Ordering) -> usize { modify(a, order, |old| old.wrapping_add(value)) }
fn fetch_sub_stub(a: &AtomicUsize, value: usize, order: Ordering) -> usize { modify(a, order, |old| old.wrapping_sub(value)) }
fn fetch_min_stub(a: &AtomicUsize, value: usize, order: Ordering) -> usize { modify(a, order, |old| old.min(value)) }
fn fetch_max_stub(a: &AtomicUsize, value: usize, order: Ordering) -> usize { modify(a, order, |old| old.max(value)) }
fn exchange(a: &AtomicUsize, expected: usize, new: usize, success: Ordering, failure: Ordering, weak: bool) -> Result<usize, usize> {
    unsafe {
        let i = cell(a);
        let mut spurious = false;
        if shared(i) {
            interfere(i, a.as_ptr());
            if weak && G.failures[i] < FAILURES { spurious = kani::any(); }
        }
        let old = *a.as_ptr();
        if old == expected && !spurious {
            if shared(i) {
                observe(i, old, success);
                changed(i, old, new, success, false);
            }
            *a.as_ptr() = new;
            Ok(old)
        } else {
            if shared(i) {
                observe(i, old, failure);
                G.failures[i] += 1;
                kani::assume(G.failures[i] <= FAILURES);
            }
            Err(old)
        }
    }
}
fn weak_stub(a: &AtomicUsize, expected: usize, new: usize, success: Ordering, failure: Ordering) -> Result<usize, usize> { exchange(a, expected, new, success, failure, true) }
fn strong_stub(a: &AtomicUsize, expected: usize, new: usize, success: Ordering, failure: Ordering) -> Result<usize, usize> { exchange(a, expected, new, success, failure, false) }
fn fence_stub(order: Ordering) { unsafe { if acquires(order) && G.read[PUBLISHED] > G.acquired { G.acquired = G.read[PUBLISHED]; } } }

fn record<R>(read_all: impl FnOnce() -> R) -> R {
    unsafe {
        G.mode = Mode::Recording;
        let r = read_all();
        G.mode = Mode::Off;
        r
    }
}
fn enter(mode: Mode) { unsafe { G.mode = mode; } }

fn requests(operation: u8) {
    let allocator = verif::allocator::<1>([0; 12], [(0, 0)], 0);
    record(|| verif::state(&allocator));
    let layout = any_layout();
    let size = layout.size();
    let ptr: usize = kani::any();
    let new_size: usize = kani::any();
    kani::assume(size < 1 << 61 && new_size < 1 << 61);
    let mut expected = [0usize; 12];
    system::any_answer();
    unsafe {
        // blocks being released are in use
        G.floor = if operation >= 2 { size } else { 0 };
        enter(Mode::Requesting);
        let granted = match operation {
            0 => {
                let granted = !allocator.alloc(layout).is_null();
                if granted { expected[ALLOCS] = 1; expected[ALLOC_BYTES] = size; expected[CURRENT] = size; }
                granted
            },
            1 => {
                let granted = !allocator.alloc_zeroed(layout).is_null();
                if granted { expected[ZEROED] = 1; expected[ZEROED_BYTES] = size; expected[CURRENT] = size; }
                granted
            },
            2 => {
                let granted = !allocator.realloc(ptr as *mut u8, layout, new_size).is_null();
                if granted { expected[REALLOCS] = 1; expected[REALLOC_OLD] = size; expected[REALLOC_NEW] = new_size; expected[CURRENT] = new_size.wrapping_sub(size); }
                granted
            },
            _ => {
                allocator.dealloc(ptr as *mut u8, layout);
                expected[DEALLOCS] = 1; expected[DEALLOC_BYTES] = size; expected[CURRENT] = 0usize.wrapping_sub(size);
                true
            },
        };
        enter(Mode::Off);
        let mut i = 0;
        while i < MIN {
            assert!(G.contribution[i] == expected[i], "granted requests contribute exactly once to each counter & total, whatever other threads do");
            i += 1;
        }
        if granted {
            assert!(G.observed.is_some(), "the used memory is observed");
            let (first, last) = G.observed.unwrap();
            assert!(G.read[MIN] <= first || G.read[MIN] <= last, "the minimum accounts for the used memory, whatever other threads do");
            assert!(G.read[MAX] >= first || G.read[MAX] >= last, "the maximum accounts for the used memory, whatever other threads do");
        } else {
            assert!(G.writes == 0, "refused requests contribute with nothing");
        }
        kani::cover!(granted && G.failures[MIN] == FAILURES && G.failures[MAX] == FAILURES, "contended");
    }
    std::mem::forget(allocator);
}
fn save_points() {
    let allocator = verif::allocator::<1>([0; 12], [(0, 0)], 0);
    record(|| verif::state(&allocator));
    enter(Mode::SavingPoints);
    let save_point = allocator.save_point();
    unsafe { G.failures = [0; 12]; }
    // (statistics grow while other threads make requests)
    let save_point = verif::save_point(&allocator, verif::statistics([0; 12]), 1);
    std::mem::forget(allocator.delta_statistics(&save_point));
    enter(Mode::Off);
    kani::cover!(unsafe { G.writes > 0 }, "not vacuous");
}

fn any_slots<const N: usize>() -> [u64; N] { kani::any() }
fn enqueuing<const N: usize>() {
    let slots: [u64; N] = any_slots();
    let (published, reserved): (usize, usize) = (kani::any(), kani::any());
    kani::assume(published <= reserved && reserved < 1 << 61);
    let buffer = ring_buffer::verif::ring_buffer::<u64, N>(slots, published);
    record(|| ring_buffer::verif::tails(&buffer));
    let element: u64 = kani::any();
    let other: usize = kani::any();
    kani::assume(other < N);
    unsafe {
        G.slots = ring_buffer::verif::slots(&buffer).as_ptr();
        G.size = N;
        G.element = element;
        know(PUBLISHED, published);
        know(RESERVED, reserved);
        enter(Mode::Producing);
        buffer.enqueue(element);
        enter(Mode::Off);
        assert!(G.published, "enqueued elements are published");
        let at = G.position.unwrap() % N;
        let now = ring_buffer::verif::slots(&buffer);
        assert!(now[at] == element, "the element is stored at its position");
        assert!(other == at || now[other] == slots[other], "positions of other elements are not written to");
        kani::cover!(G.failures[PUBLISHED] == FAILURES, "waited for others");
        kani::cover!(G.position.unwrap() < N, "first lap");
    }
    std::mem::forget(buffer);
}
fn consuming<const N: usize>() -> RingBuffer<u64, N> {
    ring_buffer::verif::ring_buffer::<u64, N>(any_slots(), kani::any())
}
fn begin_consuming(head: usize) {
    unsafe {
        know(HEAD, head);
        enter(Mode::Consuming);
    }
}
fn dequeuing<const N: usize>() {
    let buffer = consuming::<N>();
    let head: usize = kani::any();
    kani::assume(head < 1 << 61);
    let consumer = ring_buffer::verif::consumer(&buffer, head);
    record(|| (ring_buffer::verif::tails(&buffer), ring_buffer::verif::head(&consumer)));
    begin_consuming(head);
    let outcome = consumer.dequeue();
    enter(Mode::Off);
    unsafe {
        match outcome {
            Ok(Some(element)) => {
                assert!(G.taken.is_some(), "elements are taken by a single thread");
                let position = G.taken.unwrap();
                assert!(std::ptr::eq(element, &ring_buffer::verif::slots(&buffer)[position % N]), "the element given is the one taken");
                assert!(G.acquired > position, "elements given were stored before, as seen by this thread");
                kani::cover!(G.failures[HEAD] == FAILURES, "contended");
            },
            Ok(None) => {
                assert!(G.taken.is_none(), "no element is lost");
                assert!(G.read[HEAD] == G.read[PUBLISHED], "there are no elements");
                kani::cover!(true, "empty");
            },
            Err(_) => {
                assert!(G.taken.is_none(), "no element is taken after an overflow");
                assert!(G.low[RESERVED] - G.read[HEAD] > N, "overflown");
                kani::cover!(true, "overflown");
            },
        }
    }
    std::mem::forget(buffer);
}
fn peeking<const N: usize>() {
    let buffer = consuming::<N>();
    let head: usize = kani::any();
    kani::assume(head < 1 << 61);
    let consumer = ring_buffer::verif::consumer(&buffer, head);
    record(|| (ring_buffer::verif::tails(&buffer), ring_buffer::verif::head(&consumer)));
    begin_consuming(head);
    let outcome = consumer.peek_all();
    enter(Mode::Off);
    unsafe {
        assert!(G.writes == 0, "peeking takes nothing");
        if let Ok([first, second]) = outcome {
            let elements = first.len() + second.len();
            assert!(elements == 0 || G.acquired >= G.read[HEAD] + elements, "elements given were stored before, as seen by this thread");
            kani::cover!(elements == N, "full");
        }
    }
    std::mem::forget(buffer);
}

macro_rules! proof {
    ($($name: ident $body: block)+) => {
        $(#[kani::proof]
          #[kani::unwind(14)]
          #[kani::stub(std::fmt::format, format_stub)]
          #[kani::stub(std::hint::spin_loop, nothing_stub)]
          #[kani::stub(std::thread::yield_now, nothing_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::load, load_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::store, store_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::swap, swap_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::fetch_add, fetch_add_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::fetch_sub, fetch_sub_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::fetch_min, fetch_min_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::fetch_max, fetch_max_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::compare_exchange_weak, weak_stub)]
          #[kani::stub(std::sync::atomic::Atomic::<usize>::compare_exchange, strong_stub)]
          #[kani::stub(std::sync::atomic::fence, fence_stub)]
          fn $name() $body)+
    }
}
proof! {
    request_alloc        { requests(0) }
    request_alloc_zeroed { requests(1) }
    request_realloc      { requests(2) }
    request_dealloc      { requests(3) }
    save_points_and_deltas { save_points() }
    enqueuing_1 { enqueuing::<1>() }
    enqueuing_2 { enqueuing::<2>() }
    enqueuing_3 { enqueuing::<3>() }
    enqueuing_4 { enqueuing::<4>() }
    dequeuing_1 { dequeuing::<1>() }
    dequeuing_2 { dequeuing::<2>() }
    dequeuing_3 { dequeuing::<3>() }
    dequeuing_4 { dequeuing::<4>() }
    peeking_1 { peeking::<1>() }
    peeking_2 { peeking::<2>() }
    peeking_3 { peeking::<3>() }
    peeking_4 { peeking::<4>() }
}
