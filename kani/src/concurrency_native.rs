//! Concurrent operations, natively: threads really running at the same time. Used only when looking for failing inputs.
use crate::util::*;
use big_o_test::metrics_allocator::ring_buffer::{self, RingBuffer};
use std::{alloc::{GlobalAlloc, Layout}, sync::{Arc, Barrier}, thread};

struct Random(u64);
impl Random {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}
/// runs `f` on each thread, at the same time -- returning the results
fn on_threads<T: Send + 'static>(threads: usize, f: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<T> {
    let (f, barrier) = (Arc::new(f), Arc::new(Barrier::new(threads)));
    let all: Vec<_> = (0..threads).map(|t| {
        let (f, barrier) = (f.clone(), barrier.clone());
        thread::spawn(move || { barrier.wait(); f(t) })
    }).collect();
    all.into_iter().map(|t| t.join().expect("no thread panics")).collect()
}
fn any_threads() -> usize { let t: u8 = kani::any(); 2 + (t % 5) as usize }

#[kani::proof]
fn requests() {
    const OPERATIONS: usize = 3000;
    let threads = any_threads();
    let seed: u64 = kani::any();
    let start: usize = 1 << 40;
    let mut expected = [0usize; 12];
    expected[9] = start;
    let allocator: &'static MetricsAllocator<'static, 4> = Box::leak(Box::new(verif::allocator::<4>([0, 0, 0, 0, 0, 0, 0, 0, 0, start, start, start], [(0, 0); 4], 0)));
    let all = on_threads(threads, move |t| {
        let mut random = Random(seed ^ (t as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
        let mut s = [0usize; 10];
        let mut in_use: Vec<(*mut u8, Layout)> = vec![];
        let only = random.below(8);
        for _ in 0..OPERATIONS {
            let size = 1 + random.below(1000) as usize;
            let layout = Layout::from_size_align(size, 8).unwrap();
            let operation = if only < 4 { only } else { random.below(4) };
            unsafe {
                match (operation, in_use.pop()) {
                    (2, Some((ptr, old))) => {
                        in_use.push((allocator.realloc(ptr, old, size), layout));
                        s[3] += 1; s[7] += old.size(); s[8] += size; s[9] = s[9].wrapping_add(size).wrapping_sub(old.size());
                    },
                    (3, Some((ptr, old))) => {
                        allocator.dealloc(ptr, old);
                        s[1] += 1; s[5] += old.size(); s[9] = s[9].wrapping_sub(old.size());
                    },
                    (operation, other) => {
                        in_use.extend(other);
                        if operation == 1 {
                            in_use.push((allocator.alloc_zeroed(layout), layout)); s[2] += 1; s[6] += size; s[9] = s[9].wrapping_add(size);
                        } else {
                            in_use.push((allocator.alloc(layout), layout)); s[0] += 1; s[4] += size; s[9] = s[9].wrapping_add(size);
                        }
                    },
                }
            }
            if random.below(64) == 0 {
                let save_point = allocator.save_point();
                std::mem::forget(save_point);
            }
        }
        s
    });
    for s in all { for i in 0..10 { expected[i] = expected[i].wrapping_add(s[i]); } }
    let observed = verif::state(allocator);
    for i in 0..10 {
        assert!(observed[i] == expected[i], "granted requests contribute exactly once to each counter & total, whatever other threads do");
    }
}
#[kani::proof]
fn used_memory() {
    let threads = any_threads();
    let seed: u64 = kani::any();
    let start: usize = 1 << 40;
    let allocator: &'static MetricsAllocator<'static, 4> = Box::leak(Box::new(verif::allocator::<4>([0, 0, 0, 0, 0, 0, 0, 0, 0, start, start, start], [(0, 0); 4], 0)));
    let rising = seed % 2 == 0;
    on_threads(threads, move |t| {
        let mut random = Random(seed ^ (t as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
        let blocks: Vec<(*mut u8, Layout)> = (0..40).map(|_| unsafe {
            let layout = Layout::from_size_align(1 + random.below(1000) as usize, 8).unwrap();
            (if rising { std::ptr::null_mut() } else { std::alloc::System.alloc(layout) }, layout)
        }).collect();
        for (ptr, layout) in blocks {
            unsafe { if rising { allocator.alloc(layout); } else { allocator.dealloc(ptr, layout); } }
        }
    });
    let s = verif::state(allocator);
    assert!(s[10] <= s[9], "the minimum accounts for the used memory, whatever other threads do");
    assert!(s[11] >= s[9], "the maximum accounts for the used memory, whatever other threads do");
}

const SLOTS: usize = 8192;
static BUFFER: RingBuffer<u64, SLOTS> = ring_buffer::verif::ring_buffer([0; SLOTS], 0);
fn checked(mut taken: Vec<u64>, threads: usize, each: u64) {
    taken.sort();
    let expected: Vec<u64> = (0..threads as u64).flat_map(|t| (1..=each).map(move |i| t << 32 | i)).collect();
    assert!(taken == expected, "each element is given exactly once, having its own position & being published only after stored");
}
#[kani::proof]
fn enqueuings() {
    const EACH: u64 = 1000;
    let threads = any_threads();
    let consumer = BUFFER.consumer();
    on_threads(threads, |t| for i in 1..=EACH { BUFFER.enqueue((t as u64) << 32 | i) });
    let peeked = consumer.peek_all().expect("no overflows").concat();
    for t in 0..threads as u64 {
        assert!(peeked.iter().filter(|&&e| e >> 32 == t).is_sorted(), "elements of a thread keep their order");
    }
    checked(peeked, threads, EACH);
}
#[kani::proof]
fn dequeuings() {
    const EACH: u64 = 1000;
    let threads = any_threads();
    let half = threads.div_ceil(2);     // producers -- the others share a consumer
    let consumer: &'static ring_buffer::RingBufferConsumer<'static, u64, SLOTS> = Box::leak(Box::new(BUFFER.consumer()));
    let remaining: &'static std::sync::atomic::AtomicUsize = Box::leak(Box::new(std::sync::atomic::AtomicUsize::new(half)));
    let taken = on_threads(half + 3, move |t| {
        let mut taken = Vec::with_capacity(SLOTS);
        if t < half {
            for i in 1..=EACH { BUFFER.enqueue((t as u64) << 32 | i) }
            remaining.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        } else {
            loop {
                let done = remaining.load(std::sync::atomic::Ordering::SeqCst) == 0;
                match consumer.dequeue().expect("no overflows") {
                    Some(element) => taken.push(*element),
                    None => if done { break },
                }
            }
        }
        taken
    });
    checked(taken.concat(), half, EACH);
}
