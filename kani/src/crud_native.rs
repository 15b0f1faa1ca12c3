//! CRUD analysis & tests, natively: as the contracts of C12 & C13, but having passes really running over (a few) elements.
//! Used only when looking for failing inputs.
use crate::util::*;
use big_o_test::{low_level_analysis::types::*, metrics_allocator::ring_buffer::RingBufferOverflowError};
use crossbeam::thread::RUNNING;
use runners::crud::{analyse_crud_algorithms, test_crud_algorithms};

const CREATE: usize = 0; const READ: usize = 1; const UPDATE: usize = 2; const DELETE: usize = 3;
const ORDER: [[u8; 3]; 4] = [[1, 6, 9], [2, 7, 10], [3, 8, 11], [4, 12, 13]];
const RESET_ORDER: u8 = 5;
const MAX_ATTEMPTS: usize = 9;

struct Pass { id: usize, low: u32, high: u32, calls: u32, threads: u64, seconds: u64 }
struct Ghost {
    /// sizes & ranges are checked only when analysing
    analysing: bool,
    warmup: u32,
    sizes: [u32; 4],
    threads: [u32; 4],
    runs: [u32; 4],
    last: u8,
    warmup_created: u32,
    going_on: Option<Pass>,
    times: [[Duration; 2]; 4],
    spaces: [[BigOSpacePassMeasurements; 2]; 4],
    measuring: BigOSpacePassMeasurements,
    analysed_time: [Option<BigOAlgorithmComplexity>; 4],
    analysed_space: [Option<BigOAlgorithmComplexity>; 4],
    attempt: usize,
    must_start: usize,
    observed: [[(u8, u8); 4]; MAX_ATTEMPTS],
}
const NO_SPACE: BigOSpacePassMeasurements = BigOSpacePassMeasurements { used_memory_before: 0, used_memory_after: 0, min_used_memory: 0, max_used_memory: 0 };
static mut G: Ghost = Ghost { analysing: false, warmup: 0, sizes: [0; 4], threads: [0; 4], runs: [0; 4], last: 0, warmup_created: 0, going_on: None, times: [[Duration::ZERO; 2]; 4],
    spaces: [[NO_SPACE; 2]; 4], measuring: NO_SPACE, analysed_time: [None; 4], analysed_space: [None; 4], attempt: 0, must_start: 0, observed: [[(0, 0); 4]; MAX_ATTEMPTS] };

fn first_run() -> u32 { unsafe { if G.warmup > 0 { 0 } else { 1 } } }

fn operation(id: usize, element: u32) -> u32 {
    unsafe {
        assert!(G.sizes[id] > 0, "disabled operations don't run");
        match &mut G.going_on {
            Some(pass) => {
                assert!(pass.id == id, "a pass is about a single operation");
                pass.calls += 1;
                pass.low = pass.low.min(element);
                pass.high = pass.high.max(element);
                pass.threads |= 1 << RUNNING;
            },
            None => {
                let run = first_run() + G.runs[id];
                assert!(run <= 2, "no more passes than needed");
                assert!(ORDER[id][run as usize] > G.last, "operations run in order");
                G.last = ORDER[id][run as usize];
                G.runs[id] += 1;
                G.going_on = Some(Pass { id, low: element, high: element, calls: 1, threads: 1 << RUNNING, seconds: kani::any::<u8>() as u64 });
            }
        }
    }
    element
}
fn create(e: u32) -> u32 { operation(CREATE, e) }
fn read(e: u32)   -> u32 { operation(READ, e) }
fn update(e: u32) -> u32 { operation(UPDATE, e) }
fn delete(e: u32) -> u32 { operation(DELETE, e) }

/// which pass is going on: 1 or 2 (0 if warming up)
unsafe fn pass_of(pass: &Pass) -> usize {
    match first_run() + G.runs[pass.id] - 1 {
        0 => 0,
        run => if (run == 1) == (pass.id != DELETE) { 1 } else { 2 },
    }
}
fn tag(operation: usize, pass: usize) -> usize { operation * 2 + pass }

pub fn now() -> Instant { unsafe { std::mem::transmute::<(i64, u32), Instant>((1, 1)) } }
pub fn elapsed(_i: &Instant) -> Duration {
    unsafe {
        match &G.going_on {
            Some(pass) => Duration::new(pass.seconds, tag(pass.id, pass_of(pass)) as u32),
            None => Duration::ZERO,
        }
    }
}
pub fn duration_since(a: &Instant, _b: Instant) -> Duration { elapsed(a) }
pub fn save_point<'x, 'y: 'y, const RING_BUFFER_SIZE: usize>(a: &'x MetricsAllocator<'y, RING_BUFFER_SIZE>) -> MetricsAllocatorSavePoint<'x, RING_BUFFER_SIZE> {
    unsafe {
        crossbeam::thread::THREADS.1 = 0;
        assert!(G.going_on.is_none(), "measuring starts before the pass");
        G.measuring.used_memory_before = kani::any::<u32>() as usize;
        verif::save_point(a, stats(G.measuring.used_memory_before, 0, 0), 0)
    }
}
pub fn delta_statistics<'y: 'y, const RING_BUFFER_SIZE: usize>(_a: &MetricsAllocator<'y, RING_BUFFER_SIZE>, _sp: &MetricsAllocatorSavePoint<'_, RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
    unsafe {
        let mut m = G.measuring;
        m.used_memory_after = kani::any::<u16>() as usize * 16;
        if let Some(pass) = G.going_on.take() {
            let which = pass_of(&pass);
            if which > 0 {
                m.used_memory_after += tag(pass.id, which);
                m.min_used_memory = m.used_memory_before.min(m.used_memory_after);
                m.max_used_memory = m.used_memory_before.max(m.used_memory_after) + kani::any::<u16>() as usize;
                G.times[pass.id][which - 1] = Duration::new(pass.seconds, tag(pass.id, which) as u32);
                G.spaces[pass.id][which - 1] = m;
            }
            if G.analysing {
                let n = G.sizes[pass.id];
                let (start, end) = match which { 0 => (0, n * G.warmup / 100), 1 => (0, n), _ => (n, 2 * n) };
                assert!(pass.low == start && pass.high == end - 1 && pass.calls == end - start, "each pass works on its own elements");
                let threads = pass.threads.count_ones();
                assert!(threads <= G.threads[pass.id] && (threads == G.threads[pass.id] || (end - start) % G.threads[pass.id] != 0), "operations run on the given number of threads");
                if which == 0 && pass.id == CREATE { G.warmup_created = end; }
            }
        }
        m.min_used_memory = m.used_memory_before.min(m.used_memory_after);
        m.max_used_memory = m.max_used_memory.max(m.used_memory_before.max(m.used_memory_after));
        Ok(stats(m.used_memory_after, m.min_used_memory, m.max_used_memory))
    }
}

fn operation_of(pass_1: usize, pass_2: usize) -> usize {
    assert!(pass_1 > 0 && pass_1 <= 8 && pass_1 % 2 == 1 && pass_2 == pass_1 + 1, "passes 1 & 2 of the same operation are analysed");
    let op = (pass_1 - 1) / 2;
    unsafe { assert!(first_run() + G.runs[op] == 3, "analysis takes place after both passes"); }
    op
}
fn time(m: &BigOTimeMeasurements) -> (usize, BigOAlgorithmComplexity) {
    let op = operation_of(m.pass_1_measurements.subsec_nanos() as usize, m.pass_2_measurements.subsec_nanos() as usize);
    unsafe {
        assert!(m.pass_1_measurements == G.times[op][0] && m.pass_2_measurements == G.times[op][1], "the measured times are analysed");
        let c = if G.analysing { any_class() } else { CLASSES[G.observed[G.attempt][op].0 as usize] };
        G.analysed_time[op] = Some(c);
        (op, c)
    }
}
fn space(m: &BigOSpaceMeasurements) -> (usize, BigOAlgorithmComplexity) {
    let op = operation_of(m.pass_1_measurements.used_memory_after % 16, m.pass_2_measurements.used_memory_after % 16);
    unsafe {
        assert!(same_space(&m.pass_1_measurements, &G.spaces[op][0]) && same_space(&m.pass_2_measurements, &G.spaces[op][1]), "the measured space is analysed");
        let c = if G.analysing { any_class() } else { CLASSES[G.observed[G.attempt][op].1 as usize] };
        G.analysed_space[op] = Some(c);
        (op, c)
    }
}
fn check_constant_set(i: &ConstantSetIteratorAlgorithmPassesInfo, op: usize) {
    unsafe {
        assert!(op == READ || op == UPDATE, "reads & updates operate over a constant set");
        if G.analysing { assert!(i.pass_1_set_size == G.sizes[CREATE] && i.pass_2_set_size == G.sizes[CREATE] * 2 && i.repetitions == G.sizes[op], "set sizes & repetitions"); }
    }
}
fn check_set_resizing(i: &SetResizingIteratorAlgorithmPassesInfo, op: usize) {
    unsafe {
        assert!(op == CREATE || op == DELETE, "creates & deletes resize the set");
        if G.analysing { assert!(i.delta_set_size == G.sizes[op], "number of added or removed elements"); }
    }
}
fn constant_set_time(i: &ConstantSetIteratorAlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity { let (op, c) = time(m); check_constant_set(i, op); c }
fn constant_set_space(i: &ConstantSetIteratorAlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity { let (op, c) = space(m); check_constant_set(i, op); c }
fn set_resizing_time(i: &SetResizingIteratorAlgorithmPassesInfo, m: &BigOTimeMeasurements) -> BigOAlgorithmComplexity { let (op, c) = time(m); check_set_resizing(i, op); c }
fn set_resizing_space(i: &SetResizingIteratorAlgorithmPassesInfo, m: &BigOSpaceMeasurements) -> BigOAlgorithmComplexity { let (op, c) = space(m); check_set_resizing(i, op); c }

fn analysed<T: BigOAlgorithmMeasurements>(analysis: &Option<BigOAlgorithmAnalysis<T>>, op: usize) {
    unsafe {
        match analysis {
            Some(a) => assert!(G.sizes[op] > 0 && G.analysed_time[op] == Some(a.time_complexity) && G.analysed_space[op] == Some(a.space_complexity), "the verdicts are the ones for this operation"),
            None => assert!(G.sizes[op] == 0, "operations that run are analysed"),
        }
    }
}
fn warmup_reset(elements: u32) -> u32 {
    unsafe {
        assert!(G.warmup > 0 && G.last < RESET_ORDER, "reset runs once, after warming up");
        G.last = RESET_ORDER;
        assert!(elements == G.warmup_created, "reset gets the number of created elements");
    }
    0
}
/// sizes, threads -- and sets what is enabled
fn any_sizes() -> ([u32; 4], [u32; 4]) {
    let (sizes, workers): ([u8; 4], [u8; 4]) = (kani::any(), kani::any());
    let threads = workers.map(|n| if n % 9 == 0 { 0 } else { n as u32 % 6 });
    let mut n = sizes.map(|n| if n % 5 == 0 { 0 } else { n as u32 % 50 });
    // threads always have something to run -- or which operation they measure wouldn't be known
    for op in 0..4 { if n[op] > 0 && threads[op] > 1 { n[op] += 60; } }
    for op in 0..4 { unsafe { G.sizes[op] = if threads[op] > 0 { n[op] } else { 0 }; } }
    unsafe { G.threads = threads; }
    (n, threads)
}

fn analyse() {
    let (n, threads) = any_sizes();
    let warmup = if kani::any() { 0 } else { kani::any::<u8>() as u32 % 101 };
    unsafe {
        G.analysing = true;
        G.warmup = warmup;
        // warm ups over no elements tell nothing about which operation is being warmed up
        for op in 0..4 { kani::assume(warmup == 0 || G.sizes[op] == 0 || G.sizes[op] * warmup >= 100 * threads[op]); }
    }
    let (c, r, u, d, _report) = analyse_crud_algorithms("", warmup_reset, create, read, update, delete, warmup, n[0], n[1], n[2], n[3], threads[0], threads[1], threads[2], threads[3]);
    unsafe {
        for op in 0..4 { assert!(G.runs[op] == if G.sizes[op] > 0 { 3 - first_run() } else { 0 }, "all the enabled operations run"); }
        assert!(warmup == 0 || G.last >= RESET_ORDER, "reset runs after warming up");
    }
    analysed(&c, CREATE);
    analysed(&r, READ);
    analysed(&u, UPDATE);
    analysed(&d, DELETE);
}

fn reset(_elements: u32) -> u32 {
    unsafe {
        G.attempt += 1;
        assert!(G.attempt < G.must_start, "only time mismatches are retried, no more than the given number of times");
        G.runs = [0; 4];
        G.last = 0;
        G.analysed_time = [None; 4];
        G.analysed_space = [None; 4];
    }
    0
}
fn test(must_pass: bool) {
    let (n, threads) = any_sizes();
    let given_attempts = kani::any::<u8>() as u32 % MAX_ATTEMPTS as u32;
    let attempts = given_attempts.max(1) as usize;
    let rank = || kani::any::<u8>() % 17;
    // mismatches are made more & less frequent
    let expected = [(); 4].map(|_| (rank(), rank()));
    let frequency = kani::any::<u8>() as u32 % 4;
    let (mut passes, mut over) = (false, false);
    for attempt in 0..attempts {
        let (mut time_mismatch, mut space_mismatch) = (false, false);
        for op in 0..4 {
            let mut observed = (rank(), rank());
            if kani::any::<u8>() as u32 % 4 >= frequency { observed.1 = observed.1.min(expected[op].1); }
            if kani::any::<u8>() as u32 % 8 >= frequency { observed.0 = observed.0.min(expected[op].0); }
            unsafe {
                G.observed[attempt][op] = observed;
                if G.sizes[op] > 0 && observed.0 > expected[op].0 { time_mismatch = true; }
                if G.sizes[op] > 0 && observed.1 > expected[op].1 { space_mismatch = true; }
            }
        }
        if !over {
            unsafe { G.must_start = attempt + 1; }
            kani::assume(!(time_mismatch && space_mismatch && attempt + 1 < attempts));
            if !time_mismatch && !space_mismatch { passes = true; }
            if !time_mismatch || space_mismatch { over = true; }
        }
    }
    kani::assume(passes == must_pass);
    let class = |r: u8| CLASSES[r as usize];
    test_crud_algorithms("", given_attempts, reset,
                         create, class(expected[0].0), class(expected[0].1), read,   class(expected[1].0), class(expected[1].1),
                         update, class(expected[2].0), class(expected[2].1), delete, class(expected[3].0), class(expected[3].1),
                         0, n[0], n[1], n[2], n[3], threads[0], threads[1], threads[2], threads[3]);
    assert!(must_pass, "unacceptable complexities are rejected");
    unsafe {
        assert!(G.attempt + 1 == G.must_start, "time mismatches are retried");
        for op in 0..4 {
            let enabled = G.sizes[op] > 0;
            assert!(G.runs[op] == if enabled { 2 } else { 0 }, "all the enabled operations run");
            assert!(G.analysed_time[op].is_some() == enabled && G.analysed_space[op].is_some() == enabled, "all the enabled operations are analysed");
        }
    }
}

macro_rules! proof {
    ($($name: ident $body: block)+) => {
        $(#[kani::proof]
          #[kani::stub(std::time::Instant::now, now)]
          #[kani::stub(std::time::Instant::elapsed, elapsed)]
          #[kani::stub(std::time::Instant::duration_since, duration_since)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::save_point, save_point)]
          #[kani::stub(big_o_test::metrics_allocator::MetricsAllocator::delta_statistics, delta_statistics)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity_for_constant_set_iterator_algorithm, constant_set_time)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity_for_constant_set_iterator_algorithm, constant_set_space)]
          #[kani::stub(big_o_test::low_level_analysis::time_analysis::analyse_time_complexity_for_set_resizing_iterator_algorithm, set_resizing_time)]
          #[kani::stub(big_o_test::low_level_analysis::space_analysis::analyse_space_complexity_for_set_resizing_iterator_algorithm, set_resizing_space)]
          fn $name() $body)+
    }
}
proof! {
    analysis { analyse() }
    accepted { test(true) }
    rejected { test(false) }
}
