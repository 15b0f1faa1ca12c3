//! Kani's API, for harnesses to run natively: values come from the verifier's counterexample or are chosen at random
#![allow(static_mut_refs)]
pub use kani_macros::proof;

// values
/////////

struct Values {
    /// the ones of the counterexample: for each call, (index, value) pairs
    given: Vec<Vec<(usize, u128)>>,
    next: usize,
    seed: u64,
    mode: u64,
    previous: [u128; 4],
    /// what was given so far
    log: Vec<(u128, u32)>,
}
static mut V: Option<Values> = None;
static mut ON_REJECTION: Option<fn()> = None;

pub fn rnd() -> u64 {
    unsafe {
        let v = V.as_mut().unwrap();
        v.seed ^= v.seed << 13; v.seed ^= v.seed >> 7; v.seed ^= v.seed << 17;
        v.seed.wrapping_mul(0x2545F4914F6CDD1D) >> 8
    }
}
/// starts a new run, on random values -- unless `given`
pub fn start(seed: u64, given: Vec<Vec<(usize, u128)>>, on_rejection: fn()) {
    unsafe {
        V = Some(Values { given, next: 0, seed: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, mode: 0, previous: [0; 4], log: Vec::with_capacity(1 << 14) });
        for _ in 0..4 { rnd(); }
        V.as_mut().unwrap().mode = rnd() % 10;
        ON_REJECTION = Some(on_rejection);
    }
}
fn random(bits: u32) -> u128 {
    unsafe {
        let mode = V.as_ref().unwrap().mode;
        let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        let kind = if rnd() % 4 > 0 { mode } else { rnd() % 10 };
        let previous = V.as_ref().unwrap().previous[(rnd() % 4) as usize];
        let small = (rnd() % 6) as u128;
        (match kind {
            0 => (rnd() % 2) as u128,
            1 => small,
            2 => (rnd() % 17) as u128,
            3 => (rnd() % 100) as u128,
            4 => previous.wrapping_add(small),
            5 => previous.wrapping_sub(small),
            6 => if rnd() % 2 == 0 { previous } else { (mask >> (rnd() % 4)).wrapping_sub(small) },
            7 => { let p = 1u128 << (rnd() as u32 % bits); if rnd() % 2 == 0 { p.wrapping_add(small) } else { p.wrapping_sub(small) } },
            8 => (rnd() % (1 << 20)) as u128,
            _ => rnd() as u128 | (rnd() as u128) << 50 | (rnd() as u128) << 90,
        }) & mask
    }
}
fn note(value: u128, bits: u32) -> u128 {
    unsafe {
        let v = V.as_mut().unwrap();
        v.previous[v.log.len() % 4] = value;
        // never allocates: the harness might be dictating what the allocator answers
        if v.log.len() < v.log.capacity() { v.log.push((value, bits)); }
        value
    }
}
fn raw(bits: u32) -> u128 {
    unsafe {
        let v = V.as_mut().unwrap();
        let value = match v.given.get(v.next) {
            Some(values) => { v.next += 1; values.first().map(|(_, value)| *value).unwrap_or(0) },
            None => random(bits),
        };
        note(value, bits)
    }
}
fn raw_array(bits: u32, to: &mut [u128]) {
    unsafe {
        let v = V.as_mut().unwrap();
        match v.given.get(v.next) {
            Some(values) => { v.next += 1; for (i, value) in values { if *i < to.len() { to[*i] = *value; } } },
            None => for x in to.iter_mut() { *x = random(bits) },
        }
        for x in to.iter() { note(*x, bits); }
    }
}
/// what was given so far
pub fn describe(mut to: impl FnMut(&str)) {
    unsafe {
        let log = &V.as_ref().unwrap().log;
        for (value, _bits) in log.iter().take(64) {
            let mut digits = [0u8; 40];
            let (mut i, mut value) = (40, *value);
            loop { i -= 1; digits[i] = b'0' + (value % 10) as u8; value /= 10; if value == 0 { break } }
            to(std::str::from_utf8_unchecked(&digits[i..]));
            to(" ");
        }
        if log.len() > 64 { to("..."); }
    }
}

pub trait Arbitrary: Sized {
    fn any() -> Self;
    fn any_array<const N: usize>() -> [Self; N] { [(); N].map(|_| Self::any()) }
}
macro_rules! integers { ($($t: ty)*) => { $(impl Arbitrary for $t {
    fn any() -> $t { raw(<$t>::BITS) as $t }
    fn any_array<const N: usize>() -> [$t; N] {
        let mut values = [0u128; N];
        raw_array(<$t>::BITS, &mut values);
        values.map(|v| v as $t)
    }
})* } }
integers! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl Arbitrary for bool { fn any() -> bool { let b: u8 = if unsafe { V.as_ref().map(|v| v.next < v.given.len()).unwrap() } { u8::any() } else { note((rnd() % 2) as u128, 8) as u8 }; assume(b < 2); b == 1 } }
impl<T: Arbitrary> Arbitrary for Option<T> { fn any() -> Self { if bool::any() { Some(T::any()) } else { None } } }
impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] { fn any() -> Self { T::any_array() } }
impl<A: Arbitrary, B: Arbitrary> Arbitrary for (A, B) { fn any() -> Self { (A::any(), B::any()) } }
impl<A: Arbitrary, B: Arbitrary, C: Arbitrary> Arbitrary for (A, B, C) { fn any() -> Self { (A::any(), B::any(), C::any()) } }
pub fn any<T: Arbitrary>() -> T { T::any() }

/// tells that the run does not satisfy the assumptions
pub struct Rejected;
pub fn assume(condition: bool) {
    if !condition {
        unsafe { if let Some(f) = ON_REJECTION { f() } }
        std::panic::resume_unwind(Box::new(Rejected));
    }
}
#[macro_export]
macro_rules! cover { ($($t: tt)*) => { { let _ = || ($($t)*); } } }


// stubs
////////

extern "C" { fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32; }

/// makes `replacement` run instead of `original`
pub fn patch(original: *const (), replacement: *const (), name: &str) {
    if cfg!(not(target_arch = "x86_64")) { panic!("can't stub {name}"); }
    if original == replacement { return }
    let (from, to) = (original as usize, replacement as usize);
    let page = from & !4095;
    unsafe {
        if mprotect(page as *mut u8, from + 16 - page, 7) != 0 { panic!("can't stub {name}"); }
        let code = from as *mut u8;
        code.write_volatile(0x49); code.add(1).write_volatile(0xBB);                                       // mov r11, imm64
        for (i, b) in (to as u64).to_le_bytes().iter().enumerate() { code.add(2 + i).write_volatile(*b); }
        code.add(10).write_volatile(0x41); code.add(11).write_volatile(0xFF); code.add(12).write_volatile(0xE3);   // jmp r11
    }
}
