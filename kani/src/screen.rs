//! Presented texts: the numbers being presented & the text around them -- turning numbers into digits is up to `core`
use core::num::imp::flt2dec::{DecodableFloat, Decoded, Sign};
use core::num::imp::fmt::{Formatted, Part};
use std::mem::MaybeUninit;

/// the numbers presented & how
#[derive(Clone, Copy)]
pub struct Presented { pub count: u32, pub value: f64, pub decimals: usize, pub exponential: bool }
pub static mut PRESENTED: Presented = Presented { count: 0x5E160001, value: 16.16, decimals: 0x5E160002, exponential: false };
pub fn presented(value: f64, decimals: usize, exponential: bool) {
    unsafe { PRESENTED = Presented { count: PRESENTED.count + 1, value, decimals, exponential } }
}
pub fn as_f64<T: Copy>(v: T) -> f64 {
    if std::mem::size_of::<T>() == 8 { unsafe { std::mem::transmute_copy::<T, f64>(&v) } } else { unsafe { std::mem::transmute_copy::<T, f32>(&v) as f64 } }
}
pub fn to_exact_fixed_str_stub<'a, T, F>(_format_exact: F, v: T, _sign: Sign, frac_digits: usize, _buf: &'a mut [MaybeUninit<u8>], parts: &'a mut [MaybeUninit<Part<'a>>]) -> Formatted<'a>
where T: DecodableFloat, F: FnMut(&Decoded, &'a mut [MaybeUninit<u8>], i16) -> (&'a [u8], i16) {
    presented(as_f64(v), frac_digits, false);
    parts[0] = MaybeUninit::new(Part::Copy(b"#"));   // stands for the number
    Formatted { sign: "", parts: unsafe { parts[..1].assume_init_ref() } }
}
pub fn to_exact_exp_str_stub<'a, T, F>(_format_exact: F, v: T, _sign: Sign, frac_digits: usize, _upper: bool, _buf: &'a mut [MaybeUninit<u8>], parts: &'a mut [MaybeUninit<Part<'a>>]) -> Formatted<'a>
where T: DecodableFloat, F: FnMut(&Decoded, &'a mut [MaybeUninit<u8>], i16) -> (&'a [u8], i16) {
    presented(as_f64(v), frac_digits, true);
    parts[0] = MaybeUninit::new(Part::Copy(b"#"));   // stands for the number
    Formatted { sign: "", parts: unsafe { parts[..1].assume_init_ref() } }
}
/// where texts are presented
#[derive(Clone, Copy)]
pub struct Screen { pub text: [u8; SCREEN], pub len: usize }
pub const SCREEN: usize = 16;
impl std::fmt::Write for Screen {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut i = 0;
        while i < s.len() {
            if self.len < SCREEN { self.text[self.len] = s.as_bytes()[i]; }
            self.len += 1;
            i += 1;
        }
        Ok(())
    }
}
impl Screen {
    pub const fn new() -> Self { Self { text: [0; SCREEN], len: 0 } }
    pub fn shows(&self, expected: &str) -> bool {
        let expected = expected.as_bytes();
        let mut same = self.len == expected.len();
        let mut i = 0;
        while i < expected.len() { same &= self.text[i] == expected[i]; i += 1; }
        same
    }
}
/// texts are ASCII -- and not padded, anyway
pub fn count_chars_stub(s: &str) -> usize { s.len() }
pub fn count_bytes_stub(s: &[u8]) -> usize { s.len() }
