//! The used memory delta & the auxiliary space: exact & never panicking
use crate::util::*;

fn any_pass() -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: kani::any(), used_memory_after: kani::any(), min_used_memory: kani::any(), max_used_memory: kani::any() }
}
fn any_measurements() -> BigOSpaceMeasurements { BigOSpaceMeasurements { pass_1_measurements: any_pass(), pass_2_measurements: any_pass() } }
fn both_valid(m: &BigOSpaceMeasurements) -> bool { m.pass_1_measurements.is_valid() && m.pass_2_measurements.is_valid() }

#[cfg(kani)]
#[kani::proof_for_contract(big_o_test::low_level_analysis::types::BigOSpaceMeasurements::used_memory_delta)]
fn memory_delta() {
    let m = any_measurements();
    kani::cover!(m.pass_1_measurements.used_memory_after == usize::MAX && both_valid(&m), "sentinel");
    kani::cover!(m.pass_1_measurements.used_memory_after < m.pass_1_measurements.used_memory_before && both_valid(&m), "freed");
    m.used_memory_delta();
}
#[cfg(kani)]
#[kani::proof_for_contract(big_o_test::low_level_analysis::types::BigOSpaceMeasurements::used_auxiliary_space)]
fn auxiliary_space() {
    let m = any_measurements();
    kani::cover!(m.pass_1_measurements.used_memory_after == usize::MAX && both_valid(&m), "sentinel");
    kani::cover!(m.pass_1_measurements.max_used_memory > m.pass_1_measurements.used_memory_before && both_valid(&m), "used");
    m.used_auxiliary_space();
}
/// presenting the measurements of a pass does not panic, either
#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(std::fmt::format, format_stub)]
fn presented() {
    let m = any_pass();
    kani::assume(m.is_valid());
    let n: u32 = kani::any();
    std::mem::forget(m.fmt_over_n(n));
    kani::cover!(m.used_memory_after == usize::MAX, "sentinel");
    kani::cover!(m.min_used_memory < m.used_memory_before, "freed");
}
/// nor does presenting the memory delta & the auxiliary space
#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(std::fmt::format, format_stub)]
#[kani::stub(std::fmt::Formatter::write_fmt, write_fmt_stub)]
fn presented_totals() {
    #[cfg(kani)] let m = any_measurements();
    #[cfg(not(kani))] let m = any_valid();
    kani::assume(both_valid(&m) && m.pass_1_measurements.auxiliary() + m.pass_2_measurements.auxiliary() <= usize::MAX as u128);
    kani::cover!(m.pass_1_measurements.used_memory_after == usize::MAX, "sentinel");
    kani::cover!(m.pass_1_measurements.used_memory_after < m.pass_1_measurements.used_memory_before, "freed");
    #[cfg(kani)] {
        let mut nowhere = Nowhere;
        let mut formatter = std::fmt::Formatter::new(&mut nowhere, std::fmt::FormattingOptions::new());
        let _ = std::fmt::Display::fmt(&m, &mut formatter);
    }
    #[cfg(not(kani))] let _ = format!("{m}");
}
/// the sign tells if memory was retained or given back
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(core::num::imp::flt2dec::to_exact_fixed_str, crate::screen::to_exact_fixed_str_stub)]
#[kani::stub(core::str::count::do_count_chars, crate::screen::count_chars_stub)]
#[kani::stub(core::str::count::char_count_general_case, crate::screen::count_bytes_stub)]
#[kani::stub(std::fmt::format, format_on_screen_stub)]
fn sign() {
    let m = any_pass();
    kani::assume(m.is_valid());
    let n: u32 = kani::any();
    let text = m.fmt_over_n(n);
    let shown = if text.len() > 0 { text.as_bytes()[0] } else { unsafe { SHOWN.text[0] } };
    std::mem::forget(text);
    kani::cover!(m.used_memory_after == m.used_memory_before + 1 && m.used_memory_before > 1 << 40, "barely retained");
    kani::cover!(m.used_memory_after < m.used_memory_before, "freed");
    assert!((shown == b'+') == (m.used_memory_after > m.used_memory_before), "`+` when memory was retained");
    assert!((shown == b'-') == (m.used_memory_after < m.used_memory_before), "`-` when memory was given back");
}
#[cfg(kani)]
static mut SHOWN: crate::screen::Screen = crate::screen::Screen { text: [0x16; crate::screen::SCREEN], len: 0x5E16_0007 };
#[cfg(kani)]
fn format_on_screen_stub(arguments: std::fmt::Arguments<'_>) -> String {
    unsafe {
        SHOWN = crate::screen::Screen::new();
        let _ = std::fmt::Write::write_fmt(&mut SHOWN, arguments);
    }
    String::new()
}
#[cfg(not(kani))]
#[kani::proof]
fn sign() {
    let m = any_valid().pass_1_measurements;
    let n: u32 = kani::any();
    let shown = m.fmt_over_n(n);
    assert!(shown.starts_with('+') == (m.used_memory_after > m.used_memory_before), "{m:?} is presented as '{shown}'");
    assert!(shown.starts_with('-') == (m.used_memory_after < m.used_memory_before), "{m:?} is presented as '{shown}'");
}
struct Nowhere;
impl std::fmt::Write for Nowhere { fn write_str(&mut self, _s: &str) -> std::fmt::Result { Ok(()) } }
fn write_fmt_stub<'a: 'a>(_f: &mut std::fmt::Formatter<'a>, _arguments: std::fmt::Arguments<'_>) -> std::fmt::Result { Ok(()) }

// the contracts, natively
#[cfg(not(kani))]
fn any_valid() -> BigOSpaceMeasurements {
    // random measurements are sorted, so as to be valid most of the time
    let valid = || {
        let mut m = any_pass();
        if m.used_memory_after == usize::MAX { m.used_memory_before = 0; m.min_used_memory = 0; m.max_used_memory = usize::MAX; }
        if !m.is_valid() {
            let mask = isize::MAX as usize / 4;
            let mut all = [m.used_memory_before & mask, m.used_memory_after & mask, m.min_used_memory & mask, m.max_used_memory & mask];
            all.sort();
            m = BigOSpacePassMeasurements { used_memory_before: all[1], used_memory_after: all[2], min_used_memory: all[0], max_used_memory: all[3] };
            if kani::any() { std::mem::swap(&mut m.used_memory_before, &mut m.used_memory_after); }
        }
        m
    };
    let m = BigOSpaceMeasurements { pass_1_measurements: valid(), pass_2_measurements: valid() };
    kani::assume(both_valid(&m));
    m
}
#[cfg(not(kani))]
#[kani::proof]
fn memory_delta() {
    let m = any_valid();
    assert!(m.used_memory_delta() as i128 == m.pass_1_measurements.net_growth() + m.pass_2_measurements.net_growth(), "what each pass left in use, added up");
}
#[cfg(not(kani))]
#[kani::proof]
fn auxiliary_space() {
    let m = any_valid();
    let expected = m.pass_1_measurements.auxiliary() + m.pass_2_measurements.auxiliary();
    kani::assume(expected <= usize::MAX as u128);
    assert!(m.used_auxiliary_space() as u128 == expected, "what each pass used at its peak, but released before ending, added up");
}
