//! Presented quantities: the right unit & the right number of it
use crate::util::*;
use crate::screen::*;

fn show(quantity: &impl std::fmt::Display) -> (Screen, Presented) {
    let mut screen = Screen::new();
    let count = unsafe { PRESENTED.count };
    let shown = std::fmt::Display::fmt(quantity, &mut std::fmt::Formatter::new(&mut screen, std::fmt::FormattingOptions::new()));
    assert!(shown.is_ok());
    let mut presented = unsafe { PRESENTED };
    presented.count -= count;
    (screen, presented)
}

/// always presented as "1s"
fn from_secs_f64_stub(seconds: f64) -> Duration { presented(seconds, 0x5E16, false); Duration::from_secs(1) }
/// there's a single thread: nobody waits for the initialization of anything
fn current_stub() -> std::thread::Thread { unreachable!() }
fn park_stub() { unreachable!() }
fn unpark_stub(_: &std::thread::Thread) { unreachable!() }
fn random_state_stub() -> std::hash::RandomState { unsafe { std::mem::transmute([0x5E16_0003u64, 0x5E16_0004]) } }

/// (unit, rate, decimals, exponential)
fn check(quantity: &impl std::fmt::Display, value: f64, (unit, rate, decimals, exponential): (&str, f64, usize, bool), number: bool) {
    let (screen, presented) = show(quantity);
    assert!(screen.shows(unit), "the unit");
    assert!(presented.count == 1, "one number");
    if number { assert!(presented.value == value / rate, "the number of units"); }
    assert!(presented.decimals == decimals && presented.exponential == exponential, "the decimals");
}
const KI: f64 = 1024.0;
const MI: f64 = 1024.0 * KI;
const GI: f64 = 1024.0 * MI;
const TI: f64 = 1024.0 * GI;
const MINUTELY: f64 = 1.0 / 60.0;
const HOURLY: f64 = 1.0 / 3600.0;

macro_rules! presentation {
    ($name: ident, $body: block) => {
        #[kani::proof]
        #[kani::unwind(12)]
        #[kani::stub(core::num::imp::flt2dec::to_exact_fixed_str, to_exact_fixed_str_stub)]
        #[kani::stub(core::num::imp::flt2dec::to_exact_exp_str, to_exact_exp_str_stub)]
        #[kani::stub(core::str::count::do_count_chars, count_chars_stub)]
        #[kani::stub(core::str::count::char_count_general_case, count_bytes_stub)]
        #[kani::stub(std::time::Duration::from_secs_f64, from_secs_f64_stub)]
        #[kani::stub(std::thread::current::current, current_stub)]
        #[kani::stub(std::thread::park, park_stub)]
        #[kani::stub(std::thread::Thread::unpark, unpark_stub)]
        #[kani::stub(std::hash::RandomState::new, random_state_stub)]
        fn $name() $body
    }
}
fn any_quantity() -> f64 {
    let value = kani::any();
    kani::assume(value >= 0.0);
    kani::cover!(value == 0.0, "nothing");
    kani::cover!(value > 1.0e20, "a lot");
    value
}
/// how `value` is to be presented
fn expected_bytes(value: f64) -> (&'static str, f64, usize, bool) {
    if value >= TI { ("#TiB", TI, 2, false) } else if value >= GI { ("#GiB", GI, 2, false) } else if value >= MI { ("#MiB", MI, 2, false) } else if value >= KI { ("#KiB", KI, 2, false) }
    else { ("#b", 1.0, 0, false) }
}
fn expected_bytes_per_second(value: f64) -> (&'static str, f64, usize, bool) {
    if value >= TI { ("#TiB/s", TI, 2, false) } else if value >= GI { ("#GiB/s", GI, 2, false) } else if value >= MI { ("#MiB/s", MI, 2, false) } else if value >= KI { ("#KiB/s", KI, 2, false) }
    else if value >= 1.0 { ("#b/s", 1.0, 2, false) } else if value >= MINUTELY { ("#b/min", MINUTELY, 2, false) } else if value >= HOURLY { ("#b/hr", HOURLY, 2, false) }
    else { ("#b/s", 1.0, 0, false) }
}
fn expected_custom_unit(value: f64) -> (&'static str, f64, usize, bool) {
    if value >= 100_000.0 { ("#req", 1.0, 3, true) } else if value >= 1.0 { ("#req", 1.0, 2, false) } else { ("#req", 1.0, 0, false) }
}
presentation!(bytes, {
    let value = any_quantity();
    check(&bytes_measurement(value), value, expected_bytes(value), true);
});
presentation!(custom_unit, {
    let value = any_quantity();
    check(&custom_unit_measurement(value, "req"), value, expected_custom_unit(value), true);
});
presentation!(bytes_per_second, {
    let value = any_quantity();
    check(&bytes_per_second_measurement(value), value, expected_bytes_per_second(value), false);
});
macro_rules! number {
    ($name: ident, $quantity: expr, $rate: expr, $from: expr, $to: expr, $few: expr) => {
        presentation!($name, {
            let value: f64 = kani::any();
            kani::assume(value >= $from && value < $to && value.to_bits() & $few == 0);
            let (_, presented) = show(&$quantity(value));
            assert!(presented.value == value / $rate, "the number of units");
        });
    }
}
number!(bytes_per_second_number, bytes_per_second_measurement, 1.0, 1.0, KI, 0);
number!(bytes_per_minute_number, bytes_per_second_measurement, MINUTELY, MINUTELY, 1.0, (1 << 44) - 1);
number!(bytes_per_hour_number, bytes_per_second_measurement, HOURLY, HOURLY, MINUTELY, (1 << 48) - 1);
// durations of whole seconds
presentation!(duration, {
    let seconds: u64 = kani::any();
    check(&duration_measurement(Duration::new(seconds, 0)), seconds as f64, ("1s", 1.0, 0x5E16, false), true);
});
