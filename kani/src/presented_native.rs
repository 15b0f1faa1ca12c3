//! Presented quantities, natively: the texts they're presented as. Used only when looking for failing inputs.
use crate::util::*;

const KI: f64 = 1024.0;
const MI: f64 = 1024.0 * KI;
const GI: f64 = 1024.0 * MI;
const TI: f64 = 1024.0 * GI;
const MINUTELY: f64 = 1.0 / 60.0;
const HOURLY: f64 = 1.0 / 3600.0;

/// any quantity -- often around the ones from which another unit is used
fn any_quantity() -> f64 {
    let (kind, small, thousandths): (u8, i8, u32) = (kani::any(), kani::any(), kani::any());
    let value = match kind % 16 {
        0 => kani::any::<u64>() as f64,
        1 => f64::from_bits(kani::any()),
        2 => kani::any::<u16>() as f64 + thousandths as f64 / 4294967296.0,
        3 => thousandths as f64 / 4294967296.0,
        4 => thousandths as f64 / 4294967296.0 / 60.0,
        5 => thousandths as f64 / 4294967296.0 / 3600.0,
        k => {
            let from = [0.0, 1.0, KI, MI, GI, TI, MINUTELY, HOURLY, 100_000.0, 60.0][k as usize - 6];
            if thousandths % 2 == 0 { f64::from_bits((from.to_bits() as i64 + small as i64 / 16) as u64) } else { from * (1.0 + small as f64 / 128.0) }
        }
    };
    kani::assume(value >= 0.0 && value.is_finite());
    value
}
fn check(shown: String, value: f64, (unit, rate, decimals, exponential): (&str, f64, usize, bool)) {
    let expected = if exponential { format!("{:.*e}{unit}", decimals, value / rate) } else { format!("{:.*}{unit}", decimals, value / rate) };
    assert!(shown == expected, "{value:?} is presented as '{shown}', rather than as '{expected}'");
}
fn bytes_unit(value: f64) -> (&'static str, f64, usize, bool) {
    if value >= TI { ("TiB", TI, 2, false) } else if value >= GI { ("GiB", GI, 2, false) } else if value >= MI { ("MiB", MI, 2, false) } else if value >= KI { ("KiB", KI, 2, false) }
    else { ("b", 1.0, 0, false) }
}
#[kani::proof]
fn bytes() {
    let value = any_quantity();
    check(bytes_measurement(value).to_string(), value, bytes_unit(value));
}
#[kani::proof]
fn bytes_per_second() {
    let value = any_quantity();
    check(bytes_per_second_measurement(value).to_string(), value,
        if value >= TI { ("TiB/s", TI, 2, false) } else if value >= GI { ("GiB/s", GI, 2, false) } else if value >= MI { ("MiB/s", MI, 2, false) } else if value >= KI { ("KiB/s", KI, 2, false) }
        else if value >= 1.0 { ("b/s", 1.0, 2, false) } else if value >= MINUTELY { ("b/min", MINUTELY, 2, false) } else if value >= HOURLY { ("b/hr", HOURLY, 2, false) }
        else { ("b/s", 1.0, 0, false) });
}
#[kani::proof]
fn custom_unit() {
    // quantities of any units may be presented, in any order
    let times: u8 = kani::any();
    for _ in 0..1 + times % 8 {
        let (value, unit) = (any_quantity(), ["req", "request", "re", "ops", "op", "", "elements", "elapsed"][kani::any::<u8>() as usize % 8]);
        let of_that_unit = |v: f64| if v >= 100_000.0 { (unit, 1.0, 3, true) } else if v >= 1.0 { (unit, 1.0, 2, false) } else { (unit, 1.0, 0, false) };
        check(custom_unit_measurement(value, unit).to_string(), value, of_that_unit(value));
    }
}
#[kani::proof]
fn duration() {
    // `PresentableMeasurement`s hold seconds as f64: durations up to 2^20 s keep their nanoseconds
    let (seconds, nanos): (u32, u32) = (kani::any(), kani::any());
    let duration = Duration::new((seconds % (1 << 20)) as u64, nanos % 1_000_000_000);
    let shown = duration_measurement(duration).to_string();
    let expected = format!("{duration:?}");
    assert!(shown == expected, "{duration:?} is presented as '{shown}'");
}
