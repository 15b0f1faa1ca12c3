//! Looks for inputs for which the real code (natively compiled, with the `verif` hooks) breaks a property.\
//! usage: big-o-native PROPERTY SEED TIER, or run HARNESS holds|panics GIVEN|- SEED SECONDS -- prints a `FAILING-INPUT ...` line when one is found.
#![allow(unexpected_cfgs, unused, static_mut_refs)]
#[cfg(any(feature = "c01", feature = "c02", feature = "c03"))]
mod classification;

// the harnesses
#[path = "../../kani/src/util.rs"] #[allow(dead_code)] mod util;
#[cfg(verif = "allocator")] #[path = "../../kani/src/system.rs"] mod system;
#[cfg(all(verif = "allocator", verif = "runners"))] #[path = "../../kani/src/passes.rs"] mod passes;
#[cfg(verif = "runners")] #[path = "../../kani/src/attempts.rs"] mod attempts;
#[cfg(all(verif = "allocator", any(feature = "c11", feature = "c14")))] #[path = "../../kani/src/measured.rs"] mod measured;
#[cfg(feature = "c04")] #[path = "../../kani/src/c04.rs"] mod c04;
#[cfg(feature = "c05")] #[path = "../../kani/src/c05.rs"] mod c05;
#[cfg(feature = "c06")] #[path = "../../kani/src/c06.rs"] mod c06;
#[cfg(feature = "c07")] #[path = "../../kani/src/c07.rs"] mod c07;
#[cfg(feature = "c08")] #[path = "../../kani/src/c08.rs"] mod c08;
#[cfg(feature = "c09")] #[path = "../../kani/src/c09.rs"] mod c09;
#[cfg(feature = "c10")] #[path = "../../kani/src/c10.rs"] mod c10;
#[cfg(feature = "c11")] #[path = "../../kani/src/c11.rs"] mod c11;
#[cfg(any(feature = "c12", feature = "c13"))] #[path = "../../kani/src/crud_native.rs"] mod crud_native;
#[cfg(feature = "c14")] #[path = "../../kani/src/c14.rs"] mod c14;
#[cfg(feature = "c15")] #[path = "../../kani/src/c15.rs"] mod c15;
#[cfg(feature = "c16")] #[path = "../../kani/src/presented_native.rs"] mod presented_native;
#[cfg(feature = "c17")] #[path = "../../kani/src/c17.rs"] mod c17;
#[cfg(feature = "c18")] #[path = "../../kani/src/concurrency_native.rs"] mod concurrency_native;
#[path = "../../build/native-harnesses.rs"] mod harnesses;
mod replay;

use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(1);
/// xorshift
pub fn rnd() -> u64 {
    let mut x = SEED.load(Ordering::Relaxed);
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    SEED.store(x, Ordering::Relaxed);
    x.wrapping_mul(0x2545F4914F6CDD1D)
}
pub fn below(n: u64) -> u64 { (rnd() >> 11) % n }
pub fn pick<T: Copy>(options: &[T]) -> T { options[below(options.len() as u64) as usize] }

/// runs `f`, telling the panic message, if any
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    SEED.store(args.get(2).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1, Ordering::Relaxed);
    std::panic::set_hook(Box::new(|_| ()));
    let found: Result<Option<String>, String> = panics(|| match args[1].as_str() {
        #[cfg(any(feature = "c01", feature = "c02", feature = "c03"))]
        "C01" => classification::regular(),
        #[cfg(any(feature = "c01", feature = "c02", feature = "c03"))]
        "C02" => classification::set_resizing(),
        #[cfg(any(feature = "c01", feature = "c02", feature = "c03"))]
        "C03" => classification::wrappers(),
        "run" => replay::main(&args[2..]),
        other => { println!("no search for {other}"); None },
    });
    match found {
        Ok(None) => println!("no failing input found"),
        Ok(Some(input)) => { println!("FAILING-INPUT {}", input.replace('\n', " ")); std::process::exit(1) },
        Err(panic) => { println!("the search itself panicked: {panic}"); std::process::exit(3) },
    }
}
