use crate::*;
use big_o_test::{BigOAlgorithmComplexity, low_level_analysis::{*, time_analysis::*, space_analysis::*}, verif_hooks::{*, spec}};
use std::time::Duration;

const SLACK: f64 = 1e-9;

/// the class mandated by the specification -- if it is the same in the vicinities, so floating point errors don't matter
fn robust(class: impl Fn(f64, f64) -> BigOAlgorithmComplexity, u1: f64, u2: f64) -> Option<BigOAlgorithmComplexity> {
    let c = class(u1, u2);
    if u1 == u2 { return Some(c) }
    for (a, b) in [(1.0-SLACK, 1.0), (1.0+SLACK, 1.0), (1.0, 1.0-SLACK), (1.0, 1.0+SLACK)] {
        if class(u1*a, u2*b) != c { return None }
    }
    Some(c)
}

fn growths(expected: &[f64]) -> Vec<f64> {
    let mut v = vec![0.0, 0.01, 0.5, 0.74, 0.749, 0.751, 0.76, 0.89, 0.899, 0.901, 0.95, 1.0, 1.05, 1.099, 1.101, 1.249, 1.251];
    for e in expected {
        for f in [0.5, 0.74, 0.7499, 0.7501, 0.76, 0.8, 0.89, 0.8999, 0.9001, 0.91, 0.95, 0.999, 1.0, 1.001, 1.05, 1.09, 1.0999, 1.1001, 1.11, 1.2, 1.2499, 1.2501, 1.26, 1.5] {
            v.push(e * f);
        }
    }
    v
}

pub fn regular() -> Option<String> {
    let ns = [1.0, 2.0, 3.0, 4.0, 10.0, 16.0, 50.0, 100.0, 1000.0, 1024.0, 50000.0, 1e6, 4e9];
    let us = [1e-9, 1e-6, 0.25, 0.5, 1.0, 2.0, 3.7, 100.0, 4096.0, 1e6, 1e12];
    for n1 in ns { for n2 in ns { for u1 in us {
        let (u1, n1, n2): (f64, f64, f64) = (u1, n1, n2);
        let k: f64 = n2 / n1;
        let exp = u1.powf(k) / u1;
        let expected = [n2.log2()/n1.log2(), k, k*n2.log2()/n1.log2(), k*k, k*k*k, k*k*k*k, k.powi(5), exp];
        for g in growths(&expected) {
            let u2 = u1 * g;
            if !u2.is_finite() { continue }
            if let Some(class) = robust(|u1, u2| spec::complexity(u1, u2, n1, n2), u1, u2) {
                match panics(|| analyse_complexity(u1, u2, n1, n2)) {
                    Ok(observed) if observed == class => (),
                    other => return Some(format!("analyse_complexity(u1={u1:e}, u2={u2:e}, n1={n1}, n2={n2}) gives {other:?} instead of {class:?} (tolerance: {})", spec::TOLERANCE)),
                }
            }
        }
    }}}
    for (u1, u2) in [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (0.0, 1e9), (1.0, 1.0), (f64::MAX, f64::MAX)] { for n1 in ns { for n2 in ns {
        let class = spec::complexity(u1, u2, n1, n2);
        match panics(|| analyse_complexity(u1, u2, n1, n2)) {
            Ok(observed) if observed == class => (),
            other => return Some(format!("analyse_complexity(u1={u1:e}, u2={u2:e}, n1={n1}, n2={n2}) gives {other:?} instead of {class:?}")),
        }
    }}}
    None
}

pub fn set_resizing() -> Option<String> {
    let ns = [1.0, 2.0, 3.0, 10.0, 100.0, 1000.0, 1024.0, 50000.0, 1e6, 1e9];
    let us = [0.0, 1e-9, 1e-6, 0.25, 1.0, 3.7, 4096.0, 1e6, 1e12];
    for n in ns { for u1 in us {
        let n: f64 = n;
        let log = (n*3.0).log2()/n.log2();
        let mut gs = growths(&[log, 3.0, 1.0/1.1, 1.0/1.25, 9.0]);
        gs.extend([2.0, 2.2, 2.5, 4.0, 5.0]);
        for g in gs {
            let u2: f64 = u1 * g;
            if !u2.is_finite() { continue }
            if let Some(class) = robust(|u1, u2| spec::set_resizing_complexity(u1, u2, n), u1, u2) {
                match panics(|| analyse_set_resizing_iterator_complexity(u1, u2, n)) {
                    Ok(observed) if observed == class => (),
                    other => return Some(format!("analyse_set_resizing_iterator_complexity(u1={u1:e}, u2={u2:e}, n={n}) gives {other:?} instead of {class:?} (tolerance: {})", spec::TOLERANCE)),
                }
            }
        }
    }}
    None
}

fn pass(before: usize, after: usize, max: usize, min: usize) -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: after, max_used_memory: max, min_used_memory: min }
}
fn any_pass(growth: usize) -> BigOSpacePassMeasurements {
    let before = pick(&[0usize, 1, 100, 5000, 1 << 20]);
    let max = before + growth;
    let after = pick(&[before, max, before / 2, before + growth / 2]);
    let min = before.min(after) / pick(&[1, 2, 10]);
    pass(before, after, max, min)
}

/// the functions gathering the inputs for the analysis -- whose results are compared to the ones of the (real) analysis of the right inputs
pub fn wrappers() -> Option<String> {
    let ns = [1u32, 2, 5, 10, 64, 1000, 50_000, 1 << 30];
    let factors = [0usize, 1, 2, 3, 4, 7, 9, 10, 16, 27, 50, 81, 100, 256, 1000, 10_000];
    for _ in 0..200_000 {
        let (n1, n2, reps) = (pick(&ns), pick(&ns), pick(&ns));
        let base = pick(&[1usize, 8, 1000, 4096, 1 << 20]);
        let time = BigOTimeMeasurements { pass_1_measurements: Duration::from_nanos((base * pick(&factors)) as u64), pass_2_measurements: Duration::from_nanos((base * pick(&factors)) as u64 + below(3) * 1_000_000_000) };
        let mut space = BigOSpaceMeasurements { pass_1_measurements: any_pass(base * pick(&factors)), pass_2_measurements: any_pass(base * pick(&factors)) };
        match below(20) {
            0 => space.pass_1_measurements = pass(0, usize::MAX, usize::MAX, 0),
            1 => space.pass_2_measurements = pass(0, usize::MAX, usize::MAX, 0),
            _ => (),
        }
        let (t1, t2) = (time.pass_1_measurements.as_secs_f64(), time.pass_2_measurements.as_secs_f64());
        let (s1, s2) = (space.pass_1_measurements.peak_growth(), space.pass_2_measurements.peak_growth());
        let (lo, hi) = (n1.min(n2) as f64, n1.max(n2) as f64);
        let (r, c, s) = (AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: reps }, SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 });
        let input = || format!("passes ({n1}, {n2}, repetitions {reps}), {:?} & {:?}, {:?} & {:?}", time.pass_1_measurements, time.pass_2_measurements, space.pass_1_measurements, space.pass_2_measurements);
        let slack = 1e-9;
        let stable = |f: &dyn Fn(f64, f64) -> BigOAlgorithmComplexity, a: f64, b: f64| robust(|x, y| f(x, y), a, b).map(|_| f(a, b));
        let _ = slack;
        for (name, expected, observed) in [
            ("analyse_time_complexity",  stable(&|a, b| analyse_complexity(a, b, n1 as f64, n2 as f64), t1, t2), panics(|| analyse_time_complexity(&r, &time))),
            ("analyse_space_complexity", stable(&|a, b| analyse_complexity(a, b, n1 as f64, n2 as f64), s1, s2), panics(|| analyse_space_complexity(&r, &space))),
            ("analyse_time_complexity_for_constant_set_iterator_algorithm",  stable(&|a, b| analyse_complexity(a, b, lo, hi), t1, t2), panics(|| analyse_time_complexity_for_constant_set_iterator_algorithm(&c, &time))),
            ("analyse_space_complexity_for_constant_set_iterator_algorithm", stable(&|a, b| analyse_complexity(a, b, lo, hi), s1, s2), panics(|| analyse_space_complexity_for_constant_set_iterator_algorithm(&c, &space))),
            ("analyse_time_complexity_for_set_resizing_iterator_algorithm",  stable(&|a, b| analyse_set_resizing_iterator_complexity(a, b, n1 as f64), t1, t2), panics(|| analyse_time_complexity_for_set_resizing_iterator_algorithm(&s, &time))),
            ("analyse_space_complexity_for_set_resizing_iterator_algorithm", stable(&|a, b| analyse_set_resizing_iterator_complexity(a, b, n1 as f64), s1, s2), panics(|| analyse_space_complexity_for_set_resizing_iterator_algorithm(&s, &space))),
        ] {
            if let Some(expected) = expected {
                match observed {
                    Ok(o) if o == expected => (),
                    other => return Some(format!("{name}({}) gives {other:?} instead of {expected:?}", input())),
                }
            }
        }
    }
    None
}
