use crate::util::*;
use big_o_test::low_level_analysis::{time_analysis::*, space_analysis::*};

fn any_duration() -> Duration {
    let n: u32 = kani::any();
    kani::assume(n < 1_000_000_000);
    Duration::new(kani::any(), n)
}
fn any_time() -> BigOTimeMeasurements {
    BigOTimeMeasurements { pass_1_measurements: any_duration(), pass_2_measurements: any_duration() }
}
fn any_pass() -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: kani::any(), used_memory_after: kani::any(), max_used_memory: kani::any(), min_used_memory: kani::any() }
}
fn any_space() -> BigOSpaceMeasurements {
    BigOSpaceMeasurements { pass_1_measurements: any_pass(), pass_2_measurements: any_pass() }
}
fn any_regular() -> AlgorithmPassesInfo { AlgorithmPassesInfo { pass1_n: kani::any(), pass2_n: kani::any() } }
fn any_constant() -> ConstantSetIteratorAlgorithmPassesInfo { ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: kani::any(), pass_2_set_size: kani::any(), repetitions: kani::any() } }
fn any_resizing() -> SetResizingIteratorAlgorithmPassesInfo { SetResizingIteratorAlgorithmPassesInfo { delta_set_size: kani::any() } }

macro_rules! contract {
    ($name: ident, $path: ident :: $function: ident, $info: ident, $measurements: ident) => {
        #[kani::proof_for_contract(big_o_test::low_level_analysis::$path::$function)]
        #[kani::stub(f64::log2, log2_stub)]
        #[kani::stub(f64::powf, powf_stub)]
        #[kani::stub(f64::powi, powi_stub)]
        fn $name() {
            let class = $function(&$info(), &$measurements());
            kani::cover!(class == BigOAlgorithmComplexity::ON, "not vacuous");
        }
    }
}
contract!(smt_time_regular,       time_analysis::analyse_time_complexity,                                     any_regular,  any_time);
contract!(smt_time_constant_set,  time_analysis::analyse_time_complexity_for_constant_set_iterator_algorithm, any_constant, any_time);
contract!(smt_time_set_resizing,  time_analysis::analyse_time_complexity_for_set_resizing_iterator_algorithm, any_resizing, any_time);
contract!(smt_space_regular,      space_analysis::analyse_space_complexity,                                     any_regular,  any_space);
contract!(smt_space_constant_set, space_analysis::analyse_space_complexity_for_constant_set_iterator_algorithm, any_constant, any_space);
contract!(smt_space_set_resizing, space_analysis::analyse_space_complexity_for_set_resizing_iterator_algorithm, any_resizing, any_space);
