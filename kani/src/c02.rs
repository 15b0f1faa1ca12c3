use crate::util::*;
use big_o_test::low_level_analysis::*;

// contract: `analyse_set_resizing_iterator_complexity(..)` == `spec::set_resizing_complexity(..)`, for every input
#[kani::proof_for_contract(big_o_test::low_level_analysis::analyse_set_resizing_iterator_complexity)]
#[kani::stub(f64::log2, log2_stub)]
#[kani::stub(f64::powf, powf_stub)]
#[kani::stub(f64::powi, powi_stub)]
fn smt_set_resizing_classification() {
    let class = analyse_set_resizing_iterator_complexity(kani::any(), kani::any(), kani::any());
    kani::cover!(class == BigOAlgorithmComplexity::ON, "not vacuous");
}
