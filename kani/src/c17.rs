//! Custom measurers: what they measure before an event is what they are given after it
use crate::util::*;
use now_future::{ready, Now};

const NAMES: [&str; 3] = ["A0", "B1", "C2"];
const DESCRIPTIONS: [&str; 3] = ["zero", "one", "two"];
struct Ghost {
    magic: u64,
    /// how many measurers there are
    measurers: usize,
    /// if measuring after the event (rather than before)
    after: bool,
    /// how many measurers already ran
    ran: usize,
    /// the data given to the measurers
    data: Option<u32>,
    /// what was produced before the event
    produced: [u32; 3],
    /// what was measured after the event
    measured: [u8; 3],
}
static mut G: Ghost = Ghost { magic: 0x1717_0001, measurers: 0, after: true, ran: 0, data: None, produced: [0x1717_0002; 3], measured: [0; 3] };

fn before(id: usize, data: Option<&u32>) -> u32 {
    unsafe {
        assert!(!G.after, "`before` measurements are taken before the event");
        assert!(G.ran < G.measurers && id == G.measurers - 1 - G.ran, "`before` measurements are taken once, in reverse order");
        G.ran += 1;
        assert!(data.copied() == G.data, "measurers are given the data at that moment");
        G.produced[id] = kani::any();
        G.produced[id]
    }
}
fn after(id: usize, data: Option<&u32>, produced: u32) -> PresentableMeasurement {
    unsafe {
        assert!(G.after, "`after` measurements are taken after the event");
        assert!(G.ran < G.measurers && id == G.ran, "`after` measurements are taken once, in order");
        G.ran += 1;
        assert!(data.copied() == G.data, "measurers are given the data at that moment");
        assert!(produced == G.produced[id], "`after` measurements are given what their own `before` ones produced");
        G.measured[id] = kani::any();
        duration_measurement(Duration::new(G.measured[id] as u64, 0))
    }
}
fn measurer(id: usize, complexity: BigOAlgorithmComplexity) -> Box<dyn CustomMeasurerExecutor<u32> + Send> {
    Box::new(CustomMeasurer::new(NAMES[id], complexity, DESCRIPTIONS[id],
                                 move |data: Option<&u32>| ready(before(id, data)),
                                 move |data: Option<&u32>, produced: u32| ready(after(id, data, produced))))
}
fn begin(after: bool) -> Option<u32> {
    unsafe {
        G.data = kani::any();
        G.after = after;
        G.ran = 0;
        G.data
    }
}
fn measurers(count: usize, complexities: &[BigOAlgorithmComplexity; 3]) -> Vec<Box<dyn CustomMeasurerExecutor<u32> + Send>> {
    unsafe { G.measurers = count; }
    let mut all = Vec::with_capacity(count);
    let mut id = 0;
    while id < count { all.push(measurer(id, complexities[id])); id += 1; }
    all
}
fn measure_before(all: &mut Vec<Box<dyn CustomMeasurerExecutor<u32> + Send>>) {
    let data = begin(false);
    measure_all_before_event(data.as_ref(), all).now();
    unsafe { assert!(G.ran == G.measurers, "all the measurers run before the event"); }
}

fn events(count: usize, events: u32) {
    let complexities = [any_class(), any_class(), any_class()];
    let mut all = measurers(count, &complexities);
    let mut event = 0;
    while event < events {
        measure_before(&mut all);
        let data = begin(true);
        let results = measure_all_after_event(data.as_ref(), &mut all).now();
        unsafe { assert!(G.ran == G.measurers, "all the measurers run after the event"); }
        assert!(results.len() == count, "a result per measurer");
        let mut id = 0;
        while id < count {
            let r = &results[id];
            assert!(r.name == NAMES[id] && r.description == DESCRIPTIONS[id] && r.expected_complexity == complexities[id], "results bear the definitions of their measurers, in order");
            unsafe { assert!(verif_presentable::value(&r.measured_data) == G.measured[id] as f64, "results bear what was measured"); }
            id += 1;
        }
        std::mem::forget(results);
        event += 1;
    }
    std::mem::forget(all);
    kani::cover!(true, "measured");
}
/// measuring with nothing measured before
fn refused(events: u32) {
    let mut all = measurers(1, &[BigOAlgorithmComplexity::O1; 3]);
    let mut event = 0;
    while event < events {
        measure_before(&mut all);
        let data = begin(true);
        std::mem::forget(measure_all_after_event(data.as_ref(), &mut all).now());
        event += 1;
    }
    let data = begin(true);
    kani::cover!(true, "not vacuous");
    std::mem::forget(measure_all_after_event(data.as_ref(), &mut all).now());
    assert!(false, "measuring after an event with nothing measured before is refused");
}

macro_rules! proof {
    ($($name: ident $body: block)+) => {
        $(#[kani::proof]
          #[kani::unwind(6)]
          #[kani::stub(std::fmt::format, format_stub)]
          fn $name() $body)+
    }
}
proof! {
    no_measurers    { events(0, 1) }
    one_measurer    { events(1, 2) }
    two_measurers   { events(2, 2) }
    three_measurers { events(3, 2) }
    never_before    { refused(0) }
    not_again       { refused(1) }
}
