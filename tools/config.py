"""What is to be verified for each property"""
P = {}
COMMON = ['Kani 0.68 (MIR to goto translation), CBMC 6.11 and its SAT solver (cadical)', 'rustc, core, alloc and std as compiled by Kani']
SMT = ['z3 4.8.12 / z3-new / cvc5 1.1.2',
       'f64 +, -, *, / and log2, powf, powi are uninterpreted functions: the contracts hold whatever these compute (tools/driver.py rewrites the fp.* operators of the verification condition CBMC generates)']

P['C01'] = dict(
    title='regular & constant set complexity classification', level='proof', hooks=['analysis'],
    variants=[dict(features=['c01'], harnesses={'smt_regular_classification': {}}),
              dict(features=['c01', 'tolerance_25_percent'], harnesses={'smt_regular_classification': {}})],
    functions=['low_level_analysis::analyse_complexity'],
    trusted=COMMON + SMT)
P['C02'] = dict(
    title='set resizing complexity classification', level='proof', hooks=['analysis'],
    variants=[dict(features=['c02'], harnesses={'smt_set_resizing_classification': {}}),
              dict(features=['c02', 'tolerance_25_percent'], harnesses={'smt_set_resizing_classification': {}})],
    functions=['low_level_analysis::analyse_set_resizing_iterator_complexity'],
    trusted=COMMON + SMT)
P['C03'] = dict(
    title='analysis wrappers', level='proof', hooks=['analysis'],
    variants=[dict(features=['c03'], harnesses={n: {} for n in ('smt_time_regular', 'smt_time_constant_set', 'smt_time_set_resizing', 'smt_space_regular', 'smt_space_constant_set', 'smt_space_set_resizing')})],
    functions=['time_analysis::analyse_time_complexity', 'time_analysis::analyse_time_complexity_for_constant_set_iterator_algorithm', 'time_analysis::analyse_time_complexity_for_set_resizing_iterator_algorithm',
               'space_analysis::analyse_space_complexity', 'space_analysis::analyse_space_complexity_for_constant_set_iterator_algorithm', 'space_analysis::analyse_space_complexity_for_set_resizing_iterator_algorithm'],
    trusted=COMMON + SMT)

RB = 'metrics_allocator::ring_buffer::'
P['C07'] = dict(
    title='ring buffer delivery', level='proof', hooks=['ring_buffer'], default=dict(memory=True),
    variants=[dict(features=['c07'], harnesses={n: {} for n in ['new_ring_buffer_is_empty', 'elements_are_dropped_once', 'consumer_1', 'consumer_3', 'consumer_1024'] + [f'{f}_{n}' for f in ('enqueue', 'dequeue', 'peek') for n in (1, 2, 3, 4, 1024)] + ['peek_64']} | {'peek_1024': dict(thorough=True)})],
    functions=[RB + f for f in ('RingBuffer::new', 'RingBuffer::enqueue', 'RingBuffer::consumer', 'RingBuffer::get_buffer_size', 'RingBufferConsumer::dequeue', 'RingBufferConsumer::peek_all')],
    trusted=COMMON + ['std::fmt::format is replaced by a function returning an empty string (the contents of error messages are out of scope)', 'less than 2^64 elements are enqueued',
                      'operations are not concurrent: atomics are sequential (Kani has no threads)', 'buffer sizes: 1, 2, 3, 4 and 1024 (each being a distinct monomorphisation)'])
P['C08'] = dict(
    title='ring buffer overflow detection', level='proof', hooks=['ring_buffer'], default=dict(memory=True),
    variants=[dict(features=['c08'], harnesses={f'{f}_{n}': {} for f in ('overflown', 'not_overflown') for n in (1, 2, 3, 4, 1024)})],
    functions=[RB + f for f in ('RingBuffer::enqueue', 'RingBufferConsumer::dequeue', 'RingBufferConsumer::peek_all')],
    trusted=P['C07']['trusted'])

MA = 'metrics_allocator::MetricsAllocator::'
SYSTEM = "the system's allocator is replaced by its contract: `System::{alloc,alloc_zeroed,realloc}` return any pointer or null (kani/src/system.rs)"
SEQ = 'operations are not concurrent: atomics are sequential (Kani has no threads)'
P['C04'] = dict(
    title='allocator accounting', level='proof', hooks=['allocator'],
    variants=[dict(features=['c04'], harnesses={n: {} for n in ('requests_are_accounted_for', 'new_allocator_is_zeroed', 'save_points_hold_the_statistics', 'deltas_are_exact')})],
    functions=[MA + f for f in ('alloc', 'alloc_zeroed', 'realloc', 'dealloc', 'compute_alloc_metrics', 'compute_dealloc_metrics', 'compute_alloc_zeroed_metrics', 'compute_realloc_metrics', 'compute_min_and_max_used_memories', 'new', 'save_point', 'delta_statistics')],
    trusted=COMMON + [SYSTEM, SEQ, 'counters & sizes are below 2^62', 'only blocks in use are deallocated or reallocated', 'save point ring buffer with 2 slots'])
P['C05'] = dict(
    title='allocator min & max', level='proof', hooks=['allocator'],
    variants=[dict(features=['c05'], harnesses={f'{f}_{n}': dict(thorough=n == 3) for f in ('requests', 'save_point', 'delta', 'overflown') for n in (1, 2, 3, 4)})],
    functions=P['C04']['functions'], bounds='save point ring buffers with 1 to 4 slots (the loop of delta_statistics is fully unwound for these sizes)',
    trusted=COMMON + [SYSTEM, SEQ, 'counters & sizes are below 2^62', 'only blocks in use are deallocated or reallocated', 'save point ring buffers with 1, 2, 3 & 4 slots: the code is parametric on the number of slots'])
P['C06'] = dict(
    title='allocator transparency', level='proof', hooks=['allocator'],
    variants=[dict(features=['c06'], harnesses={'requests_are_handed_over': {}})],
    functions=[MA + f for f in ('alloc', 'alloc_zeroed', 'realloc', 'dealloc')],
    trusted=COMMON + [SYSTEM, SEQ])

RUN = 'runners::common::'
SHIMS = 'crossbeam is replaced by a sequential stand-in (shim/crossbeam): scoped threads run their closures exactly once and `scope()` waits for them'
P['C09'] = dict(
    title='iterator pass coverage', level='other', hooks=['runners', 'allocator', 'ring_buffer', 'analysis'],
    variants=[dict(features=['c09'], harnesses={f'threads_{n}': {} for n in (1, 2, 3, 4, 5)})],
    functions=[RUN + 'run_iterator_pass'], bounds='BOUNDED: up to 6 elements, starting anywhere; 1 to 5 threads',
    trusted=COMMON + [SHIMS, 'the clock & the metrics allocator are replaced by their contracts: any result'])
P['C10'] = dict(
    title='pass measurements', level='proof', hooks=['runners', 'allocator', 'ring_buffer', 'analysis'],
    variants=[dict(features=['c10'], harnesses={n: {} for n in ('synchronous_pass', 'asynchronous_pass', 'iterator_pass_1_thread', 'iterator_pass_2_threads', 'iterator_pass_4_threads')})],
    functions=[RUN + 'run_iterator_pass', RUN + 'run_sync_pass', RUN + 'run_async_pass'], bounds='iterator passes: 1, 2 & 4 threads, one iteration each',
    trusted=COMMON + [SHIMS, 'the metrics allocator is replaced by its contract (any result): see C04 & C05', 'the clock is replaced by its contract, with elapsed times in seconds; as_secs_f64 & from_secs_f64 are exact for 1/16 s'])

KEEN = 'keen-retry is replaced by a stand-in with its contract (shim/keen-retry): transient outcomes are retried once per given delay; other outcomes are final'
MODULAR = 'passes & analysis functions are replaced by their contracts (see C10 and C01..C03): any measurements & any complexities'
MEASURED = 'the clock, the metrics allocator & the analysis functions are replaced by their contracts: any measurements (in whole seconds) & any complexities (see C04, C05, C10 and C01..C03)'
P['C11'] = dict(
    title='regular tests', level='proof', hooks=['runners', 'allocator', 'ring_buffer'],
    variants=[dict(features=['c11'], harnesses={f'accepted_{n}': {} for n in (0, 1, 2, 4)} | {f'rejected_{n}': dict(panics=True) for n in (0, 1, 2, 4)})],
    functions=['runners::standard::test_algorithm', 'runners::standard::analyse_algorithm', RUN + 'run_sync_pass_verbosely'], bounds='up to 4 retries',
    trusted=COMMON + [KEEN, MEASURED, 'std::fmt::format gives empty strings'])

P['C12'] = dict(
    title='CRUD analysis', level='proof', hooks=['runners'], native=dict(hooks=['runners', 'allocator', 'ring_buffer'], harnesses={'crud_native::analysis': 'holds'}),
    variants=[dict(features=['c12'], harnesses={n: {} for n in ('without_warmup', 'any_warmup', 'big_warmup')} | {n: dict(thorough=True, timeout=1500) for n in ('warmup_1', 'warmup_100')})],
    functions=['runners::crud::analyse_crud_algorithms', 'runners::crud::internal_analyse_crud_algorithms', RUN + 'run_iterator_pass_verbosely'],
    trusted=COMMON + [MODULAR, 'std::fmt::format gives empty strings', 'no more than 2^31 elements per pass; warmup percentage up to 100'])

P['C13'] = dict(
    title='CRUD tests', level='proof', hooks=['runners'], native=dict(hooks=['runners', 'allocator', 'ring_buffer'], harnesses={'crud_native::accepted': 'holds', 'crud_native::rejected': 'panics'}),
    jobs=4,     # each takes up to 8 GB
    variants=[dict(features=['c13'], harnesses={n: {} for n in ('accepted_2', 'accepted_0', 'create_4')} | {f'rejected_{n}': dict(panics=True) for n in ('2', '0', 'create_4')} |
                   {n: dict(thorough=True, timeout=2000) for n in ('accepted_1', 'accepted_3', 'delete_4')} | {f'rejected_{n}': dict(panics=True, thorough=True, timeout=2000) for n in ('1', '3', 'delete_4')})],
    functions=['runners::crud::test_crud_algorithms', 'runners::crud::internal_analyse_crud_algorithms', RUN + 'run_iterator_pass_verbosely'], bounds='up to 2 attempts (4 when a single operation is enabled; the thorough tier adds 3 for any operations); 0, 1 or 1000 iterations per pass, on any number of threads',
    trusted=COMMON + [MODULAR, 'std::fmt::format & String::push_str give empty strings; BTreeMap::insert -- used only for reporting failed attempts -- inserts nothing'])

ASYNC = 'the async code is verified after a mechanical extraction (tools/thunks.py, redone from /repo on every run): async functions & blocks become lazily evaluated closures and `.await` their evaluation -- what is dropped is waiting, i.e., futures are taken as never pending; edition 2024 is used'
P['C14'] = dict(
    title='async tests', level='proof', hooks=['runners', 'allocator', 'ring_buffer'],
    jobs=3,     # each takes up to 7 GB
    variants=[dict(crate='kani_thunks', features=['c14'], harnesses={
        'accepted_0': dict(unwind=3), 'accepted_1': dict(unwind=4, thorough=True), 'accepted_2_all': dict(), 'accepted_2_none': dict(),
        'rejected_0': dict(unwind=3, panics=True), 'rejected_1': dict(unwind=4, panics=True, thorough=True), 'rejected_2_all': dict(panics=True), 'rejected_2_none': dict(panics=True, thorough=True)})],
    functions=['api::builders::RegularAsyncAnalyzerBuilder::test_algorithm', 'api::builders::RegularAsyncAnalyzerBuilder::raw_analyse_algorithm', RUN + 'run_async_pass_verbosely', RUN + 'run_async_pass'], bounds='up to 2 retries (quick tier: 0 retries for any combination of functions; 2 for all & none of them)',
    trusted=COMMON + [KEEN, ASYNC,
                      MEASURED, 'std::fmt::format gives empty strings'])

P['C15'] = dict(
    title='memory deltas & auxiliary space', level='proof', hooks=['analysis'],
    variants=[dict(features=['c15'], harnesses={n: {} for n in ('memory_delta', 'auxiliary_space', 'presented', 'presented_totals', 'sign')})],
    functions=['low_level_analysis::types::BigOSpaceMeasurements::used_memory_delta', 'low_level_analysis::types::BigOSpaceMeasurements::used_auxiliary_space', 'low_level_analysis::types::BigOSpacePassMeasurements::fmt_over_n', 'low_level_analysis::types::BigOSpaceMeasurements::fmt'],
    trusted=COMMON + ['std::fmt::format gives empty strings', 'the auxiliary spaces of both passes fit in a usize when added up'])

P['C16'] = dict(
    title='presented quantities', level='proof', hooks=['presentable'], native=dict(harnesses={f'presented_native::{n}': 'holds' for n in ('bytes', 'bytes_per_second', 'custom_unit', 'duration')}),
    variants=[dict(features=['c16'], harnesses={n: {} for n in ('bytes', 'bytes_per_second', 'bytes_per_second_number', 'bytes_per_minute_number', 'bytes_per_hour_number', 'duration')} | {'custom_unit': dict(unwind=6)})],
    stand_ins=['presented_native::custom_unit'],
    functions=['utils::measurements::presentable_measurements::' + f for f in ('bytes_measurement', 'bytes_per_second_measurement', 'custom_unit_measurement', 'duration_measurement', 'PresentableMeasurement::fmt')],
    bounds='units & decimals: none; numbers: none, except for quantities per minute & per hour (BOUNDED to the ones having 8 & 4 significant bits) and durations (whole seconds); presenting more than one custom unit: BOUNDED stand-in, natively, over random sequences of up to 8 presentations of 8 units',
    trusted=COMMON + ['core turns numbers (once given to it along with their decimals) & Durations into digits; its character counting & RandomState are replaced by stand-ins', 'std::thread::{current, park} & Thread::unpark are never reached: there is a single thread'])

P['C17'] = dict(
    title='custom measurers', level='proof', hooks=['measurer', 'presentable'],
    variants=[dict(crate='kani_thunks', features=['c17'], harnesses={n: {} for n in ('no_measurers', 'one_measurer', 'two_measurers', 'three_measurers')} | {n: dict(panics=True) for n in ('never_before', 'not_again')})],
    functions=['utils::measurements::measurer::' + f for f in ('measure_all_before_event', 'measure_all_after_event', 'CustomMeasurer::new', 'CustomMeasurer::measure_before_event', 'CustomMeasurer::measure_after_event', 'CustomMeasurer::as_custom_measurement')],
    bounds='up to 3 measurers & 2 events',
    trusted=COMMON + [ASYNC, 'std::fmt::format gives empty strings'])

P['C18'] = dict(
    title='concurrency', level='proof', hooks=['allocator', 'ring_buffer'], native=dict(harnesses={f'concurrency_native::{n}': 'holds' for n in ('requests', 'used_memory', 'enqueuings', 'dequeuings')}),
    variants=[dict(features=['c18'], harnesses={n: {} for n in ['request_alloc', 'request_alloc_zeroed', 'request_realloc', 'request_dealloc', 'save_points_and_deltas'] + [f'{f}_{n}' for f in ('enqueuing', 'dequeuing', 'peeking') for n in (1, 2, 3, 4)]})],
    functions=[MA + f for f in ('alloc', 'alloc_zeroed', 'realloc', 'dealloc', 'compute_alloc_metrics', 'compute_dealloc_metrics', 'compute_alloc_zeroed_metrics', 'compute_realloc_metrics', 'compute_min_and_max_used_memories', 'save_point', 'delta_statistics')] +
              [RB + f for f in ('RingBuffer::enqueue', 'RingBuffer::consumer', 'RingBufferConsumer::dequeue', 'RingBufferConsumer::peek_all')],
    bounds='compare & exchange loops: other threads get in the way up to 2 times (iterations are alike: each starts from arbitrary shared values)',
    trusted=COMMON + [SYSTEM, 'atomic accesses are replaced by their contracts: other threads may have changed the atomic to any value allowed by the rely (kani/src/c18.rs)',
                      'the composition of operations into concurrent executions (soundness of rely/guarantee reasoning; totals of read-modify-write accesses add up) is argued in DESIGN.md, not machine checked',
                      'less than ring buffer size enqueuings are in progress at the same time', 'buffer sizes: 1, 2, 3 & 4 (each being a distinct monomorphisation)', 'counters, positions & sizes are below 2^61', 'std::fmt::format gives empty strings'])

NOT_APPLICABLE = {}

CONTRACTS = 'contracts discharged deductively by Kani/CBMC'
for _i, (_t, _n) in {
    'C01': ('in-place Kani function contract; CBMC verification conditions discharged by SMT solvers over uninterpreted floating point', 'For all f64 inputs. f64 operators & log2/pow are uninterpreted, so the classification is proved to be the specified one as a term over these operators.'),
    'C02': ('in-place Kani function contract; CBMC verification conditions discharged by SMT solvers over uninterpreted floating point', 'For all f64 inputs. f64 operators & log2 are uninterpreted.'),
    'C03': ('in-place Kani function contracts; CBMC verification conditions discharged by SMT solvers over uninterpreted floating point', 'For all measurements & set sizes; classification results are the ones of the specification (C01, C02).'),
    'C04': ('inductive contracts on each operation, at arbitrary states; discharged by CBMC (SAT)', 'For all states, hence histories of any length, without concurrency. The system allocator is replaced by its contract.'),
    'C05': ('inductive invariant over each operation, at arbitrary states; discharged by CBMC (SAT)', 'For all states, hence histories of any length, without concurrency, for save point rings of 1, 2, 3 & 4 slots (each a monomorphisation of the same generic code).'),
    'C06': ('contract on each operation, at arbitrary states; discharged by CBMC (SAT)', 'For all inputs, states & answers of the system allocator, without concurrency.'),
    'C07': ('inductive invariant over each operation, at arbitrary states; discharged by CBMC (SAT)', 'For all states, hence histories of any length, without concurrency, for rings of 1, 2, 3, 4, 64 & 1024 slots (each a monomorphisation of the same generic code).'),
    'C08': ('inductive invariant over each operation, at arbitrary states; discharged by CBMC (SAT)', 'As C07.'),
    'C09': ('postconditions of the pass functions at arbitrary inputs; discharged by CBMC (SAT) -- loops unwound', 'BOUNDED: up to 6 elements (starting anywhere) & 1 to 5 threads. Threads are run sequentially.'),
    'C10': ('postconditions of the pass functions against contracts of the clock & allocator; discharged by CBMC (SAT)', 'For all measurements. Iterator passes: 1, 2 & 4 threads. Elapsed times are whole seconds.'),
    'C11': ('postcondition of the test function against contracts of passes & analysis; discharged by CBMC (SAT)', 'For all measurements, complexities & expectations. Up to 4 retries.'),
    'C12': ('postcondition of the analysis function against contracts of passes & analysis; discharged by CBMC (SAT)', 'For all measurements, threads & up to 2^31 elements without warm up; warm ups: any percentage for up to 100 elements, plus extremes (all elements in the thorough tier, for 1% & 100%).'),
    'C13': ('postcondition of the test function against contracts of passes & analysis; discharged by CBMC (SAT)', 'For all complexities & expectations. Up to 2 attempts -- 4 when a single operation is enabled.'),
    'C18': ('rely/guarantee contracts on each atomic access; discharged by CBMC (SAT)', 'For all states, any number of threads & any interleaving of atomic accesses, for rings of 1, 2, 3 & 4 slots; the rely/guarantee composition is argued on paper.'),
    'C16': ('postconditions of the presenting functions at arbitrary quantities; discharged by CBMC (SAT)', 'For all quantities. Numbers shown per minute & per hour: BOUNDED to quantities having few significant bits; durations: whole seconds.'),
    'C15': ('in-place Kani function contracts; discharged by CBMC (SAT)', 'For all measurements.'),
    'C17': ('postconditions of the measuring functions for arbitrary measurers; discharged by CBMC (SAT) -- loops unwound', 'For all data & measured values; up to 3 measurers & 2 events.'),
    'C14': ('postcondition of the test function against contracts of the clock, allocator & analysis; discharged by CBMC (SAT)', 'For all data, complexities & expectations. Up to 2 retries.'),
}.items():
    P[_i]['technique'] = _t
    P[_i]['note'] = _n
