//! Runs Kani's harnesses natively: over the verifier's counterexamples or random values -- each run on its own process
use std::os::raw::c_int;

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn read(fd: c_int, to: *mut std::ffi::c_void, len: usize) -> isize;
    fn write(fd: c_int, from: *const std::ffi::c_void, len: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn dup2(from: c_int, to: c_int) -> c_int;
    fn open(path: *const i8, flags: c_int, ...) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: c_int) -> !;
}

#[cfg(verif = "allocator")]
fn reset_allocator() { unsafe { big_o_test::metrics_allocator::verif::REQUESTS.answer = None; } }
#[cfg(not(verif = "allocator"))]
fn reset_allocator() {}

/// what a run led to
enum Outcome { Held, Failed(String), Undecided }

static mut REPORT_TO: c_int = 2;
static mut PANICS: bool = false;
fn tell(text: &str) { unsafe { write(REPORT_TO, text.as_ptr() as _, text.len()); } }

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}
/// the statics of this program
fn statics() -> &'static mut [u8] {
    unsafe {
        let start = &raw mut __data_start;
        std::slice::from_raw_parts_mut(start, (&raw mut _end) as usize - start as usize)
    }
}

/// runs `harness` on another process -- trying successive seeds until one satisfies the assumptions
fn run(harness: fn(), panics: bool, seeds: std::ops::Range<u64>, given: &[Vec<(usize, u128)>]) -> Outcome {
    unsafe {
        let mut fds = [0 as c_int; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "can't fork");
        if pid == 0 {
            close(fds[0]);
            alarm(20);
            REPORT_TO = fds[1];
            PANICS = panics;
            let null = open(c"/dev/null".as_ptr(), 1);
            dup2(null, 1); dup2(null, 2);
            // nothing is allocated in here: the harness might be dictating what the allocator answers
            std::panic::set_hook(Box::new(|info| {
                let file = info.location().map(|l| l.file()).unwrap_or("");
                if PANICS && !file.contains("kani/src/") { _exit(0); }
                tell(info.payload_as_str().unwrap_or("panic"));
                tell(" at "); tell(file.rsplit("kani/src/").next().unwrap());
                if let Some(l) = info.location() {
                    let digits = [b'0' + (l.line() / 1000 % 10) as u8, b'0' + (l.line() / 100 % 10) as u8, b'0' + (l.line() / 10 % 10) as u8, b'0' + (l.line() % 10) as u8];
                    tell(":"); tell(std::str::from_utf8_unchecked(&digits));
                }
                tell(" -- with values (in the order the harness takes them): ");
                kani::describe(|s| tell(s));
                _exit(1);
            }));
            let pristine = statics().to_vec();
            for seed in seeds {
                // values that are rejected may be so after the harness had changed its ghost state
                statics().copy_from_slice(&pristine);
                kani::start(seed, given.to_vec(), reset_allocator);
                match std::panic::catch_unwind(harness) {
                    Ok(()) => _exit(0),
                    Err(_rejected) => (),
                }
            }
            _exit(0);
        }
        close(fds[1]);
        let mut report = Vec::new();
        let mut buffer = [0u8; 4096];
        loop {
            let n = read(fds[0], buffer.as_mut_ptr() as _, buffer.len());
            if n <= 0 { break }
            report.extend_from_slice(&buffer[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        match (status & 0x7F, status >> 8 & 0xFF) {
            (0, 0) => Outcome::Held,
            (0, 1) => Outcome::Failed(String::from_utf8_lossy(&report).into_owned()),
            _ => Outcome::Undecided,
        }
    }
}

/// args: harness "holds|panics" given|- seed seconds
pub fn main(args: &[String]) -> Option<String> {
    let name = &args[0];
    let harness = crate::harnesses::harness(name).expect("a known harness");
    let panics = args[1] == "panics";
    let seed: u64 = args[3].parse().unwrap();
    let seconds: u64 = args[4].parse().unwrap();
    if args[2] != "-" {
        let given: Vec<Vec<(usize, u128)>> = std::fs::read_to_string(&args[2]).unwrap().lines()
            .map(|l| l.split_whitespace().map(|p| { let (i, v) = p.split_once('=').unwrap(); (i.parse().unwrap(), v.parse().unwrap()) }).collect()).collect();
        if let Outcome::Failed(how) = run(harness, panics, 0..1, &given) {
            return Some(format!("(the verifier's counterexample, replayed) {name}: {how}"));
        }
        println!("the verifier's counterexample did not reproduce natively");
    }
    let start = std::time::Instant::now();
    let (mut runs, mut undecided) = (0u64, 0u64);
    while start.elapsed().as_secs() < seconds {
        let first = seed.wrapping_mul(1 << 32).wrapping_add(runs * 4096);
        match run(harness, panics, first..first + 4096, &[]) {
            Outcome::Held => (),
            Outcome::Failed(how) => return Some(format!("{name}: {how}")),
            Outcome::Undecided => undecided += 1,
        }
        runs += 1;
    }
    println!("{name}: {runs} random runs, {undecided} undecided, no failure");
    None
}
