// Native stand-in for the `kani` crate: the same harness bodies, run on concrete inputs.
//
// Used for two things only: to replay a verifier counterexample (or search a concrete failing input for an
// obligation the verifier refuted) on the compiled real code, and as a *bounded* check of an obligation the
// verifier could not decide on the current tree.  Nothing run here is ever counted as proved.
use std::cell::RefCell;
use std::time::{Duration, Instant};

struct Stream {
    replay: Option<Vec<u8>>,
    pos: usize,
    rng: u64,
    log: Vec<u8>,
}
/// The input of the current run, for the watchdog.
static LOG: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
static RUNS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A run that takes longer than this does not terminate, for the tiny inputs used here.
const STUCK: Duration = Duration::from_secs(20);

fn watchdog() {
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::spawn(|| loop {
        let before = RUNS.load(SeqCst);
        std::thread::sleep(STUCK);
        if before == RUNS.load(SeqCst) {
            let l = LOG.lock().map(|l| l.clone()).unwrap_or_default();
            println!("NATIVE-FAIL input={} what=does not terminate", hex(&l));
            std::process::exit(101);
        }
    });
}

thread_local! {
    static S: RefCell<Stream> = RefCell::new(Stream { replay: None, pos: 0, rng: 1, log: Vec::new() });
}
pub struct Rejected;

fn next64(s: &mut Stream) -> u64 {
    s.rng = s.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = s.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn bytes(n: usize) -> u64 {
    S.with(|s| {
        let s = &mut *s.borrow_mut();
        let v = if let Some(r) = &s.replay {
            let mut v = 0u64;
            for i in 0..n {
                v |= (*r.get(s.pos + i).unwrap_or(&0) as u64) << (8 * i);
            }
            s.pos += n;
            v
        } else {
            let c = next64(s);
            let r = next64(s);
            let max = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
            match c % 16 {
                0..=7 => r % 12,
                8 => max - r % 6,
                9 => (max >> 1).wrapping_add(r % 5).wrapping_sub(2) & max,
                10 => 1u64.checked_shl((r % (8 * n as u64)) as u32).unwrap_or(0) & max,
                11 => r & 0xff & max,
                12 => r & 0xffff & max,
                _ => r & max,
            }
        };
        for i in 0..n {
            s.log.push((v >> (8 * i)) as u8);
        }
        if let Ok(mut l) = LOG.lock() {
            l.clear();
            l.extend_from_slice(&s.log);
        }
        v
    })
}

pub trait Arbitrary: Sized {
    fn any() -> Self;
}
macro_rules! arb { ($($t:ty)*) => { $( impl Arbitrary for $t { fn any() -> Self { bytes(core::mem::size_of::<$t>()) as $t } } )* } }
arb!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
impl Arbitrary for f32 {
    fn any() -> Self {
        f32::from_bits(bytes(4) as u32)
    }
}
impl Arbitrary for f64 {
    fn any() -> Self {
        f64::from_bits(bytes(8))
    }
}
impl Arbitrary for bool {
    fn any() -> Self {
        bytes(1) & 1 == 1
    }
}
impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
    fn any() -> Self {
        core::array::from_fn(|_| T::any())
    }
}
pub fn any<T: Arbitrary>() -> T {
    T::any()
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Rejected);
    }
}
macro_rules! cover {
    ($($t:tt)*) => {};
}
pub(crate) use cover;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn current_input() -> String {
    S.with(|s| hex(&s.borrow().log))
}
fn env(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

#[cfg(rpcl2_asan)]
mod asan {
    extern "C" {
        fn __sanitizer_set_death_callback(f: extern "C" fn());
    }
    extern "C" fn died() {
        println!("NATIVE-FAIL input={} what=AddressSanitizer: invalid memory access", super::current_input());
    }
    pub fn install() {
        unsafe { __sanitizer_set_death_callback(died) }
    }
}

pub fn explore(name: &str, f: fn()) {
    #[cfg(rpcl2_asan)]
    asan::install();
    watchdog();
    let replay = std::env::var("RPCL2_REPLAY").ok();
    let iters = if replay.is_some() { 1 } else { env("RPCL2_ITERS", 20_000) };
    let limit = Duration::from_millis(env("RPCL2_MILLIS", 4_000));
    let seed = env("VERIF_SEED", 1);
    let start = Instant::now();
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    let (mut run, mut rejected) = (0u64, 0u64);
    for i in 0..iters {
        if start.elapsed() > limit {
            break;
        }
        RUNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        S.with(|s| {
            *s.borrow_mut() = Stream {
                replay: replay.as_ref().map(|h| {
                    (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()
                }),
                pos: 0,
                rng: seed.wrapping_mul(0x1234_5678_9abc_def1) ^ (i << 20),
                log: Vec::new(),
            }
        });
        match std::panic::catch_unwind(f) {
            Ok(()) => run += 1,
            Err(p) if p.is::<Rejected>() => rejected += 1,
            Err(_) => {
                let what = last.lock().unwrap().clone();
                let _ = std::panic::take_hook();
                println!("NATIVE-FAIL input={} what={}", current_input(), what);
                std::process::exit(101);
            }
        }
    }
    let _ = std::panic::take_hook();
    println!("NATIVE-OK harness={name} evaluations={run} rejected={rejected}");
}

/// One fixed instance, executed once (too large for the verifier and for a search).
pub fn instance(name: &str, f: fn()) {
    #[cfg(rpcl2_asan)]
    asan::install();
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    match std::panic::catch_unwind(f) {
        Ok(()) => {
            let _ = std::panic::take_hook();
            println!("NATIVE-OK harness={name} evaluations=1 rejected=0");
        }
        Err(_) => {
            println!("NATIVE-FAIL input=instance:{name} what={}", last.lock().unwrap());
            std::process::exit(101);
        }
    }
}
