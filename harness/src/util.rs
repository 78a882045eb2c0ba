//! Shared machinery of the harness: random numbers, record output, and containment of
//! panics, hangs and runaway memory in the code under test. Whatever the code under test does,
//! it ends up as data in the output file.
use serde_json::{json, Value};
use std::cell::Cell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.usize(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.usize(i + 1);
            s.swap(i, j);
        }
    }
}

struct Out {
    w: Option<BufWriter<File>>,
    /// The record to be written if the code under test never comes back.
    cur: Option<Value>,
    lines: u64,
}

static OUT: Mutex<Out> = Mutex::new(Out { w: None, cur: None, lines: 0 });
/// Milliseconds since start at which the running call into the code under test began (0: none).
static STARTED: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static IS_MAIN: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

const HANG_MS: u64 = 60_000;
const MAX_RSS: u64 = 2_500_000_000;

fn now_ms(t0: std::time::Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();

fn die_with(msg: &str) -> ! {
    if let Ok(mut o) = OUT.lock() {
        if let Some(mut v) = o.cur.take() {
            v["p"] = json!(msg);
            let w = o.w.as_mut().unwrap();
            let _ = writeln!(w, "{}", v);
            let _ = w.flush();
            std::process::exit(0);
        }
    }
    eprintln!("harness: {} outside of a recorded call", msg);
    std::process::exit(3);
}

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096)
        .unwrap_or(0)
}

pub fn init(out: &str) {
    IS_MAIN.with(|m| m.set(true));
    let t0 = *T0.get_or_init(std::time::Instant::now);
    OUT.lock().unwrap().w = Some(BufWriter::with_capacity(1 << 20, File::create(out).expect("output file")));
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        if IS_MAIN.with(|m| m.get()) {
            LAST_PANIC.with(|l| *l.borrow_mut() = msg.clone());
            if STARTED.load(Ordering::Relaxed) == 0 {
                eprintln!("harness: panic: {}", msg);
            }
        } else {
            // The background thread of the code under test died; the main thread would wait for it forever.
            die_with(&format!("panic in background thread: {}", msg));
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let s = STARTED.load(Ordering::Relaxed);
        if s != 0 && now_ms(t0) > s + HANG_MS {
            die_with("no return within 60 s");
        }
        if s != 0 && rss() > MAX_RSS {
            die_with("memory above 2.5 GB");
        }
    });
}

/// Calls the code under test. `cur` is the record written if it never returns.
pub fn guarded<T>(cur: Value, f: impl FnOnce() -> T) -> Result<T, String> {
    OUT.lock().unwrap().cur = Some(cur);
    STARTED.store(now_ms(*T0.get().unwrap()), Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    STARTED.store(0, Ordering::Relaxed);
    OUT.lock().unwrap().cur = None;
    r.map_err(|_| {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        if m.is_empty() { "panic".to_string() } else { m }
    })
}

pub fn emit(v: &Value) {
    let mut o = OUT.lock().unwrap();
    o.lines += 1;
    let w = o.w.as_mut().unwrap();
    serde_json::to_writer(&mut *w, v).unwrap();
    w.write_all(b"\n").unwrap();
}

pub fn lines() -> u64 {
    OUT.lock().unwrap().lines
}

/// One record of a call: its input, and its result or the fact that it panicked.
pub fn rec(op: &str, input: Value, f: impl FnOnce() -> Value) {
    let mut v = json!({"op": op, "i": input, "p": ""});
    match guarded(v.clone(), f) {
        Ok(o) => v["o"] = o,
        Err(m) => v["p"] = json!(m),
    }
    emit(&v);
}

pub fn finish() {
    let mut o = OUT.lock().unwrap();
    o.w.as_mut().unwrap().flush().unwrap();
}

/// A natural number as base 1000 limbs, least significant first; TLC has 32 bit integers only.
pub fn big(mut n: u128) -> Value {
    let mut v = vec![];
    while n > 0 {
        v.push((n % 1000) as u64);
        n /= 1000;
    }
    json!(v)
}
