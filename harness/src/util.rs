//! Case runner: deterministic cases, panic capture, counting, replay by case number.
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// Characters that code tends to treat specially.
pub const ODD_CHARS: [char; 40] = [
    'a', 'z', 'A', 'Z', '0', '9', ' ', '"', '\'', '\\', '/', '%', '&', '+', '=', ':', ';', ',', '.', '-', '_', '{', '[', '\u{0}', '\t', '\n', '\r', '\u{1b}', '\u{7f}', '\u{85}', '\u{a0}',
    'é', 'ß', 'İ', '\u{301}', '\u{200b}', '\u{feff}', '\u{fffd}', '漢', '😀',
];
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// Random UTF-8 text of about n bytes (mixed widths), never longer than n bytes.
    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        loop {
            let c = match self.below(8) {
                0 => self.next() as u8 as char,
                1 => char::from_u32(self.next() as u32 % 0x110000).unwrap_or('\u{fffd}'),
                _ => self.pick(&ODD_CHARS),
            };
            if s.len() + c.len_utf8() > n {
                while s.len() < n {
                    s.push('x');
                }
                return s;
            }
            s.push(c);
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub idx: u64,
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(u64, String, String)>,
    pub deadline: Instant,
    pub progress: Option<std::fs::File>,
}

pub type Res = Result<(), String>;

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("panicked: {}", s)
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("panicked: {}", s)
    } else {
        "panicked".to_string()
    }
}

/// Runs f, turning a panic into an Err.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, only: Option<u64>, budget: Duration) -> Ctx {
        Ctx {
            seed,
            thorough,
            only,
            idx: 0,
            evaluations: 0,
            seen: HashSet::new(),
            samples: vec![],
            failures: vec![],
            deadline: Instant::now() + budget,
            progress: std::env::var_os("VH_PROGRESS").and_then(|p| std::fs::File::create(p).ok()),
        }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_add(salt.wrapping_mul(0x1000003)))
    }
    /// True while random phases should go on.
    pub fn more(&self) -> bool {
        if let Some(only) = self.only {
            return self.idx <= only;
        }
        self.failures.len() < 3 && Instant::now() < self.deadline
    }
    /// Whether there is no point in going on.
    pub fn done(&self) -> bool {
        match self.only {
            Some(only) => self.idx > only,
            None => self.failures.len() >= 3,
        }
    }
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Res) {
        let idx = self.idx;
        self.idx += 1;
        if let Some(only) = self.only {
            if only != idx {
                return;
            }
        } else if self.failures.len() >= 3 {
            return;
        }
        self.evaluations += 1;
        let d = desc();
        if let Some(f) = &self.progress {
            // where to find the case if the process does not survive it
            use std::os::unix::fs::FileExt;
            let text = json_str(&d.chars().take(300).collect::<String>());
            let _ = f.write_all_at(format!("{:<2000}\n", format!("{{\"case\":{},\"input\":{}}}", idx, text)).as_bytes(), 0);
        }
        let mut h = DefaultHasher::new();
        d.hash(&mut h);
        if self.seen.insert(h.finish()) && (self.samples.len() < 3 || (idx.is_power_of_two() && self.samples.len() < 12)) {
            self.samples.push(d.chars().take(300).collect());
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(panic_text(e)),
        };
        if let Err(msg) = r {
            self.failures.push((idx, d, msg));
        }
    }
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Res {
    if cond {
        Ok(())
    } else {
        Err(msg())
    }
}

pub fn brief(b: &[u8]) -> String {
    if b.len() <= 24 {
        format!("{:02x?}", b)
    } else {
        format!("len {} {:02x?}..{:02x?}", b.len(), &b[..8], &b[b.len() - 8..])
    }
}

pub fn json_str(s: &str) -> String {
    serde_json::Value::String(s.to_string()).to_string()
}

/// Counts the bytes that are allocated, for finding what calls leave behind.
pub struct Counting;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as isize - l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
pub fn live() -> isize { LIVE.load(std::sync::atomic::Ordering::Relaxed) }

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
