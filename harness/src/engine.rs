//! A small property-based testing engine: every random decision of a case is
//! drawn from a recorded choice sequence, so that a case can be replayed and
//! shrunk as one value.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- allocator

pub struct Counting;

thread_local! {
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
    static TOTAL_BYTES: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn acct(bytes: i64, blocks: i64) {
    let _ = LIVE_BYTES.try_with(|c| {
        let n = c.get() + bytes;
        c.set(n);
        let _ = PEAK_BYTES.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
    });
    if bytes > 0 {
        let _ = TOTAL_BYTES.try_with(|c| c.set(c.get() + bytes));
    }
    let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() + blocks));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            acct(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        acct(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            acct(l.size() as i64, 1);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            acct(n as i64 - l.size() as i64, 0);
        }
        q
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Mem {
    pub bytes: i64,
    pub blocks: i64,
}

pub fn mem_now() -> Mem {
    Mem {
        bytes: LIVE_BYTES.with(|c| c.get()),
        blocks: LIVE_BLOCKS.with(|c| c.get()),
    }
}
pub fn mem_reset_peak() {
    PEAK_BYTES.with(|p| p.set(LIVE_BYTES.with(|c| c.get())));
}
pub fn mem_peak() -> i64 {
    PEAK_BYTES.with(|p| p.get())
}
pub fn mem_total() -> i64 {
    TOTAL_BYTES.with(|p| p.get())
}

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    pub fn next(&mut self) -> u64 {
        let r = self.0[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.0[1] << 17;
        self.0[2] ^= self.0[0];
        self.0[3] ^= self.0[1];
        self.0[1] ^= self.0[2];
        self.0[0] ^= self.0[3];
        self.0[2] ^= t;
        self.0[3] = self.0[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}
/// Deterministic hasher.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 ^= x as u64;
            self.0 = self.0.wrapping_mul(0x100_0000_01b3);
        }
    }
}

// ---------------------------------------------------------------- source

/// With VH_CHOICES set, log each choice as it is drawn (for crashing cases).
fn trace(v: u64) {
    use std::io::Write as _;
    use std::sync::OnceLock;
    static F: OnceLock<Option<std::fs::File>> = OnceLock::new();
    let f = F.get_or_init(|| std::env::var_os("VH_CHOICES").and_then(|p| std::fs::File::create(p).ok()));
    if let Some(f) = f {
        let _ = (&mut &*f).write_all(&v.to_le_bytes());
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>, usize),
}

/// Where a case gets its choices from.
pub struct Source {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    pub size: u64,
    /// Index of the case in its run, for enumerations.
    pub index: u64,
    pub overrun: bool,
}

const MAX_CHOICES: usize = 60_000;

impl Source {
    pub fn random(seed: u64, size: u64, index: u64) -> Source {
        let mut s = Source {
            mode: Mode::Random(Rng::new(seed)),
            pos: 0,
            rec: Vec::new(),
            size: 0,
            index: 0,
            overrun: false,
        };
        s.rec.push(size);
        trace(size);
        s.rec.push(index);
        trace(index);
        s.pos = 2;
        s.size = size;
        s.index = index;
        s
    }
    pub fn replay(choices: Vec<u64>) -> Source {
        let mut s = Source {
            mode: Mode::Replay(choices),
            pos: 0,
            rec: Vec::new(),
            size: 0,
            index: 0,
            overrun: false,
        };
        s.size = s.draw(101);
        s.index = s.draw(0);
        s
    }
    pub fn bytes(data: &[u8]) -> Source {
        let mut s = Source {
            mode: Mode::Bytes(data.to_vec(), 0),
            pos: 0,
            rec: Vec::new(),
            size: 0,
            index: 0,
            overrun: false,
        };
        s.size = s.draw(101);
        s.index = s.draw(0);
        s
    }

    /// A choice in `0..bound` (`bound == 0` means the full u64 range). Smaller
    /// is simpler.
    pub fn draw(&mut self, bound: u64) -> u64 {
        if self.rec.len() >= MAX_CHOICES {
            self.overrun = true;
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => r.below(bound),
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if bound == 0 {
                    v
                } else {
                    v.min(bound - 1)
                }
            }
            Mode::Bytes(d, at) => {
                let bits = if bound == 0 { 64 } else { 64 - (bound - 1).leading_zeros() };
                let n = (bits as usize).div_ceil(8);
                let mut v = 0u64;
                for _ in 0..n {
                    v = v << 8 | d.get(*at).copied().unwrap_or(0) as u64;
                    *at += 1;
                }
                if bound == 0 {
                    v
                } else {
                    v % bound
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        trace(v);
        v
    }
    /// True when the input of a byte-driven source has run out.
    pub fn dry(&self) -> bool {
        match &self.mode {
            Mode::Random(_) => false,
            Mode::Replay(c) => self.pos >= c.len(),
            Mode::Bytes(d, at) => *at >= d.len(),
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`; false is the simpler outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Weighted index; earlier entries are simpler.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, &n) in w.iter().enumerate() {
            if x < n {
                return i;
            }
            x -= n;
        }
        w.len() - 1
    }
    /// Loop guard: average `avg` iterations, at most `max`. Shrinks by
    /// deleting whole iterations.
    pub fn more(&mut self, done: usize, avg: u64, max: usize) -> bool {
        if done >= max || self.dry() {
            return false;
        }
        self.chance(avg.max(1), avg.max(1) + 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
}

// ---------------------------------------------------------------- context

#[derive(Debug, Clone)]
pub struct Fail {
    /// A stable signature: which clause broke and for which specific shape.
    pub sig: String,
    pub msg: String,
}

pub type PResult = Result<(), Fail>;

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub desc: String,
    pub hash: Option<u64>,
    pub nontrivial: bool,
    pub discard: bool,
    /// How many comparisons against the oracle this case made.
    pub checks: u64,
    /// Known findings met (signature suppressed) in this case.
    pub known: Vec<String>,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    /// Describe the case (what goes into samples and replay files).
    pub fn input(&mut self, d: &str) {
        self.hash = Some(self.hash.unwrap_or(0).rotate_left(5) ^ fnv(d.as_bytes()));
        if !self.desc.is_empty() {
            self.desc.push_str(" | ");
        }
        if self.desc.len() < 4000 {
            self.desc.push_str(d);
        }
    }
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn checked(&mut self) {
        self.checks += 1;
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::engine::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($ctx:expr, $c:expr, $sig:expr, $($arg:tt)*) => {{
        $ctx.checked();
        if !($c) {
            $crate::fail!($sig, $($arg)*);
        }
    }};
}

pub type CaseFn = fn(&mut Source, &mut Ctx) -> PResult;

pub struct Sub {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub quick: u64,
    /// Cases in the thorough tier.
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// ---------------------------------------------------------------- running a case

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Guarded<T> {
    Ok(T),
    /// Panic inside the library under test (or a crate it calls).
    Panic(String),
}

/// Run a closure, turning panics from outside this harness into data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Guarded<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Guarded::Ok(v),
        Err(e) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness(&loc) {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                std::panic::resume_unwind(e);
            }
            Guarded::Panic(format!("{msg} (at {loc})"))
        }
    }
}

/// Run a closure in which the caller's own code may panic. `Err` is the place
/// and message of a panic, whoever raised it.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            drop(e);
            Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
        }
    }
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

fn panic_sig(loc: &str, msg: &str) -> String {
    // Line numbers are left out: the signature follows the message.
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let short: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("panic:{file}:{short}")
}

pub enum Outcome {
    Pass,
    Discard,
    Fail(Fail),
    /// A defect of the harness itself.
    Broken(String),
}

pub fn run_case(f: CaseFn, src: &mut Source, ctx: &mut Ctx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(Ok(())) => {
            if ctx.discard || src.overrun {
                Outcome::Discard
            } else {
                Outcome::Pass
            }
        }
        Ok(Err(fail)) => {
            if src.overrun {
                return Outcome::Discard;
            }
            Outcome::Fail(fail)
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness(&loc) {
                Outcome::Broken(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Fail(Fail {
                    sig: panic_sig(&loc, &msg),
                    msg: format!("panicked at {loc}: {msg}"),
                })
            }
        }
    }
}

// ---------------------------------------------------------------- shrinking

pub struct Shrunk {
    pub choices: Vec<u64>,
    pub fail: Fail,
    pub desc: String,
    pub execs: u64,
}

pub fn shrink(f: CaseFn, first: Vec<u64>, fail: Fail, desc: String, known: &HashSet<String>, max: u64) -> Shrunk {
    let mut best = Shrunk {
        choices: first,
        fail,
        desc,
        execs: 0,
    };
    let start = std::time::Instant::now();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Shrunk| -> bool {
        if best.execs >= max || start.elapsed().as_secs() > 25 {
            return false;
        }
        if !seen.insert(hash_of(&cand)) {
            return false;
        }
        best.execs += 1;
        let mut src = Source::replay(cand);
        let mut ctx = Ctx::default();
        match run_case(f, &mut src, &mut ctx) {
            Outcome::Fail(fail) if !known.contains(&fail.sig) => {
                let rec = src.rec;
                let better = (rec.len(), &rec) < (best.choices.len(), &best.choices);
                if better {
                    best.choices = rec;
                    best.fail = fail;
                    best.desc = ctx.desc;
                }
                better
            }
            _ => false,
        }
    };
    loop {
        let before = best.choices.clone();
        // delete chunks
        for chunk in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.choices.len();
            while i > 2 {
                i = i.min(best.choices.len());
                let lo = i.saturating_sub(chunk).max(2);
                if lo >= i {
                    break;
                }
                let mut c = best.choices.clone();
                c.drain(lo..i);
                if !attempt(c, &mut best) {
                    i -= 1;
                    if chunk > 4 {
                        i = i.saturating_sub(chunk / 4);
                    }
                }
            }
        }
        // zero and minimise
        for i in (0..best.choices.len()).rev() {
            if i >= best.choices.len() || best.choices[i] == 0 {
                continue;
            }
            let mut c = best.choices.clone();
            c[i] = 0;
            if attempt(c, &mut best) {
                continue;
            }
            let (mut lo, mut hi) = (0u64, best.choices.get(i).copied().unwrap_or(0));
            while hi > lo + 1 && i < best.choices.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.choices.clone();
                c[i] = mid;
                if attempt(c, &mut best) {
                    hi = mid.min(best.choices.get(i).copied().unwrap_or(0));
                } else {
                    lo = mid;
                }
            }
            for d in [1u64, 2] {
                if i < best.choices.len() && best.choices[i] >= d {
                    let mut c = best.choices.clone();
                    c[i] -= d;
                    attempt(c, &mut best);
                }
            }
        }
        // lower one value and delete the element after it (length-prefixed data)
        for i in (0..best.choices.len()).rev() {
            if i + 1 < best.choices.len() && best.choices[i] > 0 {
                let mut c = best.choices.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt(c, &mut best);
            }
        }
        if best.choices == before || best.execs >= max {
            return best;
        }
        if start.elapsed().as_secs() > 25 {
            return best;
        }
    }
}

// ---------------------------------------------------------------- json out

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let mut t: String = s.chars().take(n).collect();
    t.push_str(" …[clipped]");
    t
}
