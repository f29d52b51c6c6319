//! A small property-based testing engine: every random decision of a case is one recorded
//! choice, so that cases replay from their choices and shrink by editing them.

use crate::guard;
use crate::json::esc;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A stream derived from one number; used to expand one choice into many digits.
pub struct Mix(u64);
impl Mix {
    pub fn new(s: u64) -> Mix {
        Mix(s)
    }
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for &b in *p {
            h ^= b as u64;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

/// Source of choices of one case.
pub struct Src {
    pre: Option<Vec<u64>>,
    rng: u64,
    pub rec: Vec<u64>,
    log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { pre: None, rng: seed, rec: vec![], log: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { pre: Some(choices), rng: 0, rec: vec![], log: None }
    }
    pub fn log_to(&mut self, f: std::fs::File) {
        self.log = Some(f);
    }
    /// A choice in 0..=max; 0 is the simplest.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &self.pre {
            Some(p) => p.get(self.rec.len()).copied().unwrap_or(0).min(max),
            None => {
                let r = splitmix(&mut self.rng);
                if max == u64::MAX {
                    r
                } else {
                    (((r as u128) * (max as u128 + 1)) >> 64) as u64
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(format!("{} ", v).as_bytes());
        }
        v
    }
    /// lo..=hi, shrinking to lo.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.upto((hi - lo) as u64) as i64
    }
    /// lo..=hi, shrinking to the value nearest to zero.
    pub fn around(&mut self, lo: i64, hi: i64) -> i64 {
        if lo >= 0 {
            return self.range(lo, hi);
        }
        if hi <= 0 {
            return -self.range(-hi, -lo);
        }
        // 0, 1, -1, 2, -2 ...
        let v = self.upto((hi - lo) as u64) as i64;
        let both = hi.min(-lo);
        if v <= 2 * both {
            if v % 2 == 1 {
                (v + 1) / 2
            } else {
                -(v / 2)
            }
        } else if hi > both {
            v - both
        } else {
            -(v - both)
        }
    }
    pub fn flip(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// true with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.upto(xs.len() as u64 - 1) as usize]
    }
    /// Index drawn with the given weights; index 0 is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.upto(total - 1);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn u64(&mut self) -> u64 {
        self.upto(u64::MAX)
    }
}

// ---------------------------------------------------------------- cases

#[derive(Default)]
pub struct Ctx {
    pub verbose: bool,
    pub lines: Vec<String>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    key: u64,
    pub skipped: bool,
    digest: Option<u64>,
}

impl Ctx {
    /// Registers an input of the case: it goes into the case's identity, and into the report.
    pub fn input(&mut self, name: &str, v: &dyn Fn() -> String, id: u64) {
        self.key = hash64(&[&self.key.to_le_bytes(), name.as_bytes(), &id.to_le_bytes()]);
        if self.verbose {
            let mut s = v();
            if s.len() > 4000 {
                let n = s.len();
                let cut = |i: usize| (0..=i).rev().find(|&k| s.is_char_boundary(k)).unwrap();
                s = format!("{}...[{} chars]...{}", &s[..cut(1500)], n, &s[cut(n - 500)..]);
            }
            self.lines.push(format!("{} = {}", name, s));
        }
    }
    pub fn text(&mut self, name: &str, s: &str) {
        let id = hash64(&[s.as_bytes()]);
        self.input(name, &|| s.to_string(), id);
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Something the case computed, for comparison with other builds of the same code.
    pub fn output(&mut self, b: &[u8]) {
        self.digest = Some(hash64(&[&self.digest.unwrap_or(0).to_le_bytes(), b]));
        if self.verbose {
            self.lines.push(format!("output {} bytes: {:016x}", b.len(), hash64(&[b])));
        }
    }
}

pub type Check = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> Check;

pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub groups: &'static [Group],
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone)]
pub struct Panic {
    pub msg: String,
    pub loc: String,
}

impl Panic {
    pub fn in_harness(&self) -> bool {
        !self.loc.starts_with('/')
    }
}

/// Runs code under test, turning a panic into a value.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Panic { msg, loc })
        }
    }
}

pub enum Outcome {
    Pass,
    Fail(String),
    /// The harness itself failed: never a verdict about the code under test.
    Broken(String),
}

/// Whether a memory fault seen by the allocator fails the case (the memory safety property).
pub static FAULTS_FAIL: AtomicBool = AtomicBool::new(false);

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    guard::take_fault();
    guard::case_begin();
    let r = guarded(|| f(src, ctx));
    guard::case_end();
    let out = match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(p) if p.in_harness() => Outcome::Broken(format!("harness panic: {} at {}", p.msg, p.loc)),
        Err(p) => Outcome::Fail(format!("unexpected panic: \"{}\" at {}", p.msg, p.loc)),
    };
    let fault = guard::take_fault();
    if let (Some(m), true) = (fault, FAULTS_FAIL.load(Relaxed)) {
        return Outcome::Fail(match out {
            Outcome::Fail(o) => format!("{}; also: {}", m, o),
            _ => m,
        });
    }
    out
}

// ---------------------------------------------------------------- time

/// Exit status used when a case runs over its processor time.
pub const SLOW_EXIT: i32 = 78;
/// Processor seconds a case may take: far more than any case needs.
pub static CASE_SECONDS: AtomicU64 = AtomicU64::new(u64::MAX);
static LONGEST_US: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn pthread_self() -> u64;
    fn pthread_getcpuclockid(thread: u64, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

/// Microseconds on a clock of the system.
fn clock_us(clock: i32) -> Option<u64> {
    let mut t = [0i64; 2];
    if cfg!(miri) {
        return None;
    }
    let r = unsafe { clock_gettime(clock, &mut t) };
    (r == 0).then(|| t[0] as u64 * 1_000_000 + t[1] as u64 / 1000)
}
fn own_clock() -> i32 {
    let mut c = 0;
    if cfg!(miri) {
        return c;
    }
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut c);
    }
    c
}

/// The case a thread is at: its clock, and that clock's reading when the case began (0: idle).
#[derive(Default)]
struct Watch {
    clock: std::sync::atomic::AtomicI32,
    since: AtomicU64,
}
impl Watch {
    fn begin(&self) {
        self.since.store(clock_us(3).unwrap_or(0).max(1), Relaxed);
    }
    fn end(&self) {
        let now = clock_us(3).unwrap_or(0);
        LONGEST_US.fetch_max(now.saturating_sub(self.since.swap(0, Relaxed)), Relaxed);
    }
    /// Whether the case has taken too long; to be asked once in a second. `seen` is what it
    /// saw before: the case, its clock and how often that clock had not moved.
    fn overdue(&self, seen: &mut (u64, u64, u64)) -> bool {
        let s = self.since.load(Relaxed);
        if s == 0 {
            return false;
        }
        let now = match clock_us(self.clock.load(Relaxed)) {
            Some(n) => n,
            None => return false,
        };
        // the same case still, not the next one
        if self.since.load(Relaxed) != s {
            return false;
        }
        if seen.0 == s && now - seen.1.min(now) < 200 {
            // waits for something and does nothing: counted in looks, not in time, so that
            // a machine that stands still does not count
            seen.2 += 1;
        } else {
            *seen = (s, now, 0);
        }
        now.saturating_sub(s) / 1_000_000 >= CASE_SECONDS.load(Relaxed) || seen.2 >= STALL_LOOKS
    }
}
/// Seconds a case may wait without using any processor time at all.
const STALL_LOOKS: u64 = 45;

// ---------------------------------------------------------------- running

pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub config: String,
    pub part: (u64, u64),
    pub threads: usize,
    pub out: Option<String>,
    pub slots: Option<String>,
    pub replay_dir: String,
    pub only_group: Option<String>,
    pub only_case: Option<u64>,
    pub log_choices: Option<String>,
    pub scale: f64,
    pub digests: Option<String>,
}

fn case_seed(seed: u64, prop: &str, group: &str, idx: u64) -> u64 {
    hash64(&[&seed.to_le_bytes(), prop.as_bytes(), group.as_bytes(), &idx.to_le_bytes()])
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<(&'static str, &'static str), u64>,
    per_group: BTreeMap<&'static str, (u64, u64)>,
    skipped: u64,
    digests: Vec<(u64, u64, u64)>,
}

struct Failure {
    group: &'static str,
    idx: u64,
    choices: Vec<u64>,
    msg: String,
    lines: Vec<String>,
    shrunk_from: usize,
    tries: u64,
}

fn attempt(f: CaseFn, choices: &[u64]) -> Option<(Vec<u64>, String, Vec<String>)> {
    let mut s = Src::replay(choices.to_vec());
    let mut c = Ctx { verbose: true, ..Ctx::default() };
    match run_case(f, &mut s, &mut c) {
        Outcome::Fail(m) => Some((s.rec, m, c.lines)),
        _ => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Shrinks a failing choice sequence.
fn shrink(f: CaseFn, first: Vec<u64>, seen: &str) -> (Vec<u64>, String, Vec<String>, u64) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(25);
    let mut tries = 0u64;
    let (mut best, mut msg, mut lines) = match attempt(f, &first) {
        Some(x) => x,
        None => {
            // schedules do not always come again: show what the case was, and what was seen
            let mut s = Src::replay(first.clone());
            let mut c = Ctx { verbose: true, ..Ctx::default() };
            let _ = run_case(f, &mut s, &mut c);
            return (first, format!("{} (seen once; not every run of the case shows it)", seen), c.lines, 1);
        }
    };
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String, lines: &mut Vec<String>| -> bool {
        if tries > 6000 || t0.elapsed() > limit {
            return false;
        }
        tries += 1;
        if let Some((rec, m, l)) = attempt(f, &cand) {
            if simpler(&rec, best) {
                *best = rec;
                *msg = m;
                *lines = l;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete runs
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_it(c, &mut best, &mut msg, &mut lines) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero runs
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    try_it(c, &mut best, &mut msg, &mut lines);
                }
                i += size;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if try_it(c, &mut best, &mut msg, &mut lines) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // shorten a value and drop its successor together
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                try_it(c, &mut best, &mut msg, &mut lines);
            }
            i += 1;
        }
        if best == before || t0.elapsed() > limit {
            break;
        }
    }
    (best, msg, lines, tries)
}

pub fn write_replay(dir: &str, prop: &str, group: &str, o: &Opts, idx: u64, choices: &[u64], msg: &str, lines: &[String]) -> String {
    let _ = std::fs::create_dir_all(dir);
    let mut t = String::new();
    let _ = writeln!(t, "property: {}", prop);
    let _ = writeln!(t, "group: {}", group);
    let _ = writeln!(t, "config: {}", o.config);
    let _ = writeln!(t, "seed: {}", o.seed);
    let _ = writeln!(t, "case: {}", idx);
    let _ = write!(t, "choices:");
    for c in choices {
        let _ = write!(t, " {}", c);
    }
    let _ = writeln!(t);
    let _ = writeln!(t, "message: {}", msg.replace('\n', " "));
    for l in lines {
        let _ = writeln!(t, "input: {}", l.replace('\n', "\\n"));
    }
    let _ = writeln!(t, "# replay with: /verif/run.py --replay <this file>");
    let h = hash64(&[prop.as_bytes(), group.as_bytes(), format!("{:?}", choices).as_bytes()]);
    let path = format!("{}/{}-{}-{:08x}.txt", dir, prop, o.config, h as u32);
    let _ = std::fs::write(&path, t);
    path
}

pub fn run(p: &'static Prop, o: &Opts) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let slots = o.slots.as_ref().map(|s| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(s).expect("slots file")
    });
    // the list of work: (group index, case index)
    let mut counts = vec![];
    for g in p.groups {
        let n = if o.thorough { g.thorough } else { g.quick };
        counts.push(if n == 0 { 0 } else { ((n as f64 * o.scale).ceil() as u64).max(1) });
    }
    if let (Some(g), Some(c)) = (&o.only_group, o.only_case) {
        return run_one(p, o, g, c);
    }
    let first_bad = AtomicU64::new(u64::MAX);
    let next: Vec<AtomicU64> = p.groups.iter().map(|_| AtomicU64::new(0)).collect();
    let all = Mutex::new(Stats::default());
    let fails: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let watches: Vec<Watch> = (0..o.threads).map(|_| Watch::default()).collect();
    let running = AtomicU64::new(o.threads as u64);
    std::thread::scope(|sc| {
        // a case that does not come to an end
        let (w, r, f) = (&watches, &running, &fails);
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, move || {
                let mut n = 0u64;
                let mut seen = vec![(0, 0, 0); w.len()];
                while r.load(Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(if n < 100 { 2 } else { 50 }));
                    n += 1;
                    if n % 20 == 0 && w.iter().zip(&mut seen).fold(false, |a, (w, s)| w.overdue(s) || a) {
                        let mut fs = f.lock().unwrap().clone();
                        fs.sort();
                        if fs.is_empty() {
                            std::process::exit(SLOW_EXIT);
                        }
                        let failure = shrunk(p, fs.remove(0));
                        std::process::exit(report(p, o, &Stats::default(), t0, &[], &Some(failure)));
                    }
                }
            })
            .unwrap();
        for tid in 0..o.threads {
            let (counts, next, all, fails, broken, first_bad, slots) =
                (&counts, &next, &all, &fails, &broken, &first_bad, &slots);
            let (watch, running) = (&watches[tid], &running);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    struct Leave<'a>(&'a AtomicU64);
                    impl Drop for Leave<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, Relaxed);
                        }
                    }
                    let _leave = Leave(running);
                    watch.clock.store(own_clock(), Relaxed);
                    let mut st = Stats::default();
                    'outer: for (gi, g) in p.groups.iter().enumerate() {
                        if let Some(only) = &o.only_group {
                            if only != g.name {
                                continue;
                            }
                        }
                        // claim chunks so that slow cases balance over the threads; what a case
                        // does depends on its index alone
                        let chunk = (counts[gi] / (o.threads as u64 * 16)).clamp(1, 64);
                        loop {
                            let start = next[gi].fetch_add(chunk, Relaxed);
                            if start >= counts[gi] {
                                break;
                            }
                            for idx in start..(start + chunk).min(counts[gi]) {
                                if idx % o.part.1 != o.part.0 {
                                    continue;
                                }
                                let order = (gi as u64) << 48 | idx;
                                if first_bad.load(Relaxed) < order || broken.lock().unwrap().is_some() {
                                    break 'outer;
                                }
                                if let Some(f) = slots {
                                    let mut b = [0u8; 24];
                                    b[..8].copy_from_slice(&(gi as u64).to_le_bytes());
                                    b[8..16].copy_from_slice(&idx.to_le_bytes());
                                    b[16..].copy_from_slice(&1u64.to_le_bytes());
                                    let _ = f.write_all_at(&b, tid as u64 * 24);
                                }
                                let mut src = Src::random(case_seed(o.seed, p.id, g.name, idx));
                                let mut ctx = Ctx { key: hash64(&[g.name.as_bytes()]), ..Ctx::default() };
                                watch.begin();
                                let r = run_case(g.f, &mut src, &mut ctx);
                                watch.end();
                                st.evals += 1;
                                let e = st.per_group.entry(g.name).or_default();
                                e.0 += 1;
                                if ctx.skipped {
                                    st.skipped += 1;
                                }
                                if ctx.nontrivial {
                                    st.nontrivial += 1;
                                    if st.distinct.insert(ctx.key) {
                                        e.1 += 1;
                                    }
                                }
                                if let (Some(d), true) = (ctx.digest, o.digests.is_some()) {
                                    st.digests.push((gi as u64, idx, d));
                                }
                                for l in ctx.labels {
                                    *st.labels.entry((g.name, l)).or_default() += 1;
                                }
                                match r {
                                    Outcome::Pass => {}
                                    Outcome::Fail(m) => {
                                        first_bad.fetch_min(order, Relaxed);
                                        fails.lock().unwrap().push((order, gi, idx, src.rec, m));
                                        break 'outer;
                                    }
                                    Outcome::Broken(m) => {
                                        *broken.lock().unwrap() = Some(format!("group {} case {}: {}", g.name, idx, m));
                                        break 'outer;
                                    }
                                }
                            }
                        }
                    }
                    if let Some(f) = slots {
                        let _ = f.write_all_at(&[0u8; 24], tid as u64 * 24);
                    }
                    let mut a = all.lock().unwrap();
                    a.evals += st.evals;
                    a.nontrivial += st.nontrivial;
                    a.skipped += st.skipped;
                    a.distinct.extend(st.distinct);
                    a.digests.extend(st.digests);
                    for (k, v) in st.labels {
                        *a.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in st.per_group {
                        let e = a.per_group.entry(k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                })
                .unwrap();
        }
    });
    let mut st = all.into_inner().unwrap();
    if let Some(f) = &o.digests {
        st.digests.sort();
        let mut t = String::new();
        for (g, i, d) in &st.digests {
            let _ = writeln!(t, "{} {} {:016x}", p.groups[*g as usize].name, i, d);
        }
        std::fs::write(f, t).expect("write digests");
    }
    if let Some(b) = broken.into_inner().unwrap() {
        eprintln!("BROKEN {}", b);
        return 2;
    }
    let mut fs = fails.into_inner().unwrap();
    fs.sort();
    let mut failure = None;
    if !fs.is_empty() {
        failure = Some(shrunk(p, fs.remove(0)));
    }
    // samples: rerun a few nontrivial cases of each group and write them out
    let mut samples = vec![];
    if failure.is_none() {
        for (gi, g) in p.groups.iter().enumerate() {
            if o.only_group.is_some() {
                break;
            }
            let mut got = 0;
            for idx in (0..counts[gi].min(60)).filter(|i| i % o.part.1 == o.part.0) {
                let mut src = Src::random(case_seed(o.seed, p.id, g.name, idx));
                let mut ctx = Ctx { verbose: true, ..Ctx::default() };
                let _ = run_case(g.f, &mut src, &mut ctx);
                if ctx.nontrivial {
                    let mut s = format!("{}#{}: {}", g.name, idx, ctx.lines.join("; "));
                    if s.len() > 400 {
                        let cut = (0..=400).rev().find(|&k| s.is_char_boundary(k)).unwrap();
                        s.truncate(cut);
                        s.push_str("...");
                    }
                    samples.push(s);
                    got += 1;
                }
                if got == 2 {
                    break;
                }
            }
        }
    }
    report(p, o, &st, t0, &samples, &failure)
}

/// Order, group, case, choices, what was seen.
type Found = (u64, usize, u64, Vec<u64>, String);

fn shrunk(p: &'static Prop, (_, gi, idx, rec, seen): Found) -> Failure {
    let g = &p.groups[gi];
    // shrink on a big stack too
    let n0 = rec.len();
    let (ch, msg, lines, tries) = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || shrink(g.f, rec, &seen))
            .unwrap()
            .join()
            .unwrap()
    });
    Failure { group: g.name, idx, choices: ch, msg, lines, shrunk_from: n0, tries }
}

/// Writes the result; gives the exit status.
fn report(p: &'static Prop, o: &Opts, st: &Stats, t0: Instant, samples: &[String], failure: &Option<Failure>) -> i32 {
    let mut j = String::from("{");
    let _ = write!(
        j,
        "\"evaluations\":{},\"nontrivial\":{},\"skipped\":{},\"distinct\":{},\"wall_s\":{:.3},\"max_allocs\":{},\"longest_case_s\":{:.3}",
        st.evals,
        st.nontrivial,
        st.skipped,
        st.distinct.len(),
        t0.elapsed().as_secs_f64(),
        guard::MAX_SEEN.load(Relaxed),
        LONGEST_US.load(Relaxed) as f64 / 1e6
    );
    let _ = write!(j, ",\"rule\":{}", esc(p.rule));
    let _ = write!(j, ",\"groups\":{{");
    for (i, (g, (n, d))) in st.per_group.iter().enumerate() {
        let _ = write!(j, "{}{}:[{},{}]", if i > 0 { "," } else { "" }, esc(g), n, d);
    }
    let _ = write!(j, "}},\"labels\":{{");
    for (i, ((g, l), n)) in st.labels.iter().enumerate() {
        let _ = write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, esc(&format!("{}/{}", g, l)), n);
    }
    let _ = write!(j, "}},\"samples\":[");
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, esc(s));
    }
    j.push(']');
    let rc = if let Some(f) = failure {
        let path = write_replay(&o.replay_dir, p.id, f.group, o, f.idx, &f.choices, &f.msg, &f.lines);
        let _ = write!(
            j,
            ",\"failure\":{{\"group\":{},\"case\":{},\"replay\":{},\"message\":{},\"inputs\":{},\"choices\":{},\"shrunk_from\":{},\"shrink_tries\":{}}}",
            esc(f.group),
            f.idx,
            esc(&path),
            esc(&f.msg),
            esc(&f.lines.join("; ")),
            f.choices.len(),
            f.shrunk_from,
            f.tries
        );
        1
    } else {
        0
    };
    j.push('}');
    if let Some(out) = &o.out {
        std::fs::write(out, &j).expect("write result");
        let mut raw = Vec::with_capacity(st.distinct.len() * 8);
        for h in &st.distinct {
            raw.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}.keys", out), raw).expect("write keys");
    } else {
        println!("{}", j);
    }
    rc
}

/// One case by index (used after a crash): exit 0 pass, 1 fail, 2 broken.
fn run_one(p: &'static Prop, o: &Opts, group: &str, idx: u64) -> i32 {
    let g = p.groups.iter().find(|g| g.name == group).expect("group");
    let mut src = Src::random(case_seed(o.seed, p.id, g.name, idx));
    if let Some(l) = &o.log_choices {
        src.log_to(std::fs::File::create(l).expect("choice log"));
    }
    finish_one(g.f, src)
}

/// Replays a list of choices: exit 0 pass, 1 fail, 2 broken.
pub fn run_choices(p: &'static Prop, group: &str, choices: Vec<u64>, log: Option<String>) -> i32 {
    install_panic_hook();
    let g = match p.groups.iter().find(|g| g.name == group) {
        Some(g) => g,
        None => {
            eprintln!("no group {}", group);
            return 2;
        }
    };
    let mut src = Src::replay(choices);
    if let Some(l) = log {
        src.log_to(std::fs::File::create(l).expect("choice log"));
    }
    finish_one(g.f, src)
}

fn finish_one(f: CaseFn, mut src: Src) -> i32 {
    static WATCH: Watch = Watch { clock: std::sync::atomic::AtomicI32::new(0), since: AtomicU64::new(0) };
    std::thread::spawn(|| {
        let mut seen = (0, 0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(1000));
            if WATCH.overdue(&mut seen) {
                std::process::exit(SLOW_EXIT);
            }
        }
    });
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        WATCH.clock.store(own_clock(), Relaxed);
        WATCH.begin();
        let mut ctx = Ctx { verbose: true, ..Ctx::default() };
        let r = run_case(f, &mut src, &mut ctx);
        for l in &ctx.lines {
            println!("input: {}", l);
        }
        match r {
            Outcome::Pass => {
                println!("PASS");
                0
            }
            Outcome::Fail(m) => {
                println!("FAIL {}", m);
                1
            }
            Outcome::Broken(m) => {
                println!("BROKEN {}", m);
                2
            }
        }
    });
    h.unwrap().join().unwrap_or(2)
}
