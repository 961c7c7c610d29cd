//! Parallel explorer, statistics, in-flight slots (read by the supervisor when a worker dies or
//! hangs), violation collection and known findings.
use crate::chooser::{Chooser, Pt};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub const SLOT: usize = 1 << 20;
pub const THREADS: usize = 8;
const HDR: usize = 32;

pub struct Slots(pub *mut u8);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len((SLOT * THREADS) as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * THREADS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Slots(p as *mut u8)
    }
    fn w(&self, i: usize, k: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i * SLOT + k * 8) as *const AtomicU64) }
    }
    /// word 0: start millis (0 = idle), 1: len, 2: limit millis
    pub fn enter(&self, i: usize, src: &[u8], limit_ms: u64) {
        let len = src.len().min(SLOT - HDR);
        unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), self.0.add(i * SLOT + HDR), len) };
        self.w(i, 1).store(len as u64, Relaxed);
        self.w(i, 2).store(limit_ms, Relaxed);
        self.w(i, 0).store(now_ms(), Release);
    }
    pub fn leave(&self, i: usize) {
        self.w(i, 0).store(0, Release);
    }
    pub fn read(&self, i: usize) -> Option<(u64, u64, Vec<u8>)> {
        let st = self.w(i, 0).load(Acquire);
        if st == 0 {
            return None;
        }
        let len = (self.w(i, 1).load(Relaxed) as usize).min(SLOT - HDR);
        let v = unsafe { std::slice::from_raw_parts(self.0.add(i * SLOT + HDR), len) }.to_vec();
        Some((st, self.w(i, 2).load(Relaxed), v))
    }
}

pub fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000 + 1
}

thread_local! {
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if loc.starts_with("src/") || msg.starts_with("HARNESS") {
            if !msg.starts_with("LRP") {
                eprintln!("harness panic at {loc}: {msg}");
            }
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub budget: u32,
    pub path: Vec<u32>,
    pub input: Vec<u8>,
    pub detail: String,
}

pub struct Shared {
    pub property: String,
    pub slots: Slots,
    pub execs: AtomicU64,
    pub cases: AtomicU64,
    pub transitions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub skipped_dup: AtomicU64,
    pub seen: Vec<Mutex<HashSet<u64>>>,
    pub violations: Mutex<Vec<Violation>>,
    pub nviol: AtomicUsize,
    pub samples: Mutex<Vec<(String, String)>>,
    pub outcomes: Mutex<std::collections::BTreeMap<String, u64>>,
    pub families: Mutex<Vec<(String, u32, u64, f64, bool)>>,
    pub deadline: Mutex<Option<Instant>>,
    pub capped: AtomicBool,
    pub known: Vec<(String, Vec<u8>, String)>,
    pub known_hit: Mutex<HashSet<usize>>,
}

pub fn max_viol() -> usize {
    static M: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *M.get_or_init(|| if std::env::var("MC_ALL").is_ok() { 20_000 } else { 40 })
}

pub struct Ctx<'a> {
    pub sh: &'a Shared,
    pub slot: usize,
    pub family: &'a str,
    pub cur: Vec<u8>,
    pub dedup: bool,
    pub limit_ms: u64,
    pub fails: Vec<(Vec<u8>, String)>,
    pub verbose: bool,
    /// when set, inputs are collected here instead of being explored
    pub divert: Option<Vec<Vec<u8>>>,
    local_out: Vec<(&'static str, u64)>,
    cases: u64,
    nontrivial: u64,
    seen_now: HashSet<u64>,
}

impl<'a> Ctx<'a> {
    /// Marks `src` as the input now being given to the implementation. Returns false when it was
    /// already explored in this run (same family group).
    pub fn begin(&mut self, src: &[u8]) -> bool {
        if let Some(v) = &mut self.divert {
            v.push(src.to_vec());
            return false;
        }
        if self.dedup {
            let h = fxhash(src);
            let sh = &self.sh.seen[(h >> 58) as usize];
            if !sh.lock().unwrap().insert(h) && !self.verbose {
                self.sh.skipped_dup.fetch_add(1, Relaxed);
                return false;
            }
        }
        self.cases += 1;
        if self.cases <= 1 || self.cases == 1000 {
            let mut sm = self.sh.samples.lock().unwrap();
            if sm.len() < 40 && sm.iter().filter(|(f, _)| f == self.family).count() < 2 {
                let mut t = src.to_vec();
                t.truncate(300);
                sm.push((self.family.to_string(), String::from_utf8_lossy(&t).into_owned()));
            }
        }
        self.cur.clear();
        self.cur.extend_from_slice(src);
        self.sh.slots.enter(self.slot, src, self.limit_ms);
        true
    }
    /// A further input given to the implementation while judging the current one.
    pub fn enter(&mut self, src: &[u8]) {
        self.sh.slots.enter(self.slot, src, self.limit_ms);
    }
    pub fn end(&mut self) {
        self.sh.slots.leave(self.slot);
    }
    pub fn fail(&mut self, detail: String) {
        self.sh.slots.leave(self.slot);
        let cur = self.cur.clone();
        self.fails.push((cur, detail));
    }
    pub fn outcome(&mut self, k: &'static str) {
        if self.divert.is_some() {
            return;
        }
        for o in self.local_out.iter_mut() {
            if o.0 == k {
                o.1 += 1;
                return;
            }
        }
        self.local_out.push((k, 1));
    }
    pub fn nontrivial(&mut self) {
        if self.divert.is_some() {
            return;
        }
        self.nontrivial += 1;
    }
}

pub fn fxhash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    h = (h ^ b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    h ^= h >> 32;
    h = h.wrapping_mul(0xD6E8FEB86659FD93);
    h ^ (h >> 29)
}

pub type FamFn<'x> = dyn Fn(&mut Chooser, &mut Ctx) + Sync + 'x;

fn run_one(f: &FamFn, ch: &mut Chooser, ctx: &mut Ctx) -> Vec<(Vec<u8>, String)> {
    ch.start();
    ctx.fails.clear();
    ctx.divert = None;
    let r = catch_unwind(AssertUnwindSafe(|| f(ch, ctx)));
    if r.is_err() {
        let m = PANIC.with(|p| p.borrow().clone());
        if m.starts_with("HARNESS") {
            eprintln!("harness error: {m}");
            std::process::exit(3);
        }
        ctx.sh.slots.leave(ctx.slot);
        let cur = ctx.cur.clone();
        ctx.fails.push((cur, format!("panic: {m}")));
    }
    ctx.sh.slots.leave(ctx.slot);
    std::mem::take(&mut ctx.fails)
}

impl Shared {
    pub fn new_ctx<'a>(&'a self, slot: usize, family: &'a str, dedup: bool) -> Ctx<'a> {
        Ctx {
            sh: self, slot, family, cur: vec![], dedup, limit_ms: 20_000, fails: vec![], verbose: false, divert: None,
            local_out: vec![], cases: 0, nontrivial: 0, seen_now: HashSet::new(),
        }
    }

    fn flush(&self, ctx: &mut Ctx, execs: u64, trans: u64) {
        self.execs.fetch_add(execs, Relaxed);
        self.transitions.fetch_add(trans, Relaxed);
        self.cases.fetch_add(std::mem::take(&mut ctx.cases), Relaxed);
        self.nontrivial.fetch_add(std::mem::take(&mut ctx.nontrivial), Relaxed);
        let mut o = self.outcomes.lock().unwrap();
        for (k, v) in ctx.local_out.drain(..) {
            *o.entry(k.to_string()).or_insert(0) += v;
        }
        ctx.seen_now.clear();
    }

    pub fn record(&self, v: Violation) {
        for (i, (prop, inp, _)) in self.known.iter().enumerate() {
            if *prop == self.property && *inp == v.input {
                self.known_hit.lock().unwrap().insert(i);
                return;
            }
        }
        self.nviol.fetch_add(1, SeqCst);
        self.violations.lock().unwrap().push(v);
    }

    /// Explore every choice sequence of `f` within `budget` deviations.
    pub fn explore(&self, family: &str, budget: u32, dedup: bool, f: &FamFn) {
        let t0 = Instant::now();
        let before = self.cases.load(SeqCst);
        let queue: Mutex<(Vec<Vec<Pt>>, usize)> = Mutex::new((vec![vec![]], 0)); // (work, busy)
        let cv = Condvar::new();
        let hungry = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        for s in &self.seen {
            s.lock().unwrap().clear();
        }
        if self.nviol.load(SeqCst) >= max_viol() || self.past_deadline() {
            if self.past_deadline() {
                self.capped.store(true, SeqCst);
            }
            self.families.lock().unwrap().push((family.to_string(), budget, 0, 0.0, false));
            return;
        }
        std::thread::scope(|sc| {
            for slot in 0..THREADS {
                let (queue, cv, hungry, stop) = (&queue, &cv, &hungry, &stop);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ctx = self.new_ctx(slot, family, dedup);
                        loop {
                            let prefix = {
                                let mut q = queue.lock().unwrap();
                                loop {
                                    if stop.load(Relaxed) {
                                        return;
                                    }
                                    if let Some(p) = q.0.pop() {
                                        q.1 += 1;
                                        break p;
                                    }
                                    if q.1 == 0 {
                                        cv.notify_all();
                                        return;
                                    }
                                    hungry.fetch_add(1, SeqCst);
                                    q = cv.wait(q).unwrap();
                                    hungry.fetch_sub(1, SeqCst);
                                }
                            };
                            let mut ch = Chooser::new(budget, prefix);
                            let (mut ex, mut tr) = (0u64, 0u64);
                            loop {
                                let fails = run_one(f, &mut ch, &mut ctx);
                                ex += 1;
                                tr += ch.pos as u64;
                                if !fails.is_empty() {
                                    // replay the same choice sequence: the failure must reproduce
                                    let path: Vec<u32> = ch.path[..ch.pos].iter().map(|p| p.c).collect();
                                    let mut rc = Chooser::new(budget, path.iter().map(|&c| Pt { c, n: c + 1 }).collect());
                                    let old = ctx.dedup;
                                    ctx.dedup = false;
                                    let again = run_one(f, &mut rc, &mut ctx);
                                    ctx.dedup = old;
                                    for (input, detail) in fails {
                                        let rep = again.iter().any(|(i, d)| *i == input && *d == detail);
                                        let detail = if rep { detail } else { format!("{detail}\n(not reproduced identically on immediate replay)") };
                                        self.record(Violation { family: family.to_string(), budget, path: path.clone(), input, detail });
                                    }
                                }
                                if ex & 255 == 0 || self.nviol.load(Relaxed) >= max_viol() {
                                    if self.nviol.load(Relaxed) >= max_viol() || self.past_deadline() {
                                        if self.past_deadline() {
                                            self.capped.store(true, SeqCst);
                                        }
                                        stop.store(true, SeqCst);
                                        cv.notify_all();
                                        break;
                                    }
                                }
                                let more = ch.next();
                                if !more {
                                    break;
                                }
                                if ex & 15 == 0 && hungry.load(Relaxed) > 0 {
                                    let w = ch.split();
                                    if !w.is_empty() {
                                        let mut q = queue.lock().unwrap();
                                        q.0.extend(w);
                                        cv.notify_all();
                                    }
                                }
                            }
                            self.flush(&mut ctx, ex, tr);
                            let mut q = queue.lock().unwrap();
                            q.1 -= 1;
                            if q.1 == 0 && q.0.is_empty() {
                                cv.notify_all();
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let complete = !stop.load(SeqCst);
        let n = self.cases.load(SeqCst) - before;
        self.families.lock().unwrap().push((family.to_string(), budget, n, t0.elapsed().as_secs_f64(), complete));
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("[{}] {} K={} cases={} {:.2}s viol={}", self.property, family, budget, n, t0.elapsed().as_secs_f64(), self.nviol.load(SeqCst));
        }
    }

    fn past_deadline(&self) -> bool {
        self.deadline.lock().unwrap().map_or(false, |d| Instant::now() > d)
    }

    pub fn replay(&self, family: &str, budget: u32, path: &[u32], f: &FamFn) -> Vec<(Vec<u8>, String)> {
        let mut ctx = self.new_ctx(0, family, false);
        ctx.verbose = true;
        let mut ch = Chooser::new(budget, path.iter().map(|&c| Pt { c, n: c + 1 }).collect());
        run_one(f, &mut ch, &mut ctx)
    }
}
