//! The explorer: runs a list of jobs (each one a deterministic, exhaustive
//! walk over a part of a bounded space) on all cores, counts what was covered,
//! and turns the first disagreement into a replayable violation.
//!
//! Panics, endless loops and fatal signals of the code under test are
//! violations too: every call into it is announced first (`announce`), so the
//! explorer always knows which case is running.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{
    AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed,
};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::model::Cfg;

pub const MAX_THREADS: usize = 64;

/// What the given thread is doing right now, readable from a signal handler.
pub struct Slot {
    pub beat: AtomicU64,
    pub busy: AtomicBool,
    query: AtomicPtr<u8>,
    query_len: AtomicUsize,
    cand: AtomicPtr<u8>,
    cand_len: AtomicUsize,
    what: AtomicPtr<u8>,
    what_len: AtomicUsize,
    cfg: AtomicUsize,
}

#[allow(clippy::declare_interior_mutable_const)]
const EMPTY_SLOT: Slot = Slot {
    beat: AtomicU64::new(0),
    busy: AtomicBool::new(false),
    query: AtomicPtr::new(std::ptr::null_mut()),
    query_len: AtomicUsize::new(0),
    cand: AtomicPtr::new(std::ptr::null_mut()),
    cand_len: AtomicUsize::new(0),
    what: AtomicPtr::new(std::ptr::null_mut()),
    what_len: AtomicUsize::new(0),
    cfg: AtomicUsize::new(0),
};

pub static SLOTS: [Slot; MAX_THREADS] = [EMPTY_SLOT; MAX_THREADS];

std::thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Records the case that is about to run. The strings must outlive the call.
#[inline]
pub fn announce(what: &'static str, cfg: Cfg, query: &str, cand: &str) {
    let s = &SLOTS[SLOT.with(|s| s.get())];
    s.query.store(query.as_ptr() as *mut u8, Relaxed);
    s.query_len.store(query.len(), Relaxed);
    s.cand.store(cand.as_ptr() as *mut u8, Relaxed);
    s.cand_len.store(cand.len(), Relaxed);
    s.what.store(what.as_ptr() as *mut u8, Relaxed);
    s.what_len.store(what.len(), Relaxed);
    s.cfg.store(cfg.code(), Relaxed);
    s.beat.fetch_add(1, Relaxed);
    s.busy.store(true, Relaxed);
}

/// Makes the calling thread use the given slot.
pub fn use_slot(n: usize) {
    SLOT.with(|s| s.set(n));
    if !cfg!(miri) {
        alt_stack();
    }
}

/// A sign of life of the calling thread.
#[inline]
pub fn beat() {
    SLOTS[SLOT.with(|s| s.get())].beat.fetch_add(1, Relaxed);
}

/// The number of the slot the calling thread uses.
pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}

#[inline]
pub fn idle() {
    SLOTS[SLOT.with(|s| s.get())].busy.store(false, Relaxed);
}

unsafe fn slot_bytes<'a>(p: &AtomicPtr<u8>, l: &AtomicUsize) -> &'a [u8] {
    let p = p.load(Relaxed);
    if p.is_null() {
        return b"";
    }
    std::slice::from_raw_parts(p, l.load(Relaxed))
}

impl Slot {
    fn describe(&self) -> (String, String, String, Cfg) {
        unsafe {
            (
                lossy(slot_bytes(&self.what, &self.what_len)),
                lossy(slot_bytes(&self.query, &self.query_len)),
                lossy(slot_bytes(&self.cand, &self.cand_len)),
                Cfg::decode(self.cfg.load(Relaxed)),
            )
        }
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

// --------------------------------------------------------------- violations

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub job: usize,
    /// The operations that show it, in order, on one fresh set of objects.
    pub ops: Vec<Op>,
    pub expected: String,
    pub actual: String,
    pub note: String,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub cfg: Cfg,
    /// "parse" or "parse_not_extended".
    pub mode: &'static str,
    pub query: String,
    pub cand: String,
}

impl Violation {
    fn size(&self) -> usize {
        self.ops.iter().map(|o| o.query.len() + o.cand.len() + 4).sum()
    }
}

// -------------------------------------------------------------------- jobs

pub type JobFn = Box<dyn Fn(&mut Ctx) + Send + Sync>;

pub struct Job {
    pub family: &'static str,
    pub run: JobFn,
}

#[derive(Default, Clone)]
pub struct Counts {
    pub states: u64,
    pub calls: u64,
    pub compared: u64,
    pub traces: u64,
    pub jobs: u64,
}

/// Per-job context: counters and the place to report.
pub struct Ctx {
    pub counts: Counts,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub family: &'static str,
    pub job: usize,
    /// Hash of all the answers in order, if asked for.
    pub digest: u64,
    /// The same without scores, but with the order of the distances.
    pub open_digest: u64,
}

/// What to keep of the answers themselves: nothing, a digest per job, or a
/// line per answer on stdout.
pub static KEEP: AtomicUsize = AtomicUsize::new(0);
pub const DIGEST: usize = 1;
pub const DUMP: usize = 2;

pub const OUTCOME_CAP: usize = 200_000;

impl Ctx {
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }

    /// Takes note of an answer in the digest and dump modes.
    #[inline]
    pub fn answer(
        &mut self,
        query: &str,
        cand: &str,
        score: Option<i64>,
        ranges: &[std::ops::Range<usize>],
    ) {
        match KEEP.load(Relaxed) {
            0 => {},
            DIGEST => {
                self.digest = hash_of((self.digest, score, ranges));
                let order = score.map(|_| crate::real::order());
                self.open_digest = hash_of((self.open_digest, order, ranges));
            },
            _ => println!("{query:?} on {cand:?} -> {score:?} {ranges:?}"),
        }
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= 3
    }

    pub fn violation(
        &mut self,
        ops: Vec<Op>,
        expected: String,
        actual: String,
        note: impl Into<String>,
    ) {
        if self.full() {
            return;
        }
        self.violations.push(Violation {
            family: self.family.to_string(),
            job: self.job,
            ops,
            expected,
            actual,
            note: note.into(),
        });
    }
}

pub fn hash_of(x: impl Hash) -> u64 {
    // FNV-like, fixed across runs.
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
        fn write_u64(&mut self, v: u64) {
            self.0 = (self.0 ^ v)
                .wrapping_mul(0x9E37_79B9_7F4A_7C15)
                .rotate_left(29);
        }
        fn write_usize(&mut self, v: usize) {
            self.write_u64(v as u64)
        }
        fn write_i64(&mut self, v: i64) {
            self.write_u64(v as u64)
        }
        fn write_u8(&mut self, v: u8) {
            self.write_u64(v as u64)
        }
    }
    let mut h = H(0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

pub struct Report {
    pub total: Counts,
    pub families: BTreeMap<&'static str, Counts>,
    pub outcomes: u64,
    pub outcomes_capped: bool,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub exhaustive: bool,
    /// Per job: family, digest of the answers, or what went wrong.
    pub digests: BTreeMap<usize, (&'static str, String)>,
    pub jobs_done: usize,
    pub jobs_total: usize,
}

impl Report {
    pub fn empty() -> Report {
        Report {
            total: Counts::default(),
            families: BTreeMap::new(),
            outcomes: 0,
            outcomes_capped: false,
            samples: Vec::new(),
            violations: Vec::new(),
            exhaustive: true,
            digests: BTreeMap::new(),
            jobs_done: 0,
            jobs_total: 0,
        }
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 32)
}

/// Runs every job (or only job `only`), in order, on all cores.
pub fn explore(
    jobs: Vec<Job>,
    budget: Duration,
    only: Option<usize>,
) -> Report {
    let n_jobs = jobs.len();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let start = Instant::now();
    let finished = AtomicBool::new(false);

    struct Shared {
        total: Counts,
        families: BTreeMap<&'static str, Counts>,
        outcomes: HashSet<u64>,
        samples: Vec<String>,
        per_family_samples: BTreeMap<&'static str, usize>,
        violations: Vec<Violation>,
        digests: BTreeMap<usize, (&'static str, String)>,
    }
    let shared = Mutex::new(Shared {
        total: Counts::default(),
        families: BTreeMap::new(),
        outcomes: HashSet::new(),
        samples: Vec::new(),
        per_family_samples: BTreeMap::new(),
        violations: Vec::new(),
        digests: BTreeMap::new(),
    });

    let n_threads = threads();
    // These run alone, on half of the cores: each uses two.
    let first = match only {
        None => jobs.iter().take_while(|j| j.family == crate::preempt::FAMILY).count(),
        Some(_) => 0,
    };

    std::thread::scope(|scope| {
        // Hang detection.
        scope.spawn(|| {
            let mut seen = vec![(0u64, Instant::now()); MAX_THREADS];
            while !finished.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for (i, s) in SLOTS.iter().enumerate() {
                    let beat = s.beat.load(Relaxed);
                    if !s.busy.load(Relaxed) || beat != seen[i].0 {
                        seen[i] = (beat, Instant::now());
                    } else if seen[i].1.elapsed() > Duration::from_secs(25) {
                        let (what, query, cand, cfg) = s.describe();
                        let v = Violation {
                            family: what.clone(),
                            job: 0,
                            ops: vec![Op { cfg, mode: "parse", query, cand }],
                            expected: "an answer".into(),
                            actual: "no answer after 25 s".into(),
                            note: format!("{what} does not return"),
                        };
                        crate::report::fatal(v);
                    }
                }
            }
        });

        let mut handles = Vec::new();
        for t in 0..n_threads {
            let jobs = &jobs;
            let next = &next;
            let stop = &stop;
            let done = &done;
            let shared = &shared;
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    SLOT.with(|s| s.set(t));
                    alt_stack();
                    while t > 0
                        && t >= n_threads / 2
                        && done.load(Relaxed) < first
                        && !stop.load(Relaxed)
                        && start.elapsed() <= budget
                    {
                        std::thread::sleep(Duration::from_millis(2));
                    }
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n_jobs
                            || stop.load(Relaxed)
                            || start.elapsed() > budget
                        {
                            break;
                        }
                        if only.is_some_and(|o| o != i) {
                            continue;
                        }
                        let job = &jobs[i];
                        let mut ctx = Ctx {
                            counts: Counts::default(),
                            outcomes: HashSet::new(),
                            samples: Vec::new(),
                            violations: Vec::new(),
                            family: job.family,
                            job: i,
                            digest: 0,
                            open_digest: 0,
                        };
                        crate::real::forget();
                        let res = catch_unwind(AssertUnwindSafe(|| {
                            (job.run)(&mut ctx)
                        }));
                        if let Err(e) = res {
                            let msg = panic_message(&e);
                            let inside = SLOTS[t].busy.load(Relaxed);
                            let (what, query, cand, cfg) = if inside {
                                SLOTS[t].describe()
                            } else {
                                // The strings of the last call may be gone.
                                let s = String::new;
                                ("comparison".to_string(), s(), s(), Cfg::decode(0))
                            };
                            let mode = if what == "parse_not_extended" {
                                "parse_not_extended"
                            } else {
                                "parse"
                            };
                            ctx.violations.push(Violation {
                                family: job.family.to_string(),
                                job: i,
                                ops: vec![Op { cfg, mode, query, cand }],
                                expected: "an answer".into(),
                                actual: if inside {
                                    format!("panic: {msg}")
                                } else {
                                    format!("an answer no oracle expects: {msg}")
                                },
                                note: format!("{what} panicked"),
                            });
                        }
                        idle();
                        ctx.counts.jobs = 1;
                        if ctx.counts.traces == 0 {
                            // One walk on one set of objects.
                            ctx.counts.traces = 1;
                        }
                        done.fetch_add(1, Relaxed);
                        let mut g = shared.lock().unwrap();
                        add(&mut g.total, &ctx.counts);
                        add(
                            g.families.entry(job.family).or_default(),
                            &ctx.counts,
                        );
                        if g.outcomes.len() < 4_000_000 {
                            g.outcomes.extend(ctx.outcomes.iter());
                        }
                        let k =
                            g.per_family_samples.entry(job.family).or_default();
                        if *k < 3 {
                            *k += ctx.samples.len();
                            g.samples.extend(ctx.samples.drain(..));
                        }
                        if KEEP.load(Relaxed) == DIGEST {
                            let d = match ctx.violations.first() {
                                None if cfg!(feature = "score") => {
                                    format!("{:016x} {:016x}", ctx.digest, ctx.open_digest)
                                },
                                None => format!("- {:016x}", ctx.open_digest),
                                Some(v) => format!(
                                    "{} in {}",
                                    v.actual.replace('\n', " "),
                                    v.note
                                ),
                            };
                            g.digests.insert(i, (job.family, d));
                        } else if !ctx.violations.is_empty() {
                            stop.store(true, Relaxed);
                            g.violations.append(&mut ctx.violations);
                        }
                    }
                })
                .unwrap();
            handles.push(h);
        }
        for h in handles {
            let _ = h.join();
        }
        finished.store(true, Relaxed);
    });

    let mut s = shared.into_inner().unwrap();
    s.violations.sort_by_key(|v| (v.ops.len(), v.size(), v.job));
    let jobs_done = done.load(Relaxed);
    Report {
        total: s.total,
        families: s.families,
        outcomes: s.outcomes.len() as u64,
        outcomes_capped: s.outcomes.len() >= 4_000_000,
        samples: s.samples,
        violations: s.violations,
        digests: s.digests,
        exhaustive: jobs_done == n_jobs,
        jobs_done,
        jobs_total: n_jobs,
    }
}

fn add(a: &mut Counts, b: &Counts) {
    a.states += b.states;
    a.calls += b.calls;
    a.compared += b.compared;
    a.traces += b.traces;
    a.jobs += b.jobs;
}

fn panic_message(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

// ------------------------------------------------------------ fatal signals

fn alt_stack() {
    unsafe {
        let size = 64 << 10;
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            return;
        }
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}

/// AddressSanitizer is about to end the process.
#[cfg(norm_asan)]
extern "C" fn on_asan_death() {
    on_signal(libc::SIGABRT)
}

extern "C" fn on_signal(sig: libc::c_int) {
    // Only async-signal-safe calls from here on.
    unsafe {
        let s = &SLOTS[SLOT.with(|s| s.get())];
        let path = crate::report::signal_replay_path();
        // The driver is safe code: outside of a call, too, a fatal signal
        // means that an earlier call has damaged the memory.
        let busy = s.busy.load(Relaxed);
        let fd = libc::open(
            path.as_ptr() as *const libc::c_char,
            libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
            0o644,
        );
        if fd >= 0 {
            wr(fd, b"fatal signal ");
            num(fd, sig as usize);
            if busy {
                wr(fd, b" in ");
                wr(fd, slot_bytes(&s.what, &s.what_len));
                wr(fd, b"\ncfg code: ");
                num(fd, s.cfg.load(Relaxed));
                wr(fd, b"\nquery: ");
                wr(fd, slot_bytes(&s.query, &s.query_len));
                wr(fd, b"\ncandidate: ");
                wr(fd, slot_bytes(&s.cand, &s.cand_len));
                wr(fd, b"\n");
            } else {
                wr(fd, b" after ");
                wr(fd, slot_bytes(&s.what, &s.what_len));
                wr(fd, b": memory damaged by a previous call\n");
            }
            libc::close(fd);
        }
        wr(1, b"VIOLATION property=");
        wr(1, crate::report::property_bytes());
        wr(1, b" replay=");
        wr(1, &path[..path.len() - 1]);
        wr(1, b"\n");
        libc::_exit(1);
    }
}

unsafe fn wr(fd: libc::c_int, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let n = libc::write(
            fd,
            b.as_ptr().add(off) as *const libc::c_void,
            b.len() - off,
        );
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

unsafe fn num(fd: libc::c_int, mut v: usize) {
    let mut buf = [0u8; 20];
    let mut i = buf.len();
    loop {
        i -= 1;
        buf[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    wr(fd, &buf[i..]);
}

/// Fatal signals of the code under test become violations; its memory use is
/// capped so that a runaway allocation aborts instead of exhausting the box.
pub fn install_handlers() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        #[cfg(norm_asan)]
        {
            extern "C" {
                fn __sanitizer_set_death_callback(f: extern "C" fn());
            }
            __sanitizer_set_death_callback(on_asan_death);
        }
        let _ = &sa;
        #[cfg(not(norm_asan))]
        for sig in [
            libc::SIGSEGV,
            libc::SIGBUS,
            libc::SIGILL,
            libc::SIGFPE,
            libc::SIGABRT,
        ] {
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        if !cfg!(norm_asan) {
            let lim = libc::rlimit {
                rlim_cur: 20 << 30,
                rlim_max: 20 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
    }
    // Panics are reported as violations, not on stderr one by one.
    std::panic::set_hook(Box::new(|_| {}));
}
