//! The first call a process ever makes, stopped wherever it has changed what
//! all threads share, and a second client that makes its own first call there.
//!
//! `normcheck first A B POINTS` steps through call A in a process that has
//! done nothing else and watches the program's writable static memory: no
//! other client can notice anything before it changes. Then, for every change
//! and for instructions spread over the rest of the call, a process of its own
//! repeats the call up to there, lets a second thread make call B as a whole,
//! and finishes. Each answer is the one the call gets alone.

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
pub fn run(_: usize, _: usize, _: usize) -> i32 {
    0
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
pub use here::run;

use crate::custom::{isolation_calls, op};
use crate::engine::{beat, hash_of, Ctx, Job};

pub fn first_calls(jobs: &mut Vec<Job>, thorough: bool) {
    let calls = isolation_calls().len();
    let points = if thorough { 2_000 } else { 24 };
    let mut front = Vec::new();
    for a in 0..calls {
        for step in if thorough { vec![0, 1, 5, 7] } else { vec![0, 7] } {
            let b = (a + step) % calls;
            front.push(Job {
                family: "first calls",
                run: Box::new(move |ctx: &mut Ctx| {
                    beat();
                    let exe = std::env::current_exe().expect("current_exe");
                    let args = [a, b, points].map(|n| n.to_string());
                    let out = std::process::Command::new(exe).arg("first").args(args).output().expect("a process");
                    beat();
                    let text = String::from_utf8_lossy(&out.stdout).to_string();
                    let number = |what: &str| text.lines().find_map(|l| l.strip_prefix(what)?.trim().parse::<u64>().ok()).unwrap_or(0);
                    ctx.counts.states += number("steps ");
                    ctx.counts.calls += 2 * number("points ");
                    ctx.counts.compared += 2 * number("points ");
                    ctx.counts.traces += number("points ");
                    ctx.outcome(hash_of((a, number("steps "), number("changes "))));
                    if let Some(l) = text.lines().find_map(|l| l.strip_prefix("bad ")) {
                        let calls = isolation_calls();
                        let ops = [a, b].map(|n| {
                            let (cfg, e, q, t) = &calls[n];
                            op(*cfg, *e, q, t)
                        });
                        let (at, rest) = l.split_once("; ").unwrap_or((l, ""));
                        let (expected, got) = rest.split_once(" => ").unwrap_or((rest, ""));
                        ctx.violation(
                            ops.to_vec(),
                            expected.to_string(),
                            got.to_string(),
                            format!("the first calls of a process, the second client having made its call on another thread while the first one's was stopped {at}"),
                        );
                    }
                    ctx.sample(|| format!("first call {a}, second client's call {b}: {}", text.replace('\n', " ")));
                }),
            });
        }
    }
    // Behind the preemptions, which come first.
    let at = jobs.iter().take_while(|j| j.family == crate::preempt::FAMILY).count();
    jobs.splice(at..at, front);
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod here {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
    use std::time::{Duration, Instant};

    use norm::fzf::FzfParser;

    use crate::custom::{isolation_calls, show, Answer, Call};
    use crate::engine::{use_slot, SLOTS};
    use crate::preempt::stepped;
    use crate::real::{self, Inst};

    /// What the processes and the threads share.
    struct Shared {
        steps: AtomicU64,
        changes: AtomicU64,
        first: AtomicU64,
        asked: AtomicU64,
        made: AtomicU64,
        /// The number of the change or of the instruction to stop after.
        at_change: AtomicU64,
        at_step: AtomicU64,
        stop: AtomicI64,
        text_len: AtomicU64,
        text: [u8; 4096],
    }

    static mut SHARED: *mut Shared = std::ptr::null_mut();
    /// The watched memory and what it was.
    static mut WATCHED: [(usize, usize, *mut u8); 8] = [(0, 0, std::ptr::null_mut()); 8];
    static mut WATCHING: usize = 0;

    fn shared() -> &'static Shared {
        unsafe { &*SHARED }
    }

    unsafe fn map(len: usize, flags: libc::c_int) -> *mut u8 {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, flags | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }

    /// The writable parts of the program's own image.
    fn watch() {
        let exe = std::env::current_exe().unwrap();
        let exe = exe.to_str().unwrap();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
        let mut end = 0;
        for l in maps.lines() {
            let mut w = l.split_whitespace();
            let (range, perms) = (w.next().unwrap(), w.next().unwrap());
            let path = w.nth(3).unwrap_or("");
            let (lo, hi) = range.split_once('-').unwrap();
            let (lo, hi) = (usize::from_str_radix(lo, 16).unwrap(), usize::from_str_radix(hi, 16).unwrap());
            let ours = path == exe || path.is_empty() && lo == end;
            if ours {
                end = hi;
            }
            unsafe {
                if ours && perms.starts_with("rw") && WATCHING < 8 && hi - lo < 1 << 20 {
                    let copy = map(hi - lo, libc::MAP_PRIVATE);
                    WATCHED[WATCHING] = (lo, hi - lo, copy);
                    WATCHING += 1;
                }
            }
        }
    }

    extern "C" {
        fn memcmp(a: *const u8, b: *const u8, n: usize) -> libc::c_int;
    }

    /// Whether it has changed since the last time, except for what the checker
    /// itself keeps there.
    unsafe fn changed() -> bool {
        let own = [
            (&raw const SLOTS as usize, std::mem::size_of_val(&SLOTS)),
            (&raw const WATCHED as usize, std::mem::size_of::<[(usize, usize, *mut u8); 8]>()),
        ];
        let mut any = false;
        for &(lo, len, copy) in (*(&raw const WATCHED)).iter().take(WATCHING) {
            for (at, n) in own {
                if at >= lo && at + n <= lo + len {
                    std::ptr::copy_nonoverlapping(at as *const u8, copy.add(at - lo), n);
                }
            }
            if memcmp(lo as *const u8, copy, len) != 0 {
                std::ptr::copy_nonoverlapping(lo as *const u8, copy, len);
                any = true;
            }
        }
        any
    }

    extern "C" fn on_trap(_: libc::c_int) {
        unsafe {
            let errno = libc::__errno_location();
            let saved = *errno;
            let s = shared();
            if s.stop.load(Relaxed) == 0 {
                let n = s.steps.load(Relaxed) + 1;
                s.steps.store(n, Relaxed);
                let (at_change, at_step) = (s.at_change.load(Relaxed), s.at_step.load(Relaxed));
                let mut here = n == at_step;
                if at_step == u64::MAX && changed() {
                    let c = s.changes.load(Relaxed) + 1;
                    s.changes.store(c, Relaxed);
                    if c == 1 {
                        s.first.store(n, Relaxed);
                    }
                    here = c == at_change;
                }
                if here {
                    s.stop.store(1, Relaxed);
                    s.asked.store(1, Release);
                    // It may wait for something this thread holds.
                    let mut t: libc::timespec = std::mem::zeroed();
                    libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
                    let from = t.tv_sec * 1_000_000_000 + t.tv_nsec;
                    while s.made.load(Acquire) == 0 {
                        libc::sched_yield();
                        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
                        if t.tv_sec * 1_000_000_000 + t.tv_nsec - from > 20_000_000 {
                            break;
                        }
                    }
                }
            }
            *errno = saved;
        }
    }

    fn answer((cfg, e, q, t): &Call) -> Answer {
        let mut parser = FzfParser::new();
        let mut inst = Inst::new(cfg.algo);
        let parsed = real::parse(&mut parser, *e, *cfg, q);
        inst.set(*cfg);
        let mut buf = Vec::new();
        let r = inst.ranges(*cfg, q, parsed, t, &mut buf);
        (r, buf)
    }

    fn say(r: std::thread::Result<Answer>) -> String {
        r.map_or("a panic".into(), |a| show(&a))
    }

    fn leave(text: &str) {
        unsafe {
            let n = text.len().min(4096);
            std::ptr::copy_nonoverlapping(text.as_ptr(), &raw mut (*SHARED).text as *mut u8, n);
            (*SHARED).text_len.store(n as u64, Relaxed);
        }
    }

    fn left() -> String {
        let s = shared();
        String::from_utf8_lossy(&s.text[..s.text_len.load(Relaxed) as usize]).into_owned()
    }

    /// Runs `f` in a process of its own; its status.
    fn apart(f: impl FnOnce()) -> libc::c_int {
        unsafe {
            (*SHARED).text_len.store(0, Relaxed);
            let pid = libc::fork();
            if pid == 0 {
                libc::alarm(60);
                f();
                libc::_exit(0);
            }
            let mut status = 0;
            if pid < 0 || libc::waitpid(pid, &mut status, 0) != pid {
                return -1;
            }
            status
        }
    }

    /// Both calls, the second one where the settings say; leaves the answers.
    fn both(a: &Call, b: &Call) {
        let s = shared();
        s.steps.store(0, Relaxed);
        s.changes.store(0, Relaxed);
        s.asked.store(0, Relaxed);
        s.made.store(0, Relaxed);
        s.stop.store(0, Relaxed);
        let second = b.clone();
        let other = std::thread::spawn(move || {
            use_slot(1);
            let s = shared();
            while s.asked.load(Acquire) == 0 {
                unsafe { libc::sched_yield() };
            }
            if s.asked.load(Relaxed) == 2 {
                return None;
            }
            let r = catch_unwind(AssertUnwindSafe(|| answer(&second)));
            s.made.store(1, Release);
            Some(say(r))
        });
        // The thread is there, and what its start has changed is known.
        std::thread::sleep(Duration::from_millis(1));
        use_slot(0);
        unsafe { changed() };
        let first = stepped(|| answer(a));
        s.stop.store(1, Relaxed);
        // Not asked: it ends without a call.
        let _ = s.asked.compare_exchange(0, 2, AcqRel, Relaxed);
        let other = other.join().unwrap_or_default();
        leave(&format!("{}\n{}", say(first), other.unwrap_or_else(|| "-".into())));
    }

    pub fn run(a: usize, b: usize, points: usize) -> i32 {
        std::panic::set_hook(Box::new(|_| {}));
        let calls = isolation_calls();
        let (a, b) = (&calls[a], &calls[b]);
        unsafe {
            SHARED = map(std::mem::size_of::<Shared>(), libc::MAP_SHARED) as *mut Shared;
            watch();
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
        let alone = [a, b].map(|c| {
            apart(|| leave(&say(catch_unwind(AssertUnwindSafe(|| answer(c))))));
            left()
        });
        let s = shared();
        let set = |change: u64, step: u64| {
            s.at_change.store(change, Relaxed);
            s.at_step.store(step, Relaxed);
        };
        // What there is.
        set(u64::MAX, u64::MAX);
        if apart(|| both(a, b)) != 0 || left().lines().next() != Some(&alone[0]) {
            // Another property's, or no traps on this machine.
            println!("no answer");
            return 0;
        }
        let (steps, changes, first) = (s.steps.load(Relaxed), s.changes.load(Relaxed), s.first.load(Relaxed));
        println!("steps {steps}");
        println!("changes {changes}");
        if changes == 0 {
            println!("points 0");
            return 0;
        }
        let spread = |from: u64, to: u64, n: u64| -> Vec<u64> {
            let all = to.saturating_sub(from) + 1;
            let n = n.min(all);
            (0..n).map(|i| from + i * all / n).collect()
        };
        let mut list: Vec<(u64, u64)> = spread(1, changes, 2 * points as u64).into_iter().map(|c| (c, u64::MAX)).collect();
        list.extend(spread(first, steps, points as u64).into_iter().map(|n| (u64::MAX, n)));
        let from = Instant::now();
        let mut done = 0;
        for (change, step) in list {
            if from.elapsed() > Duration::from_secs(20) && points < 1000 || from.elapsed() > Duration::from_secs(100) {
                break;
            }
            set(change, step);
            let status = apart(|| both(a, b));
            let said = left();
            let mut said = said.lines();
            let (one, two) = (said.next().unwrap_or(""), said.next().unwrap_or(""));
            let at = if step == u64::MAX { format!("after the change number {change} of static memory") } else { format!("after its instruction number {step}") };
            if status != 0 {
                println!("bad {at}; {} => a process that ends with status {status}", alone[0]);
                break;
            }
            if one != alone[0] {
                println!("bad {at}; {} => {one} (the first client)", alone[0]);
                break;
            }
            if two != "-" && two != alone[1] {
                println!("bad {at}; {} => {two} (the second client)", alone[1]);
                break;
            }
            done += 1;
        }
        println!("points {done}");
        0
    }
}
