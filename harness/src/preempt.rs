//! Two clients on two threads, one stopped between any two machine
//! instructions of its call while the other one makes a whole call.
//!
//! The processor's trap flag makes the first thread trap after every
//! instruction; the handler lets the second thread make its call and waits for
//! it. A second thread that does not come back soon (the first one may hold a
//! lock it needs) is left to itself until it does.

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
pub fn preemptions(_: &mut Vec<crate::engine::Job>, _: bool) {}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
pub fn shared_query(_: &mut Vec<crate::engine::Job>, _: Vec<crate::custom::Call>) {}

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
pub use here::{preemptions, shared_query, stepped};

/// The jobs that come first and keep two threads busy each.
pub const FAMILY: &str = "preemption";

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod here {
    use std::cell::Cell;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
    use std::sync::{Arc, Mutex};

    use norm::fzf::{FzfParser, FzfQuery};

    use crate::custom::{answers_alone, fresh, isolation_calls, op, show, Answer, Call};
    use crate::engine::{beat, hash_of, idle, slot, use_slot, Ctx, Job, MAX_THREADS};
    use crate::real::{self, Inst};
    use crate::shared::Shared;

    /// What the two threads share.
    struct Gate {
        /// Calls asked of the second thread, and calls it has made.
        asked: AtomicU64,
        made: AtomicU64,
        /// Which call it makes; the settings of the current pass.
        call: AtomicUsize,
        whole: AtomicBool,
        stop: AtomicBool,
        bad: Mutex<Option<Answer>>,
        every: AtomicU64,
        phase: AtomicU64,
        steps: AtomicU64,
        stops: AtomicU64,
        late: AtomicU64,
        /// So many instructions are stopped after, at most.
        limit: AtomicU64,
    }

    std::thread_local! {
        static GATE: Cell<*const Gate> = const { Cell::new(std::ptr::null()) };
    }

    /// So many waits for a second thread that does not come back, per call.
    const PATIENCE: u64 = 40;

    /// No stop behind this instruction.
    unsafe fn let_go(context: *mut libc::c_void) {
        let context = context as *mut libc::ucontext_t;
        (*context).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }

    extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
        let g = GATE.with(|g| g.get());
        if g.is_null() {
            return;
        }
        unsafe {
            let g = &*g;
            let errno = libc::__errno_location();
            let saved = *errno;
            let n = g.steps.load(Relaxed) + 1;
            g.steps.store(n, Relaxed);
            if n >= g.limit.load(Relaxed) {
                // A call may have to wait for the other to be done.
                let_go(context);
            }
            let asked = g.asked.load(Relaxed);
            if n % g.every.load(Relaxed) == g.phase.load(Relaxed)
                && g.made.load(Acquire) == asked
                && g.late.load(Relaxed) < PATIENCE
            {
                beat();
                g.stops.store(g.stops.load(Relaxed) + 1, Relaxed);
                g.asked.store(asked + 1, Release);
                let mut tries = 0u32;
                let mut from = 0;
                while g.made.load(Acquire) != asked + 1 {
                    libc::sched_yield();
                    tries += 1;
                    if tries % 64 == 0 {
                        let now = now();
                        if from == 0 {
                            from = now;
                        } else if now - from > 3_000_000 {
                            g.late.store(g.late.load(Relaxed) + 1, Relaxed);
                            break;
                        }
                    }
                }
            }
            *errno = saved;
        }
    }

    fn now() -> i64 {
        unsafe {
            let mut t: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
            t.tv_sec * 1_000_000_000 + t.tv_nsec
        }
    }

    /// Runs `f` one instruction at a time.
    pub fn stepped<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            let r = catch_unwind(AssertUnwindSafe(f));
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
            r
        }
    }

    fn install() {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_trap as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_SIGINFO;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
    }

    struct Side {
        parser: FzfParser,
        inst: Inst,
    }

    impl Side {
        fn new((cfg, ..): &Call) -> Side {
            Side { parser: FzfParser::new(), inst: Inst::new(cfg.algo) }
        }

        fn call(&mut self, (cfg, e, q, t): &Call, shared: Shared<'_>) -> Answer {
            let parsed = match shared.get() {
                Some(parsed) => parsed,
                None => real::parse(&mut self.parser, *e, *cfg, q),
            };
            self.inst.set(*cfg);
            let mut buf = Vec::new();
            let r = self.inst.ranges(*cfg, q, parsed, t, &mut buf);
            (r, buf)
        }
    }

    /// A call by objects that are made for it, or by such that have lived.
    fn make(call: &Call, lived: &mut Side, whole: bool, shared: Shared<'_>) -> Answer {
        if whole {
            Side::new(call).call(call, shared)
        } else {
            lived.call(call, shared)
        }
    }

    /// Calls with one query, which is parsed once for both threads.
    pub fn shared_query(jobs: &mut Vec<Job>, calls: Vec<Call>) {
        install();
        let alone: Vec<Option<Answer>> = calls.iter().map(|(cfg, e, q, t)| Some(fresh(*cfg, *e, q, t))).collect();
        let (calls, alone) = (Arc::new(calls), Arc::new(alone));
        let mut front = Vec::new();
        for a in 0..calls.len() {
            let (calls, alone) = (calls.clone(), alone.clone());
            front.push(Job {
                family: super::FAMILY,
                run: Box::new(move |ctx: &mut Ctx| {
                    let mut parser = FzfParser::new();
                    let (cfg, e, q, _) = &calls[a];
                    let parsed = real::parse(&mut parser, *e, *cfg, q);
                    // It is not used beyond this job.
                    let shared = Shared(Some(unsafe { std::mem::transmute::<FzfQuery<'_>, FzfQuery<'static>>(parsed) }));
                    one(ctx, &calls, &alone, a, false, shared);
                }),
            });
        }
        jobs.splice(0..0, front);
    }

    pub fn preemptions(jobs: &mut Vec<Job>, thorough: bool) {
        install();
        let calls = Arc::new(isolation_calls());
        let alone = Arc::new(answers_alone());
        let mut front = Vec::new();
        for a in 0..calls.len() {
            let (calls, alone) = (calls.clone(), alone.clone());
            front.push(Job {
                family: super::FAMILY,
                run: Box::new(move |ctx: &mut Ctx| one(ctx, &calls, &alone, a, thorough, Shared(None))),
            });
        }
        jobs.splice(0..0, front);
    }

    fn one(ctx: &mut Ctx, calls: &[Call], alone: &[Option<Answer>], a: usize, thorough: bool, shared: Shared<'_>) {
        let gate = Gate {
            asked: AtomicU64::new(0),
            made: AtomicU64::new(0),
            call: AtomicUsize::new(0),
            whole: AtomicBool::new(true),
            stop: AtomicBool::new(false),
            bad: Mutex::new(None),
            every: AtomicU64::new(1),
            phase: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            stops: AtomicU64::new(0),
            late: AtomicU64::new(0),
            limit: AtomicU64::new(u64::MAX),
        };
        let mine = slot();
        let mut late = 0;
        std::thread::scope(|scope| {
            let g = &gate;
            scope.spawn(move || {
                use_slot(mine + MAX_THREADS / 2);
                let mut lived: Vec<Side> = calls.iter().map(Side::new).collect();
                let mut made = 0;
                loop {
                    while g.asked.load(Acquire) == made {
                        if g.stop.load(Relaxed) {
                            return;
                        }
                        unsafe { libc::sched_yield() };
                    }
                    let n = g.call.load(Relaxed);
                    let got = catch_unwind(AssertUnwindSafe(|| make(&calls[n], &mut lived[n], g.whole.load(Relaxed), shared)));
                    idle();
                    let got = got.unwrap_or((Some(i64::MIN), vec![]));
                    if alone[n].as_ref() != Some(&got) {
                        g.bad.lock().unwrap().get_or_insert(got);
                    }
                    made += 1;
                    g.made.store(made, Release);
                }
            });
            GATE.with(|t| t.set(&gate));
            let mut lived = Side::new(&calls[a]);
            // How long it is alone.
            let alone_for = [true, false].map(|whole| {
                g.every.store(u64::MAX, Relaxed);
                g.phase.store(u64::MAX - 1, Relaxed);
                g.steps.store(0, Relaxed);
                let _ = stepped(|| make(&calls[a], &mut lived, whole, shared));
                idle();
                g.steps.load(Relaxed)
            });
            'all: for b in 0..calls.len() {
                for whole in [true, false] {
                    g.call.store(b, Relaxed);
                    g.whole.store(whole, Relaxed);
                    let alone_for = alone_for[!whole as usize];
                    for (every, phase) in passes(thorough, alone_for, (b + calls.len() - a) % calls.len()) {
                        g.limit.store(if every == ONCE { phase } else { 20 * alone_for + 20_000 }, Relaxed);
                        g.every.store(every, Relaxed);
                        g.phase.store(phase, Relaxed);
                        g.steps.store(0, Relaxed);
                        g.stops.store(0, Relaxed);
                        g.late.store(0, Relaxed);
                        let got = stepped(|| make(&calls[a], &mut lived, whole, shared));
                        idle();
                        let got = got.unwrap_or((Some(i64::MIN), vec![]));
                        // The second thread may still be at it.
                        while g.made.load(Acquire) != g.asked.load(Relaxed) {
                            std::thread::yield_now();
                        }
                        let (steps, stops) = (g.steps.load(Relaxed), g.stops.load(Relaxed));
                        ctx.counts.states += steps;
                        ctx.counts.calls += stops + 1;
                        ctx.counts.compared += stops + 1;
                        ctx.counts.traces += 1;
                        late += g.late.load(Relaxed);
                        if steps == 0 {
                            // No traps on this machine.
                            break 'all;
                        }
                        ctx.outcome(hash_of((a, b, whole, stops)));
                        let other = g.bad.lock().unwrap().take();
                        let (n, got, who) = match other {
                            Some(o) => (b, o, "second"),
                            None => (a, got, "first"),
                        };
                        if alone[n].as_ref() != Some(&got) {
                            let ops = [a, b].map(|n| {
                                let (cfg, e, q, t) = &calls[n];
                                op(*cfg, *e, q, t)
                            });
                            ctx.violation(
                                ops.to_vec(),
                                alone[n].as_ref().map_or("no answer".to_string(), show),
                                show(&got),
                                match every {
                                    ONCE => format!("the {who} client's answer, the second one having made a whole call on another thread while the first one's was stopped after its instruction number {phase}"),
                                    _ => format!("the {who} client's answer, the second one having made whole calls on another thread while the first one's was stopped after its instructions number {phase} modulo {every}"),
                                },
                            );
                            break 'all;
                        }
                    }
                }
            }
            GATE.with(|t| t.set(std::ptr::null()));
            g.stop.store(true, Relaxed);
        });
        ctx.sample(|| format!("{:?} on {:?}, stopped after every instruction ({late} waits for the other thread given up)", calls[a].2, calls[a].3));
    }

    /// Instead of a distance: at this one only.
    const ONCE: u64 = u64::MAX;

    /// After which instructions: all of them; only one of them, spread over
    /// the call; every seventh, from each of the first seven on.
    fn passes(thorough: bool, steps: u64, shift: usize) -> Vec<(u64, u64)> {
        let mut v = vec![(1, 0)];
        for every in if thorough { vec![7, 31] } else { vec![] } {
            v.extend((0..every).map(|p| (every, p)));
        }
        // Not by all pairs of many.
        let n = match (thorough, shift) {
            (true, 0..=3) => 150,
            (true, _) => 6,
            (false, 0..=2) => 12,
            (false, _) => 0,
        };
        v.extend((0..n).map(|i| (ONCE, 1 + (i * steps + shift as u64 * steps / 7) / n % steps.max(1))));
        v
    }
}
