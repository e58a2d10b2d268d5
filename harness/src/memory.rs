//! What the library allocates: live and peak bytes, per thread, counted by
//! the global allocator, and the walks that judge them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use std::sync::Arc;

use norm::fzf::FzfParser;

use crate::custom::op;
use crate::engine::{beat, hash_of, Ctx, Job};
use crate::families::chars;
use crate::model::{Algo, Cfg, ALGOS};
use crate::real::{self, Inst, Ranges};
use crate::windows::{ask_pool, de_bruijn, miss_pool, size_pool, Ask};

pub struct Counting;

std::thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

/// What all threads hold together, counted in processes that are about it.
static ALL: AtomicI64 = AtomicI64::new(0);
static ALL_ON: AtomicBool = AtomicBool::new(false);

#[inline]
fn count(bytes: i64, blocks: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let live = LIVE.get() + bytes;
            LIVE.set(live);
            BLOCKS.set(BLOCKS.get() + blocks);
            if live > PEAK.get() {
                PEAK.set(live);
            }
        }
    });
    if ALL_ON.load(Relaxed) {
        ALL.fetch_add(bytes, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64, 1);
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64, 1);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            count(n as i64 - l.size() as i64, 0);
        }
        q
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// Bytes and blocks.
type Held = (i64, i64);

fn held() -> Held {
    (LIVE.get(), BLOCKS.get())
}

/// Runs `f` with counting on; what it allocates and keeps, and its peak over
/// what was held before.
fn counted<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = LIVE.get();
    PEAK.set(before);
    ON.set(true);
    let r = f();
    ON.set(false);
    (r, PEAK.get() - before)
}

fn more(now: Held, before: Held) -> bool {
    now.0 > before.0 || now.1 > before.1
}

fn reset() {
    LIVE.set(0);
    BLOCKS.set(0);
    PEAK.set(0);
}

/// No instance that has seen queries of up to `m` and candidates of up to `n`
/// characters needs more than this.
fn enough_for(algo: Algo, m: usize, n: usize) -> i64 {
    let cells = if algo == Algo::V2 { m * n } else { 0 };
    (32_768 + 256 * (m + n) + 128 * cells) as i64
}

/// No parser that has seen texts of up to `n` bytes needs more than this.
fn enough_to_parse(n: usize) -> i64 {
    (65_536 + 2_048 * n) as i64
}

fn walk_asks(ctx: &mut Ctx, algo: Algo, asks: &[Ask], n: usize, what: &'static str) {
    let mut parsers: Vec<FzfParser> = asks.iter().map(|_| FzfParser::new()).collect();
    let parsed: Vec<_> = parsers.iter_mut().zip(asks).map(|(p, a)| real::parse(p, a.ext, a.cfg, &a.query)).collect();
    let seq = de_bruijn(asks.len(), n);
    let mut buf: Ranges = Vec::with_capacity(8192);
    // Whatever the library sets up once, for all instances, isn't counted.
    let mut earlier = Inst::new(algo);
    for (a, q) in asks.iter().zip(&parsed) {
        buf.clear();
        earlier.set(a.cfg);
        earlier.ranges(a.cfg, &a.query, *q, &a.cand, &mut buf);
    }
    drop(earlier);
    buf = Vec::with_capacity(8192);
    reset();
    let mut released = None;
    for _ in 0..2 {
        let mut inst = counted(|| Inst::new(algo)).0;
        let (mut m, mut c) = (1, 1);
        let bad = |ctx: &mut Ctx, a: &Ask, at: usize, want: String, got: String, why: &str| {
            ctx.violation(vec![op(a.cfg, a.ext, &a.query, &a.cand)], want, got, format!("{why}: call {at} in the life of one instance ({what})"));
        };
        let mut first_life = None;
        for life in 0..2 {
            for (at, &i) in seq.iter().enumerate() {
                let a = &asks[i as usize];
                m = m.max(a.query.chars().count());
                c = c.max(a.cand.chars().count());
                let mut ask = |inst: &mut Inst| {
                    buf.clear();
                    let room = buf.capacity();
                    let (r, peak) = counted(|| {
                        inst.set(a.cfg);
                        if a.ranges {
                            inst.ranges(a.cfg, &a.query, parsed[i as usize], &a.cand, &mut buf)
                        } else {
                            inst.distance(a.cfg, &a.query, parsed[i as usize], &a.cand)
                        }
                    });
                    (r, if buf.capacity() == room { peak } else { i64::MAX / 2 })
                };
                let before = held();
                let (r, peak) = ask(&mut inst);
                let after = held();
                ctx.counts.states += 1;
                ctx.counts.calls += 1;
                ctx.counts.compared += 1;
                let enough = enough_for(algo, m, c);
                if before.0 + peak > enough {
                    bad(ctx, a, at, format!("at most {enough} bytes"), format!("{} bytes at the peak", before.0 + peak), "too much memory for inputs of these sizes");
                    return;
                }
                // Asked again at once, it needs nothing more.
                ask(&mut inst);
                let again = held();
                ctx.counts.calls += 1;
                ctx.counts.compared += 1;
                if more(again, after) {
                    bad(ctx, a, at, format!("{after:?} bytes and blocks"), format!("{again:?}"), "repeating a call makes it hold more");
                    return;
                }
                ctx.outcome(hash_of((r.is_some(), after)));
            }
            // A second life of the same calls needs nothing more, either.
            match first_life {
                None => first_life = Some(held()),
                Some(h) if more(held(), h) => {
                    bad(ctx, &asks[0], seq.len(), format!("{h:?} bytes and blocks"), format!("{:?}", held()), "the same calls all over again hold more");
                    return;
                }
                _ => {}
            }
            let _ = life;
        }
        // A copy holds no more than its original, and everything is given back.
        let (copy, _) = counted(|| inst.clone());
        let both = held();
        let own = first_life.unwrap();
        if both.0 > 2 * own.0 {
            bad(ctx, &asks[0], seq.len(), format!("at most {} bytes", 2 * own.0), format!("{} bytes", both.0), "a copy holds more than its original");
        }
        counted(|| drop(copy));
        counted(|| drop(inst));
        ctx.counts.compared += 2;
        // What is shared by all instances may stay, but must not pile up.
        match released {
            None => released = Some(held()),
            Some(h) if more(held(), h) => {
                bad(ctx, &asks[0], seq.len(), format!("{h:?} bytes and blocks"), format!("{:?}", held()), "not everything is released");
                return;
            }
            _ => {}
        }
        ctx.counts.traces += 1;
        if released.is_some() {
            ctx.sample(|| format!("{algo:?} {what}: {} calls twice, every window of {n} of {}; held {own:?} bytes and blocks", seq.len(), asks.len()));
        }
    }
}

pub fn memory(jobs: &mut Vec<Job>, thorough: bool) {
    let th = thorough;
    for algo in ALGOS {
        let rows: &[usize] = if th { &[1, 2, 3, 5, 17, 33, 64, 65, 130] } else { &[1, 2, 5, 33, 65, 130] };
        let cols: &[usize] = if th { &[1, 3, 40, 64, 65, 128, 129, 257, 600, 1025, 4097] } else { &[3, 40, 65, 128, 129, 257, 600] };
        let pools: Vec<(&'static str, Vec<Ask>, usize)> = vec![
            ("pairs", ask_pool(algo, true, if th { 1 } else { 2 }), 2),
            ("misses, pairs", miss_pool(algo), 2),
            ("triples", ask_pool(algo, true, if th { 8 } else { 14 }), 3),
            ("sizes, pairs", size_pool(algo, rows, cols), 2),
            ("sizes, triples", size_pool(algo, &[1, 2, 65], &[2, 65, 128, 129, 300]), 3),
        ];
        for (what, asks, n) in pools {
            jobs.push(Job { family: "memory of an instance", run: Box::new(move |ctx: &mut Ctx| walk_asks(ctx, algo, &asks, n, what)) });
        }
        // Many different candidates and settings, none twice in a row.
        jobs.push(Job {
            family: "memory of an instance (many candidates)",
            run: Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::plain(algo);
                let cs: Vec<String> = crate::oracle::all_strings(&chars("abBé -"), 0, if th { 7 } else { 6 });
                for q in ["ab", "'a", "a !b | é", "b$"] {
                    let mut parser = FzfParser::new();
                    let parsed = real::parse(&mut parser, true, cfg, q);
                    let mut buf: Ranges = Vec::with_capacity(64);
                    let enough = enough_for(algo, 2, 7);
                    reset();
                    let mut inst = counted(|| Inst::new(algo)).0;
                    let mut start = None;
                    for (at, c) in cs.iter().chain(&cs).enumerate() {
                        if ctx.full() {
                            return;
                        }
                        buf.clear();
                        let r = counted(|| inst.ranges(cfg, q, parsed, c, &mut buf)).0;
                        ctx.counts.states += 1;
                        ctx.counts.calls += 1;
                        ctx.counts.compared += 1;
                        ctx.outcome(hash_of((r, held())));
                        // The second time it asks for nothing new.
                        if at + 1 == cs.len() {
                            start = Some(held());
                        }
                        if held().0 > enough || start.is_some_and(|s| more(held(), s)) {
                            ctx.violation(
                                vec![op(cfg, true, q, c)],
                                format!("at most {enough}, {start:?} bytes and blocks"),
                                format!("{:?}", held()),
                                "an instance that is asked about many short candidates holds more and more",
                            );
                            return;
                        }
                    }
                    ctx.counts.traces += 1;
                }
                ctx.sample(|| format!("{algo:?}: {} candidates in turn", cs.len()));
            }),
        });
    }
    let mut texts: Vec<(bool, String)> = Vec::new();
    for ext in [true, false] {
        for t in ["", "a", "!a | b", "a\\ b é", "'a ^b$ c$", "|", "a b c d e f g h", "^é$", "A B | C"] {
            texts.push((ext, t.into()));
        }
        for n in if th { &[7, 31, 32, 33, 64, 65, 130, 300, 1025][..] } else { &[32, 65, 130, 300] } {
            for unit in ["a", "é", "a ", "ab | ", "!z ", "a\\ "] {
                texts.push((ext, unit.repeat(*n)));
            }
        }
    }
    let few: Vec<(bool, String)> = texts.iter().step_by(if th { 3 } else { 4 }).cloned().collect();
    for (what, texts, n) in [("pairs", texts, 2), ("triples", few, 3)] {
        let texts = Arc::new(texts);
        jobs.push(Job {
            family: "memory of a parser",
            run: Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::plain(Algo::V1);
                let seq = de_bruijn(texts.len(), n);
                let mut earlier = FzfParser::new();
                for (ext, t) in texts.iter() {
                    real::parse(&mut earlier, *ext, cfg, t);
                }
                drop(earlier);
                reset();
                let mut released = None;
                for _ in 0..2 {
                    let mut parser = counted(FzfParser::new).0;
                    let mut longest = 0;
                    let mut first_life = None;
                    for _ in 0..2 {
                        for (at, &i) in seq.iter().enumerate() {
                            let (ext, t) = &texts[i as usize];
                            longest = longest.max(t.len());
                            let before = held();
                            let ((), peak) = counted(|| {
                                real::parse(&mut parser, *ext, cfg, t);
                            });
                            let after = held();
                            counted(|| {
                                real::parse(&mut parser, *ext, cfg, t);
                            });
                            let again = held();
                            ctx.counts.states += 1;
                            ctx.counts.calls += 2;
                            ctx.counts.compared += 2;
                            ctx.outcome(hash_of((after, i)));
                            let enough = enough_to_parse(longest);
                            if before.0 + peak > enough || more(again, after) {
                                ctx.violation(
                                    vec![op(cfg, *ext, t, "")],
                                    format!("at most {enough} bytes, and the same when repeated"),
                                    format!("{} at the peak, {after:?} bytes and blocks, repeated {again:?}", before.0 + peak),
                                    format!("parse {at} in the life of one parser ({what})"),
                                );
                                return;
                            }
                        }
                        match first_life {
                            None => first_life = Some(held()),
                            Some(h) if more(held(), h) => {
                                ctx.violation(
                                    vec![op(cfg, true, "", "")],
                                    format!("{h:?} bytes and blocks"),
                                    format!("{:?}", held()),
                                    "the same parses all over again hold more",
                                );
                                return;
                            }
                            _ => {}
                        }
                    }
                    let copy = counted(|| parser.clone()).0;
                    counted(|| drop(parser));
                    counted(|| drop(copy));
                    ctx.counts.compared += 1;
                    match released {
                        None => released = Some(held()),
                        Some(h) if more(held(), h) => {
                            ctx.violation(vec![op(cfg, true, "", "")], format!("{h:?} bytes and blocks"), format!("{:?}", held()), "not everything is released");
                            return;
                        }
                        _ => {}
                    }
                    ctx.counts.traces += 1;
                    ctx.sample(|| format!("{what}: {} parses twice, every window of {n} of {}; held {:?} bytes and blocks", seq.len(), texts.len(), first_life));
                }
            }),
        });
    }
}

/// A text of `n` characters that no other number has.
fn text_no(at: usize, n: usize, letters: &[char]) -> String {
    let mut v: Vec<char> = letters.iter().cycle().take(n).copied().collect();
    let mut k = at;
    for c in v.iter_mut().take(16) {
        *c = letters[(k + (*c as usize)) % letters.len()];
        k /= letters.len();
    }
    v.into_iter().collect()
}

/// Users come, with a parser and an instance of their own, ask about texts
/// that nobody has asked about before, and go: they leave nothing behind that
/// grows with their number.
pub fn users(jobs: &mut Vec<Job>, thorough: bool) {
    const SLACK: i64 = 48 << 10;
    let number = if thorough { 200_000 } else { 40_000 };
    let letters: [&str; 2] = ["abcdefghijklmnop", "ab\u{e9}\u{436}\u{65e5}cdefAB\u{c9}1-xy"];
    let shapes: &'static [(usize, usize)] = &[(4, 6), (6, 40), (20, 70), (40, 40), (40, 300), (70, 90), (8, 300), (140, 150)];
    for algo in ALGOS {
        for (wide, letters) in letters.into_iter().enumerate() {
            for &(m, n) in shapes {
                for form in 0..3 {
                    jobs.push(Job {
                        family: "users come and go",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let al = chars(letters);
                            let cases = crate::model::CASES;
                            reset();
                            let mut buf: Ranges = Vec::with_capacity(1024);
                            let mut half = (0, 0);
                            let number = if m * n > 2000 { number / 4 } else { number };
                            for at in 0..number {
                                if ctx.full() {
                                    return;
                                }
                                let cfg = Cfg { algo, case: cases[at % 3], norm: at % 2 == 1, scheme: crate::model::SCHEMES[at / 3 % 3] };
                                let term = text_no(at, m, &al);
                                let (extended, query) = match form {
                                    0 => (false, term.clone()),
                                    1 => (true, ["", "'", "^", "!", "'!", "!^"][at % 6].to_owned() + &term + ["", "$"][at / 6 % 2]),
                                    _ => (true, format!("{term} | {} !{}x", &al[at % al.len()], text_no(at, m / 2 + 1, &al))),
                                };
                                let other = text_no(at + 7, n, &al);
                                let cand = match at % 3 {
                                    0 => format!("{term}/{other}"),
                                    1 => format!("{other}-{term}"),
                                    _ => other,
                                };
                                buf.clear();
                                let room = buf.capacity();
                                let (r, peak) = counted(|| {
                                    let mut parser = FzfParser::new();
                                    let parsed = real::parse(&mut parser, extended, cfg, &query);
                                    let mut inst = Inst::new(algo);
                                    inst.set(cfg);
                                    let r = inst.ranges(cfg, &query, parsed, &cand, &mut buf);
                                    inst.distance(cfg, &query, parsed, &cand);
                                    r
                                });
                                ctx.counts.states += 1;
                                ctx.counts.calls += 2;
                                ctx.counts.compared += 1;
                                if at % 64 == 0 {
                                    ctx.outcome(hash_of((r.is_some(), held(), peak)));
                                }
                                if buf.capacity() != room {
                                    // The buffer is the caller's.
                                    reset();
                                    half = (0, 0);
                                    buf = Vec::with_capacity(2 * buf.capacity());
                                }
                                if at + 1 == number / 2 {
                                    half = held();
                                }
                                if at >= number / 2 && held().0 > half.0 + SLACK {
                                    ctx.violation(
                                        vec![op(cfg, extended, &query, &cand)],
                                        format!("at most {} bytes", half.0 + SLACK),
                                        format!("{} bytes left behind", held().0),
                                        format!("{at} users, each with a parser and an instance of its own, have come and gone"),
                                    );
                                    return;
                                }
                            }
                            ctx.counts.traces += 1;
                            ctx.sample(|| format!("{algo:?}: {number} users with queries of {m} and candidates of {n} characters, {}; {half:?} bytes and blocks left", if wide == 1 { "any script" } else { "ASCII" }));
                        }),
                    });
                }
            }
        }
    }
}

const CROWD_LETTERS: [&str; 2] = ["abcdefghijklmnop", "ab\u{e9}\u{436}\u{65e5}cdefAB\u{c9}1-xy"];
const CROWD_SIZES: [(usize, usize); 4] = [(1, 3), (6, 40), (20, 70), (40, 300)];

/// A process in which so many threads, one at a time, come, ask and go; prints
/// what they leave behind, twice, and a digest of their answers.
pub fn crowd(algo: usize, letters: usize, size: usize, number: usize) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let algo = ALGOS[algo];
    let (m, n) = CROWD_SIZES[size];
    let ask = move |at: usize| {
        let al = chars(CROWD_LETTERS[letters]);
        let cfg = Cfg { algo, case: crate::model::CASES[at % 3], norm: at % 2 == 1, scheme: crate::model::SCHEMES[at / 3 % 3] };
        let term = text_no(at, m, &al);
        let cand = format!("{term}/{}", text_no(at + 7, n, &al));
        let query = ["", "'", "!'", "^"][at % 4].to_owned() + &term;
        let mut parser = FzfParser::new();
        let mut inst = Inst::with(cfg);
        let mut buf = Vec::new();
        let parsed = real::parse(&mut parser, at % 8 < 4, cfg, &query);
        let r = inst.ranges(cfg, &query, parsed, &cand, &mut buf);
        inst.distance(cfg, &query, parsed, &cand);
        hash_of((r, buf))
    };
    let mut digest = 0;
    ALL_ON.store(true, Relaxed);
    for from in [0, number] {
        let before = ALL.load(Relaxed);
        for at in from..from + number {
            digest ^= std::thread::spawn(move || ask(at)).join().unwrap_or(1).rotate_left(at as u32);
        }
        println!("left {}", ALL.load(Relaxed) - before);
    }
    println!("digest {digest}");
    0
}

/// Users on threads of their own, who come, ask and go, leave nothing behind
/// that grows with their number.
pub fn threads(jobs: &mut Vec<Job>, thorough: bool) {
    const SLACK: i64 = 32 << 10;
    let number = if thorough { 20_000 } else { 3_000 };
    for algo in 0..ALGOS.len() {
        for letters in 0..CROWD_LETTERS.len() {
            for (size, (m, n)) in CROWD_SIZES.into_iter().enumerate() {
                jobs.push(Job {
                    family: "threads come and go",
                    run: Box::new(move |ctx: &mut Ctx| {
                        beat();
                        let exe = std::env::current_exe().expect("current_exe");
                        let args = [algo, letters, size, number].map(|n| n.to_string());
                        let out = std::process::Command::new(exe).arg("crowd").args(args).output().expect("a process");
                        beat();
                        let text = String::from_utf8_lossy(&out.stdout);
                        let numbers: Vec<i64> = text.lines().filter_map(|l| l.strip_prefix("left ")?.parse().ok()).collect();
                        // A process that ends early is another property's.
                        let &[_, left] = &numbers[..] else { return };
                        ctx.counts.states += 2 * number as u64;
                        ctx.counts.calls += 4 * number as u64;
                        ctx.counts.compared += number as u64;
                        ctx.counts.traces += 1;
                        ctx.outcome(hash_of(&text));
                        if left > SLACK {
                            let al = chars(CROWD_LETTERS[letters]);
                            ctx.violation(
                                vec![op(Cfg::plain(ALGOS[algo]), true, &text_no(0, m, &al), &text_no(7, n, &al))],
                                format!("at most {SLACK} bytes"),
                                format!("{left} bytes left behind"),
                                format!("{number} more threads, each with a parser and an instance of its own, have come and gone"),
                            );
                        }
                        ctx.sample(|| format!("{:?}: {number} threads with queries of {m} and candidates of {n} characters left {numbers:?} bytes", ALGOS[algo]));
                    }),
                });
            }
        }
    }
}
