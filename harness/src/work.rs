//! How much a call does: counted in machine instructions by Callgrind.
//!
//! `normcheck work SHARD SHARDS`, run under Callgrind, makes the calls of its
//! share of the groups and has the counter's value written out after each.
//! `normcheck C28 COUNTS...` reads those: a group's calls are the same call at
//! growing sizes, and its numbers must not grow faster than its claim allows.

use std::collections::HashMap;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

use norm::fzf::FzfParser;

use crate::engine::{hash_of, Counts, Op, Report, Violation};
use crate::model::{Algo, Case, Cfg, Scheme};
use crate::real::{mode_name, parse, Inst};
use crate::report::{self, Meta};

/// What is counted.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    /// `distance_and_ranges`, on objects that have answered it before.
    Ranges,
    /// `distance`, likewise.
    Distance,
    /// Everything from making the objects to dropping them.
    Whole,
    /// Parsing, on a parser that has parsed it before.
    Parse,
    /// `distance_and_ranges` behind a large call, or behind many.
    AfterLarge,
    AfterMany(usize),
    ParseAfterLarge,
    ParseAfterMany(usize),
    /// With so many ranges in the buffer.
    Onto(usize),
}

/// How the counts of a group's calls may grow.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Claim {
    /// Each call is twice as large as the one before.
    Linear,
    /// The product of the sizes is four times as large.
    Product,
    /// The same call in other surroundings.
    Same,
}

struct Group {
    cfg: Cfg,
    ext: bool,
    claim: Claim,
    family: &'static str,
    calls: Vec<(What, String, String)>,
}

// ------------------------------------------------------------------- groups

fn repeat(unit: &str, len: usize) -> String {
    let k = unit.chars().count();
    unit.repeat(len.div_ceil(k))
}

struct Query {
    lead: &'static str,
    miss_first: bool,
    unit: &'static str,
    miss_last: bool,
    trail: &'static str,
}

impl Query {
    fn text(&self, len: usize) -> String {
        let x = |b: bool| if b { "q" } else { "" };
        format!("{}{}{}{}{}", self.lead, x(self.miss_first), repeat(self.unit, len), x(self.miss_last), self.trail)
    }
    fn fuzzy(&self) -> bool {
        self.lead.is_empty() && self.trail.is_empty()
    }
    fn missing(&self) -> bool {
        self.miss_first || self.miss_last
    }
}

/// Two parts, each as long as the other.
fn cand((first, second): (&str, &str), len: usize) -> String {
    format!("{}{}", repeat(first, len / 2), repeat(second, len / 2))
}

const LARGE: (usize, usize) = (60, 1_500);

fn groups(thorough: bool) -> Vec<Group> {
    let mut v = Vec::new();
    let base = if thorough { 2048 } else { 512 };
    let linear = [base, 2 * base, 4 * base];
    let square = [base / 8, base / 4, base / 2];
    let p = Cfg::plain;
    let cfgs = [
        p(Algo::V1),
        p(Algo::V2),
        Cfg { algo: Algo::V1, case: Case::Insensitive, norm: true, scheme: Scheme::Path },
        Cfg { algo: Algo::V2, case: Case::Insensitive, norm: true, scheme: Scheme::Path },
    ];
    let units: &[&str] = if thorough { &["a", "ab", "aB", "é", "aab", "日", "a1"] } else { &["a", "ab", "é"] };
    let ops: &[(&str, &str)] = &[("", ""), ("'", ""), ("^", ""), ("", "$"), ("^", "$"), ("!", ""), ("!^", ""), ("!", "$"), ("!'", "")];
    let mut parts: Vec<(&str, &str)> = vec![
        ("a", "a"), ("b", "a"), ("a", "b"), ("ab", "ab"), ("ba", "aab"), ("A", "bA"), (" ", "a"), ("a", " "), ("a ", "ab "), ("é", "a"),
        ("aé", "é"), ("a/", "b-"), ("日", "ab"), ("b", "b"),
    ];
    if thorough {
        parts.extend([("aB", "Ab"), ("a1", "1a"), (" a", " b"), ("é", "é"), ("日本", "é"), ("\u{3000}", "a"), ("aaab", "b"), ("-", "-")]);
    }
    for cfg in cfgs {
        for &unit in units {
            for &(lead, trail) in ops {
                for (miss_first, miss_last) in [(false, false), (true, false), (false, true)] {
                    let q = Query { lead, miss_first, unit, miss_last, trail };
                    for &t in &parts {
                        single(&mut v, cfg, &q, t, linear, square, base);
                    }
                    let calls = linear.map(|n| (What::Parse, q.text(n), "a".to_string())).to_vec();
                    v.push(Group { cfg, ext: true, claim: Claim::Linear, family: "parsing a term", calls: calls.clone() });
                    v.push(Group { cfg, ext: false, claim: Claim::Linear, family: "parsing a text", calls });
                }
            }
        }
    }
    several(&mut v, &cfgs, &parts, linear, square);
    surroundings(&mut v, &cfgs, units, ops, &parts);
    v
}

/// One term: along a longer candidate, along a longer term, along both.
fn single(v: &mut Vec<Group>, cfg: Cfg, q: &Query, t: (&str, &str), linear: [usize; 3], square: [usize; 3], base: usize) {
    let mut push = |claim, family, what: &[What], sizes: [(usize, usize); 3]| {
        for &what in what {
            let calls = sizes.map(|(m, n)| (what, q.text(m), cand(t, n))).to_vec();
            v.push(Group { cfg, ext: true, claim, family, calls });
        }
    };
    use What::*;
    push(Claim::Linear, "longer candidates", &[Ranges, Whole], linear.map(|n| (6, n)));
    if !q.missing() {
        push(Claim::Linear, "longer candidates", &[Distance], linear.map(|n| (6, n)));
    }
    push(Claim::Linear, "longer terms", &[Ranges], linear.map(|m| (m, 64)));
    push(Claim::Linear, "longer terms", &[Ranges], [base / 32, base / 16, base / 8].map(|m| (m, base)));
    if q.fuzzy() && (cfg.algo == Algo::V1 || q.missing()) {
        // One pass, however long the term; and so is turning a candidate down.
        push(Claim::Linear, "longer terms and candidates, in one pass", &[Ranges, Distance], linear.map(|n| (n / 2, n)));
        push(Claim::Linear, "longer terms and candidates, in one pass", &[Ranges], linear.map(|n| (n / 8, n)));
    } else {
        push(Claim::Product, "longer terms and candidates", &[Ranges], square.map(|n| (n / 2, n)));
        push(Claim::Product, "longer terms and candidates", &[Ranges], square.map(|n| (n / 8, n)));
    }
}

/// More and more terms.
fn several(v: &mut Vec<Group>, cfgs: &[Cfg], parts: &[(&str, &str)], linear: [usize; 3], square: [usize; 3]) {
    use What::*;
    for &cfg in cfgs {
        for unit in ["a ", "a b ", "a | ", "q | ", "'a ", "^a | ", "!q ", "a\\ ", "\\ ", "é ", "ab | 'q ", "| ", "' "] {
            for (head, tail) in [("", "a"), ("", "q"), ("q | ", "a")] {
                let query = |m: usize| format!("{head}{}{tail}", repeat(unit, m));
                for &t in parts {
                    let mut push = |claim, family, sizes: [(usize, usize); 3]| {
                        let calls = sizes.map(|(m, n)| (Ranges, query(m), cand(t, n))).to_vec();
                        v.push(Group { cfg, ext: true, claim, family, calls });
                    };
                    push(Claim::Linear, "longer candidates, several terms", linear.map(|n| (12, n)));
                    push(Claim::Linear, "more terms", linear.map(|m| (m, 24)));
                    push(Claim::Product, "more terms, longer candidates", square.map(|n| (n / 2, n)));
                }
                for ext in [true, false] {
                    let calls = linear.map(|m| (Parse, query(m), "a".to_string())).to_vec();
                    v.push(Group { cfg, ext, claim: Claim::Linear, family: "parsing terms", calls });
                }
            }
        }
    }
}

/// The same call behind others, and with others' ranges in the buffer.
fn surroundings(v: &mut Vec<Group>, cfgs: &[Cfg], units: &[&str], ops: &[(&str, &str)], parts: &[(&str, &str)]) {
    use What::*;
    for &cfg in cfgs {
        for &unit in units {
            for &(lead, trail) in ops {
                let q = format!("{lead}{}{trail}", repeat(unit, 4));
                for &t in parts {
                    let t = cand(t, 24);
                    let mut push = |whats: &[What]| {
                        let calls = whats.iter().map(|&w| (w, q.clone(), t.clone())).collect();
                        v.push(Group { cfg, ext: true, claim: Claim::Same, family: "surroundings", calls });
                    };
                    push(&[Ranges, Onto(4_000)]);
                    if unit == "ab" {
                        push(&[Ranges, AfterLarge]);
                        push(&[AfterMany(20), AfterMany(600)]);
                    }
                }
                for whats in [[Parse, ParseAfterLarge], [ParseAfterMany(20), ParseAfterMany(600)]] {
                    let calls = whats.iter().map(|&w| (w, q.clone(), "a".to_string())).collect();
                    v.push(Group { cfg, ext: true, claim: Claim::Same, family: "surroundings", calls });
                }
            }
        }
    }
}

// ------------------------------------------------------------------ counting

/// Callgrind's client requests; without it they do nothing.
#[cfg(target_arch = "x86_64")]
fn request(code: u64, arg: *const u8) {
    let args: [u64; 6] = [((b'C' as u64) << 24 | (b'T' as u64) << 16) + code, arg as u64, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0u64 => _,
        );
    }
}

#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64, _: *const u8) {}

const TOGGLE: u64 = 2;
const WRITE_OUT: u64 = 3;

static COUNTING: AtomicBool = AtomicBool::new(false);

fn toggle(on: bool) {
    if COUNTING.swap(on, Relaxed) != on {
        request(TOGGLE, std::ptr::null());
    }
}

/// Runs `f` with its instructions counted.
#[inline(never)]
fn counted<T>(f: impl FnOnce() -> T) -> T {
    toggle(true);
    let r = f();
    toggle(false);
    r
}

fn one(g: &Group, (what, q, t): &(What, String, String)) -> bool {
    let cfg = g.cfg;
    let mut parser = FzfParser::new();
    let mut inst = Inst::with(cfg);
    let mut buf: Vec<Range<usize>> = Vec::with_capacity(40_000);
    let other = |i: usize| {
        let s = format!("{i:b}").replace('0', "b").replace('1', "a");
        (s[..s.len() / 2].to_string(), s)
    };
    match *what {
        What::Whole => {
            return counted(|| {
                let mut parser = FzfParser::new();
                let mut inst = Inst::with(cfg);
                let parsed = parse(&mut parser, g.ext, cfg, q);
                let r = inst.ranges(cfg, q, parsed, t, &mut buf);
                drop(inst);
                r.is_some()
            });
        },
        What::Parse | What::ParseAfterLarge | What::ParseAfterMany(_) => {
            let _ = parse(&mut parser, g.ext, cfg, q);
            match *what {
                What::ParseAfterLarge => {
                    for unit in ["a ", "ab"] {
                        for ext in [true, false] {
                            let _ = parse(&mut parser, ext, cfg, &unit.repeat(LARGE.1));
                        }
                    }
                },
                What::ParseAfterMany(n) => {
                    for i in 0..n {
                        let _ = parse(&mut parser, i % 3 != 0, cfg, &other(i + 4).1);
                    }
                },
                _ => {},
            }
            return counted(|| {
                std::hint::black_box(parse(&mut parser, g.ext, cfg, q));
                true
            });
        },
        What::AfterLarge => {
            let large = [
                ("ab".repeat(LARGE.0 / 2), "aab".repeat(LARGE.1 / 3)),
                ("aé".repeat(LARGE.0 / 2), "aéb".repeat(LARGE.1 / 3)),
                ("ab".into(), "ab".repeat(8 * LARGE.1)),
                ("aé".into(), "aé".repeat(8 * LARGE.1)),
            ];
            for (q, t) in large {
                let parsed = parse(&mut parser, true, cfg, &q);
                inst.ranges(cfg, &q, parsed, &t, &mut buf);
            }
            buf.clear();
        },
        What::AfterMany(n) => {
            for i in 0..n {
                let (q, t) = other(i + 4);
                let parsed = parse(&mut parser, true, cfg, &q);
                inst.ranges(cfg, &q, parsed, &t, &mut buf);
            }
            buf.clear();
        },
        What::Onto(n) => buf.extend((0..n).map(|i| 2 * i..2 * i + 1)),
        What::Ranges | What::Distance => {},
    }
    let parsed = parse(&mut parser, g.ext, cfg, q);
    let had = buf.len();
    if *what == What::Distance {
        inst.distance(cfg, q, parsed, t);
        counted(|| inst.distance(cfg, q, parsed, t).is_some())
    } else {
        inst.ranges(cfg, q, parsed, t, &mut buf);
        buf.truncate(had);
        counted(|| inst.ranges(cfg, q, parsed, t, &mut buf).is_some())
    }
}

/// The calls of one share, under Callgrind.
pub fn count(shard: usize, shards: usize, thorough: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    for (i, g) in groups(thorough).iter().enumerate() {
        if (i + i / shards) % shards != shard {
            continue;
        }
        for (k, call) in g.calls.iter().enumerate() {
            let how = match catch_unwind(AssertUnwindSafe(|| one(g, call))) {
                Ok(true) => "some",
                Ok(false) => "none",
                Err(_) => "panic",
            };
            toggle(false);
            request(WRITE_OUT, format!("call {i} {k} {how}\0").as_ptr());
        }
    }
    println!("counted");
    0
}

// ------------------------------------------------------------------- verdict

/// Number of instructions and kind of answer, by group and call.
fn read(files: &[String]) -> HashMap<(usize, usize), (u64, String)> {
    let mut counts = HashMap::new();
    for f in files {
        let text = std::fs::read_to_string(f).expect("counts");
        let mut at = None;
        for l in text.lines() {
            if let Some(name) = l.strip_prefix("desc: Trigger: Client Request: call ") {
                let mut w = name.split(' ');
                let mut next = || w.next().unwrap_or("").to_string();
                at = Some((next().parse().unwrap_or(0), next().parse().unwrap_or(0), next()));
            } else if let Some(n) = l.strip_prefix("totals: ") {
                if let (Some((i, k, how)), Ok(n)) = (at.take(), n.trim().parse()) {
                    counts.insert((i, k), (n, how));
                }
            }
        }
    }
    counts
}

/// Whether the counts grow as claimed. Each step has to be larger than the
/// claim allows: one alone may be a threshold that was crossed.
fn grows(claim: Claim, n: &[u64]) -> bool {
    let ratio = |a: u64, b: u64| b as f64 / a.max(1) as f64;
    match claim {
        Claim::Linear => n.windows(2).any(|w| ratio(w[0], w[1]) <= 2.6),
        Claim::Product => n.windows(2).any(|w| ratio(w[0], w[1]) <= 5.4),
        Claim::Same => n[1] <= 2 * n[0] + 1_500,
    }
}

pub fn verdict(files: &[String]) -> i32 {
    report::init("C28");
    let all = groups(report::thorough());
    let counts = read(files);
    let mut r = Report::empty();
    let mut outcomes = std::collections::HashSet::new();
    let (mut most, mut worst) = (0u64, [(0f64, String::new()), (0f64, String::new()), (0f64, String::new())]);
    for (i, g) in all.iter().enumerate() {
        let got: Vec<&(u64, String)> = (0..g.calls.len()).filter_map(|k| counts.get(&(i, k))).collect();
        if got.len() != g.calls.len() {
            eprintln!("group {i} was not counted");
            return 3;
        }
        // Another property's business.
        if got.iter().any(|g| g.1 == "panic") {
            continue;
        }
        let n: Vec<u64> = got.iter().map(|g| g.0).collect();
        let c = r.families.entry(g.family).or_insert_with(Counts::default);
        for c in [c, &mut r.total] {
            c.states += g.calls.len() as u64;
            c.calls += g.calls.len() as u64;
            c.traces += 1;
            c.compared += g.calls.len() as u64 - 1;
        }
        r.families.get_mut(g.family).unwrap().jobs += 1;
        most = most.max(*n.iter().max().unwrap());
        outcomes.insert(hash_of((g.family, &n, &got[0].1)));
        let least = n.windows(2).map(|w| w[1] as f64 / w[0].max(1) as f64).fold(f64::MAX, f64::min);
        let text = || format!("{} {:?} on {:?}: {n:?} instructions", g.cfg.text(), clip(&g.calls[0].1), clip(&g.calls[0].2));
        let w = &mut worst[g.claim as usize];
        if least > w.0 {
            *w = (least, format!("{:?}, {}, {:?}: {}", g.claim, g.family, g.calls[g.calls.len() - 1].0, text()));
        }
        if i % (all.len() / 16 + 1) == 0 {
            r.samples.push(format!("{}: {}", g.family, text()));
        }
        if !grows(g.claim, &n) && r.violations.is_empty() {
            let ops = g.calls.iter().map(|(_, q, t)| Op { cfg: g.cfg, mode: mode_name(g.ext), query: q.clone(), cand: t.clone() }).collect();
            let whats: Vec<What> = g.calls.iter().map(|c| c.0).collect();
            r.violations.push(Violation {
                family: g.family.into(),
                job: i,
                ops,
                expected: match g.claim {
                    Claim::Linear => "twice the size: about twice the work".into(),
                    Claim::Product => "both sizes twice as large: about four times the work".into(),
                    Claim::Same => "about the same work in both surroundings".into(),
                },
                actual: format!("{n:?} instructions"),
                note: format!("the calls below, each counted: {whats:?}"),
            });
        }
    }
    for (_, w) in worst {
        println!("steepest: {w}");
        r.samples.push(w);
    }
    r.outcomes = outcomes.len() as u64;
    r.jobs_done = all.len();
    r.jobs_total = all.len();
    report::finish(
        &r,
        &Meta {
            rule: "every call of the spaces, counted in machine instructions by Callgrind at three sizes that double, grows no faster than claimed: the growth between two sizes is above 2.6 (5.4 where a product is claimed) at every doubling only if it is not linear (not a product); in other surroundings a call takes at most twice the instructions and 1,500",
            assumptions: vec![
                "what the kernel does for a call is not counted".into(),
                "the instructions are those of the release build on this processor as Valgrind presents it".into(),
            ],
            extra: vec![("most_instructions_of_one_call".into(), most)],
        },
    )
}

fn clip(s: &str) -> String {
    s.chars().take(24).collect()
}
