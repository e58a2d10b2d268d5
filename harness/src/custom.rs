//! Walks that are not "one query over many candidates".

use std::collections::{HashMap, VecDeque};
use std::ops::Range;
use std::sync::Arc;

use norm::fzf::{FzfDistance, FzfParser};

use crate::engine::{hash_of, Ctx, Job, Op};
use crate::families::*;
use crate::model::{self, Algo, Case, Cfg, Kind, Scheme, ALGOS, CASES, SCHEMES};
use crate::normtable;
use crate::oracle::*;
use crate::real::{self, Inst, Ranges};

pub type Answer = (Option<i64>, Ranges);

pub fn op(cfg: Cfg, extended: bool, query: &str, cand: &str) -> Op {
    Op {
        cfg,
        mode: real::mode_name(extended),
        query: query.into(),
        cand: cand.into(),
    }
}

/// The answer of fresh objects.
pub fn fresh(cfg: Cfg, extended: bool, query: &str, cand: &str) -> Answer {
    let mut parser = FzfParser::new();
    let q = real::parse(&mut parser, extended, cfg, query);
    let mut inst = Inst::with(cfg);
    let mut buf = Vec::new();
    let s = inst.ranges(cfg, query, q, cand, &mut buf);
    (s, buf)
}

pub fn show(a: &Answer) -> String {
    format!("{:?} {}", a.0, show_ranges(&a.1))
}

fn bytes_of(r: &[Range<usize>], len: usize) -> Vec<bool> {
    let mut v = vec![false; len];
    for r in r {
        for b in r.clone() {
            if b < len {
                v[b] = true;
            }
        }
    }
    v
}

// ------------------------------------------------------------------ negation

/// `!t` answers exactly when `t` doesn't, scores and marks nothing, and leaves
/// what its neighbours score and mark alone.
pub fn negation(
    jobs: &mut Vec<Job>,
    cfgs: &[Cfg],
    texts: &[String],
    cands: &Cands,
) {
    let companions = ["a", "'b", "^a", "b$", "ab"];
    for &cfg in cfgs {
        for t in texts {
            for k in KINDS {
                let t = t.clone();
                let cands = cands.clone();
                jobs.push(Job {
                    family: "negation",
                    run: Box::new(move |ctx: &mut Ctx| {
                        negation_job(ctx, cfg, &t, k, &companions, &cands)
                    }),
                });
            }
        }
    }
}

fn negation_job(
    ctx: &mut Ctx,
    cfg: Cfg,
    text: &str,
    kind: Kind,
    companions: &[&str],
    cands: &Cands,
) {
    let pos = write_term(kind, false, text);
    let neg = write_term(kind, true, text);
    let mut queries = vec![pos.clone(), neg.clone(), format!("{neg} {neg}")];
    for u in companions {
        queries.push(u.to_string());
        queries.push(format!("{u} {neg}"));
        queries.push(format!("{neg} {u}"));
        queries.push(format!("{neg} | {u}"));
        queries.push(format!("{u} | {neg}"));
    }
    let mut parsers: Vec<FzfParser> =
        queries.iter().map(|_| FzfParser::new()).collect();
    let parsed: Vec<_> = parsers
        .iter_mut()
        .zip(&queries)
        .map(|(p, q)| real::parse(p, true, cfg, q))
        .collect();
    let qm = model::parse(&neg);
    let mut inst = Inst::with(cfg);
    for c in cands.iter() {
        if ctx.full() {
            return;
        }
        let mut ans: Vec<Answer> = Vec::with_capacity(queries.len());
        for (q, s) in parsed.iter().zip(&queries) {
            let mut buf = vec![0..1];
            let r = inst.ranges(cfg, s, *q, &c.s, &mut buf);
            let d = inst.distance(cfg, s, *q, &c.s);
            ctx.counts.calls += 2;
            if d != r {
                ctx.violation(
                    vec![op(cfg, true, s, &c.s)],
                    format!("{d:?}"),
                    format!("{r:?}"),
                    "with ranges and without disagree on a negated query",
                );
            }
            if !buf.is_empty() {
                buf.remove(0);
            }
            ans.push((r, buf));
        }
        ctx.counts.states += 1;
        let matched = ans[0].0.is_some();
        let nothing: Answer = (None, vec![]);
        let zero: Answer = (Some(0), vec![]);
        let mut expect = |i: usize, want: &Answer, why: &str| {
            ctx.counts.compared += 1;
            let same = ans[i].0 == want.0
                && bytes_of(&ans[i].1, c.s.len())
                    == bytes_of(&want.1, c.s.len());
            if !same {
                ctx.violation(
                    vec![
                        op(cfg, true, &queries[i], &c.s),
                        op(cfg, true, &pos, &c.s),
                    ],
                    show(want),
                    show(&ans[i]),
                    why,
                );
            }
        };
        expect(
            1,
            if matched { &nothing } else { &zero },
            "the negated term must answer exactly when the plain one doesn't",
        );
        expect(
            2,
            if matched { &nothing } else { &zero },
            "a negated term twice",
        );
        for (i, _) in companions.iter().enumerate() {
            let base = 3 + i * 5;
            let u = &ans[base];
            let and = if matched || u.0.is_none() { &nothing } else { u };
            expect(base + 1, and, "companion AND negated term");
            expect(base + 2, and, "negated term AND companion");
            let or = if matched { u } else { &zero };
            expect(base + 3, or, "negated term OR companion");
            let or = if u.0.is_some() {
                u
            } else if matched {
                &nothing
            } else {
                &zero
            };
            expect(base + 4, or, "companion OR negated term");
        }
        let want = model::matches(&qm, &c.cs, cfg);
        if want != ans[1].0.is_some() {
            ctx.violation(
                vec![op(cfg, true, &neg, &c.s)],
                format!("match: {want}"),
                show(&ans[1]),
                "the negated term's decision",
            );
        }
        ctx.outcome(hash_of((ans[0].0, ans[1].0, ans[4].0)));
        ctx.sample(|| {
            format!("{} {neg:?} on {:?} -> {}", cfg.text(), c.s, show(&ans[1]))
        });
    }
}

// -------------------------------------------------------- the range-set graph

/// Explicit-state search over every reachable set of marked ranges. A state is
/// the vector of ranges a query of exact terms on an all-distinct candidate
/// returns; a transition adds one more exact term (an interval). The search
/// runs to its fixpoint: every subset of an `n`-byte candidate.
pub fn range_graph(jobs: &mut Vec<Job>, n: usize, wide: bool, algo: Algo) {
    jobs.push(Job {
        family: if wide { "range graph (wide)" } else { "range graph" },
        run: Box::new(move |ctx: &mut Ctx| {
            let letters: Vec<char> = if wide {
                chars("aбc日e😀gжiкlм")[..n].to_vec()
            } else {
                chars("abcdefghijkl")[..n].to_vec()
            };
            let cand: String = letters.iter().collect();
            let mut at = vec![0usize];
            for c in &letters {
                at.push(at.last().unwrap() + c.len_utf8());
            }
            let cfg = Cfg::plain(algo);
            let mut terms: Vec<(String, usize, usize)> = Vec::new();
            for i in 0..n {
                for j in i + 1..=n {
                    let t: String = letters[i..j].iter().collect();
                    terms.push((format!("'{t}"), i, j));
                }
            }
            let mut inst = Inst::with(cfg);
            let mut parser = FzfParser::new();
            // State: ranges as returned; value: (query reaching it, its mask).
            let mut seen: HashMap<Ranges, (String, u32)> = HashMap::new();
            let mut todo: VecDeque<Ranges> = VecDeque::new();
            seen.insert(vec![], (String::new(), 0));
            todo.push_back(vec![]);
            let prefix = [3..5usize, 0..90];
            while let Some(state) = todo.pop_front() {
                let (path, mask) = seen[&state].clone();
                for (t, i, j) in &terms {
                    if ctx.full() {
                        return;
                    }
                    let query = if path.is_empty() {
                        t.clone()
                    } else {
                        format!("{path} {t}")
                    };
                    let new_mask = mask | (((1u32 << (j - i)) - 1) << i);
                    let q = real::parse(&mut parser, true, cfg, &query);
                    let mut buf: Ranges = prefix.to_vec();
                    let r = inst.ranges(cfg, &query, q, &cand, &mut buf);
                    ctx.counts.calls += 1;
                    ctx.counts.compared += 1;
                    let mut bad = None;
                    if r.is_none() {
                        bad = Some("no match".to_string());
                    } else if buf.len() < 2 || buf[..2] != prefix {
                        bad = Some("earlier contents changed".to_string());
                    }
                    let got: Ranges = buf.split_off(2.min(buf.len()));
                    let mut marks = Vec::new();
                    if bad.is_none() {
                        bad = check_shape(&cand, n, &got, &mut marks).err();
                    }
                    if bad.is_none() {
                        let have = marks
                            .iter()
                            .enumerate()
                            .fold(0u32, |m, (k, &b)| m | ((b as u32) << k));
                        if have != new_mask {
                            bad = Some("marks are not the union".into());
                        }
                    }
                    if let Some(why) = bad {
                        let want: Vec<bool> =
                            (0..n).map(|k| new_mask >> k & 1 == 1).collect();
                        ctx.violation(
                            vec![op(cfg, true, &query, &cand)],
                            show_ranges(&mark_ranges(&letters, &want)),
                            show_ranges(&got),
                            why,
                        );
                        continue;
                    }
                    if !seen.contains_key(&got) {
                        ctx.outcome(hash_of(&got));
                        seen.insert(got.clone(), (query, new_mask));
                        todo.push_back(got);
                    }
                }
            }
            ctx.counts.states += seen.len() as u64;
            ctx.sample(|| format!("{} range sets over {cand:?}", seen.len()));
        }),
    });
}

/// Every sequence of `depth` exact terms (intervals) on an all-distinct
/// candidate of `n` letters.
pub fn range_sequences(jobs: &mut Vec<Job>, n: usize, depth: usize) {
    let letters = &chars("abcdefghijkl")[..n];
    let mut terms: Vec<(String, u32)> = Vec::new();
    for i in 0..n {
        for j in i + 1..=n {
            let t: String = letters[i..j].iter().collect();
            terms.push((format!("'{t} "), ((1u32 << (j - i)) - 1) << i));
        }
    }
    let terms = Arc::new(terms);
    let cand: String = letters.iter().collect();
    for first in 0..terms.len() {
        let (terms, cand) = (terms.clone(), cand.clone());
        jobs.push(Job {
            family: "range sequences",
            run: Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::plain(Algo::V1);
                let mut inst = Inst::with(cfg);
                let mut parser = FzfParser::new();
                let k = terms.len();
                let total = k.pow(depth as u32 - 1);
                let mut query = String::new();
                for code in 0..total {
                    if ctx.full() {
                        return;
                    }
                    query.clear();
                    query.push_str(&terms[first].0);
                    let mut mask = terms[first].1;
                    let mut c = code;
                    for _ in 1..depth {
                        query.push_str(&terms[c % k].0);
                        mask |= terms[c % k].1;
                        c /= k;
                    }
                    let q = real::parse(&mut parser, true, cfg, &query);
                    let mut buf = vec![1..2, 0..9];
                    let r = inst.ranges(cfg, &query, q, &cand, &mut buf);
                    ctx.counts.states += 1;
                    ctx.counts.calls += 1;
                    ctx.counts.compared += 1;
                    let mut marks = Vec::new();
                    let ok = r.is_some()
                        && buf.len() >= 2
                        && buf[..2] == [1..2, 0..9]
                        && check_shape(&cand, n, &buf[2..], &mut marks)
                            .is_ok()
                        && marks
                            .iter()
                            .enumerate()
                            .fold(0u32, |m, (k, &b)| m | ((b as u32) << k))
                            == mask;
                    if !ok {
                        ctx.violation(
                            vec![op(cfg, true, query.trim_end(), &cand)],
                            format!("the characters of mask {mask:b}"),
                            format!("{r:?} {}", show_ranges(&buf)),
                            "union of exact terms",
                        );
                    }
                    ctx.outcome(hash_of(&buf));
                }
                ctx.sample(|| format!("{query:?} on {cand:?}"));
            }),
        });
    }
}

/// Sequences of calls that share one buffer: each call only appends.
pub fn accumulate(jobs: &mut Vec<Job>, cfgs: &[Cfg], depth: usize) {
    let long = format!("{}a{}b", "x".repeat(130), "y".repeat(140));
    let wide = format!("{}a{}é", "é".repeat(70), "日".repeat(80));
    let calls: Vec<(&str, String)> = vec![
        ("a", "xa".into()),
        ("ab", "a-b ab".into()),
        ("ab", long),
        ("aé", wide),
        ("'ab 'bc 'a", "xabc".into()),
        ("a zz", "abc".into()),
        ("'ab zz | 'c !a", "cab".into()),
        ("!a", "a".into()),
        ("!z", "abc".into()),
        ("", "abc".into()),
        ("^ab b$ | c$", "abxc".into()),
        ("é", "日é".into()),
        ("zzz", "日é".into()),
    ];
    let calls = Arc::new(calls);
    // What the buffer holds to begin with: anything goes.
    #[allow(clippy::reversed_empty_ranges)]
    let starts: Vec<Ranges> = vec![
        vec![],
        vec![0..3],
        vec![5..2, 0..0, usize::MAX..usize::MAX],
        (0..70).map(|i| i..i + 1).collect(),
        vec![0..1, 0..1, 1..2],
    ];
    let starts = Arc::new(starts);
    for &cfg in cfgs {
        for s in 0..starts.len() {
            let (calls, starts) = (calls.clone(), starts.clone());
            jobs.push(Job {
                family: "shared buffer",
                run: Box::new(move |ctx: &mut Ctx| {
                    let alone: Vec<Answer> = calls
                        .iter()
                        .map(|(q, c)| fresh(cfg, true, q, c))
                        .collect();
                    let mut parsers: Vec<FzfParser> =
                        calls.iter().map(|_| FzfParser::new()).collect();
                    let parsed: Vec<_> = parsers
                        .iter_mut()
                        .zip(calls.iter())
                        .map(|(p, (q, _))| real::parse(p, true, cfg, q))
                        .collect();
                    let k = calls.len();
                    for code in 0..k.pow(depth as u32) {
                        if ctx.full() {
                            return;
                        }
                        let mut inst = Inst::with(cfg);
                        let mut buf = starts[s].clone();
                        let mut want = buf.clone();
                        let mut ops = Vec::new();
                        let mut c = code;
                        let mut bad = None;
                        for _ in 0..depth {
                            let i = c % k;
                            c /= k;
                            let (q, cand) = &calls[i];
                            ops.push(op(cfg, true, q, cand));
                            let r = inst
                                .ranges(cfg, q, parsed[i], cand, &mut buf);
                            ctx.counts.calls += 1;
                            ctx.counts.states += 1;
                            ctx.counts.compared += 2;
                            want.extend(alone[i].1.iter().cloned());
                            if r.is_some() != alone[i].0.is_some()
                                || buf != want
                            {
                                bad = Some(i);
                                break;
                            }
                        }
                        ctx.counts.traces += 1;
                        ctx.outcome(hash_of(&buf));
                        if bad.is_some() {
                            ctx.violation(
                                ops,
                                show_ranges(&want),
                                show_ranges(&buf),
                                format!(
                                    "calls sharing a buffer that starts as {}",
                                    show_ranges(&starts[s])
                                ),
                            );
                        }
                    }
                    ctx.sample(|| {
                        format!("{depth} calls from {:?}", starts[s].len())
                    });
                }),
            });
        }
    }
}

/// Calls with a buffer that holds any number of ranges already.
pub fn filled_buffers(jobs: &mut Vec<Job>, most: usize) {
    let mut lens: Vec<usize> = (0..=most).collect();
    lens.extend([511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]);
    let lens = Arc::new(lens);
    for algo in ALGOS {
        let cfg = Cfg::plain(algo);
        for (query, cand) in [("a", "xax"), ("ab", "a-b ab"), ("'bc 'a 'ab", "xabcx"), ("a zz", "abc"), ("'ab 'q | 'c !a", "cab"), ("!z", "abc"), ("\u{e9} !x", "\u{e9}\u{65e5}"), ("ace 'b", "abcde"), ("'c 'a", "abc")] {
            let lens = lens.clone();
            jobs.push(Job {
                family: "filled buffers",
                run: Box::new(move |ctx: &mut Ctx| {
                    let alone = fresh(cfg, true, query, cand);
                    let mut parser = FzfParser::new();
                    let q = real::parse(&mut parser, true, cfg, query);
                    let mut inst = Inst::with(cfg);
                    let mut buf: Ranges = Vec::new();
                    for &n in lens.iter() {
                        for shape in 0..3 {
                            if ctx.full() {
                                return;
                            }
                            let earlier = |i: usize| match shape {
                                0 => i..i + 1,
                                1 => 0..cand.len(),
                                _ => n - i..n + i,
                            };
                            buf.clear();
                            buf.extend((0..n).map(earlier));
                            let r = inst.ranges(cfg, query, q, cand, &mut buf);
                            ctx.counts.states += 1;
                            ctx.counts.calls += 1;
                            ctx.counts.compared += 2;
                            ctx.outcome(hash_of((n.min(3), shape, r)));
                            let kept = buf.len() >= n && buf[..n].iter().enumerate().all(|(i, r)| *r == earlier(i));
                            if r != alone.0 || !kept || buf[n..] != alone.1[..] {
                                let at = n.min(buf.len());
                                ctx.violation(
                                    vec![op(cfg, true, query, cand)],
                                    show(&alone),
                                    format!("{r:?} {}, the earlier ones {}", show_ranges(&buf[at..]), if kept { "kept" } else { "changed" }),
                                    format!("a buffer that holds {n} ranges already"),
                                );
                                return;
                            }
                        }
                    }
                    ctx.counts.traces += 1;
                    ctx.sample(|| format!("{query:?} on {cand:?} with 0..{most} and more ranges in the buffer"));
                }),
            });
        }
    }
}

/// Instances made in every way there is, never told anything.
pub fn defaults(jobs: &mut Vec<Job>, algos: &[Algo]) {
    for &algo in algos {
        jobs.push(Job {
            family: "untouched instances",
            run: Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::plain(algo);
                for way in 0..4 {
                    let mut inst = match way {
                        0 => Inst::new(algo),
                        1 => Inst::default_of(algo),
                        2 => Inst::new(algo).take(),
                        _ => {
                            let mut i = Inst::with(Cfg { case: Case::Sensitive, norm: true, scheme: Scheme::Path, ..cfg });
                            i.take();
                            i
                        },
                    };
                    for (q, c) in PROBES {
                        let mut parser = FzfParser::new();
                        let parsed = real::parse(&mut parser, true, cfg, q);
                        let mut buf: Ranges = Vec::new();
                        let r = inst.ranges(cfg, q, parsed, c, &mut buf);
                        ctx.counts.states += 1;
                        ctx.counts.calls += 1;
                        ctx.counts.compared += 1;
                        ctx.outcome(hash_of((r, &buf)));
                        ctx.answer(q, c, r, &buf);
                    }
                    ctx.counts.traces += 1;
                }
                ctx.sample(|| format!("{algo:?} made in four ways"));
            }),
        });
    }
}

/// Queries and candidates that tell the settings apart.
const PROBES: [(&str, &str); 15] = [
    ("a", "A"),
    ("a", "\u{e1}"),
    ("a", "\u{c1}"),
    ("B", "b"),
    ("B", "B"),
    ("\u{e9}", "\u{c9}"),
    ("a", "xx a"),
    ("a", "xx/a"),
    ("a", "xx,a"),
    ("a", "a"),
    ("ab", "x/a b"),
    ("'ab", "x/ab ab"),
    ("^A", "a"),
    ("!A", "a"),
    ("e$", "\u{c9}"),
];

// ------------------------------------------------------- every Unicode scalar

fn scalars(jobs: &mut Vec<Job>, family: &'static str, lo: u32, hi: u32, step: u32, f: impl Fn(&mut Ctx, char) + Send + Sync + Clone + 'static) {
    let mut at = lo;
    while at <= hi {
        let f = f.clone();
        let end = (at + step - 1).min(hi);
        jobs.push(Job {
            family,
            run: Box::new(move |ctx: &mut Ctx| {
                for u in at..=end {
                    if let Some(c) = char::from_u32(u) {
                        if ctx.full() {
                            return;
                        }
                        f(ctx, c);
                    }
                }
            }),
        });
        at = end + 1;
    }
}

pub const LAST: u32 = 0x10FFFF;

/// One comparison against the model with objects the caller keeps.
fn compare(
    ctx: &mut Ctx,
    inst: &mut Inst,
    parser: &mut FzfParser,
    cfg: Cfg,
    extended: bool,
    query: &str,
    cand: &str,
    what: u32,
) {
    let q = real::parse(parser, extended, cfg, query);
    let qm = if extended { model::parse(query) } else { model::parse_plain(query) };
    let cs = chars(cand);
    let mut buf: Ranges = Vec::new();
    let r = inst.ranges(cfg, query, q, cand, &mut buf);
    ctx.counts.states += 1;
    ctx.counts.calls += 2;
    ctx.counts.compared += 1;
    let want = model::eval(&qm, &cs, cfg);
    let mut bad = None;
    if what & DECISION != 0 && want.is_some() != r.is_some() {
        bad = Some("decision");
    }
    if what & SCORE != 0 && want.as_ref().map(|o| o.score) != r {
        bad = Some("score");
    }
    if what & MARKS != 0 {
        if let (Some(o), Some(_)) = (&want, r) {
            if mark_ranges(&cs, &o.marks) != {
                let mut marks = Vec::new();
                match check_shape(cand, cs.len(), &buf, &mut marks) {
                    Ok(()) => mark_ranges(&cs, &marks),
                    Err(_) => vec![usize::MAX..usize::MAX],
                }
            } {
                bad = Some("marks");
            }
        }
    }
    ctx.outcome(hash_of((r, buf.len(), cs.len())));
    if let Some(why) = bad {
        let want = want.map(|o| (Some(o.score), mark_ranges(&cs, &o.marks)));
        ctx.violation(
            vec![op(cfg, extended, query, cand)],
            want.map_or("no match".into(), |w| show(&w)),
            show(&(r, buf)),
            why,
        );
    }
}

std::thread_local! {
    static KEPT: std::cell::RefCell<HashMap<usize, Inst>> =
        std::cell::RefCell::new(HashMap::new());
    static PARSER: std::cell::RefCell<FzfParser> =
        std::cell::RefCell::new(FzfParser::new());
}

/// As `compare`, with a per-thread instance per configuration.
fn compare_kept(ctx: &mut Ctx, cfg: Cfg, query: &str, cand: &str, what: u32) {
    compare_as(ctx, cfg, false, query, cand, what)
}

fn compare_as(ctx: &mut Ctx, cfg: Cfg, extended: bool, query: &str, cand: &str, what: u32) {
    KEPT.with(|k| {
        PARSER.with(|p| {
            let mut k = k.borrow_mut();
            let inst = k.entry(cfg.code()).or_insert_with(|| Inst::with(cfg));
            compare(ctx, inst, &mut p.borrow_mut(), cfg, extended, query, cand, what);
        })
    })
}

/// The bonus before and after every scalar, in every scheme.
pub fn scalar_bonuses(jobs: &mut Vec<Job>, thorough: bool) {
    let f = move |ctx: &mut Ctx, c: char| {
        let dense = thorough || (c as u32) < 0x3000 || (c as u32) > 0x1F000 && (c as u32) < 0x20000;
        let algos: &[Algo] = if dense { &ALGOS } else { &ALGOS[..1] };
        for &algo in algos {
            for scheme in SCHEMES {
                let cfg = Cfg { algo, case: Case::Sensitive, norm: false, scheme };
                let q = c.to_string();
                // `c` after every class, and at the start.
                let befores: &[&str] = if dense {
                    &["", " ", "-", "/", "q", "Q", "7", ",", "é", "É", "日", "٣", "\u{3000}", "—"]
                } else {
                    &["", "q", "7", "/"]
                };
                for b in befores {
                    if !b.contains(c) {
                        compare_kept(ctx, cfg, &q, &format!("{b}{c}"), SCORE);
                    }
                }
                // Letters, a digit and punctuation after `c`.
                for (t, n) in [("\u{e000}", 1), ("z", 1), ("Z", 2), ("5", 2), ("~", 2), ("|", 2), ("\t", 2)] {
                    if (dense || n == 1) && !t.contains(c) {
                        compare_kept(ctx, cfg, t, &format!("{c}{t}"), SCORE);
                    }
                }
                // As the second character of a run.
                if dense && c != 'z' {
                    compare_kept(ctx, cfg, &format!("z{c}"), &format!(" z{c}"), SCORE);
                    compare_kept(ctx, cfg, &format!("z{c}"), &format!("yz{c}"), SCORE);
                }
            }
        }
        ctx.sample(|| format!("bonuses around {c:?}"));
    };
    scalars(jobs, "scalars", 0, LAST, 8192, f);
}

/// Every scalar against itself and its case variants, in every mode.
pub fn scalar_cases(jobs: &mut Vec<Job>, thorough: bool) {
    let f = move |ctx: &mut Ctx, c: char| {
        let mut variants: Vec<char> = vec![c];
        variants.extend(c.to_lowercase());
        variants.extend(c.to_uppercase());
        if let Some(d) = char::from_u32(c as u32 ^ 0x20) {
            variants.push(d);
        }
        if let Some(d) = char::from_u32(c as u32 + 1) {
            variants.push(d);
        }
        variants.sort();
        variants.dedup();
        let special = variants.len() > 3 || (c as u32) < 0x3000 || thorough;
        for case in CASES {
            for &algo in if special { &ALGOS[..] } else { &ALGOS[..1] } {
                let cfg = Cfg { algo, case, norm: false, scheme: Scheme::Default };
                for &d in &variants {
                    let (q, t) = (c.to_string(), d.to_string());
                    compare_kept(ctx, cfg, &q, &t, DECISION);
                    compare_as(ctx, cfg, true, &q, &t, DECISION);
                    if special {
                        for term in [format!("'{q}"), format!("^{q}"), format!("!{q}"), format!("{q}$"), format!("z{q} | ^{q}$"), format!("x {q}")] {
                            compare_as(ctx, cfg, true, &term, &format!("{t}"), DECISION);
                            compare_as(ctx, cfg, true, &term, &format!("{t} x"), DECISION);
                        }
                        // In the middle of an ASCII and of a wide candidate,
                        // and smart case decided by another letter.
                        compare_kept(ctx, cfg, &q, &format!("-{t}-"), DECISION | MARKS);
                        compare_kept(ctx, cfg, &q, &format!("—{t}—"), DECISION | MARKS);
                        compare_kept(ctx, cfg, &format!("{q}K"), &format!("{t}K{t}k"), DECISION);
                        compare_kept(ctx, cfg, &format!("{q}k"), &format!("{t}K"), DECISION);
                    }
                }
            }
        }
        ctx.sample(|| format!("case variants of {c:?}: {variants:?}"));
    };
    scalars(jobs, "scalars", 0, LAST, 8192, f);
}

/// Every scalar as a candidate, normalised and not.
pub fn scalar_norms(jobs: &mut Vec<Job>, thorough: bool) {
    let f = move |ctx: &mut Ctx, c: char| {
        let base = normtable::normalize(c);
        let mut qs: Vec<char> = vec![c, base];
        qs.push(if base.is_ascii_alphabetic() { (base as u8 ^ 0x20) as char } else { 'a' });
        let inside = normtable::in_blocks(c);
        if inside {
            qs.extend("aeionsuctyzAEIONSUCTYZgGhH".chars());
            qs.extend(c.to_uppercase());
            qs.extend(c.to_lowercase());
            qs.extend('a'..='z');
            qs.extend('A'..='Z');
            qs.extend("0 -é".chars());
        }
        qs.sort();
        qs.dedup();
        for &algo in if inside || thorough { &ALGOS[..] } else { &ALGOS[..1] } {
            for norm in [true, false] {
                for case in CASES {
                    if !inside && !thorough && case == Case::Smart {
                        continue;
                    }
                    let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
                    for &q in &qs {
                        compare_kept(ctx, cfg, &q.to_string(), &format!("{c}"), DECISION | MARKS);
                        if inside {
                            compare_kept(ctx, cfg, &format!("{q}z"), &format!("~{c}~z"), DECISION | MARKS);
                        }
                    }
                }
            }
        }
        ctx.sample(|| format!("{c:?} normalises to {base:?}"));
    };
    scalars(jobs, "scalars", 0, LAST, if thorough { 1024 } else { 4096 }, f);
}

/// Query characters inside the blocks are literal: all pairs of the blocks.
pub fn norm_pairs(jobs: &mut Vec<Job>, every: usize) {
    let all: Vec<char> = normtable::BLOCKS
        .iter()
        .flat_map(|&(lo, hi)| (lo..=hi).filter_map(char::from_u32))
        .collect();
    let all = Arc::new(all);
    for chunk in 0..all.len().div_ceil(16) {
        let all = all.clone();
        jobs.push(Job {
            family: "block pairs",
            run: Box::new(move |ctx: &mut Ctx| {
                for q in all.iter().skip(chunk * 16).take(16) {
                    // All the candidates at once would match too easily: one
                    // by one, near neighbours first.
                    for (i, c) in all.iter().enumerate() {
                        if ctx.full() {
                            return;
                        }
                        let near = (*c as i64 - *q as i64).abs() < 8;
                        if !near && i % every != 0 {
                            continue;
                        }
                        for case in [Case::Sensitive, Case::Insensitive] {
                            let cfg = Cfg { algo: Algo::V1, case, norm: true, scheme: Scheme::Default };
                            compare_kept(ctx, cfg, &q.to_string(), &c.to_string(), DECISION);
                        }
                    }
                }
            }),
        });
    }
}

/// Every scalar in the query and in the candidate: an answer comes back.
pub fn scalar_totality(jobs: &mut Vec<Job>, algos: &'static [Algo], last: u32, thorough: bool) {
    let f = move |ctx: &mut Ctx, c: char| {
        let cfgs = [
            Cfg { algo: Algo::V1, case: Case::Smart, norm: true, scheme: Scheme::Path },
            Cfg { algo: Algo::V2, case: Case::Insensitive, norm: true, scheme: Scheme::Default },
            Cfg { algo: Algo::V2, case: Case::Sensitive, norm: false, scheme: Scheme::History },
        ];
        let n = if thorough { 3 } else { 2 };
        for cfg in &cfgs[..n] {
            let s = c.to_string();
            if !algos.contains(&cfg.algo) {
                continue;
            }
            for ext in [true, false] {
                let queries = [format!("{s}"), format!("a{s}"), format!("!{s} '{s} | ^{s} {s}$")];
                for q in &queries {
                    for cand in [format!("{s}"), format!("a{s}b"), format!("{s}a {s}{s}")] {
                        KEPT.with(|k| {
                            PARSER.with(|p| {
                                let mut k = k.borrow_mut();
                                let inst = k.entry(cfg.code()).or_insert_with(|| Inst::with(*cfg));
                                let mut p = p.borrow_mut();
                                let parsed = real::parse(&mut p, ext, *cfg, q);
                                let mut buf = vec![];
                                let r = inst.ranges(*cfg, q, parsed, &cand, &mut buf);
                                ctx.counts.states += 1;
                                ctx.counts.calls += 2;
                                ctx.counts.compared += 1;
                                ctx.answer(q, &cand, r, &buf);
                                ctx.outcome(hash_of((r, buf)));
                            })
                        });
                    }
                }
            }
        }
        ctx.sample(|| format!("{c:?} everywhere"));
    };
    scalars(jobs, "scalars", 0, last, 2048, f);
}

/// Every scalar in every role of the grammar: only the space, the backslash,
/// the bar and the marks are special.
pub fn scalar_grammar(jobs: &mut Vec<Job>, extended: bool, thorough: bool) {
    let f = move |ctx: &mut Ctx, c: char| {
        let cfg = Cfg { algo: ALGOS[c as usize % 2], case: Case::Sensitive, norm: false, scheme: Scheme::Default };
        let texts = [
            format!("a{c}b"),
            format!("{c}a b{c}"),
            format!("!{c}"),
            format!("x\\{c}b"),
            format!("'a {c} b"),
            format!("'{c}a"),
            format!("a{c}$"),
            format!("a {c}| b"),
            format!("{c}"),
            format!("^{c}b$"),
            format!("{c}!a"),
            format!("a|{c}"),
        ];
        let cands = [
            format!("a{c}b"),
            format!("ab"),
            format!("x\\{c}b"),
            format!("{c}"),
            format!("b{c}a"),
            format!("a{c}"),
            format!("{c}b"),
            format!("a|{c}!a"),
            format!("x{c}b"),
        ];
        let (n, m) = if thorough { (texts.len(), cands.len()) } else { (8, 6) };
        for t in &texts[..n] {
            for s in &cands[..m] {
                let score = if extended { 0 } else { SCORE };
                compare_as(ctx, cfg, extended, t, s, DECISION | score);
            }
        }
        ctx.sample(|| format!("{c:?} in the grammar"));
    };
    scalars(jobs, "scalars in the grammar", 0, LAST, 4096, f);
}

// ------------------------------------------------------------ instance history

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Call(usize),
    Case(Case),
    Norm(bool),
    Scheme(Scheme),
    /// The other instance becomes a copy of this one.
    CloneTo,
    /// The same by `clone_from`.
    CopyTo,
    /// Moves on with what `mem::take` gives; what it leaves is the other.
    Take,
    Swap,
}

/// Call arguments: short, long, wide, growing every buffer.
fn history_calls() -> Vec<(bool, String, String)> {
    let x = |n: usize| "x".repeat(n);
    vec![
        (true, "a".into(), "xa".into()),
        (true, "ab".into(), "xa-b".into()),
        (true, "ab".into(), format!("{} a{}b", x(140), x(150))),
        (true, "aE".into(), format!("é{}a{}E{}", "é".repeat(90), "日".repeat(60), "ж".repeat(9))),
        (true, "e".into(), "É".into()),
        (true, "'ab".into(), "cab ab".into()),
        (true, "abc !z | 'q".into(), "/a/b/c".into()),
        (true, "ab".repeat(70), format!("-{}", "abx".repeat(75))),
        (false, "a b".into(), "aé b".into()),
        (true, "bAé".into(), "bàAé".into()),
    ]
}

pub fn histories(jobs: &mut Vec<Job>, depth: usize, setters: bool, clones: bool) {
    let calls = Arc::new(history_calls());
    for algo in ALGOS {
        let mut steps: Vec<Step> = (0..calls.len()).map(Step::Call).collect();
        if setters {
            steps.extend(CASES.map(Step::Case));
            steps.extend([Step::Norm(true), Step::Norm(false)]);
            steps.extend(SCHEMES.map(Step::Scheme));
        }
        if clones {
            steps.extend([Step::CloneTo, Step::CopyTo, Step::Take, Step::Swap]);
        }
        let steps = Arc::new(steps);
        // Fresh answers, per configuration and call.
        for a in 0..steps.len() {
            for b in 0..steps.len() {
                let (steps, calls) = (steps.clone(), calls.clone());
                jobs.push(Job {
                    family: "histories",
                    run: Box::new(move |ctx: &mut Ctx| {
                        history_job(ctx, algo, &steps, &calls, [a, b], depth)
                    }),
                });
            }
        }
    }
}

fn history_job(
    ctx: &mut Ctx,
    algo: Algo,
    steps: &[Step],
    calls: &[(bool, String, String)],
    head: [usize; 2],
    depth: usize,
) {
    let mut memo: HashMap<(usize, usize), Answer> = HashMap::new();
    let mut parsers: Vec<FzfParser> =
        calls.iter().map(|_| FzfParser::new()).collect();
    let parsed: Vec<_> = parsers
        .iter_mut()
        .zip(calls)
        .map(|(p, (e, q, _))| real::parse(p, *e, Cfg::plain(algo), q))
        .collect();
    let k = steps.len();
    let free = depth - 2;
    let mut buf: Ranges = Vec::new();
    for code in 0..k.pow(free as u32) {
        if ctx.full() {
            return;
        }
        let mut seq = vec![steps[head[0]], steps[head[1]]];
        let mut c = code;
        for _ in 0..free {
            seq.push(steps[c % k]);
            c /= k;
        }
        // A history whose last step isn't a call observes nothing new.
        if !matches!(seq.last(), Some(Step::Call(_))) {
            continue;
        }
        let mut cur = (Inst::new(algo), Cfg::plain(algo));
        let mut other = (Inst::new(algo), Cfg::plain(algo));
        let mut ops = Vec::new();
        for (at, st) in seq.iter().enumerate() {
            ctx.counts.calls += 1;
            match *st {
                Step::Case(x) => {
                    cur.0.set_case(x);
                    cur.1.case = x;
                },
                Step::Norm(x) => {
                    cur.0.set_norm(x);
                    cur.1.norm = x;
                },
                Step::Scheme(x) => {
                    cur.0.set_scheme(x);
                    cur.1.scheme = x;
                },
                Step::CloneTo => other = cur.clone(),
                Step::CopyTo => {
                    other.0.copy_from(&cur.0);
                    other.1 = cur.1;
                },
                Step::Take => {
                    let taken = cur.0.take();
                    other = (std::mem::replace(&mut cur.0, taken), Cfg::plain(algo));
                },
                Step::Swap => std::mem::swap(&mut cur, &mut other),
                Step::Call(i) => {
                    let (e, q, cand) = &calls[i];
                    let cfg = cur.1;
                    let want = memo
                        .entry((cfg.code(), i))
                        .or_insert_with(|| fresh(cfg, *e, q, cand));
                    ops.push(op(cfg, *e, q, cand));
                    buf.clear();
                    let r = cur.0.ranges(cfg, q, parsed[i], cand, &mut buf);
                    ctx.counts.states += 1;
                    ctx.counts.compared += 1;
                    let mut ok = r == want.0 && buf == want.1;
                    let mut d = r;
                    if at + 1 == seq.len() {
                        d = cur.0.distance(cfg, q, parsed[i], cand);
                        ok &= d == want.0;
                    }
                    if !ok {
                        let got = format!("{r:?} {} (then {d:?})", show_ranges(&buf));
                        let want = show(want);
                        ctx.violation(ops.clone(), want, got, format!("history {seq:?}"));
                        return;
                    }
                    ctx.outcome(hash_of((r, &buf, cfg.code())));
                },
            }
        }
        ctx.counts.traces += 1;
        ctx.sample(|| format!("{algo:?} {seq:?}"));
    }
}

/// Buffer growth: one instance used on candidates of every length in turn,
/// up and down, each answer as from a fresh one.
pub fn growth(jobs: &mut Vec<Job>, lens: Vec<usize>) {
    let lens = Arc::new(lens);
    for algo in ALGOS {
        for i in 0..lens.len() {
            let lens = lens.clone();
            jobs.push(Job {
                family: "growth",
                run: Box::new(move |ctx: &mut Ctx| {
                    let cfg = Cfg::plain(algo);
                    let make = |n: usize, wide: bool, at: usize| {
                        let f = if wide { 'ж' } else { 'x' };
                        let mut v = vec![f; n];
                        v[at.min(n - 1)] = 'a';
                        v[n - 1] = 'b';
                        v.into_iter().collect::<String>()
                    };
                    let mut parser = FzfParser::new();
                    let q = real::parse(&mut parser, true, cfg, "ab");
                    for &second in lens.iter() {
                        for wide in [0u8, 1, 2, 3] {
                            for at in [0usize, 1, usize::MAX / 2] {
                                if ctx.full() {
                                    return;
                                }
                                let n1 = lens[i];
                                let at1 = if at > 9 { n1 / 2 } else { at };
                                let at2 = if at > 9 { 0 } else { second / 2 };
                                let c1 = make(n1, wide & 1 == 1, at1);
                                let c2 = make(second, wide & 2 == 2, at2);
                                let mut inst = Inst::with(cfg);
                                for c in [&c1, &c2, &c1] {
                                    let mut buf = vec![];
                                    let r = inst.ranges(cfg, "ab", q, c, &mut buf);
                                    ctx.counts.calls += 1;
                                    ctx.counts.compared += 1;
                                    let want = fresh(cfg, true, "ab", c);
                                    if (r, buf.clone()) != want {
                                        ctx.violation(
                                            vec![op(cfg, true, "ab", &c1), op(cfg, true, "ab", &c2), op(cfg, true, "ab", &c1)],
                                            show(&want),
                                            show(&(r, buf.clone())),
                                            "growing and shrinking candidates",
                                        );
                                    }
                                    ctx.outcome(hash_of((r, buf)));
                                }
                                ctx.counts.states += 3;
                                ctx.counts.traces += 1;
                            }
                        }
                    }
                    ctx.sample(|| format!("{algo:?} from length {}", lens[i]));
                }),
            });
        }
    }
}

// -------------------------------------------------------------- parser history

fn parser_inputs() -> Vec<(bool, String)> {
    let mut v: Vec<(bool, String)> = [
        "", "a", "ab", "!a", "'ab", "^a b$", "a | b", "a\\ b", "é 日", "A", "a b c d e f g h",
        "!'a", "|", "b | !c a", "  a  ",
    ]
    .iter()
    .map(|s| (true, s.to_string()))
    .collect();
    v.push((true, "a".repeat(65)));
    v.push((true, "ab ".repeat(70)));
    v.push((true, "a | ".repeat(70) + "b"));
    v.push((true, "é".repeat(40) + " x\\ y"));
    v.extend(["", "a", "a b", "^é |$", "B"].map(|s| (false, s.to_string())));
    v.push((false, "ab".repeat(40)));
    v
}

pub fn parser_histories(jobs: &mut Vec<Job>, depth: usize) {
    let inputs = Arc::new(parser_inputs());
    let cand_list: Arc<Vec<String>> = Arc::new(
        ["", "a", "xab", "b a", "a b", "ÉA é日", "abcdefgh", "^é |$", "A B"]
            .iter()
            .map(|s| s.to_string())
            .chain(["a".repeat(70), "ab".repeat(80), format!("{} x y", "é".repeat(45))])
            .collect(),
    );
    for a in 0..inputs.len() {
        for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
            let (inputs, cand_list) = (inputs.clone(), cand_list.clone());
            jobs.push(Job {
                family: "parser histories",
                run: Box::new(move |ctx: &mut Ctx| {
                    let k = inputs.len();
                    let mut memo: HashMap<usize, Vec<Answer>> = HashMap::new();
                    for code in 0..4 * k.pow(depth as u32 - 1) {
                        let mut parser = FzfParser::new();
                        let mut seq = vec![a];
                        let mut c = code / 4;
                        for _ in 1..depth {
                            seq.push(c % k);
                            c /= k;
                        }
                        // A copy made mid-history, in either way, parses like
                        // the original, and so does one that has moved.
                        for (at, &i) in seq.iter().enumerate() {
                            let (e, s) = &inputs[i];
                            match code % 4 {
                                1 if at == 1 => parser = parser.clone(),
                                2 if at == 1 => {
                                    let mut copy = FzfParser::default();
                                    real::parse(&mut copy, true, cfg, "x'y | z 'é");
                                    copy.clone_from(&parser);
                                    parser = copy;
                                },
                                3 if at == 1 => parser = std::mem::take(&mut parser),
                                _ => {},
                            }
                            let last = at + 1 == seq.len();
                            let want = memo.entry(i).or_insert_with(|| {
                                cand_list.iter().map(|c| fresh(cfg, *e, s, c)).collect()
                            });
                            let q = real::parse(&mut parser, *e, cfg, s);
                            ctx.counts.calls += 1;
                            if !last {
                                continue;
                            }
                            // A copy of the query is as good as the query.
                            let copy = q;
                            let mut inst = Inst::with(cfg);
                            for (ci, cand) in cand_list.iter().enumerate() {
                                if ctx.full() {
                                    return;
                                }
                                let mut buf = vec![];
                                let r = inst.ranges(cfg, s, if ci % 2 == 0 { q } else { copy }, cand, &mut buf);
                                ctx.counts.calls += 1;
                                ctx.counts.compared += 1;
                                ctx.outcome(hash_of((r, &buf, i)));
                                if (r, &buf) != (want[ci].0, &want[ci].1) {
                                    let ops = seq.iter().map(|&i| op(cfg, inputs[i].0, &inputs[i].1, cand)).collect();
                                    ctx.violation(ops, show(&want[ci]), show(&(r, buf)), "the last parse, on a reused parser");
                                }
                            }
                        }
                        ctx.counts.states += seq.len() as u64;
                        ctx.counts.traces += 1;
                        ctx.sample(|| {
                            let v: Vec<_> = seq.iter().map(|&i| clip(&inputs[i].1)).collect();
                            format!("parse history {v:?}")
                        });
                    }
                }),
            });
        }
    }
}

/// Every length of query, in both modes, on a parser that has seen another
/// length before: the answer is the model's.
pub fn parser_lengths(jobs: &mut Vec<Job>, lens: Vec<usize>) {
    for &n in &lens {
        let lens = lens.clone();
        jobs.push(Job {
            family: "query lengths",
            run: Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::plain(Algo::V1);
                for unit in ["a", "é", "a ", "ab ", "a\\ ", "!z ", "a | ", "日b| "] {
                    let s: String = unit.chars().cycle().take(n).collect();
                    for &before in &lens {
                        for ext in [true, false] {
                            if ctx.full() {
                                return;
                            }
                            let mut parser = FzfParser::new();
                            let first: String = "é a ".chars().cycle().take(before).collect();
                            if before != n {
                                real::parse(&mut parser, ext, cfg, &first);
                                ctx.counts.calls += 1;
                            }
                            let q = real::parse(&mut parser, ext, cfg, &s);
                            let qm = if ext { model::parse(&s) } else { model::parse_plain(&s) };
                            let mut inst = Inst::with(cfg);
                            let cands = [s.clone(), s.replace('\\', ""), "a".repeat(n), "ab".repeat(n / 2), "日b".into(), s.chars().skip(1).collect()];
                            for cand in &cands {
                                let r = inst.distance(cfg, &s, q, cand).is_some();
                                let want = model::matches(&qm, &chars(cand), cfg);
                                ctx.counts.calls += 1;
                                ctx.counts.compared += 1;
                                ctx.outcome(hash_of((r, n, unit)));
                                if r != want {
                                    ctx.violation(
                                        vec![op(cfg, ext, &first, ""), op(cfg, ext, &s, cand)],
                                        format!("match: {want}"),
                                        format!("match: {r}"),
                                        "query of a certain length on a used parser",
                                    );
                                }
                            }
                            ctx.counts.states += 1;
                        }
                    }
                }
                ctx.sample(|| format!("queries of {n} characters"));
            }),
        });
    }
}

// ------------------------------------------------------------------- ordering

/// Every distance reachable on a bounded space, then all pairs and triples.
pub fn ordering(jobs: &mut Vec<Job>, clen: usize) {
    jobs.push(Job {
        family: "ordering",
        run: Box::new(move |ctx: &mut Ctx| {
            let mut by_score: std::collections::BTreeMap<i64, (FzfDistance, Op)> = Default::default();
            let mut parser = FzfParser::new();
            for cfg in with_schemes(&ALGOS) {
                for query in ["a", "ab", "aB1", "'ab", "a !b", "a b | c", "'a 'b 'c", "!q", "", "^ab$ ab a b"] {
                    let q = real::parse(&mut parser, true, cfg, query);
                    let mut inst = Inst::with(cfg);
                    let mut visit = |s: &str, _: &[char]| {
                        crate::engine::announce("distance", cfg, query, s);
                        let d = inst.raw_distance(q, s);
                        crate::engine::idle();
                        ctx.counts.calls += 1;
                        if let Some(d) = d {
                            let e = by_score.entry(real::score(d)).or_insert_with(|| (d, op(cfg, true, query, s)));
                            if e.0 != d {
                                let ops = vec![e.1.clone(), op(cfg, true, query, s)];
                                ctx.violation(ops, "equal".into(), "not equal".into(), "same score, different distance");
                            }
                        }
                    };
                    strings(&chars("aB1b /"), 0, clen, &mut visit);
                    for g in [5usize, 20, 40, 80] {
                        let s = format!("a{}b{}B1", "x".repeat(g), "-".repeat(g));
                        visit(&s, &[]);
                    }
                    let big = "aB1 ".repeat(60);
                    visit(&big, &[]);
                }
            }
            for n in [3usize, 10, 50, 200, 1000] {
                let cfg = Cfg::plain(Algo::V1);
                let t = "ab ".repeat(n);
                let q = real::parse(&mut parser, true, cfg, &t);
                let mut inst = Inst::with(cfg);
                crate::engine::announce("distance", cfg, &t, "ab");
                let d = inst.raw_distance(q, "ab");
                crate::engine::idle();
                if let Some(d) = d {
                    by_score.entry(real::score(d)).or_insert_with(|| (d, op(cfg, true, &t, "ab")));
                }
            }
            let all: Vec<(i64, FzfDistance, Op)> = by_score.into_iter().map(|(s, (d, o))| (s, d, o)).collect();
            ctx.counts.states += all.len() as u64;
            use std::cmp::Ordering::*;
            for (s1, d1, o1) in &all {
                ctx.outcome(hash_of(*s1));
                for (s2, d2, o2) in &all {
                    ctx.counts.compared += 1;
                    // Higher score: lower distance.
                    let want = s2.cmp(s1);
                    let ok = d1.cmp(d2) == want
                        && d1.partial_cmp(d2) == Some(want)
                        && (d1 == d2) == (want == Equal)
                        && (d1 != d2) == (want != Equal)
                        && (d1 < d2) == (want == Less)
                        && (d1 <= d2) == (want != Greater)
                        && (d1 > d2) == (want == Greater)
                        && (d1 >= d2) == (want != Less)
                        && d2.cmp(d1) == want.reverse()
                        && (*d1).max(*d2) == if want == Less { *d2 } else { *d1 }
                        && (*d1).min(*d2) == if want == Greater { *d2 } else { *d1 };
                    if !ok {
                        ctx.violation(
                            vec![o1.clone(), o2.clone()],
                            format!("scores {s1} and {s2}: {want:?}"),
                            format!("{:?}, {:?}", d1.cmp(d2), d1.partial_cmp(d2)),
                            "the order of two distances",
                        );
                    }
                }
            }
            // Transitivity over all triples of a spread of the values.
            let step = (all.len() / 150).max(1);
            let few: Vec<_> = all.iter().step_by(step).collect();
            for a in &few {
                for b in &few {
                    for c in &few {
                        ctx.counts.compared += 1;
                        if a.1 <= b.1 && b.1 <= c.1 && a.1 > c.1 {
                            ctx.violation(
                                vec![a.2.clone(), b.2.clone(), c.2.clone()],
                                "transitive".into(),
                                format!("{:?} {:?} {:?}", a.1, b.1, c.1),
                                "the order of three distances",
                            );
                        }
                    }
                }
            }
            // Sorting by distance puts the best score first.
            let mut ds: Vec<FzfDistance> = all.iter().map(|x| x.1).collect();
            ds.sort();
            let sorted: Vec<i64> = ds.iter().map(|d| real::score(*d)).collect();
            let mut want: Vec<i64> = all.iter().map(|x| x.0).collect();
            want.sort_by(|a, b| b.cmp(a));
            ctx.counts.compared += 1;
            if sorted != want {
                ctx.violation(vec![all[0].2.clone()], "best first".into(), format!("{sorted:?}"), "sorting");
            }
            // The neutral distance is the empty query's.
            ctx.counts.compared += 1;
            if real::score(FzfDistance::default()) != 0 {
                ctx.violation(vec![all[0].2.clone()], "0".into(), format!("{:?}", FzfDistance::default()), "default distance");
            }
            ctx.sample(|| format!("{} distinct distances, from {} to {}", all.len(), all[0].0, all[all.len() - 1].0));
        }),
    });
}

// ------------------------------------------------- representation independence

/// Replacing characters the query can't match by non-ASCII ones of the same
/// class, or adding some at the end, changes no answer.
pub fn representation(
    jobs: &mut Vec<Job>,
    cfgs: &[Cfg],
    queries: &[String],
    alphabet: &str,
    clen: usize,
) {
    fn wide(c: char) -> char {
        match c {
            'x' => 'ж',
            'X' => 'Ж',
            '1' => '٣',
            '-' => '—',
            c => c,
        }
    }
    let al = Arc::new(chars(alphabet));
    for &cfg in cfgs {
        for q in queries {
            let (q, al) = (q.clone(), al.clone());
            jobs.push(Job {
                family: "representation",
                run: Box::new(move |ctx: &mut Ctx| {
                    let mut parser = FzfParser::new();
                    let qm = model::parse(&q);
                    let free_end = qm.0.iter().flatten().all(|t| !matches!(t.kind, Kind::Suffix | Kind::Equal));
                    let parsed = real::parse(&mut parser, true, cfg, &q);
                    let mut inst = Inst::with(cfg);
                    strings(&al, 0, clen, |s, cs| {
                        if ctx.full() {
                            return;
                        }
                        let w: Vec<char> = cs.iter().map(|&c| wide(c)).collect();
                        let ws: String = w.iter().collect();
                        let mut buf = vec![];
                        let r = inst.ranges(cfg, &q, parsed, s, &mut buf);
                        let mut m = vec![];
                        let shape = check_shape(s, cs.len(), &buf, &mut m);
                        ctx.counts.states += 1;
                        ctx.counts.calls += 1;
                        let mut others: Vec<(String, usize)> = Vec::new();
                        if ws != s {
                            others.push((ws.clone(), w.len()));
                        }
                        if free_end {
                            others.push((format!("{s} ж"), cs.len() + 2));
                        }
                        for (o, n) in &others {
                            let mut obuf = vec![];
                            let or = inst.ranges(cfg, &q, parsed, o, &mut obuf);
                            let mut om = vec![];
                            let oshape = check_shape(o, *n, &obuf, &mut om);
                            ctx.counts.calls += 1;
                            ctx.counts.compared += 1;
                            om.truncate(cs.len());
                            if or != r || om != m || shape.is_err() || oshape.is_err() {
                                ctx.violation(
                                    vec![op(cfg, true, &q, s), op(cfg, true, &q, o)],
                                    format!("as for {s:?}: {}", show(&(r, buf.clone()))),
                                    show(&(or, obuf)),
                                    "an all-ASCII candidate and one that isn't",
                                );
                            }
                        }
                        ctx.outcome(hash_of((r, &buf)));
                        ctx.sample(|| format!("{} {q:?} on {s:?} and {ws:?} -> {r:?}", cfg.text()));
                    });
                }),
            });
        }
    }
}

// -------------------------------------------------------------------- settings

/// Explicit-state search over the settings: from every state reached by every
/// sequence of setters up to a depth, the probes answer as the last value set
/// for each setting says.
pub fn settings(jobs: &mut Vec<Job>, depth: usize) {
    let probes = Arc::new(PROBES);
    for &algo in real::built() {
        for first in 0..8usize {
            let probes = probes.clone();
            jobs.push(Job {
                family: "settings",
                run: Box::new(move |ctx: &mut Ctx| {
                    let mut parsers: Vec<FzfParser> = probes.iter().map(|_| FzfParser::new()).collect();
                    let parsed: Vec<_> = parsers
                        .iter_mut()
                        .zip(probes.iter())
                        .map(|(p, (q, _))| real::parse(p, true, Cfg::plain(algo), q))
                        .collect();
                    for len in 0..=depth {
                        if len == 0 && first > 0 {
                            continue;
                        }
                        let n = if len == 0 { 1 } else { 8usize.pow(len as u32 - 1) };
                        for code in 0..n {
                            if ctx.full() {
                                return;
                            }
                            let mut inst = if code % 2 == 0 { Inst::new(algo) } else { Inst::default_of(algo) };
                            let mut cfg = Cfg::plain(algo);
                            let mut seq = vec![];
                            let mut c = code;
                            for i in 0..len {
                                let s = if i == 0 { first } else { c % 8 };
                                if i > 0 {
                                    c /= 8;
                                }
                                seq.push(s);
                                match s {
                                    0..=2 => {
                                        cfg.case = CASES[s];
                                        inst.set_case(CASES[s]);
                                    },
                                    3 | 4 => {
                                        cfg.norm = s == 3;
                                        inst.set_norm(s == 3);
                                    },
                                    _ => {
                                        cfg.scheme = SCHEMES[s - 5];
                                        inst.set_scheme(SCHEMES[s - 5]);
                                    },
                                }
                                ctx.counts.calls += 1;
                            }
                            // Setting all three in one chained expression.
                            let mut chained = Inst::new(algo);
                            chained.chain(cfg);
                            for who in [&mut inst, &mut chained] {
                                for (i, (q, cand)) in probes.iter().enumerate() {
                                    let r = who.distance(cfg, q, parsed[i], cand);
                                    ctx.counts.calls += 1;
                                    ctx.counts.compared += 1;
                                    let want = model::eval(&model::parse(q), &chars(cand), cfg).map(|o| o.score);
                                    if r != want {
                                        ctx.violation(
                                            vec![op(cfg, true, q, cand)],
                                            format!("{want:?}"),
                                            format!("{r:?}"),
                                            format!("after the settings {seq:?} (0-2 case, 3-4 normalization, 5-7 scheme)"),
                                        );
                                    }
                                    ctx.outcome(hash_of((r, i, cfg.code())));
                                }
                            }
                            ctx.counts.states += 1;
                            ctx.sample(|| format!("{algo:?} settings {seq:?} -> {}", inst.debug()));
                        }
                    }
                }),
            });
        }
    }
}

// ------------------------------------------------------------ termless queries

/// Words without a term match everything, score and mark nothing, alone and
/// around other terms.
pub fn termless(jobs: &mut Vec<Job>, len: usize) {
    let al = chars(" |!'^$\\");
    let words: Vec<String> = {
        let mut v = Vec::new();
        strings(&al, 0, len, |s, _| {
            if model::parse(s).0.is_empty() {
                v.push(s.to_string());
            }
        });
        v
    };
    let list: Cands = cands(
        ["", "a", "ab", "日", " ", "|", "!", "x a", "b$", "é".repeat(200).as_str()].iter().map(|s| s.to_string()),
    );
    for chunk in words.chunks(60) {
        for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
            let chunk = chunk.to_vec();
            let list = list.clone();
            jobs.push(Job {
                family: "termless",
                run: Box::new(move |ctx: &mut Ctx| {
                    let mut parser = FzfParser::new();
                    let mut inst = Inst::with(cfg);
                    for w in &chunk {
                        for c in list.iter() {
                            let q = real::parse(&mut parser, true, cfg, w);
                            let mut buf = vec![3..4];
                            let r = inst.ranges(cfg, w, q, &c.s, &mut buf);
                            crate::engine::announce("distance", cfg, w, &c.s);
                            let d = inst.raw_distance(q, &c.s);
                            crate::engine::idle();
                            ctx.counts.states += 1;
                            ctx.counts.calls += 2;
                            ctx.counts.compared += 1;
                            ctx.outcome(hash_of((r, w.len())));
                            if r != Some(0) || buf != [3..4] || d != Some(FzfDistance::default()) {
                                ctx.violation(
                                    vec![op(cfg, true, w, &c.s)],
                                    "the neutral distance, nothing marked".into(),
                                    show(&(r, buf)),
                                    "a query without terms",
                                );
                            }
                            // Around a real term, as a word of its own. (A bar
                            // would join it to a neighbour, so not those.)
                            if w.contains('|') || w.contains('\\') {
                                continue;
                            }
                            for t in ["a", "'ab b", "!a", "b$ | a"] {
                                let alone = fresh(cfg, true, t, &c.s);
                                for s in [format!("{w} {t}"), format!("{t} {w}")] {
                                    let q = real::parse(&mut parser, true, cfg, &s);
                                    let mut buf = vec![];
                                    let r = inst.ranges(cfg, &s, q, &c.s, &mut buf);
                                    ctx.counts.calls += 1;
                                    ctx.counts.compared += 1;
                                    if (r, buf.clone()) != alone {
                                        ctx.violation(
                                            vec![op(cfg, true, &s, &c.s), op(cfg, true, t, &c.s)],
                                            show(&alone),
                                            show(&(r, buf)),
                                            "words without a term around one",
                                        );
                                    }
                                }
                            }
                        }
                        ctx.sample(|| format!("{w:?} has no terms"));
                    }
                }),
            });
        }
    }
    for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
        let p = Probe::new(cfg, false, "", DECISION | SCORE | MARKS | CONTRACT | AGREE);
        walk_strings(jobs, "termless", p, &chars("a é"), 0, 5);
    }
}

/// The plain parser on a string without special characters answers like the
/// extended one.
pub fn plain_equals_extended(jobs: &mut Vec<Job>, alphabet: &str, qlen: usize) {
    let qs = all_strings(&chars(alphabet), 1, qlen);
    for chunk in qs.chunks(16) {
        let chunk = chunk.to_vec();
        jobs.push(Job {
            family: "plain = extended",
            run: Box::new(move |ctx: &mut Ctx| {
                for q in &chunk {
                    for cfg in with_cases(&ALGOS) {
                        let mut p1 = FzfParser::new();
                        let mut p2 = FzfParser::new();
                        let e = real::parse(&mut p1, true, cfg, q);
                        let n = real::parse(&mut p2, false, cfg, q);
                        let mut inst = Inst::with(cfg);
                        strings(&chars("abAé "), 0, 4, |s, _| {
                            if ctx.full() {
                                return;
                            }
                            let (mut b1, mut b2) = (vec![], vec![]);
                            let r1 = inst.ranges(cfg, q, e, s, &mut b1);
                            let r2 = inst.ranges(cfg, q, n, s, &mut b2);
                            ctx.counts.states += 1;
                            ctx.counts.calls += 2;
                            ctx.counts.compared += 1;
                            if (r1, &b1) != (r2, &b2) {
                                ctx.violation(
                                    vec![op(cfg, false, q, s), op(cfg, true, q, s)],
                                    show(&(r1, b1)),
                                    show(&(r2, b2)),
                                    "plain and extended parse of the same simple text",
                                );
                            }
                        });
                    }
                }
            }),
        });
    }
}

/// Every scalar in a query without special characters: both parsers agree on
/// it and its other forms.
pub fn plain_scalars(jobs: &mut Vec<Job>, thorough: bool) {
    let f = move |ctx: &mut Ctx, c: char| {
        if " !'^$|\\".contains(c) {
            return;
        }
        let mut forms = vec![c];
        for f in c.to_lowercase().chain(c.to_uppercase()).chain([normtable::normalize(c)]) {
            if !forms.contains(&f) {
                forms.push(f);
            }
        }
        let cases: &[Case] = if thorough { &[Case::Smart, Case::Insensitive, Case::Sensitive] } else { &[Case::Smart] };
        for q in [format!("{c}"), format!("x{c}")] {
            for &case in cases {
                for algo in ALGOS {
                    let cfg = Cfg { algo, case, norm: c as u32 % 2 == 0, scheme: Scheme::Default };
                    let mut p1 = FzfParser::new();
                    let mut p2 = FzfParser::new();
                    let e = real::parse(&mut p1, true, cfg, &q);
                    let n = real::parse(&mut p2, false, cfg, &q);
                    let mut inst = Inst::with(cfg);
                    for f in &forms {
                        let s = format!("-x{f}");
                        let (mut b1, mut b2) = (vec![], vec![]);
                        let r1 = inst.ranges(cfg, &q, e, &s, &mut b1);
                        let r2 = inst.ranges(cfg, &q, n, &s, &mut b2);
                        ctx.counts.states += 1;
                        ctx.counts.calls += 2;
                        ctx.counts.compared += 1;
                        if (r1, &b1) != (r2, &b2) {
                            ctx.violation(
                                vec![op(cfg, false, &q, &s), op(cfg, true, &q, &s)],
                                show(&(r1, b1)),
                                show(&(r2, b2)),
                                "plain and extended parse of the same simple text",
                            );
                        }
                    }
                }
            }
        }
    };
    scalars(jobs, "plain = extended, every scalar", 0, LAST, 4096, f);
}

/// Literal queries of every length: the text itself, and with one character
/// missing or doubled.
pub fn plain_lengths(jobs: &mut Vec<Job>, max: usize) {
    for lo in (0..=max).step_by(20) {
        for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
            jobs.push(Job {
                family: "literal lengths",
                run: Box::new(move |ctx: &mut Ctx| {
                    for n in lo..(lo + 20).min(max + 1) {
                        for unit in ["a", "é", "a |", "!b^ ", "日 $"] {
                            let t: Vec<char> = unit.chars().cycle().take(n).collect();
                            let s: String = t.iter().collect();
                            let p = Probe::new(cfg, false, &s, DECISION | SCORE | MARKS);
                            let mut list = vec![s.clone(), format!("x{s}x")];
                            if n > 0 {
                                list.push(t[1..].iter().collect());
                                list.push(t[..n - 1].iter().collect());
                                list.push(format!("{}x{}", t[..n / 2].iter().collect::<String>(), t[n / 2..].iter().collect::<String>()));
                            }
                            p.walk(|w| {
                                for c in &list {
                                    if !ctx.full() {
                                        w.step(ctx, c, &chars(c));
                                    }
                                }
                            });
                        }
                    }
                }),
            });
        }
    }
}

/// Every candidate length up to `max`, a term at the start, across the
/// middle and at the end.
pub fn every_length(jobs: &mut Vec<Job>, cfgs: &[Cfg], max: usize) {
    let asp = DECISION | SCORE | MARKS | CONTRACT | AGREE;
    for &cfg in cfgs {
        for kind in KINDS {
            for q in ["a", "ab", "aé"] {
                for filler in ["x", "é", "xé-"] {
                    jobs.push(Job {
                        family: "every length",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let t = write_term(kind, false, q);
                            let p = Probe::new(cfg, true, &t, asp);
                            p.walk(|w| {
                                for n in 0..=max {
                                    let f: String = filler.chars().cycle().take(n).collect();
                                    let h: String = filler.chars().cycle().take(n / 2).collect();
                                    let a = &q[..1];
                                    let b = &q[1..];
                                    for c in [
                                        format!("{q}{f}"),
                                        format!("{f}{q}"),
                                        format!("{h}{q}{h}"),
                                        format!("{a}{f}{b}"),
                                        f.clone(),
                                    ] {
                                        if !ctx.full() {
                                            w.step(ctx, &c, &chars(&c));
                                        }
                                    }
                                }
                            });
                        }),
                    });
                }
            }
        }
    }
}

/// Long candidates with ASCII filler, and with wide filler of the same class.
pub fn representation_long(jobs: &mut Vec<Job>, cfgs: &[Cfg]) {
    for &cfg in cfgs {
        for q in ["a", "ab", "'ab", "^ab", "ab$", "abab", "a 'b", "!a"] {
            jobs.push(Job {
                family: "representation (long)",
                run: Box::new(move |ctx: &mut Ctx| {
                    let mut parser = FzfParser::new();
                    let parsed = real::parse(&mut parser, true, cfg, q);
                    let mut inst = Inst::with(cfg);
                    for n in (0..140).chain([200, 255, 256, 257, 600]) {
                        for (f, g) in [("x", "ж"), ("-", "—"), ("1", "٣"), ("x-", "ж—")] {
                            for m in 0..10 {
                                let make = |f: &str| {
                                    let x: String = f.chars().cycle().take(n).collect();
                                    match m {
                                        0 => format!("{x}ab"),
                                        1 => format!("ab{x}ab"),
                                        2 => format!("a{x}b"),
                                        3 => format!("a{x}bab{x}ab"),
                                        // Crowded with the query's own letters.
                                        4 => format!("{}-b{f}", "ab".repeat(n)),
                                        5 => format!("{f}a{}-b{f}", "b".repeat(n)),
                                        6 => format!("{f}{}{f}-ab", "a".repeat(n)),
                                        7 => format!("{}{f}", "b-a".repeat(n)),
                                        8 => format!("{f}{}ab", "b".repeat(n)),
                                        _ => format!("{}ab{f}", "a".repeat(n)),
                                    }
                                };
                                if ctx.full() {
                                    return;
                                }
                                let (s, o) = (make(f), make(g));
                                let run = |inst: &mut Inst, s: &str| {
                                    let mut buf = vec![];
                                    let r = inst.ranges(cfg, q, parsed, s, &mut buf);
                                    let mut m = vec![];
                                    let ok = check_shape(s, s.chars().count(), &buf, &mut m).is_ok();
                                    (r, m, ok)
                                };
                                let (x, y) = (run(&mut inst, &s), run(&mut inst, &o));
                                ctx.counts.states += 1;
                                ctx.counts.calls += 2;
                                ctx.counts.compared += 2;
                                ctx.outcome(hash_of((x.0, n)));
                                if x != y || !x.2 {
                                    ctx.violation(
                                        vec![op(cfg, true, q, &s), op(cfg, true, q, &o)],
                                        format!("{:?}", x.0),
                                        format!("{:?}", y.0),
                                        "an all-ASCII candidate and one that isn't: score or marks",
                                    );
                                }
                            }
                        }
                    }
                }),
            });
        }
    }
}

// ---------------------------------------------------------------- reused memory

/// A caller that keeps its texts in one buffer, so that every text it asks
/// about has the address of the previous one.
struct Slot(String);

impl Slot {
    fn new() -> Slot {
        Slot(String::with_capacity(4096))
    }

    fn put(&mut self, s: &str) -> &str {
        let at = self.0.as_ptr();
        self.0.clear();
        self.0.push_str(s);
        assert_eq!(at, self.0.as_ptr(), "the slot has moved");
        &self.0
    }
}

/// Every pair of candidates of the same length in bytes, one after the other
/// at the same address, asked of the same instance or of two (`clients`).
pub fn reused_candidates(jobs: &mut Vec<Job>, bytes: usize, clients: usize) {
    let mut by_len: HashMap<usize, Vec<String>> = HashMap::new();
    for s in all_strings(&chars("abA éÉ日"), 0, bytes) {
        if s.len() <= bytes {
            by_len.entry(s.len()).or_default().push(s);
        }
    }
    let by_len = Arc::new(by_len);
    let queries = ["a", "ab", "'b", "^a", "b$", "^ab$", "!a", "é", "e", "'É", "a | 'é", "b 'a"];
    for algo in ALGOS {
        for (case, norm, scheme) in [
            (Case::Smart, false, Scheme::Default),
            (Case::Insensitive, true, Scheme::Path),
            (Case::Sensitive, true, Scheme::History),
        ] {
            for query in queries {
                let cfg = Cfg { algo, case, norm, scheme };
                let by_len = by_len.clone();
                jobs.push(Job {
                    family: "candidates at one address",
                    run: Box::new(move |ctx: &mut Ctx| {
                        let mut parsers = [FzfParser::new(), FzfParser::new()];
                        let [p0, p1] = &mut parsers;
                        let parsed = [
                            real::parse(p0, true, cfg, query),
                            real::parse(p1, true, cfg, query),
                        ];
                        let mut insts = [Inst::with(cfg), Inst::with(cfg)];
                        let mut slot = Slot::new();
                        let mut buf = vec![];
                        for len in 0..=bytes {
                            let Some(list) = by_len.get(&len) else { continue };
                            let want: Vec<Answer> = list.iter().map(|c| fresh(cfg, true, query, c)).collect();
                            for a in 0..list.len() {
                                for b in 0..list.len() {
                                    if ctx.full() {
                                        return;
                                    }
                                    for (at, n) in [(0, a), (clients - 1, b)] {
                                        let c = slot.put(&list[n]);
                                        buf.clear();
                                        let r = insts[at].ranges(cfg, query, parsed[at], c, &mut buf);
                                        let d = insts[at].distance(cfg, query, parsed[at], c);
                                        ctx.counts.calls += 2;
                                        ctx.counts.compared += 1;
                                        ctx.outcome(hash_of((r, &buf)));
                                        if (r, &buf) != (want[n].0, &want[n].1) || r != d {
                                            ctx.violation(
                                                vec![op(cfg, true, query, &list[a]), op(cfg, true, query, &list[n])],
                                                show(&want[n]),
                                                format!("{} (alone: {d:?})", show(&(r, buf.clone()))),
                                                "two candidates, one after the other at the same address",
                                            );
                                        }
                                    }
                                    ctx.counts.states += 2;
                                    ctx.counts.traces += 1;
                                }
                            }
                        }
                        ctx.sample(|| format!("{query:?}, {cfg:?}: pairs of candidates of up to {bytes} bytes at one address"));
                    }),
                });
            }
        }
    }
}

/// The same for query texts: every pair of the same length, parsed one after
/// the other from the same address by the same parser or by two.
pub fn reused_queries(jobs: &mut Vec<Job>, bytes: usize, clients: usize) {
    let mut by_len: HashMap<usize, Vec<String>> = HashMap::new();
    for s in all_strings(&chars("abA é!^|\\"), 1, bytes) {
        if s.len() <= bytes {
            by_len.entry(s.len()).or_default().push(s);
        }
    }
    let cand_list: Vec<String> = ["", "a", "b", "ab", "ba", "A", "é", "a b", "|a", "!\\^ é"].iter().map(|s| s.to_string()).collect();
    let (by_len, cand_list) = (Arc::new(by_len), Arc::new(cand_list));
    for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
        for len in 1..=bytes {
            for modes in 0..4 {
                let n = by_len[&len].len();
                for lo in (0..n).step_by(60) {
                    let (by_len, cand_list) = (by_len.clone(), cand_list.clone());
                    jobs.push(Job {
                        family: "queries at one address",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let ext = [modes & 1 == 0, modes & 2 == 0];
                            let list = &by_len[&len];
                            let mut inst = Inst::with(cfg);
                            let want: Vec<Vec<Answer>> = list
                                .iter()
                                .map(|q| cand_list.iter().map(|c| fresh(cfg, ext[1], q, c)).collect())
                                .collect();
                            let mut parsers = [FzfParser::new(), FzfParser::new()];
                            let mut slot = Slot::new();
                            let mut buf = vec![];
                            for a in lo..(lo + 60).min(n) {
                                for b in 0..n {
                                    if ctx.full() {
                                        return;
                                    }
                                    real::parse(&mut parsers[0], ext[0], cfg, slot.put(&list[a]));
                                    let text = slot.put(&list[b]);
                                    let q = real::parse(&mut parsers[clients - 1], ext[1], cfg, text);
                                    ctx.counts.calls += 2;
                                    for (i, c) in cand_list.iter().enumerate() {
                                        buf.clear();
                                        let r = inst.ranges(cfg, text, q, c, &mut buf);
                                        ctx.counts.calls += 1;
                                        ctx.counts.compared += 1;
                                        ctx.outcome(hash_of((r, &buf)));
                                        let w = &want[b][i];
                                        if (r, &buf) != (w.0, &w.1) {
                                            ctx.violation(
                                                vec![op(cfg, ext[0], &list[a], c), op(cfg, ext[1], &list[b], c)],
                                                show(w),
                                                show(&(r, buf.clone())),
                                                "two queries parsed one after the other from the same address",
                                            );
                                        }
                                    }
                                    ctx.counts.states += 2;
                                    ctx.counts.traces += 1;
                                }
                            }
                            ctx.sample(|| format!("queries of {len} bytes after {:?} at one address", list[lo]));
                        }),
                    });
                }
            }
        }
    }
}

/// Texts of many lengths that differ in one place only, one after the other at
/// the same address: as queries in either mode, and as candidates.
pub fn reused_long(jobs: &mut Vec<Job>, queries: bool, clients: usize, thorough: bool) {
    let lens: Vec<usize> = if thorough { (5..=70).chain([127, 128, 129, 255, 256, 257, 300, 1024, 1025]).collect() } else { (5..=20).chain([31, 32, 33, 63, 64, 65, 128, 129, 257]).collect() };
    for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
        for &n in &lens {
            for wide in [false, true] {
                jobs.push(Job {
                    family: "long texts at one address",
                    run: Box::new(move |ctx: &mut Ctx| {
                        let base: Vec<char> = chars("abcdefghij").into_iter().cycle().take(n).collect();
                        let mut texts: Vec<String> = vec![base.iter().collect()];
                        // All of the same length in bytes, except when wide:
                        // then one is shorter in characters.
                        let step = (n / 40).max(1);
                        for at in (0..n).step_by(step).chain([n - 1]) {
                            let mut v = base.clone();
                            v[at] = if at % 3 == 0 { ' ' } else { 'X' };
                            texts.push(v.iter().collect());
                            if wide && at + 1 < n {
                                v.remove(at);
                                v[at] = '\u{e9}';
                                texts.push(v.iter().collect());
                            }
                        }
                        let modes: &[(bool, bool)] = if queries { &[(true, true), (false, false), (true, false), (false, true)] } else { &[(true, true)] };
                        let mut parsers = [FzfParser::new(), FzfParser::new()];
                        let mut insts = [Inst::with(cfg), Inst::with(cfg)];
                        let mut slot = Slot::new();
                        let mut buf = vec![];
                        for &(e1, e2) in modes {
                            for (i, second) in texts.iter().enumerate() {
                                let asked: Vec<(String, String)> = if queries {
                                    texts.iter().skip(i.saturating_sub(2)).take(4).chain(&texts[..1]).map(|c| (second.clone(), c.clone())).collect()
                                } else {
                                    vec![("bX".into(), second.clone()), ("ab".into(), second.clone()), ("'h".into(), second.clone()), ("j$".into(), second.clone())]
                                };
                                for (query, cand) in asked {
                                    let want = fresh(cfg, e2, &query, &cand);
                                    for first in [0, (i + 1) % texts.len(), texts.len() - 1] {
                                        if ctx.full() {
                                            return;
                                        }
                                        let first = &texts[first];
                                        let r = if queries {
                                            let q = real::parse(&mut parsers[0], e1, cfg, slot.put(first));
                                            insts[0].distance(cfg, first, q, first);
                                            let text = slot.put(&query);
                                            let q = real::parse(&mut parsers[clients - 1], e2, cfg, text);
                                            buf.clear();
                                            insts[clients - 1].ranges(cfg, text, q, &cand, &mut buf)
                                        } else {
                                            let q = real::parse(&mut parsers[1], e2, cfg, &query);
                                            insts[0].distance(cfg, &query, q, slot.put(first));
                                            buf.clear();
                                            insts[clients - 1].ranges(cfg, &query, q, slot.put(&cand), &mut buf)
                                        };
                                        ctx.counts.states += 2;
                                        ctx.counts.calls += 4;
                                        ctx.counts.compared += 1;
                                        ctx.counts.traces += 1;
                                        ctx.outcome(hash_of((r, &buf)));
                                        if (r, &buf) != (want.0, &want.1) {
                                            ctx.violation(
                                                vec![op(cfg, e1, if queries { first } else { &query }, first), op(cfg, e2, &query, &cand)],
                                                show(&want),
                                                show(&(r, buf.clone())),
                                                if queries { "two long queries parsed one after the other from the same address" } else { "two long candidates one after the other at the same address" },
                                            );
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                        ctx.sample(|| format!("texts of {n} characters at one address"));
                    }),
                });
            }
        }
    }
}

// -------------------------------------------------------------------- isolation

/// A client's call: set up the settings, parse, ask.
pub type Call = (Cfg, bool, &'static str, String);

/// Calls whose answers depend on each of the settings, on the kind of the
/// candidate and on what is in the buffers; the first `CORE` per metric are
/// the most different ones.
const CORE: usize = 5;

pub fn isolation_calls() -> Vec<Call> {
    let mut v: Vec<Call> = Vec::new();
    let cfg = |algo, case, norm, scheme| Cfg { algo, case, norm, scheme };
    use Case::*;
    for algo in ALGOS {
        let p = Cfg::plain(algo);
        v.push((p, true, "ab", format!("{}a-b", "x".repeat(150))));
        v.push((p, true, "a 'b | c", "éaxb".into()));
        v.push((cfg(algo, Sensitive, true, Scheme::Path), true, "aE", "/aÉ aE".into()));
        v.push((cfg(algo, Sensitive, false, Scheme::History), false, "a b", "a,a b".into()));
        v.push((cfg(algo, Insensitive, true, Scheme::Default), true, "E", "xé".into()));
    }
    for algo in ALGOS {
        let p = Cfg::plain(algo);
        for scheme in SCHEMES {
            v.push((cfg(algo, Smart, false, scheme), true, "a", "x,a".into()));
        }
        v.push((p, true, "'a", "xxA".into()));
        v.push((cfg(algo, Sensitive, false, Scheme::Default), true, "'a", "xxA".into()));
        v.push((p, false, "é", "xé".into()));
        v.push((p, true, "é | a", "aab".into()));
        // A letter or a number of each kind, behind a character of each kind.
        v.push((p, false, "\u{5d0}b\u{663}\u{e9}\u{65e5}\u{1c5}\u{2167}", "x\u{5d0}\u{663}b\u{2014}\u{663}\u{5d0}\u{e9}\u{2026}\u{e9}\u{65e5}a\u{1c5}\u{65e5}\u{3000}\u{2167}".into()));
    }
    v
}

/// Prints the answer of one call, asked in a process that has done nothing
/// else.
pub fn isolation_alone(n: usize) -> i32 {
    let calls = isolation_calls();
    let (cfg, e, q, t) = &calls[n];
    let (score, ranges) = fresh(*cfg, *e, q, t);
    let Some(score) = score else {
        println!("none");
        return 0;
    };
    print!("{score}");
    for r in ranges {
        print!(" {} {}", r.start, r.end);
    }
    println!();
    0
}

/// What `isolation_alone` prints, per call; `None` if it gave no answer.
pub fn answers_alone() -> Vec<Option<Answer>> {
    static ONCE: std::sync::OnceLock<Vec<Option<Answer>>> = std::sync::OnceLock::new();
    ONCE.get_or_init(ask_alone).clone()
}

fn ask_alone() -> Vec<Option<Answer>> {
    let exe = std::env::current_exe().expect("own path");
    (0..isolation_calls().len())
        .map(|n| {
            let out = std::process::Command::new(&exe)
                .args(["alone", &n.to_string()])
                .output()
                .ok()
                .filter(|o| o.status.success())?;
            let text = String::from_utf8(out.stdout).ok()?;
            let text = text.trim();
            if text == "none" {
                return Some((None, vec![]));
            }
            let v: Vec<i64> = text.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
            let ranges = v[1..].chunks(2).map(|c| c[0] as usize..c[1] as usize).collect();
            Some((Some(v[0]), ranges))
        })
        .collect()
}

struct Client {
    parser: FzfParser,
    insts: HashMap<u8, Inst>,
    buf: Ranges,
}

impl Client {
    fn new() -> Client {
        Client { parser: FzfParser::new(), insts: HashMap::new(), buf: vec![] }
    }

    fn call(&mut self, (cfg, e, q, t): (&Cfg, bool, &str, &str)) -> Answer {
        let parsed = real::parse(&mut self.parser, e, *cfg, q);
        let inst = self.insts.entry(cfg.algo as u8).or_insert_with(|| Inst::new(cfg.algo));
        inst.set(*cfg);
        self.buf.clear();
        let r = inst.ranges(*cfg, q, parsed, t, &mut self.buf);
        (r, self.buf.clone())
    }
}

/// Two clients, each with a parser and an instance of its own, and every
/// interleaving of their calls. Both keep their texts in the same memory, and
/// what each gets is compared with what a process that makes this one call and
/// nothing else gets.
pub fn isolation(jobs: &mut Vec<Job>, depth: usize, core: bool) {
    let mut calls = isolation_calls();
    let mut alone = answers_alone();
    if core {
        calls.truncate(2 * CORE);
        alone.truncate(2 * CORE);
    }
    let (calls, alone) = (Arc::new(calls), Arc::new(alone));
    let k = calls.len();
    for first in 0..k {
        for other in 0..k {
            let (calls, alone) = (calls.clone(), alone.clone());
            jobs.push(Job {
                family: "isolation",
                run: Box::new(move |ctx: &mut Ctx| {
                    // Each client's script: its first call fixed, the rest free.
                    let free = depth - 1;
                    let mut slots = [Slot::new(), Slot::new()];
                    for code in 0..k.pow(2 * free as u32) {
                        let scripts = scripts(first, other, code, k, free);
                        // Every merge of the two scripts.
                        for mask in 0u32..1 << (2 * depth) {
                            if mask.count_ones() as usize != depth {
                                continue;
                            }
                            if ctx.full() {
                                return;
                            }
                            let mut clients = [Client::new(), Client::new()];
                            let mut at = [0usize; 2];
                            let mut done = Vec::new();
                            for i in 0..2 * depth {
                                let who = (mask >> i & 1) as usize;
                                let n = scripts[who][at[who]];
                                at[who] += 1;
                                done.push(n);
                                let (cfg, e, q, t) = &calls[n];
                                let [sq, st] = &mut slots;
                                let got = clients[who].call((cfg, *e, sq.put(q), st.put(t)));
                                ctx.counts.calls += 2;
                                if !judge(ctx, &calls, &alone, &done, &got, &format!("interleaving {mask:b} of two clients")) {
                                    break;
                                }
                            }
                            ctx.counts.states += 2 * depth as u64;
                            ctx.counts.traces += 1;
                        }
                    }
                    ctx.sample(|| format!("clients starting with {:?} and {:?}", calls[first].2, calls[other].2));
                }),
            });
        }
    }
}

fn scripts(first: usize, other: usize, code: usize, k: usize, free: usize) -> [Vec<usize>; 2] {
    let mut scripts = [vec![first], vec![other]];
    let mut c = code;
    for _ in 0..free {
        for s in &mut scripts {
            s.push(c % k);
            c /= k;
        }
    }
    scripts
}

fn judge(ctx: &mut Ctx, calls: &[Call], alone: &[Option<Answer>], done: &[usize], got: &Answer, note: &str) -> bool {
    let n = *done.last().unwrap();
    ctx.counts.compared += 1;
    ctx.outcome(hash_of((got.0, &got.1, n)));
    if alone[n].as_ref() == Some(got) {
        return true;
    }
    let ops = done
        .iter()
        .map(|&n| {
            let (cfg, e, q, t) = &calls[n];
            op(*cfg, *e, q, t)
        })
        .collect();
    let want = alone[n].as_ref().map_or("no answer".to_string(), show);
    ctx.violation(ops, want, show(got), note);
    false
}

/// The same with each client on a thread of its own, the threads taking turns
/// call by call in every possible order.
pub fn isolation_threads(jobs: &mut Vec<Job>, depth: usize) {
    use std::sync::mpsc::channel;
    let calls = Arc::new(isolation_calls());
    let alone = Arc::new(answers_alone());
    // One metric is enough for the order of the threads; take every other
    // call.
    let pick: Arc<Vec<usize>> = Arc::new((0..calls.len()).filter(|n| n % 3 != 1).collect());
    let k = pick.len();
    for first in 0..k {
        for other in 0..k {
            let (calls, alone, pick) = (calls.clone(), alone.clone(), pick.clone());
            jobs.push(Job {
                family: "isolation across threads",
                run: Box::new(move |ctx: &mut Ctx| {
                    let free = depth - 1;
                    let base = crate::engine::MAX_THREADS / 2 - 2 - 2 * (crate::engine::slot() % 15);
                    std::thread::scope(|scope| {
                        // A client thread makes the calls it is sent; a
                        // negative number makes it start anew.
                        let mut ends = Vec::new();
                        for who in 0..2 {
                            let (to, work) = channel::<Option<usize>>();
                            let (reply, from) = channel::<Option<Answer>>();
                            let calls = calls.clone();
                            scope.spawn(move || {
                                crate::engine::use_slot(crate::engine::MAX_THREADS - 1 - base - who);
                                let mut client = Client::new();
                                for n in work {
                                    let Some(n) = n else {
                                        client = Client::new();
                                        continue;
                                    };
                                    let (cfg, e, q, t) = &calls[n];
                                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                        client.call((cfg, *e, q, t))
                                    }));
                                    crate::engine::idle();
                                    if reply.send(got.ok()).is_err() {
                                        return;
                                    }
                                }
                            });
                            ends.push((to, from));
                        }
                        for code in 0..k.pow(2 * free as u32) {
                            let scripts = scripts(first, other, code, k, free);
                            for mask in 0u32..1 << (2 * depth) {
                                if mask.count_ones() as usize != depth {
                                    continue;
                                }
                                if ctx.full() {
                                    return;
                                }
                                for (to, _) in &ends {
                                    let _ = to.send(None);
                                }
                                let mut at = [0usize; 2];
                                let mut done = Vec::new();
                                for i in 0..2 * depth {
                                    let who = (mask >> i & 1) as usize;
                                    let n = pick[scripts[who][at[who]]];
                                    at[who] += 1;
                                    done.push(n);
                                    let _ = ends[who].0.send(Some(n));
                                    let got = ends[who].1.recv().ok().flatten();
                                    ctx.counts.calls += 2;
                                    // No answer at all differs from any.
                                    let got = got.unwrap_or((Some(i64::MIN), vec![]));
                                    if !judge(ctx, &calls, &alone, &done, &got, &format!("interleaving {mask:b} of two clients on two threads")) {
                                        break;
                                    }
                                }
                                ctx.counts.states += 2 * depth as u64;
                                ctx.counts.traces += 1;
                            }
                        }
                    });
                    ctx.sample(|| format!("threads starting with {:?} and {:?}", calls[pick[first]].2, calls[pick[other]].2));
                }),
            });
        }
    }
}

/// Everything that can be printed, printed.
pub fn debug_totality(jobs: &mut Vec<Job>) {
    for algo in ALGOS {
        jobs.push(Job {
            family: "printing",
            run: Box::new(move |ctx: &mut Ctx| {
                let mut parser = FzfParser::new();
                for code in 0..36 {
                    let cfg = Cfg::decode(code);
                    if cfg.algo != algo {
                        continue;
                    }
                    let inst = Inst::with(cfg);
                    crate::engine::announce("Debug of the metric", cfg, "", "");
                    let s = inst.debug();
                    crate::engine::idle();
                    ctx.counts.calls += 1;
                    ctx.outcome(hash_of(s));
                }
                let cfg = Cfg::plain(algo);
                strings(&chars("a \\|!'^$"), 0, 4, |s, _| {
                    for ext in [true, false] {
                        let q = real::parse(&mut parser, ext, cfg, s);
                        crate::engine::announce("Debug of the query", cfg, s, "");
                        let t = format!("{q:?} {:?}", FzfDistance::default());
                        crate::engine::idle();
                        ctx.counts.states += 1;
                        ctx.counts.calls += 2;
                        ctx.counts.compared += 1;
                        ctx.outcome(hash_of(t));
                    }
                });
            }),
        });
    }
}
