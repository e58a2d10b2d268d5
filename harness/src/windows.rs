//! Long histories that contain every window of a few steps: de Bruijn
//! sequences over a set of steps, walked by objects that live throughout.
//! Every step's answer is compared with that of fresh objects (or of the
//! model), so each window is judged in the state that a long life has left.

use std::collections::HashMap;
use std::sync::Arc;

use norm::fzf::FzfParser;

use crate::custom::{fresh, op, show, Answer};
use crate::engine::{hash_of, Ctx, Job, Op};
use crate::families::chars;
use crate::model::{self, Algo, Case, Cfg, Scheme, ALGOS, CASES, SCHEMES};
use crate::oracle::show_ranges;
use crate::real::{self, Inst, Ranges};

/// A shortest cyclic sequence over `0..k` that contains every window of `n`,
/// unrolled so that the last windows are complete.
pub fn de_bruijn(k: usize, n: usize) -> Vec<u32> {
    // Concatenation of the Lyndon words whose length divides n, in order.
    let mut out = Vec::new();
    let mut w: Vec<usize> = vec![0];
    loop {
        if n % w.len() == 0 {
            out.extend(w.iter().map(|&x| x as u32));
        }
        let len = w.len();
        for i in len..n {
            w.push(w[i - len]);
        }
        while w.last() == Some(&(k - 1)) {
            w.pop();
        }
        match w.last_mut() {
            None => break,
            Some(x) => *x += 1,
        }
    }
    for i in 0..n - 1 {
        out.push(out[i]);
    }
    out
}

/// One call, with everything that governs its answer.
#[derive(Clone)]
pub struct Ask {
    pub cfg: Cfg,
    pub ext: bool,
    pub query: String,
    pub cand: String,
    /// Asks for the ranges, too.
    pub ranges: bool,
}

/// Walks one instance along all windows of `n` of the asks.
fn walk_asks(ctx: &mut Ctx, algo: Algo, asks: &[Ask], n: usize, what: &str) {
    let mut parsers: Vec<FzfParser> = asks.iter().map(|_| FzfParser::new()).collect();
    let parsed: Vec<_> = parsers
        .iter_mut()
        .zip(asks)
        .map(|(p, a)| real::parse(p, a.ext, a.cfg, &a.query))
        .collect();
    let want: Vec<Answer> = asks.iter().map(|a| fresh(a.cfg, a.ext, &a.query, &a.cand)).collect();
    let mut inst = Inst::new(algo);
    let mut cfg = Cfg::plain(algo);
    let mut buf: Ranges = Vec::new();
    let seq = de_bruijn(asks.len(), n);
    for (at, &i) in seq.iter().enumerate() {
        let a = &asks[i as usize];
        // Only what differs is set.
        if a.cfg.case != cfg.case {
            inst.set_case(a.cfg.case);
        }
        if a.cfg.norm != cfg.norm {
            inst.set_norm(a.cfg.norm);
        }
        if a.cfg.scheme != cfg.scheme {
            inst.set_scheme(a.cfg.scheme);
        }
        cfg = a.cfg;
        let (score, ranges) = &want[i as usize];
        let ok;
        let got;
        if a.ranges {
            buf.clear();
            let r = inst.ranges(cfg, &a.query, parsed[i as usize], &a.cand, &mut buf);
            ok = r == *score && buf == *ranges;
            got = r;
        } else {
            got = inst.distance(cfg, &a.query, parsed[i as usize], &a.cand);
            ok = got == *score;
        }
        ctx.counts.states += 1;
        ctx.counts.calls += 1;
        ctx.counts.compared += 1;
        if !ok {
            let from = at.saturating_sub(n + 1);
            let ops: Vec<Op> = seq[from..=at]
                .iter()
                .map(|&i| &asks[i as usize])
                .map(|a| op(a.cfg, a.ext, &a.query, &a.cand))
                .collect();
            ctx.violation(
                ops,
                show(&want[i as usize]),
                format!("{got:?} {}", if a.ranges { show_ranges(&buf) } else { String::new() }),
                format!("call {at} in the life of one instance ({what}); these are the last ones"),
            );
            return;
        }
        ctx.outcome(hash_of((got, i)));
    }
    ctx.counts.traces += 1;
    ctx.sample(|| format!("{algo:?} {what}: one life of {} calls, every window of {n} of {}", seq.len(), asks.len()));
}

fn settings_of(algo: Algo, i: usize) -> Cfg {
    Cfg { algo, case: CASES[i % 3], norm: i / 3 % 2 == 1, scheme: SCHEMES[(i / 6 + i) % 3] }
}

/// Queries by candidates, each under several settings.
pub fn ask_pool(algo: Algo, big: bool, every: usize) -> Vec<Ask> {
    let s = |x: &str| x.to_string();
    let mut queries: Vec<(bool, String)> = [
        "a", "ab", "aB", "é", "'ab", "^a", "b$", "^ab$", "!a", "!'b", "a b", "a | 'b é", "a\\ b", "",
    ]
    .iter()
    .map(|q| (true, s(q)))
    .collect();
    queries.push((false, s("a b")));
    queries.push((false, s("!a")));
    let mut cands: Vec<String> =
        ["", "a", "ab", "xa-b", "A B", "éa日b", "/a/b", " ab ", "ÀB1", "ba"].iter().map(|c| s(c)).collect();
    cands.push("a".repeat(130));
    cands.push(format!("{}ab", "x".repeat(150)));
    cands.push(format!("{}a b", "é".repeat(140)));
    if big {
        queries.push((true, "ab".repeat(40)));
        queries.push((false, "ab".repeat(35)));
        cands.push("ab".repeat(100));
        cands.push(format!("a{}b{}", "-".repeat(300), "x".repeat(300)));
    }
    let mut out = Vec::new();
    let mut i = 0;
    for (ext, q) in &queries {
        for c in &cands {
            for turn in 0..2 {
                i += 1;
                if i % every != 0 {
                    continue;
                }
                out.push(Ask {
                    cfg: settings_of(algo, i * 7 + turn),
                    ext: *ext,
                    query: q.clone(),
                    cand: c.clone(),
                    ranges: (i + turn) % 3 != 0,
                });
            }
        }
    }
    out
}

/// Matrix sizes: queries and candidates of chosen lengths, ASCII and wide.
pub fn size_pool(algo: Algo, rows: &[usize], cols: &[usize]) -> Vec<Ask> {
    let mut out = Vec::new();
    for &m in rows {
        for &n in cols {
            for wide in [false, true] {
                if n < m {
                    continue;
                }
                // The query's letters spread over the candidate.
                let query: String = "abc".chars().cycle().take(m).collect();
                let gap = (n - m) / m;
                let mut cand = String::new();
                for c in query.chars() {
                    for _ in 0..gap {
                        cand.push(if wide { 'ж' } else { 'x' });
                    }
                    cand.push(c);
                }
                let rest = n - m - gap * m;
                cand.extend(std::iter::repeat_n('-', rest));
                out.push(Ask { cfg: Cfg::plain(algo), ext: true, query, cand, ranges: (m + n) % 4 != 0 });
            }
        }
    }
    out
}

pub fn instance_lives(jobs: &mut Vec<Job>, thorough: bool) {
    let th = thorough;
    for algo in ALGOS {
        let mut pools: Vec<(&'static str, Vec<Ask>, usize)> = vec![
            ("pairs", ask_pool(algo, true, 1), 2),
            ("misses, pairs", miss_pool(algo), 2),
            ("triples", ask_pool(algo, true, if th { 6 } else { 11 }), 3),
            (
                "sizes, pairs",
                size_pool(
                    algo,
                    &[1, 2, 3, 5, 17, 33, 64, 65, 130],
                    if th { &[1, 2, 3, 40, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 600, 1025] } else { &[1, 3, 40, 64, 65, 128, 129, 257, 600] },
                ),
                2,
            ),
            ("sizes, triples", size_pool(algo, &[1, 2, 33, 65], if th { &[2, 40, 65, 128, 129, 300] } else { &[2, 65, 128, 129] }), 3),
        ];
        if th {
            pools.push(("quadruples", ask_pool(algo, false, 17), 4));
        } else {
            pools.push(("quadruples", ask_pool(algo, false, 26), 4));
        }
        for (what, asks, n) in pools {
            jobs.push(Job {
                family: "lives of an instance",
                run: Box::new(move |ctx: &mut Ctx| walk_asks(ctx, algo, &asks, n, what)),
            });
        }
    }
}

/// How many calls apart two calls are, so that whatever counts them has come
/// round.
fn periods(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=300).collect();
    v.extend([511, 512, 513, 999, 1_000, 1_001, 1_023, 1_024, 1_025, 4_095, 4_096, 4_097, 10_000]);
    v.extend(32_766..=32_769);
    v.extend(65_534..=65_537);
    if thorough {
        v.extend([99_999, 100_000, 131_071, 131_072, 131_073, 1_000_000, 1_048_575, 1_048_576, 1_048_577]);
    }
    v
}

/// Two calls that use much, with a number of small ones between them, on an
/// instance that is new.
pub fn recurrences(jobs: &mut Vec<Job>, thorough: bool) {
    let long = ".".repeat(130);
    let cands = [
        "a.b.-c".to_string(),
        "a.b..c".into(),
        "-abcaB c".into(),
        "\u{e9}a.b-c".into(),
        "\u{65e5}aab b.cc".into(),
        format!("a{long}-b-{long}c"),
        format!("ab-{long}..b{long}-c"),
        format!("\u{e9}a{long}-b \u{416}{long}c"),
    ];
    for algo in ALGOS {
        for (small, cfg_small) in [(("xy", "xy"), Cfg::plain(algo)), (("y", "\u{e9}y"), Cfg::plain(algo))] {
            for first in 0..cands.len() {
                let cands = cands.clone();
                let periods: Vec<usize> = periods(thorough).into_iter().filter(|&k| small.0 == "xy" || k <= 1025).collect();
                jobs.push(Job {
                    family: "recurrences",
                    run: Box::new(move |ctx: &mut Ctx| {
                        let cfg = Cfg::plain(algo);
                        let (mut p1, mut p2) = (FzfParser::new(), FzfParser::new());
                        let big = real::parse(&mut p1, true, cfg, "abc");
                        let little = real::parse(&mut p2, true, cfg_small, small.0);
                        let want: Vec<Answer> = cands.iter().map(|c| fresh(cfg, true, "abc", c)).collect();
                        let want_small = fresh(cfg_small, true, small.0, small.1);
                        let mut buf: Ranges = Vec::new();
                        // Beyond this, only some of the second calls.
                        for &k in &periods {
                            for second in 0..cands.len() {
                                if k > 1025 && (first + second) % 3 != k % 3 {
                                    continue;
                                }
                                if k > 70_000 && (first, second) != (k % 5, (k + 1) % 5) {
                                    continue;
                                }
                                if ctx.full() {
                                    return;
                                }
                                let mut inst = Inst::with(cfg);
                                inst.distance(cfg, "abc", big, &cands[first]);
                                let mut bad = None;
                                for at in 1..k {
                                    let d = inst.distance(cfg_small, small.0, little, small.1);
                                    if d != want_small.0 {
                                        bad = Some((at, op(cfg_small, true, small.0, small.1), show(&want_small), format!("{d:?}")));
                                        break;
                                    }
                                }
                                buf.clear();
                                let r = inst.ranges(cfg, "abc", big, &cands[second], &mut buf);
                                ctx.counts.states += 1;
                                ctx.counts.calls += k as u64 + 1;
                                ctx.counts.compared += k as u64;
                                ctx.counts.traces += 1;
                                if bad.is_none() && (r != want[second].0 || buf != want[second].1) {
                                    bad = Some((k, op(cfg, true, "abc", &cands[second]), show(&want[second]), show(&(r, buf.clone()))));
                                }
                                if let Some((at, o, want, got)) = bad {
                                    ctx.violation(
                                        vec![op(cfg, true, "abc", &cands[first]), op(cfg_small, true, small.0, small.1), o],
                                        want,
                                        got,
                                        format!("call {at} after the first one, the ones between them being the second one"),
                                    );
                                    return;
                                }
                            }
                        }
                        ctx.outcome(hash_of((first, &want[first])));
                        ctx.sample(|| format!("{algo:?}: {:?} again after {:?} calls", cands[first], periods));
                    }),
                });
            }
        }
    }
}

/// Two calls with a number of steps between them that do not ask that instance
/// anything: parses by the same or another parser, calls of other instances,
/// settings set to what they are, copies.
pub fn sleepers(jobs: &mut Vec<Job>, thorough: bool) {
    // The calls differ in the query, in the candidate or in both.
    let pairs = [(("a", "ab"), ("z", "ab")), (("b", "ab"), ("a", "ab")), (("a", "xa"), ("a", "ax")), (("a", "\u{e9}a"), ("b", "\u{e9}b")), (("b", "a"), ("a", "a"))];
    for algo in ALGOS {
        for kind in 0..7 {
            for (pi, (one, two)) in pairs.into_iter().enumerate() {
                let periods: Vec<usize> = periods(thorough).into_iter().filter(|&k| k <= if kind > 3 { 1025 } else if thorough { 140_000 } else { 65_537 }).collect();
                jobs.push(Job {
                    family: "calls with other steps between them",
                    run: Box::new(move |ctx: &mut Ctx| {
                        let cfg = Cfg::plain(algo);
                        let want = fresh(cfg, true, two.0, two.1);
                        let steps = ["parses by the same parser", "parses by another parser", "calls of another instance", "settings", "calls of the other metric", "copies of the instance", "new parsers"];
                        for &k in &periods {
                            // Before, at and after k; the small ones cover
                            // their neighbours themselves.
                            for ranges in [false, true] {
                                if ctx.full() {
                                    return;
                                }
                                if k > 1025 && ranges != (pi % 2 == 0) {
                                    continue;
                                }
                                let mut inst = Inst::with(cfg);
                                let mut other = Inst::with(cfg);
                                let mut another = Inst::with(Cfg::plain(if algo == Algo::V1 { Algo::V2 } else { Algo::V1 }));
                                let (mut p1, mut p2) = (FzfParser::new(), FzfParser::new());
                                let mut buf: Ranges = Vec::new();
                                let q = real::parse(&mut p1, true, cfg, one.0);
                                inst.distance(cfg, one.0, q, one.1);
                                inst.ranges(cfg, one.0, q, one.1, &mut buf);
                                for _ in 1..k {
                                    match kind {
                                        0 => {
                                            real::parse(&mut p1, true, cfg, "c");
                                        },
                                        1 => {
                                            real::parse(&mut p2, true, cfg, "c");
                                        },
                                        2 => {
                                            let q = real::parse(&mut p2, true, cfg, "c");
                                            other.distance(cfg, "c", q, "\u{e9}c");
                                        },
                                        3 => {
                                            inst.set_case(cfg.case);
                                        },
                                        4 => {
                                            let q = real::parse(&mut p2, true, cfg, "c");
                                            another.distance(cfg, "c", q, "\u{e9}c");
                                        },
                                        5 => {
                                            let copy = inst.clone();
                                            inst = copy;
                                        },
                                        _ => {
                                            p2 = FzfParser::new();
                                        },
                                    }
                                }
                                let q = real::parse(if kind == 1 { &mut p2 } else { &mut p1 }, true, cfg, two.0);
                                buf.clear();
                                let got = if ranges { inst.ranges(cfg, two.0, q, two.1, &mut buf) } else { inst.distance(cfg, two.0, q, two.1) };
                                ctx.counts.states += 1;
                                ctx.counts.calls += k as u64 + 3;
                                ctx.counts.compared += 1;
                                ctx.counts.traces += 1;
                                if got != want.0 || (ranges && buf != want.1) {
                                    ctx.violation(
                                        vec![op(cfg, true, one.0, one.1), op(cfg, true, two.0, two.1)],
                                        show(&want),
                                        show(&(got, buf)),
                                        format!("the second call after the first and {} {}", k - 1, steps[kind]),
                                    );
                                    return;
                                }
                            }
                        }
                        ctx.outcome(hash_of((kind, pi)));
                        ctx.sample(|| format!("{algo:?}: {one:?}, up to {:?} {}, {two:?}", periods.last(), steps[kind]));
                    }),
                });
            }
        }
    }
}

/// The same for parses.
pub fn parser_recurrences(jobs: &mut Vec<Job>, thorough: bool) {
    let texts: [(bool, String); 6] = [
        (true, "abc 'de | ^f !g$".into()),
        (true, "x\\ y | \u{e9}z a b".into()),
        (false, "abc 'de | ^f !g$".into()),
        (false, "\u{e9}\u{65e5} x".into()),
        (true, "a b ".repeat(70)),
        (true, "B\u{416}".repeat(70)),
    ];
    for first in 0..texts.len() {
        let texts = texts.clone();
        let periods = periods(thorough);
        jobs.push(Job {
            family: "recurrences of parses",
            run: Box::new(move |ctx: &mut Ctx| {
                let cfg = Cfg::plain(Algo::V1);
                let cands: Vec<String> = texts.iter().map(|(_, t)| format!("f{}de x yabc", t.replace(['\\', '|', '!', '\'', '^'], ""))).collect();
                let want: Vec<Vec<Answer>> = texts.iter().map(|(e, t)| cands.iter().map(|c| fresh(cfg, *e, t, c)).collect()).collect();
                let mut buf: Ranges = Vec::new();
                for &k in &periods {
                    for second in 0..texts.len() {
                        if ctx.full() {
                            return;
                        }
                        if k > 70_000 && second != k % 6 {
                            continue;
                        }
                        let mut parser = FzfParser::new();
                        let mut inst = Inst::with(cfg);
                        real::parse(&mut parser, texts[first].0, cfg, &texts[first].1);
                        for _ in 1..k {
                            real::parse(&mut parser, true, cfg, "q");
                        }
                        let (ext, text) = &texts[second];
                        let q = real::parse(&mut parser, *ext, cfg, text);
                        ctx.counts.states += 1;
                        ctx.counts.calls += k as u64 + 1;
                        ctx.counts.traces += 1;
                        for (c, want) in cands.iter().zip(&want[second]) {
                            buf.clear();
                            let r = inst.ranges(cfg, text, q, c, &mut buf);
                            ctx.counts.calls += 1;
                            ctx.counts.compared += 1;
                            if r != want.0 || buf != want.1 {
                                ctx.violation(
                                    vec![op(cfg, texts[first].0, &texts[first].1, ""), op(cfg, true, "q", ""), op(cfg, *ext, text, c)],
                                    show(want),
                                    show(&(r, buf)),
                                    format!("parse {k} after the first one, the ones between them being the second one"),
                                );
                                return;
                            }
                        }
                    }
                }
                ctx.outcome(hash_of((first, &want[first])));
                ctx.sample(|| format!("{:?} again after {:?} parses", texts[first], periods));
            }),
        });
    }
}

/// A parser's life: every window of parses, in both modes.
pub fn parser_lives(jobs: &mut Vec<Job>, thorough: bool) {
    let mut texts: Vec<(bool, String)> = Vec::new();
    for ext in [true, false] {
        for t in [
            "", "a", "ab", "!a", "'ab", "^a b$", "a | b", "a\\ b", "é 日", "A", "a b c d e f g h", "!'a", "|", "b | !c a",
            "  a  ", "a\\", "a |", "| a", "^a$", "!^b", "a | b | c", "x y | z", "'é | ^日 a", "\\ a", "a\\|b", "B !'É",
        ] {
            texts.push((ext, t.into()));
        }
        for n in [20, 63, 64, 65, 130] {
            for unit in ["a", "é", "a ", "ab | ", "!z ", "a\\ "] {
                texts.push((ext, unit.repeat(n) + "b"));
            }
        }
    }
    let few: Vec<(bool, String)> = texts.iter().step_by(if thorough { 2 } else { 4 }).cloned().collect();
    let four: Vec<(bool, String)> = texts.iter().step_by(if thorough { 7 } else { 10 }).cloned().collect();
    for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
        for (what, texts, n) in [("pairs", &texts, 2), ("triples", &few, 3), ("quadruples", &four, 4)] {
            let texts = Arc::new(texts.clone());
            jobs.push(Job {
                family: "lives of a parser",
                run: Box::new(move |ctx: &mut Ctx| {
                    let cands: Vec<Vec<String>> = texts
                        .iter()
                        .map(|(ext, t)| {
                            let plain = t.replace(['\\', '|', '!', '\'', '^', '$'], "");
                            let _ = ext;
                            vec![t.clone(), plain.replace(' ', "x"), "xab é日".into()]
                        })
                        .collect();
                    let want: Vec<Vec<Answer>> = texts
                        .iter()
                        .zip(&cands)
                        .map(|((e, t), cs)| cs.iter().map(|c| fresh(cfg, *e, t, c)).collect())
                        .collect();
                    let seq = de_bruijn(texts.len(), n);
                    let mut parser = FzfParser::new();
                    let mut inst = Inst::with(cfg);
                    let mut buf: Ranges = Vec::new();
                    for (at, &i) in seq.iter().enumerate() {
                        let i = i as usize;
                        let (ext, text) = &texts[i];
                        let q = real::parse(&mut parser, *ext, cfg, text);
                        ctx.counts.calls += 1;
                        for (c, want) in cands[i].iter().zip(&want[i]) {
                            buf.clear();
                            let r = inst.ranges(cfg, text, q, c, &mut buf);
                            ctx.counts.calls += 1;
                            ctx.counts.compared += 1;
                            if r != want.0 || buf != want.1 {
                                let from = at.saturating_sub(n + 1);
                                let ops = seq[from..=at]
                                    .iter()
                                    .map(|&i| &texts[i as usize])
                                    .map(|(e, t)| op(cfg, *e, t, c))
                                    .collect();
                                ctx.violation(
                                    ops,
                                    show(want),
                                    show(&(r, buf)),
                                    format!("parse {at} in the life of one parser ({what}); these are the last ones"),
                                );
                                return;
                            }
                            ctx.outcome(hash_of((r, i)));
                        }
                        ctx.counts.states += 1;
                    }
                    ctx.counts.traces += 1;
                    ctx.sample(|| format!("{what}: one life of {} parses, every window of {n} of {}", seq.len(), texts.len()));
                }),
            });
        }
    }
}

/// An instance whose settings change between calls: every window of setters
/// and probes; the model answers at the last values.
pub fn setting_lives(jobs: &mut Vec<Job>, n: usize) {
    let probes: [(&str, &str); 15] = [
        ("a", "A"),
        ("A", "a"),
        ("A", "A"),
        ("e", "é"),
        ("e", "É"),
        ("É", "é"),
        ("é", "É"),
        ("a", "xx a"),
        ("a", "xx/a"),
        ("a", "xx,a"),
        ("ab", "x/a b"),
        ("'ab", "x/ab AB"),
        ("^A", "a"),
        ("!A", "a"),
        ("'e n$", "Éñ"),
    ];
    for &algo in real::built() {
        jobs.push(Job {
            family: "lives under changing settings",
            run: Box::new(move |ctx: &mut Ctx| {
                let mut parsers: Vec<FzfParser> = probes.iter().map(|_| FzfParser::new()).collect();
                let parsed: Vec<_> = parsers
                    .iter_mut()
                    .zip(probes)
                    .map(|(p, (q, _))| real::parse(p, true, Cfg::plain(algo), q))
                    .collect();
                let mut memo: HashMap<(usize, usize), Option<i64>> = HashMap::new();
                let mut inst = Inst::new(algo);
                let mut cfg = Cfg::plain(algo);
                let seq = de_bruijn(8 + probes.len(), n);
                for (at, &s) in seq.iter().enumerate() {
                    let s = s as usize;
                    ctx.counts.calls += 1;
                    match s {
                        0..=2 => {
                            cfg.case = CASES[s];
                            inst.set_case(CASES[s]);
                        },
                        3 | 4 => {
                            cfg.norm = s == 3;
                            inst.set_norm(s == 3);
                        },
                        5..=7 => {
                            cfg.scheme = SCHEMES[s - 5];
                            inst.set_scheme(SCHEMES[s - 5]);
                        },
                        _ => {
                            let (q, c) = probes[s - 8];
                            let r = inst.distance(cfg, q, parsed[s - 8], c);
                            let want = *memo
                                .entry((s, cfg.code()))
                                .or_insert_with(|| model::eval(&model::parse(q), &chars(c), cfg).map(|o| o.score));
                            ctx.counts.states += 1;
                            ctx.counts.compared += 1;
                            ctx.outcome(hash_of((r, s)));
                            if r != want {
                                ctx.violation(
                                    vec![op(cfg, true, q, c)],
                                    format!("{want:?}"),
                                    format!("{r:?}"),
                                    format!("after the steps {:?} (0-2 case, 3-4 normalization, 5-7 scheme, others probes)", &seq[at.saturating_sub(12)..at]),
                                );
                                return;
                            }
                        },
                    }
                }
                ctx.counts.traces += 1;
                ctx.sample(|| format!("{algo:?} one life of {} setters and probes, every window of {n}", seq.len()));
            }),
        });
    }
}

/// Two instances whose settings change and that are copied onto each other, in
/// every way: every window of setters, copies and probes; the model answers at
/// the last values of each.
pub fn copy_lives(jobs: &mut Vec<Job>, n: usize) {
    let long = format!("{}é", "x/".repeat(70));
    let probes: Vec<(&str, String)> = vec![("a", "A".into()), ("e", "xÉ".into()), ("A", "a".into()), ("a", "x/a".into()), ("e", long)];
    const EDITS: usize = 8 + 5;
    for &algo in real::built() {
        let probes = probes.clone();
        jobs.push(Job {
            family: "lives of copies",
            run: Box::new(move |ctx: &mut Ctx| {
                let mut parsers: Vec<FzfParser> = probes.iter().map(|_| FzfParser::new()).collect();
                let parsed: Vec<_> = parsers
                    .iter_mut()
                    .zip(&probes)
                    .map(|(p, (q, _))| real::parse(p, true, Cfg::plain(algo), q))
                    .collect();
                let mut memo: HashMap<(usize, usize), Option<i64>> = HashMap::new();
                let mut cur = (Inst::new(algo), Cfg::plain(algo));
                let mut other = (Inst::new(algo), Cfg::plain(algo));
                let seq = de_bruijn(EDITS + probes.len(), n);
                for (at, &s) in seq.iter().enumerate() {
                    let s = s as usize;
                    ctx.counts.calls += 1;
                    match s {
                        0..=2 => {
                            cur.1.case = CASES[s];
                            cur.0.set_case(CASES[s]);
                        },
                        3 | 4 => {
                            cur.1.norm = s == 3;
                            cur.0.set_norm(s == 3);
                        },
                        5..=7 => {
                            cur.1.scheme = SCHEMES[s - 5];
                            cur.0.set_scheme(SCHEMES[s - 5]);
                        },
                        8 => std::mem::swap(&mut cur, &mut other),
                        9 => other = cur.clone(),
                        10 => {
                            other.0.copy_from(&cur.0);
                            other.1 = cur.1;
                        },
                        11 => {
                            let taken = cur.0.take();
                            cur.0 = taken;
                        },
                        12 => {
                            // The copy takes its original's place.
                            cur.0 = cur.0.clone();
                        },
                        _ => {
                            let (q, c) = &probes[s - EDITS];
                            let cfg = cur.1;
                            let r = cur.0.distance(cfg, q, parsed[s - EDITS], c);
                            let want = *memo
                                .entry((s, cfg.code()))
                                .or_insert_with(|| model::eval(&model::parse(q), &chars(c), cfg).map(|o| o.score));
                            ctx.counts.states += 1;
                            ctx.counts.compared += 1;
                            ctx.outcome(hash_of((r, s)));
                            if r != want {
                                ctx.violation(
                                    vec![op(cfg, true, q, c)],
                                    format!("{want:?}"),
                                    format!("{r:?}"),
                                    format!(
                                        "after the steps {:?} (0-2 case, 3-4 normalization, 5-7 scheme, 8 swap, 9 clone, 10 clone_from, 11 take, 12 replaced by its clone, others probes)",
                                        &seq[at.saturating_sub(12)..at]
                                    ),
                                );
                                return;
                            }
                        },
                    }
                }
                ctx.counts.traces += 1;
                ctx.sample(|| format!("{algo:?} one life of {} setters, copies and probes, every window of {n}", seq.len()));
            }),
        });
    }
}

/// Queries whose characters the candidates have only some of, or in the wrong
/// order, at every size of candidate.
pub fn miss_pool(algo: Algo) -> Vec<Ask> {
    let mut out = Vec::new();
    for q in ["abcde", "'abcde", "^abcde", "abcde$", "!abcde", "abc | abcde 'ab", "éabcd"] {
        for n in [5usize, 17, 33, 65, 129, 300] {
            for (head, tail) in [("", "abcd"), ("abcd", ""), ("edcba", "ab"), ("ab", "cé"), ("abcd", "abcd")] {
                let pad = n.saturating_sub(head.chars().count() + tail.chars().count());
                let i = out.len();
                out.push(Ask {
                    cfg: settings_of(algo, i / 3),
                    ext: true,
                    query: q.into(),
                    cand: format!("{head}{}{tail}", ["-", "x", "é"][i % 3].repeat(pad)),
                    ranges: i % 2 == 0,
                });
            }
        }
    }
    out
}

/// Several users with objects of their own: every window of their calls.
pub fn client_lives(jobs: &mut Vec<Job>, clients: usize, n: usize, every: usize) {
    for algo in ALGOS {
        let mut asks: Vec<Ask> = ask_pool(algo, true, every);
        // Users of the other metric are users, too.
        let other = ALGOS[1 - algo as usize];
        for (i, a) in asks.iter_mut().enumerate() {
            if i % 3 == 2 {
                a.cfg.algo = other;
            }
            if i % 4 == 1 {
                a.cfg = Cfg { case: Case::Insensitive, norm: true, scheme: Scheme::Path, ..a.cfg };
            }
        }
        jobs.push(Job {
            family: "lives of several users",
            run: Box::new(move |ctx: &mut Ctx| {
                let want: Vec<Answer> = asks.iter().map(|a| fresh(a.cfg, a.ext, &a.query, &a.cand)).collect();
                let mut users: Vec<(FzfParser, [Option<Inst>; 2])> =
                    (0..clients).map(|_| (FzfParser::new(), [None, None])).collect();
                let seq = de_bruijn(asks.len() * clients, n);
                let mut buf: Ranges = Vec::new();
                for (at, &s) in seq.iter().enumerate() {
                    let (who, i) = (s as usize % clients, s as usize / clients);
                    let a = &asks[i];
                    let (parser, insts) = &mut users[who];
                    let q = real::parse(parser, a.ext, a.cfg, &a.query);
                    let inst = insts[a.cfg.algo as usize].get_or_insert_with(|| Inst::new(a.cfg.algo));
                    inst.set(a.cfg);
                    buf.clear();
                    let r = inst.ranges(a.cfg, &a.query, q, &a.cand, &mut buf);
                    ctx.counts.states += 1;
                    ctx.counts.calls += 2;
                    ctx.counts.compared += 1;
                    ctx.outcome(hash_of((r, i)));
                    if r != want[i].0 || buf != want[i].1 {
                        let ops = seq[at.saturating_sub(n + 1)..=at]
                            .iter()
                            .map(|&s| &asks[s as usize / clients])
                            .map(|a| op(a.cfg, a.ext, &a.query, &a.cand))
                            .collect();
                        ctx.violation(
                            ops,
                            show(&want[i]),
                            show(&(r, buf)),
                            format!("call {at} of {clients} users with their own objects; these are the last ones"),
                        );
                        return;
                    }
                }
                ctx.counts.traces += 1;
                ctx.sample(|| format!("{clients} users, {} calls, every window of {n}", seq.len()));
            }),
        });
    }
}
