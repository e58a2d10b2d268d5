//! One parsed query in many hands: any metrics, any settings, copies of it,
//! other threads. It is a value: every use gives what a query that is parsed
//! for this use alone gives.

use std::sync::Arc;

use norm::fzf::{FzfParser, FzfQuery};

use crate::custom::{fresh, op, show, Answer, Call};
use crate::engine::{hash_of, Ctx, Job};
use crate::model::{Algo, Case, Cfg, Scheme, ALGOS, CASES, SCHEMES};
use crate::oracle::show_ranges;
use crate::preempt;
use crate::real::{self, Inst, Ranges};
use crate::windows::de_bruijn;

const QUERIES: [(bool, &str); 22] = [
    (true, ""),
    (true, "a"),
    (true, "aB"),
    (true, "ab"),
    (true, "é"),
    (true, "eÉ"),
    (true, "'a"),
    (true, "^ab"),
    (true, "b$"),
    (true, "^é$"),
    (true, "!a"),
    (true, "!'É"),
    (true, "a b"),
    (true, "B | a"),
    (true, "'é | !x b"),
    (true, "!b | E 'a"),
    (true, "x | y | a$ é"),
    (true, "ab a\\ b | b"),
    (false, "a"),
    (false, "a B"),
    (false, "!é"),
    (false, "^a b$"),
];

const CANDS: [&str; 7] = ["ab", "xA-B", "éa b", "a/É_aB", "", "bbb", "x e ab"];

/// A parsed query that several threads use.
#[derive(Clone, Copy)]
pub struct Shared<'a>(pub Option<FzfQuery<'a>>);

// Whatever it is made of: that all may use it is what is checked.
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}

impl<'a> Shared<'a> {
    pub fn get(self) -> Option<FzfQuery<'a>> {
        self.0
    }
}

/// One use of the query.
struct Use {
    cfg: Cfg,
    cand: &'static str,
    ranges: bool,
    want: Answer,
}

fn uses((ext, q): (bool, &str), few: bool) -> Vec<Use> {
    let mut v = Vec::new();
    let mut cands = CANDS.to_vec();
    if q.len() > 20 {
        // Candidates that have all of its characters, one of them not.
        let mut long: Vec<String> = ["/", "-b", "É"].iter().map(|s| format!("{s}{q}{s}")).collect();
        long[1] = long[1].to_uppercase();
        long.push(long[0].replacen('a', "", 1));
        cands.splice(0..4, long.into_iter().map(|s| &*s.leak()));
    }
    for algo in ALGOS {
        for case in CASES {
            for norm in [false, true] {
                for scheme in SCHEMES {
                    for (i, &cand) in cands.iter().enumerate() {
                        let cfg = Cfg { algo, case, norm, scheme };
                        // A covering choice of settings for each candidate.
                        let n = case as usize + norm as usize + scheme as usize + i;
                        if n % 3 != 0 || few && (n / 3 + i + algo as usize) % 2 != 0 {
                            continue;
                        }
                        v.push(Use { cfg, cand, ranges: n % 4 != 1, want: fresh(cfg, ext, q, cand) });
                    }
                }
            }
        }
    }
    v
}

/// Walks one parsed query along all windows of `n` uses. What is used is the
/// query itself, a copy of it, or a copy of the last one used.
fn walk(ctx: &mut Ctx, (ext, q): (bool, &str), n: usize, few: bool) {
    let uses = uses((ext, q), few);
    let mut parser = FzfParser::new();
    let first = real::parse(&mut parser, ext, Cfg::plain(Algo::V1), q);
    let printed = format!("{first:?}");
    let mut last = first;
    // One metric for each use, as many clients have, and two that serve all.
    let mut insts: Vec<Inst> = uses.iter().map(|u| Inst::with(u.cfg)).collect();
    let mut both = ALGOS.map(Inst::new);
    let mut buf: Ranges = Vec::new();
    let seq = de_bruijn(uses.len(), n);
    for (at, &i) in seq.iter().enumerate() {
        let u = &uses[i as usize];
        let copy = match at % 3 {
            0 => first,
            1 => first.clone(),
            _ => last.clone(),
        };
        last = copy;
        buf.clear();
        let inst = match at % 5 < 3 {
            true => &mut insts[i as usize],
            false => {
                let inst = &mut both[u.cfg.algo as usize];
                inst.set(u.cfg);
                inst
            }
        };
        let got = match u.ranges {
            true => inst.ranges(u.cfg, q, copy, u.cand, &mut buf),
            false => inst.distance(u.cfg, q, copy, u.cand),
        };
        ctx.counts.states += 1;
        ctx.counts.calls += 1;
        ctx.counts.compared += 1;
        if got != u.want.0 || u.ranges && buf != u.want.1 {
            let from = at.saturating_sub(n);
            let ops = seq[from..=at].iter().map(|&i| &uses[i as usize]).map(|u| op(u.cfg, ext, q, u.cand)).collect();
            ctx.violation(
                ops,
                show(&u.want),
                format!("{got:?} {}", if u.ranges { show_ranges(&buf) } else { String::new() }),
                format!("use {at} of one parsed query, by several metrics; these are the last ones"),
            );
            return;
        }
        ctx.outcome(hash_of((q, got, &buf)));
        if at % 97 == 0 {
            ctx.counts.compared += 1;
            let again = format!("{copy:?}");
            if again != printed {
                ctx.violation(vec![op(u.cfg, ext, q, u.cand)], printed, again, "what one parsed query prints, after some uses");
                return;
            }
        }
    }
    ctx.counts.traces += 1;
    ctx.sample(|| format!("{q:?}: {} uses of one parsed query, windows of {n} of {}", seq.len(), uses.len()));
}

/// Many threads use one parsed query at the same time, each in its own order.
fn crowd(ctx: &mut Ctx, (ext, q): (bool, &str), rounds: usize) {
    let uses = Arc::new(uses((ext, q), true));
    let mut parser = FzfParser::new();
    let shared = Shared(Some(real::parse(&mut parser, ext, Cfg::plain(Algo::V1), q)));
    let bad = std::thread::scope(|scope| {
        let threads: Vec<_> = (0..4)
            .map(|t| {
                let uses = uses.clone();
                scope.spawn(move || {
                    let parsed = shared.get().unwrap();
                    let mut insts: Vec<Inst> = uses.iter().map(|u| Inst::with(u.cfg)).collect();
                    let mut buf = Vec::new();
                    for round in 0..rounds {
                        for k in 0..uses.len() {
                            let i = (k * (2 * t + 1) + round) % uses.len();
                            let u = &uses[i];
                            buf.clear();
                            let got = match &mut insts[i] {
                                m if u.ranges => m.raw_ranges(parsed, u.cand, &mut buf),
                                m => m.raw_distance(parsed, u.cand),
                            };
                            let got = got.map(real::score);
                            if got != u.want.0 || u.ranges && buf != u.want.1 {
                                return Some((i, got, buf));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        threads.into_iter().filter_map(|t| t.join().unwrap_or(Some((0, Some(i64::MIN), vec![])))).next()
    });
    let n = (4 * rounds * uses.len()) as u64;
    ctx.counts.states += n;
    ctx.counts.calls += n;
    ctx.counts.compared += n;
    ctx.counts.traces += 4;
    if let Some((i, got, buf)) = bad {
        let u = &uses[i];
        ctx.violation(vec![op(u.cfg, ext, q, u.cand)], show(&u.want), show(&(got, buf)), "four threads use one parsed query at the same time");
    }
}

pub fn shared_queries(jobs: &mut Vec<Job>, thorough: bool) {
    let mut queries = QUERIES.to_vec();
    for (ext, part, n) in [(true, "a", 70), (false, "aB é", 20), (true, "a b ", 20), (true, "a | é ", 20), (true, "aéB'x!", 25)] {
        queries.push((ext, part.repeat(n).leak()));
    }
    for q in queries {
        for n in [2, 3] {
            jobs.push(Job { family: "one query, many metrics", run: Box::new(move |ctx: &mut Ctx| walk(ctx, q, n, n > 2 && !thorough)) });
        }
        jobs.push(Job { family: "one query, many threads", run: Box::new(move |ctx: &mut Ctx| crowd(ctx, q, if thorough { 2_000 } else { 100 })) });
    }
    let cfg = |algo, case, norm, scheme| Cfg { algo, case, norm, scheme };
    use Case::*;
    for (ext, q) in QUERIES.into_iter().filter(|q| thorough || [2, 5, 9, 14, 16, 19].contains(&at(q.1))) {
        let calls: Vec<Call> = vec![
            (cfg(Algo::V1, Smart, false, Scheme::Default), ext, q, "xA-B".into()),
            (cfg(Algo::V2, Insensitive, true, Scheme::Path), ext, q, "a/É_aB".into()),
            (cfg(Algo::V2, Sensitive, false, Scheme::History), ext, q, "éa b".into()),
        ];
        preempt::shared_query(jobs, calls);
    }
}

fn at(q: &str) -> usize {
    QUERIES.iter().position(|x| x.1 == q).unwrap()
}
