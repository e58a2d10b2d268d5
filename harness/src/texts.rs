//! Spaces made from the texts of terms: candidates that are little more than
//! the term itself, letters whose cases are encoded in different lengths,
//! queries that name the same text more than once, texts with unusual ends.

use crate::engine::{Ctx, Job};
use crate::families::{cands, chars, walk_list, with_all, write_term, Cand, KINDS};
use crate::model::{Algo, Case, Cfg, Kind, Scheme, CASES, SCHEMES};
use crate::normtable;
use crate::oracle::{all_strings, Probe};

/// Terms that are their own match: runs of letters with up to three
/// characters of other classes at the start, in the middle or at the end,
/// found as a whole behind each class of character, under all settings.
pub fn self_matches(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    let lens: &[usize] = if thorough { &[3, 4, 5, 8, 9, 10, 16, 17, 18, 33] } else { &[3, 6, 12, 17] };
    let inner = all_strings(&chars("aB1 /-"), 1, 3);
    let contexts = ["", "x", "x ", "x/", "x-", " ", "\u{e9}", "/"];
    for cfg in with_all(algos) {
        if !thorough && (cfg.case == Case::Sensitive || (cfg.norm && cfg.case == Case::Insensitive)) {
            continue;
        }
        for &k in kinds {
            for &n in lens {
                let inner = inner.clone();
                jobs.push(Job {
                    family: "terms that are their own match",
                    run: Box::new(move |ctx: &mut Ctx| {
                        for (turn, t) in inner.iter().enumerate() {
                            let t = chars(t);
                            for at in [0, 1, n / 2, n.saturating_sub(t.len())] {
                                if ctx.full() {
                                    return;
                                }
                                if at + t.len() > n {
                                    continue;
                                }
                                let mut text: Vec<char> = chars("abcdefgh").into_iter().cycle().take(n).collect();
                                text[at..at + t.len()].copy_from_slice(&t);
                                let text: String = text.into_iter().collect();
                                let p = if k == Kind::Fuzzy {
                                    Probe::new(cfg, false, &text, aspects)
                                } else {
                                    Probe::new(cfg, true, &write_term(k, false, &text), aspects)
                                };
                                let mut cs: Vec<Cand> = contexts.iter().map(|c| Cand::new(format!("{c}{text}"))).collect();
                                let tail = contexts[turn % 8];
                                cs.push(Cand::new(format!("{text}{tail}{text}")));
                                cs.push(Cand::new(format!("x{text}{tail}")));
                                p.walk(|w| {
                                    for c in &cs {
                                        w.step(ctx, &c.s, &c.cs);
                                    }
                                });
                            }
                        }
                    }),
                });
            }
        }
    }
}

/// Every two characters that can be taken for one another by case or by
/// normalization although they are encoded in different numbers of bytes.
fn width_pairs() -> Vec<(char, char)> {
    let mut v = Vec::new();
    for c in (0..=crate::custom::LAST).filter_map(char::from_u32) {
        let mut add = |d: char| {
            if d.len_utf8() != c.len_utf8() {
                v.push((c, d));
                v.push((d, c));
            }
        };
        c.to_lowercase().for_each(&mut add);
        c.to_uppercase().for_each(&mut add);
    }
    for c in ['\u{c0}', '\u{e9}', '\u{131}', '\u{17f}', '\u{1e9e}', '\u{1e00}', '\u{1ef9}', '\u{2c65}', '\u{1d00}', '\u{ff41}'] {
        let d = normtable::normalize(c);
        if d != c {
            v.push((c, d));
            v.push((d, c));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Terms of a few such characters, in candidates that contain little else, so
/// that the candidate is shorter in bytes than the term or just as long.
pub fn widths(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32) {
    for part in width_pairs().chunks(6) {
        let part = part.to_vec();
        let (kinds, algos) = (kinds.to_vec(), algos.to_vec());
        jobs.push(Job {
            family: "letters of two widths",
            run: Box::new(move |ctx: &mut Ctx| {
                for &(q, c) in &part {
                    let mut cs = Vec::new();
                    for n in 1..=4 {
                        let s = c.to_string().repeat(n);
                        for t in [s.clone(), format!("x{s}"), format!("{s}x"), format!("{c}-{s}"), format!("{q}{s}"), format!("{s} {q}"), format!("\u{65e5}{s}")] {
                            cs.push(Cand::new(t));
                        }
                    }
                    for &algo in &algos {
                        for case in CASES {
                            for norm in [false, true] {
                                let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
                                for &k in &kinds {
                                    for text in [format!("{q}"), format!("{q}{q}"), format!("{q}{q}{q}"), format!("{q}x"), format!("{c}{q}")] {
                                        if ctx.full() {
                                            return;
                                        }
                                        let p = Probe::new(cfg, true, &write_term(k, false, &text), aspects);
                                        p.walk(|w| {
                                            for c in &cs {
                                                w.step(ctx, &c.s, &c.cs);
                                            }
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }),
        });
    }
}

/// Queries in which two terms have the same text, in every two ways a term can
/// be written, with other terms before, between and behind them.
pub fn repeated_texts(jobs: &mut Vec<Job>, algos: &[Algo], aspects: u32, thorough: bool) {
    let mut forms: Vec<String> = Vec::new();
    for inverse in [false, true] {
        for k in KINDS {
            forms.push(write_term(k, inverse, "ab"));
        }
    }
    let mut variants = forms.clone();
    variants.extend(["aB", "!aB", "'AB", "a", "!b", "'bab"].iter().map(|s| s.to_string()));
    let mut queries = Vec::new();
    let others = ["c", "'d", "!z"];
    let pad = |n: usize, from: usize| -> String { (0..n).map(|i| format!("{} ", others[(i + from) % 3])).collect() };
    let most = if thorough { 3 } else { 2 };
    for a in &forms {
        for b in &variants {
            for before in 0..=most {
                for between in 0..=most {
                    for behind in 0..=most {
                        let tail = pad(behind, 1);
                        queries.push(format!("{}{a} {}{b} {tail}", pad(before, 0), pad(between, before)).trim_end().to_string());
                    }
                }
            }
            for other in ["c", "!z"] {
                queries.push(format!("{a} | {b} {other}"));
                queries.push(format!("{other} {a} | {other} | {b}"));
                queries.push(format!("{a} | {other} {b} | {other}"));
                queries.push(format!("{other} | {a} {other} {other} {b} | {a}"));
            }
            queries.push(format!("{a} {b} {a}"));
            queries.push(format!("{a} | {b} | {a}"));
        }
    }
    let cs = cands(
        ["", "ab", "abcd", "a-bcd", "a-b", "cdab", "cd a b", "dcab", "ba cd", "cd", "aBcd", "ABcd ab", "ab cd ab", "\u{e9}a-bcd", "cd\u{e9}ab", "a cd", "xabcdx", "bab cd"]
            .iter()
            .map(|s| s.to_string()),
    );
    let mut probes = Vec::new();
    for &algo in algos {
        for case in if thorough { &CASES[..] } else { &CASES[1..] } {
            let cfg = Cfg { algo, case: *case, norm: false, scheme: Scheme::Default };
            for q in &queries {
                probes.push(Probe::new(cfg, true, q, aspects));
            }
        }
    }
    walk_list(jobs, "one text in several terms", probes, &cs, 400);
}

/// Literal texts that begin or end with any two ASCII characters, or have them
/// inside, in candidates that lack one of them, both or none.
pub fn odd_ends(jobs: &mut Vec<Job>, algos: &[Algo], aspects: u32) {
    for &algo in algos {
        for first in 0..128u8 {
            jobs.push(Job {
                family: "texts with any two characters at the ends",
                run: Box::new(move |ctx: &mut Ctx| {
                    let cfg = Cfg::plain(algo);
                    for second in 0..128u8 {
                        if ctx.full() {
                            return;
                        }
                        let (p, q) = (first as char, second as char);
                        for (head, tail) in [("a", ""), ("", "a"), ("a", "b"), ("", "")] {
                            let mut cs: Vec<Cand> = Vec::new();
                            for mid in [format!("{p}{q}"), format!("{p}"), format!("{q}"), String::new(), format!("{q}{p}")] {
                                cs.push(Cand::new(format!("{head}{mid}{tail}")));
                                cs.push(Cand::new(format!("\u{e9}{head}{mid}x{tail}")));
                            }
                            let probe = Probe::new(cfg, false, &format!("{head}{p}{q}{tail}"), aspects);
                            probe.walk(|w| {
                                for c in &cs {
                                    w.step(ctx, &c.s, &c.cs);
                                }
                            });
                        }
                    }
                }),
            });
        }
    }
}

/// Words without a term put anywhere among words and bars: the query answers
/// as it does without them.
pub fn termless_words(jobs: &mut Vec<Job>, thorough: bool) {
    use crate::custom::{fresh, op, show};
    use crate::engine::hash_of;
    use crate::real::{self, Inst};
    let marks: Vec<String> = all_strings(&chars("!'^$"), 1, 3).into_iter().filter(|s| crate::model::parse(s).0.is_empty()).collect();
    let words = ["a", "'b", "!c", "|", "b$"];
    let list = ["", "a", "b", "ab", "c", "ac", "bca", "a\u{e9}b"];
    let mut lists: Vec<Vec<&'static str>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..if thorough { 5 } else { 4 } {
        let to = lists.len();
        for i in from..to {
            for w in words {
                let mut l = lists[i].clone();
                l.push(w);
                lists.push(l);
            }
        }
        from = to;
    }
    for cfg in [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)] {
        for part in lists.chunks(24) {
            let (part, marks) = (part.to_vec(), marks.clone());
            jobs.push(Job {
                family: "words without a term among others",
                run: Box::new(move |ctx: &mut Ctx| {
                    let mut parser = norm::fzf::FzfParser::new();
                    let mut inst = Inst::with(cfg);
                    for l in &part {
                        let plain = l.join(" ");
                        let want: Vec<_> = list.iter().map(|c| fresh(cfg, true, &plain, c)).collect();
                        let mut texts = Vec::new();
                        for (i, m) in marks.iter().enumerate() {
                            for at in 0..=l.len() {
                                let mut v: Vec<&str> = l.clone();
                                v.insert(at, m);
                                texts.push(v.join(" "));
                                // A second one, of another kind, behind it.
                                v.insert((at + 1 + i % 2).min(v.len()), &marks[(i + at) % marks.len()]);
                                texts.push(v.join(" "));
                            }
                            let all: Vec<String> = l.iter().map(|w| format!("{m} {w}")).collect();
                            texts.push(format!("{} {m}", all.join(" ")));
                        }
                        for text in &texts {
                            if ctx.full() {
                                return;
                            }
                            let q = real::parse(&mut parser, true, cfg, text);
                            ctx.counts.calls += 1;
                            ctx.counts.traces += 1;
                            for (c, want) in list.iter().zip(&want) {
                                let mut buf = vec![];
                                let r = inst.ranges(cfg, text, q, c, &mut buf);
                                ctx.counts.states += 1;
                                ctx.counts.calls += 1;
                                ctx.counts.compared += 1;
                                ctx.outcome(hash_of((r, &buf)));
                                if (r, &buf) != (want.0, &want.1) {
                                    ctx.violation(
                                        vec![op(cfg, true, text, c), op(cfg, true, &plain, c)],
                                        show(want),
                                        show(&(r, buf)),
                                        "words without a term among others",
                                    );
                                }
                            }
                        }
                    }
                    ctx.sample(|| format!("{:?} with each of {marks:?} anywhere", part[0]));
                }),
            });
        }
    }
}

/// Every scalar before, behind and between the characters of a term.
pub fn scalar_ends(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    const STEP: u32 = 4096;
    for (n, &algo) in algos.iter().enumerate() {
        for at in (0..=crate::custom::LAST).step_by(STEP as usize) {
            // Each metric sees every other scalar, or all of them.
            let every = if thorough { 1 } else { algos.len() as u32 };
            let kinds = kinds.to_vec();
            jobs.push(Job {
                family: "every scalar around a term",
                run: Box::new(move |ctx: &mut Ctx| {
                    let cfg = Cfg { algo, case: CASES[at as usize / STEP as usize % 3], norm: at / STEP % 2 == 1, scheme: Scheme::Default };
                    for &k in &kinds {
                        for text in ["a", "ab"] {
                            let p = Probe::new(cfg, true, &write_term(k, false, text), aspects);
                            p.walk(|w| {
                                let mut s = String::new();
                                let mut cs = Vec::new();
                                for u in (at..at + STEP).filter(|u| u % every == n as u32 % every) {
                                    let Some(c) = char::from_u32(u) else { continue };
                                    for form in 0..4 {
                                        if ctx.full() {
                                            return;
                                        }
                                        s.clear();
                                        match form {
                                            0 => s.push_str(text),
                                            1 => s.push('a'),
                                            2 => s.push('\u{e9}'),
                                            _ => {}
                                        }
                                        s.push(c);
                                        match form {
                                            1 => s.push('b'),
                                            2 => {
                                                s.push_str(text);
                                                s.push(c);
                                            }
                                            3 => s.push_str(text),
                                            _ => {}
                                        }
                                        cs.clear();
                                        cs.extend(s.chars());
                                        w.step(ctx, &s, &cs);
                                    }
                                }
                            });
                        }
                    }
                }),
            });
        }
    }
}

/// Terms with spaces at their ends or inside, as each other's neighbours and
/// alternatives.
pub fn spaced_groups(jobs: &mut Vec<Job>, algos: &[Algo], aspects: u32, thorough: bool) {
    let mut terms = Vec::new();
    for text in [" a", "a ", " ", " a ", "a b", "  a", "b"] {
        for inverse in [false, true] {
            for k in KINDS {
                if (inverse && text.len() > 2) || text == "b" && inverse {
                    continue;
                }
                terms.push(write_term(k, inverse, text));
            }
        }
    }
    terms.sort();
    terms.dedup();
    let mut queries = Vec::new();
    for (i, a) in terms.iter().enumerate() {
        queries.push(a.clone());
        for (j, b) in terms.iter().enumerate() {
            queries.push(format!("{a} | {b}"));
            queries.push(format!("{a} {b}"));
            if thorough || (i + j) % 4 == 0 {
                let c = &terms[(i * 7 + j * 3) % terms.len()];
                queries.push(format!("{a} | {b} {c}"));
                queries.push(format!("{c} {a} | {b} | {c}"));
            }
        }
    }
    let mut list = all_strings(&chars("ab "), 0, if thorough { 5 } else { 4 });
    list.extend(all_strings(&chars("\u{e9}a "), 1, 3).into_iter().filter(|s| !s.is_ascii()));
    let cs = cands(list);
    let mut probes = Vec::new();
    for (i, q) in queries.iter().enumerate() {
        for (n, &algo) in algos.iter().enumerate() {
            if thorough || algos.len() == 1 || (i + i / terms.len()) % 2 == n {
                probes.push(Probe::new(Cfg::plain(algo), true, q, aspects));
            }
        }
    }
    walk_list(jobs, "terms with spaces together", probes, &cs, 100);
}

/// Texts that differ from a term in one or two places, by the same or another
/// change at each.
pub fn two_misses(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    let lens: Vec<usize> = if thorough { (2..=40).chain([48, 63, 64, 65, 66, 128, 130]).collect() } else { vec![2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 33, 40] };
    for &algo in algos {
        for &n in &lens {
            for wide in [false, true] {
                let kinds = kinds.to_vec();
                jobs.push(Job {
                    family: "two misses",
                    run: Box::new(move |ctx: &mut Ctx| {
                        let base: Vec<char> = chars(if wide { "ab\u{436}d" } else { "abcdefgh" }).into_iter().cycle().take(n).collect();
                        let change = |c: char, how: usize| match how {
                            0 => 'x',
                            // The same bit each time.
                            _ => char::from_u32(c as u32 ^ 16).unwrap(),
                        };
                        let mut cs = Vec::new();
                        for i in 0..n {
                            for j in i..n {
                                for how in 0..if n <= 17 || thorough { 4 } else { 1 + i % 2 } {
                                    let mut v = base.clone();
                                    match how {
                                        0 | 1 => {
                                            v[i] = change(v[i], how);
                                            if j != i {
                                                v[j] = change(v[j], how);
                                            }
                                        }
                                        // One for the other.
                                        2 => v.swap(i, j),
                                        // One lost, another one twice.
                                        _ => {
                                            let c = v.remove(i);
                                            v.insert(j, c);
                                        }
                                    }
                                    let s: String = v.into_iter().collect();
                                    cs.push(Cand::new(match (i + j) % 4 {
                                        0 => format!("-{s}"),
                                        1 => format!("{s}-"),
                                        _ => s,
                                    }));
                                }
                            }
                        }
                        let text: String = base.iter().collect();
                        for &k in &kinds {
                            for case in if thorough { &CASES[..] } else { &CASES[..2] } {
                                let cfg = Cfg { algo, case: *case, norm: wide, scheme: Scheme::Default };
                                let p = Probe::new(cfg, true, &write_term(k, false, &text), aspects);
                                p.walk(|w| {
                                    for c in &cs {
                                        if ctx.full() {
                                            return;
                                        }
                                        w.step(ctx, &c.s, &c.cs);
                                    }
                                });
                            }
                        }
                    }),
                });
            }
        }
    }
}

/// Every scalar that isn't ASCII in the place of an ASCII character of its
/// class, where the query cannot match either.
pub fn scalar_bystanders(jobs: &mut Vec<Job>, algos: &[Algo], thorough: bool) {
    use crate::custom::{fresh, op, show};
    use crate::engine::hash_of;
    use crate::model::{class, Class};
    use crate::real::{self, Inst};
    const STEP: u32 = 2048;
    let queries: &'static [&'static str] = &["ab", "'b", "^a", "b$", "^ab$", "!b$", "!'ab", "a | b"];
    let forms: &'static [&'static str] = &["@ab", "ab@", "a@b", "@@a@b@", "a@@b ab", "@"];
    for &algo in algos {
        for at in (0x80..=crate::custom::LAST).step_by(STEP as usize) {
            jobs.push(Job {
                family: "every scalar as a bystander",
                run: Box::new(move |ctx: &mut Ctx| {
                    let cfg = Cfg { algo, case: CASES[(at / STEP) as usize % 3], norm: at / STEP % 2 == 1, scheme: if at / STEP % 5 < 3 { Scheme::Default } else { Scheme::Path } };
                    for (qi, q) in queries.iter().enumerate() {
                        let eq = crate::model::Eq::new(cfg, &['a', 'b']);
                        // The same answers with an ASCII one.
                        let classes = [(Class::Lower, 'x'), (Class::Upper, 'X'), (Class::Number, '1'), (Class::NonWord, '-'), (Class::White, '\t'), (Class::Letter, '\u{65e5}'), (Class::Delim, '/')];
                        let want: Vec<Vec<_>> = classes.iter().map(|(_, x)| forms.iter().map(|f| fresh(cfg, true, q, &f.replace('@', &x.to_string()))).collect()).collect();
                        let mut parser = norm::fzf::FzfParser::new();
                        let parsed = real::parse(&mut parser, true, cfg, q);
                        let mut inst = Inst::with(cfg);
                        let mut buf = vec![];
                        let mut s = String::new();
                        for c in (at..at + STEP).filter_map(char::from_u32) {
                            if eq.eq('a', c) || eq.eq('b', c) {
                                continue;
                            }
                            let class = class(c, cfg.scheme);
                            let n = classes.iter().position(|(k, _)| *k == class).unwrap();
                            let x = classes[n].1;
                            for (fi, f) in forms.iter().enumerate() {
                                if !thorough && (fi + qi) % 2 != c as usize % 2 && fi > 1 {
                                    continue;
                                }
                                if ctx.full() {
                                    return;
                                }
                                s.clear();
                                for d in f.chars() {
                                    s.push(if d == '@' { c } else { d });
                                }
                                buf.clear();
                                let r = inst.ranges(cfg, q, parsed, &s, &mut buf);
                                ctx.counts.states += 1;
                                ctx.counts.calls += 1;
                                ctx.counts.compared += 1;
                                let (score, ranges) = &want[n][fi];
                                // Where a byte of the narrow one is in the other.
                                let place = |b: usize| -> usize {
                                    let mut from = 0;
                                    let mut to = 0;
                                    for d in f.chars() {
                                        if from >= b {
                                            break;
                                        }
                                        from += if d == '@' { x.len_utf8() } else { 1 };
                                        to += if d == '@' { c.len_utf8() } else { 1 };
                                    }
                                    to
                                };
                                let ok = r == *score && buf.len() == ranges.len() && buf.iter().zip(ranges).all(|(g, w)| g.start == place(w.start) && g.end == place(w.end));
                                if !ok {
                                    ctx.violation(
                                        vec![op(cfg, true, q, &s), op(cfg, true, q, &f.replace('@', &x.to_string()))],
                                        format!("as with the other one: {}", show(&want[n][fi])),
                                        show(&(r, buf.clone())),
                                        "two characters of one class that the query does not match",
                                    );
                                }
                            }
                            if c as u32 % 64 == 0 {
                                ctx.outcome(hash_of((q, c)));
                            }
                        }
                        ctx.counts.traces += 1;
                    }
                }),
            });
        }
    }
}

/// Terms of every length, in candidates that contain them, have a gap in them
/// or lack one of their characters.
pub fn every_term_length(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    let max: usize = if thorough { 720 } else { 260 };
    for (ai, &algo) in algos.iter().enumerate() {
        for &k in kinds {
            for (ui, unit) in ["ab", "aB\u{e9}1", "x y-"].into_iter().enumerate() {
                // Each job every eighth length, from the longest down or from
                // the shortest up.
                for part in 0..8 {
                    if ui == 2 && k != Kind::Fuzzy && k != Kind::Exact {
                        continue;
                    }
                    jobs.push(Job {
                        family: "terms of every length",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let u = chars(unit);
                            let mut lens: Vec<usize> = (2..=max).filter(|n| n % 8 == part).collect();
                            if part % 2 == 1 {
                                lens.reverse();
                            }
                            let extra = [400, 499, 500, 501, 512, 600, 700, 800, 900, 999, 1000, 1001, 1024, 1025];
                            lens.extend(extra.iter().enumerate().filter(|(i, _)| i % 8 == part && ui == 0).map(|(_, n)| n));
                            for n in lens {
                                let cfg = Cfg { algo, case: CASES[(n + ai) % 3], norm: n % 2 == 1, scheme: SCHEMES[n / 2 % 3] };
                                let q: Vec<char> = u.iter().copied().cycle().take(n).collect();
                                let s: String = q.iter().collect();
                                let (l, r) = (q[..n / 2].iter().collect::<String>(), q[n / 2..].iter().collect::<String>());
                                let list = [
                                    s.clone(),
                                    format!("-{s}/"),
                                    format!("{l}--{r}"),
                                    format!("{l}\u{65e5}{s}"),
                                    q[..n - 1].iter().collect(),
                                    q[1..].iter().collect(),
                                ];
                                let p = Probe::new(cfg, true, &write_term(k, false, &s), aspects);
                                p.walk(|w| {
                                    for c in &list {
                                        if ctx.full() {
                                            return;
                                        }
                                        w.step(ctx, c, &chars(c));
                                    }
                                });
                            }
                        }),
                    });
                }
            }
        }
    }
}

/// Terms in which one character is not like the others, wherever it stands,
/// in candidates that differ from the term in this character or in all of
/// them.
pub fn odd_one_out(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    let most = if thorough { 2_049 } else { 1_025 };
    for &algo in algos {
        for &k in kinds {
            for odd in ['B', '\u{c9}', '\u{e9}', '1', ' ', '/', '\u{65e5}', '\u{1c5}'] {
                for cases in [&CASES[..], &[Case::Smart]] {
                    // Every place of the shorter ones under smart case, the
                    // telling places of all of them in every mode.
                    let smart = cases.len() == 1;
                    if smart && !matches!(odd, 'B' | '\u{e9}') {
                        continue;
                    }
                    let cases = cases.to_vec();
                    jobs.push(Job {
                        family: "one character unlike the others",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let mut lens: Vec<usize> = vec![2, 3, 5, 9, 17, 32, 33, 34, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300, 513];
                            if k != Kind::Fuzzy || algo == Algo::V1 || odd == 'B' {
                                lens.extend([1_000, most]);
                            }
                            if smart {
                                lens = vec![40, 70, 140];
                            }
                            for &n in &lens {
                                let mut places: Vec<usize> = if smart {
                                    (0..n).collect()
                                } else {
                                    (0..12).map(|i| 1usize << i).flat_map(|p| [p - 1, n.saturating_sub(p)]).filter(|&p| p < n && (n < 60 || p % 3 != 1)).collect()
                                };
                                places.sort();
                                places.dedup();
                                if n > 400 {
                                    places = vec![0, n / 2, n - 1];
                                }
                                for (turn, at) in places.into_iter().enumerate() {
                                    for &case in &cases {
                                        if ctx.full() {
                                            return;
                                        }
                                        let cfg = Cfg { algo, case, norm: (turn + n) % 2 == 1, scheme: SCHEMES[turn % 3] };
                                        let mut q = vec!['a'; n];
                                        q[at] = odd;
                                        let s: String = q.iter().collect();
                                        let with = |c: char| {
                                            let mut v = q.clone();
                                            v[at] = c;
                                            v.into_iter().collect::<String>()
                                        };
                                        let low = odd.to_lowercase().next().unwrap();
                                        let base = normtable::normalize(odd);
                                        let list = [
                                            s.clone(),
                                            with(low),
                                            with(base),
                                            with(base.to_ascii_lowercase()),
                                            with('a'),
                                            s.to_uppercase(),
                                            format!("x{}-{s}", with(low)),
                                        ];
                                        let p = if k == Kind::Fuzzy && turn % 2 == 0 && odd != 'B' {
                                            Probe::new(cfg, false, &s, aspects)
                                        } else {
                                            Probe::new(cfg, true, &write_term(k, false, &s), aspects)
                                        };
                                        p.walk(|w| {
                                            for c in &list {
                                                w.step(ctx, c, &chars(c));
                                            }
                                        });
                                    }
                                }
                            }
                        }),
                    });
                }
            }
        }
    }
}
