//! Sizes beyond what fits 16 bits, every alignment of the texts in memory, and
//! every letter against every scalar.

use std::sync::Arc;

use crate::engine::{hash_of, Ctx, Job, Op};
use crate::families::*;
use crate::model::{self, Algo, Case, Cfg, Kind, Scheme, ALGOS};
use crate::normtable;
use crate::oracle::*;
use crate::real::{self, Inst};

/// A text of `n` characters that doesn't repeat itself, so that no search for
/// it has to start over often.
fn text_of(n: usize, wide: bool, first: &str) -> Vec<char> {
    let al = chars(if wide { "abcdeféж" } else { "abcdefgh" });
    let mut v = chars(first);
    let mut x = 12345u32;
    while v.len() < n {
        x = x.wrapping_mul(1_103_515_245).wrapping_add(12345);
        v.push(al[(x >> 20) as usize % al.len()]);
    }
    v.truncate(n);
    v
}

/// Terms so long that their scores, run lengths and matrices outgrow 16 bits,
/// and candidates of a million characters.
pub fn huge(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], asp: u32, thorough: bool) {
    let mut cfgs: Vec<Cfg> = algos.iter().map(|&a| Cfg::plain(a)).collect();
    if thorough {
        cfgs.extend(algos.iter().map(|&algo| Cfg { algo, case: Case::Sensitive, norm: true, scheme: Scheme::History }));
    }
    for cfg in cfgs {
        for &k in kinds {
            let matrix = cfg.algo == Algo::V2 && k == Kind::Fuzzy;
            let lens: &[usize] = match (matrix, thorough) {
                (true, false) => &[1700, 3400],
                (true, true) => &[1366, 1700, 2049, 3400, 4097],
                (false, false) => &[1700, 3400, 32_768, 65_535, 65_536, 65_537, 70_001],
                (false, true) => &[1366, 1700, 2049, 3400, 4097, 16_385, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_001, 131_073, 262_145],
            };
            for wide in [false, true] {
                for &n in lens {
                    jobs.push(Job {
                        family: "huge terms",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let q = text_of(n, wide, "k");
                            let s: String = q.iter().collect();
                            let t = write_term(k, false, &s);
                            let p = Probe::new(cfg, true, &t, asp);
                            let cut = n / 2;
                            let (l, r) = (q[..cut].iter().collect::<String>(), q[cut..].iter().collect::<String>());
                            let mut list = vec![
                                s.clone(),
                                format!("x/{s}x"),
                                format!("{l}-{r}"),
                                q[..n - 1].iter().collect(),
                            ];
                            if thorough || !matrix {
                                list.push(format!("{l}{l}—{r}"));
                                list.push(q[1..].iter().collect());
                                list.push(format!("x {s}"));
                            }
                            p.walk(|w| {
                                for c in &list {
                                    if !ctx.full() {
                                        w.step(ctx, c, &chars(c));
                                    }
                                }
                            });
                        }),
                    });
                }
            }
            let lens: &[usize] = if thorough { &[131_072, 262_144, 1_048_576, 1_048_577, 4_194_305] } else { &[262_144, 1_048_577] };
            for (q, fill) in [("a", 'x'), ("ab", 'x'), ("ab", 'é'), ("ab", 'a')] {
                for &n in lens {
                    if matrix && n > 2_000_000 && q.len() > 1 {
                        continue;
                    }
                    jobs.push(Job {
                        family: "huge candidates",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let t = write_term(k, false, q);
                            let p = Probe::new(cfg, true, &t, asp);
                            let mut list: Vec<Vec<char>> = vec![vec![fill; n]];
                            for at in [0, 65_535, 65_536, n - 2] {
                                let mut v = vec![fill; n];
                                v[at] = 'a';
                                let mut w = v.clone();
                                v[n - 1] = 'b';
                                list.push(v);
                                w[at + 1] = 'b';
                                list.push(w);
                            }
                            p.walk(|w| {
                                for c in &list {
                                    if !ctx.full() {
                                        let s: String = c.iter().collect();
                                        w.step(ctx, &s, c);
                                    }
                                }
                            });
                        }),
                    });
                }
            }
        }
    }
}

/// Candidates with several alignments of the term, of which the best one is
/// not always the first, up to matrices of more than a million cells.
pub fn decoys(jobs: &mut Vec<Job>, algos: &[Algo], asp: u32, thorough: bool) {
    let cells: &[usize] = if thorough {
        &[250, 260, 1_000, 4_000, 4_100, 10_000, 32_700, 32_800, 65_500, 65_600, 102_000, 102_500, 131_200, 262_200, 524_400, 1_048_700, 2_100_000]
    } else {
        &[250, 260, 1_000, 4_000, 4_100, 10_000, 32_700, 32_800, 65_500, 65_600, 102_000, 102_500, 131_200, 262_200, 1_048_700]
    };
    let rows: &[usize] = if thorough { &[2, 3, 8, 16, 33, 65, 130, 257, 600] } else { &[2, 3, 16, 65, 257] };
    for &algo in algos {
        for &m in rows {
            for &cells in cells {
                let n = cells / m;
                // Room for three alignments, one of them full of gaps.
                if n < 6 * m + 8 {
                    continue;
                }
                for scheme in if cells < 50_000 { &[Scheme::Default, Scheme::Path][..] } else { &[Scheme::Default][..] } {
                    let cfg = Cfg { algo, case: Case::Smart, norm: false, scheme: *scheme };
                    jobs.push(Job {
                        family: "decoys",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let q: Vec<char> = "abcd".chars().cycle().take(m).collect();
                            let dense: String = q.iter().collect();
                            let sparse: String = q.iter().flat_map(|&c| [c, '.', '.']).collect();
                            let p = Probe::new(cfg, true, &write_term(Kind::Fuzzy, false, &dense), asp);
                            let fill = |c: char, k: usize| std::iter::repeat_n(c, k).collect::<String>();
                            p.walk(|w| {
                                for wide in [false, true] {
                                    let c = if wide { 'ж' } else { 'x' };
                                    let left = n - 5 * m - 4;
                                    for list in [
                                        [&sparse[..], &dense[..], &dense[..]],
                                        [&dense[..], &sparse[..], &dense[..]],
                                        [&dense[..], &dense[..], &sparse[..]],
                                    ] {
                                        for (a, b) in [(left, 0), (0, left), (left / 2, left - left / 2)] {
                                            for sep in [["x", " "], [" ", "x"], ["/", "-"]] {
                                                if ctx.full() {
                                                    return;
                                                }
                                                let s = format!("{}{}{}{}{}{}{}", list[0], fill(c, a), sep[0], list[1], fill(c, b), sep[1], list[2]);
                                                w.step(ctx, &s, &chars(&s));
                                            }
                                        }
                                    }
                                }
                            });
                        }),
                    });
                }
            }
        }
    }
}

/// Memory in which a text can be put at every offset from a multiple of 64,
/// surrounded by other characters.
struct Ground {
    s: String,
    base: usize,
}

impl Ground {
    fn new(pad: char) -> Ground {
        let mut s = String::with_capacity(4096);
        let base = s.as_ptr().align_offset(64);
        while s.len() < base {
            s.push(pad);
        }
        Ground { s, base }
    }

    fn put(&mut self, offset: usize, pad: char, text: &str) -> &str {
        self.s.truncate(self.base);
        for _ in 0..offset {
            self.s.push(pad);
        }
        let at = self.s.len();
        self.s.push_str(text);
        let end = self.s.len();
        for _ in 0..8 {
            self.s.push(pad);
        }
        assert!(self.s.capacity() == 4096, "the ground has moved");
        &self.s[at..end]
    }
}

/// Candidates at every offset from an aligned address, of every length, with
/// the characters that matter at every position, between memory full of
/// characters that would match.
pub fn alignments(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], asp: u32, offsets: usize, max_len: usize) {
    for &algo in algos {
        for (case, norm) in [(Case::Smart, false), (Case::Sensitive, false), (Case::Insensitive, true)] {
            let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
            for &k in kinds {
                for q in ["a", "é", "ab"] {
                    for lo in (0..offsets).step_by(4) {
                        jobs.push(Job {
                            family: "alignments",
                            run: Box::new(move |ctx: &mut Ctx| {
                                let t = write_term(k, false, q);
                                let p = Probe::new(cfg, true, &t, asp);
                                let mut g = Ground::new('a');
                                p.walk(|w| {
                                    for offset in lo..(lo + 4).min(offsets) {
                                        for n in 1..=max_len {
                                            for at in 0..n {
                                                for what in ["a", "A", "é", "ab", "aé"] {
                                                    if q == "é" && what == "A" || ctx.full() {
                                                        continue;
                                                    }
                                                    let mut cs = vec!['x'; at];
                                                    cs.extend(what.chars());
                                                    while cs.len() < n {
                                                        cs.push('x');
                                                    }
                                                    let s: String = cs.iter().collect();
                                                    w.step(ctx, g.put(offset, 'a', &s), &cs);
                                                }
                                            }
                                        }
                                    }
                                });
                            }),
                        });
                    }
                }
            }
        }
    }
}

/// The same for the texts of queries: separators at every position.
pub fn query_alignments(jobs: &mut Vec<Job>, offsets: usize, max_len: usize) {
    for offset in 0..offsets {
        for extended in [true, false] {
            jobs.push(Job {
                family: "query alignments",
                run: Box::new(move |ctx: &mut Ctx| {
                    let cfg = Cfg::plain(Algo::V1);
                    let mut g = Ground::new(' ');
                    let mut parser = norm::fzf::FzfParser::new();
                    let mut inst = Inst::with(cfg);
                    for n in 1..=max_len {
                        for at in 0..=n {
                            for sep in ["", " ", "\\ ", " | ", "é", " !", "\\", "|", "\t"] {
                                if ctx.full() {
                                    return;
                                }
                                let (l, r) = ("a".repeat(at), "b".repeat(n - at));
                                let s = format!("{l}{sep}{r}");
                                let text = g.put(offset, ' ', &s);
                                let qm = if extended { model::parse(text) } else { model::parse_plain(text) };
                                let q = real::parse(&mut parser, extended, cfg, text);
                                ctx.counts.calls += 1;
                                ctx.counts.traces += 1;
                                for c in [format!("{l}{r}"), format!("{r}{l}"), format!("{l} {r}"), l.clone(), r.clone(), s.clone(), format!("{l}é{r}")] {
                                    let got = inst.distance(cfg, text, q, &c).is_some();
                                    let want = model::matches(&qm, &chars(&c), cfg);
                                    ctx.counts.states += 1;
                                    ctx.counts.calls += 1;
                                    ctx.counts.compared += 1;
                                    ctx.outcome(hash_of((got, n, at)));
                                    if got != want {
                                        ctx.violation(
                                            vec![Op { cfg, mode: real::mode_name(extended), query: s.clone(), cand: c.clone() }],
                                            format!("match: {want}"),
                                            format!("match: {got}"),
                                            format!("query text {offset} bytes after a multiple of 64"),
                                        );
                                    }
                                }
                            }
                        }
                    }
                    ctx.sample(|| format!("query texts {offset} bytes after a multiple of 64"));
                }),
            });
        }
    }
}

/// Letters to ask about: those with a case mapping, or only the odd ones among
/// them, whose mappings aren't one to one, and the ASCII ones.
pub fn cased(all: bool) -> Vec<char> {
    let lower = |c: char| c.to_lowercase().collect::<Vec<_>>();
    let upper = |c: char| c.to_uppercase().collect::<Vec<_>>();
    (0..=crate::custom::LAST)
        .filter_map(char::from_u32)
        .filter(|&c| {
            let (l, u) = (lower(c), upper(c));
            if l == [c] && u == [c] {
                return false;
            }
            if all || c.is_ascii() {
                return true;
            }
            let back = if l == [c] { lower(*u.first().unwrap_or(&c)) } else { upper(*l.first().unwrap_or(&c)) };
            l.len() > 1 || u.len() > 1 || back != [c] || c.is_ascii() != l[0].is_ascii() || c.is_ascii() != u[0].is_ascii()
        })
        .collect()
}

/// Each of the given characters as a query, against every scalar: the scalars
/// are put into candidates of `CHUNK` characters, and every occurrence is
/// looked up, one after the other.
pub fn against_all(jobs: &mut Vec<Job>, letters: Vec<char>, modes: &[(Case, bool)], algos: &'static [Algo]) {
    const CHUNK: usize = 2048;
    let chunks: Arc<Vec<Vec<char>>> = Arc::new(
        (0..=crate::custom::LAST)
            .filter_map(char::from_u32)
            .collect::<Vec<_>>()
            .chunks(CHUNK)
            .map(|c| c.to_vec())
            .collect(),
    );
    let texts: Arc<Vec<String>> = Arc::new(chunks.iter().map(|c| c.iter().collect()).collect());
    for &(case, norm) in modes {
        for part in letters.chunks(8) {
            let part = part.to_vec();
            let (chunks, texts) = (chunks.clone(), texts.clone());
            jobs.push(Job {
                family: "every letter on every scalar",
                run: Box::new(move |ctx: &mut Ctx| {
                    for &q in &part {
                        for &algo in algos {
                            let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
                            let eq = model::Eq::new(cfg, &[q]);
                            let qs = q.to_string();
                            let mut parser = norm::fzf::FzfParser::new();
                            let parsed = real::parse(&mut parser, false, cfg, &qs);
                            let mut inst = Inst::with(cfg);
                            let mut buf = vec![];
                            for (chunk, text) in chunks.iter().zip(texts.iter()) {
                                // Characters and bytes already dealt with.
                                let (mut ci, mut bi) = (0, 0);
                                loop {
                                    let rest = &text[bi..];
                                    let mut at = bi;
                                    let mut found = None;
                                    for (i, &c) in chunk[ci..].iter().enumerate() {
                                        if eq.eq(q, c) {
                                            found = Some((ci + i, at - bi..at - bi + c.len_utf8()));
                                            break;
                                        }
                                        at += c.len_utf8();
                                    }
                                    buf.clear();
                                    // The optimal metric marks the best one,
                                    // not the first one.
                                    let got = inst.ranges(cfg, &qs, parsed, rest, &mut buf);
                                    ctx.counts.states += 1;
                                    ctx.counts.calls += 1;
                                    ctx.counts.compared += 1;
                                    let ok = match &found {
                                        None => got.is_none(),
                                        Some((_, r)) => got.is_some() && (algo == Algo::V2 || buf == [r.clone()]),
                                    };
                                    if !ok {
                                        let want = found.as_ref().map_or("no match".into(), |(i, _)| format!("a match at {:?}", chunk[*i]));
                                        let have = match buf.first() {
                                            Some(r) if rest.is_char_boundary(r.start) && rest.is_char_boundary(r.end) => format!("a match at {:?}", &rest[r.clone()]),
                                            _ => format!("{got:?} {buf:?}"),
                                        };
                                        ctx.violation(
                                            vec![Op { cfg, mode: "parse_not_extended", query: qs.clone(), cand: rest.to_string() }],
                                            want,
                                            have,
                                            "a letter on consecutive scalars",
                                        );
                                        return;
                                    }
                                    let Some((i, r)) = found else { break };
                                    ctx.outcome(hash_of((q, chunk[i])));
                                    ci = i + 1;
                                    bi += r.end;
                                }
                            }
                            ctx.counts.traces += 1;
                        }
                    }
                    ctx.sample(|| format!("{part:?} on every scalar"));
                }),
            });
        }
    }
}

/// Each letter with a case mapping, or that normalization changes, looked up
/// by what it may match, at several places of candidates of many lengths.
pub fn cased_places(jobs: &mut Vec<Job>, thorough: bool) {
    let mut letters = cased(true);
    letters.extend((0..0x3000).filter_map(char::from_u32).filter(|&c| normtable::normalize(c) != c));
    letters.sort();
    letters.dedup();
    let sizes: &[usize] = if thorough {
        &[2, 3, 5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025]
    } else {
        &[2, 8, 17, 33, 65, 129, 257]
    };
    for part in letters.chunks(24) {
        let part = part.to_vec();
        jobs.push(Job {
            family: "cased letters in candidates of many lengths",
            run: Box::new(move |ctx: &mut Ctx| {
                for &c in &part {
                    let mut variants: Vec<char> = vec![c, normtable::normalize(c)];
                    variants.extend(c.to_lowercase());
                    variants.extend(c.to_uppercase());
                    variants.sort();
                    variants.dedup();
                    for &q in &variants {
                        for algo in ALGOS {
                            for (case, norm) in [(Case::Insensitive, false), (Case::Smart, true), (Case::Sensitive, true), (Case::Insensitive, true)] {
                                let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
                                for (k, twice) in [(Kind::Fuzzy, false), (Kind::Fuzzy, true), (Kind::Exact, false)] {
                                    let text = if twice { format!("{q}{q}") } else { format!("{q}") };
                                    let t = write_term(k, false, &text);
                                    let p = Probe::new(cfg, true, &t, DECISION | MARKS);
                                    p.walk(|w| {
                                        for (i, &n) in sizes.iter().enumerate() {
                                            let fill = ['.', '日'][(i + k as usize) % 2];
                                            for at in [0, n / 2, n - 1] {
                                                if ctx.full() {
                                                    return;
                                                }
                                                let mut v = vec![fill; n];
                                                v[at] = c;
                                                if twice {
                                                    v[n - 1 - at] = variants[i % variants.len()];
                                                }
                                                let s: String = v.iter().collect();
                                                w.step(ctx, &s, &v);
                                            }
                                        }
                                    });
                                }
                            }
                        }
                    }
                }
                ctx.sample(|| format!("{part:?} in candidates of {sizes:?} characters"));
            }),
        });
    }
}

/// Texts that repeat one unit very often, as queries and as candidates, on a
/// thread with little stack.
pub fn deep(jobs: &mut Vec<Job>, thorough: bool) {
    const UNITS: [&str; 22] = [
        "a", "A", "\u{e9}", "\u{65e5}", " ", "\\", "\\ ", "a\\ ", "a ", "\u{e9} ", "a | ", "| ", "|", "!", "'", "^", "$", "!a ", "'a$ ", "^a ", "a$ | ", "ab/ -1",
    ];
    let times: &'static [usize] = if thorough { &[20_000, 100_000, 300_000] } else { &[100_000] };
    for algo in ALGOS {
        for extended in [true, false] {
            for unit in UNITS {
                jobs.push(Job {
                    family: "one unit very often",
                    run: Box::new(move |ctx: &mut Ctx| {
                        let slot = crate::engine::slot();
                        std::thread::scope(|s| {
                            let run = || {
                                crate::engine::use_slot(slot);
                                let cfg = Cfg::plain(algo);
                                let mut inst = Inst::with(cfg);
                                let mut parser = norm::fzf::FzfParser::new();
                                let mut buf = Vec::new();
                                let mut ask = |ctx: &mut Ctx, q: &str, c: &str| {
                                    let parsed = real::parse(&mut parser, extended, cfg, q);
                                    buf.clear();
                                    let r = inst.ranges(cfg, q, parsed, c, &mut buf);
                                    let d = inst.distance(cfg, q, parsed, c);
                                    ctx.counts.states += 1;
                                    ctx.counts.calls += 2;
                                    ctx.outcome(hash_of((r, d, buf.len(), q.len(), c.len())));
                                };
                                for &n in times {
                                    let text = unit.repeat(n);
                                    for c in ["", "a", "x\u{e9} \\ a", "ab/ -1 |!'^$"] {
                                        ask(ctx, &text, c);
                                    }
                                    for q in ["", "a", "aa", "a b", "\u{e9}", "'a", "'ab", "^a", "a$", "^a$", "!a", "\\ ", "a\\ a", "x | a", "/1"] {
                                        ask(ctx, q, &text);
                                        if unit.len() > 1 {
                                            ask(ctx, q, &text[..text.len() - unit.chars().last().unwrap().len_utf8()]);
                                        }
                                    }
                                    // The same runs inside of something else.
                                    let inside = format!("xa{text}b");
                                    for c in ["xab", "b"] {
                                        ask(ctx, &inside, c);
                                    }
                                    for q in ["xab", "^xa", "ab$", "'ab"] {
                                        ask(ctx, q, &inside);
                                    }
                                    ctx.counts.traces += 1;
                                }
                            };
                            let t = std::thread::Builder::new().stack_size(384 << 10).spawn_scoped(s, run).unwrap();
                            if let Err(e) = t.join() {
                                std::panic::resume_unwind(e);
                            }
                        });
                    }),
                });
            }
        }
    }
}

/// Candidates that almost match, match badly or match partly very many times
/// before, or after, they match well.
pub fn thousands(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], asp: u32, thorough: bool) {
    const UNITS: [&str; 10] = ["a", "a ", "-b", "aB", "ab-", "xb", "aab", " ", "A", "\u{e9}a"];
    let times: &'static [usize] = if thorough { &[1_300, 5_000, 20_000, 70_001, 270_000] } else { &[1_300, 5_000, 70_001] };
    for &algo in algos {
        for &k in kinds {
            for unit in UNITS {
                for scheme in if thorough { &[Scheme::Default, Scheme::History][..] } else { &[Scheme::Default][..] } {
                    let cfg = Cfg { algo, case: Case::Smart, norm: false, scheme: *scheme };
                    jobs.push(Job {
                        family: "thousands of worse places",
                        run: Box::new(move |ctx: &mut Ctx| {
                            let mut list: Vec<Cand> = Vec::new();
                            for &n in times {
                                let mid = unit.repeat(n);
                                list.push(Cand::new(mid.clone()));
                                for (head, tail) in [("", "b"), ("x", " ab"), ("x", "b/aab "), ("x ", "c"), ("aab ", "x"), ("x/b", "A"), ("b", "/a b\u{e9}")] {
                                    list.push(Cand::new(format!("{head}{mid}{tail}")));
                                }
                            }
                            for q in ["a", "b", "ab", "aab", "aB", "c", "a b"] {
                                let p = Probe::new(cfg, true, &write_term(k, false, q), asp);
                                p.walk(|w| {
                                    for c in &list {
                                        if ctx.full() {
                                            return;
                                        }
                                        w.step(ctx, &c.s, &c.cs);
                                    }
                                });
                            }
                        }),
                    });
                }
            }
        }
    }
}
