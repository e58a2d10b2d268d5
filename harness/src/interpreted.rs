//! Small spaces for the interpreter: one thread, no signal handlers, only
//! calls. `normcheck miri SHARD SHARDS` walks its share of the cases and
//! prints how many there were; undefined behaviour ends the interpreter.

use std::panic::{catch_unwind, AssertUnwindSafe};

use norm::fzf::FzfParser;

use crate::model::{Case, Cfg, Scheme, ALGOS, SCHEMES};
use crate::normtable;
use crate::oracle::all_strings;
use crate::real::{self, Inst};

/// The same number on every target.
fn mix(h: &mut u64, x: u64) {
    for b in x.to_le_bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
}

/// With `answers`, prints a digest of the answers of each case, to be compared
/// with that of another target, and leaves out what only the interpreter can
/// judge.
pub fn run(shard: usize, shards: usize, thorough: bool, answers: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut n = 0usize;
    let mut calls = 0usize;
    let mut matched = 0usize;
    // One instance and one parser for everything: histories included.
    let mut insts: Vec<Inst> = ALGOS.iter().map(|&a| Inst::new(a)).collect();
    let mut parser = FzfParser::new();
    let mut case = |ext: bool, norm: bool, make: &dyn Fn() -> (String, Vec<String>)| {
        n += 1;
        if n % shards != shard {
            return;
        }
        let (query, cands) = make();
        let (query, cands) = (&query[..], &cands);
        let mut digest = 0xcbf2_9ce4_8422_2325u64;
        for (i, &algo) in ALGOS.iter().enumerate() {
            let cfg = Cfg {
                algo,
                case: [Case::Smart, Case::Insensitive, Case::Sensitive][n % 3],
                norm,
                scheme: SCHEMES[n / 3 % 3],
            };
            insts[i].set(cfg);
            let (inst, parser) = (&mut insts[i], &mut parser);
            let (calls, matched) = (&mut calls, &mut matched);
            let digest = &mut digest;
            // A panic is another property's business.
            let _ = catch_unwind(AssertUnwindSafe(move || {
                let q = real::parse(parser, ext, cfg, query);
                for c in cands {
                    let mut buf = vec![0..1];
                    let r = inst.ranges(cfg, query, q, c, &mut buf);
                    let d = inst.distance(cfg, query, q, c);
                    *calls += 2;
                    *matched += (r.is_some() && d.is_some()) as usize;
                    mix(digest, r.map_or(u64::MAX, |r| r as u64));
                    mix(digest, d.map_or(u64::MAX, |d| d as u64));
                    for r in buf {
                        mix(digest, r.start as u64);
                        mix(digest, r.end as u64);
                    }
                }
            }));
        }
        if answers {
            println!("case {n} {digest:016x} {}", query.escape_default());
        }
    };

    // Terms of every kind, alone and together.
    let al: Vec<char> = "aBé ".chars().collect();
    let small = all_strings(&al, 0, if thorough { 4 } else { 2 });
    let some = ["a", "ab", "aé", "'ab", "^a", "é$", "^ab$", "!a", "!'B", "a\\ b", "a | é", "'a 'B", "a B é", "", "|"];
    for q in some {
        case(true, n_odd(q), &|| (q.into(), small.clone()));
        case(false, !n_odd(q), &|| (q.into(), small.clone()));
    }
    // The grammar.
    let gal: Vec<char> = "aé \\|!'^$".chars().collect();
    let few: Vec<String> = ["a", "éa", "x a é"].iter().map(|s| s.to_string()).collect();
    for q in all_strings(&gal, 0, if thorough { 3 } else { 2 }) {
        case(true, false, &|| (q.clone(), few.clone()));
        case(false, true, &|| (q.clone(), few.clone()));
    }
    // Buffers that grow while terms point into them.
    let lens: &[usize] = if thorough {
        &[1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257]
    } else if answers {
        &[65]
    } else {
        &[64, 65, 129]
    };
    for &len in lens {
        for unit in ["a", "é", "a ", "ab | ", "a\\ ", "'a "] {
            let make = || {
                let q: String = unit.chars().cycle().take(len).collect();
                let mut list = vec![format!("x{}é", "a".repeat(9))];
                if len == 65 || thorough && len < 130 {
                    list.push(q.clone());
                }
                (q, list)
            };
            case(true, false, &make);
            case(false, false, &make);
        }
    }
    // Buffers that grow with the candidate.
    for len in [128usize, 129] {
        if answers && len == 128 {
            continue;
        }
        for unit in ["x", "é"] {
            for q in ["ab", "'a", "b$"] {
                case(true, true, &|| (q.into(), vec!["a".into(), format!("a{}b", unit.repeat(len)), "ab".into()]));
            }
        }
    }
    // Overlapping ranges.
    for q in ["'abc 'b", "'ab 'bc", "'cd 'ab 'bc", "'a 'c 'e 'abcdef", "abc 'cd"] {
        case(true, false, &|| (q.into(), vec!["abcdef".to_string(), "xabcébcdef".to_string()]));
    }
    // Every character of the normalization blocks, and the edges of the
    // scalar ranges.
    for &(lo, hi) in normtable::BLOCKS.iter() {
        let (lo, hi) = (lo - 2, hi + 2);
        for at in (lo..=hi).step_by(16) {
            let make = || {
                let cs: String = (at..at + 16).filter_map(char::from_u32).collect();
                ("a".into(), vec![cs])
            };
            case(false, true, &make);
        }
    }
    let edges = [
        '\0', '\u{1f}', '\u{7f}', '\u{80}', '\u{df}', '\u{ff}', '\u{130}', '\u{7ff}', '\u{800}', '\u{1e9e}', '\u{212a}', '\u{d7df}', '\u{d7e0}', '\u{d7ff}',
        '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10427}', '\u{10ffdf}', '\u{10ffe0}', '\u{10ffff}',
    ];
    for c in edges {
        // Once in every mode.
        for _ in 0..3 {
            case(false, true, &|| (format!("{c}"), vec![format!("{c}"), format!("a{c}"), format!("{c}éa")]));
        }
        case(true, true, &|| (format!("'{c}"), vec![format!("{c}"), format!("a{c}")]));
        case(true, false, &|| (format!("x | a{c}$"), vec![format!("{c}"), format!("A{c}")]));
    }
    if answers {
        // Classes and gaps in every scheme and mode.
        let cands = all_strings(&"aB1/ -".chars().collect::<Vec<_>>(), 0, if thorough { 3 } else { 2 });
        for q in ["a", "b", "ab", "aB", "'b", "^a", "1$", "a 'b", "!a b"] {
            for _ in 0..if thorough { 9 } else { 3 } {
                case(true, false, &|| (q.into(), cands.clone()));
            }
        }
        for gap in 0..20 {
            let cands = || -> Vec<String> {
                let fill = |n: usize| &"x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-x-"[..n];
                (0..20).step_by(3).map(|n| ["", fill(n), "a", fill(gap), "b", fill(n + gap), "ab"].concat()).collect()
            };
            case(true, true, &|| ("ab".into(), cands()));
            case(true, true, &|| ("aab".into(), cands()));
        }
        // Positions and lengths that outgrow half a word of 32 bits.
        for (unit, tail) in [("x", "ab"), ("\u{e9}", "ab"), ("a", "b")] {
            for q in ["a", "'ab", "b$", "^x"] {
                // The others take minutes here.
                let slow = unit != "x" || q == "'ab";
                if slow && !thorough || unit == "a" && q != "'ab" || unit == "\u{e9}" && !matches!(q, "b$" | "^x") {
                    continue;
                }
                case(true, false, &|| (q.into(), vec![format!("{}{tail}", unit.repeat(66_000))]));
            }
        }
        println!("MIRI cases={n} calls={calls} matched={matched}");
        return 0;
    }
    // Objects that move, are copied and outlive what they were copied from.
    let texts = ["a", "ab cd", "é | 'a", "!x a\\ b", ""];
    for (i, (a, b)) in texts.iter().flat_map(|a| texts.iter().map(move |b| (a, b))).enumerate() {
        n += 1;
        if n % shards == shard {
            for way in 0..5 {
                calls += moved(a, b, way, i % 2 == 0);
            }
        }
    }
    // Users on threads of their own, who share nothing but a query.
    for query in ["ab", "'a | é !b", "a 'b ^é"] {
        n += 1;
        if n % shards == shard {
            calls += threads(query);
        }
    }
    println!("MIRI cases={n} calls={calls} matched={matched}");
    0
}

/// Parses `a` with one parser and `b` with what has become of it.
fn moved(a: &str, b: &str, way: usize, ext: bool) -> usize {
    let cfg = Cfg { algo: ALGOS[way % 2], case: Case::Smart, norm: true, scheme: Scheme::Default };
    let mut first = Box::new(FzfParser::new());
    let mut inst = Box::new(Inst::with(cfg));
    let ask = |p: &mut FzfParser, inst: &mut Inst, ext: bool, s: &str| {
        let q = real::parse(p, ext, cfg, s);
        for c in ["ab", "é a b", "xa"] {
            let mut buf = vec![];
            let _ = inst.ranges(cfg, s, q, c, &mut buf);
        }
    };
    ask(&mut first, &mut inst, ext, a);
    let (mut second, mut other): (FzfParser, Inst) = match way {
        0 => {
            let v = ((*first).clone(), (*inst).clone());
            drop(first);
            drop(inst);
            v
        },
        1 => {
            let (mut p, mut i) = (FzfParser::new(), Inst::with(cfg));
            ask(&mut p, &mut i, !ext, b);
            p.clone_from(&first);
            i.copy_from(&inst);
            drop(first);
            drop(inst);
            (p, i)
        },
        2 => (std::mem::take(&mut *first), inst.take()),
        3 => (*first, *inst),
        _ => std::thread::spawn(move || (*first, *inst)).join().unwrap(),
    };
    ask(&mut second, &mut other, ext, b);
    ask(&mut second, &mut other, !ext, a);
    12
}

fn threads(query: &str) -> usize {
    let cfgs = ALGOS.map(|algo| Cfg { algo, case: Case::Insensitive, norm: true, scheme: Scheme::Path });
    let mut parser = FzfParser::new();
    let shared = real::parse(&mut parser, true, cfgs[0], query);
    std::thread::scope(|s| {
        for t in 0..2 {
            s.spawn(move || {
                crate::engine::use_slot(1 + t);
                let mut own = FzfParser::new();
                for cfg in cfgs {
                    let mut inst = Inst::with(cfg);
                    for text in [query, "b", "'É$"] {
                        for ext in [true, false] {
                            let q = real::parse(&mut own, ext, cfg, text);
                            for c in ["ab", "xéab/aB", "é"] {
                                let mut buf = vec![];
                                let _ = inst.ranges(cfg, text, q, c, &mut buf);
                                let _ = inst.ranges(cfg, query, shared, c, &mut buf);
                            }
                        }
                    }
                }
            });
        }
    });
    2 * 2 * 3 * 2 * 6
}

fn n_odd(q: &str) -> bool {
    q.len() % 2 == 1
}
