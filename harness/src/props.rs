//! Which spaces and which comparisons decide which property.

use std::time::Duration;

use crate::custom;
use std::sync::atomic::Ordering::Relaxed;

use crate::engine::{explore, install_handlers, Job, Report, Violation, DIGEST, DUMP, KEEP};
use crate::families::*;
use crate::first;
use crate::memory;
use crate::model::*;
use crate::normtable;
use crate::oracle::*;
use crate::preempt;
use crate::report::{self, thorough, Meta};
use crate::scale;
use crate::shared;
use crate::texts;
use crate::windows;

pub struct Plan {
    pub jobs: Vec<Job>,
    pub meta: Meta,
}

pub fn run(prop: &str, only: Option<usize>) -> i32 {
    report::init(prop);
    install_handlers();
    let Some(plan) = plan(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let budget = Duration::from_secs(if thorough() { 780 } else { 600 });
    let r = explore(plan.jobs, budget, only);
    report::finish(&r, &plan.meta)
}


fn long_tier(th: bool) -> Vec<usize> {
    long_lengths(th)
}

/// Single terms of the given kinds over every family: small exhaustive
/// alphabets, character classes, gaps, Unicode, cases, spaces, long
/// candidates and long terms. `depth` is added to the candidate lengths.
fn single_terms(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    algos: &[Algo],
    asp: u32,
    depth: i32,
    th: bool,
) {
    let d = |n: i32| (n + depth).max(1) as usize;
    let anchored = kinds.iter().any(|k| *k != Kind::Fuzzy);
    let fuzzy = kinds.contains(&Kind::Fuzzy);
    let schemes = with_schemes(algos);
    let modes = with_cases(algos);
    let plain: Vec<Cfg> = algos.iter().map(|&a| Cfg::plain(a)).collect();
    let relevant = asp & (SCORE | MARKS | AGREE) != 0;
    let main = if relevant { &schemes } else { &plain };
    letters(jobs, kinds, main, asp, if th { 4 } else { 3 }, d(8));
    let qs = all_strings(&chars("aB1/ -"), 1, 2);
    classes(jobs, kinds, main, asp, &qs, "aAbB1 /-,", d(4));
    if th {
        let qs = all_strings(&chars("aB1 "), 3, 3);
        classes(jobs, kinds, main, asp, &qs, "aAbB1 /-,", d(4).min(5));
    }
    unicode(jobs, kinds, &modes, asp, 2, d(3).min(5));
    cases(jobs, kinds, &modes, asp, 3, d(5));
    spaces(jobs, kinds, main, asp, 3, d(5).min(7));
    mixed(jobs, kinds, algos, asp, if th { 4 } else { 3 });
    wide_letters(jobs, kinds, main, asp, if th { 4 } else { 3 }, d(6).min(7));
    if fuzzy {
        let fz = [Kind::Fuzzy];
        gaps(
            jobs,
            &fz,
            main,
            asp,
            "abc",
            if th { 4 } else { 3 },
            &[0, 1, 2, 3, 7, 16, 19, 23, 40],
            &["x", "x y"],
            &["ab", "abc", "aab", "aba", "abab", "a"],
        );
        gaps(
            jobs,
            &fz,
            &plain,
            asp,
            "ab",
            4,
            &[0, 1, 5, 33],
            &["é", "/-"],
            &["ab", "abab", "aabb", "ba"],
        );
    }
    if anchored {
        let ks: Vec<Kind> =
            kinds.iter().copied().filter(|k| *k != Kind::Fuzzy).collect();
        gaps(
            jobs,
            &ks,
            main,
            asp,
            "abc",
            3,
            &[0, 1, 2, 7, 70],
            &["x", "x y", "-"],
            &["ab", "abc", "a", "ba"],
        );
    }
    long_cands(jobs, kinds, if th { main } else { &plain }, asp, &long_tier(th));
    long_terms(jobs, kinds, &plain, asp, &TERM_LENGTHS);
    let all = with_all(algos);
    long_cands(jobs, kinds, &all, asp, if th { &[64, 65, 128, 129, 257, 300] } else { &[129] });
    long_terms(jobs, kinds, &all, asp, if th { &[5, 33, 64, 65, 129, 130] } else { &[5, 65] });
    crowded(jobs, kinds, &plain, asp, &crowds(th));
    ascii_pairs(jobs, kinds, algos, asp);
    near_misses(jobs, kinds, algos, asp, th);
    space_runs(jobs, kinds, algos, asp, th);
    texts::widths(jobs, kinds, algos, asp);
    texts::scalar_ends(jobs, kinds, algos, asp, th);
    texts::two_misses(jobs, kinds, algos, asp, th);
    texts::every_term_length(jobs, kinds, algos, asp, th);
    texts::odd_one_out(jobs, kinds, algos, asp, th);
    scale::thousands(jobs, kinds, algos, asp, th);
    if relevant {
        texts::self_matches(jobs, kinds, algos, asp, th);
    }
}

/// Queries of several terms.
fn composite(jobs: &mut Vec<Job>, algos: &[Algo], asp: u32, th: bool) {
    let cfgs: Vec<Cfg> = algos.iter().map(|&a| Cfg::plain(a)).collect();
    let c = cands(all_strings(&chars("abc "), 0, if th { 5 } else { 4 }));
    let q = combos(&pool(if th { 24 } else { 12 }), 3);
    combinations(jobs, &cfgs, asp, &q, &c);
    let wide: Vec<String> = ["é", "'É", "!é", "a", "É$", "^日", "aé", "日"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let modes: Vec<Cfg> = with_cases(algos);
    let c = cands(all_strings(&chars("aéÉ日"), 0, if th { 4 } else { 3 }));
    combinations(jobs, &modes, asp, &combos(&wide, if th { 3 } else { 2 }), &c);
    let long: Vec<String> = ["'ab", "abc", "!zz", "c$", "^x", "'bc", "zz"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut lc = Vec::new();
    for n in [60, 130, 260, 700] {
        for f in ["x", "é", "x b"] {
            let fill: String = f.chars().cycle().take(n).collect();
            for t in ["abc", "ab c", "bc", ""] {
                lc.push(format!("{fill}{t}{fill}"));
                lc.push(format!("{t}{fill}{t}"));
            }
        }
    }
    combinations(jobs, &cfgs, asp, &combos(&long, 3), &cands(lc));
    let all = with_all(algos);
    let p: Vec<String> = ["a", "'É", "!A", "é$", "^1", "a1"].iter().map(|s| s.to_string()).collect();
    let c = cands(all_strings(&chars("aAéÉ1/"), 0, if th { 4 } else { 3 }));
    combinations(jobs, &all, asp, &combos(&p, if th { 3 } else { 2 }), &c);
    many_terms(
        jobs,
        &cfgs,
        asp,
        &(1..=20).chain([24, 25, 31, 32, 33, 39, 40, 47, 48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300]).collect::<Vec<_>>(),
    );
    texts::repeated_texts(jobs, algos, asp, th);
    texts::spaced_groups(jobs, algos, asp, th);
    if asp & !(COMPOSE | DECISION) != 0 {
        many_marks(jobs, algos, asp, th);
    }
    many_terms(jobs, &cfgs, asp, if th { &[511, 512, 513, 1024, 2048, 4097] } else { &[512, 1025] });
}

fn plan(prop: &str) -> Option<Plan> {
    let th = thorough();
    let mut j = Vec::new();
    let jobs = &mut j;
    let fz = [Kind::Fuzzy];
    let both = [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)];
    let deeper = if th { 1 } else { 0 };
    let rule;
    let mut assumptions = vec![
        "the answers are those of the build under test on this machine (x86-64, one rustc)"
            .to_string(),
    ];
    match prop {
        "C01" => {
            rule = "every parse and every call of the spaces returns: no panic (overflow checks and debug assertions on), no abort, no call longer than 25 s";
            single_terms(jobs, &KINDS, &ALGOS, TOTAL, 0, th);
            composite(jobs, &ALGOS, TOTAL, th);
            grammar(jobs, &both, true, TOTAL, "aA \\|!'^$é", 0, if th { 6 } else { 4 });
            grammar(jobs, &both[..1], false, TOTAL, "a \\|!'^$é", 0, if th { 5 } else { 4 });
            custom::scalar_totality(jobs, &ALGOS, custom::LAST, th);
            custom::debug_totality(jobs);
            scale::huge(jobs, &KINDS, &ALGOS, TOTAL, th);
            scale::deep(jobs, th);
        },
        "C02" => {
            rule = "the query text parsed by the implementation matches exactly the candidates that the reference grammar's reading of it matches";
            grammar(jobs, &both[..1], true, DECISION, "ab \\|!'^$", 0, if th { 7 } else { 6 });
            grammar(jobs, &both[1..], true, DECISION, "ab \\|!'^$", 0, if th { 6 } else { 5 });
            grammar(jobs, &both[..1], true, DECISION, "aÉ日 \\|!'^$\t", 0, if th { 5 } else { 4 });
            many_terms(jobs, &both, DECISION, &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 300, 513, 1025, 2049, 4097]);
            scale::query_alignments(jobs, if th { 64 } else { 16 }, if th { 72 } else { 40 });
            for cfg in both {
                mark_runs(jobs, cfg, true, DECISION | COMPOSE, th);
            }
            word_orders(jobs, &both, if th { 5 } else { 4 });
            custom::scalar_grammar(jobs, true, th);
        },
        "C03" => {
            rule = "a fuzzy term matches exactly the candidates that contain its characters as a subsequence";
            single_terms(jobs, &fz, &ALGOS, DECISION, 2 + deeper, th);
            scale::huge(jobs, &fz, &ALGOS, DECISION, false);
            scale::alignments(jobs, &fz, &ALGOS, DECISION, if th { 64 } else { 8 }, if th { 72 } else { 40 });
        },
        "C04" => {
            rule = "an exact, prefix, suffix or equal term matches exactly the candidates that contain, start with, end with or equal its text";
            single_terms(jobs, &ANCHORED, &ALGOS, DECISION, 1 + deeper, th);
            scale::huge(jobs, &ANCHORED, &ALGOS, DECISION, th);
            scale::alignments(jobs, &ANCHORED, &ALGOS, DECISION, if th { 64 } else { 8 }, if th { 72 } else { 40 });
        },
        "C05" => {
            rule = "a negated term matches exactly when the plain one does not (both asked of the implementation), scores and marks nothing and leaves its neighbours alone";
            let texts = all_strings(&chars("ab"), 1, if th { 4 } else { 3 });
            let c = cands(all_strings(&chars("abx"), 0, if th { 8 } else { 6 }));
            custom::negation(jobs, &with_schemes(&ALGOS), &texts, &c);
            let texts: Vec<String> = ["é", "É", "aé", "A", "e", "日", "a b", " a", "a "].iter().map(|s| s.to_string()).collect();
            let c = cands(all_strings(&chars("aAeéÉ日 b"), 0, if th { 5 } else { 4 }));
            custom::negation(jobs, &with_cases(&ALGOS), &texts, &c);
            let texts: Vec<String> = vec!["ab".into(), "a".repeat(70), "ab".repeat(40), "é".repeat(66)];
            let mut v = Vec::new();
            for n in [63, 64, 65, 127, 128, 129, 255, 256, 257, 1025] {
                for f in ["x", "a", "ab", "é"] {
                    let fill: String = f.chars().cycle().take(n).collect();
                    v.push(fill.clone());
                    v.push(format!("ab{fill}"));
                    v.push(format!("{fill}ab"));
                    v.push(format!("a{fill}b"));
                }
            }
            custom::negation(jobs, &both, &texts, &cands(v));
            texts::repeated_texts(jobs, &ALGOS, COMPOSE | COMPOSE_MARKS | DECISION, th);
        },
        "C06" => {
            rule = "the answer for a query of several terms is the one composed from the implementation's answers for its terms alone: all groups must be satisfied, each by its first satisfied alternative, and the scores add up";
            composite(jobs, &ALGOS, COMPOSE | DECISION, th);
        },
        "C07" => {
            rule = "every call only appends to the buffer it is given: non-empty ranges inside the candidate, on character boundaries, no byte covered twice; nothing without a match";
            single_terms(jobs, &KINDS, &ALGOS, CONTRACT, -1 + deeper, th);
            composite(jobs, &ALGOS, CONTRACT, th);
            custom::accumulate(jobs, &with_cases(&ALGOS), if th { 4 } else { 3 });
            custom::filled_buffers(jobs, if th { 2100 } else { 300 });
            custom::range_graph(jobs, if th { 8 } else { 6 }, false, Algo::V1);
            custom::range_graph(jobs, if th { 8 } else { 6 }, true, Algo::V2);
            scale::huge(jobs, &KINDS, &ALGOS, CONTRACT, false);
        },
        "C08" => {
            rule = "the marked characters of one term spell it in order (contiguously unless fuzzy); those of several terms are the union of what each marks alone";
            single_terms(jobs, &KINDS, &ALGOS, SPELL, deeper, th);
            composite(jobs, &ALGOS, COMPOSE_MARKS, th);
            for algo in ALGOS {
                for wide in [false, true] {
                    custom::range_graph(jobs, if th { 9 } else { 7 }, wide, algo);
                }
            }
            custom::range_sequences(jobs, 5, if th { 5 } else { 4 });
            custom::range_sequences(jobs, if th { 7 } else { 6 }, 4);
        },
        "C09" => {
            rule = "asking for the distance alone and asking for it with the ranges give the same answer";
            single_terms(jobs, &KINDS, &ALGOS, AGREE, deeper, th);
            composite(jobs, &ALGOS, AGREE, th);
            grammar(jobs, &both, true, AGREE, "ab \\|!'^$", 0, if th { 6 } else { 5 });
            scale::huge(jobs, &KINDS, &ALGOS, AGREE, false);
            scale::decoys(jobs, &ALGOS, AGREE, false);
        },
        "C10" => {
            rule = "the greedy metric's answer for a fuzzy term is the reference alignment's: earliest end, shortest span ending there, its score and its characters";
            single_terms(jobs, &fz, &[Algo::V1], SCORE | MARKS | AGREE, 1 + deeper, th);
            scale::huge(jobs, &fz, &[Algo::V1], SCORE | MARKS | AGREE, th);
            scale::decoys(jobs, &[Algo::V1], SCORE | MARKS | AGREE, th);
        },
        "C11" => {
            rule = "the optimal metric's answer for a fuzzy term is the reference dynamic programme's: its best score and the characters of its traceback";
            single_terms(jobs, &fz, &[Algo::V2], SCORE | MARKS | AGREE, 1 + deeper, th);
            scale::huge(jobs, &fz, &[Algo::V2], SCORE | MARKS | AGREE, th);
            scale::decoys(jobs, &[Algo::V2], SCORE | MARKS | AGREE, th);
        },
        "C12" => {
            rule = "an exact, prefix, suffix or equal term is scored as the contiguous run it marks, and an exact term marks its best-placed occurrence";
            single_terms(jobs, &ANCHORED, &ALGOS, SCORE | MARKS | AGREE, deeper, th);
            scale::huge(jobs, &ANCHORED, &ALGOS, SCORE | MARKS | AGREE, th);
        },
        "C13" => {
            rule = "the score of a one- or two-character match is the one the reference word-boundary rules give it, for every Unicode scalar before, at and after it, in every scheme";
            custom::scalar_bonuses(jobs, th);
            let qs = all_strings(&chars("aB1/-"), 1, 1);
            classes(jobs, &[Kind::Fuzzy, Kind::Exact], &with_schemes(&ALGOS), SCORE, &qs, "abAB12 \t/,:;|-_é日", if th { 4 } else { 3 });
            let qs = all_strings(&chars("aB1/-"), 2, 2);
            classes(jobs, &[Kind::Fuzzy, Kind::Exact], &with_schemes(&ALGOS), SCORE, &qs, "aAB1 /-,", if th { 5 } else { 4 });
        },
        "C14" => {
            rule = "which letters match follows the case-sensitivity setting, term by term, for every Unicode scalar and its case variants";
            custom::scalar_cases(jobs, th);
            scale::cased_places(jobs, th);
            texts::odd_one_out(jobs, &KINDS, &ALGOS, DECISION | MARKS, th);
            cases(jobs, &KINDS, &with_cases(&ALGOS), DECISION | MARKS, if th { 4 } else { 3 }, if th { 7 } else { 6 });
            unicode(jobs, &KINDS, &with_cases(&ALGOS), DECISION | MARKS, 2, if th { 5 } else { 4 });
            let p: Vec<String> = ["a", "A", "'b", "'B", "!A", "!a", "aB", "^A", "b$", "É", "!'É"].iter().map(|s| s.to_string()).collect();
            let c = cands(all_strings(&chars("aAbBéÉ"), 0, if th { 5 } else { 4 }));
            combinations(jobs, &with_cases(&ALGOS), DECISION, &combos(&p, 2), &c);
            long_cands(jobs, &KINDS, &insensitive(), DECISION | MARKS, &[64, 127, 128, 129, 256, 257, 1025]);
            long_terms(jobs, &KINDS, &insensitive(), DECISION | MARKS, &TERM_LENGTHS);
            scale::against_all(jobs, scale::cased(th), &[(Case::Insensitive, false), (Case::Smart, false), (Case::Sensitive, false)], &ALGOS[..1]);
            scale::against_all(jobs, scale::cased(false), &[(Case::Insensitive, false)], &ALGOS[1..]);
        },
        "C15" => {
            rule = "with normalization a candidate's accented Latin letters also count as their base letters, the query is taken literally, and without it nothing changes";
            custom::scalar_norms(jobs, th);
            custom::norm_pairs(jobs, if th { 1 } else { 6 });
            let al = "aeéÉñ日";
            let modes: Vec<Cfg> = with_cases(&ALGOS);
            for q in all_strings(&chars("aeénN"), 1, 2) {
                for &cfg in &modes {
                    for k in KINDS {
                        let t = write_term(k, false, &q);
                        let p = Probe::new(cfg, true, &t, DECISION | MARKS);
                        walk_strings(jobs, "accents", p, &chars(al), 0, if th { 5 } else { 4 });
                    }
                }
            }
            let p: Vec<String> = ["e", "'E", "!e", "!'é", "é", "n$", "^n", "ae"].iter().map(|s| s.to_string()).collect();
            let c = cands(all_strings(&chars("aeéÉñ"), 0, if th { 5 } else { 4 }));
            combinations(jobs, &modes, DECISION, &combos(&p, 2), &c);
            long_norm(jobs);
            texts::odd_one_out(jobs, &KINDS, &ALGOS, DECISION | MARKS, th);
            let letters: Vec<char> = if th { (0..0x3000).filter_map(char::from_u32).filter(|c| c.is_ascii() || normtable::in_blocks(*c)).collect() } else { (' '..='~').collect() };
            scale::against_all(jobs, letters, &[(Case::Insensitive, true), (Case::Sensitive, true)], &ALGOS[..1]);
        },
        "C16" => {
            rule = "every answer after every history of calls, setters and clones equals the answer of a fresh instance with the same settings";
            custom::histories(jobs, if th { 5 } else { 4 }, true, true);
            custom::histories(jobs, if th { 6 } else { 5 }, false, false);
            let mut lens = vec![1, 2, 63, 64, 65, 127, 128, 129, 130, 131, 255, 256, 257, 400, 1025];
            if th {
                lens.extend([3, 100, 126, 132, 200, 254, 258, 300, 511, 512, 513, 2049, 4097]);
            }
            lens.retain(|&n| n > 1);
            custom::growth(jobs, lens);
            custom::reused_candidates(jobs, if th { 5 } else { 4 }, 1);
            windows::instance_lives(jobs, th);
            windows::copy_lives(jobs, if th { 5 } else { 4 });
            windows::recurrences(jobs, th);
            windows::sleepers(jobs, th);
            custom::reused_long(jobs, false, 1, th);
        },
        "C17" => {
            rule = "the last parse of every history of parses on one parser answers as on a fresh one, and queries of every length are read completely";
            custom::parser_histories(jobs, if th { 4 } else { 3 });
            let lens: Vec<usize> = if th { (0..=140).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025]).collect() } else { (0..=20).chain(60..=70).chain(124..=132).chain([255, 256, 257, 300]).collect() };
            custom::parser_lengths(jobs, lens);
            custom::reused_queries(jobs, if th { 4 } else { 3 }, 1);
            windows::parser_lives(jobs, th);
            custom::reused_long(jobs, true, 1, th);
            windows::parser_recurrences(jobs, th);
        },
        "C18" => {
            rule = "distances are totally ordered, better scores first, and equal exactly for equal scores";
            custom::ordering(jobs, if th { 6 } else { 5 });
        },
        "C19" => {
            rule = "replacing characters the query cannot match by wider ones of the same class, or appending such characters, changes neither score nor marked characters";
            let qs: Vec<String> = ["a", "ab", "aB", "ba", "aab", "'a", "'ab", "^a", "^ab", "b$", "ab$", "^ab$", "!a", "!'ab", "a 'b", "ab | 'ba", "abb", "a !b"].iter().map(|s| s.to_string()).collect();
            custom::representation(jobs, &with_schemes(&ALGOS), &qs, "abBx1-X /", if th { 5 } else { 4 });
            let cs: Vec<Cfg> = with_cases(&ALGOS);
            custom::representation(jobs, &cs, &qs, "aAbBx-", if th { 6 } else { 5 });
            custom::representation_long(jobs, &both);
            texts::scalar_bystanders(jobs, &ALGOS, th);
        },
        "C20" => {
            rule = "the literal parser takes the whole text as one fuzzy term, whatever characters it contains";
            grammar(jobs, &both[..1], false, DECISION | SCORE | MARKS, "ab \\|!'^$é", 0, if th { 6 } else { 5 });
            grammar(jobs, &both[1..], false, DECISION | SCORE | MARKS, "ab \\|!'^$é", 0, if th { 5 } else { 4 });
            custom::plain_equals_extended(jobs, "abAé", if th { 4 } else { 3 });
            long_terms(jobs, &fz, &both, DECISION | SCORE | MARKS, &TERM_LENGTHS);
            custom::plain_scalars(jobs, th);
            for cfg in both {
                mark_runs(jobs, cfg, false, DECISION | SCORE | MARKS, th);
            }
            custom::plain_lengths(jobs, if th { 1100 } else { 300 });
            custom::scalar_grammar(jobs, false, th);
            texts::odd_ends(jobs, &ALGOS, DECISION | SCORE | MARKS);
        },
        "C21" => {
            rule = "long candidates and long terms get the reference answer";
            let asp = DECISION | SCORE | MARKS | CONTRACT | AGREE;
            let cfgs = with_schemes(&ALGOS);
            long_cands(jobs, &KINDS, if th { &cfgs } else { &both }, asp, &long_lengths(th));
            long_cands(jobs, &KINDS, &insensitive(), asp, &[127, 128, 129, 255, 256, 257]);
            long_terms(jobs, &KINDS, &cfgs, asp, &TERM_LENGTHS);
            custom::every_length(jobs, &both, if th { 2100 } else { 1030 });
            scale::huge(jobs, &KINDS, &ALGOS, asp, th);
            scale::decoys(jobs, &ALGOS, asp, th);
            scale::thousands(jobs, &KINDS, &ALGOS, asp, th);
            texts::odd_one_out(jobs, &KINDS, &ALGOS, asp, th);
            scale::alignments(jobs, &KINDS, &ALGOS, asp, if th { 64 } else { 8 }, if th { 72 } else { 40 });
        },
        "C24" => {
            rule = "after every sequence of setters, answers follow the last value set for each setting and the defaults for the others";
            custom::settings(jobs, if th { 6 } else { 5 });
            windows::setting_lives(jobs, if th { 5 } else { 4 });
            windows::copy_lives(jobs, if th { 5 } else { 4 });
        },
        "C25" => {
            rule = "a query without terms matches everything at the neutral distance and marks nothing; words without a term change nothing around others";
            custom::termless(jobs, if th { 5 } else { 4 });
            texts::termless_words(jobs, th);
        },
        "C26" => {
            rule = "every interleaving of the calls of two clients, each with its own parser and instance, gives each client the answers it gets alone";
            custom::isolation(jobs, 2, false);
            if th {
                custom::isolation(jobs, 3, true);
            }
            custom::isolation_threads(jobs, 2);
            custom::reused_candidates(jobs, if th { 5 } else { 4 }, 2);
            custom::reused_queries(jobs, if th { 4 } else { 3 }, 2);
            custom::reused_long(jobs, true, 2, th);
            custom::reused_long(jobs, false, 2, th);
            windows::sleepers(jobs, th);
            preempt::preemptions(jobs, th);
            first::first_calls(jobs, th);
            windows::client_lives(jobs, 2, 2, 4);
            windows::client_lives(jobs, 3, 3, if th { 13 } else { 23 });
        },
        "C29" => {
            rule = "every use of a parsed query, by any metric, setting, copy or thread, gives what a query that is parsed for this use alone gives";
            shared::shared_queries(jobs, th);
        }
        "C27" => {
            rule = "no history of calls makes an instance or a parser hold more than its largest inputs need; repeating calls never makes it hold more; creating, using and dropping objects again leaves no more behind than the first time";
            memory::memory(jobs, th);
            memory::users(jobs, th);
            memory::threads(jobs, th);
        },
        _ => return None,
    }
    assumptions.extend(match prop {
        "C15" => vec!["the frozen 461-entry table in harness/src/normtable.rs is the intended mapping".to_string()],
        "C13" | "C14" => vec!["Unicode case mapping and character properties as in the standard library of the installed rustc".to_string()],
        _ => vec![],
    });
    Some(Plan { jobs: j, meta: Meta { rule, assumptions, extra: vec![] } })
}

fn insensitive() -> Vec<Cfg> {
    ALGOS
        .iter()
        .map(|&algo| Cfg {
            algo,
            case: Case::Insensitive,
            norm: true,
            scheme: Scheme::Default,
        })
        .collect()
}

/// Accents in long candidates.
fn long_norm(jobs: &mut Vec<Job>) {
    let mut v = Vec::new();
    for cfg in insensitive() {
        for k in KINDS {
            for (q, d) in [("eb", "éb"), ("EB", "éb"), ("éb", "éb"), ("éb", "eb")] {
                let mut cs = Vec::new();
                for n in [62usize, 127, 128, 255, 256, 1000] {
                    for f in ["x", "ñ", "x-é "] {
                        let fill: String = f.chars().cycle().take(n).collect();
                        cs.push(Cand::new(format!("{d}{fill}")));
                        cs.push(Cand::new(format!("{fill}{d}")));
                        cs.push(Cand::new(format!("{fill}{d}{fill}")));
                        let c: Vec<char> = d.chars().collect();
                        cs.push(Cand::new(format!("{}{fill}{}", c[0], c[1])));
                    }
                }
                let t = write_term(k, false, q);
                v.push((Probe::new(cfg, true, &t, DECISION | MARKS), cs));
            }
        }
    }
    walk_pairs(jobs, "long accents", v, 1);
}

/// Every sequence of words from a vocabulary of term spellings, bars and odd
/// white space.
fn word_orders(jobs: &mut Vec<Job>, cfgs: &[Cfg], depth: usize) {
    let words = [
        "a", "'b", "!c", "^a", "b$", "|", "||", "!", "'", "^", "$", "!'ab",
        "^ab$", "a\\ b", "\\|", "é",
    ];
    let mut prev: Vec<String> = vec![String::new()];
    let mut all: Vec<String> = Vec::new();
    for n in 0..depth {
        let mut next = Vec::new();
        for p in &prev {
            for w in words {
                let sep = if n == 0 {
                    ""
                } else if (p.len() + w.len()) % 5 == 0 {
                    "  "
                } else {
                    " "
                };
                next.push(format!("{p}{sep}{w}"));
            }
        }
        all.extend(next.iter().cloned());
        prev = next;
    }
    let all = std::sync::Arc::new(all);
    let cfgs: Vec<Cfg> = cfgs.to_vec();
    let n = all.len();
    let per = 500;
    for lo in (0..n).step_by(per) {
        let (all, cfgs) = (all.clone(), cfgs.clone());
        jobs.push(Job {
            family: "word orders",
            run: Box::new(move |ctx| {
                for (i, q) in all[lo..(lo + per).min(n)].iter().enumerate() {
                    let cfg = cfgs[i % cfgs.len()];
                    let p = Probe::new(cfg, true, q, DECISION);
                    let mut cs = telling_cands(&p.model);
                    cs.truncate(24);
                    for f in ["", "a", "ab", "c", "abc", "b", "|", "a b"] {
                        if !cs.iter().any(|c| c.s == f) {
                            cs.push(Cand::new(f));
                        }
                    }
                    p.walk(|w| {
                        for c in &cs {
                            if !ctx.full() {
                                w.step(ctx, &c.s, &c.cs);
                            }
                        }
                    });
                }
            }),
        });
    }
}

/// The spaces whose answers are compared across builds (C23) and walked under
/// the sanitizer (C22).
fn shared_spaces(algos: &'static [Algo], deep: i32, th: bool) -> Vec<Job> {
    let mut jobs = Vec::new();
    let plain: Vec<Cfg> = algos.iter().map(|&a| Cfg::plain(a)).collect();
    let cfgs = with_schemes(algos);
    let modes = with_cases(algos);
    let d = |n: i32| (n + deep).max(1) as usize;
    letters(&mut jobs, &KINDS, &cfgs, TOTAL, 3, d(5));
    let qs = all_strings(&chars("aB1/ -"), 1, 2);
    classes(&mut jobs, &KINDS, &plain, TOTAL, &qs, "aAbB1 /-,", d(3));
    classes(&mut jobs, &KINDS, &cfgs, TOTAL, &["b".into(), "B1".into()], "aB1 /-", d(3));
    unicode(&mut jobs, &KINDS, &modes, TOTAL, 1, d(3));
    unicode(&mut jobs, &KINDS, &modes, TOTAL, 2, d(2));
    mixed(&mut jobs, &KINDS, algos, TOTAL, 2);
    spaces(&mut jobs, &KINDS, &plain, TOTAL, 2, d(4));
    cases(&mut jobs, &KINDS, &modes, TOTAL, 2, d(4));
    gaps(&mut jobs, &[Kind::Fuzzy], &plain, TOTAL, "ab", 3, &[0, 1, 2, 7, 40], &["x", "é "], &["ab", "aab", "abab"]);
    let c = cands(all_strings(&chars("abc "), 0, d(3)));
    combinations(&mut jobs, &plain, TOTAL, &combos(&pool(if th { 16 } else { 8 }), 3), &c);
    for q in all_strings(&chars("aeé"), 1, 2) {
        for &cfg in &modes {
            for k in KINDS {
                let t = write_term(k, false, &q);
                let p = Probe::new(cfg, true, &t, TOTAL);
                walk_strings(&mut jobs, "accents", p, &chars("aeéÉñ"), 0, d(3));
            }
        }
    }
    many_terms(&mut jobs, &plain, TOTAL, &[1, 2, 31, 32, 33, 63, 64, 65, 128]);
    grammar(&mut jobs, &plain, true, TOTAL, "aA \\|!'^$é", 0, if th { 5 } else { 3 });
    grammar(&mut jobs, &plain, false, TOTAL, "a \\|!'^$é", 0, if th { 4 } else { 3 });
    long_cands(&mut jobs, &KINDS, &plain, TOTAL, &[63, 64, 65, 127, 128, 129, 255, 256, 257, 1025]);
    long_terms(&mut jobs, &KINDS, &plain, TOTAL, &TERM_LENGTHS);
    crowded(&mut jobs, &KINDS, &plain, TOTAL, &[0, 1, 2, 7, 8, 9, 33, 65, 129]);
    custom::scalar_totality(&mut jobs, algos, if th { custom::LAST } else { 0x3000 }, th);
    ascii_pairs(&mut jobs, &KINDS, algos, TOTAL);
    space_runs(&mut jobs, &KINDS, algos, TOTAL, false);
    many_marks(&mut jobs, algos, TOTAL, false);
    custom::defaults(&mut jobs, algos);
    texts::widths(&mut jobs, &KINDS, algos, TOTAL);
    texts::self_matches(&mut jobs, &KINDS, algos, TOTAL, false);
    texts::repeated_texts(&mut jobs, algos, TOTAL, false);
    texts::spaced_groups(&mut jobs, algos, TOTAL, false);
    texts::two_misses(&mut jobs, &KINDS, algos, TOTAL, false);
    texts::every_term_length(&mut jobs, &KINDS, algos, TOTAL, false);
    texts::odd_ends(&mut jobs, algos, TOTAL);
    scale::decoys(&mut jobs, algos, TOTAL, false);
    scale::alignments(&mut jobs, &KINDS, algos, TOTAL, if th { 8 } else { 4 }, 20);
    for &cfg in &plain {
        mark_runs(&mut jobs, cfg, true, TOTAL, false);
    }
    jobs
}

fn algos_named(name: &str) -> &'static [Algo] {
    match name {
        "V1" => &ALGOS[..1],
        "V2" => &ALGOS[1..],
        _ => panic!("V1 or V2"),
    }
}

/// Writes a digest of every job's answers.
pub fn digest(algo: &str, out: &str) -> i32 {
    report::init("C23");
    install_handlers();
    KEEP.store(DIGEST, Relaxed);
    let jobs = shared_spaces(algos_named(algo), 0, thorough());
    let r = explore(jobs, Duration::from_secs(700), None);
    let mut o = format!(
        "{} {} {} {} {}\n",
        r.total.states,
        r.total.calls,
        r.total.traces,
        r.outcomes,
        r.exhaustive as u8
    );
    for (i, (family, d)) in &r.digests {
        o.push_str(&format!("{i}\t{family}\t{d}\n"));
    }
    std::fs::write(out, o).expect("digest file");
    0
}

/// Prints every answer of one job.
pub fn dump(algo: &str, job: usize) -> i32 {
    report::init("C23");
    install_handlers();
    KEEP.store(DUMP, Relaxed);
    let jobs = shared_spaces(algos_named(algo), 0, thorough());
    let r = explore(jobs, Duration::from_secs(700), Some(job));
    for v in &r.violations {
        println!("{} in {}", v.actual, v.note);
    }
    0
}

/// Compares digests: `files` are `label=path`, the first one the reference of
/// those with the same metric (the label's last two characters).
pub fn compare_digests(files: &[String]) -> i32 {
    report::init("C23");
    struct File {
        label: String,
        head: Vec<u64>,
        jobs: Vec<(usize, String, String)>,
    }
    let mut all: Vec<File> = Vec::new();
    for f in files {
        let (label, path) = f.split_once('=').expect("label=path");
        let text = std::fs::read_to_string(path).expect("digest file");
        let mut lines = text.lines();
        let head = lines
            .next()
            .unwrap_or("")
            .split(' ')
            .map(|x| x.parse().expect("count"))
            .collect();
        let jobs = lines
            .map(|l| {
                let f: Vec<&str> = l.split('\t').collect();
                (f[0].parse().unwrap(), f[1].to_string(), f[2].to_string())
            })
            .collect();
        all.push(File { label: label.into(), head, jobs });
    }
    let mut rep = Report::empty();
    let mut extra = Vec::new();
    for f in &all {
        rep.total.states += f.head[0];
        rep.total.calls += f.head[1];
        rep.total.traces += f.head[2];
        rep.outcomes += f.head[3];
        rep.exhaustive &= f.head[4] == 1;
        rep.jobs_done += f.jobs.len();
        rep.jobs_total += f.jobs.len();
        rep.samples.push(format!("{}: job 0 {:?}", f.label, f.jobs.first()));
        extra.push((format!("calls_{}", f.label), f.head[1]));
    }
    if let Ok(s) = std::env::var("ELSEWHERE_CASES") {
        extra.push(("cases_on_other_targets".to_string(), s.parse().unwrap_or(0)));
    }
    for metric in ["V1", "V2"] {
        let of: Vec<&File> =
            all.iter().filter(|f| f.label.ends_with(metric)).collect();
        for f in &of[1..] {
            for (a, b) in of[0].jobs.iter().zip(&f.jobs) {
                rep.total.compared += 1;
                let differ = match (a.2.split_once(' '), b.2.split_once(' ')) {
                    // Without scores: what remains.
                    (Some((_, x)), Some(("-", y))) => x != y,
                    _ => a.2 != b.2,
                } || (a.0, &a.1) != (b.0, &b.1);
                if differ && rep.violations.is_empty() {
                    rep.violations.push(Violation {
                        family: a.1.clone(),
                        job: a.0,
                        ops: vec![],
                        expected: format!("{}: {}", of[0].label, a.2),
                        actual: format!("{}: {}", f.label, b.2),
                        note: format!(
                            "builds {} and {} answer job {} differently (see normcheck dump {metric} {})",
                            of[0].label, f.label, a.0, a.0
                        ),
                    });
                }
            }
            if of[0].jobs.len() != f.jobs.len() && rep.violations.is_empty() {
                eprintln!("{} and {} did not do the same jobs", of[0].label, f.label);
                return 3;
            }
        }
    }
    report::finish(
        &rep,
        &Meta {
            rule: "every build (either metric alone, both; with and without optimisation, debug assertions and overflow checks) gives the same answers: equal digests of all answers of every job (the builds of one metric alone are those of an ordinary user, in which scores can't be read: decisions, ranges and the order of the distances)",
            assumptions: vec!["other targets (32-bit, big-endian) are interpreted, on smaller spaces".into()],
            extra,
        },
    )
}

/// The same spaces, smaller, in a build instrumented by AddressSanitizer.
pub fn sanitized() -> i32 {
    report::init("C22");
    install_handlers();
    let th = thorough();
    // Panics don't stop this walk.
    KEEP.store(DIGEST, Relaxed);
    // In the build without debug assertions: what fills and grows buffers.
    let release = !cfg!(debug_assertions);
    let mut jobs = Vec::new();
    if release {
        let both = [Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)];
        long_cands(&mut jobs, &KINDS, &both, TOTAL, &[63, 64, 65, 127, 128, 129, 256, 257, 1025]);
        long_terms(&mut jobs, &KINDS, &both, TOTAL, &TERM_LENGTHS);
        many_terms(&mut jobs, &both, TOTAL, &[1, 2, 31, 32, 33, 63, 64, 65, 128, 300]);
        texts::every_term_length(&mut jobs, &KINDS, &ALGOS, TOTAL, false);
        many_marks(&mut jobs, &ALGOS, TOTAL, false);
        unicode(&mut jobs, &KINDS, &both, TOTAL, 2, 2);
        classes(&mut jobs, &KINDS, &both, TOTAL, &["b".into(), "B1".into(), "a b".into()], "aB1 /-", 3);
        grammar(&mut jobs, &both, true, TOTAL, "aA \\|!'^$é", 0, 3);
        for cfg in both {
            mark_runs(&mut jobs, cfg, true, TOTAL, false);
        }
    } else {
        jobs = shared_spaces(&ALGOS, if th { 1 } else { -1 }, th);
    }
    if !th && !release {
        // The rest of the scalars.
        custom::scalar_totality(&mut jobs, &ALGOS, custom::LAST, false);
    }
    custom::accumulate(&mut jobs, &[Cfg::plain(Algo::V1), Cfg::plain(Algo::V2)], 2);
    custom::histories(&mut jobs, if th { 4 } else { 3 }, true, true);
    custom::growth(&mut jobs, vec![2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 1025]);
    custom::parser_histories(&mut jobs, if th { 3 } else { 2 });
    windows::parser_lives(&mut jobs, false);
    windows::instance_lives(&mut jobs, false);
    custom::parser_lengths(&mut jobs, (0..=10).chain(60..=68).chain(126..=130).chain([256, 257, 300]).collect());
    // Wrong answers and panics are other properties' business; a rejected
    // access ends the process.
    let r = explore(jobs, Duration::from_secs(500), None);
    let mut extra = Vec::new();
    if let Ok(s) = std::env::var("MIRI_CALLS") {
        extra.push(("calls_in_interpreter".to_string(), s.parse().unwrap_or(0)));
    }
    report::finish(
        &r,
        &Meta {
            rule: "no call of the spaces makes an access that AddressSanitizer rejects, and none of the smaller spaces executes an operation that Miri rejects",
            assumptions: vec![
                "AddressSanitizer sees the allocations' bounds and lifetimes, not aliasing or validity; Miri sees those too, on the smaller spaces".into(),
            ],
            extra,
        },
    )
}

pub fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let prop = text.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("?");
    report::init(prop);
    let mut parser = norm::fzf::FzfParser::new();
    let mut insts: Vec<Option<crate::real::Inst>> = vec![None, None];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("op ") else { continue };
        let f: Vec<&str> = rest.split(' ').collect();
        let cfg = Cfg::decode(f[0].parse().unwrap());
        let ext = f[1] != "parse_not_extended";
        let (qs, cand) = (report::unhex(f[2]), report::unhex(f[3]));
        let cs = chars(&cand);
        let qm = if ext { parse(&qs) } else { parse_plain(&qs) };
        let q = crate::real::parse(&mut parser, ext, cfg, &qs);
        let inst = insts[cfg.algo as usize].get_or_insert_with(|| crate::real::Inst::new(cfg.algo));
        inst.set(cfg);
        let mut buf = vec![];
        let s = inst.ranges(cfg, &qs, q, &cand, &mut buf);
        let d = inst.distance(cfg, &qs, q, &cand);
        println!("{} {:?} on {:?}", cfg.text(), clip(&qs), clip(&cand));
        println!("  real : distance {d:?}, with ranges {s:?} {}", show_ranges(&buf));
        match eval(&qm, &cs, cfg) {
            None => println!("  model: no match"),
            Some(o) => println!("  model: score {} {}", o.score, show_ranges(&mark_ranges(&cs, &o.marks))),
        }
    }
    0
}
