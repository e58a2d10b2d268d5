//! The bounded spaces the checks walk exhaustively. Every function appends
//! jobs; a job is one (configuration, query) pair over a set of candidates,
//! or a slice of it.

use std::sync::Arc;

use crate::engine::{Ctx, Job};
use crate::model::{self, Algo, Case, Cfg, Kind, Scheme, CASES, SCHEMES};
use crate::oracle::{all_strings, strings_from, Probe};

pub struct Cand {
    pub s: String,
    pub cs: Vec<char>,
}

impl Cand {
    pub fn new(s: impl Into<String>) -> Cand {
        let s = s.into();
        let cs = s.chars().collect();
        Cand { s, cs }
    }
}

pub type Cands = Arc<Vec<Cand>>;

pub fn cands(v: impl IntoIterator<Item = String>) -> Cands {
    Arc::new(v.into_iter().map(Cand::new).collect())
}

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

/// One probe over every string of `alphabet` with a length in `lo..=hi`.
pub fn walk_strings(
    jobs: &mut Vec<Job>,
    family: &'static str,
    probe: Probe,
    alphabet: &[char],
    lo: usize,
    hi: usize,
) {
    let probe = Arc::new(probe);
    let alphabet: Arc<Vec<char>> = Arc::new(alphabet.to_vec());
    let k = alphabet.len();
    // Split so that a job stays below some 100k candidates.
    let mut split = 0;
    while k.pow((hi - split) as u32) > 150_000 && split < hi {
        split += 1;
    }
    {
        let (probe, alphabet) = (probe.clone(), alphabet.clone());
        let top = if split == 0 { hi } else { hi - 1 };
        jobs.push(Job {
            family,
            run: Box::new(move |ctx: &mut Ctx| {
                probe.walk(|w| {
                    for len in lo..=top {
                        strings_from(&alphabet, &[], len, &mut |s, cs| {
                            if !ctx.full() {
                                w.step(ctx, s, cs);
                            }
                        });
                    }
                })
            }),
        });
    }
    if split > 0 {
        for head in all_strings(&alphabet, split, split) {
            let head = chars(&head);
            let (probe, alphabet) = (probe.clone(), alphabet.clone());
            jobs.push(Job {
                family,
                run: Box::new(move |ctx: &mut Ctx| {
                    probe.walk(|w| {
                        strings_from(&alphabet, &head, hi, &mut |s, cs| {
                            if !ctx.full() {
                                w.step(ctx, s, cs);
                            }
                        });
                    })
                }),
            });
        }
    }
}

/// Many probes over one list of candidates; `per_job` probes per job.
pub fn walk_list(
    jobs: &mut Vec<Job>,
    family: &'static str,
    probes: Vec<Probe>,
    cands: &Cands,
    per_job: usize,
) {
    let mut it = probes.into_iter().peekable();
    while it.peek().is_some() {
        let chunk: Vec<Probe> = it.by_ref().take(per_job.max(1)).collect();
        let cands = cands.clone();
        jobs.push(Job {
            family,
            run: Box::new(move |ctx: &mut Ctx| {
                for p in &chunk {
                    p.walk(|w| {
                        for c in cands.iter() {
                            if ctx.full() {
                                return;
                            }
                            w.step(ctx, &c.s, &c.cs);
                        }
                    });
                }
            }),
        });
    }
}

/// Probes with their own candidates.
pub fn walk_pairs(
    jobs: &mut Vec<Job>,
    family: &'static str,
    pairs: Vec<(Probe, Vec<Cand>)>,
    per_job: usize,
) {
    let mut it = pairs.into_iter().peekable();
    while it.peek().is_some() {
        let chunk: Vec<_> = it.by_ref().take(per_job.max(1)).collect();
        jobs.push(Job {
            family,
            run: Box::new(move |ctx: &mut Ctx| {
                for (p, cands) in &chunk {
                    p.walk(|w| {
                        for c in cands.iter() {
                            if ctx.full() {
                                return;
                            }
                            w.step(ctx, &c.s, &c.cs);
                        }
                    });
                }
            }),
        });
    }
}

// --------------------------------------------------------------- term texts

/// How to write a term of the given kind in extended mode.
pub fn write_term(kind: Kind, inverse: bool, text: &str) -> String {
    let mut t = String::new();
    if inverse {
        t.push('!');
    }
    let esc = text.replace(' ', "\\ ");
    match (kind, inverse) {
        (Kind::Fuzzy, false) | (Kind::Exact, true) => t.push_str(&esc),
        (Kind::Fuzzy, true) | (Kind::Exact, false) => {
            t.push('\'');
            t.push_str(&esc);
        },
        (Kind::Prefix, _) => {
            t.push('^');
            t.push_str(&esc);
        },
        (Kind::Suffix, _) => {
            t.push_str(&esc);
            t.push('$');
        },
        (Kind::Equal, _) => {
            t.push('^');
            t.push_str(&esc);
            t.push('$');
        },
    }
    t
}

pub const KINDS: [Kind; 5] =
    [Kind::Fuzzy, Kind::Exact, Kind::Prefix, Kind::Suffix, Kind::Equal];
pub const ANCHORED: [Kind; 4] =
    [Kind::Exact, Kind::Prefix, Kind::Suffix, Kind::Equal];

pub fn with_schemes(algos: &[Algo]) -> Vec<Cfg> {
    let mut v = Vec::new();
    for &algo in algos {
        for scheme in SCHEMES {
            v.push(Cfg { algo, case: Case::Smart, norm: false, scheme });
        }
    }
    v
}

pub fn with_cases(algos: &[Algo]) -> Vec<Cfg> {
    let mut v = Vec::new();
    for &algo in algos {
        for case in CASES {
            for norm in [false, true] {
                v.push(Cfg { algo, case, norm, scheme: Scheme::Default });
            }
        }
    }
    v
}

/// Every combination of settings.
pub fn with_all(algos: &[Algo]) -> Vec<Cfg> {
    let mut v = Vec::new();
    for &algo in algos {
        for case in CASES {
            for norm in [false, true] {
                for scheme in SCHEMES {
                    v.push(Cfg { algo, case, norm, scheme });
                }
            }
        }
    }
    v
}

// ----------------------------------------------------------------- families

/// Fuzzy terms over letters: every query over {a,b} (and some over {a,b,c})
/// against every candidate over {a,b,x}.
pub fn letters(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    qlen: usize,
    clen: usize,
) {
    let al = chars("abx");
    for &cfg in cfgs {
        for q in all_strings(&chars("ab"), 1, qlen) {
            for &k in kinds {
                let t = write_term(k, false, &q);
                let p = Probe::new(cfg, true, &t, aspects);
                walk_strings(jobs, "letters", p, &al, 0, clen);
            }
        }
    }
}

/// Every mix of character classes: lower, upper, digit, white space,
/// delimiter, other punctuation.
pub fn classes(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    queries: &[String],
    alphabet: &str,
    clen: usize,
) {
    let al = chars(alphabet);
    for &cfg in cfgs {
        for q in queries {
            for &k in kinds {
                let t = write_term(k, false, q);
                let p = Probe::new(cfg, true, &t, aspects);
                walk_strings(jobs, "classes", p, &al, 0, clen);
            }
        }
    }
}

/// Letters separated by gaps of chosen lengths, each optionally at a word
/// start: reaches gap penalties that outgrow what was scored before.
pub fn gaps(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    letters: &str,
    pieces: usize,
    gap_lens: &[usize],
    filler: &[&str],
    queries: &[&str],
) {
    for fill in filler {
        // Candidates: letter (gap letter)*, all choices.
        let mut list: Vec<String> = vec![String::new()];
        let mut all: Vec<String> = Vec::new();
        for n in 0..pieces {
            let mut next = Vec::new();
            for base in &list {
                for l in letters.chars() {
                    if n == 0 {
                        next.push(l.to_string());
                    } else {
                        for &g in gap_lens {
                            let mut s = base.clone();
                            for i in 0..g {
                                let f: Vec<char> = fill.chars().collect();
                                s.push(f[i % f.len()]);
                            }
                            s.push(l);
                            next.push(s);
                        }
                    }
                }
            }
            all.extend(next.iter().cloned());
            list = next;
        }
        let cs = cands(all);
        let mut probes = Vec::new();
        for &cfg in cfgs {
            for q in queries {
                for &k in kinds {
                    let t = write_term(k, false, q);
                    probes.push(Probe::new(cfg, true, &t, aspects));
                }
            }
        }
        walk_list(jobs, "gaps", probes, &cs, 1);
    }
}

/// Candidates crowded with the query's own letters: a unit repeated any
/// number of times between a head and a tail, ASCII and not.
pub fn crowded(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    counts: &[usize],
) {
    let units = ["a", "b", "ab", "ba", "a ", "-b", "aB", "xb", "abx", "aab", "A/"];
    let mut all = Vec::new();
    for unit in units {
        for &n in counts {
            let mid = unit.repeat(n);
            for head in ["", "a", "x", "b-"] {
                for tail in ["", "b", " b", "/ab", "ba", "Ab", "c"] {
                    all.push(format!("{head}{mid}{tail}"));
                    all.push(format!("{head}{mid}{tail}é"));
                }
            }
        }
    }
    let cs = cands(all);
    let mut probes = Vec::new();
    for &cfg in cfgs {
        for q in ["a", "b", "ab", "bb", "aab", "aB", "abb"] {
            for &k in kinds {
                probes.push(Probe::new(cfg, true, &write_term(k, false, q), aspects));
            }
        }
    }
    walk_list(jobs, "crowded", probes, &cs, 1);
}

/// The numbers of repetitions in crowded candidates.
pub fn crowds(thorough: bool) -> Vec<usize> {
    if thorough {
        (0..=70).chain(124..=133).chain(252..=260).chain([300, 511, 512, 513, 1025]).collect()
    } else {
        (0..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect()
    }
}

pub const WIDE: &str = "aAéÉ日😀 /";

/// Characters of one to four bytes, both cases, accents.
pub fn unicode(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    qlen: usize,
    clen: usize,
) {
    let al = chars(WIDE);
    let qal = chars("aAéÉ日😀");
    for &cfg in cfgs {
        for q in all_strings(&qal, 1, qlen) {
            for &k in kinds {
                let t = write_term(k, false, &q);
                let p = Probe::new(cfg, true, &t, aspects);
                walk_strings(jobs, "unicode", p, &al, 0, clen);
            }
        }
    }
}

/// Both cases, accents, a digit, white space and a delimiter under every
/// combination of settings.
pub fn mixed(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, clen: usize) {
    let al = chars("aAéÉ1 /");
    for cfg in with_all(algos) {
        for q in all_strings(&chars("aAéÉ1"), 1, 2) {
            for &k in kinds {
                let p = Probe::new(cfg, true, &write_term(k, false, &q), aspects);
                walk_strings(jobs, "mixed", p, &al, 0, clen);
            }
        }
    }
}

/// Terms of several characters of one to three bytes in candidates that are
/// never ASCII alone.
pub fn wide_letters(jobs: &mut Vec<Job>, kinds: &[Kind], cfgs: &[Cfg], aspects: u32, qlen: usize, clen: usize) {
    for (qal, cal) in [("éж", "éжx"), ("aé", "aé日"), ("aж", "aжA-")] {
        let (qal, cal) = (chars(qal), chars(cal));
        for &cfg in cfgs {
            for q in all_strings(&qal, 2, qlen) {
                for &k in kinds {
                    let p = Probe::new(cfg, true, &write_term(k, false, &q), aspects);
                    walk_strings(jobs, "wide letters", p, &cal, 0, clen - cal.len() / 4);
                }
            }
        }
    }
}

/// Upper and lower case letters in every case-sensitivity mode.
pub fn cases(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    qlen: usize,
    clen: usize,
) {
    let al = chars("aAbB");
    for &cfg in cfgs {
        for q in all_strings(&al, 1, qlen) {
            for &k in kinds {
                let t = write_term(k, false, &q);
                let p = Probe::new(cfg, true, &t, aspects);
                walk_strings(jobs, "cases", p, &al, 0, clen);
            }
        }
    }
}

/// Leading and trailing spaces in terms and candidates.
pub fn spaces(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    qlen: usize,
    clen: usize,
) {
    let al = chars("a \t\u{3000}");
    for &cfg in cfgs {
        for q in all_strings(&chars("a \t"), 1, qlen) {
            for &k in kinds {
                let t = write_term(k, false, &q);
                let p = Probe::new(cfg, true, &t, aspects);
                walk_strings(jobs, "spaces", p, &al, 0, clen);
            }
        }
    }
}

/// Every ASCII character in a term against every ASCII character in a
/// candidate, alone and beside others, the candidate all ASCII or not.
pub fn ascii_pairs(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32) {
    let all = || (0..128u8).map(char::from);
    let mut list = Vec::new();
    for c in all() {
        for s in [format!("{c}"), format!("a{c}"), format!("{c}a"), format!("x{c}xax{c}x"), format!("{c}\u{65e5}a{c}")] {
            list.push(s);
        }
    }
    let cs = cands(list);
    let mut probes = Vec::new();
    for &algo in algos {
        for (case, norm) in [(Case::Smart, false), (Case::Sensitive, false), (Case::Insensitive, true)] {
            let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
            for q in all() {
                for t in [format!("{q}"), format!("a{q}"), format!("{q}a")] {
                    if kinds.contains(&Kind::Fuzzy) {
                        probes.push(Probe::new(cfg, false, &t, aspects));
                    }
                    for &k in kinds {
                        if k != Kind::Fuzzy {
                            probes.push(Probe::new(cfg, true, &write_term(k, false, &t), aspects));
                        }
                    }
                }
            }
        }
    }
    walk_list(jobs, "ascii pairs", probes, &cs, 48);
}

/// One character among others that differ from it in one bit or by one: right
/// before it, right after it, everywhere else and in its place, at every
/// position of candidates around the sizes of machine words.
pub fn near_misses(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    let sizes: &[usize] = if thorough { &[2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 63, 64, 65] } else { &[2, 8, 9, 16, 17, 32, 33] };
    let mut letters: Vec<char> = (1..128u8).map(char::from).collect();
    letters.extend("éß\u{130}жת日\u{ff21}\u{1f600}".chars());
    for q in letters {
        let mut near: Vec<char> = (0..if q.is_ascii() { 7 } else { 17 })
            .filter_map(|b| char::from_u32(q as u32 ^ 1 << b))
            .chain([-1i32, 1].iter().filter_map(|d| char::from_u32((q as i32 + d) as u32)))
            .filter(|&d| d != q && d != '\0' && d.is_ascii() == q.is_ascii())
            .collect();
        near.sort();
        near.dedup();
        let mut list = Vec::new();
        for &n in sizes {
            for &d in &near {
                let others = vec![d; n];
                list.push(others.iter().collect::<String>());
                for at in 0..n {
                    let mut v = others.clone();
                    v[at] = q;
                    list.push(v.iter().collect());
                    let fill = if q == '.' || d == '.' { '_' } else { '.' };
                    let mut v = vec![fill; n];
                    v[at] = q;
                    if at > 0 {
                        v[at - 1] = d;
                        list.push(v.iter().collect());
                        v[at - 1] = fill;
                    }
                    if at + 1 < n {
                        v[at + 1] = d;
                        list.push(v.iter().collect());
                    }
                }
            }
        }
        list.sort();
        list.dedup();
        // Another character, to be looked for before and after.
        let z = *['~', '%', '@', '日'].iter().find(|z| **z != q && !near.contains(z)).unwrap();
        let around = cands(list.iter().flat_map(|s| [format!("{s}{z}"), format!("{z}{s}")]));
        let cs = cands(list);
        let mut probes = Vec::new();
        let mut two = Vec::new();
        for &algo in algos {
            let modes: &[(Case, bool)] = &[(Case::Smart, false), (Case::Sensitive, false), (Case::Insensitive, true)];
            let modes = if thorough { modes } else { &modes[q as usize % 2..][..2] };
            for &(case, norm) in modes {
                let cfg = Cfg { algo, case, norm, scheme: Scheme::Default };
                for &k in kinds {
                    probes.push(Probe::new(cfg, true, &write_term(k, false, &q.to_string()), aspects));
                    if k == Kind::Fuzzy {
                        two.push(Probe::new(cfg, true, &write_term(k, false, &format!("{q}{z}")), aspects));
                        two.push(Probe::new(cfg, true, &write_term(k, false, &format!("{z}{q}")), aspects));
                    }
                }
            }
        }
        walk_list(jobs, "near misses", two, &around, 2);
        walk_list(jobs, "near misses", probes, &cs, 2);
    }
}

/// Runs of any length of each character that means something in a query.
pub fn mark_runs(jobs: &mut Vec<Job>, cfg: Cfg, extended: bool, aspects: u32, thorough: bool) {
    let mut lens: Vec<usize> = (0..=40).collect();
    lens.extend([63, 64, 65, 66, 67, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513]);
    if thorough {
        lens.extend([1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537]);
    }
    for unit in ["\\", " ", "|", "| ", " |", "!", "'", "^", "$", "\t", "\\ ", "\\\\ ", "\\|", "!'", "'^", "! ", "$ ", "é", "\u{3000}"] {
        let lens = lens.clone();
        jobs.push(Job {
            family: "runs of marks",
            run: Box::new(move |ctx: &mut Ctx| {
                for &n in &lens {
                    let run = unit.repeat(n);
                    for t in [
                        format!("a{run}b"),
                        format!("{run}a"),
                        format!("a{run}"),
                        format!("a {run} b"),
                        format!("{run}"),
                        format!("'a{run}b$"),
                        format!("!{run}a | b"),
                        format!("é{run}日 c"),
                    ] {
                        if ctx.full() {
                            return;
                        }
                        let p = Probe::new(cfg, extended, &t, aspects);
                        let mut list = telling_cands(&p.model);
                        list.truncate(16);
                        for c in ["", "a", "b", "ab", "ba", "a b", "c日é"] {
                            list.push(Cand::new(c));
                        }
                        list.push(Cand::new(t.clone()));
                        list.push(Cand::new(t.replace('\\', "")));
                        p.walk(|w| {
                            for c in &list {
                                w.step(ctx, &c.s, &c.cs);
                            }
                        });
                    }
                }
            }),
        });
    }
}

/// Terms and candidates with any number of spaces at their ends.
pub fn space_runs(jobs: &mut Vec<Job>, kinds: &[Kind], algos: &[Algo], aspects: u32, thorough: bool) {
    let mut runs: Vec<usize> = (0..=17).collect();
    runs.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]);
    let mut huge = vec![];
    if thorough {
        runs.extend([100, 200, 300, 767, 768, 769, 1023, 1024, 1025]);
    }
    huge.extend([65_535, 65_536, 65_537]);
    for &algo in algos {
        let cfg = Cfg::plain(algo);
        for &k in kinds {
            let mut lens: Vec<(usize, bool)> = runs.iter().map(|&n| (n, false)).collect();
            // A matrix, or a search that starts over at every space, takes
            // too long for these.
            if k != Kind::Exact && !(k == Kind::Fuzzy && algo == Algo::V2) {
                lens.extend(huge.iter().map(|&n| (n, true)));
            }
            let mut pairs = Vec::new();
            for (n, big) in lens {
                let sp = |k: usize| " ".repeat(k);
                let mut near = vec![0, 1, n.saturating_sub(1), n, n + 1, n % 256, n % 65_536];
                near.sort_unstable();
                near.dedup();
                let texts = [format!("{}a", sp(n)), format!("b{}", sp(n)), format!("{}ab{}", sp(n), sp(n)), format!("a{}b", sp(n)), sp(n), "a".into(), "ab".into()];
                for (i, t) in texts.iter().enumerate() {
                    if t.is_empty() || n == 0 && i > 0 {
                        continue;
                    }
                    let mut cs = Vec::new();
                    for &l in &near {
                        for &r in &near {
                            if big && l != r && l != n && r != n {
                                continue;
                            }
                            cs.push(Cand::new(format!("{}a{}b{}", sp(l), if i == 3 { sp(n) } else { String::new() }, sp(r))));
                            if !big || i < 2 {
                                cs.push(Cand::new(format!("{}a{}", sp(l), sp(r))));
                                cs.push(Cand::new(format!("{}b{}", sp(l), sp(r))));
                            }
                        }
                        cs.push(Cand::new(sp(l)));
                        cs.push(Cand::new(format!("{}ab\u{3000}{}", sp(l), sp(l))));
                        cs.push(Cand::new(format!("{}\tab\t{}", sp(l), sp(l))));
                        cs.push(Cand::new(format!("x{}ab{}x", sp(l), sp(l))));
                    }
                    pairs.push((Probe::new(cfg, true, &write_term(k, false, t), aspects), cs));
                }
            }
            walk_pairs(jobs, "space runs", pairs, 3);
        }
    }
}

/// Candidate lengths around every power of two and type width the
/// implementation's buffers could care about.
pub fn long_lengths(thorough: bool) -> Vec<usize> {
    let mut v = vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    v.extend([511, 512, 513, 1023, 1024, 1025, 4097]);
    // And what people take for round.
    v.extend([99, 100, 101, 200, 201, 499, 500, 501, 999, 1000, 1001, 2001, 5001, 10_001]);
    if thorough {
        v.extend([150, 199, 400, 600, 750, 800, 900, 1499, 1500, 1501, 1999, 2000, 3000, 4999, 5000, 9_999, 10_000, 20_001, 50_001]);
        v.extend([2047, 2048, 2049, 4095, 4096, 8191, 8192, 8193]);
        v.extend([16384, 32767, 32768, 32769, 65535, 65536, 65537, 131073]);
    } else {
        v.extend([65537]);
    }
    v
}

fn placed(
    n: usize,
    filler: &str,
    at: &[(usize, char)],
) -> Option<String> {
    let f: Vec<char> = filler.chars().collect();
    let mut cs: Vec<char> = (0..n).map(|i| f[i % f.len()]).collect();
    for w in at.windows(2) {
        if w[0].0 >= w[1].0 {
            return None;
        }
    }
    for &(i, c) in at {
        if i >= n {
            return None;
        }
        cs[i] = c;
    }
    Some(cs.into_iter().collect())
}

/// Long candidates: a query of up to three characters placed at every choice
/// of positions from {0, 1, middle, 127, 128, 255, 256, n-2, n-1}.
pub fn long_cands(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    lengths: &[usize],
) {
    let fillers = ["x", "é", "x-é "];
    for &cfg in cfgs {
        for (q, alt) in [("a", "a"), ("ab", "ab"), ("aé", "aé"), ("abc", "abc")]
        {
            let _ = alt;
            let qcs = chars(q);
            for &k in kinds {
                let t = write_term(k, false, q);
                for &n in lengths {
                    let mut cs = Vec::new();
                    let mut spots =
                        vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
                    if qcs.len() < 3 {
                        spots.extend([126, 127, 128, 129, 254, 255, 256, 257]);
                    }
                    if n > 1500 && qcs.len() > 2 {
                        spots = vec![0, n / 2, n - 2, n - 1];
                    }
                    if n > 60_000 {
                        spots = vec![0, 65_534, 65_535, n - 1];
                        if qcs.len() > 2 && cfg.algo == Algo::V2 {
                            continue;
                        }
                    }
                    spots.sort();
                    spots.dedup();
                    spots.retain(|&s| s < n);
                    for f in fillers {
                        if n > 60_000 && f == "x-é " {
                            continue;
                        }
                        let mut add = |at: &[(usize, char)]| {
                            if let Some(s) = placed(n, f, at) {
                                cs.push(Cand::new(s));
                            }
                        };
                        add(&[]);
                        match qcs.len() {
                            1 => {
                                for &i in &spots {
                                    add(&[(i, qcs[0])]);
                                }
                            },
                            2 => {
                                for &i in &spots {
                                    add(&[(i, qcs[0]), (i + 1, qcs[1])]);
                                    for &j in &spots {
                                        if j > i + 1 {
                                            add(&[(i, qcs[0]), (j, qcs[1])]);
                                        }
                                    }
                                }
                            },
                            _ => {
                                for &i in &spots {
                                    add(&[
                                        (i, qcs[0]),
                                        (i + 1, qcs[1]),
                                        (i + 2, qcs[2]),
                                    ]);
                                    for &j in &spots {
                                        for &l in &spots {
                                            add(&[
                                                (i, qcs[0]),
                                                (j, qcs[1]),
                                                (l, qcs[2]),
                                            ]);
                                        }
                                    }
                                }
                            },
                        }
                    }
                    let p = Probe::new(cfg, true, &t, aspects);
                    walk_pairs(jobs, "long candidates", vec![(p, cs)], 1);
                }
            }
        }
    }
}

/// Long terms: a repeated unit of `n` characters against candidates that
/// contain it exactly, with a gap, with a last or first character missing,
/// and surrounded.
pub fn long_terms(
    jobs: &mut Vec<Job>,
    kinds: &[Kind],
    cfgs: &[Cfg],
    aspects: u32,
    lengths: &[usize],
) {
    for &cfg in cfgs {
        for unit in ["a", "ab", "aB1", "aé", "é"] {
            for &n in lengths {
                let u = chars(unit);
                let q: Vec<char> = (0..n).map(|i| u[i % u.len()]).collect();
                let qs: String = q.iter().collect();
                let mut list: Vec<String> = vec![
                    qs.clone(),
                    format!("x{qs}"),
                    format!("{qs}x"),
                    format!("x {qs}/y"),
                    format!("é{qs}日"),
                    q[1..].iter().collect(),
                    q[..n - 1].iter().collect(),
                    qs.to_uppercase(),
                ];
                for cut in [1, n / 2, n - 1] {
                    let l: String = q[..cut].iter().collect();
                    let r: String = q[cut..].iter().collect();
                    list.push(format!("{l}x{r}"));
                    list.push(format!("{l}-x-é {r}"));
                    list.push(format!("{l} {qs}"));
                }
                let cs: Vec<Cand> = list.into_iter().map(Cand::new).collect();
                let mut v = Vec::new();
                for &k in kinds {
                    let t = write_term(k, false, &qs);
                    let c: Vec<Cand> =
                        cs.iter().map(|c| Cand::new(c.s.clone())).collect();
                    v.push((Probe::new(cfg, true, &t, aspects), c));
                    if k == Kind::Fuzzy {
                        let c: Vec<Cand> =
                            cs.iter().map(|c| Cand::new(c.s.clone())).collect();
                        v.push((Probe::new(cfg, false, &qs, aspects), c));
                    }
                }
                walk_pairs(jobs, "long terms", v, 1);
            }
        }
    }
}

pub const TERM_LENGTHS: [usize; 11] =
    [2, 3, 31, 63, 64, 65, 127, 128, 129, 256, 257];

/// A pool of terms that covers every kind, both polarities, overlapping and
/// nested texts.
pub fn pool(n: usize) -> Vec<String> {
    [
        "a", "'ab", "!b", "ab", "^a", "b$", "!'ab", "^ab$", "b", "!^a", "!b$",
        "'b", "'c", "ba", "!^ab$", "'abc", "'bc", "a\\ b", "ac", "^ab", "!ab",
        "bc$", "^\\ a", "!'b",
    ]
    .iter()
    .take(n)
    .map(|s| s.to_string())
    .collect()
}

/// All combinations of up to `depth` pool terms joined by AND and OR.
pub fn combos(pool: &[String], depth: usize) -> Vec<String> {
    let mut out: Vec<String> = pool.to_vec();
    let mut prev = pool.to_vec();
    for _ in 1..depth {
        let mut next = Vec::new();
        for a in &prev {
            for b in pool {
                next.push(format!("{a} {b}"));
                next.push(format!("{a} | {b}"));
            }
        }
        out.extend(next.iter().cloned());
        prev = next;
    }
    out
}

pub fn combinations(
    jobs: &mut Vec<Job>,
    cfgs: &[Cfg],
    aspects: u32,
    queries: &[String],
    cands: &Cands,
) {
    let mut probes = Vec::new();
    for &cfg in cfgs {
        for q in queries {
            probes.push(Probe::new(cfg, true, q, aspects));
        }
    }
    let per = (60_000 / cands.len().max(1)).max(1);
    walk_list(jobs, "combinations", probes, cands, per);
}

/// Many terms at once: `n` units in a row, with a last one that decides.
pub fn many_terms(
    jobs: &mut Vec<Job>,
    cfgs: &[Cfg],
    aspects: u32,
    counts: &[usize],
) {
    let units: [&[&str]; 8] = [
        &["a "],
        &["'b "],
        &["a | "],
        &["zz | "],
        &["!z "],
        &["a b "],
        &["ab | 'ba "],
        &["é | a !q "],
    ];
    let lasts = ["a", "z", "!a", "!z", "'ab", "a\\ b", "^ab$", "| a", "é"];
    let cs = cands(
        ["", "a", "ab", "ba", "abab", "a b", "xaxbx", "zab", "éab", "q", "aé"]
            .iter()
            .map(|s| s.to_string()),
    );
    let mut probes = Vec::new();
    for &cfg in cfgs {
        for u in units {
            for &n in counts {
                // Only a few for the really long ones.
                let lasts = if n > 300 { &lasts[1..4] } else { &lasts[..] };
                for l in lasts {
                    let q = format!("{}{l}", u.concat().repeat(n));
                    probes.push(Probe::new(cfg, true, &q, aspects));
                }
            }
        }
    }
    walk_list(jobs, "many terms", probes, &cs, 8);
}

/// A candidate of `n` words, each of which occurs once, four characters
/// apart.
fn words_apart(n: usize, wide: bool) -> Vec<String> {
    let al = chars(if wide { "bcdefghikl\u{e9}\u{436}" } else { "bcdefghiklmn" });
    (0..n)
        .map(|i| {
            // The same first letter nowhere else.
            let d = [i % 12, i / 12 % 12, i / 144 % 12];
            d.iter().map(|&d| al[d]).collect()
        })
        .collect()
}

/// Terms that mark many places of a candidate, in every of a few orders, and
/// one or two more that fall anywhere among them.
pub fn many_marks(jobs: &mut Vec<Job>, algos: &[Algo], aspects: u32, thorough: bool) {
    let mut counts = vec![2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257];
    if thorough {
        counts.extend([300, 511, 512, 513, 600, 1025]);
    }
    for &algo in algos {
        let cfg = Cfg::plain(algo);
        let mut pairs = Vec::new();
        for wide in [false, true] {
            for &n in &counts {
                let words = words_apart(n, wide);
                let cand = format!("_{}_", words.join("_"));
                let c = || vec![Cand::new(cand.clone())];
                let term = |i: usize| format!("'_{}", words[i]);
                let orders: [Vec<usize>; 4] = [
                    (0..n).collect(),
                    (0..n).rev().collect(),
                    (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                    (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
                ];
                for (o, order) in orders.iter().enumerate() {
                    // Of some words only the letters, so that the marks stay
                    // apart.
                    let gap = |i: usize| format!("'{}", words[i]);
                    let all: Vec<String> = order.iter().map(|&i| if o == 3 { term(i) } else { gap(i) }).collect();
                    let last = *order.last().unwrap();
                    let _ = last;
                    pairs.push((Probe::new(cfg, true, &all.join(" "), aspects), c()));
                    // Without one of them, and then one that falls there.
                    for hole in [0, 1, n / 2, n.saturating_sub(66), n.saturating_sub(64), n - 1] {
                        if hole >= n {
                            continue;
                        }
                        let some: Vec<&str> = order.iter().zip(&all).filter(|(&i, _)| i != hole).map(|(_, t)| t.as_str()).collect();
                        let mut ends = vec![gap(hole), term(hole)];
                        if hole + 1 < n {
                            ends.push(format!("'{}_{}", words[hole], words[hole + 1]));
                        }
                        if hole > 0 {
                            ends.push(format!("'{}_{}_", words[hole - 1], words[hole]));
                        }
                        ends.push(format!("'{}", words[hole..].join("_")));
                        ends.push(format!("'{}", words[..=hole].join("_")));
                        for e in ends {
                            let q = format!("{} {e}", some.join(" "));
                            pairs.push((Probe::new(cfg, true, q.trim_start(), aspects), c()));
                        }
                    }
                }
            }
        }
        walk_pairs(jobs, "many marks", pairs, 24);
    }
}

/// Candidates that tell the possible readings of a parsed query apart: built
/// from the model's own terms.
pub fn telling_cands(q: &model::Query) -> Vec<Cand> {
    let mut texts: Vec<String> = Vec::new();
    for t in q.0.iter().flatten() {
        let s: String = t.text.iter().collect();
        if !texts.contains(&s) {
            texts.push(s);
        }
    }
    let mut out: Vec<String> = vec![String::new(), "x".into()];
    let mut add = |s: String| {
        if !out.contains(&s) {
            out.push(s)
        }
    };
    for t in &texts {
        let cs = chars(t);
        add(t.clone());
        add(format!("x{t}"));
        add(format!("{t}x"));
        add(format!("x{t}x"));
        let mut spread = String::new();
        for c in &cs {
            spread.push(*c);
            spread.push('x');
        }
        add(format!("x{spread}"));
        add(cs[1..].iter().collect());
        add(cs[..cs.len() - 1].iter().collect());
        add(t.to_uppercase());
    }
    for a in &texts {
        for b in &texts {
            if a != b {
                add(format!("{a}{b}"));
                add(format!("{a}x{b}"));
            }
        }
    }
    if texts.len() > 2 {
        add(texts.concat());
        add(texts.join("x"));
        for skip in 0..texts.len() {
            let mut v = texts.clone();
            v.remove(skip);
            add(v.join("x"));
            v.reverse();
            add(v.join("x"));
        }
    }
    out.into_iter().map(Cand::new).collect()
}

/// Every query string over the grammar's alphabet up to a length, against
/// candidates that tell readings apart.
pub fn grammar(
    jobs: &mut Vec<Job>,
    cfgs: &[Cfg],
    extended: bool,
    aspects: u32,
    alphabet: &str,
    lo: usize,
    hi: usize,
) {
    let fixed: Vec<String> = [
        "", "a", "b", "ab", "ba", "a b", " ", "|", "a|b", "!a", "'a", "^a",
        "a$", "$", "\\", "a\\", " a", "a ", "xaxbx", "bb", "aa",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let al = chars(alphabet);
    let fixed = Arc::new(fixed);
    for &cfg in cfgs {
        for len in lo..=hi {
            let split = len.saturating_sub(3).min(4);
            for head in all_strings(&al, split, split) {
                let head = chars(&head);
                let al = al.clone();
                let fixed = fixed.clone();
                jobs.push(Job {
                    family: "grammar",
                    run: Box::new(move |ctx: &mut Ctx| {
                        strings_from(&al, &head, len, &mut |s, _| {
                            if ctx.full() {
                                return;
                            }
                            let p = Probe::new(cfg, extended, s, aspects);
                            let mut cs = telling_cands(&p.model);
                            for f in fixed.iter() {
                                if !cs.iter().any(|c| &c.s == f) {
                                    cs.push(Cand::new(f.clone()));
                                }
                            }
                            p.walk(|w| {
                                for c in &cs {
                                    if !ctx.full() {
                                        w.step(ctx, &c.s, &c.cs);
                                    }
                                }
                            });
                        });
                    }),
                });
            }
        }
    }
}

