//! The reference model: what a fuzzy-finder with fzf's semantics must answer.
//!
//! It is written from fzf's published algorithm and norm's documentation, works
//! on `Vec<char>` only, keeps no state between calls, and shares no code with
//! `/repo`. Everything is computed the slow and obvious way.

use crate::normtable;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Algo {
    V1,
    V2,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Case {
    Sensitive,
    Insensitive,
    Smart,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Scheme {
    Default,
    Path,
    History,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Cfg {
    pub algo: Algo,
    pub case: Case,
    pub norm: bool,
    pub scheme: Scheme,
}

pub const ALGOS: [Algo; 2] = [Algo::V1, Algo::V2];
pub const CASES: [Case; 3] = [Case::Sensitive, Case::Insensitive, Case::Smart];
pub const SCHEMES: [Scheme; 3] =
    [Scheme::Default, Scheme::Path, Scheme::History];

impl Cfg {
    pub fn code(&self) -> usize {
        ((self.algo as usize * 3 + self.case as usize) * 2
            + self.norm as usize)
            * 3
            + self.scheme as usize
    }

    pub fn decode(c: usize) -> Cfg {
        Cfg {
            algo: ALGOS[c / 18 % 2],
            case: CASES[c / 6 % 3],
            norm: c / 3 % 2 == 1,
            scheme: SCHEMES[c % 3],
        }
    }

    pub fn plain(algo: Algo) -> Cfg {
        Cfg {
            algo,
            case: Case::Smart,
            norm: false,
            scheme: Scheme::Default,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Term {
    pub kind: Kind,
    pub inverse: bool,
    pub text: Vec<char>,
}

/// A conjunction of disjunctions of terms.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Query(pub Vec<Vec<Term>>);

// ------------------------------------------------------------------ parsing

/// Splits a query into words: maximal runs of non-space characters, where a
/// backslash immediately before a space stands for that space.
pub fn words(s: &str) -> Vec<Vec<char>> {
    let cs: Vec<char> = s.chars().collect();
    let mut out: Vec<Vec<char>> = Vec::new();
    let mut cur: Option<Vec<char>> = None;
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && i + 1 < cs.len() && cs[i + 1] == ' ' {
            cur.get_or_insert_with(Vec::new).push(' ');
            i += 2;
        } else if cs[i] == ' ' {
            if let Some(w) = cur.take() {
                out.push(w);
            }
            i += 1;
        } else {
            cur.get_or_insert_with(Vec::new).push(cs[i]);
            i += 1;
        }
    }
    if let Some(w) = cur.take() {
        out.push(w);
    }
    out
}

/// One word to one term; `None` if nothing is left once the markers are gone.
pub fn term(word: &[char]) -> Option<Term> {
    let mut t: Vec<char> = word.to_vec();
    let mut inverse = false;
    let mut suffix = false;
    let mut kind = Kind::Fuzzy;
    if t.first() == Some(&'!') {
        inverse = true;
        kind = Kind::Exact;
        t.remove(0);
    }
    if t.len() > 1 && t.last() == Some(&'$') {
        suffix = true;
        kind = Kind::Suffix;
        t.pop();
    }
    if t.first() == Some(&'\'') {
        kind = if inverse { Kind::Fuzzy } else { Kind::Exact };
        t.remove(0);
    } else if t.first() == Some(&'^') {
        kind = if suffix { Kind::Equal } else { Kind::Prefix };
        t.remove(0);
    }
    if t.is_empty() {
        return None;
    }
    Some(Term { kind, inverse, text: t })
}

/// Extended-search mode: spaces AND, bars OR (binding tighter). A bar without a
/// term on one of its sides joins nothing.
pub fn parse(s: &str) -> Query {
    let mut groups: Vec<Vec<Term>> = Vec::new();
    let mut join = false;
    for w in words(s) {
        if w == ['|'] {
            join = !groups.is_empty();
            continue;
        }
        let Some(t) = term(&w) else { continue };
        if join {
            groups.last_mut().unwrap().push(t);
        } else {
            groups.push(vec![t]);
        }
        join = false;
    }
    Query(groups)
}

/// Non-extended mode: the whole string is one fuzzy term.
pub fn parse_plain(s: &str) -> Query {
    if s.is_empty() {
        return Query(vec![]);
    }
    Query(vec![vec![Term {
        kind: Kind::Fuzzy,
        inverse: false,
        text: s.chars().collect(),
    }]])
}

// -------------------------------------------------------- character equality

pub fn normalize(c: char) -> char {
    normtable::normalize(c)
}

/// The one-character lower case of `c`.
fn lower(c: char) -> char {
    c.to_lowercase().next().unwrap()
}

/// Case-blind comparison of a query and a candidate character. A non-ASCII
/// query character never matches an ASCII candidate character.
pub fn fold_eq(q: char, c: char) -> bool {
    if c.is_ascii() {
        q.to_ascii_lowercase() == c.to_ascii_lowercase()
    } else {
        lower(q) == lower(c)
    }
}

pub struct Eq {
    pub sensitive: bool,
    pub norm: bool,
}

impl Eq {
    pub fn new(cfg: Cfg, text: &[char]) -> Eq {
        let sensitive = match cfg.case {
            Case::Sensitive => true,
            Case::Insensitive => false,
            Case::Smart => text.iter().any(|c| c.is_uppercase()),
        };
        Eq { sensitive, norm: cfg.norm }
    }

    /// Does candidate character `c` match query character `q`?
    pub fn eq(&self, q: char, c: char) -> bool {
        let c = if self.norm && !normtable::in_blocks(q) {
            normalize(c)
        } else {
            c
        };
        if self.sensitive {
            q == c
        } else {
            fold_eq(q, c)
        }
    }
}

// ------------------------------------------------------------------- bonuses

pub const MATCH: i64 = 16;
pub const GAP_START: i64 = 3;
pub const GAP_EXT: i64 = 1;
pub const BOUNDARY: i64 = 8;
pub const NON_WORD: i64 = 8;
pub const CAMEL: i64 = 7;
pub const CONSECUTIVE: i64 = 4;
pub const FIRST_MULT: i64 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    White,
    NonWord,
    Delim,
    Lower,
    Upper,
    Letter,
    Number,
}

pub fn class(c: char, scheme: Scheme) -> Class {
    if c.is_ascii() {
        return match c {
            'a'..='z' => Class::Lower,
            'A'..='Z' => Class::Upper,
            '0'..='9' => Class::Number,
            ' ' | '\t' | '\n' | '\r' | '\x0c' => Class::White,
            '/' => Class::Delim,
            ',' | ':' | ';' | '|' if scheme != Scheme::Path => Class::Delim,
            _ => Class::NonWord,
        };
    }
    if c.is_lowercase() {
        Class::Lower
    } else if c.is_uppercase() {
        Class::Upper
    } else if c.is_numeric() {
        Class::Number
    } else if c.is_alphabetic() {
        Class::Letter
    } else if c.is_whitespace() {
        Class::White
    } else {
        Class::NonWord
    }
}

pub fn white_bonus(s: Scheme) -> i64 {
    match s {
        Scheme::Default => BOUNDARY + 2,
        Scheme::Path | Scheme::History => BOUNDARY,
    }
}

pub fn delim_bonus(s: Scheme) -> i64 {
    match s {
        Scheme::Default | Scheme::Path => BOUNDARY + 1,
        Scheme::History => BOUNDARY,
    }
}

pub fn initial_class(s: Scheme) -> Class {
    match s {
        Scheme::Path => Class::Delim,
        _ => Class::White,
    }
}

/// The bonus of a character of class `this` right after one of class `prev`.
pub fn bonus(prev: Class, this: Class, s: Scheme) -> i64 {
    use Class::*;
    match (prev, this) {
        (_, NonWord) => NON_WORD,
        (_, White) => white_bonus(s),
        (White, _) => white_bonus(s),
        (Delim, _) => delim_bonus(s),
        (NonWord, _) => BOUNDARY,
        (Lower, Upper) => CAMEL,
        (p, Number) if p != Number => CAMEL,
        _ => 0,
    }
}

/// The bonus at position `j` of the candidate.
pub fn bonus_at(cand: &[char], j: usize, s: Scheme) -> i64 {
    let prev =
        if j == 0 { initial_class(s) } else { class(cand[j - 1], s) };
    bonus(prev, class(cand[j], s), s)
}

// ------------------------------------------------------------------- scoring

/// Score of matching `text` left to right, greedily, within `lo..hi`; also
/// the positions that matched.
pub fn span_score(
    text: &[char],
    cand: &[char],
    lo: usize,
    hi: usize,
    eq: &Eq,
    s: Scheme,
) -> (i64, Vec<usize>) {
    let mut pos = Vec::with_capacity(text.len());
    for j in lo..hi {
        if pos.len() < text.len() && eq.eq(text[pos.len()], cand[j]) {
            pos.push(j);
        }
    }
    (alignment_score(cand, &pos, s), pos)
}

/// The score of one particular alignment (strictly increasing positions).
pub fn alignment_score(cand: &[char], pos: &[usize], s: Scheme) -> i64 {
    let mut score = 0;
    let mut first_of_run = 0;
    for (k, &j) in pos.iter().enumerate() {
        let b = bonus_at(cand, j, s);
        let consecutive = k > 0 && pos[k - 1] + 1 == j;
        let this = if consecutive {
            if b >= BOUNDARY && b > first_of_run {
                first_of_run = b;
            }
            b.max(first_of_run).max(CONSECUTIVE)
        } else {
            first_of_run = b;
            b
        };
        score += MATCH + if k == 0 { this * FIRST_MULT } else { this };
        if k > 0 {
            let gap = (j - pos[k - 1] - 1) as i64;
            if gap > 0 {
                score -= GAP_START + (gap - 1) * GAP_EXT;
            }
        }
    }
    score
}

pub type Hit = (i64, Vec<usize>);

/// v1: first subsequence occurrence, then shrunk from its right end.
pub fn fuzzy_v1(text: &[char], cand: &[char], eq: &Eq, s: Scheme) -> Option<Hit> {
    let mut k = 0;
    let mut end = None;
    for j in 0..cand.len() {
        if eq.eq(text[k], cand[j]) {
            k += 1;
            if k == text.len() {
                end = Some(j + 1);
                break;
            }
        }
    }
    let end = end?;
    let mut k = text.len();
    let mut start = end;
    while k > 0 {
        start -= 1;
        if eq.eq(text[k - 1], cand[start]) {
            k -= 1;
        }
    }
    Some(span_score(text, cand, start, end, eq, s))
}

/// v2: fzf's modified Smith-Waterman.
pub fn fuzzy_v2(text: &[char], cand: &[char], eq: &Eq, s: Scheme) -> Option<Hit> {
    let m = text.len();
    let n = cand.len();

    if m == 1 {
        // The best single occurrence, the earliest one on ties.
        let mut best: Option<(i64, usize)> = None;
        for j in 0..n {
            if eq.eq(text[0], cand[j]) {
                let sc = MATCH + bonus_at(cand, j, s) * FIRST_MULT;
                if best.map_or(true, |(b, _)| sc > b) {
                    best = Some((sc, j));
                }
            }
        }
        return best.map(|(sc, j)| (sc, vec![j]));
    }

    // First position at which each query character can match.
    let mut first = Vec::with_capacity(m);
    let mut j = 0;
    for k in 0..m {
        while j < n && !eq.eq(text[k], cand[j]) {
            j += 1;
        }
        if j == n {
            return None;
        }
        first.push(j);
        j += 1;
    }
    let last = (0..n).rev().find(|&j| eq.eq(text[m - 1], cand[j])).unwrap();

    let b: Vec<i64> = (0..n).map(|j| bonus_at(cand, j, s)).collect();
    let mut h = vec![vec![0i64; n]; m];
    let mut c = vec![vec![0usize; n]; m];
    let mut best = (0i64, 0usize);

    for k in 0..m {
        let mut in_gap = false;
        for j in first[k]..=last {
            let left = if j > first[k] { h[k][j - 1] } else { 0 };
            let skip = left - if in_gap { GAP_EXT } else { GAP_START };
            let mut take = 0i64;
            let mut run = 0usize;
            let matches = eq.eq(text[k], cand[j]);
            if matches {
                if k == 0 {
                    take = MATCH + b[j] * FIRST_MULT;
                    run = 1;
                } else {
                    take = h[k - 1][j - 1] + MATCH;
                    run = c[k - 1][j - 1] + 1;
                    let mut bb = b[j];
                    if run > 1 {
                        let fb = b[j + 1 - run];
                        if bb >= BOUNDARY && bb > fb {
                            run = 1;
                        } else {
                            bb = bb.max(CONSECUTIVE).max(fb);
                        }
                    }
                    if take + bb < skip {
                        take += b[j];
                        run = 0;
                    } else {
                        take += bb;
                    }
                }
            }
            if k == 0 && matches {
                // A first character always starts afresh.
                in_gap = false;
                h[k][j] = take;
            } else {
                in_gap = take < skip || (k == 0);
                h[k][j] = take.max(skip).max(0);
            }
            c[k][j] = run;
            if k == m - 1 && h[k][j] > best.0 {
                best = (h[k][j], j);
            }
        }
    }

    // Walk back from the best final cell.
    let mut pos = Vec::with_capacity(m);
    let mut k = m - 1;
    let mut j = best.1;
    let mut prefer = true;
    loop {
        let here = h[k][j];
        let diag = if k > 0 && j >= first[k] { h[k - 1][j - 1] } else { 0 };
        let left = if j > first[k] { h[k][j - 1] } else { 0 };
        let took = here > diag && (here > left || (here == left && prefer));
        prefer = c[k][j] > 1
            || (k + 1 < m && j + 1 <= last && c[k + 1][j + 1] > 0);
        if took {
            pos.push(j);
            if k == 0 {
                break;
            }
            k -= 1;
        }
        if j == 0 {
            break;
        }
        j -= 1;
    }
    pos.reverse();
    Some((best.0, pos))
}

pub fn fuzzy(text: &[char], cand: &[char], eq: &Eq, cfg: Cfg) -> Option<Hit> {
    match cfg.algo {
        Algo::V1 => fuzzy_v1(text, cand, eq, cfg.scheme),
        Algo::V2 => fuzzy_v2(text, cand, eq, cfg.scheme),
    }
}

fn occurs_at(text: &[char], cand: &[char], at: usize, eq: &Eq) -> bool {
    at + text.len() <= cand.len()
        && text.iter().zip(&cand[at..]).all(|(&q, &c)| eq.eq(q, c))
}

fn leading(cs: &[char]) -> usize {
    cs.iter().take_while(|&&c| c == ' ').count()
}

fn trailing(cs: &[char]) -> usize {
    cs.iter().rev().take_while(|&&c| c == ' ').count()
}

/// Where a non-fuzzy term occurs in the candidate, if it does.
pub fn span(t: &Term, cand: &[char], eq: &Eq, s: Scheme) -> Option<usize> {
    let len = t.text.len();
    match t.kind {
        Kind::Fuzzy => unreachable!(),
        Kind::Exact => {
            // The first occurrence at a word boundary, else the one whose
            // first character has the best bonus, the earliest on ties.
            let mut best: Option<(i64, usize)> = None;
            for at in 0..cand.len() {
                if occurs_at(&t.text, cand, at, eq) {
                    let b = bonus_at(cand, at, s);
                    if best.map_or(true, |(x, _)| b > x) {
                        best = Some((b, at));
                    }
                    if b >= BOUNDARY {
                        break;
                    }
                }
            }
            best.map(|(_, at)| at)
        },
        Kind::Prefix => {
            let skip = leading(cand).checked_sub(leading(&t.text))?;
            occurs_at(&t.text, cand, skip, eq).then_some(skip)
        },
        Kind::Suffix => {
            let drop = trailing(cand).checked_sub(trailing(&t.text))?;
            let at = (cand.len() - drop).checked_sub(len)?;
            occurs_at(&t.text, cand, at, eq).then_some(at)
        },
        Kind::Equal => {
            let skip = leading(cand).checked_sub(leading(&t.text))?;
            let drop = trailing(cand).checked_sub(trailing(&t.text))?;
            if skip + len + drop != cand.len() {
                return None;
            }
            occurs_at(&t.text, cand, skip, eq).then_some(skip)
        },
    }
}

/// A term alone, ignoring its negation.
pub fn positive(t: &Term, cand: &[char], cfg: Cfg) -> Option<Hit> {
    let eq = Eq::new(cfg, &t.text);
    if t.kind == Kind::Fuzzy {
        return fuzzy(&t.text, cand, &eq, cfg);
    }
    let at = span(t, cand, &eq, cfg.scheme)?;
    let pos: Vec<usize> = (at..at + t.text.len()).collect();
    Some((alignment_score(cand, &pos, cfg.scheme), pos))
}

pub fn eval_term(t: &Term, cand: &[char], cfg: Cfg) -> Option<Hit> {
    match (positive(t, cand, cfg), t.inverse) {
        (Some(hit), false) => Some(hit),
        (None, true) => Some((0, vec![])),
        _ => None,
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Out {
    pub score: i64,
    /// Highlighted characters, by index.
    pub marks: Vec<bool>,
}

pub fn eval(q: &Query, cand: &[char], cfg: Cfg) -> Option<Out> {
    let mut out = Out { score: 0, marks: vec![false; cand.len()] };
    for group in &q.0 {
        let (score, pos) =
            group.iter().find_map(|t| eval_term(t, cand, cfg))?;
        out.score += score;
        for j in pos {
            out.marks[j] = true;
        }
    }
    Some(out)
}

/// Does the candidate match at all? Independent of the scoring above.
pub fn matches(q: &Query, cand: &[char], cfg: Cfg) -> bool {
    q.0.iter().all(|g| g.iter().any(|t| term_matches(t, cand, cfg)))
}

pub fn term_matches(t: &Term, cand: &[char], cfg: Cfg) -> bool {
    let eq = Eq::new(cfg, &t.text);
    let hit = match t.kind {
        Kind::Fuzzy => {
            let mut k = 0;
            for &c in cand {
                if k < t.text.len() && eq.eq(t.text[k], c) {
                    k += 1;
                }
            }
            k == t.text.len()
        },
        Kind::Exact => {
            (0..cand.len()).any(|at| occurs_at(&t.text, cand, at, &eq))
        },
        _ => span(t, cand, &eq, cfg.scheme).is_some(),
    };
    hit != t.inverse
}
