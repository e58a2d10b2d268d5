//! Compares one answer of the implementation with the model.

use norm::fzf::{FzfParser, FzfQuery};

use crate::engine::{hash_of, Ctx, Op};
use crate::model::{self, Cfg, Kind, Query};
use crate::real::{self, Inst, Ranges};

// What of an answer is compared.

pub const DECISION: u32 = 1;
pub const SCORE: u32 = 2;
/// The set of highlighted characters is the model's.
pub const MARKS: u32 = 4;
/// Appended ranges are well-formed, pairwise disjoint, on character
/// boundaries; earlier contents survive; nothing is appended without a match.
pub const CONTRACT: u32 = 8;
/// `distance` and `distance_and_ranges` agree.
pub const AGREE: u32 = 16;
/// Single positive term: the highlighted characters spell it, in order.
pub const SPELL: u32 = 32;
/// The answer for a composite query is the one composed from the answers for
/// its single terms: decision and score.
pub const COMPOSE: u32 = 64;
/// As above, for the marked characters.
pub const COMPOSE_MARKS: u32 = 128;
/// Only the calls: an answer comes back at all.
pub const TOTAL: u32 = 256;

/// A parsed query with everything a walk over candidates needs.
pub struct Probe {
    pub cfg: Cfg,
    pub extended: bool,
    pub text: String,
    pub model: Query,
    pub aspects: u32,
}

pub struct Walker<'a> {
    pub inst: Inst,
    pub probe: &'a Probe,
    pub query: FzfQuery<'a>,
    buf: Ranges,
    /// What the buffer holds before the call.
    pub sentinel: Ranges,
    turn: usize,
    parsers: Vec<(String, FzfParser)>,
}

impl Probe {
    pub fn new(cfg: Cfg, extended: bool, text: &str, aspects: u32) -> Probe {
        let model = if extended {
            model::parse(text)
        } else {
            model::parse_plain(text)
        };
        Probe { cfg, extended, text: text.to_string(), model, aspects }
    }

    /// Parses the text for real and hands a walker to `f`.
    pub fn walk(&self, f: impl FnOnce(&mut Walker)) {
        let mut parser = FzfParser::new();
        let query =
            real::parse(&mut parser, self.extended, self.cfg, &self.text);
        let mut w = Walker {
            inst: Inst::with(self.cfg),
            probe: self,
            query,
            buf: Vec::with_capacity(8),
            sentinel: Vec::new(),
            turn: 0,
            parsers: Vec::new(),
        };
        f(&mut w);
    }
}

fn show(score: Option<i64>, ranges: &[std::ops::Range<usize>]) -> String {
    match score {
        None => format!("no match, appended {}", show_ranges(ranges)),
        Some(s) => format!("score {s}, appended {}", show_ranges(ranges)),
    }
}

pub fn show_ranges(r: &[std::ops::Range<usize>]) -> String {
    if r.len() > 40 {
        format!("{:?}... ({} ranges)", &r[..40], r.len())
    } else {
        format!("{r:?}")
    }
}

/// Byte ranges of a set of marked characters, coalesced.
pub fn mark_ranges(cand: &[char], marks: &[bool]) -> Ranges {
    let mut out: Ranges = Vec::new();
    let mut at = 0;
    for (i, c) in cand.iter().enumerate() {
        let end = at + c.len_utf8();
        if marks[i] {
            match out.last_mut() {
                Some(r) if r.end == at => r.end = end,
                _ => out.push(at..end),
            }
        }
        at = end;
    }
    out
}

/// Checks the shape of appended ranges; on success fills `marks` per char.
pub fn check_shape(
    cand: &str,
    n_chars: usize,
    got: &[std::ops::Range<usize>],
    marks: &mut Vec<bool>,
) -> Result<(), String> {
    marks.clear();
    marks.resize(n_chars, false);
    if got.is_empty() {
        return Ok(());
    }
    for r in got {
        if r.start >= r.end {
            return Err(format!("empty or reversed range {r:?}"));
        }
        if r.end > cand.len() {
            return Err(format!("range {r:?} ends past the candidate"));
        }
        if !cand.is_char_boundary(r.start) || !cand.is_char_boundary(r.end) {
            return Err(format!("range {r:?} splits a character"));
        }
    }
    let ascii = cand.len() == n_chars;
    if ascii {
        for r in got {
            for j in r.clone() {
                if marks[j] {
                    return Err(format!("byte {j} is covered twice"));
                }
                marks[j] = true;
            }
        }
    } else {
        let mut byte = vec![false; cand.len()];
        for r in got {
            for j in r.clone() {
                if byte[j] {
                    return Err(format!("byte {j} is covered twice"));
                }
                byte[j] = true;
            }
        }
        for (i, (b, _)) in cand.char_indices().enumerate() {
            marks[i] = byte[b];
        }
    }
    Ok(())
}

impl Walker<'_> {
    pub fn op(&self, cand: &str) -> Op {
        Op {
            cfg: self.probe.cfg,
            mode: real::mode_name(self.probe.extended),
            query: self.probe.text.clone(),
            cand: cand.to_string(),
        }
    }

    fn report(
        &self,
        ctx: &mut Ctx,
        cand: &str,
        cs: &[char],
        got: &str,
        why: &str,
    ) {
        let p = self.probe;
        let want = match model::eval(&p.model, cs, p.cfg) {
            None => "no match".to_string(),
            Some(o) => format!(
                "score {}, marked {}",
                o.score,
                show_ranges(&mark_ranges(cs, &o.marks))
            ),
        };
        let mut note = why.to_string();
        // Does it happen on a fresh instance too?
        let fresh = {
            let mut parser = FzfParser::new();
            let q = real::parse(&mut parser, p.extended, p.cfg, &p.text);
            let mut inst = Inst::with(p.cfg);
            let mut buf = self.sentinel.clone();
            let s = inst.ranges(p.cfg, &p.text, q, cand, &mut buf);
            let d = inst.distance(p.cfg, &p.text, q, cand);
            format!("{:?}/{:?}/{:?}", s, d, buf)
        };
        let again = {
            let mut inst = self.inst.clone();
            let mut buf = self.sentinel.clone();
            let s = inst.ranges(p.cfg, &p.text, self.query, cand, &mut buf);
            let d = inst.distance(p.cfg, &p.text, self.query, cand);
            format!("{:?}/{:?}/{:?}", s, d, buf)
        };
        if fresh != again {
            note.push_str(
                " (a fresh instance answers differently: depends on history, re-walk the job)",
            );
        }
        ctx.violation(vec![self.op(cand)], want, got.to_string(), note);
    }

    /// Runs one candidate through the implementation and compares.
    /// Returns the score.
    pub fn step(&mut self, ctx: &mut Ctx, cand: &str, cs: &[char]) -> Option<i64> {
        let p = self.probe;
        let asp = p.aspects;
        self.turn += 1;
        self.sentinel.clear();
        match self.turn % 3 {
            0 => {},
            1 => self.sentinel.extend([4..9, 1..2]),
            _ => self.sentinel.extend([0..1, 0..cand.len(), 2..3, 7..7]),
        }
        self.buf.clear();
        self.buf.extend_from_slice(&self.sentinel);
        let n0 = self.buf.len();
        let mut buf = std::mem::take(&mut self.buf);
        let got = self.inst.ranges(p.cfg, &p.text, self.query, cand, &mut buf);
        ctx.counts.states += 1;
        ctx.counts.calls += 1;
        if self.turn == 1 {
            // The parse that began this walk.
            ctx.counts.traces += 1;
            ctx.counts.calls += 1;
        }

        let mut bad: Option<String> = None;

        if asp & AGREE != 0 {
            let d = self.inst.distance(p.cfg, &p.text, self.query, cand);
            ctx.counts.calls += 1;
            if d != got {
                bad = Some(format!(
                    "distance says {d:?}, distance_and_ranges says {got:?}"
                ));
            }
        }

        if asp & CONTRACT != 0 && bad.is_none() {
            if buf.len() < n0 || buf[..n0] != self.sentinel[..] {
                bad = Some("earlier contents of the buffer changed".into());
            } else if got.is_none() && buf.len() != n0 {
                bad = Some("buffer changed although there is no match".into());
            }
        }

        let want = if asp & (SCORE | MARKS) != 0 {
            model::eval(&p.model, cs, p.cfg)
        } else {
            None
        };

        if asp & DECISION != 0 && bad.is_none() {
            let m = model::matches(&p.model, cs, p.cfg);
            if m != got.is_some() {
                bad = Some(
                    if m { "should match" } else { "should not match" }.into(),
                );
            }
        }

        if asp & SCORE != 0
            && bad.is_none()
            && want.as_ref().map(|o| o.score) != got
        {
            bad = Some("wrong score".into());
        }

        let mut marks = Vec::new();
        if asp & (CONTRACT | MARKS | SPELL) != 0
            && bad.is_none()
            && buf.len() >= n0
        {
            match check_shape(cand, cs.len(), &buf[n0..], &mut marks) {
                Err(e) => bad = Some(e),
                Ok(()) => {
                    if asp & MARKS != 0 && got.is_some() {
                        if let Some(o) = &want {
                            if o.marks != marks {
                                bad = Some("wrong characters marked".into());
                            }
                        }
                    }
                    if asp & SPELL != 0 && got.is_some() && bad.is_none() {
                        bad = spells(p, cs, &marks);
                    }
                },
            }
        }
        if asp & (COMPOSE | COMPOSE_MARKS) != 0 && bad.is_none() {
            bad = self.compose(ctx, cand, got, &buf[n0..]);
        }
        ctx.counts.compared += (asp & 0xff).count_ones().max(1) as u64;
        if got.is_some() {
            ctx.outcome(hash_of((got, &buf[n0..], p.cfg.code() as u64)));
        }
        ctx.answer(&p.text, cand, got, &buf);
        ctx.sample(|| {
            format!(
                "{} {} {:?} on {:?} -> {}",
                p.cfg.text(),
                real::mode_name(p.extended),
                clip(&p.text),
                clip(cand),
                show(got, &buf[n0.min(buf.len())..])
            )
        });
        if let Some(why) = bad {
            let g = show(got, &buf[n0.min(buf.len())..]);
            self.report(ctx, cand, cs, &g, &why);
        }
        self.buf = buf;
        got
    }
}

impl Walker<'_> {
    /// Predicts the answer from the implementation's own answers for each
    /// term alone.
    fn compose(
        &mut self,
        ctx: &mut Ctx,
        cand: &str,
        got: Option<i64>,
        ranges: &[std::ops::Range<usize>],
    ) -> Option<String> {
        let p = self.probe;
        if self.parsers.is_empty() {
            for g in &p.model.0 {
                for t in g {
                    let text: String = t.text.iter().collect();
                    let s =
                        crate::families::write_term(t.kind, t.inverse, &text);
                    self.parsers.push((s, FzfParser::new()));
                }
            }
        }
        let mut i = 0;
        let mut want = Some(0i64);
        let mut bytes = vec![false; cand.len()];
        let mut buf: Ranges = Vec::new();
        for g in &p.model.0 {
            let mut found = false;
            for _ in g {
                let (s, parser) = &mut self.parsers[i];
                i += 1;
                if found || want.is_none() {
                    continue;
                }
                let q = real::parse(parser, true, p.cfg, s);
                buf.clear();
                let r = self.inst.ranges(p.cfg, s, q, cand, &mut buf);
                ctx.counts.calls += 1;
                if let Some(sc) = r {
                    found = true;
                    *want.as_mut().unwrap() += sc;
                    for r in &buf {
                        for b in r.clone() {
                            bytes[b] = true;
                        }
                    }
                }
            }
            if !found {
                want = None;
            }
        }
        if p.aspects & COMPOSE != 0 && want != got {
            return Some(format!(
                "its terms alone compose to {want:?}, the query gives {got:?}"
            ));
        }
        if p.aspects & COMPOSE_MARKS != 0 && got.is_some() {
            let mut have = vec![false; cand.len()];
            for r in ranges {
                for b in r.clone() {
                    if b < have.len() {
                        have[b] = true;
                    }
                }
            }
            if want.is_some() && have != bytes {
                return Some(
                    "marks are not the union of what its terms mark alone"
                        .into(),
                );
            }
        }
        None
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 60 {
        let h: String = s.chars().take(60).collect();
        format!("{h}...")
    } else {
        s.to_string()
    }
}

/// Model-free: for a query of one positive term, the marked characters spell
/// it in order, and for a non-fuzzy term they are contiguous.
fn spells(p: &Probe, cs: &[char], marks: &[bool]) -> Option<String> {
    let [group] = &p.model.0[..] else { return None };
    let [t] = &group[..] else { return None };
    let pos: Vec<usize> = (0..cs.len()).filter(|&j| marks[j]).collect();
    if t.inverse {
        return (!pos.is_empty()).then(|| "a negated term marks".into());
    }
    if pos.len() != t.text.len() {
        return Some(format!(
            "{} characters marked for a term of {}",
            pos.len(),
            t.text.len()
        ));
    }
    let eq = model::Eq::new(p.cfg, &t.text);
    for (k, &j) in pos.iter().enumerate() {
        if !eq.eq(t.text[k], cs[j]) {
            return Some(format!("marked character {j} does not match"));
        }
    }
    if t.kind != Kind::Fuzzy && !pos.windows(2).all(|w| w[0] + 1 == w[1]) {
        return Some("marks of an exact term are not contiguous".into());
    }
    None
}

/// Calls `f` for every string over `alphabet` with a length in `lo..=hi`,
/// shortest first.
pub fn strings(
    alphabet: &[char],
    lo: usize,
    hi: usize,
    mut f: impl FnMut(&str, &[char]),
) {
    for len in lo..=hi {
        strings_from(alphabet, &[], len, &mut f);
    }
}

/// As `strings`, for strings of length exactly `len` that start with `head`.
pub fn strings_from(
    alphabet: &[char],
    head: &[char],
    len: usize,
    f: &mut impl FnMut(&str, &[char]),
) {
    if head.len() > len {
        return;
    }
    let free = len - head.len();
    let mut idx = vec![0usize; free];
    let mut cs: Vec<char> = head.to_vec();
    cs.extend(std::iter::repeat(*alphabet.first().unwrap_or(&'a')).take(free));
    let mut s = String::new();
    loop {
        s.clear();
        s.extend(cs.iter());
        f(&s, &cs);
        let mut i = free;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            idx[i] += 1;
            if idx[i] < alphabet.len() {
                cs[head.len() + i] = alphabet[idx[i]];
                break;
            }
            idx[i] = 0;
            cs[head.len() + i] = alphabet[0];
        }
    }
}

pub fn all_strings(alphabet: &[char], lo: usize, hi: usize) -> Vec<String> {
    let mut v = Vec::new();
    strings(alphabet, lo, hi, |s, _| v.push(s.to_string()));
    v
}
