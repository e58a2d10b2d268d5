//! The only file that talks to norm: its public API, and nothing else.

use std::ops::Range;

use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme};
use norm::{CaseSensitivity, Metric};

use std::sync::atomic::Ordering::Relaxed;

use crate::engine::{announce, idle, DIGEST, KEEP};
use crate::model::{Algo, Case, Cfg, Scheme, ALGOS};

pub type Ranges = Vec<Range<usize>>;

pub fn case_of(c: Case) -> CaseSensitivity {
    match c {
        Case::Sensitive => CaseSensitivity::Sensitive,
        Case::Insensitive => CaseSensitivity::Insensitive,
        Case::Smart => CaseSensitivity::Smart,
    }
}

pub fn scheme_of(s: Scheme) -> FzfScheme {
    match s {
        Scheme::Default => FzfScheme::Default,
        Scheme::Path => FzfScheme::Path,
        Scheme::History => FzfScheme::History,
    }
}

/// The metrics of this build.
pub fn built() -> &'static [Algo] {
    let (v1, v2) = (cfg!(feature = "v1"), cfg!(feature = "v2"));
    &ALGOS[usize::from(!v1)..1 + usize::from(v2)]
}

/// One instance of either metric.
#[derive(Clone)]
pub enum Inst {
    #[cfg(feature = "v1")]
    V1(norm::fzf::FzfV1),
    #[cfg(feature = "v2")]
    V2(norm::fzf::FzfV2),
}

macro_rules! each {
    ($self:expr, $m:ident => $e:expr) => {
        match $self {
            #[cfg(feature = "v1")]
            Inst::V1($m) => $e,
            #[cfg(feature = "v2")]
            Inst::V2($m) => $e,
        }
    };
}

impl Inst {
    pub fn new(algo: Algo) -> Inst {
        match algo {
            #[cfg(feature = "v1")]
            Algo::V1 => Inst::V1(norm::fzf::FzfV1::new()),
            #[cfg(feature = "v2")]
            Algo::V2 => Inst::V2(norm::fzf::FzfV2::new()),
            #[allow(unreachable_patterns)]
            _ => panic!("metric not built"),
        }
    }

    pub fn default_of(algo: Algo) -> Inst {
        match algo {
            #[cfg(feature = "v1")]
            Algo::V1 => Inst::V1(norm::fzf::FzfV1::default()),
            #[cfg(feature = "v2")]
            Algo::V2 => Inst::V2(norm::fzf::FzfV2::default()),
            #[allow(unreachable_patterns)]
            _ => panic!("metric not built"),
        }
    }

    /// All settings in one chained expression.
    pub fn chain(&mut self, cfg: Cfg) {
        each!(self, m => {
            m.set_scoring_scheme(scheme_of(cfg.scheme))
                .set_candidate_normalization(cfg.norm)
                .set_case_sensitivity(case_of(cfg.case));
        })
    }

    pub fn with(cfg: Cfg) -> Inst {
        let mut i = Inst::new(cfg.algo);
        i.set(cfg);
        i
    }

    pub fn set(&mut self, cfg: Cfg) {
        self.set_case(cfg.case);
        self.set_norm(cfg.norm);
        self.set_scheme(cfg.scheme);
    }

    pub fn set_case(&mut self, c: Case) {
        each!(self, m => { m.set_case_sensitivity(case_of(c)); })
    }

    pub fn set_norm(&mut self, n: bool) {
        each!(self, m => { m.set_candidate_normalization(n); })
    }

    pub fn set_scheme(&mut self, s: Scheme) {
        each!(self, m => { m.set_scoring_scheme(scheme_of(s)); })
    }

    /// Becomes a copy of another instance of the same metric.
    pub fn copy_from(&mut self, other: &Inst) {
        match (self, other) {
            #[cfg(feature = "v1")]
            (Inst::V1(a), Inst::V1(b)) => a.clone_from(b),
            #[cfg(feature = "v2")]
            (Inst::V2(a), Inst::V2(b)) => a.clone_from(b),
            #[allow(unreachable_patterns)]
            (a, b) => *a = b.clone(),
        }
    }

    /// Moves the instance out and leaves a new one.
    pub fn take(&mut self) -> Inst {
        match self {
            #[cfg(feature = "v1")]
            Inst::V1(m) => Inst::V1(std::mem::take(m)),
            #[cfg(feature = "v2")]
            Inst::V2(m) => Inst::V2(std::mem::take(m)),
        }
    }

    pub fn debug(&self) -> String {
        each!(self, m => format!("{m:?}"))
    }

    #[inline]
    pub fn raw_distance(
        &mut self,
        q: FzfQuery<'_>,
        cand: &str,
    ) -> Option<FzfDistance> {
        each!(self, m => m.distance(q, cand))
    }

    #[inline]
    pub fn raw_ranges(
        &mut self,
        q: FzfQuery<'_>,
        cand: &str,
        buf: &mut Ranges,
    ) -> Option<FzfDistance> {
        each!(self, m => m.distance_and_ranges(q, cand, buf))
    }

    #[inline]
    pub fn distance(
        &mut self,
        cfg: Cfg,
        qs: &str,
        q: FzfQuery<'_>,
        cand: &str,
    ) -> Option<i64> {
        announce("distance", cfg, qs, cand);
        let r = each!(self, m => m.distance(q, cand));
        idle();
        r.map(seen)
    }

    #[inline]
    pub fn ranges(
        &mut self,
        cfg: Cfg,
        qs: &str,
        q: FzfQuery<'_>,
        cand: &str,
        buf: &mut Ranges,
    ) -> Option<i64> {
        announce("distance_and_ranges", cfg, qs, cand);
        let r = each!(self, m => m.distance_and_ranges(q, cand, buf));
        idle();
        r.map(seen)
    }
}

/// The score behind a distance.
#[cfg(feature = "score")]
pub fn score(d: FzfDistance) -> i64 {
    d.into_score()
}

#[cfg(not(feature = "score"))]
pub fn score(_: FzfDistance) -> i64 {
    0
}

std::thread_local! {
    static FIRST_AND_LAST: std::cell::Cell<Option<[FzfDistance; 2]>> =
        const { std::cell::Cell::new(None) };
    static ORDER: std::cell::Cell<[i8; 2]> = const { std::cell::Cell::new([0; 2]) };
}

/// Forgets the distances seen.
pub fn forget() {
    FIRST_AND_LAST.with(|s| s.set(None));
}

/// How the last distance compares with the first and the last but one since
/// `forget`.
pub fn order() -> [i8; 2] {
    ORDER.with(|o| o.get())
}

#[inline]
fn seen(d: FzfDistance) -> i64 {
    if KEEP.load(Relaxed) == DIGEST {
        FIRST_AND_LAST.with(|s| {
            let [first, last] = s.get().unwrap_or([d, d]);
            ORDER.with(|o| o.set([d.cmp(&first) as i8, d.cmp(&last) as i8]));
            s.set(Some([first, d]));
        });
    }
    score(d)
}

pub fn parse<'a>(
    p: &'a mut FzfParser,
    extended: bool,
    cfg: Cfg,
    s: &str,
) -> FzfQuery<'a> {
    if extended {
        announce("parse", cfg, s, "");
        let q = p.parse(s);
        idle();
        q
    } else {
        announce("parse_not_extended", cfg, s, "");
        let q = p.parse_not_extended(s);
        idle();
        q
    }
}

pub fn mode_name(extended: bool) -> &'static str {
    if extended {
        "parse"
    } else {
        "parse_not_extended"
    }
}
