//! Output: VIOLATION lines, replay files, evidence.

use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::OnceLock;
use std::time::Instant;

use crate::engine::{Report, Violation};
use crate::model::Cfg;

pub struct Env {
    pub property: String,
    pub tier: &'static str,
    pub seed: i64,
    pub root: PathBuf,
    pub start: Instant,
    signal_path: Vec<u8>,
    property_bytes: Vec<u8>,
}

static ENV: OnceLock<Env> = OnceLock::new();

pub fn init(property: &str) {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let root = PathBuf::from(root);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let mut signal_path =
        dir.join(format!("{property}-signal.txt")).to_string_lossy().into_owned().into_bytes();
    signal_path.push(0);
    let _ = ENV.set(Env {
        property: property.to_string(),
        tier,
        seed,
        root,
        start: Instant::now(),
        signal_path,
        property_bytes: property.as_bytes().to_vec(),
    });
}

pub fn env() -> &'static Env {
    ENV.get().expect("initialised")
}

pub fn thorough() -> bool {
    env().tier == "thorough"
}

pub fn signal_replay_path() -> &'static [u8] {
    &env().signal_path
}

pub fn property_bytes() -> &'static [u8] {
    &env().property_bytes
}

pub fn hex(s: &str) -> String {
    let mut o = String::with_capacity(s.len() * 2);
    for b in s.bytes() {
        let _ = write!(o, "{b:02x}");
    }
    if o.is_empty() {
        o.push('-');
    }
    o
}

pub fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    String::from_utf8(b).unwrap()
}

fn short(s: &str) -> String {
    let n = s.chars().count();
    if n <= 120 {
        format!("{s:?}")
    } else {
        let head: String = s.chars().take(50).collect();
        let tail: String =
            s.chars().rev().take(50).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{head:?} ... {tail:?} ({n} chars)")
    }
}

fn write_replay(v: &Violation) -> PathBuf {
    let e = env();
    let path = e.root.join("replays").join(format!("{}.txt", e.property));
    let mut o = String::new();
    let _ = writeln!(o, "property {}", e.property);
    let _ = writeln!(o, "family {} job {}", v.family, v.job);
    let _ = writeln!(o, "note {}", v.note);
    for (i, op) in v.ops.iter().enumerate() {
        let _ = writeln!(
            o,
            "# op {i}: {} {} query={} candidate={}",
            op.cfg.text(),
            op.mode,
            short(&op.query),
            short(&op.cand)
        );
        let _ = writeln!(
            o,
            "op {} {} {} {}",
            op.cfg.code(),
            op.mode,
            hex(&op.query),
            hex(&op.cand)
        );
    }
    let _ = writeln!(o, "expected {}", v.expected);
    let _ = writeln!(o, "actual   {}", v.actual);
    let _ = writeln!(
        o,
        "# replay: VERIF_ROOT={} normcheck replay {}   (or re-walk the job: normcheck {} --job {})",
        e.root.display(),
        path.display(),
        e.property,
        v.job
    );
    let _ = std::fs::write(&path, &o);
    print!("{o}");
    path
}

/// Reports a violation from which the process cannot carry on.
pub fn fatal(v: Violation) -> ! {
    let path = write_replay(&v);
    println!("VIOLATION property={} replay={}", env().property, path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Meta {
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    /// Extra measured integers for the coverage object.
    pub extra: Vec<(String, u64)>,
}

/// Writes the evidence and prints the verdict; returns the exit code.
pub fn finish(r: &Report, meta: &Meta) -> i32 {
    let e = env();
    let wall = e.start.elapsed().as_secs_f64();
    let mut o = String::new();
    let _ = writeln!(o, "{{");
    let _ = writeln!(o, "  \"property\": {},", esc(&e.property));
    let _ = writeln!(o, "  \"tier\": {},", esc(e.tier));
    let _ = writeln!(o, "  \"seed\": {},", e.seed);
    let _ = writeln!(o, "  \"level\": \"model_checking\",");
    let _ = writeln!(o, "  \"coverage\": {{");
    let _ = writeln!(o, "    \"states\": {},", r.total.states);
    let _ = writeln!(o, "    \"transitions\": {},", r.total.calls);
    let _ = writeln!(
        o,
        "    \"traces_validated_against_impl\": {},",
        r.total.traces
    );
    if ![r.total.states, r.total.calls, r.total.traces]
        .contains(&r.total.compared)
    {
        let _ = writeln!(
            o,
            "    \"answers_compared\": {},",
            r.total.compared
        );
    }
    let _ = writeln!(o, "    \"distinct_nontrivial\": {},", r.outcomes);
    let _ = writeln!(o, "    \"distinct_is_capped\": {},", r.outcomes_capped);
    let _ = writeln!(o, "    \"rule\": {},", esc(meta.rule));
    let _ = writeln!(o, "    \"exhaustive\": {},", r.exhaustive);
    let _ = writeln!(o, "    \"jobs_done\": {},", r.jobs_done);
    let _ = writeln!(o, "    \"jobs_total\": {},", r.jobs_total);
    for (k, v) in &meta.extra {
        let _ = writeln!(o, "    {}: {},", esc(k), v);
    }
    let _ = writeln!(o, "    \"families\": {{");
    let n = r.families.len();
    for (i, (k, c)) in r.families.iter().enumerate() {
        let _ = writeln!(
            o,
            "      {}: {{\"states\": {}, \"calls\": {}, \"compared\": {}, \"traces\": {}, \"jobs\": {}}}{}",
            esc(k),
            c.states,
            c.calls,
            c.compared,
            c.traces,
            c.jobs,
            if i + 1 < n { "," } else { "" }
        );
    }
    let _ = writeln!(o, "    }},");
    let _ = writeln!(o, "    \"samples\": [");
    let k = r.samples.len().min(24);
    for (i, s) in r.samples.iter().take(24).enumerate() {
        let _ =
            writeln!(o, "      {}{}", esc(s), if i + 1 < k { "," } else { "" });
    }
    let _ = writeln!(o, "    ]");
    let _ = writeln!(o, "  }},");
    let _ = writeln!(o, "  \"assumptions\": [");
    for (i, a) in meta.assumptions.iter().enumerate() {
        let _ = writeln!(
            o,
            "    {}{}",
            esc(a),
            if i + 1 < meta.assumptions.len() { "," } else { "" }
        );
    }
    let _ = writeln!(o, "  ],");
    let _ = writeln!(o, "  \"violations\": {},", r.violations.len());
    let _ = writeln!(o, "  \"wall_s\": {wall:.3}");
    let _ = writeln!(o, "}}");
    let path = e.root.join("evidence").join(format!("{}.json", e.property));
    if let Err(err) = std::fs::write(&path, o) {
        eprintln!("cannot write {}: {err}", path.display());
        return 3;
    }

    println!(
        "{} {}: states={} calls={} traces={} compared={} distinct={} jobs={}/{} wall={:.1}s",
        e.property,
        e.tier,
        r.total.states,
        r.total.calls,
        r.total.traces,
        r.total.compared,
        r.outcomes,
        r.jobs_done,
        r.jobs_total,
        wall
    );
    for (k, c) in &r.families {
        println!(
            "  {k}: states={} calls={} compared={} jobs={}",
            c.states, c.calls, c.compared, c.jobs
        );
    }

    if let Some(v) = r.violations.first() {
        let path = write_replay(v);
        println!(
            "VIOLATION property={} replay={}",
            e.property,
            path.display()
        );
        return 1;
    }
    if r.jobs_done == 0 || r.total.compared == 0 {
        eprintln!("nothing was explored");
        return 3;
    }
    0
}

impl Cfg {
    pub fn text(&self) -> String {
        format!(
            "{:?},{:?},{},{:?}",
            self.algo,
            self.case,
            if self.norm { "Normalize" } else { "Raw" },
            self.scheme
        )
    }
}
