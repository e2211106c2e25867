//! What a monitor observed: counters, fingerprints of distinct cases, samples,
//! violations. Written as JSON for the driver.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static IN_CALL: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Marks that the library under test is running (for crash attribution and the
/// bounded-progress watchdog).
pub fn enter() {
    CALLS.fetch_add(1, Ordering::Relaxed);
    IN_CALL.store(true, Ordering::Relaxed);
}
pub fn leave() {
    IN_CALL.store(false, Ordering::Relaxed);
}
pub fn calls() -> u64 {
    CALLS.load(Ordering::Relaxed)
}
pub fn in_call() -> bool {
    IN_CALL.load(Ordering::Relaxed)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Violation {
    pub case: u64,
    pub what: String,
    pub detail: Vec<(String, String)>,
}

pub struct Report {
    pub out: String,
    pub evaluations: u64,
    pub classes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub case: u64,
    progress: Option<fs::File>,
}

pub const MAX_VIOLATIONS: usize = 3;

impl Report {
    pub fn new(out: &str) -> Report {
        let progress = if out.is_empty() { None } else { fs::File::create(format!("{}.progress", out)).ok() };
        Report {
            out: out.into(),
            evaluations: 0,
            classes: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            case: 0,
            progress,
        }
    }
    pub fn begin(&mut self, case: u64) {
        self.case = case;
        crate::imp::restart(0);
        if let Some(f) = &mut self.progress {
            let _ = f.seek(SeekFrom::Start(0)).and_then(|_| f.write_all(format!("{:<20}\n", case).as_bytes()));
        }
    }
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.into()).or_insert(0) += 1;
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.classes.entry(name.into()).or_insert(0) += n;
    }
    /// One evaluated case; `nontrivial` by the property's rule.
    pub fn eval(&mut self, fingerprint: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(fingerprint);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let s = f();
            self.samples.push(format!("case {}: {}", self.case, s));
        }
    }
    pub fn violation(&mut self, what: impl Into<String>, detail: Vec<(&str, String)>) {
        if self.violations.len() < MAX_VIOLATIONS {
            self.violations.push(Violation {
                case: self.case,
                what: what.into(),
                detail: detail.into_iter().map(|(a, b)| (a.to_string(), b)).collect(),
            });
        }
        self.add("violations", 1);
    }
    pub fn full(&self) -> bool {
        self.violations.len() >= MAX_VIOLATIONS
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        s.push_str(&format!("\"evaluations\":{},\"distinct\":{},", self.evaluations, self.distinct.len()));
        s.push_str(&format!("\"library_calls\":{},", calls()));
        s.push_str("\"classes\":{");
        s.push_str(&self.classes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"violations\":[");
        s.push_str(
            &self
                .violations
                .iter()
                .map(|v| {
                    let d = v.detail.iter().map(|(k, x)| format!("{}:{}", esc(k), esc(x))).collect::<Vec<_>>().join(",");
                    format!("{{\"case\":{},\"what\":{},\"detail\":{{{}}}}}", v.case, esc(&v.what), d)
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("]}");
        s
    }
    pub fn finish(&self) {
        if self.out.is_empty() {
            println!("{}", self.json());
            return;
        }
        let mut fp = Vec::with_capacity(8 * self.distinct.len());
        for d in &self.distinct {
            fp.extend_from_slice(&d.to_le_bytes());
        }
        let mut f = fs::File::create(format!("{}.fp", self.out)).expect("monitor: write fingerprints");
        f.write_all(&fp).expect("monitor: write fingerprints");
        let tmp = format!("{}.tmp", self.out);
        fs::write(&tmp, self.json()).expect("monitor: write report");
        fs::rename(&tmp, &self.out).expect("monitor: write report");
    }
}
