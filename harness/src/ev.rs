//! Verdicts, evidence and replay files.
use crate::util::fnv;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    states: BTreeMap<String, HashSet<u64>>,
    /// some of the states, and some of the cases, in words
    examples: BTreeMap<String, Vec<String>>,
    cases: Vec<String>,
    violations: Vec<(String, PathBuf)>,
    known_seen: BTreeMap<String, u64>,
    problems: Vec<String>,
}

/// One run of one check
pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    budget: Duration,
    rule: &'static str,
    level: &'static str,
    /// signatures of recorded findings of this property, with their descriptions
    known: BTreeMap<String, String>,
    inner: Mutex<Inner>,
    pub verif: PathBuf,
}

impl Run {
    pub fn new(prop: &str, tier: &str, seed: u64, level: &'static str, rule: &'static str, quick_s: u64, thorough_s: u64) -> Self {
        let verif = std::env::var("VERIF_DIR").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from);
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(verif.join("known-findings.txt")) {
            for line in text.lines() {
                let Some(rest) = line.strip_prefix("finding: ") else { continue };
                let Some(rest) = rest.strip_prefix(&format!("property={prop} ")) else { continue };
                let Some(rest) = rest.strip_prefix("sig=") else { continue };
                let (sig, desc) = rest.split_once(' ').unwrap_or((rest, ""));
                known.insert(sig.to_owned(), desc.to_owned());
            }
        }
        let secs = std::env::var("S3MON_BUDGET").ok().and_then(|s| s.parse().ok());
        let secs = secs.unwrap_or(if tier == "thorough" { thorough_s } else { quick_s });
        Self {
            prop: prop.to_owned(),
            tier: tier.to_owned(),
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(secs),
            rule,
            level,
            known,
            inner: Mutex::default(),
            verif,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// pick by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
    }
    /// whether the workload should go on
    pub fn more(&self) -> bool {
        self.start.elapsed() < self.budget && self.violation_count() < 5
    }
    /// whether part `i` of `n` of the budget is not used up yet
    pub fn more_part(&self, i: u32, n: u32) -> bool {
        self.start.elapsed() < self.budget * i / n && self.violation_count() < 5
    }
    pub fn violation_count(&self) -> usize {
        self.lock().violations.len()
    }
    /// one evaluated case; `key` says which case, `nontrivial` whether it counts
    pub fn eval(&self, key: &str, nontrivial: bool) {
        let mut i = self.lock();
        i.evaluations += 1;
        if nontrivial {
            if i.distinct.insert(fnv(key.as_bytes())) {
                // the first ones, then ever rarer ones
                let n = i.distinct.len();
                if n <= 3 || (n.is_power_of_two() && i.cases.len() < 16) {
                    let case = clip(key, 400);
                    i.cases.push(case);
                }
            }
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.lock().counters.entry(name.to_owned()).or_default() += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut i = self.lock();
        let e = i.counters.entry(name.to_owned()).or_default();
        *e = (*e).max(n);
    }
    /// a distinct state of some kind was observed
    pub fn seen(&self, kind: &str, what: &str) {
        let mut i = self.lock();
        if i.states.entry(kind.to_owned()).or_default().insert(fnv(what.as_bytes())) {
            let list = i.examples.entry(kind.to_owned()).or_default();
            if list.len() < 40 {
                list.push(clip(what, 80));
            }
        }
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.lock().counters.get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.lock();
        if i.samples.len() < 6 {
            i.samples.push(v);
        }
    }
    /// something prevents a verdict
    pub fn problem(&self, what: impl Into<String>) {
        let what = what.into();
        let mut i = self.lock();
        if i.problems.len() < 20 {
            eprintln!("inconclusive: {what}");
            i.problems.push(what);
        }
    }
    /// the property is broken, as `sig` says; `detail` shows how
    pub fn violation(&self, sig: &str, detail: Value) {
        let sig: String = sig.chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect();
        let mut i = self.lock();
        if self.known.contains_key(&sig) {
            *i.known_seen.entry(sig).or_default() += 1;
            return;
        }
        if i.violations.len() >= 8 || i.violations.iter().filter(|(s, _)| *s == sig).count() >= 2 {
            return;
        }
        let dir = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", self.prop, self.tier, i.violations.len()));
        let doc = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "signature": sig, "detail": detail,
            "rerun": format!("VERIF_SEED={} {}/check.sh {} {}", self.seed, self.verif.display(), self.prop, self.tier),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default());
        eprintln!("violation of {}: {sig}: {}", self.prop, short(&detail));
        i.violations.push((sig, path));
    }
    /// report unless `ok`
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    /// write the evidence, print the verdict, and return the exit code
    pub fn finish(&self, assumptions: &[&str]) -> i32 {
        let i = self.lock();
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(i.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(i.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(i.samples.iter().cloned().chain(i.cases.iter().map(|c| json!(c))).collect::<Vec<_>>()));
        let mut obs = Map::new();
        for (k, v) in &i.counters {
            obs.insert(k.clone(), json!(v));
        }
        for (k, v) in &i.states {
            obs.insert(format!("distinct {k}"), json!(v.len()));
        }
        cov.insert("observed".into(), Value::Object(obs));
        if !i.examples.is_empty() {
            cov.insert("examples".into(), json!(i.examples));
        }
        if !i.known_seen.is_empty() {
            cov.insert("known_findings_reproduced".into(), json!(i.known_seen));
        }
        if !i.problems.is_empty() {
            cov.insert("inconclusive".into(), json!(i.problems));
        }
        let doc = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": i.violations.len(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = write_atomically(&dir.join(format!("{}.json", self.prop)), &serde_json::to_string_pretty(&doc).unwrap_or_default()) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
        for (sig, n) in &i.known_seen {
            println!("KNOWN-FINDING: property={} {sig} {} ({n} times)", self.prop, self.known[sig]);
        }
        println!(
            "{} {} seed={} evaluations={} distinct={} wall={:.1}s",
            self.prop, self.tier, self.seed, i.evaluations, i.distinct.len(), self.start.elapsed().as_secs_f64()
        );
        if !i.violations.is_empty() {
            for (_, path) in &i.violations {
                println!("VIOLATION property={} replay={}", self.prop, path.display());
            }
            return 1;
        }
        // a run that observed nothing decides nothing
        if i.evaluations == 0 || i.distinct.is_empty() {
            println!("inconclusive: nothing was observed");
            return 2;
        }
        if i.problems.len() >= 10 {
            println!("inconclusive: {}", i.problems[0]);
            return 2;
        }
        0
    }
}

fn write_atomically(path: &Path, text: &str) -> std::io::Result<()> {
    let tmp = path.with_extension("tmp");
    std::fs::write(&tmp, text)?;
    std::fs::rename(&tmp, path)
}

fn short(v: &Value) -> String {
    clip(&v.to_string(), 1500)
}

fn clip(s: &str, most: usize) -> String {
    if s.len() <= most {
        return s.to_owned();
    }
    let mut n = most;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}…", &s[..n])
}
