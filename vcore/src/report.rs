//! Evidence, violations, known findings, replay artefacts.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

pub fn verif() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }
pub fn tier() -> String { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) }
pub fn thorough() -> bool { tier() == "thorough" }
pub fn seed() -> i64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

/// Does the text match the pattern, in which `*` stands for any text?
pub fn glob(pat: &str, text: &str) -> bool {
    let mut parts = pat.split('*');
    let first = parts.next().unwrap();
    let Some(mut rest) = text.strip_prefix(first) else { return false };
    if !pat.contains('*') { return rest.is_empty(); }
    let parts: Vec<&str> = parts.collect();
    for (i, p) in parts.iter().enumerate() {
        if i + 1 == parts.len() { return rest.ends_with(p); }
        match rest.find(p) { Some(k) => rest = &rest[k + p.len()..], None => return false }
    }
    true
}

/// One property's run.
pub struct Run {
    pub id: String,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub extra: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    known: Vec<(String, String)>,
    hit: BTreeSet<usize>,
    violations: Vec<(String, String)>,
    start: Instant,
}
impl Run {
    pub fn new(id: &str) -> Run {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) {
            for l in s.lines() {
                // finding: property=<id> key=<key> -- <description>
                let Some(r) = l.strip_prefix(&format!("finding: property={id} key=")) else { continue };
                let (k, d) = r.split_once(" -- ").unwrap_or((r, ""));
                known.push((k.trim().to_string(), d.trim().to_string()));
            }
        }
        Run { id: id.into(), states: 0, transitions: 0, validated: 0, extra: BTreeMap::new(), notes: vec![], samples: vec![], assumptions: vec![], exhaustive: true, known, hit: BTreeSet::new(), violations: vec![], start: Instant::now() }
    }
    pub fn count(&mut self, k: &str, n: u64) { *self.extra.entry(k.into()).or_default() += n; }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.samples.len() < 6 { self.samples.push(s()); } }
    /// Report a failure. `key` identifies the specific failing case; it is matched exactly (or by `*` matching
    /// anything) against the committed known-findings file.
    pub fn fail(&mut self, key: &str, detail: String) {
        for (i, (k, _)) in self.known.iter().enumerate() {
            let m = glob(k, key);
            if m { self.hit.insert(i); return; }
        }
        self.violations.push((key.to_string(), detail));
    }
    pub fn failures(&self) -> usize { self.violations.len() }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    pub fn finish(self) -> i32 {
        let v = verif();
        let mut said: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
        for i in &self.hit { said.entry(&self.known[*i].1).or_default().push(&self.known[*i].0); }
        for (d, ks) in said { println!("KNOWN-FINDING: property={} {} ({}{})", self.id, d, ks[0], if ks.len() > 1 { format!(" and {} more listed cases", ks.len() - 1) } else { String::new() }); }
        let dir = v.join("work").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.txt", self.id));
        if !self.violations.is_empty() {
            let mut s = String::new();
            for (k, d) in self.violations.iter().take(5000) { let _ = writeln!(s, "== {k}\n{d}\n"); }
            let _ = writeln!(s, "total: {}", self.violations.len());
            std::fs::write(&path, s).unwrap();
            for (k, d) in self.violations.iter().take(8) { println!("  {k}: {}", d.chars().take(600).collect::<String>()); }
            println!("VIOLATION property={} replay={}", self.id, path.display());
        } else { let _ = std::fs::remove_file(&path); }
        let ev = v.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        let mut s = String::new();
        let _ = write!(s, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"wall_s\":{:.2},\"violations\":{},\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{}", esc(&self.id), esc(&tier()), seed(), self.start.elapsed().as_secs_f64(), self.violations.len(), self.states, self.transitions, self.validated, self.exhaustive);
        for (k, n) in &self.extra { let _ = write!(s, ",{}:{}", esc(k), n); }
        let _ = write!(s, ",\"known_findings_seen\":{}", self.hit.len());
        let _ = write!(s, ",\"samples\":[{}]", self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        let _ = write!(s, ",\"notes\":[{}]", self.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        let _ = write!(s, "}},\"assumptions\":[{}]}}\n", self.assumptions.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
        std::fs::write(ev.join(format!("{}.json", self.id)), s).unwrap();
        println!("{}: states={} transitions={} validated={} violations={} wall={:.1}s {:?}", self.id, self.states, self.transitions, self.validated, self.violations.len(), self.start.elapsed().as_secs_f64(), self.extra);
        if self.violations.is_empty() { 0 } else { 1 }
    }
}
