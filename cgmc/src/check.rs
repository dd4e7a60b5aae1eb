//! The checks on generated code.
use crate::engine::*;
use std::collections::BTreeMap;
use vcore::fam::Case;
use vcore::judge::*;
use vcore::par::Scratch;
use vcore::refi::E;
use vcore::report::*;
use vcore::tensor::*;

pub fn job(c: &Case, opt: Opt) -> Job<'_> { Job { model: &c.model, opt, vals: c.vals.iter().map(|v| &v[..]).collect(), nin: runtime(&c.model).len(), bytes: None } }
#[derive(Debug, Clone, PartialEq)]
pub enum V { Same(usize), Refused(String), Broken(String), Undecided(String), Undef, Unsup(String), Differ(String) }
/// A rank-0 result may be handed out as a one-element vector; a native scalar is either.
pub fn shape_ok(got: &[usize], want: &[usize]) -> bool { got == want || want.is_empty() && got == [1] || want == [1] && got.is_empty() }
pub fn judge(c: &Case, r: &Out) -> V {
    let got = match r { Out::Refused(e) => return V::Refused(e.clone()), Out::Broken(e) => return V::Broken(e.clone()), Out::Undecided(e) => return V::Undecided(e.clone()), Out::Load(e) => return V::Differ(format!("the generated model cannot be constructed: {e}")), Out::Compiled => return V::Undef, Out::Ran(v) => v };
    let mut n = 0;
    for (k, v) in c.vals.iter().enumerate() {
        let want = match reference(&c.model, v) { Ok(w) => w, Err(E::Undef(_)) => continue, Err(E::Unsup(e)) => return V::Unsup(e) };
        let g = match got.get(k) { Some(Ok(g)) => g, Some(Err(e)) => return V::Differ(format!("valuation {k}: the model is defined, the generated code fails: {e}")), None => return V::Undecided("no result".into()) };
        if g.len() != want.len() { return V::Differ(format!("{} outputs instead of {}", g.len(), want.len())); }
        for (j, (a, b)) in g.iter().zip(&want).enumerate() {
            let a2 = if shape_ok(&a.shape, &b.shape) { a.with_shape(&b.shape) } else { a.clone() };
            if !a2.close(b, c.tol) { return V::Differ(format!("valuation {k}, output {j}: generated code gives {}, the model means {}", brief(a), brief(b))); }
        }
        n += 1;
    }
    if n == 0 { V::Undef } else { V::Same(n) }
}
fn only(v: Vec<Case>) -> Vec<Case> { match std::env::var("ONLY") { Ok(f) => v.into_iter().filter(|c| c.name.contains(&f)).collect(), _ => v } }
/// The element types the quick tier exercises in the largest family.
const COMMON: [DT; 3] = [DT::F32, DT::I64, DT::Bool];
pub fn families(groups: &[&str]) -> Vec<Case> {
    let common = |c: &Case| c.model.graph.inputs.iter().chain(&c.model.graph.outputs).all(|v| v.dt == 0 || DT::from_onnx(v.dt).map(|d| COMMON.contains(&d)).unwrap_or(false)) && !c.name.split(['/', '_']).any(|p| ALL_DT.iter().any(|d| d.name() == p && !COMMON.contains(d)));
    only(vcore::fam2::all().into_iter().filter(|c| groups.contains(&c.group) && (c.lvl == 0 || c.lvl == 1 && (thorough() || c.group != "elementwise" || common(c)))).collect())
}
/// The meaning of the generated code for the operators of the groups.
pub fn meaning(id: &str, groups: &[&str]) -> i32 {
    let cases = families(groups);
    let mut run = Run::new(id);
    let libs = Libs::load();
    let mut by: BTreeMap<String, u64> = BTreeMap::new();
    for part in cases.chunks(4000) {
        let sc = Scratch::new(id);
        let jobs: Vec<Job> = part.iter().map(|c| job(c, PLAIN)).collect();
        let (res, st) = crate::engine::run(&libs, &sc.0, &jobs, true);
        run.count("generation_ms", (st.gen_s * 1e3) as u64); run.count("compile_cpu_ms", (st.compile_s * 1e3) as u64); run.count("run_cpu_ms", (st.run_s * 1e3) as u64);
        for (c, r) in part.iter().zip(&res) {
            run.states += 1; run.transitions += c.vals.len() as u64;
            let v = judge(c, &r.out);
            if std::env::var("SHOW").is_ok() { println!("{}\n{}\n{:?}", c.name, r.code, r.out); }
            let k = match &v {
                V::Same(n) => { run.validated += *n as u64; "agree" }
                V::Undef => "reference_undefined",
                V::Unsup(e) => { run.fail(&format!("{}/unsupported", c.name), format!("harness cannot evaluate: {e}")); "harness_unsupported" }
                V::Undecided(e) => { if std::env::var("UNDEC").is_ok() { println!("UNDECIDED {}: {e}", c.name); } "undecided" }
                V::Refused(_) if crate::refuse::may(c) => "refused_as_documented",
                V::Refused(e) => { run.fail(&c.name, format!("refused: {e}")); "refused" }
                _ if crate::refuse::unknown(c) => "library_behaviour_unknown",
                V::Broken(e) => { run.fail(&c.name, format!("does not compile: {e}")); "broken" }
                V::Differ(e) => { run.fail(&c.name, e.clone()); "differ" }
            };
            *by.entry(format!("{}_{k}", c.group)).or_default() += 1;
            if run.states % 301 == 5 { run.sample(|| format!("{} -> {}", c.name, k)); }
        }
    }
    for (k, n) in by { run.count(&k, n); }
    run.finish()
}
pub fn main(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("C15") => meaning("C15", &["elementwise"]),
        Some("C16") => meaning("C16", &["layout"]),
        Some("C17") => meaning("C17", &["reduction"]),
        Some("C18") => meaning("C18", &["spatial"]),
        Some("C19") => meaning("C19", &["linear"]),
        Some("C20") => meaning("C20", &["recurrent"]),
        Some("C11") => crate::c11::c11(),
        // every model of a directory, in a process of its own
        Some("gen") => { gen_dir(&a[1], &a[2], a[3] == "last"); 0 }
        Some("C23") => crate::c23::c23(),
        // one run of the generator with everything set as told, in a process of its own
        Some("run") => crate::c23::child(&a[1..]),
        Some("C13") => crate::props::c13(),
        Some("C14") => crate::props::c14(),
        Some("C21") => crate::props::c21(),
        Some("C22") => crate::props::c22(),
        Some("fam") => meaning("C00", &a[1..].iter().map(|s| s.as_str()).collect::<Vec<_>>()),
        _ => { eprintln!("usage: cgmc Cxx"); 2 }
    }
}

fn gen_dir(models: &str, out: &str, backwards: bool) {
    let mut v: Vec<_> = std::fs::read_dir(models).unwrap().flatten().map(|e| e.path()).collect();
    v.sort(); if backwards { v.reverse(); }
    vcore::par::par(&v, |p| if let Err(e) = crate::engine::generate(p, std::path::Path::new(out), PLAIN) { std::fs::write(std::path::Path::new(out).join(p.file_stem().unwrap()).with_extension("refused"), e).unwrap(); });
}
