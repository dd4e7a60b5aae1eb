//! The properties of generated programs beyond single operators.
use crate::check::*;
use crate::engine::*;
use std::collections::BTreeMap;
use vcore::fam::Case;
use vcore::par::Scratch;
use vcore::report::*;

pub const RAW: Opt = Opt { simplify: false, embed: false };
pub type By = BTreeMap<String, u64>;
/// Generates, compiles (and executes) every case; `each` sees what came of it.
pub fn sweep(run: &mut Run, libs: &Libs, cases: &[Case], opt: Opt, exec: bool, each: &mut dyn FnMut(&mut Run, &Case, &Res)) {
    for part in cases.chunks(4000) {
        let sc = Scratch::new(&run.id.clone());
        let jobs: Vec<Job> = part.iter().map(|c| job(c, opt)).collect();
        let (res, st) = crate::engine::run(libs, &sc.0, &jobs, exec);
        run.count("generation_ms", (st.gen_s * 1e3) as u64); run.count("compile_cpu_ms", (st.compile_s * 1e3) as u64); run.count("run_cpu_ms", (st.run_s * 1e3) as u64);
        for (c, r) in part.iter().zip(&res) { run.states += 1; run.transitions += c.model.graph.nodes.len() as u64 * if exec { c.vals.len() as u64 } else { 1 }; each(run, c, r); if std::env::var("SHOW").is_ok() { println!("{}\n{}\n{:?}", c.name, r.code, r.out); } }
    }
}
/// Meaning: the executed program against the reference.
pub fn decide(run: &mut Run, by: &mut By, c: &Case, tag: &str, r: &Res, may: bool) {
    let key = format!("{}{tag}", c.name);
    let k = match judge(c, &r.out) {
        V::Same(n) => { run.validated += n as u64; "agree" }
        V::Undef => "reference_undefined",
        V::Unsup(e) => { run.fail(&format!("{key}/unsupported"), format!("harness cannot evaluate: {e}")); "harness_unsupported" }
        V::Undecided(e) => { if std::env::var("UNDEC").is_ok() { println!("UNDECIDED {key}: {e}"); } "undecided" }
        V::Refused(e) if may => { if std::env::var("REFUSED").is_ok() { println!("REFUSED {key}: {e}"); } "refused" }
        V::Refused(e) => { run.fail(&key, format!("refused: {e}")); "refused" }
        V::Broken(e) => { run.fail(&key, format!("does not compile: {e}")); "broken" }
        V::Differ(e) => { run.fail(&key, e); "differ" }
    };
    *by.entry(format!("{}{}_{k}", c.group, tag.replace('+', "_"))).or_default() += 1;
    if run.states % 301 == 5 { run.sample(|| format!("{key} -> {k}")); }
}
pub fn tally(run: &mut Run, by: By) { for (k, n) in by { run.count(&k, n); } }
pub fn limit(mut v: Vec<Case>) -> Vec<Case> { if let Ok(f) = std::env::var("ONLY") { v.retain(|c| c.name.contains(&f)); } v }
fn both(id: &str, cases: Vec<Case>, may: &dyn Fn(&Case) -> bool) -> i32 {
    let mut run = Run::new(id); let libs = Libs::load(); let mut by = By::new();
    let cases = limit(cases);
    for (o, tag) in [(RAW, "+raw"), (PLAIN, "+simplified")] { sweep(&mut run, &libs, &cases, o, true, &mut |run, c, r| decide(run, &mut by, c, tag, r, may(c))); }
    tally(&mut run, by);
    run.finish()
}
/// Programs of control-flow operators. What the repository's own integration tests fix about the scan
/// outputs of Loop (concatenated instead of stacked, none for zero iterations) is keyed apart, so that
/// everything else about such a loop is still decided.
pub fn c21() -> i32 {
    let mut cases = vec![];
    vcore::ctl::control(thorough(), &mut |c| cases.push(c));
    let mut run = Run::new("C21"); let libs = Libs::load(); let mut by = By::new();
    let cases = limit(cases);
    for (o, tag) in [(RAW, "+raw"), (PLAIN, "+simplified")] {
        sweep(&mut run, &libs, &cases, o, true, &mut |run, c, r| match scans(c, &r.out) {
            Some(kinds) => for k in kinds { run.validated += 1; run.fail(&format!("{}{tag}/{k}", c.name), format!("scan outputs of Loop: {k}, all else as the model means")); *by.entry(format!("ctl_{k}")).or_default() += 1; },
            None => decide(run, &mut by, c, tag, r, true),
        });
    }
    // every operator class inside branches and bodies, as good there as at the top level
    let mut inner: Vec<Case> = vec![];
    for c in vcore::wts::classes(vcore::fam2::all(), true) { for p in ["once", "branches", "nested", "loop", "scan"] { inner.extend(vcore::wts::place(&c, p)); } }
    let inner = limit(inner);
    let mut alone: std::collections::HashMap<String, bool> = Default::default();
    for (o, tag) in if thorough() { vec![(RAW, "+raw"), (PLAIN, "+simplified")] } else { vec![(PLAIN, "+simplified")] } {
        sweep(&mut run, &libs, &inner, o, true, &mut |run, c, r| {
            let (class, how) = c.name.split_once('@').unwrap();
            if how == "once" { alone.insert(format!("{class}{tag}"), matches!(judge(c, &r.out), V::Same(_))); return; }
            if *alone.get(&format!("{class}{tag}")).unwrap_or(&true) { decide(run, &mut by, c, tag, r, true); } else { *by.entry("operator_wrong_by_itself".into()).or_default() += 1; }
        });
    }
    tally(&mut run, by);
    run.finish()
}
/// The deviations of a Loop's scan outputs, if these are the only ones of the program.
fn scans(c: &Case, r: &Out) -> Option<Vec<&'static str>> {
    let n = c.model.graph.nodes.iter().find(|n| n.op == "Loop")?;
    let states = n.inputs.len() - 2;
    let scan: Vec<&String> = n.outputs.iter().skip(states).collect();
    if scan.is_empty() { return None; }
    let Out::Ran(got) = r else { return None };
    let mut kinds = vec![];
    for (k, v) in c.vals.iter().enumerate() {
        let want = match vcore::judge::reference(&c.model, v) { Ok(w) => w, Err(_) => continue };
        let is = |j: usize| scan.contains(&&c.model.graph.outputs[j].name);
        let kind = match got.get(k)? {
            Err(e) => if want.iter().enumerate().any(|(j, w)| is(j) && w.shape[0] == 0) && e.contains("cat") { "zero-iterations" } else { return None },
            Ok(g) => {
                if g.len() != want.len() { return None; }
                let mut kind = "";
                for (j, (a, b)) in g.iter().zip(&want).enumerate() {
                    if is(j) && b.shape.len() > 1 {
                        let mut s = b.shape.clone(); let d = s.remove(0); s[0] *= d;
                        if a.shape != s || !a.close(&b.with_shape(&s), c.tol) { return None; }
                        kind = "concatenated";
                    } else if !(shape_ok(&a.shape, &b.shape) && a.with_shape(&b.shape).close(b, c.tol)) { return None; }
                }
                kind
            }
        };
        if !kind.is_empty() && !kinds.contains(&kind) { kinds.push(kind); }
    }
    (!kinds.is_empty()).then_some(kinds)
}
pub fn c22() -> i32 {
    let mut v = vec![];
    vcore::shp::all(thorough(), &mut |c| v.push(c));
    both("C22", v, &may22)
}
/// Programs the importer documents as unsupported (a clean refusal is then as good as an answer).
fn may22(c: &Case) -> bool {
    let prog = c.name.split('/').nth(2).unwrap_or("");
    let steps: Vec<&str> = prog.split('>').collect();
    if steps.len() > 2 { return true; }
    let (p, u) = (steps[0], *steps.last().unwrap());
    let shape = p.starts_with("Sh");
    let starts = |l: &[&str]| l.iter().any(|x| u.starts_with(x));
    match () {
        _ if shape => starts(&["Mod", "Max", "Min", "Un", "Gm", "Reduce", "Ti", "TkX"]) || ["Equal", "Less"].iter().any(|o| u == format!("{o}1n") || u == format!("{o}n1")),
        _ if p == "IdW" => starts(&["Max", "Min", "Cs", "ExF", "TiX"]),
        _ => starts(&["Max", "Min", "Oh", "Clip"]) || u == "Shape",
    }
}
/// Type-checking only: what the compiler says of every wiring.
pub fn c13() -> i32 {
    let mut run = Run::new("C13"); let libs = Libs::load(); let mut by = By::new();
    let fams: Vec<Case> = vcore::fam2::all().into_iter().filter(|c| c.lvl == 0).collect();
    let mut v = vec![];
    for m in vcore::fan::MODES { for c in &fams { if let Some(c) = vcore::fan::fan(c, m) { v.push(c); } } }
    let v = limit(v);
    let mut check = |run: &mut Run, by: &mut By, c: &Case, r: &Res, what: &str| {
        let k = match &r.out {
            Out::Broken(e) => { run.fail(&c.name, format!("does not compile: {e}")); "broken" }
            Out::Undecided(_) => "undecided", Out::Refused(_) => "refused",
            _ => { run.validated += 1; "type_checks" }
        };
        *by.entry(format!("{what}_{k}")).or_default() += 1;
        if run.states % 501 == 5 { run.sample(|| format!("{} -> {k}", c.name)); }
    };
    sweep(&mut run, &libs, &v, RAW, false, &mut |run, c, r| check(run, &mut by, c, r, "fanout"));
    // every wiring of up to two nodes; of three, those of the operators that need no further operands
    let mut w = vec![];
    vcore::topo::wirings(false, &mut |c| { if c.name.matches('>').count() < 2 || c.name.split('/').nth(1).unwrap().split('>').all(|s| s.starts_with("Relu") || s.starts_with("Sub") || thorough() && s.starts_with("Split")) { w.push(c) } });
    let w = limit(w);
    sweep(&mut run, &libs, &w, RAW, true, &mut |run, c, r| { check(run, &mut by, c, r, "wiring"); if matches!(r.out, Out::Ran(_) | Out::Load(_)) { if let V::Differ(e) = judge(c, &r.out) { run.fail(&c.name, format!("interface or values: {e}")); } } });
    tally(&mut run, by);
    run.finish()
}
/// The entries of the weights file are exactly the parameters of the module, and carry the model's values.
pub fn c14() -> i32 {
    let mut run = Run::new("C14"); let libs = Libs::load(); let mut by = By::new();
    let base = vcore::wts::classes(vcore::fam2::all(), false);
    let mut cases: Vec<Case> = vec![];
    for c in &base { for p in vcore::wts::PLACES { cases.extend(vcore::wts::place(c, p)); } }
    // two operators with weights of their own next to each other: one class per operator and number of constants
    let mut seen = std::collections::BTreeSet::new();
    let reps: Vec<&Case> = base.iter().filter(|c| { let g = &c.model.graph; g.inputs.iter().any(|i| i.dt == 1) && seen.insert((g.nodes.iter().map(|n| n.op.clone()).collect::<Vec<_>>(), if thorough() { g.inits.len() } else { 0 })) }).collect();
    run.count("classes", base.len() as u64); run.count("operators_paired", reps.len() as u64);
    for a in &reps { for b in &reps { cases.extend(vcore::wts::pair(a, b)); } }
    let cases = limit(cases);
    let mut alone: std::collections::HashMap<String, bool> = Default::default();
    for o in [RAW, PLAIN] {
        let tag = if o.simplify { "+simplified" } else { "+raw" };
        sweep(&mut run, &libs, &cases, o, true, &mut |run, c, r| {
            let key = format!("{}{tag}", c.name);
            let v = judge(c, &r.out);
            let (class, how) = c.name.split_once('@').unwrap_or((&c.name, "pair"));
            let good = matches!(v, V::Same(_));
            if how == "once" { alone.insert(format!("{class}{tag}"), good); }
            // an operator that is wrong on its own is another property's subject
            let fine = c.name.split('@').next().unwrap().split('&').all(|n| *alone.get(&format!("{n}{tag}")).unwrap_or(&true));
            let mut k = match &r.out {
                Out::Refused(_) => "refused",
                Out::Undecided(_) => "undecided",
                // what else does not compile is the subject of C13 and C21
                Out::Broken(e) => { if e.contains(" field") { run.fail(&key, format!("does not compile: {e}")); } "broken" }
                Out::Load(e) => { run.fail(&key, format!("loading its own weights fails: {e}")); "unloadable" }
                _ => "ok",
            };
            if matches!(r.out, Out::Ran(_)) {
                let (mut p, mut s) = (r.params.clone(), r.stored.clone());
                p.sort(); s.sort();
                let names = |v: &Vec<String>| v.iter().map(|x| x.split('|').next().unwrap().to_string()).collect::<Vec<_>>();
                let (pn, sn) = (names(&p), names(&s));
                if pn.windows(2).any(|w| w[0] == w[1]) || sn.windows(2).any(|w| w[0] == w[1]) { run.fail(&key, format!("a name occurs twice: module {pn:?}, file {sn:?}")); k = "mismatch"; }
                else if p != s { run.fail(&key, format!("module {p:?}, file {s:?}")); k = "mismatch"; }
                else if fine && how != "once" { if let V::Differ(e) = &v { run.fail(&key, format!("with the weights loaded: {e}")); k = "values"; } }
                if good { run.validated += 1; }
                *by.entry("entries_compared".into()).or_default() += p.len() as u64;
            }
            *by.entry(format!("{how}_{k}")).or_default() += 1;
            if run.states % 501 == 5 { run.sample(|| format!("{key} -> {k} {:?}", r.stored)); }
        });
    }
    tally(&mut run, by);
    run.finish()
}
