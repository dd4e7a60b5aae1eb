//! C12: importing and generating under every order in which hash containers can hand out their elements.
//! The crates under test are copies whose HashMap and HashSet come from `detstd`; everything else is
//! the standard library. The copies are bound to the real crates by comparing what both produce.
#[path = "../../irmc/src/interp.rs"]
#[allow(dead_code)]
mod interp;
use burn_onnx::ModelGen;
use detstd::ctl;
use onnx_ir::OnnxGraphBuilder;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use vcore::fam::Case;
use vcore::par::{par, Scratch};
use vcore::proto::*;
use vcore::report::*;

thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
struct Nop;
impl log::Log for Nop { fn enabled(&self, _: &log::Metadata) -> bool { false } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
fn quiet() {
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::none());
    let _ = log::set_boxed_logger(Box::new(Nop));
    std::panic::set_hook(Box::new(|i| { let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); MSG.with(|c| *c.borrow_mut() = m); }));
}
fn guarded<V>(f: impl FnOnce() -> V) -> Result<V, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| MSG.with(|c| c.borrow().clone())) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum What { Gen(bool), Import(bool) }
/// One execution: what it produced, and the sizes of the hash iterations it made.
fn exec(what: What, onnx: &Path, dir: &Path, plan: Vec<(usize, Vec<usize>)>) -> (Vec<u8>, Vec<usize>) {
    match what {
        What::Gen(s) => {
            let stem = onnx.file_stem().unwrap().to_str().unwrap();
            let (rs, bpk) = (dir.join(format!("{stem}.rs")), dir.join(format!("{stem}.bpk")));
            let _ = std::fs::remove_file(&rs); let _ = std::fs::remove_file(&bpk);
            ctl::begin(plan);
            let r = guarded(|| { ModelGen::new().input(onnx.to_str().unwrap()).out_dir(dir.to_str().unwrap()).simplify(s).run_from_cli(); });
            let n = ctl::end();
            let mut o = vec![];
            if let Err(e) = r { o.extend(format!("refused: {e}").bytes()) }
            else { for f in [&rs, &bpk] { match std::fs::read(f) { Ok(b) => { o.extend((b.len() as u64).to_le_bytes()); o.extend(b) } Err(_) => o.extend([255; 8]) } } }
            (o, n)
        }
        What::Import(s) => {
            ctl::begin(plan);
            let r = guarded(|| OnnxGraphBuilder::new().simplify(s).parse_file(onnx).map_err(|e| e.to_string()));
            let n = ctl::end();
            (match r { Ok(Ok(g)) => interp::dump(&g).into_bytes(), Ok(Err(e)) | Err(e) => format!("refused: {e}").into_bytes() }, n)
        }
    }
}
/// Orders of n elements other than the first: all of them where there are few, else every exchange of
/// neighbours, every rotation and the reverse.
fn orders(n: usize, all: usize) -> Vec<Vec<usize>> {
    fn perms(n: usize) -> Vec<Vec<usize>> { if n == 0 { return vec![vec![]]; } let mut o = vec![]; for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); o.push(q); } } o }
    let id: Vec<usize> = (0..n).collect();
    let mut o: BTreeSet<Vec<usize>> = BTreeSet::new();
    if n <= all { o.extend(perms(n)); }
    else if n <= 12 { for i in 0..n - 1 { let mut p = id.clone(); p.swap(i, i + 1); o.insert(p); } for r in 1..n { let mut p = id.clone(); p.rotate_left(r); o.insert(p); } }
    else { for r in [1, n - 1] { let mut p = id.clone(); p.rotate_left(r); o.insert(p); } for (a, b) in [(0, 1), (n - 2, n - 1), (0, n - 1)] { let mut p = id.clone(); p.swap(a, b); o.insert(p); } }
    o.insert(id.iter().rev().cloned().collect());
    o.remove(&id);
    o.into_iter().collect()
}
struct Found { runs: u64, events: u64, biggest: usize, bad: Vec<(String, String)> }
fn differ(a: &[u8], b: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    for (x, y) in a.lines().zip(b.lines()) { if x != y { let c = |s: &str| s.trim().chars().take(160).collect::<String>(); return format!("'{}' or '{}'", c(x), c(y)); } }
    format!("{} or {} bytes", a.len(), b.len())
}
fn explore(k: usize, c: &Case, dir: &Path, two: bool, all: usize) -> Found {
    let mut f = Found { runs: 0, events: 0, biggest: 0, bad: vec![] };
    let onnx = dir.join(format!("m{k}.onnx"));
    std::fs::write(&onnx, c.model.encode()).unwrap();
    let out = dir.join(format!("o{k}")); std::fs::create_dir_all(&out).unwrap();
    for what in [What::Gen(true), What::Gen(false), What::Import(true), What::Import(false)] {
        let (base, sizes) = exec(what, &onnx, &out, vec![]);
        let (again, sizes2) = exec(what, &onnx, &out, vec![]);
        f.runs += 2; f.events += sizes.len() as u64; f.biggest = f.biggest.max(sizes.iter().cloned().max().unwrap_or(0));
        if again != base { f.bad.push((format!("{}/{what:?}/again", c.name), differ(&base, &again))); continue; }
        if sizes != sizes2 { f.bad.push((format!("{}/{what:?}/again", c.name), "iterates over other containers the second time".into())); continue; }
        'events: for (e, n) in sizes.iter().enumerate() {
            for p in orders(*n, all) {
                let (got, after) = exec(what, &onnx, &out, vec![(e, p.clone())]);
                f.runs += 1;
                if got != base { f.bad.push((format!("{}/{what:?}/iteration{e}", c.name), format!("order {p:?} of iteration {e}: {}", differ(&base, &got)))); break 'events; }
                if two && sizes.len() <= 12 { for (e2, n2) in after.iter().enumerate().skip(e + 1) { for p2 in orders(*n2, 2).into_iter().rev().take(1) {
                    let (got, _) = exec(what, &onnx, &out, vec![(e, p.clone()), (e2, p2.clone())]);
                    f.runs += 1;
                    if got != base { f.bad.push((format!("{}/{what:?}/iterations{e}+{e2}", c.name), format!("orders {p:?} {p2:?}: {}", differ(&base, &got)))); break 'events; }
                } } }
            }
        }
    }
    let _ = std::fs::remove_file(&onnx); let _ = std::fs::remove_dir_all(&out);
    f
}
/// Two models side by side in one.
fn beside(a: &Case, b: &Case) -> Option<Case> {
    if a.model.opset != b.model.opset { return None; }
    fn put(g: &mut Graph) {
        let r = |s: &mut String| if !s.is_empty() { s.push_str("_r") };
        for v in g.inputs.iter_mut().chain(g.outputs.iter_mut()).chain(g.value_info.iter_mut()) { r(&mut v.name); }
        for t in g.inits.iter_mut() { r(&mut t.name); }
        for n in g.nodes.iter_mut() { r(&mut n.name); for v in n.inputs.iter_mut().chain(n.outputs.iter_mut()) { r(v); } for (_, x) in n.attrs.iter_mut() { if let Attr::G(b) = x { put(b); } } }
    }
    let mut c = a.clone(); let mut g = b.model.graph.clone(); put(&mut g);
    let m = &mut c.model.graph;
    m.inputs.extend(g.inputs); m.inits.extend(g.inits); m.nodes.extend(g.nodes); m.outputs.extend(g.outputs); m.value_info.extend(g.value_info);
    c.name = format!("beside/{}|{}", a.name, b.name); c.vals = vec![];
    Some(c)
}
fn skeleton(g: &Graph) -> String { format!("{:?}", g.nodes.iter().map(|n| format!("{}/{}/{}{:?}", n.op, n.inputs.len(), n.outputs.len(), n.attrs.iter().map(|(k, a)| if let Attr::G(g) = a { format!("{k}{}", skeleton(g)) } else { k.clone() }).collect::<Vec<_>>())).collect::<Vec<_>>()) }
fn corpus(deep: bool) -> Vec<Case> {
    let classes = vcore::wts::classes(vcore::fam2::all(), true);
    let show = |v: &Vec<Case>, t: &str| if std::env::var("SHOW").is_ok() { eprintln!("{t} {}", v.len()) };
    let mut v: Vec<Case> = classes.clone();
    show(&v, "families");
    let mut seen = BTreeSet::new();
    vcore::ctl::control(false, &mut |c| if seen.insert(format!("{}{}", skeleton(&c.model.graph), c.model.graph.inputs.len())) { v.push(c) });
    vcore::prog::attention_blocks(false, &mut |c| if seen.insert(skeleton(&c.model.graph)) { v.push(c) });
    vcore::prog::permute_reshapes(&mut |c| if seen.insert(skeleton(&c.model.graph)) { v.push(c) });
    show(&v, "control, attention, reshapes");
    let mut seen = BTreeSet::new();
    for th in vcore::prog::themes(false) { vcore::prog::programs(&th, &mut |c| if seen.insert(skeleton(&c.model.graph)) { v.push(c) }); }
    show(&v, "programs");
    let mut seen = BTreeSet::new();
    vcore::topo::wirings(false, &mut |c| { let k = skeleton(&c.model.graph); if seen.insert(k) { v.push(c) } });
    show(&v, "wirings");
    let mut seen = BTreeSet::new();
    vcore::shp::all(false, &mut |c| if seen.insert(skeleton(&c.model.graph)) { v.push(c) });
    for t in vcore::names::templates() { let s: Vec<String> = t.slots.iter().map(|s| s.to_string()).collect(); v.push(vcore::names::case(&t, &s, "plain")); }
    show(&v, "shapes, names");
    // one model of every operator beside every other one
    let mut one: BTreeMap<String, Case> = BTreeMap::new();
    for c in &classes { for n in &c.model.graph.nodes { if n.op != "Constant" { one.entry(n.op.clone()).or_insert_with(|| c.clone()); } } }
    let one: Vec<Case> = one.into_values().collect();
    eprintln!("{:?}", one.len());
    for (i, a) in one.iter().enumerate() { for b in one.iter().skip(i).take(if deep { one.len() } else { 3 }) { v.extend(beside(a, b)); } }
    // eight of them
    for i in 0..one.len() { let mut m = one[i].clone(); for d in 1..8 { if let Some(n) = beside(&one[(i + d) % one.len()], &m) { m = n; } } m.name = format!("eight/{}", one[i].name); v.push(m); }
    if let Ok(o) = std::env::var("ONLY") { v.retain(|c| c.name.contains(&o)); }
    v
}
fn list(dir: &Path) -> BTreeMap<String, Vec<u8>> { std::fs::read_dir(dir).map(|d| d.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default() }
fn gen_dir(models: &str, out: &str) {
    let mut v: Vec<_> = std::fs::read_dir(models).unwrap().flatten().map(|e| e.path()).collect();
    v.sort();
    par(&v, |m| if let Err(e) = guarded(|| { ModelGen::new().input(m.to_str().unwrap()).out_dir(out).run_from_cli(); }) { std::fs::write(Path::new(out).join(m.file_stem().unwrap()).with_extension("refused"), e).unwrap(); });
}
fn main() {
    quiet();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().is_some_and(|a| a == "gen") { return gen_dir(&a[1], &a[2]); }
    let deep = thorough();
    let mut run = Run::new("C12");
    let cases = corpus(deep);
    let sc = Scratch::new("C12");
    // what happens under other orders
    let ix: Vec<usize> = (0..cases.len()).collect();
    let all = if deep { 4 } else { 3 };
    let res = par(&ix, |k| explore(*k, &cases[*k], &sc.0, deep && !cases[*k].name.starts_with("beside"), all));
    let mut big = 0;
    for (c, f) in cases.iter().zip(res) {
        run.states += 1; run.transitions += f.runs; run.count("hash_iterations", f.events); big = big.max(f.biggest);
        if f.bad.is_empty() && run.states % 2003 == 5 { run.sample(|| format!("{}: {} executions over {} iterations, all the same", c.name, f.runs, f.events)); }
        for (k, e) in f.bad { run.fail(&k, e); }
    }
    run.notes.push(format!("largest container iterated over: {big} elements"));
    // the real crates, in processes of their own (seeds of their own) and from other directories, and
    // the copies: the same files
    let models = sc.0.join("models"); std::fs::create_dir_all(&models).unwrap();
    for (k, c) in cases.iter().enumerate() { std::fs::write(models.join(format!("m{k}.onnx")), c.model.encode()).unwrap(); }
    let cg = PathBuf::from(std::env::var("CGMC").expect("CGMC"));
    let me = std::env::current_exe().unwrap();
    let mut outs = vec![];
    for (j, (exe, order)) in [(&cg, "first"), (&cg, "last"), (&me, "first")].into_iter().enumerate() {
        let cwd = sc.0.join(["a", "b/c/d", "c"][j]); std::fs::create_dir_all(cwd.join("out")).unwrap();
        std::os::unix::fs::symlink(&models, cwd.join("models")).unwrap();
        let s = std::process::Command::new(exe).args(["gen", "models", "out", order]).current_dir(&cwd).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).status();
        if !s.map(|s| s.success()).unwrap_or(false) { eprintln!("generation process {j} failed"); std::process::exit(3); }
        outs.push(list(&cwd.join("out")));
    }
    let copy = outs.pop().unwrap();
    for (k, c) in cases.iter().enumerate() {
        let mut same = true;
        for ext in ["rs", "bpk", "refused"] {
            let f = format!("m{k}.{ext}");
            for (j, o) in outs.iter().enumerate().skip(1) { if o.get(&f) != outs[0].get(&f) { same = false; run.fail(&format!("{}/processes/{ext}", c.name), format!("process {j}: {}", differ(outs[0].get(&f).map(|v| &v[..]).unwrap_or(b"no file"), o.get(&f).map(|v| &v[..]).unwrap_or(b"no file")))); } }
            if ext != "refused" && copy.get(&f) != outs[0].get(&f) { same = false; run.fail(&format!("{}/copy/{ext}", c.name), format!("under another order: {}", differ(outs[0].get(&f).map(|v| &v[..]).unwrap_or(b"no file"), copy.get(&f).map(|v| &v[..]).unwrap_or(b"no file")))); }
        }
        if same { run.validated += 4; }
    }
    drop(sc);
    std::process::exit(run.finish());
}
