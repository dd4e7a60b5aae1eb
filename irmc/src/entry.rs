//! C08: a model means the same however it is handed to the importer, and however often.
use irmc::{guarded, import_bytes, interp, util::*, Fail};
use onnx_ir::{OnnxGraph, OnnxGraphBuilder};
use std::io::{Error, ErrorKind, Read};
use std::path::Path;
use vcore::fam::*;
use vcore::proto::*;
use vcore::report::*;
use vcore::tensor::*;

/// A reader that hands out the bytes in pieces, is interrupted, or fails.
struct Pieces<'a> { b: &'a [u8], at: usize, step: usize, interrupt: bool, turn: bool, fail_at: Option<usize> }
impl Read for Pieces<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt { self.turn = !self.turn; if self.turn { return Err(Error::from(ErrorKind::Interrupted)); } }
        if let Some(f) = self.fail_at { if self.at >= f { return Err(Error::other("device gone")); } }
        let n = self.step.min(o.len()).min(self.b.len() - self.at).min(self.fail_at.map(|f| f - self.at).unwrap_or(usize::MAX));
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn reader(b: &[u8], step: usize, interrupt: bool, fail_at: Option<usize>, simplify: bool) -> Result<OnnxGraph, Fail> {
    guarded(|| OnnxGraphBuilder::new().simplify(simplify).parse_reader(Pieces { b, at: 0, step, interrupt, turn: false, fail_at }).map_err(|e| e.to_string()))
}
/// What an import gave: a fingerprint of the whole graph with its data, or that it was refused.
fn of(r: Result<OnnxGraph, Fail>) -> String {
    match r.and_then(|g| guarded(|| Ok(interp::dump(&g)))) { Ok(d) => format!("{:016x}{:016x}", fnv(d.as_bytes(), 0xcbf29ce484222325), fnv(d.as_bytes(), 0x9e3779b97f4a7c15)), Err(_) => "refused".into() }
}
fn fnv(b: &[u8], s: u64) -> u64 { b.iter().fold(s, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }

fn models(deep: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vcore::fam2::all().into_iter().filter(|c| deep || c.lvl == 0).map(|c| (c.name, c.model.encode())).collect();
    vcore::ctl::control(false, &mut |c| v.push((c.name, c.model.encode())));
    vcore::topo::wirings(false, &mut |c| if deep || c.model.graph.nodes.len() <= 2 { v.push((c.name, c.model.encode())) });
    vcore::prog::permute_reshapes(&mut |c| v.push((c.name, c.model.encode())));
    vcore::prog::attention_blocks(false, &mut |c| v.push((c.name, c.model.encode())));
    aligned(&mut v);
    v
}
/// Every element type at every alignment within the file, in every carrier.
fn aligned(v: &mut Vec<(String, Vec<u8>)>) {
    for dt in ALL_DT { for shape in [vec![], vec![1], vec![3], vec![2, 2]] { for carrier in ["init", "constant", "branch", "branch-constant"] { for pad in 0..16usize {
        let g = carry(carrier, TensorP::raw("w", mix(dt, &shape)));
        let mut w = W(vec![]);
        w.int(1, 8); w.str(2, &"p".repeat(pad)); w.msg(7, graph(&g));
        let mut o = W(vec![]); o.str(1, ""); o.int(2, 17); w.msg(8, o);
        v.push((format!("aligned/{}/{}/{carrier}/{pad}", dt.name(), sh(&shape)), w.0));
    } } } }
}
pub const CARRIERS: [&str; 9] = ["init", "constant", "branch", "branch-constant", "else", "loop", "nested", "unused", "listed"];
/// A model in which the tensor is carried in the given place.
fn carry(how: &str, t: TensorP) -> Graph {
    let mut t = t;
    t.name = "w".into();
    let (dt, s) = (t.t.dt, t.t.shape.clone());
    let id = |i: &str, o: &str| Node::new("Identity", &[i], &[o]);
    let cst = |t: &TensorP, o: &str| { let mut t = t.clone(); t.name = String::new(); Node::new("Constant", &[], &[o]).attr("value", Attr::T(t)) };
    let top = || Graph { name: "g".into(), inputs: vec![VI::known("c", DT::Bool, &[]), VI::known("x", dt, &s)], outputs: vec![VI::known("y", dt, &s)], ..Default::default() };
    let body = |nodes: Vec<Node>, inits: Vec<TensorP>, out: &str| Graph { name: "b".into(), nodes, inits, outputs: vec![VI::known(out, dt, &s)], ..Default::default() };
    let iff = |a: Graph, b: Graph, o: &str| Node::new("If", &["c"], &[o]).attr("then_branch", Attr::G(a)).attr("else_branch", Attr::G(b));
    let plain = || body(vec![id("x", "eo")], vec![], "eo");
    let mut g = top();
    match how {
        "init" => { g.inits.push(t); g.nodes.push(id("w", "y")); }
        "listed" => { g.inputs.push(VI::known("w", dt, &s)); g.inits.push(t); g.nodes.push(id("w", "y")); }
        "unused" => { g.inits.push(t); g.nodes.push(id("x", "y")); }
        "constant" => { g.nodes.push(cst(&t, "w")); g.nodes.push(id("w", "y")); }
        "branch" => g.nodes.push(iff(body(vec![id("w", "to")], vec![t], "to"), plain(), "y")),
        "branch-constant" => g.nodes.push(iff(body(vec![cst(&t, "w"), id("w", "to")], vec![], "to"), plain(), "y")),
        "else" => g.nodes.push(iff(body(vec![id("x", "to")], vec![], "to"), body(vec![id("w", "eo")], vec![t], "eo"), "y")),
        "nested" => g.nodes.push(iff(body(vec![iff(body(vec![id("w", "io")], vec![t], "io"), body(vec![id("x", "jo")], vec![], "jo"), "to")], vec![], "to"), plain(), "y")),
        _ => {
            let mut b = Graph { name: "b".into(), inputs: vec![VI::known("it", DT::I64, &[]), VI::known("ci", DT::Bool, &[]), VI::known("s", dt, &s)], nodes: vec![id("ci", "co"), id("w", "so")], inits: vec![t], ..Default::default() };
            b.outputs = vec![VI::known("co", DT::Bool, &[]), VI::known("so", dt, &s)];
            g.inits.push(TensorP::raw("m", T::i64s(2)));
            g.nodes.push(Node::new("Loop", &["m", "c", "x"], &["y"]).attr("body", Attr::G(b)));
        }
    }
    g
}
fn ext(t: &T, kv: &[(&str, &str)]) -> TensorP { TensorP { name: "w".into(), t: t.clone(), enc: Enc::External(kv.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()) } }

/// The file entry point over all models, one line each; run once per build.
pub fn c08_lines(dir: &Path) -> Vec<String> {
    let ms = models(thorough());
    let ix: Vec<usize> = (0..ms.len()).collect();
    par(&ix, |i| { let p = dir.join(format!("m{i}.onnx")); std::fs::write(&p, &ms[*i].1).unwrap(); let r: Vec<String> = [false, true].iter().map(|s| of(import_file(&p, *s))).collect(); let _ = std::fs::remove_file(&p); r.join(" ") })
}
pub fn c08() -> i32 {
    let mut run = Run::new("C08");
    let deep = thorough();
    let sc = Scratch::new("c08");
    let ms = models(deep);
    let files = c08_lines(&sc.0);
    let other: Option<Vec<String>> = std::env::var("IRMC_OTHER").ok().map(|exe| {
        let o = std::process::Command::new(exe).arg("C08-lines").arg(&sc.0).output().expect("the other build runs");
        String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
    });
    if let Some(o) = &other { if o.len() != files.len() { run.fail("buffered/aborted", format!("the buffered build gave {} of {} results", o.len(), files.len())); } }
    let ix: Vec<usize> = (0..ms.len()).collect();
    let res = par(&ix, |i| {
        let b = &ms[*i].1;
        let line = |f: &dyn Fn(bool) -> Result<OnnxGraph, Fail>| [false, true].iter().map(|s| of(f(*s))).collect::<Vec<_>>().join(" ");
        let mut v = vec![("bytes", line(&|s| import_bytes(b, s))), ("reader", line(&|s| guarded(|| OnnxGraphBuilder::new().simplify(s).parse_reader(&b[..]).map_err(|e| e.to_string()))))];
        v.push(("reader, one byte at a time", line(&|s| reader(b, 1, false, None, s))));
        v.push(("reader, interrupted", line(&|s| reader(b, 7, true, None, s))));
        v.push(("bytes again", line(&|s| import_bytes(b, s))));
        v
    });
    for (i, rs) in res.into_iter().enumerate() {
        run.states += 1;
        let mut all = rs;
        all.push(("memory-mapped file", files[i].clone()));
        if let Some(l) = other.as_ref().and_then(|o| o.get(i)) { all.push(("buffered file", l.clone())); }
        run.transitions += 2 * all.len() as u64;
        if all[0].1.contains("refused") { run.count("refused_everywhere", 1); }
        match all.iter().find(|x| x.1 != all[0].1) { None => run.validated += all.len() as u64, Some(x) => run.fail(&format!("{}/{}", ms[i].0, x.0), format!("{} gives {}, bytes give {}", x.0, x.1, all[0].1)) }
    }
    external(&mut run, &sc.0);
    broken_readers(&mut run, deep);
    run.finish()
}
/// External data: without a directory it is refused; with one it is what it would be embedded.
fn external(run: &mut Run, dir: &Path) {
    let dir = dir.join("ext");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    // a relative location also exists relative to the working directory
    std::env::set_current_dir(&dir).unwrap();
    for dt in ALL_DT { for shape in [vec![], vec![0], vec![1], vec![3], vec![2, 2]] {
        let t = mix(dt, &shape);
        let mut b = vec![0u8; 64]; b.extend(t.raw()); b.extend([0xee; 8]);
        for f in ["w.bin", "sub/w.bin"] { std::fs::write(dir.join(f), &b).unwrap(); }
        let abs = dir.join("w.bin").display().to_string();
        let len = t.raw().len().to_string();
        for how in CARRIERS { for loc in ["w.bin", "sub/w.bin", "./w.bin", abs.as_str(), "none.bin", ""] { for full in [true, false] {
            let mut kv = vec![("location", loc), ("offset", "64")];
            if full { kv.push(("length", len.as_str())); }
            let g = carry(how, ext(&t, &kv));
            let bytes = Model::new(17, g).encode();
            let key = format!("external/{}/{}/{how}/{}/{full}", dt.name(), sh(&shape), if loc == abs { "absolute" } else { loc });
            run.states += 1; run.transitions += 5;
            for (what, r) in [("bytes", import_bytes(&bytes, false)), ("simplified bytes", import_bytes(&bytes, true)), ("reader", reader(&bytes, 64, false, None, false))] {
                // an unused tensor's bytes need not be looked at, but whatever refers to them must not read them
                match r { Err(_) => run.validated += 1, Ok(g) if how == "unused" && g.nodes.iter().all(|n| n.inputs().iter().all(|a| a.name != "w")) => run.count("unused_dropped", 1), Ok(_) => run.fail(&format!("{key}/{what}"), "a model with external data and no directory was imported".into()) }
            }
            if matches!(loc, "w.bin" | "sub/w.bin" | "./w.bin") && full {
                let p = dir.join("m.onnx"); std::fs::write(&p, &bytes).unwrap();
                let want = of(import_bytes(&Model::new(17, carry(how, TensorP::raw("w", t.clone()))).encode(), false));
                let got = of(import_file(&p, false));
                // data outside the file in the attribute of a Constant is refused
                if want == got || how.ends_with("constant") && got.split(' ').all(|x| x == "refused") { run.validated += 1; } else { run.fail(&format!("{key}/file"), format!("embedded: {want}; external: {got}")); }
                if how == "init" {
                    // the model file named relative to the working directory, and by its bare name
                    for name in ["m.onnx", "./m.onnx", "sub/../m.onnx"] { let got = of(import_file(Path::new(name), false)); run.transitions += 1; if want != got { run.fail(&format!("{key}/file as {name}"), format!("embedded: {want}; external: {got}")); } }
                }
            }
        } } }
        // one of two tensors is external
        for first in [true, false] {
            let mut g = carry("init", TensorP::raw("w", t.clone()));
            let mut e = ext(&t, &[("location", "w.bin"), ("offset", "64"), ("length", &len)]); e.name = "v".into();
            if first { g.inits.insert(0, e) } else { g.inits.push(e) }
            g.nodes.push(Node::new("Identity", &["v"], &["y2"])); g.outputs.push(VI::known("y2", dt, &shape));
            let bytes = Model::new(17, g).encode();
            run.states += 1; run.transitions += 1;
            if import_bytes(&bytes, false).is_ok() { run.fail(&format!("external/{}/{}/second/{first}", dt.name(), sh(&shape)), "a model with external data and no directory was imported".into()); } else { run.validated += 1; }
        }
    } }
}
/// A reader that fails at any byte makes the import fail; so do files that cannot be read.
fn broken_readers(run: &mut Run, deep: bool) {
    let mut seen = std::collections::BTreeSet::new();
    let cs: Vec<Case> = vcore::fam2::all().into_iter().filter(|c| c.lvl == 0 && seen.insert(if deep { c.name.clone() } else { c.model.graph.nodes[0].op.clone() })).collect();
    let res = par(&cs, |c| { let b = c.model.encode(); (0..=b.len()).filter(|f| reader(&b, 16, false, Some(*f), false).is_ok()).map(|f| f.to_string()).collect::<Vec<_>>() });
    for (c, r) in cs.iter().zip(res) { let n = c.model.encode().len() as u64 + 1; run.states += n; run.transitions += n; if r.is_empty() { run.validated += n } else { run.fail(&format!("broken-reader/{}", c.name), format!("imported although reading failed at byte {}", r.join(","))); } }
    for (p, what) in [("nowhere/m.onnx", "a file that is not there"), (".", "a directory"), ("empty.onnx", "an empty file")] {
        std::fs::write("empty.onnx", b"").unwrap();
        run.states += 1; run.transitions += 1;
        if import_file(Path::new(p), false).is_ok() { run.fail(&format!("file/{p}"), format!("{what} was imported")); } else { run.validated += 1; }
    }
}
/// Both texts of a case whose imports differ, for looking at.
pub fn show(only: &str) { let mut done = false; vcore::ctl::control(false, &mut |c| { if done || !c.name.contains(only) { return; } let b = c.model.encode(); let d = |s| import_bytes(&b, s).map(|g| interp::dump(&g)).unwrap_or_default(); for _ in 0..20 { let (x, y) = (d(true), d(true)); if x != y && !done { done = true; for (p, q) in x.lines().zip(y.lines()) { if p != q { println!("{p}\n    {q}"); } } } } }); }
