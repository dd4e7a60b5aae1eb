//! C23: the generator's options and entry points. Every combination is run in a process of its own with
//! its own working directory; the files it leaves are compared with those it announces, what it
//! generates is compiled where it lies and executed through every constructor it has.
use crate::engine::*;
use burn_onnx::ModelGen;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vcore::fam::Case;
use vcore::par::{par, Scratch};
use vcore::report::*;

/// `script|cli dev embed simplify out_dir times input...`
pub fn child(a: &[String]) -> i32 {
    let mut g = ModelGen::new();
    g.out_dir(&a[4]).development(a[1] == "1").embed_states(a[2] == "1").simplify(a[3] == "1");
    for i in &a[6..] { g.input(i); }
    let r = guarded(|| for _ in 0..a[5].parse::<usize>().unwrap() { if a[0] == "script" { g.run_from_script() } else { g.run_from_cli() } });
    match r { Ok(()) => 0, Err(e) => { println!("{e}"); 101 } }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Entry { Cli, Script, Tool }
#[derive(Clone)]
struct Cfg { entry: Entry, dev: bool, embed: bool, simplify: bool, out: &'static str, input: &'static str, names: Vec<(&'static str, usize)>, include: bool, times: usize }
impl Cfg { fn key(&self) -> String { format!("{:?}/out={}/in={}/{}{}{}{}/{}", self.entry, self.out, self.input, if self.dev { "dev," } else { "" }, if self.embed { "embed," } else { "" }, if self.simplify { "simplify," } else { "" }, if self.times > 1 { "twice" } else { "" }, self.names.iter().map(|(n, m)| format!("{}:{m}", n.escape_debug())).collect::<Vec<_>>().join("+")) } }
fn stem(n: &str) -> String { Path::new(n).file_stem().unwrap().to_str().unwrap().to_string() }
/// Every file below a directory with its content.
fn tree(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    fn go(r: &Path, d: &Path, o: &mut BTreeMap<PathBuf, Vec<u8>>) { for e in std::fs::read_dir(d).into_iter().flatten().flatten() { let p = e.path(); if p.is_dir() { go(r, &p, o) } else { o.insert(p.strip_prefix(r).unwrap().to_path_buf(), std::fs::read(&p).unwrap_or_default()); } } }
    let mut o = BTreeMap::new(); go(d, d, &mut o); o
}
struct Ran { ok: bool, said: String, wrong: Vec<String>, rs: Vec<PathBuf> }
/// Runs one combination in `d`: the models lie in d/in, the process starts in d/w, OUT_DIR is d/o.
fn one(c: &Cfg, d: &Path, models: &[Case], exe: &Path, tool: &Path) -> Ran {
    let (w, i, o) = (d.join("w"), d.join("in"), d.join("o"));
    for x in [&w, &i, &o, &w.join("there")] { std::fs::create_dir_all(x).unwrap(); }
    for (n, m) in &c.names { std::fs::write(i.join(n), models[*m].model.encode()).unwrap(); }
    let before = tree(d);
    let out = match c.out { "abs" => d.join("x").display().to_string(), "abs-nested" => d.join("x/y.z/q r").display().to_string(), r => r.to_string() };
    let input = |n: &str| match c.input { "abs" => i.join(n).display().to_string(), "rel" => format!("../in/{n}"), _ => n.to_string() };
    let inputs: Vec<String> = c.names.iter().map(|(n, _)| input(n)).collect();
    let cwd = if c.input == "here" { &i } else { &w };
    let b = |x: bool| if x { "1" } else { "0" };
    let mut cmd = match c.entry {
        Entry::Tool => { let mut k = Command::new(tool); k.args([&inputs[0], &out]); if !c.simplify { k.arg("--no-simplify"); } k }
        e => { let mut k = Command::new(exe); k.args(["run", if e == Entry::Script { "script" } else { "cli" }, b(c.dev), b(c.embed), b(c.simplify), &out, &c.times.to_string()]).args(&inputs); k }
    };
    let r = cmd.current_dir(cwd).env("OUT_DIR", &o).env("RUST_LOG", "off").stdin(Stdio::null()).output().expect("spawn");
    let base = match c.entry { Entry::Script => o.join(&out), _ => cwd.join(&out) };
    let mut wrong = vec![];
    let ok = r.status.success();
    let said = if ok { String::new() } else { format!("{} {}", String::from_utf8_lossy(&r.stdout).trim(), String::from_utf8_lossy(&r.stderr).trim()).chars().take(300).collect() };
    let after = tree(d);
    let real = base.canonicalize().unwrap_or(base.clone());
    let mut want: BTreeSet<PathBuf> = BTreeSet::new(); let mut rs = vec![];
    for (n, _) in &c.names { let s = stem(n); let p = |e: &str| real.join(format!("{s}{e}")); rs.push(p(".rs")); for e in [".rs", ".bpk"] { want.insert(p(e)); } if c.dev { for e in [".onnx.txt", ".graph.txt"] { want.insert(p(e)); } } }
    let root = d.canonicalize().unwrap();
    let got: BTreeSet<PathBuf> = after.iter().filter(|(p, b)| before.get(*p) != Some(b)).map(|(p, _)| root.join(p)).collect();
    let rel = |p: &PathBuf| p.strip_prefix(&root).unwrap_or(p).display().to_string();
    if ok {
        for p in want.difference(&got) { wrong.push(format!("no file {}", rel(p))); }
        for p in got.difference(&want) { wrong.push(format!("a file {}", rel(p))); }
        for p in &want { if got.contains(p) && p.extension().is_some_and(|e| e != "bpk") && std::fs::read(p).is_ok_and(|b| b.is_empty()) { wrong.push(format!("{} is empty", rel(p))); } }
        for p in before.keys() { if !after.contains_key(p) { wrong.push(format!("{} is gone", p.display())); } }
    }
    Ran { ok, said, wrong, rs }
}
/// The source without the paths in it.
fn text(rs: &Path) -> String { std::fs::read_to_string(rs).unwrap_or_default() }
const NAMES: [&str; 13] = ["m.onnx", "net.v1.onnx", "a.b.c.onnx", "plain", "UPPER.ONNX", "my-model.onnx", "with space.onnx", "1st.onnx", "n\u{e9}t.onnx", "q\"uo'te.onnx", "back\\slash.onnx", ".hidden", "new\nline.onnx"];
const OUTS: [&str; 9] = ["abs", "abs-nested", "gen", "gen/", "gen/deep/er", ".", "./gen", "there/../gen", "there"];
const INPUTS: [&str; 3] = ["abs", "rel", "here"];
pub fn c23() -> i32 {
    let mut run = Run::new("C23"); let deep = thorough();
    let libs = Libs::load();
    let ts = vcore::names::templates();
    let case = |n: &str| { let t = ts.iter().find(|t| t.name == n).unwrap(); vcore::names::case(t, &t.slots.iter().map(|s| format!("v_{s}")).collect::<Vec<_>>(), "options") };
    let models: Vec<Case> = ["inputs", "layers", "branch-inits", "listed", "loop"].iter().map(|n| case(n)).collect();
    let exe = std::env::current_exe().unwrap(); let tool = exe.with_file_name("onnx2burn");
    let mut cfgs: Vec<Cfg> = vec![];
    // the product of everything for one model each
    for entry in [Entry::Cli, Entry::Script, Entry::Tool] { for out in OUTS { if entry == Entry::Script && out.starts_with("abs") { continue; } for input in INPUTS { for n in NAMES { for f in 0..8 {
        let (dev, embed, simplify) = (f & 1 != 0, f & 2 != 0, f & 4 != 0);
        if entry == Entry::Tool && (!dev || embed) { continue; }
        for m in 0..models.len() { if !deep && m != 1 && !(out == "abs" || out == "gen") { continue; } cfgs.push(Cfg { entry, dev, embed, simplify, out, input, names: vec![(n, m)], include: entry == Entry::Script, times: 1 }); }
    } } } } }
    // several models in one run, a run repeated
    let sets: [&[(&'static str, usize)]; 8] = [&[("a.onnx", 0), ("b.onnx", 1)], &[("b.onnx", 1), ("a.onnx", 2)], &[("m.v1.onnx", 1), ("m.v2.onnx", 3)], &[("m.onnx", 1), ("m.v2.onnx", 2)], &[("m.v2.onnx", 2), ("m.onnx", 1)], &[("m.onnx", 1), ("m.onnx.onnx", 3)], &[("a.onnx", 1), ("A.onnx", 3), ("a.b.onnx", 4)], &[("m.rs.onnx", 1), ("m.bpk.onnx", 2), ("m.onnx", 3)]];
    for entry in [Entry::Cli, Entry::Script] { for out in OUTS { if entry == Entry::Script && out.starts_with("abs") { continue; } for f in 0..8 { for s in sets { for times in [1, 2] { cfgs.push(Cfg { entry, dev: f & 1 != 0, embed: f & 2 != 0, simplify: f & 4 != 0, out, input: "rel", names: s.to_vec(), include: entry == Entry::Script, times }); } } } } }
    if let Ok(o) = std::env::var("ONLY") { cfgs.retain(|c| c.key().contains(&o)); }
    cfgs.sort_by_key(|c| { let mut d = c.clone(); d.dev = false; if d.entry == Entry::Tool { d.entry = Entry::Cli; } d.key() });
    let sc = Scratch::new("C23");
    let mut by: BTreeMap<String, u64> = BTreeMap::new();
    for (part, cs) in cfgs.chunks(3000).enumerate() {
        let root = sc.0.join(format!("p{part}"));
        let ix: Vec<usize> = (0..cs.len()).collect();
        let rans = par(&ix, |k| one(&cs[*k], &root.join(format!("d{k:05}")), &models, &exe, &tool));
        // what was generated, compiled where it lies; once per place and text
        let src = root.join("src"); std::fs::create_dir_all(&src).unwrap();
        // the same source with and without the development files, from the tool and from the library
        let norm = |k: usize, t: String| t.replace(root.join(format!("d{k:05}")).to_str().unwrap(), "D");
        let id = |c: &Cfg| { let mut d = c.clone(); d.dev = false; if d.entry == Entry::Tool { d.entry = Entry::Cli; } d.key() };
        let same: BTreeMap<String, Vec<String>> = cs.iter().zip(&rans).enumerate().filter(|(_, (c, r))| r.ok && !c.dev).map(|(k, (c, r))| (id(c), r.rs.iter().map(|f| norm(k, text(f))).collect())).collect();
        let mut jobs = vec![]; let mut of = vec![]; let mut live = vec![];
        for (k, (c, r)) in cs.iter().zip(&rans).enumerate() {
            run.states += 1; run.transitions += c.times as u64 * c.names.len() as u64;
            *by.entry(format!("{:?}_{}", c.entry, if r.ok { "done" } else { "refused" })).or_default() += 1;
            if run.states % 2003 == 7 { run.sample(|| c.key()); }
            if !r.ok { run.fail(&format!("{}/run", c.key()), r.said.clone()); continue; }
            if !r.wrong.is_empty() { run.fail(&format!("{}/files", c.key()), r.wrong.join("; ")); continue; }
            if c.dev { if let Some(t) = same.get(&id(c)) { if *t == r.rs.iter().map(|f| norm(k, text(f))).collect::<Vec<_>>() { *by.entry("same_source_as_without_development".into()).or_default() += 1; continue; } run.fail(&format!("{}/source", c.key()), "development mode or the tool changes the generated source".into()); continue; } }
            for (j, (n, m)) in c.names.iter().enumerate() {
                let rs = &r.rs[j]; let t = text(rs);
                let id = jobs.len();
                let d = root.join(format!("d{k:05}"));
                let cwd = if c.input == "here" { d.join("in") } else { d.join("w") };
                let bpk = rs.with_file_name(format!("{}.bpk", stem(n))); let moved = d.join(format!("moved{j}"));
                std::fs::copy(&bpk, &moved).unwrap();
                let decl = if c.include { format!("mod made {{ include!({:?}); }}", rs.to_str().unwrap()) } else { format!("#[path = {:?}] mod made;", rs.to_str().unwrap()) };
                let (second, gone) = if c.embed { ("made::Model::<cgrt::B>::from_embedded(&core::default::Default::default())".to_string(), format!("let _ = crate::verif_std::fs::remove_file({:?});", bpk.to_str().unwrap())) } else { (format!("made::Model::<cgrt::B>::from_file({:?}, &core::default::Default::default())", moved.to_str().unwrap()), String::new()) };
                let nin = models[*m].vals[0].len();
                let args = (0..nin).map(|i| format!("cgrt::take(&v[{i}])")).collect::<Vec<_>>().join(", ");
                std::fs::write(src.join(format!("c{id}.rs")), format!("{decl}\npub fn verif_make() -> (cgrt::Names, cgrt::Call) {{\n    crate::verif_std::env::set_current_dir({:?}).unwrap();\n    {gone}\n    let mut m = <made::Model<cgrt::B> as core::default::Default>::default();\n    let mut m2 = {second};\n    let p = cgrt::params(&mut m);\n    assert_eq!(p, cgrt::params(&mut m2));\n    (p, alloc::boxed::Box::new(move |v: &[_]| {{ let mut o = cgrt::out(m.forward({args})); o.extend(cgrt::out(m2.forward({args}))); o }}))\n}}\n", cwd.to_str().unwrap())).unwrap();
                jobs.push(Job { model: &models[*m].model, opt: PLAIN, vals: models[*m].vals.iter().map(|v| &v[..]).collect(), nin, bytes: None });
                of.push((k, n.to_string(), *m, t, std::fs::read(&bpk).unwrap())); live.push(id);
            }
        }
        let (outs, tm) = compiled(&libs, &src, &live, &jobs, true);
        run.count("compile_cpu_ms", (tm.0 * 1e3) as u64);
        for (id, out, params) in outs {
            let (k, n, m, t, bpk) = &of[id]; let c = &cs[*k];
            let key = format!("{}/{}", c.key(), n.escape_debug());
            let half = |r: &Result<Vec<vcore::tensor::T>, String>, second: bool| r.clone().map(|v| { let h = v.len() / 2; if second { v[h..].to_vec() } else { v[..h].to_vec() } });
            match &out {
                Out::Ran(v) => for (s, which) in [(false, "default"), (true, if c.embed { "from_embedded" } else { "from_file" })] {
                    let got = Out::Ran(v.iter().map(|r| half(r, s)).collect());
                    match crate::check::judge(&models[*m], &got) {
                        crate::check::V::Same(x) => { run.validated += x as u64; *by.entry(format!("same_by_{which}")).or_default() += 1; }
                        crate::check::V::Differ(e) | crate::check::V::Unsup(e) | crate::check::V::Undecided(e) => run.fail(&format!("{key}/{which}"), e),
                        _ => run.fail(&format!("{key}/{which}"), "no result".into()),
                    }
                },
                Out::Load(e) => run.fail(&format!("{key}/load"), e.clone()),
                Out::Broken(e) | Out::Undecided(e) | Out::Refused(e) => run.fail(&format!("{key}/compile"), e.clone()),
                Out::Compiled => {}
            }
            let mut have: Vec<String> = stored(bpk); have.sort(); let mut want = params.clone(); want.sort();
            if matches!(out, Out::Ran(_)) && have != want { run.fail(&format!("{key}/stored"), format!("stored {have:?}, declared {want:?}")); }
            if !t.starts_with("//") { run.fail(&format!("{key}/comment"), "the source does not say where it comes from".into()); }
        }
        let _ = std::fs::remove_dir_all(&root);
    }
    for (k, n) in by { run.count(&k, n); }
    drop(sc);
    run.finish()
}
