//! Generates code for models with the real code generator, compiles it against the mini-burn,
//! executes it.
use burn_onnx::ModelGen;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vcore::par::par;
use vcore::proto::Model;
use vcore::tensor::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Opt { pub simplify: bool, pub embed: bool }
pub const PLAIN: Opt = Opt { simplify: true, embed: false };
pub struct Job<'a> { pub model: &'a Model, pub opt: Opt, pub vals: Vec<&'a [T]>, pub nin: usize, pub bytes: Option<Vec<u8>> }
#[derive(Debug, Clone)]
pub enum Out {
    /// The generator does not accept the model.
    Refused(String),
    /// The generated source does not compile.
    Broken(String),
    /// The generated source uses parts of burn that the mini-burn does not have.
    Undecided(String),
    /// The generated model cannot be constructed.
    Load(String),
    /// Constructed; one result per valuation.
    Ran(Vec<Result<Vec<T>, String>>),
    /// Compiled, not executed.
    Compiled,
}
pub struct Res { pub out: Out, pub code: String, pub params: Vec<String>, pub stored: Vec<String>, pub bpk: Vec<u8> }

thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// No log output, panics of guarded calls recorded instead of printed.
pub fn quiet() {
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::none());
    let _ = log::set_boxed_logger(Box::new(Nop));
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if QUIET.with(|q| q.get()) { MSG.with(|c| *c.borrow_mut() = format!("{m} at {}", i.location().map(|l| format!("{}:{}", l.file().rsplit("/crates/").next().unwrap(), l.line())).unwrap_or_default())); } else { old(i) }
    }));
}
struct Nop;
impl log::Log for Nop { fn enabled(&self, _: &log::Metadata) -> bool { false } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
pub fn guarded<V>(f: impl FnOnce() -> V) -> Result<V, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| MSG.with(|c| c.borrow().clone()))
}
/// Runs the real generator on a file.
pub fn generate(onnx: &Path, out: &Path, o: Opt) -> Result<(String, Vec<u8>), String> {
    guarded(|| { ModelGen::new().input(onnx.to_str().unwrap()).out_dir(out.to_str().unwrap()).embed_states(o.embed).simplify(o.simplify).run_from_cli(); })?;
    let stem = onnx.file_stem().unwrap().to_str().unwrap();
    let code = std::fs::read_to_string(out.join(format!("{stem}.rs"))).map_err(|e| format!("no source written: {e}"))?;
    Ok((code, std::fs::read(out.join(format!("{stem}.bpk"))).unwrap_or_default()))
}
pub fn stored(bpk: &[u8]) -> Vec<String> {
    if bpk.is_empty() { return vec![]; }
    match burn_store::parse(bpk) {
        Ok(v) => v.into_iter().map(|(n, d)| format!("{n}|{}|{}", kind(&d.dtype), d.shape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect(),
        Err(e) => vec![format!("unreadable: {e:?}")],
    }
}
fn kind(d: &burn_tensor::DType) -> &'static str { if d.is_float() { "Float" } else if *d == burn_tensor::DType::Bool { "Bool" } else { "Int" } }

pub struct Libs { ext: Vec<(String, PathBuf)>, deps: Vec<PathBuf> }
impl Libs {
    /// The compiled runtime crate and mini-burn, from cargo's own account of the build.
    pub fn load() -> Libs {
        let f = std::env::var("CGRT_JSON").expect("CGRT_JSON");
        let text = std::fs::read_to_string(f).unwrap();
        let mut ext = BTreeMap::new(); let mut deps = HashSet::new();
        for l in text.lines() {
            if !l.contains("\"compiler-artifact\"") { continue; }
            let Some(i) = l.find("\"filenames\":[") else { continue };
            for p in l[i + 13..].split(']').next().unwrap().split(',') {
                let p = PathBuf::from(p.trim_matches('"'));
                if let Some(d) = p.parent() { deps.insert(d.to_path_buf()); deps.insert(d.join("deps")); }
                let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
                let nm = stem.trim_start_matches("lib").split('-').next().unwrap().to_string();
                if p.extension().map(|e| e == "rlib").unwrap_or(false) && ["burn", "burn_store", "cgrt", "half"].contains(&nm.as_str()) { ext.insert(nm, p); }
            }
        }
        assert_eq!(ext.len(), 4, "runtime crates: {ext:?}");
        Libs { ext: ext.into_iter().collect(), deps: deps.into_iter().collect() }
    }
    fn rustc(&self, main: &Path, out: &Path, check: bool) -> std::process::Output {
        let mut c = Command::new("rustc");
        c.args(["--edition", "2024", "--crate-type", "bin", "--crate-name", "gen", "-Cdebuginfo=0", "-Copt-level=0", "-Cpanic=unwind", "-Ccodegen-units=2", "-Awarnings", "--error-format=json", "--cap-lints=allow"]);
        if check { c.arg("--emit=metadata"); } else { c.args(["-Clink-arg=-fuse-ld=lld"]); }
        for (n, p) in &self.ext { c.arg("--extern").arg(format!("{n}={}", p.display())); }
        for d in &self.deps { c.arg("-L").arg(format!("dependency={}", d.display())); }
        c.arg("-o").arg(out).arg(main).stdin(Stdio::null()).output().expect("rustc")
    }
}
fn show(t: &T) -> String {
    let v: Vec<String> = match &t.buf { Buf::F(v) => v.iter().map(|x| format!("{:x}", x.to_bits())).collect(), Buf::I(v) => v.iter().map(|x| format!("{:x}", *x as i64)).collect() };
    format!("{}|{}|{}", t.dt.name(), t.shape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.join(","))
}
fn read(s: &str) -> Option<T> {
    let p: Vec<&str> = s.split('|').collect();
    if p.len() != 3 { return None; }
    let dt = *ALL_DT.iter().find(|d| d.name() == p[0])?;
    let shape: Vec<usize> = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let v: Vec<u64> = p[2].split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    if v.len() != numel(&shape) { return None; }
    Some(if dt.is_float() { T { dt, shape, buf: Buf::F(v.into_iter().map(f64::from_bits).collect()) } } else { T { dt, shape, buf: Buf::I(v.into_iter().map(|x| if dt.is_signed() { x as i64 as i128 } else if dt == DT::U64 { x as i128 } else { x as i64 as i128 }).collect()) } })
}
/// `(module files blamed, decided, message)` of the errors in rustc's JSON output.
fn blame(json: &str) -> Vec<(Vec<usize>, bool, String)> {
    let mut v = vec![];
    for l in json.lines() {
        if !l.starts_with('{') || !l.contains("\"level\":\"error\"") { continue; }
        let mut ids: Vec<usize> = vec![];
        let mut rest = l;
        while let Some(i) = rest.find("\"file_name\":\"") { rest = &rest[i + 13..]; let f = rest.split('"').next().unwrap(); if let Some(n) = Path::new(f).file_name().and_then(|s| s.to_str()).and_then(|s| s.strip_prefix('c')).and_then(|s| s.strip_suffix(".rs")).and_then(|s| s.parse().ok()) { if !ids.contains(&n) { ids.push(n); } } }
        let m = l.find("\"rendered\":\"").map(|i| unesc(&l[i + 12..])).unwrap_or_else(|| l.to_string());
        let head = m.lines().next().unwrap_or("").to_string();
        let gap = ["error[E0432]", "error[E0433]"].iter().any(|e| head.starts_with(e)) && (m.contains("burn") || m.contains("`half`"))
            || head.starts_with("error[E0599]") && (m.contains("burn::") || m.contains("burn_tensor::") || m.contains("Tensor<") || m.contains("Config") || m.contains("TensorData"))
            || head.starts_with("error[E0425]") && (head.contains("in module `burn") || head.contains("in module `activation") || head.contains("in module `burn_tensor"))
            || head.starts_with("error[E0423]") && m.contains("burn")
            // operators between a native number and a tensor: which of them burn implements is not known here
            || head.starts_with("error[E0277]") && ["add", "multiply", "divide", "subtract"].iter().any(|o| head.contains(&format!("cannot {o} "))) && head.contains("Tensor<");
        v.push((ids, !gap, m));
    }
    v
}
fn unesc(s: &str) -> String {
    let mut o = String::new(); let mut it = s.chars();
    while let Some(c) = it.next() { match c { '"' => break, '\\' => match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('u') => { for _ in 0..4 { it.next(); } } Some(c) => o.push(c), None => break }, c => o.push(c) } }
    o
}
pub struct Stats { pub gen_s: f64, pub compile_s: f64, pub run_s: f64 }
/// Everything for a list of jobs. `dir`: an empty scratch directory.
pub fn run(libs: &Libs, dir: &Path, jobs: &[Job], execute: bool) -> (Vec<Res>, Stats) {
    let t0 = std::time::Instant::now();
    let onnx = dir.join("onnx"); let src = dir.join("src");
    std::fs::create_dir_all(&onnx).unwrap(); std::fs::create_dir_all(&src).unwrap();
    let idx: Vec<usize> = (0..jobs.len()).collect();
    let gens = par(&idx, |k| {
        let j = &jobs[*k];
        let p = onnx.join(format!("m{k}.onnx"));
        std::fs::write(&p, j.bytes.clone().unwrap_or_else(|| j.model.encode())).unwrap();
        generate(&p, &src, j.opt)
    });
    let t1 = std::time::Instant::now();
    let mut res: Vec<Res> = gens.into_iter().map(|g| match g { Err(e) => Res { out: Out::Refused(e), code: String::new(), params: vec![], stored: vec![], bpk: vec![] }, Ok((code, bpk)) => Res { out: Out::Compiled, stored: stored(&bpk), bpk, code, params: vec![] } }).collect();
    // identical programs are compiled once: the text apart from the names of its files
    let mut live: Vec<usize> = vec![];
    for (k, r) in res.iter().enumerate() {
        if !matches!(r.out, Out::Compiled) { continue; }
        let make = if r.code.contains("Default for Model<B>") { "<Model<cgrt::B> as core::default::Default>::default()" } else { "Model::<cgrt::B>::new(&core::default::Default::default())" };
        let args = (0..jobs[k].nin).map(|i| format!("cgrt::take(&v[{i}])")).collect::<Vec<_>>().join(", ");
        let text = format!("{}\npub fn verif_make() -> (cgrt::Names, cgrt::Call) {{\n    let mut m = {make};\n    let p = cgrt::params(&mut m);\n    (p, alloc::boxed::Box::new(move |v: &[_]| cgrt::out(m.forward({args}))))\n}}\n", r.code);
        std::fs::write(src.join(format!("c{k}.rs")), text).unwrap();
        live.push(k);
    }
    let (outs, tm) = compiled(libs, &src, &live, jobs, execute);
    for (k, out, p) in outs { res[k].out = out; res[k].params = p; }
    (res, Stats { gen_s: (t1 - t0).as_secs_f64(), compile_s: tm.0, run_s: tm.1 })
}
/// Compiles the modules c<k>.rs of `src` into programs of up to a hundred and executes them.
pub fn compiled(libs: &Libs, src: &Path, live: &[usize], jobs: &[Job], execute: bool) -> (Vec<(usize, Out, Vec<String>)>, (f64, f64)) {
    let per = (live.len().div_ceil(8)).clamp(1, 100);
    let chunks: Vec<Vec<usize>> = live.chunks(per).map(|c| c.to_vec()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let times = std::sync::Mutex::new((0f64, 0f64));
    let outs: Vec<Vec<(usize, Out, Vec<String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| { let mut v = vec![]; loop { let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed); if i >= chunks.len() { break v; } v.push(chunk(libs, src, i, &chunks[i], jobs, execute, &times)); } })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    (outs.into_iter().flatten().collect(), times.into_inner().unwrap())
}
fn chunk(libs: &Libs, src: &Path, ci: usize, ks: &[usize], jobs: &[Job], execute: bool, times: &std::sync::Mutex<(f64, f64)>) -> Vec<(usize, Out, Vec<String>)> {
    let t0 = std::time::Instant::now();
    let mut out: Vec<(usize, Out, Vec<String>)> = vec![];
    let mut ks: Vec<usize> = ks.to_vec();
    let main = src.join(format!("main{ci}.rs")); let exe = src.join(format!("exe{ci}"));
    for round in 0.. {
        if ks.is_empty() { return out; }
        let mut t = String::from("#![no_std]\n#![recursion_limit = \"512\"]\nextern crate alloc;\nextern crate std as verif_std;\n");
        for k in &ks { t.push_str(&format!("#[path = \"{}\"] mod c{k};\n", src.join(format!("c{k}.rs")).display())); }
        t.push_str("fn main() { cgrt::main(&[");
        for k in &ks { t.push_str(&format!("cgrt::Case {{ id: {k}, make: c{k}::verif_make }}, ")); }
        t.push_str("]) }\n");
        std::fs::write(&main, t).unwrap();
        let r = libs.rustc(&main, &exe, !execute);
        if r.status.success() { break; }
        let text = String::from_utf8_lossy(&r.stderr).into_owned();
        let mut bad: HashMap<usize, (bool, String)> = HashMap::new();
        for (ids, decided, m) in blame(&text) { for id in ids { let e = bad.entry(id).or_insert((false, String::new())); e.0 |= decided; if e.1.len() < 1500 { e.1.push_str(&m); } } }
        bad.retain(|k, _| ks.contains(k));
        if bad.is_empty() || round > 6 {
            if ks.len() == 1 { out.push((ks[0], Out::Undecided(format!("rustc: {}", text.chars().take(1500).collect::<String>())), vec![])); return out; }
            // not attributable: split
            let h = ks.len() / 2;
            out.extend(chunk(libs, src, ci + 10_000, &ks[..h], jobs, execute, times));
            out.extend(chunk(libs, src, ci + 20_000, &ks[h..], jobs, execute, times));
            return out;
        }
        ks.retain(|k| !bad.contains_key(k));
        for (k, (d, m)) in bad { out.push((k, if d { Out::Broken(m) } else { Out::Undecided(m) }, vec![])); }
    }
    let t1 = std::time::Instant::now();
    if !execute { times.lock().unwrap().0 += (t1 - t0).as_secs_f64(); for k in ks { out.push((k, Out::Compiled, vec![])); } return out; }
    let mut todo = ks.clone();
    while !todo.is_empty() {
        let list = src.join(format!("in{ci}.txt"));
        let mut t = String::new();
        for k in &todo { t.push_str(&format!("case {k}\n")); for v in &jobs[*k].vals { t.push_str(&format!("val {}\n", v.iter().map(show).collect::<Vec<_>>().join("\t"))); } }
        std::fs::write(&list, t).unwrap();
        let log = src.join(format!("out{ci}.txt"));
        let mut ch = Command::new(&exe).arg(&list).stdin(Stdio::null()).stderr(Stdio::null()).stdout(std::fs::File::create(&log).unwrap()).spawn().expect("run");
        let start = std::time::Instant::now();
        let mut hung = false;
        loop { match ch.try_wait().unwrap() { Some(_) => break, None if start.elapsed().as_secs() > 60 => { hung = true; let _ = ch.kill(); let _ = ch.wait(); break } None => std::thread::sleep(std::time::Duration::from_millis(10)) } }
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        let mut cur: Option<usize> = None; let mut got: HashMap<usize, (Out, Vec<String>)> = HashMap::new(); let mut done = false;
        for l in text.lines() {
            let (w, r) = l.split_once(' ').unwrap_or((l, ""));
            match w {
                "case" => { cur = r.parse().ok(); got.insert(cur.unwrap(), (Out::Ran(vec![]), vec![])); }
                "param" => got.get_mut(&cur.unwrap()).unwrap().1.push(r.to_string()),
                "load" => got.get_mut(&cur.unwrap()).unwrap().0 = Out::Load(r.to_string()),
                "ok" => { let v: Option<Vec<T>> = r.split('\t').filter(|s| !s.is_empty()).map(read).collect(); if let (Some(v), Out::Ran(x)) = (v, &mut got.get_mut(&cur.unwrap()).unwrap().0) { x.push(Ok(v)); } }
                "panic" => if let Out::Ran(x) = &mut got.get_mut(&cur.unwrap()).unwrap().0 { x.push(Err(r.to_string())); },
                "end" => done = true,
                _ => {}
            }
        }
        if !done { match cur { Some(k) => { if let (Out::Ran(x), _) = got.get_mut(&k).unwrap() { x.push(Err(if hung { "does not end".into() } else { "the process died".to_string() })); while x.len() < jobs[k].vals.len() { x.push(Err("not reached".into())); } } } None => { for k in &todo { out.push((*k, Out::Undecided("the executable did not start".into()), vec![])); } break; } } }
        todo.retain(|k| !got.contains_key(k));
        for (k, (o, p)) in got { out.push((k, o, p)); }
    }
    let mut tm = times.lock().unwrap(); tm.0 += (t1 - t0).as_secs_f64(); tm.1 += t1.elapsed().as_secs_f64();
    let _ = std::fs::remove_file(&exe);
    out
}
