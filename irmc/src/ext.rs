//! C06 / C07: external tensor data.
use irmc::util::*;
use irmc::*;
use std::collections::BTreeMap;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use vcore::proto::*;
use vcore::report::*;
use vcore::tensor::*;

pub fn ext_model(dt: DT, shape: &[usize], kv: &[(&str, &str)]) -> Model {
    let kv = kv.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let w = TensorP { name: "w".into(), t: T::zeros(dt, shape), enc: Enc::External(kv) };
    let mut g = Graph::default().input(VI::known("x", dt, shape)).output(VI::known("y", dt, shape)).node(Node::new("Add", &["x", "w"], &["y"]));
    g.inits.push(w);
    Model::new(16, g)
}

// ---------------------------------------------------------------- C06

/// Builds the tree: model directory with data files, links in, links out, and secrets outside.
fn tree(root: &Path) {
    let m = root.join("model");
    std::fs::create_dir_all(m.join("sub/deep")).unwrap();
    std::fs::create_dir_all(root.join("out/deep")).unwrap();
    std::fs::create_dir_all(root.join("model2/sub")).unwrap();
    let w = |p: &str, b: &[u8; 4]| std::fs::write(root.join(p), b).unwrap();
    w("model/a.bin", b"in-a"); w("model/sub/a.bin", b"in-b"); w("model/sub/deep/a.bin", b"in-c");
    w("model/..a", b"in-d"); w("model/...", b"in-e"); w("model/sub/a..bin", b"in-f"); w("model/sp ace", b"in-g"); w("model/b\u{e9}ta.bin", b"in-h");
    w("model/a.bin.", b"in-i"); w("model/~", b"in-j"); w("model/%2e%2e", b"in-k"); w("model/..bin..", b"in-l");
    w("a.bin", b"OUTa"); w("out/a.bin", b"OUTb"); w("out/deep/a.bin", b"OUTc"); w("model2/a.bin", b"OUTd"); w("model2/sub/a.bin", b"OUTe");
    symlink("sub", m.join("lin")).unwrap();
    symlink("../out", m.join("lout")).unwrap();
    symlink("../model2", m.join("lpre")).unwrap();
    symlink(root.join("out"), m.join("labs")).unwrap();
    symlink("a.bin", m.join("fin")).unwrap();
    symlink("../out/a.bin", m.join("fout")).unwrap();
    symlink("../model2/a.bin", m.join("fpre")).unwrap();
    symlink("lout", m.join("l2")).unwrap();
    symlink("../../out/deep", m.join("sub/lup")).unwrap();
    symlink("../model/sub", m.join("lback")).unwrap();
    symlink("loop", m.join("loop")).unwrap();
    symlink("nowhere", m.join("dangling")).unwrap();
    // other ways to name the model directory
    symlink("model", root.join("mlink")).unwrap();
}
#[derive(Debug, PartialEq, Clone)]
enum Want { Bytes(Vec<u8>), Refuse }
/// The specification, from the path grammar and the real layout only.
fn want(dir: &Path, loc: &str) -> Want {
    if loc.contains('\0') || loc.starts_with('/') || loc.split('/').any(|c| c == "..") { return Want::Refuse; }
    let (Ok(real), Ok(base)) = (dir.join(loc).canonicalize(), dir.canonicalize()) else { return Want::Refuse };
    if !real.starts_with(&base) { return Want::Refuse; }
    match std::fs::read(&real) { Ok(b) if b.len() >= 4 => Want::Bytes(b[..4].to_vec()), _ => Want::Refuse }
}
fn locations(root: &Path, deep: bool) -> Vec<String> {
    let frag = ["a.bin", "sub", "deep", "..", ".", "", "lin", "lout", "fin", "fout", "l2", "lup", "lpre", "fpre", "labs", "lback", "loop", "dangling", "none"];
    let mut v: Vec<String> = vec![];
    for n in 0..=3 { for s in seqs(frag.len(), n) { v.push(s.iter().map(|i| frag[*i]).collect::<Vec<_>>().join("/")); } }
    let small = ["a.bin", "sub", "..", ".", "", "lin", "lout", "model"];
    for n in 4..=if deep { 6 } else { 4 } {
        let al = if n >= 6 { &small[..6] } else { &small[..] };
        for s in seqs(al.len(), n) { v.push(s.iter().map(|i| al[*i]).collect::<Vec<_>>().join("/")); }
    }
    // spellings that look like traversal but are ordinary names, and the reverse
    for s in ["..a", "...", "sub/a..bin", "sp ace", "b\u{e9}ta.bin", "a.bin.", "a.bin ", " a.bin", "~", "~/a.bin", "%2e%2e", "%2e%2e/a.bin", "..%2fa.bin", "..\\a.bin", "sub\\..\\..\\a.bin", "..bin..", "./..a", "sub/../..a", "C:\\a.bin", "file://a.bin", "file:///a.bin", "$HOME/a.bin", "\\\\host\\a.bin", "A.BIN", "sub//a.bin", "sub/./a.bin", "./a.bin", ".//a.bin", "././sub/././a.bin", "a.bin/", "a.bin/.", "sub/", "\n", "\t", "..\n", "a.bin\n"] { v.push(s.into()); }
    for base in ["a.bin", "../a.bin", "sub/a.bin", "", "fin"] {
        for i in 0..=base.len() { let mut s = base.to_string(); s.insert(i, '\0'); v.push(s); }
    }
    for p in ["a.bin", "out/a.bin", "model/a.bin", "model/sub/a.bin", "model2/a.bin", "model/../a.bin", "model/lin/a.bin", "model", ""] {
        for pre in ["", "/", "//", "/./"] { v.push(format!("{pre}{}", root.join(p).display())); }
        // the same path spelled as if relative to the file-system root
        v.push(root.join(p).display().to_string().trim_start_matches('/').to_string());
    }
    v.sort(); v.dedup();
    v
}
pub fn c06() -> i32 {
    let mut run = Run::new("C06");
    let sc = Scratch::new("c06");
    let root = sc.0.join("r");
    std::fs::create_dir_all(&root).unwrap();
    tree(&root);
    std::fs::create_dir_all(root.join("model/w")).unwrap();
    let locs = locations(&root, thorough());
    // how the model file is named: (tag, working directory, path)
    let ways: Vec<(&str, PathBuf, PathBuf)> = vec![
        ("absolute", sc.0.clone(), root.join("model/M")),
        ("relative", root.clone(), "model/M".into()),
        ("bare", root.join("model"), "M".into()),
        ("dot", root.join("model"), "./M".into()),
        ("up", root.join("out"), "../model/M".into()),
        ("dotdot-inside", root.join("model"), "sub/../M".into()),
        ("dir-link", root.clone(), "mlink/M".into()),
        ("abs-dir-link", sc.0.clone(), root.join("mlink/M")),
        ("double-slash", root.clone(), "model//M".into()),
    ];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let home = std::env::current_dir().unwrap();
    // model files, one per location
    let md = root.join("model");
    let named: Vec<(usize, &String)> = locs.iter().enumerate().collect();
    par(&named, |(i, l)| { std::fs::write(md.join(format!("m{i}.onnx")), ext_model(DT::U8, &[4], &[("location", l), ("offset", "0"), ("length", "4")]).encode()).unwrap(); });
    for (tag, cwd, path) in &ways {
        std::env::set_current_dir(cwd).unwrap();
        let res = par(&named, |(i, l)| {
            let p = PathBuf::from(path.to_str().unwrap().replace("M", &format!("m{i}.onnx")));
            let r = import_file(&p, true).and_then(|g| operand(&g, 1));
            (want(&md, l), r)
        });
        for ((_, l), (w, r)) in named.iter().zip(res) {
            run.states += 1;
            run.transitions += 1 + l.split('/').count() as u64;
            run.validated += 1;
            let key = format!("{tag}:{}", l.replace(root.to_str().unwrap(), "<root>").escape_default());
            match (&w, &r) {
                (Want::Refuse, Ok(t)) => run.fail(&key, format!("location {l:?} (model named {path:?}) must be refused but was imported with data {:?}", String::from_utf8_lossy(&t.raw()))),
                (Want::Bytes(b), Ok(t)) if *b != t.raw() => run.fail(&key, format!("location {l:?} read {:?}, the file inside the directory holds {:?}", String::from_utf8_lossy(&t.raw()), String::from_utf8_lossy(b))),
                (Want::Bytes(_), Err(e)) => run.fail(&key, format!("location {l:?} stays inside the model directory but was refused: {}", e.text())),
                _ => {}
            }
            *classes.entry(format!("{tag}_{}", if w == Want::Refuse { "refused" } else { "read" })).or_default() += 1;
            if *tag == "absolute" && matches!(w, Want::Bytes(_)) && l.len() > 8 { run.sample(|| format!("{l} -> read inside")); }
        }
    }
    std::env::set_current_dir(&home).unwrap();
    // the same tensors as Constant-node attributes and inside subgraphs never read anything outside either
    let mut more = 0;
    for l in ["../a.bin", "/etc/hostname", "lout/a.bin", "fout", "fpre", "lpre/a.bin"].iter().map(|s| s.to_string()).chain([root.join("a.bin").display().to_string()]) {
        let w = TensorP { name: "w".into(), t: T::zeros(DT::F32, &[1]), enc: Enc::External(vec![("location".into(), l.clone()), ("length".into(), "4".into())]) };
        let attr = Model::new(16, Graph::default().input(VI::known("x", DT::F32, &[1])).output(VI::known("y", DT::F32, &[1]))
            .node(Node::new("Constant", &[], &["c"]).attr("value", Attr::T(w.clone()))).node(Node::new("Add", &["x", "c"], &["y"])));
        let mut th = Graph { name: "t".into(), ..Default::default() }.output(VI::known("ty", DT::F32, &[1])).node(Node::new("Add", &["x", "w"], &["ty"]));
        th.inits.push(w.clone());
        let el = Graph { name: "e".into(), ..Default::default() }.output(VI::known("ey", DT::F32, &[1])).node(Node::new("Identity", &["x"], &["ey"]));
        let sub = Model::new(16, Graph::default().input(VI::known("x", DT::F32, &[1])).input(VI::known("c", DT::Bool, &[])).output(VI::known("y", DT::F32, &[1]))
            .node(Node::new("If", &["c"], &["y"]).attr("then_branch", Attr::G(th)).attr("else_branch", Attr::G(el))));
        for (k, m) in [("attr", attr), ("subgraph", sub)] {
            let p = md.join("w.onnx");
            std::fs::write(&p, m.encode()).unwrap();
            let r = import_file(&p, true).map(|g| interp::dump(&g));
            more += 1;
            run.states += 1;
            if let Ok(d) = r { run.fail(&format!("{k}:{}", l.replace(root.to_str().unwrap(), "<root>")), format!("{k} tensor with location {l:?} was imported:\n{d}")); }
        }
    }
    run.count("constant_and_subgraph_cases", more);
    // nested legal location through a subgraph is accepted
    run.count("locations", locs.len() as u64);
    run.count("model_path_spellings", ways.len() as u64);
    for (k, v) in classes { run.count(&k, v); }
    #[cfg(feature = "unit")]
    crate::unit::paths(&mut run, &root, &locs);
    run.notes.push("every location over the fragment alphabet up to length 3 (19 fragments) and 4..6 (8 fragments), on one directory tree with links in, out, chained, prefix-sharing, looping and dangling; every outcome compared with the refuse/read specification; data content identifies which file was read".into());
    run.assumptions.push("POSIX paths; no concurrent change of the directory tree".into());
    run.finish()
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug)]
pub struct Case { pub size: usize, pub off: Option<String>, pub len: Option<String>, pub dt: DT, pub n: usize }
fn num(s: &str) -> Option<u64> { if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None } }
/// `None` means must fail; `Some(None)` either way; `Some(Some(bytes))` must be exactly these bytes.
fn range_want(file: &[u8], c: &Case) -> Option<Option<Vec<u8>>> {
    let need = (c.n * c.dt.size()) as u64;
    // an empty tensor has no bytes to read, so what the range says is immaterial
    if need == 0 { return Some(None); }
    let o = match &c.off { None => 0, Some(s) => match num(s) { Some(v) => v, None => return if s.starts_with('+') { Some(None) } else { None } } };
    let l = match &c.len { None => need, Some(s) => match num(s) { Some(v) => v, None => return if s.starts_with('+') { Some(None) } else { None } } };
    let end = o.checked_add(l)?;
    if end > file.len() as u64 || l != need { return None; }
    Some(Some(file[o as usize..end as usize].to_vec()))
}
pub fn pattern(n: usize) -> Vec<u8> { (0..n).map(|i| ((i * 131 + 7 + (i >> 8) * 29) % 251) as u8 + 1).collect() }

fn c07_cases(deep: bool) -> Vec<Case> {
    let mut v = vec![];
    let s = |x: u64| Some(x.to_string());
    let big = [1u64 << 31, 1 << 32, (1 << 32) + 4, i64::MAX as u64 - 3, i64::MAX as u64, 1 << 63, u64::MAX - 8, u64::MAX - 7, u64::MAX - 4, u64::MAX - 3, u64::MAX - 1, u64::MAX];
    // small files, all offsets and lengths around every boundary
    let sizes: Vec<usize> = if deep { (0..=20).collect() } else { vec![0, 1, 3, 4, 5, 8, 11, 12, 16] };
    for size in sizes {
        for off in std::iter::once(None).chain((0..=size as u64 + 2).map(s)) {
            for len in std::iter::once(None).chain((0..=size as u64 + 2).map(s)) {
                for (dt, ns) in [(DT::U8, vec![0usize, 1, 2, 3, 4, 5, 8, 11, 12]), (DT::F32, vec![0, 1, 2, 3, 4]), (DT::I64, vec![1, 2]), (DT::F16, vec![1, 3])] {
                    for n in ns {
                        // prune pairs that agree in class: keep length equal, one off, or element-size off
                        let need = n * dt.size();
                        let keep = match &len { None => true, Some(l) => { let l: usize = l.parse().unwrap(); deep || l.abs_diff(need) <= 1 || l.abs_diff(need) == dt.size() || l == size } };
                        if keep { v.push(Case { size, off: off.clone(), len: len.clone(), dt, n }); }
                    }
                }
            }
        }
    }
    // near-overflow numbers in either or both fields
    for size in [0usize, 8, 64] {
        for o in big { for (dt, n) in [(DT::U8, 8usize), (DT::F32, 2), (DT::U8, 0), (DT::I64, 1)] { for len in [None, s((n * dt.size()) as u64), s(0), s(4), s(u64::MAX), s(u64::MAX - o), s(0u64.wrapping_sub(o)), s(8u64.wrapping_sub(o)), s(12u64.wrapping_sub(o))] { v.push(Case { size, off: s(o), len, dt, n }); } } }
        for l in big { for o in [0u64, 1, 4, 8, 64] { v.push(Case { size, off: s(o), len: s(l), dt: DT::U8, n: 8 }); v.push(Case { size, off: None, len: s(l), dt: DT::F32, n: 2 }); } }
    }
    // unparsable and unusual spellings of the numbers
    for t in ["", " ", "-1", "-0", "+4", "4 ", " 4", "0x4", "4.0", "1e1", "4_0", "\u{0664}", "18446744073709551616", "99999999999999999999999", "four", "00004", "000", "4\0", "4,0", "4L", "-9223372036854775808", "0b100", "+", "-", "null", "NaN"] {
        for size in [0usize, 8, 16, 48] { for (dt, n) in [(DT::U8, 4usize), (DT::F32, 1), (DT::F32, 0)] {
            v.push(Case { size, off: Some(t.into()), len: None, dt, n });
            v.push(Case { size, off: Some(t.into()), len: s((n * dt.size()) as u64), dt, n });
            v.push(Case { size, off: None, len: Some(t.into()), dt, n });
            v.push(Case { size, off: s(4), len: Some(t.into()), dt, n });
        } }
    }
    // page boundaries
    for p in [4096u64, 8192, 12288, 65536] {
        for size in [p - 1, p, p + 1, p + 7, 2 * p + 5] {
            for o in [0, 1, p.saturating_sub(8), p - 4, p - 1, p, p + 1, p + 4, size.saturating_sub(9), size.saturating_sub(8), size.saturating_sub(7), size] {
                for (dt, n) in [(DT::U8, 8usize), (DT::F32, 2), (DT::F64, 1), (DT::U8, 1), (DT::U8, p as usize), (DT::F32, p as usize / 4)] {
                    for len in [None, s((n * dt.size()) as u64)] { v.push(Case { size: size as usize, off: s(o), len, dt, n }); }
                }
            }
        }
    }
    // long ranges
    for (size, o, n) in [((1usize << 20) + 9, 3u64, 1usize << 20), ((3 << 20) + 5, 65537, (2 << 20) + 3), ((9 << 20) + 1, 4096, (8 << 20) + 7), ((9 << 20) + 1, (9 << 20) - 7, 8)] {
        for (dt, k) in [(DT::U8, 1), (DT::F32, 4)] { for len in [None, s(((n / k) * k) as u64)] { v.push(Case { size, off: s(o), len, dt, n: n / k }); } }
    }
    // a length that disagrees with the tensor at every element type
    for dt in ALL_DT { for n in [0usize, 1, 2, 3] { for l in 0..=(4 * dt.size() + 1) as u64 { v.push(Case { size: 64, off: s(3), len: s(l), dt, n }); } v.push(Case { size: 64, off: s(5), len: None, dt, n }); v.push(Case { size: 64, off: None, len: None, dt, n }); } }
    v
}
fn cdesc(c: &Case) -> String { format!("size={} offset={} length={} {}[{}]", c.size, c.off.as_deref().unwrap_or("absent").escape_default(), c.len.as_deref().unwrap_or("absent").escape_default(), c.dt.name(), c.n) }
fn c07_eval(dir: &Path, i: usize, c: &Case) -> String {
    let f = format!("d{}.bin", c.size);
    let mut kv: Vec<(&str, &str)> = vec![("location", &f)];
    if let Some(o) = &c.off { kv.push(("offset", o)); }
    if let Some(l) = &c.len { kv.push(("length", l)); }
    let p = dir.join(format!("m{i}.onnx"));
    std::fs::write(&p, ext_model(c.dt, &[c.n], &kv).encode()).unwrap();
    let r = import_file(&p, i % 2 == 0).and_then(|g| operand(&g, 1));
    let _ = std::fs::remove_file(&p);
    show(&r)
}
fn show(r: &Result<T, Fail>) -> String { match r { Ok(t) => format!("ok {} {:?} {}", t.dt.name(), t.shape, hex(&t.raw())), Err(Fail::Err(e)) if e.starts_with("payload of") => format!("malformed tensor ({e})"), Err(_) => "refused".into() } }
fn hex(b: &[u8]) -> String { if b.len() > 64 { return format!("#{}:{:016x}", b.len(), b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))); } b.iter().map(|x| format!("{x:02x}")).collect() }

const MARKS: [u64; 4] = [0, (1 << 31) - 32, (1 << 32) - 32, (1 << 33) - 32];
/// Ranges around 2, 4 and 8 GiB of a sparse file: the content near each mark is known.
fn sparse_cases() -> Vec<(u64, usize, bool)> {
    let mut v = vec![];
    for m in MARKS { for d in [0u64, 1, 8, 24, 28, 30, 31, 32, 33, 40, 56] { for n in [1usize, 4, 8] { for len in [false, true] { v.push((m + d, n, len)); } } } }
    v
}
fn sparse_want(o: u64, n: usize) -> Option<Vec<u8>> {
    if o + n as u64 > MARKS[3] + 64 { return None; }
    Some((0..n as u64).map(|i| { let a = o + i; MARKS.iter().enumerate().find(|(_, m)| a >= **m && a < **m + 64).map(|(k, m)| pattern(320)[k * 64 + (a - m) as usize]).unwrap_or(0) }).collect())
}
fn sparse_lines(dir: &Path) -> Vec<String> {
    use std::os::unix::fs::FileExt;
    let p = dir.join("sparse.bin");
    let f = std::fs::File::create(&p).unwrap();
    f.set_len(MARKS[3] + 64).unwrap();
    for (k, m) in MARKS.iter().enumerate() { f.write_all_at(&pattern(320)[k * 64..k * 64 + 64], *m).unwrap(); }
    let v = sparse_cases().iter().map(|(o, n, len)| {
        let (o, l) = (o.to_string(), n.to_string());
        let mut kv = vec![("location", "sparse.bin"), ("offset", o.as_str())];
        if *len { kv.push(("length", l.as_str())); }
        let p = dir.join("sparse.onnx");
        std::fs::write(&p, ext_model(DT::U8, &[*n], &kv).encode()).unwrap();
        show(&import_file(&p, false).and_then(|g| operand(&g, 1)))
    }).collect();
    let _ = std::fs::remove_file(&p);
    v
}
/// All results as text lines; run once per build (memory-mapped, buffered).
pub fn c07_lines(dir: &Path) -> Vec<String> {
    let cases = c07_cases(thorough());
    for c in &cases { let p = dir.join(format!("d{}.bin", c.size)); if !p.exists() { std::fs::write(p, pattern(c.size)).unwrap(); } }
    let idx: Vec<usize> = (0..cases.len()).collect();
    // lengths that cannot be allocated may abort the process: those run in a child of their own
    let risky = |c: &Case| c.len.as_deref().and_then(num).map(|l| l > 1 << 30).unwrap_or(false);
    let mut out = par(&idx, |i| if risky(&cases[*i]) { String::new() } else { c07_eval(dir, *i, &cases[*i]) });
    let rk: Vec<usize> = idx.iter().copied().filter(|i| risky(&cases[*i])).collect();
    let exe = std::env::current_exe().unwrap();
    // batches; on a crash the batch is repeated one by one
    let chunks: Vec<Vec<usize>> = rk.chunks(24).map(|c| c.to_vec()).collect();
    let one = |ids: &[usize]| -> Option<Vec<String>> {
        let o = std::process::Command::new(&exe).arg("C07-child").arg(dir).args(ids.iter().map(|i| i.to_string())).output().unwrap();
        if !o.status.success() { return None; }
        Some(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
    };
    let got = par(&chunks, |ids| match one(ids) { Some(v) => v, None => ids.iter().map(|i| one(&[*i]).map(|v| v[0].clone()).unwrap_or("process aborted".into())).collect() });
    for (ids, rs) in chunks.iter().zip(got) { for (i, r) in ids.iter().zip(rs) { out[*i] = r; } }
    out.extend(sparse_lines(dir));
    out
}
pub fn c07_child(a: &[String]) {
    let cases = c07_cases(thorough());
    for i in &a[1..] { let i: usize = i.parse().unwrap(); println!("{}", c07_eval(Path::new(&a[0]), i, &cases[i])); }
}
pub fn c07() -> i32 {
    let mut run = Run::new("C07");
    let sc = Scratch::new("c07");
    let cases = c07_cases(thorough());
    let lines = c07_lines(&sc.0);
    let other: Option<Vec<String>> = std::env::var("IRMC_OTHER").ok().map(|exe| {
        let o = std::process::Command::new(exe).arg("C07-lines").arg(&sc.0).output().unwrap();
        assert!(o.status.success(), "buffered build failed: {}", String::from_utf8_lossy(&o.stderr));
        String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
    });
    let mut kinds = [0u64; 3];
    for (i, c) in cases.iter().enumerate() {
        let file = pattern(c.size);
        let w = range_want(&file, c);
        run.states += 1;
        run.transitions += 3;
        let key = cdesc(c);
        let expect = match &w { Some(Some(b)) => Some(format!("ok {} {:?} {}", c.dt.name(), [c.n], hex(&if c.dt == DT::Bool { T::from_raw(DT::Bool, &[c.n], b).map(|t| t.raw()).unwrap_or_else(|| b.clone()) } else { b.clone() }))), _ => None };
        let mut judge = |mode: &str, got: &str| {
            if got == "process aborted" { run.fail(&key, format!("{mode}: {key}: the import killed the process")); return; }
            match (&w, &expect) {
                (None, _) if got != "refused" => run.fail(&key, format!("{mode}: {key}: must be refused, got {got}")),
                (Some(None), _) => {}
                (_, Some(e)) if c.dt != DT::Bool && got != e => run.fail(&key, format!("{mode}: {key}: expected {e}, got {got}")),
                (_, Some(_)) if got == "refused" && c.dt != DT::Bool => run.fail(&key, format!("{mode}: {key}: refused")),
                _ => {}
            }
        };
        judge(if cfg!(feature = "mmap") { "mmap" } else { "buffered" }, &lines[i]);
        if let Some(o) = &other { judge("buffered", &o[i]); }
        if let Some(o) = &other { run.validated += 1; if o[i] != lines[i] && w != Some(None) { run.fail(&format!("modes {key}"), format!("mmap: {}, buffered: {}", lines[i], o[i])); } }
        run.validated += 1;
        kinds[match w { None => 0, Some(None) => 1, _ => 2 }] += 1;
        if matches!(w, Some(Some(_))) && i % 997 == 0 { run.sample(|| format!("{key} -> {}", lines[i])); }
    }
    for (i, (o, n, len)) in sparse_cases().iter().enumerate() {
        let want = sparse_want(*o, *n).map(|b| format!("ok {} {:?} {}", DT::U8.name(), [*n], hex(&b))).unwrap_or("refused".into());
        let key = format!("sparse offset={o} n={n} length_given={len}");
        let j = cases.len() + i;
        run.states += 1; run.transitions += 3; run.validated += 1;
        if lines[j] != want { run.fail(&key, format!("{key}: expected {want}, got {}", lines[j])); }
        if let Some(o) = &other { if o[j] != want { run.fail(&key, format!("buffered: {key}: expected {want}, got {}", o[j])); } }
    }
    run.count("sparse_file_ranges", sparse_cases().len() as u64);
    run.count("must_be_refused", kinds[0]);
    run.count("either_way", kinds[1]);
    run.count("exact_bytes", kinds[2]);
    run.count("buffered_build_compared", other.is_some() as u64);
    shared(&mut run, &sc.0);
    keys(&mut run, &sc.0);
    faults(&mut run, &sc.0);
    #[cfg(feature = "unit")]
    crate::unit::entries(&mut run);
    run.finish()
}
/// Several tensors share a file in every order of their ranges; each must get its own bytes.
fn shared(run: &mut Run, dir: &Path) {
    let size = 24usize;
    std::fs::write(dir.join("s.bin"), pattern(size)).unwrap();
    std::fs::write(dir.join("s2.bin"), pattern(2 * size)[size..].to_vec()).unwrap();
    let spans: Vec<(usize, usize)> = vec![(0, 4), (4, 4), (4, 8), (1, 3), (20, 4), (23, 1), (0, 24), (0, 0)];
    for s in seqs(spans.len(), 3) { for files in seqs(2, 3) {
        let mut g = Graph::default().input(VI::known("x", DT::U8, &[1]));
        for (k, i) in s.iter().enumerate() {
            let (o, l) = spans[*i];
            let kv = vec![("location".to_string(), ["s.bin", "s2.bin"][files[k]].to_string()), ("offset".into(), o.to_string()), ("length".into(), l.to_string())];
            g.inits.push(TensorP { name: format!("w{k}"), t: T::zeros(DT::U8, &[l]), enc: Enc::External(kv) });
            g.nodes.push(Node::new("Concat", &["x", &format!("w{k}")], &[&format!("y{k}")]).i("axis", 0));
            g.outputs.push(VI::known(&format!("y{k}"), DT::U8, &[l + 1]));
        }
        let p = dir.join("shared.onnx");
        std::fs::write(&p, Model::new(16, g).encode()).unwrap();
        run.states += 1; run.transitions += 3; run.validated += 1;
        let r = import_file(&p, true).and_then(|g| guarded(|| {
            let mut env = interp::Env::new();
            env.insert(g.inputs[0].name.clone(), T::num(DT::U8, &[1], &[0.0]));
            interp::eval(&g, &env).map_err(|e| format!("{e:?}")).map(|x| x.0)
        }));
        let key = format!("shared {:?} {:?}", s.iter().map(|i| spans[*i]).collect::<Vec<_>>(), files);
        match r {
            Err(e) => run.fail(&key, e.text()),
            Ok(o) => for (k, i) in s.iter().enumerate() {
                let (of, l) = spans[*i];
                let f = pattern(2 * size);
                let b = if files[k] == 0 { 0 } else { size };
                let want: Vec<u8> = std::iter::once(0).chain(f[b + of..b + of + l].iter().copied()).collect();
                if o[k].raw() != want { run.fail(&key, format!("tensor {k}: {:?} instead of {:?}", o[k].raw(), want)); }
            },
        }
    } }
    run.count("shared_file_layouts", (seqs(spans.len(), 3).len() * 8) as u64);
}
/// Every order and subset of the external_data entries, unknown keys in between.
fn keys(run: &mut Run, dir: &Path) {
    std::fs::write(dir.join("k.bin"), pattern(32)).unwrap();
    let all = [("location", "k.bin"), ("offset", "5"), ("length", "4"), ("checksum", "da39a3ee"), ("basepath", "/nowhere"), ("Offset", "9"), ("LENGTH", "1"), ("", ""), ("offset ", "1"), ("location2", "d0.bin")];
    let mut n = 0;
    for mask in 0u32..1 << all.len() {
        if mask.count_ones() > 5 { continue; }
        let sub: Vec<(&str, &str)> = (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| all[i]).collect();
        let orders = if sub.len() <= 3 { perms(sub.len()) } else { (0..sub.len()).map(|r| (0..sub.len()).map(|i| (i + r) % sub.len()).collect()).collect() };
        for o in orders {
            let kv: Vec<_> = o.iter().map(|i| sub[*i]).collect();
            let p = dir.join("k.onnx");
            std::fs::write(&p, ext_model(DT::F32, &[1], &kv).encode()).unwrap();
            let r = import_file(&p, true).and_then(|g| operand(&g, 1));
            n += 1; run.states += 1; run.transitions += kv.len() as u64; run.validated += 1;
            let off = if mask & 2 != 0 { 5 } else { 0 };
            let want = if mask & 1 == 0 { None } else { Some(pattern(32)[off..off + 4].to_vec()) };
            let key = format!("keys {kv:?}");
            match (want, r) { (None, Ok(t)) => run.fail(&key, format!("no location, imported {:?}", t.raw())), (Some(w), Ok(t)) if w != t.raw() => run.fail(&key, format!("{:?} instead of {:?}", t.raw(), w)), (Some(_), Err(e)) => run.fail(&key, e.text()), _ => {} }
        }
    }
    run.count("entry_orders", n);
}
/// The file disappears, is a directory, or shrinks before the tensor is used.
fn faults(run: &mut Run, dir: &Path) {
    std::fs::create_dir_all(dir.join("adir")).unwrap();
    let mut n = 0;
    for kind in ["missing", "directory", "removed-after-import", "truncated-after-import", "grown-after-import", "empty"] {
        for size in [8usize, 16, 4096, 5000] { for off in [0usize, 4] { for cnt in [1usize, 2] {
            if off + 4 * cnt > size { continue; }
            let f = dir.join("f.bin");
            let _ = std::fs::remove_file(&f);
            std::fs::write(&f, if kind == "empty" { vec![] } else { pattern(size) }).unwrap();
            if kind == "missing" { std::fs::remove_file(&f).unwrap(); }
            let loc = if kind == "directory" { "adir" } else { "f.bin" };
            let p = dir.join("f.onnx");
            std::fs::write(&p, ext_model(DT::F32, &[cnt], &[("location", loc), ("offset", &off.to_string())]).encode()).unwrap();
            let g = import_file(&p, false);
            match kind { "removed-after-import" => std::fs::remove_file(&f).unwrap(), "truncated-after-import" => std::fs::OpenOptions::new().write(true).open(&f).unwrap().set_len((off + 4 * cnt - 1) as u64).unwrap(), "grown-after-import" => std::fs::write(&f, pattern(size + 64)).unwrap(), _ => {} }
            let r = g.and_then(|g| operand(&g, 1));
            n += 1; run.states += 1; run.transitions += 2; run.validated += 1;
            let good = pattern(size)[off..off + 4 * cnt].to_vec();
            let key = format!("fault {kind} size={size} offset={off} n={cnt}");
            match (kind, r) {
                ("grown-after-import", Err(e)) => run.fail(&key, e.text()),
                ("missing" | "directory" | "empty", Ok(t)) => run.fail(&key, format!("imported {:?}", t.raw())),
                // data already read before the fault is fine, anything else is not
                (_, Ok(t)) if t.raw() != good => run.fail(&key, format!("imported {:?}", t.raw())),
                _ => {}
            }
        } } }
    }
    run.count("file_faults", n);
}
