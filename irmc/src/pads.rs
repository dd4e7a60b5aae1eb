//! C09: padding of convolution and pooling, on the imported graph and on the padding types themselves.
use irmc::{check::*, import, util::*};
use std::collections::BTreeMap;
use vcore::fam::*;
use vcore::proto::*;
use vcore::report::*;
use vcore::tensor::*;

fn x(s: &[usize]) -> In { D(distinct(DT::F32, s)) }
fn m(s: &[usize]) -> In { D(fmix(s)) }
const AUTO: [Option<&str>; 5] = [None, Some("NOTSET"), Some("SAME_UPPER"), Some("SAME_LOWER"), Some("VALID")];
fn upto(k: i64, n: usize) -> Vec<Vec<i64>> { product(&vec![(0..=k).collect::<Vec<_>>(); n]) }

/// Every operator with the given spatial attributes over an input of spatial size `n`.
fn ops(f: &mut F, tag: &str, n: &[usize], at: &[(&'static str, Attr)], k: &[i64], pool: bool) {
    let r = n.len();
    let cat = |a: &[usize], b: &[usize]| a.iter().chain(b).copied().collect::<Vec<_>>();
    let ks: Vec<usize> = k.iter().map(|v| *v as usize).collect();
    f.tol(1e-4).add(format!("Conv{r}d/{tag}"), 11, "Conv", at, &[m(&cat(&[1, 1], n)), C(distinct(DT::F32, &cat(&[1, 1], &ks)))], 1);
    if !pool || r == 3 { return; }
    for ceil in [0i64, 1] {
        let mut a = at.to_vec(); if ceil == 1 { a.push(ai("ceil_mode", 1)); }
        f.tol(1e-4).add(format!("MaxPool{r}d/{tag}/ceil={ceil}"), 12, "MaxPool", &a, &[x(&cat(&[1, 1], n))], 1);
        for cip in [0i64, 1] { let mut b = a.clone(); if cip == 1 { b.push(ai("count_include_pad", 1)); } f.tol(1e-4).add(format!("AvgPool{r}d/{tag}/ceil={ceil}/cip={cip}"), 19, "AveragePool", &b, &[m(&cat(&[1, 1], n))], 1); }
    }
}
fn cases() -> Vec<Case> {
    let t = thorough();
    let mut f = F::new();
    f.group("one");
    let (kn, sn, dn, pn) = if t { (5i64, 4i64, 3i64, 3i64) } else { (4, 3, 2, 2) };
    for n in if t { (1..=9usize).collect::<Vec<_>>() } else { vec![3, 4, 5, 6, 7] } { for k in 1..=kn { for s in 1..=sn { for d in 1..=dn {
        for a in AUTO { for p in upto(pn, 2) {
            let zero = p == [0, 0];
            // explicit pads next to an automatic mode: they are ignored
            if a.is_some() && a != Some("NOTSET") && !zero && p != [1, 2] { continue; }
            let mut at = vec![ais("kernel_shape", &[k])];
            if s != 1 || k == 2 { at.push(ais("strides", &[s])); }
            if d != 1 || k == 2 { at.push(ais("dilations", &[d])); }
            if !zero || k == 2 { at.push(ais("pads", &p)); }
            if let Some(a) = a { at.push(asx("auto_pad", a)); }
            ops(&mut f, &format!("n={n}/k={k}/s={s}/d={d}/auto={}/pads={}", a.unwrap_or("absent"), is(&p)), &[n], &at, &[k], true);
        } }
    } } } }
    f.group("two");
    for (n, k, s, d) in [([5usize, 7], [2i64, 3], [1i64, 2], [1i64, 1]), ([6, 5], [3, 2], [2, 1], [1, 2]), ([5, 4], [3, 3], [1, 1], [2, 1]), ([5, 5], [2, 2], [2, 3], [1, 1]), ([4, 7], [1, 4], [3, 2], [1, 1]), ([7, 4], [4, 1], [2, 2], [1, 3])] {
        let base = vec![ais("kernel_shape", &k), ais("strides", &s), ais("dilations", &d)];
        let tag = format!("n={n:?}/k={}/s={}/d={}", is(&k), is(&s), is(&d)).replace(' ', "");
        for p in upto(if t { 3 } else { 2 }, 4) { let mut at = base.clone(); at.push(ais("pads", &p)); ops(&mut f, &format!("{tag}/pads={}", is(&p)), &n, &at, &k, true); }
        for a in &AUTO[1..] { for p in [None, Some([1i64, 2, 0, 1])] { let mut at = base.clone(); at.push(asx("auto_pad", a.unwrap())); if let Some(p) = p { at.push(ais("pads", &p)); } ops(&mut f, &format!("{tag}/auto={}/pads={p:?}", a.unwrap()), &n, &at, &k, true); } }
    }
    f.group("three");
    for (n, k, s, d) in [([3usize, 4, 3], [2i64, 1, 2], [1i64, 2, 1], [1i64, 1, 1]), ([4, 3, 5], [2, 3, 2], [2, 1, 3], [1, 1, 2]), ([3, 3, 3], [1, 2, 3], [1, 1, 1], [1, 2, 1])] {
        let base = vec![ais("kernel_shape", &k), ais("strides", &s), ais("dilations", &d)];
        let tag = format!("n={n:?}/k={}/s={}/d={}", is(&k), is(&s), is(&d)).replace(' ', "");
        for p in upto(2, 6) { let mut at = base.clone(); at.push(ais("pads", &p)); ops(&mut f, &format!("{tag}/pads={}", is(&p)), &n, &at, &k, false); }
        for a in &AUTO[1..] { for p in [None, Some([1i64, 2, 0, 1, 0, 2])] { let mut at = base.clone(); at.push(asx("auto_pad", a.unwrap())); if let Some(p) = p { at.push(ais("pads", &p)); } ops(&mut f, &format!("{tag}/auto={}/pads={p:?}", a.unwrap()), &n, &at, &k, false); } }
    }
    f.group("transposed");
    for r in 1..=3usize {
        let n = &[3usize, 4, 3][..r]; let k = &[3usize, 2, 3][..r]; let s = &[2i64, 1, 2][..r];
        let cat = |a: &[usize], b: &[usize]| a.iter().chain(b).copied().collect::<Vec<_>>();
        for p in upto(if r == 3 { 1 } else { 2 }, 2 * r) {
            let sym = (0..r).all(|i| p[i] == p[i + r]);
            if !sym { f.loose(); } // the framework has no asymmetric transposed padding
            f.tol(1e-4).add(format!("ConvTranspose{r}d/pads={}", is(&p)), 11, "ConvTranspose", &[ais("kernel_shape", &k.iter().map(|v| *v as i64).collect::<Vec<_>>()), ais("strides", s), ais("pads", &p)], &[m(&cat(&[1, 1], n)), C(distinct(DT::F32, &cat(&[1, 1], k)))], 1);
        }
    }
    f.v
}
/// Models that have to be refused: (name, model).
fn refusals() -> Vec<(String, Model)> {
    let mut out = vec![];
    let mut bad = |nm: String, op: &str, r: usize, at: Vec<(&'static str, Attr)>| {
        let n = vec![4usize; r]; let cat = |a: &[usize], b: &[usize]| a.iter().chain(b).copied().collect::<Vec<_>>();
        let mut g = Graph::default().input(VI::known("x", DT::F32, &cat(&[1, 1], &n))).output(VI::dynr("y", DT::F32, r + 2));
        let mut ins = vec!["x"];
        if op.starts_with("Conv") { g = g.init("w", distinct(DT::F32, &cat(&[1, 1], &vec![2; r]))); ins.push("w"); }
        let mut nd = Node::new(op, &ins, &["y"]);
        nd.attrs = std::iter::once(ais("kernel_shape", &vec![2; r])).chain(at).map(|(k, a)| (k.to_string(), a)).collect();
        out.push((format!("{op}{r}d/{nm}"), Model::new(13, g.node(nd))));
    };
    for (op, rs) in [("Conv", 1..=3usize), ("MaxPool", 1..=2), ("AveragePool", 1..=2), ("ConvTranspose", 1..=3)] { for r in rs {
        for k in 0..2 * r { for v in [-1i64, -2, i64::MIN] { for rest in [0i64, 1, 2] { let mut p = vec![rest; 2 * r]; p[k] = v; bad(format!("pads={}", is(&p)), op, r, vec![ais("pads", &p)]); } } }
        bad("pads=all-negative".into(), op, r, vec![ais("pads", &vec![-1; 2 * r])]);
        for a in modes() { bad(format!("auto_pad={a:?}"), op, r, vec![asx("auto_pad", &a)]); }
    } }
    out
}
/// Strings that are not automatic padding modes.
fn modes() -> Vec<String> {
    let good = ["NOTSET", "SAME_UPPER", "SAME_LOWER", "VALID"];
    let mut v: Vec<String> = vec!["".into(), "SAME".into(), "UPPER".into(), "FULL".into(), "EXPLICIT".into(), "NONE".into(), "notset".into(), "same_upper".into(), "Valid".into(), "0".into(), "SAME-UPPER".into(), "SAMEUPPER".into()];
    for g in good { for i in 0..g.len() { let mut s = g.to_string(); s.remove(i); v.push(s); let mut s = g.to_string(); s.insert(i, ' '); v.push(s); } v.push(format!("{g} ")); v.push(format!("{g}\0")); v.push(format!("{g}X")); v.push(g.to_lowercase()); }
    v.sort(); v.dedup(); v.retain(|s| !good.contains(&s.as_str()));
    v
}
pub fn c09() -> i32 {
    let mut run = Run::new("C09");
    let mut cs = cases();
    cs.extend(vcore::fam2::all().into_iter().filter(|c| ["Conv", "MaxPool", "AvgPool"].iter().any(|p| c.name.starts_with(p))).map(|mut c| { c.name = format!("family/{}", c.name); c }));
    let res = par(&cs, |c| judge(&c.model, false, &c.vals, c.tol).0);
    let mut by: BTreeMap<String, u64> = BTreeMap::new();
    for (c, v) in cs.iter().zip(res) {
        run.states += 1; run.transitions += c.vals.len() as u64;
        let k = match &v {
            V::Same(n) => { run.validated += *n as u64; "agree" }
            V::Refused(_) if c.may_refuse => "refused_as_documented",
            V::Undef(_) => "reference_undefined",
            v => { run.fail(&c.name, format!("{v:?}")); "fail" }
        };
        *by.entry(format!("{}_{k}", c.group)).or_default() += 1;
        if run.states % 20011 == 7 { run.sample(|| format!("{}: imported operator agrees with the reference", c.name)); }
    }
    for (k, n) in by { run.count(&k, n); }
    let rs = refusals();
    let res = par(&rs, |(_, m)| import(m, false).is_ok());
    for ((nm, _), ok) in rs.iter().zip(res) {
        run.states += 1; run.transitions += 1; run.validated += 1;
        if ok { run.fail(&format!("refuse/{nm}"), "imported although the padding is not one the framework can express".into()); }
    }
    run.count("refusal_models", rs.len() as u64);
    types(&mut run);
    #[cfg(feature = "unit")]
    crate::unit_pads::functions(&mut run);
    run.assumptions.push("element values up to the enumerated sizes stand for all sizes".into());
    run.finish()
}
/// The public padding types.
fn types(run: &mut Run) {
    use onnx_ir::padding::*;
    let good = [("NOTSET", AutoPad::NotSet), ("SAME_UPPER", AutoPad::SameUpper), ("SAME_LOWER", AutoPad::SameLower), ("VALID", AutoPad::Valid)];
    for (s, a) in &good {
        run.states += 1; run.validated += 1;
        if AutoPad::parse(s).ok().as_ref() != Some(a) { run.fail(&format!("parse/{s}"), format!("{:?}", AutoPad::parse(s))); }
        if a.to_string() != *s { run.fail(&format!("display/{s}"), a.to_string()); }
    }
    if AutoPad::default() != AutoPad::NotSet { run.fail("default", "the default mode is not NOTSET".into()); }
    for s in modes() { run.states += 1; run.validated += 1; if let Ok(a) = AutoPad::parse(&s) { run.fail(&format!("parse/{s:?}"), format!("accepted as {a:?}")); } }
    let al = [0usize, 1, 2, 3, 7];
    for p in seqs(5, 2) { let p: Vec<usize> = p.iter().map(|i| al[*i]).collect(); run.states += 1; run.validated += 1; let c = PaddingConfig1d::Explicit(p[0], p[1]);
        check(run, &format!("{c:?}"), c.as_tuple() == (p[0], p[1]), c.is_asymmetric() == (p[0] != p[1]), c.to_string() == format!("Explicit({}, {})", p[0], p[1])); }
    for p in seqs(5, 4) { let p: Vec<usize> = p.iter().map(|i| al[*i]).collect(); run.states += 1; run.validated += 1; let c = PaddingConfig2d::Explicit(p[0], p[1], p[2], p[3]);
        check(run, &format!("{c:?}"), c.as_tuple() == (p[0], p[1], p[2], p[3]), c.is_asymmetric() == (p[0] != p[2] || p[1] != p[3]), c.to_string() == format!("Explicit({}, {}, {}, {})", p[0], p[1], p[2], p[3])); }
    for p in seqs(4, 6) { let p: Vec<usize> = p.iter().map(|i| al[*i]).collect(); run.states += 1; run.validated += 1; let c = PaddingConfig3d::Explicit(p[0], p[1], p[2], p[3], p[4], p[5]);
        check(run, &format!("{c:?}"), c.as_tuple() == (p[0], p[1], p[2], p[3], p[4], p[5]), c.is_asymmetric() == (p[0] != p[3] || p[1] != p[4] || p[2] != p[5]), c.to_string() == format!("Explicit({}, {}, {}, {}, {}, {})", p[0], p[1], p[2], p[3], p[4], p[5])); }
    check(run, "Valid1", PaddingConfig1d::Valid.as_tuple() == (0, 0), !PaddingConfig1d::Valid.is_asymmetric(), PaddingConfig1d::Valid.to_string() == "Valid");
    check(run, "Valid2", PaddingConfig2d::Valid.as_tuple() == (0, 0, 0, 0), !PaddingConfig2d::Valid.is_asymmetric(), PaddingConfig2d::Valid.to_string() == "Valid");
    check(run, "Valid3", PaddingConfig3d::Valid.as_tuple() == (0, 0, 0, 0, 0, 0), !PaddingConfig3d::Valid.is_asymmetric(), PaddingConfig3d::Valid.to_string() == "Valid");
}
fn check(run: &mut Run, what: &str, tuple: bool, asym: bool, shown: bool) {
    if !tuple { run.fail(&format!("tuple/{what}"), "as_tuple does not give back the padding".into()); }
    if !asym { run.fail(&format!("asymmetric/{what}"), "is_asymmetric is wrong".into()); }
    if !shown { run.fail(&format!("shown/{what}"), "Display does not show the padding".into()); }
}
