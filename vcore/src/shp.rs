//! Arithmetic on shapes and scalars: every program of a few steps over values that the importer keeps
//! as shape vectors, native scalars, one-element tensors and integer tensors, mixed in every way, and
//! their uses as operands of tensor operators. A third valuation has other dimensions.
use crate::fam::Case;
use crate::prog::{programs, st, Src::*, Step, Theme, Val};
use crate::proto::*;
use crate::tensor::*;
fn ai(k: &'static str, v: i64) -> (&'static str, Attr) { (k, Attr::I(v)) }

const X: usize = 0; const S: usize = 1; const W: usize = 2; const FS: usize = 3; const Y: usize = 4;
fn producers() -> Vec<Step> {
    let mut o = vec![];
    for (a, b) in [(None::<i64>, None::<i64>), (Some(1), None), (Some(-1), None), (None, Some(2)), (None, Some(-1)), (Some(1), Some(2)), (Some(-2), Some(-1))] {
        let mut at = vec![]; if let Some(a) = a { at.push(ai("start", a)); } if let Some(b) = b { at.push(ai("end", b)); }
        o.push(st(format!("Sh{}_{}", a.map(|x| x.to_string()).unwrap_or_default(), b.map(|x| x.to_string()).unwrap_or_default()), "Shape", &at, &[V(X)]));
    }
    o.push(st("ShY", "Shape", &[], &[V(Y)]));
    o.push(st("IdS", "Identity", &[], &[V(S)])); o.push(st("IdW", "Identity", &[], &[V(W)])); o.push(st("IdF", "Identity", &[], &[V(FS)]));
    o
}
fn consts(dt: DT) -> Vec<(String, T)> {
    let mut v = vec![];
    for c in [2.0, -3.0] { v.push((format!("{c}"), T::num(dt, &[], &[c]))); v.push((format!("v{c}"), T::num(dt, &[1], &[c]))); }
    v.push(("vec".into(), T::num(dt, &[3], &[1.0, -2.0, 3.0])));
    v.push(("mat".into(), T::num(dt, &[2, 1], &[4.0, -1.0])));
    v
}
const ARITH: [&str; 7] = ["Add", "Sub", "Mul", "Div", "Mod", "Max", "Min"];
const COMP: [&str; 5] = ["Equal", "Less", "Greater", "LessOrEqual", "GreaterOrEqual"];
/// Everything that can be done with value `i` (the newest) alone, with a constant, with an earlier value.
fn uses(vals: &[Val], i: usize, full: bool) -> Vec<Step> {
    let mut o = vec![];
    let t = &vals[i].t;
    let int = t.dt.is_int() && t.dt != DT::Bool;
    if t.dt == DT::Bool {
        o.push(st("Not", "Not", &[], &[V(i)]));
        for to in [1, 6, 7] { o.push(st(format!("Ca{to}"), "Cast", &[ai("to", to)], &[V(i)])); }
        for (n, a, b) in [("s", T::i64s(5), T::i64s(-6)), ("v", T::i64v(&[5]), T::i64v(&[-6])), ("vs", T::i64v(&[5, 6, 7]), T::i64s(0))] { o.push(st(format!("Wh{n}"), "Where", &[], &[V(i), K(a), K(b)])); }
        for (a, b) in [(S, W), (W, S), (S, S), (W, W)] { o.push(st(format!("Wh{a}{b}"), "Where", &[], &[V(i), V(a), V(b)])); }
        o.push(st("WhF", "Where", &[], &[V(i), V(FS), K(T::f32s(9.0))]));
        for op in ["And", "Or", "Xor"] { o.push(st(format!("{op}c"), op, &[], &[V(i), K(T::bool(&[], &[true]))])); o.push(st(format!("{op}v"), op, &[], &[K(T::bool(&[3], &[true, false, true])), V(i)])); for j in 5..i { if vals[j].t.dt == DT::Bool { o.push(st(format!("{op}{j}"), op, &[], &[V(j), V(i)])); } } }
        return o;
    }
    // arithmetic with constants and with what there is, both ways round
    for (n, c) in consts(t.dt) { for op in ARITH { if op == "Mod" && !int { continue; } o.push(st(format!("{op}c{n}"), op, &[], &[V(i), K(c.clone())])); if full || n.len() < 3 { o.push(st(format!("{op}k{n}"), op, &[], &[K(c.clone()), V(i)])); } } }
    for (n, c) in consts(t.dt) { for op in COMP { if full || n.len() < 3 { o.push(st(format!("{op}c{n}"), op, &[], &[V(i), K(c.clone())])); } } }
    let others: Vec<usize> = (1..i).filter(|j| vals[*j].t.dt == t.dt && *j != Y).collect();
    for j in others {
        for op in ARITH { if op == "Mod" && !int { continue; } o.push(st(format!("{op}{j}n"), op, &[], &[V(j), V(i)])); o.push(st(format!("{op}n{j}"), op, &[], &[V(i), V(j)])); }
        for op in COMP { if full || op == "Equal" || op == "Less" { o.push(st(format!("{op}{j}n"), op, &[], &[V(j), V(i)])); o.push(st(format!("{op}n{j}"), op, &[], &[V(i), V(j)])); } }
        if t.rank() == 1 && vals[j].t.rank() == 1 { o.push(st(format!("Cat{j}n"), "Concat", &[ai("axis", 0)], &[V(j), V(i)])); o.push(st(format!("Catn{j}"), "Concat", &[ai("axis", -1)], &[V(i), V(j), K(if int { T::i64v(&[8]) } else { T::f32(&[1], &[8.0]) })])); }
        if int && t.rank() == 1 { o.push(st(format!("Ga{j}"), "Gather", &[ai("axis", 0)], &[V(i), V(j)])); }
    }
    for (op, only_float) in [("Neg", false), ("Abs", false), ("Identity", false), ("Sign", false), ("Sqrt", true), ("Floor", true), ("Relu", false)] { if !only_float || !int { o.push(st(op, op, &[], &[V(i)])); } }
    for to in [1, 6, 7, 9, 11] { o.push(st(format!("Ca{to}"), "Cast", &[ai("to", to)], &[V(i)])); }
    o.push(st("Shape", "Shape", &[], &[V(i)]));
    if t.rank() == 0 {
        for ax in [0, -1] { o.push(st(format!("Un{ax}"), "Unsqueeze", &[], &[V(i), K(T::i64v(&[ax]))])); }
        o.push(st("Un01", "Unsqueeze", &[], &[V(i), K(T::i64v(&[0, 1]))]));
        for r in [&[1i64][..], &[-1], &[]] { o.push(st(format!("Re{r:?}"), "Reshape", &[], &[V(i), K(T::i64v(r))])); }
        o.push(st("Ex", "Expand", &[], &[V(i), K(T::i64v(&[3]))]));
        if int {
            o.push(st("Rg", "Range", &[], &[K(T::i64s(0)), V(i), K(T::i64s(1))]));
            o.push(st("Rgs", "Range", &[], &[K(T::i64s(1)), K(T::i64s(9)), V(i)]));
            o.push(st("GaX", "Gather", &[ai("axis", 1)], &[V(X), V(i)])); o.push(st("GaW", "Gather", &[ai("axis", 0)], &[V(W), V(i)]));
            o.push(st("Oh", "OneHot", &[], &[V(W), V(i), K(T::i64v(&[0, 1]))]));
        } else { o.push(st("MulX", "Mul", &[], &[V(i), V(X)])); o.push(st("DivX", "Div", &[], &[V(X), V(i)])); o.push(st("SubX", "Sub", &[], &[V(i), V(X)])); o.push(st("Clip", "Clip", &[], &[V(X), V(i)])); o.push(st("PowX", "Pow", &[], &[V(X), V(i)])); }
    }
    if t.rank() == 1 {
        for ax in [0, -1] { o.push(st(format!("Un{ax}"), "Unsqueeze", &[], &[V(i), K(T::i64v(&[ax]))])); }
        for ix in [0i64, 1, 2, -1, -3] { o.push(st(format!("Gs{ix}"), "Gather", &[], &[V(i), K(T::i64s(ix))])); o.push(st(format!("Gv{ix}"), "Gather", &[], &[V(i), K(T::i64v(&[ix]))])); }
        o.push(st("Gx", "Gather", &[ai("axis", 0)], &[V(i), K(T::i64v(&[-1, 0]))])); o.push(st("Gm", "Gather", &[], &[V(i), K(T::i64(&[2, 1], &[0, 1]))]));
        o.push(st("GaS", "Gather", &[], &[V(i), V(S)]));
        for (a, b, s) in [(0i64, 2i64, 1i64), (1, i64::MAX, 1), (-1, i64::MAX, 1), (0, -1, 1), (-2, -1, 1), (0, i64::MAX, 2), (-1, i64::MIN, -1), (2, 0, -1), (5, 9, 1)] { o.push(st(format!("Sl{a}:{b}:{s}"), "Slice", &[], &[V(i), K(T::i64v(&[a])), K(T::i64v(&[b])), K(T::i64v(&[0])), K(T::i64v(&[s]))])); }
        o.push(st("Sl2", "Slice", &[], &[V(i), K(T::i64v(&[1])), K(T::i64v(&[2]))]));
        for c in [vec![7i64], vec![7, -8]] { let k = |s: usize| if int { T::i(t.dt, &[s], c.iter().map(|x| *x as i128).collect()) } else { T::num(t.dt, &[s], &c.iter().map(|x| *x as f64).collect::<Vec<_>>()) }; o.push(st(format!("Cc{}", c.len()), "Concat", &[ai("axis", 0)], &[V(i), K(k(c.len()))])); o.push(st(format!("Ck{}", c.len()), "Concat", &[ai("axis", 0)], &[K(k(c.len())), V(i)])); }
        for (op, kd) in [("ReduceProd", 0), ("ReduceSum", 0), ("ReduceMax", 0), ("ReduceMin", 0), ("ReduceProd", 1), ("ReduceSum", 1)] { o.push(st(format!("{op}{kd}"), op, &[ai("keepdims", kd)], &[V(i)])); }
        for r in [&[-1i64][..], &[1, -1], &[-1, 1], &[0]] { o.push(st(format!("Re{r:?}"), "Reshape", &[], &[V(i), K(T::i64v(r))])); }
        if t.len() == 1 { o.push(st("Sq", "Squeeze", &[], &[V(i), K(T::i64v(&[0]))])); o.push(st("Sqn", "Squeeze", &[], &[V(i)])); o.push(st("Re[]", "Reshape", &[], &[V(i), K(T::i64v(&[]))])); }
        if t.len() == 2 { o.push(Step { nout: 2, ..st("Sp", "Split", &[ai("axis", 0)], &[V(i)]) }); }
        if t.len() == 3 { o.push(Step { nout: 2, ..st("Sp12", "Split", &[ai("axis", 0)], &[V(i), K(T::i64v(&[1, 2]))]) }); }
        if int {
            o.push(st("ReX", "Reshape", &[], &[V(X), V(i)])); o.push(st("CsF", "ConstantOfShape", &[], &[V(i)])); o.push(st("CsI", "ConstantOfShape", &[("value", Attr::T(TensorP::raw("", T::i64v(&[5]))))], &[V(i)]));
            o.push(st("ExF", "Expand", &[], &[V(FS), V(i)])); o.push(st("ExY", "Expand", &[], &[V(Y), V(i)])); o.push(st("TiW", "Tile", &[], &[V(W), V(i)])); o.push(st("TiX", "Tile", &[], &[V(X), V(i)]));
            o.push(st("SlX", "Slice", &[], &[V(X), K(T::i64(&[t.len()], &vec![0; t.len()])), V(i)])); o.push(st("SlXs", "Slice", &[], &[V(X), V(i), K(T::i64(&[t.len()], &vec![9; t.len()]))]));
            if t.len() == 1 { o.push(st("TkX", "TopK", &[], &[V(X), V(i)])); }
        }
    }
    o
}
pub fn themes(deep: bool) -> Vec<Theme<'static>> {
    let mut v = vec![];
    for dynamic in [true, false] {
        v.push(Theme { name: format!("scal/{}", if dynamic { "dyn" } else { "static" }), opset: 18, tol: 1e-5, undefined: false, pairs: false, chain: true, depth: if deep { 3 } else { 2 }, consts: vec![],
            inputs: vec![(crate::fam::mix(DT::F32, &[2, 3, 4]), dynamic, false), (T::i64s(2), false, false), (T::i64v(&[1, 0, 2]), dynamic, false), (T::f32s(1.5), false, false), (crate::fam::mix(DT::F32, &[3]), dynamic, false)],
            steps: Box::new(move |vals| match vals.len() { 5 => producers(), 6 | 7 => uses(vals, vals.len() - 1, deep), n => uses(vals, n - 1, false) }) });
    }
    v
}
/// Second steps of three: picking, slicing, extending, (un)squeezing, scaling, casting a shape.
const MIDDLE: [&str; 11] = ["Gs0", "Gs-1", "Gv1", "Sl1:9223372036854775807:1", "Cc1", "Un0", "Sq", "Mulc2", "Addc-3", "Ca1", "Re[-1]"];
pub fn all(deep: bool, f: &mut dyn FnMut(Case)) {
    for th in themes(deep) {
        let dynamic = th.name.ends_with("dyn");
        programs(&th, &mut |mut c| {
            // of three steps, the middle one is an idiom of exported shape arithmetic
            let steps: Vec<&str> = c.name.split('/').nth(2).unwrap().split('>').collect();
            if steps.len() > 2 && !MIDDLE.contains(&steps[1]) { return; }
            if dynamic { let mut w = c.vals[0].clone(); w[0] = crate::fam::mix(DT::F32, &[3, 1, 2]); w[1] = T::i64s(1); w[4] = crate::fam::mix(DT::F32, &[2]); c.vals.push(w); }
            c.group = "scal";
            f(c)
        });
    }
}
