//! All small multi-node programs of a theme: every sequence of steps up to a depth, every choice of
//! operands among the values computed so far, every choice of graph outputs from a fixed scheme.
use crate::fam::{vary, Case};
use crate::proto::*;
use crate::refi::*;
use crate::tensor::*;
use std::collections::HashMap;

/// An operand of a step: an earlier value, or a constant of its own.
#[derive(Clone, Debug)]
pub enum Src { V(usize), K(T), N }
use Src::*;
#[derive(Clone, Debug)]
pub struct Step { pub tag: String, pub op: &'static str, pub attrs: Vec<(&'static str, Attr)>, pub ins: Vec<Src>, pub nout: usize }
pub fn st(tag: impl Into<String>, op: &'static str, attrs: &[(&'static str, Attr)], ins: &[Src]) -> Step { Step { tag: tag.into(), op, attrs: attrs.to_vec(), ins: ins.to_vec(), nout: 1 } }
/// A value of the program under construction.
#[derive(Clone, Debug)]
pub struct Val { pub t: T, pub name: String, pub by: &'static str, pub konst: bool }
pub struct Theme<'a> {
    pub name: String,
    pub opset: i64,
    /// (first valuation, symbolic dimensions, keeps its value in every valuation)
    pub inputs: Vec<(T, bool, bool)>,
    pub consts: Vec<T>,
    pub depth: usize,
    /// every step must read the newest value (chains), otherwise any earlier ones
    pub chain: bool,
    pub steps: Box<dyn Fn(&[Val]) -> Vec<Step> + Sync + 'a>,
    pub tol: f64,
    /// also programs whose last step has no defined value (they must still be imported)
    pub undefined: bool,
    /// also every pair of a value and the last one as graph outputs, not only the last, or all of them
    pub pairs: bool,
}
struct St { nodes: Vec<Node>, inits: Vec<TensorP>, vals: Vec<Val>, env: HashMap<String, T>, tag: String, fresh: usize }
/// Calls `f` with every program.
pub fn programs(th: &Theme, f: &mut dyn FnMut(Case)) {
    let mut s = St { nodes: vec![], inits: vec![], vals: vec![], env: HashMap::new(), tag: String::new(), fresh: 0 };
    for (i, (t, _, _)) in th.inputs.iter().enumerate() { let name = format!("x{i}"); s.env.insert(name.clone(), t.clone()); s.vals.push(Val { t: t.clone(), name, by: "input", konst: false }); }
    for (i, t) in th.consts.iter().enumerate() { let name = format!("k{i}"); s.env.insert(name.clone(), t.clone()); s.inits.push(TensorP::raw(&name, t.clone())); s.vals.push(Val { t: t.clone(), name, by: "const", konst: true }); }
    go(th, &mut s, th.depth, f);
}
fn go(th: &Theme, s: &mut St, left: usize, f: &mut dyn FnMut(Case)) {
    if left == 0 { return; }
    let base = s.vals.len();
    for step in (th.steps)(&s.vals) {
        let made = base - th.inputs.len() - th.consts.len();
        if th.chain && made > 0 && !step.ins.iter().any(|x| matches!(x, V(i) if *i == base - 1)) { continue; }
        let mut names = vec![]; let mut inits = 0;
        for i in &step.ins { names.push(match i { V(k) => s.vals[*k].name.clone(), N => String::new(), K(t) => { let n = format!("c{}", s.fresh); s.fresh += 1; s.env.insert(n.clone(), t.clone()); s.inits.push(TensorP::raw(&n, t.clone())); inits += 1; n } }); }
        let outs: Vec<String> = (0..step.nout).map(|k| if step.nout == 1 { format!("v{made}") } else { format!("v{made}_{k}") }).collect();
        let mut node = Node::new(step.op, &names.iter().map(|x| x.as_str()).collect::<Vec<_>>(), &outs.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        node.name = format!("n{}", s.nodes.len());
        for (k, a) in &step.attrs { node.attrs.push((k.to_string(), a.clone())); }
        let mut env = HashMap::new();
        for n in &names { if let Some(t) = s.env.get(n) { env.insert(n.clone(), t.clone()); } }
        let mut undefined = false;
        let ok = if th.undefined && matches!(eval_node(&node, th.opset, &mut env.clone()), Err(E::Undef(_))) && outs.len() == 1 { undefined = true; env.insert(outs[0].clone(), s.vals[0].t.clone()); true } else if step.op.starts_with("Random") { let t = s.vals[0].t.clone(); env.insert(outs[0].clone(), t); true } else { eval_node(&node, th.opset, &mut env).is_ok() };
        if ok && outs.iter().all(|o| env.contains_key(o)) {
            let was = s.tag.len();
            if was > 0 { s.tag.push('>'); }
            s.tag += &step.tag;
            for o in &outs { s.env.insert(o.clone(), env[o].clone()); s.vals.push(Val { t: env[o].clone(), name: o.clone(), by: step.op, konst: step.ins.iter().all(|x| match x { V(i) => s.vals[*i].konst, _ => true }) }); }
            s.nodes.push(node);
            emit(th, s, f);
            if !undefined { go(th, s, left - 1, f); }
            s.nodes.pop();
            s.vals.truncate(base);
            for o in &outs { s.env.remove(o); }
            s.tag.truncate(was);
        }
        for _ in 0..inits { s.inits.pop(); }
    }
}
fn emit(th: &Theme, s: &St, f: &mut dyn FnMut(Case)) {
    let first = th.inputs.len() + th.consts.len();
    let last = s.vals.len() - 1;
    let mut sets: Vec<Vec<usize>> = vec![vec![last]];
    if th.pairs { for k in first..last { sets.push(vec![k, last]); } }
    if last > first + 1 { sets.push((first..=last).rev().collect()); }
    for outs in sets {
        let mut g = Graph { name: "g".into(), ..Default::default() };
        g.nodes = s.nodes.clone();
        g.inits = s.inits.clone();
        for (i, (t, dynamic, _)) in th.inputs.iter().enumerate() { let n = format!("x{i}"); g.inputs.push(if *dynamic { let mut v = VI::dynr(&n, t.dt, t.rank()); if let Some(sh) = &mut v.shape { for (k, d) in sh.iter_mut().enumerate() { *d = Dim::S(format!("s{i}_{k}")); } } v } else { VI::known(&n, t.dt, &t.shape) }); }
        for o in &outs { let v = &s.vals[*o]; g.outputs.push(VI { name: v.name.clone(), dt: v.t.dt.onnx(), shape: Option::None }); }
        let v0: Vec<T> = th.inputs.iter().map(|x| x.0.clone()).collect();
        let v1: Vec<T> = th.inputs.iter().map(|x| if x.2 { x.0.clone() } else { vary(&x.0) }).collect();
        f(Case { name: format!("{}/{}/out{}", th.name, s.tag, outs.iter().map(|o| s.vals[*o].name.clone()).collect::<Vec<_>>().join(",")), group: "prog", model: Model::new(th.opset, g), vals: vec![v0, v1], lvl: 1, may_refuse: true, tol: th.tol });
    }
}
fn ai(k: &'static str, v: i64) -> (&'static str, Attr) { (k, Attr::I(v)) }
fn ais(k: &'static str, v: &[i64]) -> (&'static str, Attr) { (k, Attr::Is(v.to_vec())) }

/// Constants around the identity elements, of every broadcast relation to a [2, 3] operand.
fn units(dt: DT) -> Vec<(String, T)> {
    let mut v = vec![];
    for s in [&[][..], &[1], &[3], &[1, 3], &[2, 1], &[2, 3], &[1, 1], &[2, 1, 3], &[1, 2, 3], &[1, 1, 1], &[4, 1, 1]] {
        for c in [0.0, 1.0, 2.0] { v.push((format!("{c}{s:?}"), T::num(dt, s, &vec![c; numel(s)]))); }
    }
    // almost identities
    v.push(("001".into(), T::num(dt, &[3], &[0.0, 0.0, 1.0])));
    v.push(("110".into(), T::num(dt, &[3], &[1.0, 1.0, 0.0])));
    v.push(("empty".into(), T::num(dt, &[0], &[])));
    v
}
pub fn themes(deep: bool) -> Vec<Theme<'static>> {
    let mut v: Vec<Theme> = vec![];
    let x = |dt, s: &[usize]| crate::fam::mix(dt, s);
    // identity elements
    for (dt, shape, dynamic) in [(DT::F32, vec![2, 3], false), (DT::F32, vec![2, 3], true), (DT::F32, vec![1, 1], false), (DT::F32, vec![1], true), (DT::F32, vec![], false), (DT::I64, vec![2, 3], false), (DT::I32, vec![3], true), (DT::F64, vec![1, 3], true)] {
        v.push(Theme { name: format!("ident/{}{shape:?}{}", dt.name(), if dynamic { "dyn" } else { "" }), opset: 17, inputs: vec![(x(dt, &shape), dynamic, false)], consts: vec![], depth: 2, chain: true, tol: 1e-6, undefined: false, pairs: deep, steps: Box::new(move |vals| {
            let mut o = vec![];
            let k = vals.len() - 1;
            if k == 0 || deep && k == 1 { for (n, c) in units(dt) { for op in ["Add", "Sub", "Mul", "Div", "Pow"] { o.push(st(format!("{op}x{n}"), op, &[], &[V(k), K(c.clone())])); if op != "Pow" && (op != "Div" || !dt.is_int()) { o.push(st(format!("{op}{n}x"), op, &[], &[K(c.clone()), V(k)])); } } } }
            if k > 0 { o.push(st("Neg", "Neg", &[], &[V(k)])); o.push(st("Add0", "Add", &[], &[V(k), V(0)])); o.push(st("Sub0", "Sub", &[], &[V(0), V(k)])); o.push(st("Shape", "Shape", &[], &[V(k)])); for (n, c) in units(dt).into_iter().filter(|c| c.1.len() == 1) { o.push(st(format!("Add{n}"), "Add", &[], &[V(k), K(c.clone())])); o.push(st(format!("Mul{n}"), "Mul", &[], &[V(k), K(c)])); } }
            o
        }) });
    }
    // unary chains
    for dt in [DT::F32, DT::I64] { for dynamic in [false, true] {
        let mut t = T::num(dt, &[2, 3], &[-1.5, 0.5, 2.5, -0.5, 3.5, -2.0]);
        if dt == DT::I64 { t = T::num(dt, &[2, 3], &[-3.0, 0.0, 2.0, -1.0, 5.0, -2.0]); }
        v.push(Theme { name: format!("unary/{}{}", dt.name(), if dynamic { "dyn" } else { "" }), opset: 17, inputs: vec![(t, dynamic, false)], consts: vec![], depth: if deep { 4 } else { 3 }, chain: false, tol: 1e-6, undefined: false, pairs: deep, steps: Box::new(move |vals| {
            let mut o = vec![];
            let ops: &[&'static str] = if dt == DT::F32 { &["Relu", "Abs", "Ceil", "Floor", "Round", "Sign", "Neg", "Identity", "Sigmoid"] } else { &["Relu", "Abs", "Sign", "Neg", "Identity"] };
            for i in 0..vals.len() { for op in ops { o.push(st(format!("{op}{i}"), op, &[], &[V(i)])); } if vals.len() > 2 { for j in 0..i { o.push(st(format!("Sub{j}{i}"), "Sub", &[], &[V(j), V(i)])); } } }
            o
        }) });
    } }
    // common subexpressions
    for dynamic in [false, true] {
        v.push(Theme { name: format!("cse/{}", if dynamic { "dyn" } else { "static" }), opset: 17, inputs: vec![(x(DT::F32, &[2, 2]), dynamic, false), (T::num(DT::F32, &[2, 2], &[1.0, -2.0, 0.5, 3.0]), dynamic, false)], consts: vec![], depth: 3, chain: false, tol: 1e-6, undefined: false, pairs: deep, steps: Box::new(move |vals| {
            let mut o = vec![];
            let n = vals.len();
            // the third step joins what the first two made
            if n >= 4 { for i in 0..n { for j in 0..n { if i != j && (i >= 2 || j >= 2) { o.push(st(format!("Sub{i}{j}"), "Sub", &[], &[V(i), V(j)])); } } } o.push(st("Cat", "Concat", &[ai("axis", 0)], &(2..n).map(V).collect::<Vec<_>>())); return o; }
            for (i, j) in [(0, 1), (1, 0), (0, 0), (n - 1, 0), (0, n - 1)] { for op in ["Add", "Sub", "MatMul"] { o.push(st(format!("{op}{i}{j}"), op, &[], &[V(i), V(j)])); } }
            for i in 0..n {
                o.push(st(format!("Relu{i}"), "Relu", &[], &[V(i)]));
                o.push(st(format!("T{i}"), "Transpose", &[ais("perm", &[1, 0])], &[V(i)]));
                o.push(st(format!("Td{i}"), "Transpose", &[], &[V(i)]));
                for ax in [0, 1, -1] { o.push(st(format!("Sm{i}a{ax}"), "Softmax", &[ai("axis", ax)], &[V(i)])); }
                o.push(st(format!("Sm{i}"), "Softmax", &[], &[V(i)]));
                for al in [0.1, 0.2] { o.push(st(format!("Lr{i}{al}"), "LeakyRelu", &[("alpha", Attr::F(al))], &[V(i)])); }
                for c in [1.0, 2.0] { o.push(st(format!("Add{i}c{c}"), "Add", &[], &[V(i), K(T::f32(&[1], &[c]))])); o.push(st(format!("Clip{i}c{c}"), "Clip", &[], &[V(i), N, K(T::f32s(c))])); o.push(st(format!("Clipl{i}c{c}"), "Clip", &[], &[V(i), K(T::f32s(c)), N])); }
                for c in [0i64, 1] { o.push(st(format!("Ga{i}c{c}"), "Gather", &[ai("axis", 0)], &[V(i), K(T::i64(&[2], &[c, 1]))])); }
                for to in [1, 11] { o.push(st(format!("Ca{i}t{to}"), "Cast", &[ai("to", to)], &[V(i)])); }
                o.push(st(format!("Rs{i}"), "ReduceSum", &[ai("keepdims", 1)], &[V(i), K(T::i64v(&[0]))]));
                o.push(st(format!("Rt{i}"), "ReduceSum", &[ai("keepdims", 1)], &[V(i), K(T::i64v(&[1]))]));
                o.push(Step { nout: 2, ..st(format!("Tk{i}"), "TopK", &[], &[V(i), K(T::i64v(&[2]))]) });
                o.push(Step { nout: 2, ..st(format!("Sp{i}"), "Split", &[ai("axis", 0)], &[V(i)]) });
                o.push(Step { nout: 2, ..st(format!("Sq{i}"), "Split", &[ai("axis", 1)], &[V(i)]) });
                o.push(st(format!("Rn{i}"), "RandomNormalLike", &[], &[V(i)]));
            }
            o.push(st("Ru", "RandomUniform", &[ais("shape", &[2, 2])], &[]));
            o
        }) });
    }
    // nodes that differ only in a tensor attribute
    v.push(Theme { name: "cse/tensor attribute".into(), opset: 17, inputs: vec![(T::i64v(&[2, 2]), false, true)], consts: vec![], depth: 3, chain: false, tol: 0.0, undefined: false, pairs: deep, steps: Box::new(move |vals| {
        let n = vals.len();
        if n == 3 { return [(1, 2), (2, 1)].iter().map(|(i, j)| st(format!("Sub{i}{j}"), "Sub", &[], &[V(*i), V(*j)])).collect(); }
        let mut o = vec![];
        for c in [0.5, 2.0, -2.0, 1.0, 257.0] { for dt in [DT::F32, DT::I64, DT::F64, DT::I32] { if c == 0.5 && dt.is_int() { continue; } o.push(st(format!("Cs{}{c}", dt.name()), "ConstantOfShape", &[("value", Attr::T(TensorP::raw("", T::num(dt, &[1], &[c]))))], &[V(0)])); } }
        o
    }) });
    for dt in [DT::I64, DT::I32] {
        let (a, b) = if dt == DT::I64 { (i64::MIN as f64, i64::MAX) } else { (i32::MIN as f64, i32::MAX as i64) };
        let k = |v: f64| T::num(dt, &[1], &[v]);
        let mx = if dt == DT::I64 { T::i64v(&[b]) } else { k(b as f64) };
        v.push(Theme { name: format!("const/extremes {}", dt.name()), opset: 17, inputs: vec![(k(1.0), false, false)], consts: vec![k(a), mx, k(-1.0), k(0.0)], depth: 2, chain: false, tol: 0.0, undefined: true, pairs: deep, steps: Box::new(move |vals| {
            let mut o = vec![];
            for i in 0..vals.len() { for j in 0..vals.len() { for op in ["Add", "Sub", "Mul", "Div"] { o.push(st(format!("{op}{i}{j}"), op, &[], &[V(i), V(j)])); } } o.push(st(format!("Neg{i}"), "Neg", &[], &[V(i)])); for to in [1, 6, 7, 11] { o.push(st(format!("Cast{i}t{to}"), "Cast", &[ai("to", to)], &[V(i)])); } }
            o
        }) });
    }
    // constants only
    for (n, dt) in [("f32", DT::F32), ("i64", DT::I64), ("f64", DT::F64), ("i32", DT::I32), ("f16", DT::F16), ("u8", DT::U8)] {
        let k = |s: &[usize], v: &[f64]| T::num(dt, s, v);
        let consts = if dt == DT::U8 { vec![k(&[2, 1], &[7.0, 2.0]), k(&[1, 2], &[3.0, 5.0]), k(&[], &[2.0]), k(&[2], &[4.0, 3.0])] } else { vec![k(&[2, 1], &[-7.0, 2.0]), k(&[1, 2], &[3.0, -5.0]), k(&[], &[2.0]), k(&[2], &[-4.0, 3.0])] };
        v.push(Theme { name: format!("const/{n}"), opset: 17, inputs: vec![(x(dt, &[2, 2]), false, false)], consts, depth: if deep { 3 } else { 2 }, chain: false, tol: 1e-6, undefined: false, pairs: deep, steps: Box::new(move |vals| {
            let mut o = vec![];
            for i in 1..vals.len() { if !vals[i].konst { continue; }
                for j in 1..vals.len() { if vals[j].konst && (i != j || i < 5) { for op in ["Add", "Sub", "Mul", "Div"] { o.push(st(format!("{op}{i}{j}"), op, &[], &[V(i), V(j)])); } for ax in [0, -1, 1] { o.push(st(format!("Concat{i}{j}a{ax}"), "Concat", &[ai("axis", ax)], &[V(i), V(j)])); } } }
                o.push(st(format!("Neg{i}"), "Neg", &[], &[V(i)]));
                o.push(st(format!("Sqrt{i}"), "Sqrt", &[], &[V(i)]));
                for to in [1, 7, 6, 11, 9, 10] { o.push(st(format!("Cast{i}t{to}"), "Cast", &[ai("to", to)], &[V(i)])); }
                for ax in [0, -1] { o.push(st(format!("Un{i}a{ax}"), "Unsqueeze", &[], &[V(i), K(T::i64v(&[ax]))])); o.push(st(format!("Sq{i}a{ax}"), "Squeeze", &[], &[V(i), K(T::i64v(&[ax]))])); }
                for r in [&[-1i64][..], &[2, 1], &[1, 2], &[1], &[], &[0, -1], &[2, 2]] { o.push(st(format!("Re{i}{r:?}"), "Reshape", &[], &[V(i), K(T::i64v(r))])); }
                if vals.len() > 5 && i >= 5 { o.push(st(format!("xAdd{i}"), "Add", &[], &[V(0), V(i)])); o.push(st(format!("xMul{i}"), "Mul", &[], &[V(i), V(0)])); }
            }
            o
        }) });
    }
    // shape arithmetic
    for (shape, dynamic) in [(vec![2usize, 3, 4], false), (vec![2, 3, 4], true), (vec![5], false), (vec![3, 3], false)] {
        v.push(Theme { name: format!("shape/{shape:?}{}", if dynamic { "dyn" } else { "" }), opset: 17, inputs: vec![(x(DT::F32, &shape), dynamic, false)], consts: vec![], depth: if deep { 4 } else { 3 }, chain: false, tol: 1e-6, undefined: false, pairs: deep, steps: Box::new(move |vals| {
            let mut o = vec![];
            let n = vals.len();
            if n == 1 { for (a, b) in [(None::<i64>, None::<i64>), (Some(1), None), (Some(-1), None), (None, Some(2)), (None, Some(-1)), (Some(1), Some(2)), (Some(5), None), (Some(-9), None), (None, Some(-9)), (Some(2), Some(1))] { let mut at = vec![]; if let Some(a) = a { at.push(ai("start", a)); } if let Some(b) = b { at.push(ai("end", b)); } o.push(st(format!("Shape{a:?}{b:?}").replace("Some", "").replace("None", "_"), "Shape", &at, &[V(0)])); } o.push(st("Size", "Size", &[], &[V(0)])); return o; }
            for i in 1..n {
                let t = &vals[i].t;
                if t.dt != DT::I64 { continue; }
                if t.rank() == 1 {
                    for c in [0i64, 1, 2, -1, -3] { o.push(st(format!("Gs{i}_{c}"), "Gather", &[], &[V(i), K(T::i64s(c))])); o.push(st(format!("Gv{i}_{c}"), "Gather", &[], &[V(i), K(T::i64v(&[c]))])); }
                    o.push(st(format!("Gx{i}"), "Gather", &[ai("axis", 0)], &[V(i), K(T::i64v(&[1, 0]))]));
                    for (a, b, s) in [(0i64, 2i64, 1i64), (1, i64::MAX, 1), (-1, i64::MAX, 1), (0, -1, 1), (-2, -1, 1), (0, i64::MAX, 2), (-1, i64::MIN, -1), (i64::MAX, i64::MIN, -1), (2, 0, -1), (2, 0, -2), (1, -9, -1)] { o.push(st(format!("Sl{i}_{a}_{b}_{s}"), "Slice", &[], &[V(i), K(T::i64v(&[a])), K(T::i64v(&[b])), K(T::i64v(&[0])), K(T::i64v(&[s]))])); }
                    o.push(st(format!("Sld{i}"), "Slice", &[], &[V(i), K(T::i64v(&[1])), K(T::i64v(&[2]))]));
                    o.push(st(format!("Sla{i}"), "Slice", &[], &[V(i), K(T::i64v(&[1])), K(T::i64v(&[3])), K(T::i64v(&[-1]))]));
                    o.push(st(format!("Cc{i}"), "Concat", &[ai("axis", 0)], &[V(i), K(T::i64v(&[7]))]));
                    for j in 1..n { if vals[j].t.rank() == 1 && vals[j].t.dt == DT::I64 { o.push(st(format!("Cj{i}{j}"), "Concat", &[ai("axis", 0)], &[V(i), V(j)])); } }
                    o.push(st(format!("Rp{i}"), "ReduceProd", &[ai("keepdims", 0)], &[V(i)]));
                    if n > 2 && t.len() <= 4 { o.push(st(format!("Rx{i}"), "Reshape", &[], &[V(0), V(i)])); if t.len() > 0 { o.push(st(format!("Cs{i}"), "ConstantOfShape", &[], &[V(i)])); } o.push(st(format!("Ex{i}"), "Expand", &[], &[K(T::f32s(1.5)), V(i)])); }
                }
                if t.rank() == 0 { o.push(st(format!("Un{i}"), "Unsqueeze", &[], &[V(i), K(T::i64v(&[0]))])); }
                if t.rank() == 1 && t.len() == 1 { o.push(st(format!("Sq{i}"), "Squeeze", &[], &[V(i), K(T::i64v(&[0]))])); }
                for c in [2i64, -3] { for op in ["Add", "Mul", "Div", "Sub"] { o.push(st(format!("{op}{i}c{c}"), op, &[], &[V(i), K(if t.rank() == 0 { T::i64s(c) } else { T::i64v(&[c]) })])); } }
                for j in 1..i { if vals[j].t.dt == DT::I64 { o.push(st(format!("Mul{i}{j}"), "Mul", &[], &[V(i), V(j)])); o.push(st(format!("Add{i}{j}"), "Add", &[], &[V(j), V(i)])); o.push(st(format!("Eq{i}{j}"), "Equal", &[], &[V(j), V(i)])); } }
                for to in [1, 6] { o.push(st(format!("Ca{i}t{to}"), "Cast", &[ai("to", to)], &[V(i)])); }
            }
            o
        }) });
    }
    v
}

/// Every rearrangement of a tensor's dimensions through Shape, Gather, Unsqueeze, Concat, Reshape.
pub fn permute_reshapes(f: &mut dyn FnMut(Case)) {
    for (shape, dynamic) in [(vec![2usize, 3], false), (vec![2, 3], true), (vec![2, 3, 4], false), (vec![2, 3, 4], true), (vec![2, 2, 2], true), (vec![3, 2, 3], false), (vec![2, 2, 3], false), (vec![1, 3, 1], false), (vec![5], true)] {
        let r = shape.len();
        let idx: Vec<i64> = (-(r as i64)..r as i64).collect();
        let mut seqs: Vec<Vec<i64>> = vec![vec![]];
        for _ in 0..r { seqs = seqs.into_iter().flat_map(|s| idx.iter().map(move |i| { let mut t = s.clone(); t.push(*i); t })).collect(); }
        if r > 1 { let more: Vec<Vec<i64>> = (0..r as i64).flat_map(|i| vec![vec![i, 1 - i.min(1)], vec![i, -1]]).collect(); seqs.extend(more); }
        let x = crate::fam::mix(DT::F32, &shape);
        for q in &seqs { for variant in 0..8 {
            // 0: as PyTorch writes it, 1: one shared Shape, 2: index vectors, 3: unsqueeze at -1, 4: Shape of another tensor, 5: Shape with start, 6 and 7: the first Shape leaves out dimensions
            let mut g = Graph { name: "g".into(), ..Default::default() };
            let mut vi = if dynamic { VI::dynr("x", DT::F32, r) } else { VI::known("x", DT::F32, &shape) };
            vi.name = "x".into();
            g = g.input(vi);
            if variant == 4 { g = g.input(VI::dynr("z", DT::F32, r)); }
            let src = if variant == 4 { "z" } else { "x" };
            let shp = |g: Graph, n: &str| { let nd = Node::new("Shape", &[src], &[n]); g.node(match (variant, n) { (5, _) => nd.i("start", 0), (6, "s0") => nd.i("start", 1), (7, "s0") => nd.i("end", -1), _ => nd }) };
            if variant == 1 { g = shp(g, "s"); }
            let mut parts = vec![];
            for (k, i) in q.iter().enumerate() {
                let sn = if variant == 1 { "s".to_string() } else { g = shp(g, &format!("s{k}")); format!("s{k}") };
                if variant == 2 { g = g.init(&format!("i{k}"), T::i64v(&[*i])).node(Node::new("Gather", &[&sn, &format!("i{k}")], &[&format!("u{k}")]).i("axis", 0)); }
                else { g = g.init(&format!("i{k}"), T::i64s(*i)).init(&format!("a{k}"), T::i64v(&[if variant == 3 { -1 } else { 0 }])).node(Node::new("Gather", &[&sn, &format!("i{k}")], &[&format!("g{k}")]).i("axis", 0)).node(Node::new("Unsqueeze", &[&format!("g{k}"), &format!("a{k}")], &[&format!("u{k}")])); }
                parts.push(format!("u{k}"));
            }
            g = g.node(Node::new("Concat", &parts.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &["t"]).i("axis", 0)).node(Node::new("Reshape", &["x", "t"], &["y"])).output(VI::untyped("y"));
            for (j, n) in g.nodes.iter_mut().enumerate() { n.name = format!("n{j}"); }
            g.outputs[0].dt = DT::F32.onnx();
            let m = Model::new(17, g);
            let mut v0 = vec![x.clone()]; if variant == 4 { v0.push(x.clone()); }
            let v1 = v0.iter().map(vary).collect();
            f(Case { name: format!("permute-reshape/{shape:?}{}/v{variant}/{q:?}", if dynamic { "dyn" } else { "" }), group: "prog", model: m, vals: vec![v0, v1], lvl: 1, may_refuse: true, tol: 1e-6 });
        } }
    }
}

/// Every variation of a decomposed attention block, recognisable or nearly so.
pub fn attention_blocks(deep: bool, f: &mut dyn FnMut(Case)) {
    // scale on: 0 none, 1 Div after, 2 Mul after, 3 Mul before on q, 4 Mul on both (shared), 5 Mul swapped after, 6 Mul k only, 7 Mul q before and Mul after, 8 Mul both with unequal scalars, 9 Mul after by a vector, 10 Mul on both by a runtime scalar, 11 Mul on both and after, 12 Mul on both by a vector, 13 Div after by a value of rank 5
    for scale in 0..=13 { for mask in 0..=6 { for perm in 0..=4 { for axis in [-1i64, 3, 2] { for extra in 0..=7 { for vs in 0..=2 {
        let odd = (scale > 5) as u32 + (mask > 2) as u32 + (perm > 1) as u32 + (axis == 2) as u32 + (extra > 0) as u32 + (vs > 0) as u32;
        if odd > if deep { 3 } else { 2 } { continue; }
        let (b, h, s, d, e) = (2usize, 2, if scale == 12 { 4 } else { 3 }, 4, if vs == 1 { 5 } else { 4 });
        let fm = |sh: &[usize], a: i64| T::f32(sh, &(0..numel(sh)).map(|i| (((i as i64 * 5 + a) % 11) as f64 - 5.0) * 0.25).collect::<Vec<_>>());
        let mut g = Graph { name: "g".into(), ..Default::default() };
        let mut vals = vec![];
        let mut inp = |g: Graph, n: &str, t: T| { let g = g.input(VI::known(n, DT::F32, &t.shape)); vals.push(t); g };
        // perm 0: k transposed by [0,1,3,2]; 1: q,k from [B,S,H,D] with the combined transposes; 2: k transposed by [0,3,1,2] reshaped wrongly (default reverse on square dims); 3: k already [B,H,D,S]; 4: k broadcast over the batch
        match perm {
            1 => { g = inp(g, "q0", fm(&[b, s, h, d], 1)); g = inp(g, "k0", fm(&[b, s, h, d], 3)); g = g.node(Node::new("Transpose", &["q0"], &["q"]).is("perm", &[0, 2, 1, 3])).node(Node::new("Transpose", &["k0"], &["kt0"]).is("perm", &[0, 2, 3, 1])); }
            2 => { g = inp(g, "q", fm(&[2, 2, 2, 2], 1)); g = inp(g, "k", fm(&[2, 2, 2, 2], 3)); g = g.node(Node::new("Transpose", &["k"], &["kt0"])); }
            3 => { g = inp(g, "q", fm(&[b, h, s, d], 1)); g = inp(g, "kt0", fm(&[b, h, d, s], 3)); }
            4 => { g = inp(g, "q", fm(&[b, h, s, d], 1)); g = inp(g, "k", fm(&[1, h, s, d], 3)); g = g.node(Node::new("Transpose", &["k"], &["kt0"]).is("perm", &[0, 1, 3, 2])); }
            _ => { g = inp(g, "q", fm(&[b, h, s, d], 1)); g = inp(g, "k", fm(&[b, h, s, d], 3)); g = g.node(Node::new("Transpose", &["k"], &["kt0"]).is("perm", &[0, 1, 3, 2])); }
        }
        let s2 = if perm == 2 { 2 } else { s };
        let vsh: Vec<usize> = if perm == 2 { vec![2, 2, 2, 2] } else if vs == 2 { vec![1, h, s, e] } else { vec![b, h, s, e] };
        g = inp(g, "v", fm(&vsh, 7));
        let (mut qn, mut kn) = ("q".to_string(), "kt0".to_string());
        g = g.init("c", T::f32s(0.35)).init("c1", T::f32(&[1], &[0.6])).init("cd", T::f32s(1.7)).init("cd4", T::f32(&[4], &[0.6, 1.4, -0.5, 0.9])).init("c5", T::f32(&[1, 1, 1, 1, 1], &[1.3]));
        if scale == 10 { g = inp(g, "rs", T::f32(&[1], &[0.6])); }
        if matches!(scale, 3 | 4 | 7 | 8 | 10 | 11 | 12) { g = g.node(Node::new("Mul", &["q", match scale { 4 | 8 | 11 => "c1", 10 => "rs", 12 => "cd4", _ => "c" }], &["qs"])); qn = "qs".into(); }
        if matches!(scale, 4 | 6 | 8 | 10 | 11 | 12) { g = g.node(Node::new("Mul", &["kt0", match scale { 4 | 11 => "c1", 10 => "rs", 12 => "cd4", _ => "c" }], &["ks"])); kn = "ks".into(); }
        g = g.node(Node::new("MatMul", &[&qn, &kn], &["qk"]));
        let mut cur = "qk".to_string();
        match scale { 1 => { g = g.node(Node::new("Div", &["qk", "cd"], &["sc"])); cur = "sc".into(); } 13 => { g = g.node(Node::new("Div", &["qk", "c5"], &["sc"])); cur = "sc".into(); } 2 | 7 | 11 => { g = g.node(Node::new("Mul", &["qk", "c1"], &["sc"])); cur = "sc".into(); } 5 => { g = g.node(Node::new("Mul", &["c", "qk"], &["sc"])); cur = "sc".into(); } 9 => { g = g.init("cv", fm(&[s2], 2)).node(Node::new("Mul", &["qk", "cv"], &["sc"])); cur = "sc".into(); } _ => {} }
        // mask: 1 full runtime, 2 broadcast runtime, 3 constant, 4 swapped operands, 5 of rank 2
        match mask {
            0 => {}
            3 => { g = g.init("mk", fm(&[1, 1, s2, s2], 5)).node(Node::new("Add", &[&cur, "mk"], &["ma"])); cur = "ma".into(); }
            _ => { let sh: Vec<usize> = match mask { 1 | 4 => if perm == 2 { vec![2, 2, 2, 2] } else { vec![b, h, s, s] }, 2 => vec![1, 1, 1, s2], 6 => vec![1, 1, 1, s2, s2], _ => vec![s2, s2] }; g = inp(g, "mk", fm(&sh, 5)); g = g.node(if mask == 4 { Node::new("Add", &["mk", &cur], &["ma"]) } else { Node::new("Add", &[&cur, "mk"], &["ma"]) }); cur = "ma".into(); }
        }
        g = g.node(Node::new("Softmax", &[&cur], &["p"]).i("axis", axis)).node(Node::new("MatMul", &["p", "v"], &["y"]));
        // extra: further graph outputs or uses of inner values
        let mut outs = vec!["y".to_string()];
        match extra { 0 => {} 1 => outs.push("qk".into()), 2 => outs.push("p".into()), 3 => outs.push(cur.clone()), 4 => { g = g.node(Node::new("Relu", &["qk"], &["w"])); outs.push("w".into()); } 5 => outs.push(kn.clone()), 7 => outs = vec!["p".into()], _ => { g = g.node(Node::new("Relu", &["p"], &["w"])); outs.push("w".into()); } }
        if extra == 5 && perm == 3 && kn == "kt0" { continue; }
        if extra == 3 && (cur == "qk") { continue; }
        for o in &outs { g = g.output(VI { name: o.clone(), dt: 1, shape: Option::None }); }
        for (j, n) in g.nodes.iter_mut().enumerate() { n.name = format!("n{j}"); }
        let v1 = vals.iter().map(vary).collect();
        f(Case { name: format!("attention/scale{scale}/mask{mask}/perm{perm}/axis{axis}/extra{extra}/v{vs}"), group: "prog", model: Model::new(17, g), vals: vec![vals, v1], lvl: 1, may_refuse: true, tol: 1e-5 });
    } } } } } }
}
