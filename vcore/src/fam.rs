//! Bounded families of single-operator models, shared by the IR-level and the code-generation checks.
use crate::proto::*;
use crate::refi::*;
use crate::tensor::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Case {
    /// Hierarchical, unique; used as finding key.
    pub name: String,
    pub group: &'static str,
    pub model: Model,
    /// Valuations of the graph inputs.
    pub vals: Vec<Vec<T>>,
    /// 0: also compiled and executed as generated code, 1: importer level only, 2: importer level, thorough only.
    pub lvl: u8,
    /// Documented as not supported: may be refused (but not imported wrongly).
    pub may_refuse: bool,
    /// Relative tolerance for floats at execution level.
    pub tol: f64,
}

/// How an operand is supplied.
#[derive(Clone, Debug)]
pub enum In {
    /// Graph input with a fixed shape (given value, further values by variation).
    D(T),
    /// Graph input with symbolic dimensions.
    R(T),
    /// Initializer.
    C(T),
    /// Graph input that keeps its value in every valuation (indices, shapes, flags).
    K(T),
    /// Omitted.
    N,
    /// Same value as an earlier operand.
    Same(usize),
}
pub use In::*;

/// A second, different valuation of the same shape and type.
pub fn vary(t: &T) -> T {
    match t.dt {
        DT::Bool => T::bool(&t.shape, &t.b().iter().enumerate().map(|(i, b)| *b ^ (i % 3 != 1)).collect::<Vec<_>>()),
        d if d.is_float() => T::f(d, &t.shape, t.fv().iter().enumerate().map(|(i, v)| round_to(d, if v.is_finite() { v * 0.5 + [0.25, -0.75, 0.5][i % 3] } else { *v })).collect()),
        d => { let n = t.len().max(1); let v = t.iv(); T::i(d, &t.shape, (0..t.len()).map(|i| v[(i * 3 + 1) % n]).collect()) }
    }
}
/// Mixed-sign values, no two neighbours equal.
pub fn mix(dt: DT, shape: &[usize]) -> T {
    let n = numel(shape);
    match dt {
        DT::Bool => T::bool(shape, &(0..n).map(|i| (i * 5 + i / 3) % 3 != 1).collect::<Vec<_>>()),
        d if d.is_float() => T::num(d, shape, &(0..n).map(|i| (((i * 7 + i / 11 + 4) % 13) as f64 - 6.0) * 0.5).collect::<Vec<_>>()),
        d if d.is_signed() => T::num(d, shape, &(0..n).map(|i| ((i * 7 + i / 11 + 4) % 13) as f64 - 6.0).collect::<Vec<_>>()),
        d => T::num(d, shape, &(0..n).map(|i| ((i * 7 + i / 11 + 4) % 13) as f64).collect::<Vec<_>>()),
    }
}
pub fn fmix(shape: &[usize]) -> T { mix(DT::F32, shape) }
/// Strictly positive, distinct.
pub fn pos(dt: DT, shape: &[usize]) -> T { T::num(dt, shape, &(0..numel(shape)).map(|i| ((i * 5 + 2) % 11) as f64 * if dt.is_float() { 0.25 } else { 1.0 } + 1.0).collect::<Vec<_>>()) }
/// All values distinct, in no order.
pub fn distinct(dt: DT, shape: &[usize]) -> T { let n = numel(shape); let m = [n, n + 1, n + 2, n + 3].into_iter().find(|m| m % 7 != 0 && *m >= n && *m > 0).unwrap(); let mut v: Vec<f64> = (0..m).map(|i| ((i * 7 + 3) % m) as f64 - if dt.is_signed() || dt.is_float() { m as f64 / 2.0 } else { 0.0 }).map(|x| if dt.is_float() { x * 0.5 } else { x.floor() }).collect(); v.truncate(n); T::num(dt, shape, &v) }

/// Forms the importer documents as unsupported: it may refuse them (and only that), with an error.
const REFUSED: &[&str] = &["PRelu/dyn/*", "Clip/input/min=None/max=None/rank0", "Dropout/opset13/none", "Flatten/default/rank1", "Flatten/rank1/*", "Expand/runtime/2x1to[3]", "Expand/const/scalarto[]", "Expand/runtime/scalarto[]", "Expand/dyn/scalarto[]", "LayerNorm*"];

/// Cases the reference could not evaluate (must stay 0).
pub static UNSUP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub struct F { pub v: Vec<Case>, group: &'static str, lvl: u8, tol: f64, may_refuse: bool }
impl F {
    pub fn new() -> F { F { v: vec![], group: "", lvl: 0, tol: 1e-5, may_refuse: false } }
    pub fn group(&mut self, g: &'static str) { self.group = g; }
    /// Level of the cases added next.
    pub fn lvl(&mut self, l: u8) -> &mut F { self.lvl = l; self }
    pub fn loose(&mut self) -> &mut F { self.may_refuse = true; self }
    pub fn tol(&mut self, t: f64) -> &mut F { self.tol = t; self }
    /// Add one case: a node applied to operands. `nout` outputs.
    pub fn add(&mut self, name: impl Into<String>, opset: i64, op: &str, attrs: &[(&str, Attr)], ins: &[In], nout: usize) -> &mut F {
        let mut g = Graph::default();
        let mut names: Vec<String> = vec![];
        let mut base: Vec<T> = vec![];
        let mut fixed: Vec<bool> = vec![];
        let mut env: HashMap<String, T> = HashMap::new();
        for (k, i) in ins.iter().enumerate() {
            let nm = format!("x{k}");
            match i {
                D(t) | K(t) => { g.inputs.push(VI::known(&nm, t.dt, &t.shape)); base.push(t.clone()); fixed.push(matches!(i, K(_))); env.insert(nm.clone(), t.clone()); names.push(nm); }
                R(t) => { let mut v = VI::dynr(&nm, t.dt, t.rank()); for (j, d) in v.shape.as_mut().unwrap().iter_mut().enumerate() { *d = Dim::S(format!("{nm}d{j}")); } g.inputs.push(v); base.push(t.clone()); fixed.push(false); env.insert(nm.clone(), t.clone()); names.push(nm); }
                C(t) => { g.inits.push(TensorP::raw(&nm, t.clone())); names.push(nm); }
                N => names.push(String::new()),
                Same(j) => { let s = names[*j].clone(); names.push(s); }
            }
        }
        while names.last().map(|s| s.is_empty()).unwrap_or(false) { names.pop(); }
        let outs: Vec<String> = (0..nout).map(|k| format!("y{k}")).collect();
        let mut n = Node::new(op, &names.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &outs.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        n.attrs = attrs.iter().map(|(k, a)| (k.to_string(), a.clone())).collect();
        g.nodes.push(n);
        // outputs are declared with the element type and rank the reference computes
        let mut probe = g.clone();
        for o in &outs { probe.outputs.push(VI::untyped(o)); }
        let name = name.into();
        match eval_graph(&probe, opset, &env) {
            Ok(ts) => for (o, t) in outs.iter().zip(&ts) { let mut v = VI::dynr(o, t.dt, t.rank()); for (j, d) in v.shape.as_mut().unwrap().iter_mut().enumerate() { *d = Dim::S(format!("{o}d{j}")); } g.outputs.push(v); },
            Err(E::Unsup(e)) => { eprintln!("reference cannot evaluate {name}: {e}"); UNSUP.fetch_add(1, std::sync::atomic::Ordering::Relaxed); self.lvl = 0; self.tol = 1e-5; self.may_refuse = false; return self; }
            Err(E::Undef(_)) => { self.lvl = 0; self.tol = 1e-5; self.may_refuse = false; return self; }
        }
        if REFUSED.iter().any(|p| match p.strip_suffix('*') { Some(q) => name.starts_with(q), None => name == *p }) || op.starts_with("Reduce") && name.contains("/noop=1/") && !name.ends_with("/axes") { self.may_refuse = true; }
        let v2: Vec<T> = base.iter().zip(&fixed).map(|(t, f)| if *f { t.clone() } else { vary(t) }).collect();
        let mut vals = vec![base.clone()];
        if v2 != base { vals.push(v2); }
        self.push(name, Model::new(opset, g), vals);
        self
    }
    pub fn push(&mut self, name: String, model: Model, vals: Vec<Vec<T>>) {
        self.v.push(Case { name, group: self.group, model, vals, lvl: self.lvl, may_refuse: self.may_refuse, tol: self.tol });
        self.lvl = 0; self.tol = 1e-5; self.may_refuse = false;
    }
}
pub fn sh(s: &[usize]) -> String { if s.is_empty() { "scalar".into() } else { s.iter().map(|d| d.to_string()).collect::<Vec<_>>().join("x") } }
pub fn ai(k: &'static str, v: i64) -> (&'static str, Attr) { (k, Attr::I(v)) }
pub fn af(k: &'static str, v: f64) -> (&'static str, Attr) { (k, Attr::F(v)) }
pub fn asx(k: &'static str, v: &str) -> (&'static str, Attr) { (k, Attr::S(v.into())) }
pub fn ais(k: &'static str, v: &[i64]) -> (&'static str, Attr) { (k, Attr::Is(v.to_vec())) }
pub fn is(v: &[i64]) -> String { format!("{v:?}").replace(' ', "") }

const FL: [DT; 4] = [DT::F32, DT::F64, DT::F16, DT::BF16];
const INTS: [DT; 8] = [DT::I64, DT::I32, DT::I16, DT::I8, DT::U64, DT::U32, DT::U16, DT::U8];

/// Broadcastable shape pairs up to rank 3 over dims {1,2,3}, plus non-broadcastable near misses.
fn bpairs() -> Vec<(Vec<usize>, Vec<usize>)> {
    let s: Vec<Vec<usize>> = vec![vec![], vec![1], vec![3], vec![2, 3], vec![1, 3], vec![2, 1], vec![1, 1], vec![4, 2, 3], vec![4, 1, 3], vec![1, 2, 1], vec![4, 1, 1], vec![1, 1, 3], vec![1, 4, 2, 3], vec![2, 1, 2, 3]];
    let mut v = vec![];
    for a in &s { for b in &s { if bshape(&[a, b]).is_some() { v.push((a.clone(), b.clone())); } } }
    v
}

pub fn elementwise(f: &mut F) {
    f.group("elementwise");
    // unary operators: (name, opset, lo, hi) — values chosen inside and at the edge of the domain
    let un: [(&str, i64); 35] = [("Abs", 13), ("Neg", 13), ("Ceil", 13), ("Floor", 13), ("Sqrt", 13), ("Exp", 13), ("Log", 13), ("Reciprocal", 13), ("Round", 11), ("Sign", 13), ("Sin", 7), ("Cos", 7), ("Tan", 7), ("Sinh", 9), ("Cosh", 9), ("Tanh", 13), ("Asin", 7), ("Acos", 7), ("Atan", 7), ("Asinh", 9), ("Acosh", 9), ("Atanh", 9), ("Erf", 13), ("Relu", 14), ("Sigmoid", 13), ("Softplus", 1), ("Softsign", 1), ("HardSwish", 14), ("Mish", 18), ("Identity", 16), ("IsNaN", 13), ("Not", 1), ("IsInf", 10), ("BitwiseNot", 18), ("Gelu", 20)];
    let special = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.5, -2.5, 3.5, 0.25, 7.0];
    for (op, ops) in un {
        let shapes: Vec<Vec<usize>> = vec![vec![3], vec![2, 3], vec![1, 2, 3], vec![], vec![2, 1, 2, 2]];
        let dts: Vec<DT> = match op { "Not" => vec![DT::Bool], "BitwiseNot" => INTS.to_vec(), "IsNaN" | "IsInf" => FL[..2].to_vec(), "Abs" | "Neg" | "Sign" | "Relu" => { let mut v = FL.to_vec(); v.extend([DT::I64, DT::I32, DT::I8]); v } "Identity" => ALL_DT.to_vec(), _ => FL.to_vec() };
        for dt in dts {
            for s in &shapes {
                let core = matches!(dt, DT::F32 | DT::Bool) || (dt == DT::I64 && matches!(op, "Abs" | "Neg" | "Sign" | "BitwiseNot"));
                let lvl = if core && (s.len() == 2 || s.is_empty() || (s.len() == 4 && op == "Abs")) { 0 } else { 1 };
                for (form, x) in [("static", D(mix(dt, s))), ("dyn", R(mix(dt, s))), ("const", C(mix(dt, s)))] {
                    if form != "static" && (s.len() > 2 || dt == DT::F64) { continue; }
                    let l = if form == "static" || (form == "dyn" && s.len() == 2 && op == "Abs") { lvl } else { 1 };
                    f.lvl(l).tol(if dt == DT::F16 || dt == DT::BF16 { 2e-2 } else { 2e-5 }).add(format!("{op}/{}/{form}/{}", dt.name(), sh(s)), ops, op, &[], &[x], 1);
                }
            }
        }
        if !matches!(op, "Not" | "BitwiseNot") {
            f.tol(2e-5).add(format!("{op}/f32/special"), ops, op, &[], &[K(T::f32(&[12], &special))], 1);
            f.lvl(if matches!(op, "IsNaN" | "IsInf" | "Abs" | "Neg" | "Relu" | "Sign" | "Identity" | "Tanh" | "Sigmoid" | "Ceil" | "Floor" | "Round") { 0 } else { 1 }).tol(2e-5).add(format!("{op}/f32/nonfinite"), ops, op, &[], &[K(T::f32(&[4], &[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0]))], 1);
        }
    }
    // attributed unary operators: defaults and several values of each attribute
    let x = || D(fmix(&[2, 3]));
    for (op, ops, names) in [("LeakyRelu", 16, &["alpha"][..]), ("Elu", 6, &["alpha"]), ("Celu", 12, &["alpha"]), ("ThresholdedRelu", 10, &["alpha"]), ("HardSigmoid", 6, &["alpha", "beta"]), ("Selu", 6, &["alpha", "gamma"]), ("Swish", 24, &["alpha"])] {
        f.add(format!("{op}/default"), ops, op, &[], &[x()], 1);
        f.lvl(1).add(format!("{op}/default/scalar"), ops, op, &[], &[D(fmix(&[]))], 1);
        for n in names {
            for v in [0.3, 1.7, 0.01, 1.0, 2.0, 0.5] { f.lvl(if v == 0.3 || v == 1.7 { 0 } else { 1 }).add(format!("{op}/{n}={v}"), ops, op, &[af(n, v)], &[x()], 1); }
        }
        if names.len() == 2 { f.add(format!("{op}/both"), ops, op, &[af(names[0], 0.3), af(names[1], 0.7)], &[x()], 1); }
    }
    for a in ["none", "tanh"] { f.add(format!("Gelu/approximate={a}"), 20, "Gelu", &[asx("approximate", a)], &[x()], 1); }
    for (n, p) in [(1, 1), (1, 0), (0, 1), (0, 0)] { f.add(format!("IsInf/neg={n}/pos={p}"), 10, "IsInf", &[ai("detect_negative", n), ai("detect_positive", p)], &[K(T::f32(&[5], &[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -3.0]))], 1); }
    for s in [vec![1usize], vec![3], vec![2, 3], vec![2, 1, 1], vec![1, 1]] { for (form, sl) in [("const", C(mix(DT::F32, &s))), ("dyn", D(mix(DT::F32, &s)))] { f.lvl(if form == "const" { 0 } else { 1 }).add(format!("PRelu/{form}/{}", sh(&s)), 16, "PRelu", &[], &[D(fmix(&[2, 2, 3])), sl], 1); } }
    for s in [vec![1usize], vec![4], vec![4, 1, 1], vec![1, 4, 1, 1]] { f.add(format!("PRelu/nchw/{}", sh(&s)), 16, "PRelu", &[], &[D(fmix(&[2, 4, 2, 3])), C(T::num(DT::F32, &s, &(0..numel(&s)).map(|i| 0.1 + i as f64 * 0.2).collect::<Vec<_>>()))], 1); }
    // binary
    for op in ["Add", "Sub", "Mul", "Div", "Equal", "Greater", "GreaterOrEqual", "Less", "LessOrEqual", "Max", "Min"] {
        let ops = if matches!(op, "GreaterOrEqual" | "LessOrEqual") { 16 } else { 14 };
        for (a, b) in bpairs() {
            for dt in [DT::F32, DT::I64, DT::I32, DT::F64, DT::U8, DT::Bool] {
                if dt == DT::Bool && (op != "Equal") { continue; }
                if dt == DT::U8 && op == "Sub" { continue; }
                if !matches!(dt, DT::F32 | DT::I64) && (a.len() > 2 || b.len() > 2) { continue; }
                let y = if op == "Div" { if dt.is_float() { pos(dt, &b) } else { pos(dt, &b) } } else { mix(dt, &b) };
                let x = if op == "Div" && !dt.is_float() { pos(dt, &a) } else { vary(&mix(dt, &a)) };
                let nm = format!("{op}/{}/{}_{}", dt.name(), sh(&a), sh(&b));
                let core = dt == DT::F32 && [(2usize, 2usize), (2, 1), (1, 2), (0, 2), (2, 0), (3, 2), (2, 3), (0, 0)].contains(&(a.len(), b.len())) && !a.contains(&1);
                f.lvl(if core { 0 } else { 1 }).add(format!("{nm}/dd"), ops, op, &[], &[D(x.clone()), D(y.clone())], 1);
                f.lvl(if core && a.len() == 2 && b.len() < 2 { 0 } else { 1 }).add(format!("{nm}/dc"), ops, op, &[], &[D(x.clone()), C(y.clone())], 1);
                f.lvl(if core && b.len() == 2 && a.len() < 2 { 0 } else { 1 }).add(format!("{nm}/cd"), ops, op, &[], &[C(x.clone()), D(y.clone())], 1);
                if a.len() <= 2 && b.len() <= 2 { f.lvl(1).add(format!("{nm}/rr"), ops, op, &[], &[R(x.clone()), R(y.clone())], 1); f.lvl(2).add(format!("{nm}/rd"), ops, op, &[], &[R(x.clone()), D(y.clone())], 1); }
                f.lvl(2).add(format!("{nm}/cc"), ops, op, &[], &[C(x.clone()), C(y.clone())], 1);
            }
        }
        f.lvl(1).add(format!("{op}/same"), ops, op, &[], &[D(pos(DT::F32, &[2, 3])), Same(0)], 1);
        if matches!(op, "Equal" | "Greater" | "GreaterOrEqual" | "Less" | "LessOrEqual") { for dt in [DT::F32, DT::I64] { f.add(format!("{op}/{}/ties", dt.name()), ops, op, &[], &[K(T::num(dt, &[4], &[1.0, 2.0, 3.0, -1.0])), K(T::num(dt, &[4], &[1.0, 3.0, 2.0, -1.0]))], 1); } }
    }
    // opset-6 style broadcasting is no longer expressible; integer arithmetic at the code level
    for op in ["Add", "Sub", "Mul", "Div"] { for dt in [DT::I64, DT::I32] { let nm = format!("{op}/{}/code", dt.name()); f.add(nm, 14, op, &[], &[D(mix(dt, &[2, 3])), D(pos(dt, &[3]))], 1); } }
    for (a, b) in bpairs() { if a.len() > 3 || b.len() > 3 { continue; }
        for op in ["And", "Or", "Xor"] { let l = if a.len() == 2 && b.len() == 2 && a == b || (a.len() == 2 && b.len() == 1 && a[1] == b[0] && b[0] == 3 && a[0] == 2) || (a.is_empty() && b.is_empty()) { 0 } else { 1 }; f.lvl(l).add(format!("{op}/{}_{}", sh(&a), sh(&b)), 7, op, &[], &[D(mix(DT::Bool, &a)), D(vary(&mix(DT::Bool, &b)))], 1); }
        for op in ["BitwiseAnd", "BitwiseOr", "BitwiseXor"] { for dt in [DT::I64, DT::I32, DT::U8] { let l = if dt == DT::I64 && ((a == b && a.len() == 2 && !a.contains(&1)) || (a.len() == 2 && b.is_empty()) || (a.is_empty() && b.len() == 2) || (a.is_empty() && b.is_empty())) { 0 } else { 1 }; f.lvl(l).add(format!("{op}/{}/{}_{}", dt.name(), sh(&a), sh(&b)), 18, op, &[], &[D(mix(dt, &a)), D(pos(dt, &b))], 1); } }
        for dir in ["LEFT", "RIGHT"] { for dt in [DT::U8, DT::U32, DT::U64, DT::U16] { let small = |s: &[usize]| T::num(dt, s, &(0..numel(s)).map(|i| (i % 4) as f64).collect::<Vec<_>>()); let l = if dt == DT::U8 && ((a == b && a.len() == 2 && !a.contains(&1)) || (a.len() == 2 && b.is_empty()) || (a.is_empty() && b.len() == 2)) { 0 } else { 1 }; f.lvl(l).add(format!("BitShift/{dir}/{}/{}_{}", dt.name(), sh(&a), sh(&b)), 11, "BitShift", &[asx("direction", dir)], &[D(pos(dt, &a)), K(small(&b))], 1); } }
        for dt in [DT::F32, DT::I64] {
            for (form, e) in [("dd", D(T::num(dt, &b, &(0..numel(&b)).map(|i| (i % 4) as f64).collect::<Vec<_>>()))), ("dc", C(T::num(dt, &b, &(0..numel(&b)).map(|i| (i % 4) as f64).collect::<Vec<_>>())))] {
                let l = if (dt == DT::F32 || form == "dd") && (a == b || b.is_empty()) && a.len() == 2 && !a.contains(&1) { 0 } else { 1 };
                let e = if let D(t) = e { K(t) } else { e };
                f.lvl(l).add(format!("Pow/{}/{form}/{}_{}", dt.name(), sh(&a), sh(&b)), 15, "Pow", &[], &[D(pos(dt, &a)), e], 1);
            }
        }
        for fm in [0, 1] { for dt in [DT::F32, DT::I64, DT::I32] { if dt == DT::F32 && fm == 0 { continue; } for (form, neg) in [("dd", false), ("dn", true)] {
            let l = if ((a == b && a.len() == 2) || (a.len() == 2 && b.is_empty())) && !a.contains(&1) && dt != DT::I32 { 0 } else { 1 };
            let d = pos(dt, &b); let d = if neg { T::num(dt, &b, &d.fv().iter().map(|v| -v).collect::<Vec<_>>()) } else { d };
            f.lvl(l).add(format!("Mod/fmod={fm}/{}/{form}/{}_{}", dt.name(), sh(&a), sh(&b)), 13, "Mod", &[ai("fmod", fm)], &[D(mix(dt, &a)), D(d)], 1);
        } } }
    }
    f.add("Mod/default", 13, "Mod", &[], &[D(mix(DT::I64, &[6])), D(pos(DT::I64, &[6]))], 1);
    // mixed exponent types
    for (da, db) in [(DT::F32, DT::I64), (DT::F32, DT::I32), (DT::I64, DT::F32), (DT::I32, DT::I64), (DT::F32, DT::F64)] { for s in [vec![], vec![1usize], vec![2, 3]] { for (form, c) in [("d", false), ("c", true)] { let e = T::num(db, &s, &(0..numel(&s)).map(|i| (i % 3 + 1) as f64).collect::<Vec<_>>()); f.lvl(if matches!((da, db), (DT::F32, DT::I64 | DT::I32)) { 0 } else { 1 }).add(format!("Pow/mixed/{}_{}/{form}/{}", da.name(), db.name(), sh(&s)), 15, "Pow", &[], &[D(pos(da, &[2, 3])), if c { C(e) } else { K(e) }], 1); } } }
    // variadic
    for op in ["Sum", "Mean", "Max", "Min"] { for n in 1..=4usize { for sc in [false, true] { let ins: Vec<In> = (0..n).map(|k| D(T::num(DT::F32, if sc && k % 2 == 1 { &[3] } else { &[2, 3] }, &(0..if sc && k % 2 == 1 { 3 } else { 6 }).map(|i| ((i * 5 + k * 3) % 7) as f64 - 3.0).collect::<Vec<_>>()))).collect(); let g = f.lvl(if sc { 1 } else { 0 }); let g = if matches!(op, "Max" | "Min") && n != 2 || n == 1 { g.loose() } else { g }; g.add(format!("{op}/n={n}/bcast={sc}"), 13, op, &[], &ins, 1); } } }
    // Where
    let ws: Vec<Vec<usize>> = vec![vec![], vec![1], vec![3], vec![2, 3], vec![2, 1], vec![1, 2, 3]];
    for c in &ws { for a in &ws { for b in &ws {
        if bshape(&[c, a, b]).is_none() { continue; }
        for dt in [DT::F32, DT::I64, DT::Bool] {
            let l = if dt == DT::F32 && c.len() >= 2 && !c.contains(&1) && (a.is_empty() || a == c) && (b.is_empty() || b == c) || (c.is_empty() && a == b && a.len() != 3 && dt != DT::Bool && !a.contains(&1)) { 0 } else { 1 };
            f.lvl(l).add(format!("Where/{}/{}_{}_{}", dt.name(), sh(c), sh(a), sh(b)), 16, "Where", &[], &[D(mix(DT::Bool, c)), D(mix(dt, a)), D(vary(&mix(dt, b)))], 1);
        }
        f.lvl(1).add(format!("Where/const/{}_{}_{}", sh(c), sh(a), sh(b)), 16, "Where", &[], &[D(mix(DT::Bool, c)), C(mix(DT::F32, a)), D(vary(&mix(DT::F32, b)))], 1);
        f.lvl(1).add(format!("Where/dynr/{}_{}_{}", sh(c), sh(a), sh(b)), 16, "Where", &[], &[R(mix(DT::Bool, c)), R(mix(DT::F32, a)), R(vary(&mix(DT::F32, b)))], 1);
    } } }
    // Clip
    for (op6, lo, hi) in [(true, Some(-1.0), Some(1.5)), (true, Some(-1.0), None), (true, None, Some(1.5)), (false, Some(-1.0), Some(1.5)), (false, Some(-1.0), None), (false, None, Some(1.5)), (false, Some(2.0), Some(-1.0)), (false, Some(0.0), Some(6.0)), (true, Some(0.0), Some(6.0)), (false, None, None), (true, None, None)] {
        let nm = format!("Clip/{}/min={lo:?}/max={hi:?}", if op6 { "attr" } else { "input" });
        let lo2 = lo.map(|v: f64| af("min", v)); let hi2 = hi.map(|v: f64| af("max", v));
        let g = if lo.is_none() && hi.is_none() { f.loose() } else { f.lvl(0) };
        if op6 { g.add(nm, 6, "Clip", &lo2.into_iter().chain(hi2).collect::<Vec<_>>(), &[x()], 1); }
        else {
            let c = |v: Option<f64>| v.map(|v| C(T::f32(&[], &[v]))).unwrap_or(N);
            g.add(nm.clone(), 13, "Clip", &[], &[x(), c(lo), c(hi)], 1);
            f.lvl(1).add(format!("{nm}/rank0"), 13, "Clip", &[], &[D(fmix(&[])), c(lo), c(hi)], 1);
            f.loose().lvl(1).add(format!("{nm}/runtime"), 13, "Clip", &[], &[x(), lo.map(|v| K(T::f32(&[], &[v]))).unwrap_or(N), hi.map(|v| K(T::f32(&[], &[v]))).unwrap_or(N)], 1);
            for dt in [DT::I64, DT::I32, DT::F64, DT::U8] { let c = |v: Option<f64>| v.map(|v| C(T::num(dt, &[], &[v.trunc().max(if dt == DT::U8 { 0.0 } else { -99.0 })]))).unwrap_or(N); let g = f.lvl(if matches!(dt, DT::I64) && lo.is_some() && hi.is_some() { 0 } else { 1 }); let g = if lo.is_none() && hi.is_none() { g.loose() } else { g }; g.add(format!("{nm}/{}", dt.name()), 13, "Clip", &[], &[D(mix(dt, &[2, 3])), c(lo), c(hi)], 1); }
        }
    }
    // Cast
    for a in ALL_DT { for b in ALL_DT { for s in [vec![4usize], vec![], vec![2, 2]] {
        let t = if a == DT::Bool { mix(a, &s) } else if b.is_float() || b.is_signed() { if a.is_float() { T::num(a, &s, &[1.0, -2.0, 0.0, 3.5][..numel(&s)]) } else { mix(a, &s) } } else { T::num(a, &s, &[1.0, 2.0, 0.0, 5.0][..numel(&s)]) };
        let l = if matches!(a, DT::F32 | DT::I64 | DT::Bool | DT::I32) && matches!(b, DT::F32 | DT::I64 | DT::Bool | DT::I32 | DT::F64) && s.len() != 2 { 0 } else { 1 };
        f.lvl(l).tol(1e-2).add(format!("Cast/{}_{}/{}", a.name(), b.name(), sh(&s)), 13, "Cast", &[ai("to", b.onnx() as i64)], &[K(t.clone())], 1);
        f.lvl(1).add(format!("Cast/const/{}_{}/{}", a.name(), b.name(), sh(&s)), 13, "Cast", &[ai("to", b.onnx() as i64)], &[C(t)], 1);
    } } }
    // Dropout at inference is the identity, in every opset form
    f.add("Dropout/opset10", 10, "Dropout", &[af("ratio", 0.3)], &[x()], 1);
    f.add("Dropout/opset13/none", 13, "Dropout", &[], &[x()], 1);
    f.add("Dropout/opset13/ratio", 13, "Dropout", &[], &[x(), C(T::f32s(0.25))], 1);
    f.add("Dropout/opset13/training=0", 13, "Dropout", &[], &[x(), C(T::f32s(0.25)), C(T::bool(&[], &[false]))], 1);
}

pub fn layout(f: &mut F) {
    f.group("layout");
    let x = |s: &[usize]| D(distinct(DT::F32, s));
    let i1 = |v: &[i64]| C(T::i64v(v));
    // Transpose
    for r in 1..=4usize {
        let s = &[2, 3, 4, 2][..r];
        f.add(format!("Transpose/default/rank{r}"), 13, "Transpose", &[], &[x(s)], 1);
        for p in permsi(r) { f.lvl(if r <= 3 { 0 } else { 1 }).add(format!("Transpose/{}", is(&p)), 13, "Transpose", &[ais("perm", &p)], &[x(s)], 1); }
    }
    for dt in [DT::I64, DT::Bool] { f.add(format!("Transpose/{}", dt.name()), 13, "Transpose", &[ais("perm", &[1, 0])], &[D(mix(dt, &[2, 3]))], 1); }
    f.lvl(1).add("Transpose/dyn", 13, "Transpose", &[ais("perm", &[1, 2, 0])], &[R(distinct(DT::F32, &[2, 3, 4]))], 1);
    // Reshape
    for (s, ts) in [(vec![2usize, 3, 4], vec![vec![24i64], vec![6, 4], vec![-1], vec![2, -1], vec![-1, 4], vec![0, 12], vec![0, -1], vec![0, 0, -1], vec![0, 0, 0], vec![4, 3, 2], vec![2, 0, 4], vec![-1, 0], vec![1, 2, 12], vec![3, -1, 2, 1], vec![0, 3, 2, -1]]), (vec![6], vec![vec![6], vec![-1], vec![2, 3], vec![0], vec![1, -1], vec![0, 1], vec![3, 2, 1]]), (vec![1], vec![vec![], vec![1, 1], vec![-1]]), (vec![], vec![vec![1], vec![1, 1], vec![-1], vec![]]), (vec![2, 2], vec![vec![-1, 1], vec![0, 0], vec![0, 1, 2], vec![2, 2, 1, 1]])] {
        for t in ts {
            for (az, form) in [(0, "default"), (0, "az0"), (1, "az1")] {
                if form == "az1" && t.contains(&0) && t.contains(&-1) { continue; }
                let at: Vec<_> = if form == "default" { vec![] } else { vec![ai("allowzero", az)] };
                let l = if form == "default" && s.len() != 1 { 0 } else { 1 };
                let ops = if form == "default" { 13 } else { 14 };
                f.lvl(l).add(format!("Reshape/{form}/const/{}to{}", sh(&s), is(&t)), ops, "Reshape", &at, &[x(&s), i1(&t)], 1);
                f.lvl(if s.len() == 3 && form == "default" && t.len() == 2 { 0 } else { 1 }).add(format!("Reshape/{form}/runtime/{}to{}", sh(&s), is(&t)), ops, "Reshape", &at, &[x(&s), K(T::i64v(&t))], 1);
                f.lvl(1).add(format!("Reshape/{form}/dyn/{}to{}", sh(&s), is(&t)), ops, "Reshape", &at, &[R(distinct(DT::F32, &s)), i1(&t)], 1);
            }
            f.lvl(1).add(format!("Reshape/attr/{}to{}", sh(&s), is(&t)), 1, "Reshape", &[ais("shape", &t)], &[x(&s)], 1);
        }
    }
    for dt in [DT::I64, DT::Bool] { f.add(format!("Reshape/{}", dt.name()), 13, "Reshape", &[], &[D(mix(dt, &[2, 3])), i1(&[3, 2])], 1); }
    // Flatten
    for r in 1..=4usize { let s = &[2, 3, 2, 2][..r]; f.lvl(if r > 1 { 0 } else { 1 }).add(format!("Flatten/default/rank{r}"), 13, "Flatten", &[], &[x(s)], 1); for a in -(r as i64)..=r as i64 { f.lvl(if r == 3 { 0 } else { 1 }).add(format!("Flatten/rank{r}/axis={a}"), 13, "Flatten", &[ai("axis", a)], &[x(s)], 1); } }
    // Squeeze / Unsqueeze
    let s = [1usize, 3, 1, 2, 1];
    for m in 0u32..32 { for neg in [false, true] {
        let ax: Vec<i64> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| if neg { i as i64 - 5 } else { i as i64 }).collect();
        if ax.is_empty() && neg { continue; }
        let l = if m.count_ones() <= 1 || m == 0b10101 { 0 } else { 1 };
        if ax.is_empty() { f.add("Squeeze/all/input", 13, "Squeeze", &[], &[x(&s)], 1); f.add("Squeeze/all/attr", 11, "Squeeze", &[], &[x(&s)], 1); continue; }
        f.lvl(l).add(format!("Squeeze/input/{}", is(&ax)), 13, "Squeeze", &[], &[x(&s), i1(&ax)], 1);
        f.lvl(if neg { l } else { 1 }).add(format!("Squeeze/attr/{}", is(&ax)), 11, "Squeeze", &[ais("axes", &ax)], &[x(&s)], 1);
        if ax.len() == 2 { let mut r = ax.clone(); r.reverse(); f.lvl(1).add(format!("Squeeze/input/{}", is(&r)), 13, "Squeeze", &[], &[x(&s), i1(&r)], 1); }
    } }
    f.add("Squeeze/to_scalar", 13, "Squeeze", &[], &[D(fmix(&[1])), i1(&[0])], 1);
    f.lvl(1).add("Squeeze/dyn", 13, "Squeeze", &[], &[R(fmix(&[2, 1])), i1(&[1])], 1);
    for r in 0..=3usize { let s = &[2, 3, 2][..r]; for n in 1..=2usize { let tot = (r + n) as i64; for ax in crate::fam::subsets_ordered(tot, n) { for neg in [false, true] { let ax: Vec<i64> = ax.iter().map(|a| if neg { a - tot } else { *a }).collect(); let asc = ax.windows(2).all(|w| w[0] < w[1]); f.lvl(if n == 1 || (asc && r % 2 == 0) { 0 } else { 1 }).add(format!("Unsqueeze/input/rank{r}/{}", is(&ax)), 13, "Unsqueeze", &[], &[x(s), i1(&ax)], 1); f.lvl(1).add(format!("Unsqueeze/attr/rank{r}/{}", is(&ax)), 11, "Unsqueeze", &[ais("axes", &ax)], &[x(s)], 1); } } } }
    for ax in [0i64, 1, -1] { f.loose().lvl(0).add(format!("Unsqueeze/runtime/{ax}"), 13, "Unsqueeze", &[], &[x(&[2, 3]), K(T::i64v(&[ax]))], 1); }
    for dt in [DT::I64, DT::Bool] { f.add(format!("Unsqueeze/{}", dt.name()), 13, "Unsqueeze", &[], &[D(mix(dt, &[2])), i1(&[0])], 1); f.add(format!("Unsqueeze/{}/scalar", dt.name()), 13, "Unsqueeze", &[], &[D(mix(dt, &[])), i1(&[0])], 1); }
    // Concat / Split
    for r in 1..=3usize { for n in 1..=4usize { for ax in -(r as i64)..r as i64 {
        let axu = (ax + r as i64) as usize % r;
        let ins: Vec<In> = (0..n).map(|k| { let mut s = [2usize, 3, 2][..r].to_vec(); s[axu] = k % 3 + 1; D(T::ramp(DT::F32, &s, k as f64 * 100.0, 1.0)) }).collect();
        f.lvl(if n == 2 || n == 3 { 0 } else { 1 }).add(format!("Concat/rank{r}/n={n}/axis={ax}"), 13, "Concat", &[ai("axis", ax)], &ins, 1);
    } } }
    for dt in [DT::I64, DT::Bool, DT::F64] { f.lvl(if dt == DT::F64 { 1 } else { 0 }).add(format!("Concat/{}", dt.name()), 13, "Concat", &[ai("axis", 0)], &[D(mix(dt, &[2])), D(mix(dt, &[3]))], 1); }
    f.add("Concat/const", 13, "Concat", &[ai("axis", 1)], &[C(fmix(&[2, 1])), x(&[2, 2])], 1);
    f.add("Concat/same", 13, "Concat", &[ai("axis", 0)], &[x(&[2, 2]), Same(0)], 1);
    f.lvl(1).add("Concat/dyn", 13, "Concat", &[ai("axis", 0)], &[R(fmix(&[2, 2])), D(fmix(&[1, 2]))], 1);
    for (s, ax) in [(vec![6usize], 0i64), (vec![2, 6], 1), (vec![6, 2], 0), (vec![2, 6], -1), (vec![6, 2], -2), (vec![2, 6, 2], 1)] {
        for parts in [vec![2i64, 4], vec![1, 2, 3], vec![6], vec![3, 3], vec![0, 6], vec![5, 1]] {
            let n = parts.len();
            f.lvl(if n > 1 && s.len() != 3 && !parts.contains(&0) { 0 } else { 1 }).add(format!("Split/input/{}/axis={ax}/{}", sh(&s), is(&parts)), 13, "Split", &[ai("axis", ax)], &[x(&s), i1(&parts)], n);
            f.lvl(1).add(format!("Split/attr/{}/axis={ax}/{}", sh(&s), is(&parts)), 11, "Split", &[ai("axis", ax), ais("split", &parts)], &[x(&s)], n);
        }
        for n in [1usize, 2, 3, 6, 4] {
            if 6 % n == 0 { f.lvl(if n == 2 || n == 3 { 0 } else { 1 }).add(format!("Split/equal/{}/axis={ax}/n={n}", sh(&s)), 13, "Split", &[ai("axis", ax)], &[x(&s)], n); }
            f.lvl(if n == 4 || n == 2 { 0 } else { 1 }).add(format!("Split/num_outputs/{}/axis={ax}/n={n}", sh(&s)), 18, "Split", &[ai("axis", ax), ai("num_outputs", n as i64)], &[x(&s)], n);
        }
    }
    f.lvl(1).add("Split/default_axis", 13, "Split", &[], &[x(&[4, 2])], 2);
    // Slice
    let big = i64::MAX; let i32m = i32::MAX as i64;
    for (st, en) in [(0i64, 2i64), (1, 3), (-2, big), (0, -1), (1, 1), (-3, -1), (2, 99), (-99, 2), (0, i32m), (3, 1), (0, 0)] {
        for sp in [1i64, 2, 3] {
            for ax in [0i64, 1, -1] {
                let l = if sp <= 2 && ax >= 0 && (ax == 0 || sp == 1) { 0 } else { 1 };
                f.lvl(l).add(format!("Slice/input/{st}:{en}:{sp}/axis={ax}"), 13, "Slice", &[], &[x(&[4, 5]), i1(&[st]), i1(&[en]), i1(&[ax]), i1(&[sp])], 1);
            }
        }
        f.lvl(1).add(format!("Slice/attr/{st}:{en}"), 9, "Slice", &[ais("starts", &[st]), ais("ends", &[en]), ais("axes", &[1])], &[x(&[4, 5])], 1);
        f.lvl(1).add(format!("Slice/attr/noaxes/{st}:{en}"), 9, "Slice", &[ais("starts", &[st, 0]), ais("ends", &[en, 2])], &[x(&[4, 5])], 1);
        f.lvl(1).add(format!("Slice/noaxes/{st}:{en}"), 13, "Slice", &[], &[x(&[4, 5]), i1(&[st]), i1(&[en])], 1);
        f.lvl(0).add(format!("Slice/runtime/{st}:{en}"), 13, "Slice", &[], &[x(&[4, 5]), K(T::i64v(&[st])), K(T::i64v(&[en])), i1(&[1])], 1);
        f.lvl(1).add(format!("Slice/runtime/noaxes/{st}:{en}"), 13, "Slice", &[], &[x(&[4, 5]), K(T::i64v(&[st])), K(T::i64v(&[en]))], 1);
    }
    for (st, en, sp) in [(3i64, 0i64, -1i64), (-1, -99, -1), (-1, i64::MIN, -1), (3, 0, -2), (big, 0, -1), (-1, -5, -1), (2, -99, -2), (-1, i32::MIN as i64, -1)] { for ax in [0, 1] { f.lvl(0).add(format!("Slice/negstep/{st}:{en}:{sp}/axis={ax}"), 13, "Slice", &[], &[x(&[4, 5]), i1(&[st]), i1(&[en]), i1(&[ax]), i1(&[sp])], 1); } }
    for (ax, nm) in [(vec![0i64, 1], "01"), (vec![1, 0], "10"), (vec![-1, -2], "-1-2"), (vec![2, 0], "20")] { f.add(format!("Slice/multi/{nm}"), 13, "Slice", &[], &[x(&[3, 4, 5]), i1(&[1, 0]), i1(&[3, 2]), i1(&ax), i1(&[1, 2])], 1); f.lvl(1).add(format!("Slice/multi/nosteps/{nm}"), 13, "Slice", &[], &[x(&[3, 4, 5]), i1(&[1, 0]), i1(&[3, 2]), i1(&ax)], 1); }
    for dt in [DT::I64, DT::Bool] { f.add(format!("Slice/{}", dt.name()), 13, "Slice", &[], &[D(mix(dt, &[5])), i1(&[1]), i1(&[4]), i1(&[0])], 1); }
    f.lvl(1).add("Slice/i32", 13, "Slice", &[], &[x(&[4, 5]), C(T::num(DT::I32, &[1], &[1.0])), C(T::num(DT::I32, &[1], &[3.0])), C(T::num(DT::I32, &[1], &[1.0]))], 1);
    // Gather family
    for (ds, is_) in [(vec![4usize], vec![]), (vec![4], vec![3usize]), (vec![4, 3], vec![]), (vec![4, 3], vec![2]), (vec![4, 3], vec![2, 2]), (vec![2, 3, 4], vec![2]), (vec![2, 3, 4], vec![]), (vec![2, 3, 4], vec![1, 2])] {
        for ax in -(ds.len() as i64)..ds.len() as i64 {
            let d = ds[((ax + ds.len() as i64) as usize) % ds.len()] as i64;
            for neg in [false, true] {
                let ix = T::i64(&is_, &(0..numel(&is_)).map(|i| { let v = (i as i64 * 2 + 1) % d; if neg && i % 2 == 0 { v - d } else { v } }).collect::<Vec<_>>());
                for (form, op) in [("rt", K(ix.clone())), ("const", C(ix.clone())), ("i32", K(ix.cast(DT::I32)))] {
                    let l = if form == "i32" || (ax < 0 && form == "const") { 1 } else { 0 };
                    f.lvl(l).add(format!("Gather/{form}/{}/{}/axis={ax}/neg={neg}", sh(&ds), sh(&is_)), 13, "Gather", &[ai("axis", ax)], &[x(&ds), op], 1);
                }
            }
        }
        f.lvl(1).add(format!("Gather/default/{}/{}", sh(&ds), sh(&is_)), 13, "Gather", &[], &[x(&ds), K(T::zeros(DT::I64, &is_))], 1);
    }
    for dt in [DT::I64, DT::Bool, DT::I32] { f.add(format!("Gather/{}", dt.name()), 13, "Gather", &[], &[D(mix(dt, &[4, 2])), K(T::i64v(&[2, 0, 3]))], 1); f.add(format!("Gather/{}/scalar", dt.name()), 13, "Gather", &[], &[D(mix(dt, &[4])), K(T::i64s(2))], 1); }
    f.lvl(1).add("Gather/constdata", 13, "Gather", &[], &[C(distinct(DT::F32, &[4, 2])), K(T::i64v(&[2, 0, 3]))], 1);
    for (s, ixs) in [(vec![3usize, 4], vec![2usize, 4]), (vec![3, 4], vec![3, 2]), (vec![4], vec![6]), (vec![2, 3, 2], vec![2, 1, 2]), (vec![3, 4], vec![1, 1])] { for ax in -(s.len() as i64)..s.len() as i64 { for neg in [false, true] {
        let axu = (ax + s.len() as i64) as usize % s.len(); let d = s[axu] as i64;
        let ix = T::i64(&ixs, &(0..numel(&ixs)).map(|i| { let v = (i as i64 * 2 + 1) % d; if neg && i % 2 == 0 { v - d } else { v } }).collect::<Vec<_>>());
        f.add(format!("GatherElements/{}/{}/axis={ax}/neg={neg}", sh(&s), sh(&ixs)), 13, "GatherElements", &[ai("axis", ax)], &[x(&s), K(ix.clone())], 1);
        f.lvl(1).add(format!("GatherElements/const/{}/{}/axis={ax}/neg={neg}", sh(&s), sh(&ixs)), 13, "GatherElements", &[ai("axis", ax)], &[x(&s), C(ix.clone())], 1);
        for red in ["none", "add", "mul", "max", "min"] { if red == "none" && ix.to_i64().len() != 2 && { let mut seen = std::collections::HashSet::new(); (0..ix.len()).any(|i| { let mut u = unravel(i, &ixs); let v = ix.to_i64()[i]; u[axu] = (if v < 0 { v + d } else { v }) as usize; !seen.insert(u) }) } { continue; }
            let g = f.lvl(if neg { 1 } else { 0 }); let g = if red == "mul" || red == "max" || red == "min" { g.loose() } else { g };
            let at = if red == "none" { vec![ai("axis", ax)] } else { vec![ai("axis", ax), asx("reduction", red)] };
            g.add(format!("ScatterElements/{red}/{}/{}/axis={ax}/neg={neg}", sh(&s), sh(&ixs)), 18, "ScatterElements", &at, &[x(&s), K(ix.clone()), D(T::ramp(DT::F32, &ixs, 100.0, 1.0))], 1); }
    } } }
    for dt in [DT::I64, DT::Bool] { f.lvl(if dt == DT::I64 { 0 } else { 1 }).add(format!("ScatterElements/{}", dt.name()), 18, "ScatterElements", &[ai("axis", 0)], &[D(mix(dt, &[4])), K(T::i64v(&[2, 0])), D(vary(&mix(dt, &[2])))], 1); f.add(format!("GatherElements/{}", dt.name()), 13, "GatherElements", &[], &[D(mix(dt, &[4])), K(T::i64v(&[2, 0]))], 1); }
    for (ds, is_, bd) in [(vec![3usize, 4], vec![2usize, 2], 0i64), (vec![3, 4], vec![2, 1], 0), (vec![2, 3, 4], vec![2, 3], 0), (vec![2, 3, 4], vec![2, 1], 1), (vec![2, 3, 4], vec![2, 2], 1), (vec![2, 3, 4], vec![2, 2, 1], 1), (vec![2, 3, 4], vec![2, 3, 1], 2), (vec![4], vec![3, 1], 0), (vec![4], vec![1], 0), (vec![3, 4], vec![2], 0)] { for neg in [false, true] {
        let q = *is_.last().unwrap();
        let ix = T::i64(&is_, &(0..numel(&is_)).map(|i| { let d = ds[bd as usize + i % q] as i64; let v = (i as i64 + 1) % d; if neg { v - d } else { v } }).collect::<Vec<_>>());
        f.lvl(if neg { 1 } else { 0 }).add(format!("GatherND/{}/{}/b={bd}/neg={neg}", sh(&ds), sh(&is_), ), 13, "GatherND", &[ai("batch_dims", bd)], &[x(&ds), K(ix.clone())], 1);
        if bd == 0 { for red in ["none", "add", "mul", "max", "min"] {
            let us: Vec<usize> = is_[..is_.len() - 1].iter().chain(&ds[q..]).copied().collect();
            let at = if red == "none" { vec![] } else { vec![asx("reduction", red)] };
            let g = f.lvl(if neg { 1 } else { 0 }); let g = if red == "none" || red == "add" { g } else { g.loose() };
            g.add(format!("ScatterND/{red}/{}/{}/neg={neg}", sh(&ds), sh(&is_)), 18, "ScatterND", &at, &[x(&ds), K(ix.clone()), D(T::ramp(DT::F32, &us, 100.0, 1.0))], 1);
        } }
    } }
    for dt in [DT::I64] { f.add(format!("GatherND/{}", dt.name()), 13, "GatherND", &[], &[D(mix(dt, &[3, 2])), K(T::i64(&[2, 1], &[2, 0]))], 1); f.add(format!("ScatterND/{}", dt.name()), 18, "ScatterND", &[], &[D(mix(dt, &[4])), K(T::i64(&[2, 1], &[2, 0])), D(mix(dt, &[2]))], 1); }
    // Expand / Tile
    for (s, ts) in [(vec![3usize], vec![vec![3i64], vec![2, 3], vec![1], vec![2, 1]]), (vec![2, 1], vec![vec![2, 3], vec![1, 3], vec![4, 2, 3], vec![2, 1], vec![3]]), (vec![1, 3], vec![vec![2, 3], vec![2, 1]]), (vec![], vec![vec![2], vec![2, 2], vec![]]), (vec![1], vec![vec![4], vec![2, 2, 2]])] { for t in ts { f.lvl(0).add(format!("Expand/const/{}to{}", sh(&s), is(&t)), 13, "Expand", &[], &[x(&s), i1(&t)], 1); f.lvl(0).add(format!("Expand/runtime/{}to{}", sh(&s), is(&t)), 13, "Expand", &[], &[x(&s), K(T::i64v(&t))], 1); f.lvl(1).add(format!("Expand/dyn/{}to{}", sh(&s), is(&t)), 13, "Expand", &[], &[R(distinct(DT::F32, &s)), i1(&t)], 1); } }
    for dt in [DT::I64, DT::Bool] { f.add(format!("Expand/{}", dt.name()), 13, "Expand", &[], &[D(mix(dt, &[1, 3])), i1(&[2, 3])], 1); }
    for (s, rs) in [(vec![3usize], vec![vec![1i64], vec![2], vec![3]]), (vec![2, 3], vec![vec![1, 2], vec![2, 1], vec![2, 3], vec![1, 1]]), (vec![1, 2, 2], vec![vec![2, 1, 3]])] { for t in rs { f.add(format!("Tile/{}/{}", sh(&s), is(&t)), 13, "Tile", &[], &[x(&s), i1(&t)], 1); f.loose().lvl(1).add(format!("Tile/runtime/{}/{}", sh(&s), is(&t)), 13, "Tile", &[], &[x(&s), K(T::i64v(&t))], 1); } }
    for dt in [DT::I64, DT::Bool] { f.add(format!("Tile/{}", dt.name()), 13, "Tile", &[], &[D(mix(dt, &[2])), i1(&[2])], 1); }
    // Pad
    for (s, ps) in [(vec![3usize], vec![vec![1i64, 2], vec![0, 2], vec![0, 0], vec![2, 0]]), (vec![2, 3], vec![vec![0, 1, 0, 2], vec![1, 0, 2, 0], vec![1, 2, 0, 1], vec![0, 0, 0, 0]]), (vec![2, 3, 4], vec![vec![0, 1, 2, 0, 2, 1], vec![0, 0, 1, 0, 0, 2], vec![1, 0, 0, 2, 0, 0], vec![1, 1, 0, 0, 1, 2]]), (vec![1, 2, 3, 3], vec![vec![0, 0, 1, 2, 0, 0, 2, 1], vec![0, 1, 0, 0, 0, 2, 0, 0]])] { for p in ps {
        for mode in ["constant", "reflect", "edge", "wrap"] {
            let at = if mode == "constant" { vec![] } else { vec![asx("mode", mode)] };
            let nm = format!("Pad/{mode}/{}/{}", sh(&s), is(&p));
            let mk = |f: &mut F| { if mode == "wrap" { f.loose(); } };
            mk(f); f.add(nm.clone(), if mode == "wrap" { 19 } else { 13 }, "Pad", &at, &[x(&s), i1(&p)], 1);
            if mode == "constant" {
                f.add(format!("{nm}/value"), 13, "Pad", &[asx("mode", mode)], &[x(&s), i1(&p), C(T::f32s(2.5))], 1);
                f.lvl(1).add(format!("{nm}/attr"), 2, "Pad", &[ais("pads", &p), af("value", -1.5)], &[x(&s)], 1);
                f.lvl(1).add(format!("{nm}/attr-default"), 2, "Pad", &[ais("pads", &p)], &[x(&s)], 1);
                f.lvl(1).loose().add(format!("{nm}/runtime"), 13, "Pad", &[], &[x(&s), K(T::i64v(&p))], 1);
            }
        }
        f.lvl(1).add(format!("Pad/i64/{}/{}", sh(&s), is(&p)), 13, "Pad", &[], &[D(mix(DT::I64, &s)), i1(&p), C(T::i64s(7))], 1);
    } }
    f.loose().lvl(1).add("Pad/negative", 13, "Pad", &[], &[x(&[4]), i1(&[-1, 1])], 1);
    f.loose().lvl(1).add("Pad/axes", 18, "Pad", &[], &[x(&[2, 3]), i1(&[1, 2]), C(T::f32s(0.0)), i1(&[1])], 1);
    // depth/space
    for mode in ["DCR", "CRD"] { for (s, b) in [(vec![1usize, 4, 2, 3], 2i64), (vec![2, 8, 1, 2], 2), (vec![1, 9, 1, 1], 3), (vec![1, 3, 2, 2], 1)] { f.add(format!("DepthToSpace/{mode}/{}/{b}", sh(&s)), 13, "DepthToSpace", &[ai("blocksize", b), asx("mode", mode)], &[x(&s)], 1); } }
    f.lvl(1).add("DepthToSpace/default", 13, "DepthToSpace", &[ai("blocksize", 2)], &[x(&[1, 8, 1, 2])], 1);
    for (s, b) in [(vec![1usize, 1, 2, 4], 2i64), (vec![2, 2, 2, 2], 2), (vec![1, 1, 3, 3], 3), (vec![1, 2, 4, 6], 2)] { f.add(format!("SpaceToDepth/{}/{b}", sh(&s)), 13, "SpaceToDepth", &[ai("blocksize", b)], &[x(&s)], 1); }
    // Trilu
    for s in [vec![3usize, 3], vec![2, 4], vec![4, 2], vec![2, 3, 3]] { for u in [0i64, 1] { for k in [-4i64, -1, 0, 1, 2, 5] { f.lvl(if s.len() == 2 { 0 } else { 1 }).add(format!("Trilu/upper={u}/{}/k={k}", sh(&s)), 14, "Trilu", &[ai("upper", u)], &[x(&s), C(T::i64s(k))], 1); } f.add(format!("Trilu/upper={u}/{}/nok", sh(&s)), 14, "Trilu", &[ai("upper", u)], &[x(&s)], 1); } f.lvl(1).add(format!("Trilu/default/{}", sh(&s)), 14, "Trilu", &[], &[x(&s)], 1); }
    // OneHot
    for ax in [-1i64, 0, 1, 2, -2] { for s in [vec![3usize], vec![2, 3]] { if ax > s.len() as i64 || ax < -(s.len() as i64) - 1 { continue; } for dt in [DT::F32, DT::I64] { for neg in [false, true] { let ix = T::i64(&s, &(0..numel(&s)).map(|i| (i as i64 * 2 + 1) % 4 - if neg && i % 2 == 0 { 4 } else { 0 }).collect::<Vec<_>>()); f.lvl(if neg { 1 } else { 0 }).add(format!("OneHot/{}/{}/axis={ax}/neg={neg}", dt.name(), sh(&s)), 11, "OneHot", &[ai("axis", ax)], &[K(ix), C(T::i64s(4)), C(T::num(dt, &[2], &[-1.0, 5.0]))], 1); } } } }
    for (on, off, dt) in [(0.5, -1.75, DT::F32), (2.5, 0.0, DT::F32), (0.0, 1.5, DT::F32)] { f.add(format!("OneHot/frac/{on}/{off}"), 11, "OneHot", &[], &[K(T::i64v(&[1, 0, 3])), C(T::i64s(4)), C(T::num(dt, &[2], &[off, on]))], 1); }
    f.lvl(1).add("OneHot/default", 11, "OneHot", &[], &[K(T::i64v(&[1, 0, 9])), C(T::i64s(3)), C(T::f32(&[2], &[0.0, 1.0]))], 1);
    // NonZero, EyeLike, Range, ConstantOfShape, Shape, Size
    for s in [vec![5usize], vec![2, 3], vec![2, 2, 2]] { for dt in [DT::F32, DT::I64, DT::Bool] { let t = T::num(dt, &s, &(0..numel(&s)).map(|i| if i % 3 == 1 { 0.0 } else if dt == DT::Bool { 1.0 } else { i as f64 + 1.0 }).collect::<Vec<_>>()); f.add(format!("NonZero/{}/{}", dt.name(), sh(&s)), 13, "NonZero", &[], &[K(t)], 1); } }
    for s in [vec![3usize, 3], vec![2, 4], vec![4, 2]] { for k in [0i64, 1, -1, 3] { for (dn, d) in [("none", None), ("f32", Some(1i64)), ("i64", Some(7)), ("bool", Some(9))] { let mut at = vec![ai("k", k)]; if let Some(d) = d { at.push(ai("dtype", d)); } f.lvl(if k.abs() <= 1 && dn != "bool" { 0 } else { 1 }).add(format!("EyeLike/{}/k={k}/{dn}", sh(&s)), 9, "EyeLike", &at, &[x(&s)], 1); } } f.lvl(1).add(format!("EyeLike/{}/default", sh(&s)), 9, "EyeLike", &[], &[x(&s)], 1); f.lvl(1).add(format!("EyeLike/{}/i64in", sh(&s)), 9, "EyeLike", &[], &[D(mix(DT::I64, &s))], 1); }
    for (a, b, c) in [(0i64, 5, 1), (2, 9, 3), (5, 0, -1), (5, 0, -2), (0, 0, 1), (3, 1, 1), (-3, 3, 2)] { f.add(format!("Range/i64/const/{a}:{b}:{c}"), 11, "Range", &[], &[C(T::i64s(a)), C(T::i64s(b)), C(T::i64s(c))], 1); f.add(format!("Range/i64/runtime/{a}:{b}:{c}"), 11, "Range", &[], &[K(T::i64s(a)), K(T::i64s(b)), K(T::i64s(c))], 1); f.lvl(1).add(format!("Range/i64/mixed/{a}:{b}:{c}"), 11, "Range", &[], &[C(T::i64s(a)), K(T::i64s(b)), C(T::i64s(c))], 1); f.loose().lvl(1).add(format!("Range/f32/{a}:{b}:{c}"), 11, "Range", &[], &[K(T::f32s(a as f64)), K(T::f32s(b as f64)), K(T::f32s(c as f64 * 0.5))], 1); }
    for s in [vec![3i64], vec![2, 3], vec![1, 1, 2], vec![]] { for (vn, v) in [("none", None), ("f32", Some(T::f32(&[1], &[1.5]))), ("i64", Some(T::i64v(&[7]))), ("bool", Some(T::bool(&[1], &[true]))), ("i32", Some(T::num(DT::I32, &[1], &[-3.0])))] { let at: Vec<(&str, Attr)> = v.clone().map(|t| ("value", Attr::T(TensorP::raw("v", t)))).into_iter().collect(); f.lvl(if vn != "i32" { 0 } else { 1 }).add(format!("ConstantOfShape/const/{}/{vn}", is(&s)), 9, "ConstantOfShape", &at, &[i1(&s)], 1); if !s.is_empty() { f.lvl(if vn != "i32" { 0 } else { 1 }).add(format!("ConstantOfShape/runtime/{}/{vn}", is(&s)), 9, "ConstantOfShape", &at, &[K(T::i64v(&s))], 1); } } }
    for s in [vec![3usize], vec![2, 3], vec![2, 3, 4]] { f.add(format!("Shape/{}", sh(&s)), 13, "Shape", &[], &[x(&s)], 1); f.lvl(1).add(format!("Shape/dyn/{}", sh(&s)), 13, "Shape", &[], &[R(distinct(DT::F32, &s))], 1); f.add(format!("Size/{}", sh(&s)), 13, "Size", &[], &[x(&s)], 1);
        for st in [None, Some(0i64), Some(1), Some(-1), Some(-2), Some(9), Some(-9)] { for en in [None, Some(1i64), Some(2), Some(-1), Some(9), Some(0)] { let mut at = vec![]; if let Some(v) = st { at.push(ai("start", v)); } if let Some(v) = en { at.push(ai("end", v)); } f.lvl(if s.len() == 3 && st.map(|v| v.abs() < 9).unwrap_or(true) { 0 } else { 1 }).add(format!("Shape/{}/start={st:?}/end={en:?}", sh(&s)), 15, "Shape", &at, &[x(&s)], 1); } } }
    for dt in ALL_DT { f.lvl(if matches!(dt, DT::F32 | DT::I64 | DT::Bool | DT::I32) { 0 } else { 1 }).add(format!("Constant/value/{}", dt.name()), 13, "Constant", &[("value", Attr::T(TensorP::raw("v", mix(dt, &[2, 2]))))], &[], 1); f.lvl(if matches!(dt, DT::F32 | DT::I64 | DT::Bool | DT::I32) { 0 } else { 1 }).add(format!("Constant/value/{}/scalar", dt.name()), 13, "Constant", &[("value", Attr::T(TensorP::raw("v", mix(dt, &[]))))], &[], 1); }
    f.add("Constant/value_float", 13, "Constant", &[af("value_float", 1.5)], &[], 1); f.add("Constant/value_int", 13, "Constant", &[ai("value_int", -3)], &[], 1); f.add("Constant/value_floats", 13, "Constant", &[("value_floats", Attr::Fs(vec![1.5, -2.0]))], &[], 1); f.add("Constant/value_ints", 13, "Constant", &[ais("value_ints", &[4, -5, 6])], &[], 1);
    for (img, blk, pads, st, dil) in [(vec![4i64, 4], vec![2i64, 2], vec![0i64, 0, 0, 0], vec![1i64, 1], vec![1i64, 1]), (vec![5, 4], vec![2, 3], vec![1, 0, 0, 1], vec![2, 1], vec![1, 1]), (vec![5, 5], vec![2, 2], vec![0, 0, 0, 0], vec![1, 1], vec![2, 2]), (vec![4, 4], vec![2, 2], vec![1, 1, 1, 1], vec![2, 2], vec![1, 1])] {
        let l: i64 = (0..2).map(|i| (img[i] + pads[i] + pads[i + 2] - dil[i] * (blk[i] - 1) - 1) / st[i] + 1).product();
        let c = 2 * blk[0] * blk[1];
        f.add(format!("Col2Im/{}/{}/{}/{}/{}", is(&img), is(&blk), is(&pads), is(&st), is(&dil)), 18, "Col2Im", &[ais("pads", &pads), ais("strides", &st), ais("dilations", &dil)], &[x(&[1, c as usize, l as usize]), i1(&img), i1(&blk)], 1);
    }
}
pub fn permsi(n: usize) -> Vec<Vec<i64>> {
    fn go(left: Vec<i64>) -> Vec<Vec<i64>> { if left.is_empty() { return vec![vec![]]; } let mut o = vec![]; for i in 0..left.len() { let mut r = left.clone(); let x = r.remove(i); for mut p in go(r) { p.insert(0, x); o.push(p); } } o }
    go((0..n as i64).collect())
}
pub fn subsets_ordered(n: i64, k: usize) -> Vec<Vec<i64>> {
    if k == 0 { return vec![vec![]]; }
    let mut o = vec![];
    for p in subsets_ordered(n, k - 1) { for x in 0..n { if !p.contains(&x) { let mut q = p.clone(); q.push(x); o.push(q); } } }
    o
}
