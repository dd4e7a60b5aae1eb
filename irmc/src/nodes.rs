//! C25: builders and displays of nodes.
use burn_tensor::DType;
use irmc::{check::subgraphs, import, util::*};
use onnx_ir::ir::{ArgType, Argument, Node, OnnxGraph, TensorType, ValueSource};
use onnx_ir_derive::NodeBuilder;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::report::*;

#[derive(Debug, Clone, PartialEq)]
pub struct Conf { a: Option<Vec<i64>>, b: String, c: Inner }
#[derive(Debug, Clone, PartialEq)]
pub enum Inner { Unit, Tuple(f32, bool), Named { x: usize } }

/// Node structs of every form the macro takes; `use_ir` gives the generated code its paths.
macro_rules! nodes { ($($m:ident $name:ident { $($cfg:tt)* })*) => { $(
    mod $m { #![allow(unused_imports)] use super::*; 
        #[derive(Debug, Clone, NodeBuilder)]
        #[allow(dead_code)]
        pub struct $name { pub name: String, pub inputs: Vec<Argument>, pub outputs: Vec<Argument>, $($cfg)* }
    } )* } }
pub mod forms {
    use super::*;
    nodes! { plain PlainNode { } conf ConfNode { pub config: Conf } num NumNode { pub config: usize } opt OptNode { pub config: Option<String> } odd Odd { pub config: (i64, Conf) } inner NodeInNodeList { } twice NodeNode { pub config: Vec<f32> } }
    pub use {conf::*, inner::*, num::*, odd::*, opt::*, plain::*, twice::*};
    mod first { use super::*;
        #[derive(Debug, Clone, NodeBuilder)]
        pub struct FirstNode { pub config: Conf, pub outputs: Vec<Argument>, pub inputs: Vec<Argument>, pub name: String }
    }
    pub use first::*;
}
use forms::*;

#[derive(Debug, Clone)]
pub enum Op { InT(String, usize, DType), InTs(String, Vec<usize>, DType), InSt(String, Vec<usize>, DType), InS(String, DType), InSc(String, DType), InSh(String, usize), InC(String, i64), OutT(String, usize, DType), OutS(String, DType), OutSc(String, DType), OutSh(String, usize) }
/// (is input, name, type, static, embedded value)
struct Want { input: bool, name: String, ty: ArgType, fixed: bool, value: Option<i64> }
fn want(o: &Op) -> Want {
    let t = |rank: usize, dtype: DType, s: Option<Vec<Option<usize>>>| ArgType::Tensor(TensorType { dtype, rank, static_shape: s });
    let known = |s: &Vec<usize>| Some(s.iter().map(|d| Some(*d)).collect());
    let (input, name, ty, fixed, value) = match o {
        Op::InT(n, r, d) => (true, n, t(*r, *d, None), false, None),
        Op::InTs(n, s, d) => (true, n, t(s.len(), *d, known(s)), false, None),
        Op::InSt(n, s, d) => (true, n, t(s.len(), *d, known(s)), true, None),
        Op::InS(n, d) => (true, n, ArgType::ScalarNative(*d), false, None),
        Op::InSc(n, d) => (true, n, ArgType::ScalarTensor(*d), false, None),
        Op::InSh(n, r) => (true, n, ArgType::Shape(*r), false, None),
        Op::InC(n, v) => (true, n, ArgType::ScalarNative(DType::I64), true, Some(*v)),
        Op::OutT(n, r, d) => (false, n, t(*r, *d, None), false, None),
        Op::OutS(n, d) => (false, n, ArgType::ScalarNative(*d), false, None),
        Op::OutSc(n, d) => (false, n, ArgType::ScalarTensor(*d), false, None),
        Op::OutSh(n, r) => (false, n, ArgType::Shape(*r), false, None),
    };
    Want { input, name: name.clone(), ty, fixed, value }
}
macro_rules! apply { ($b:expr, $o:expr) => { match $o {
    Op::InT(n, r, d) => $b.input_tensor(n, *r, *d), Op::InTs(n, s, d) => $b.input_tensor_shape(n, s.clone(), *d), Op::InSt(n, s, d) => $b.input_static_tensor_shape(n, s.clone(), *d),
    Op::InS(n, d) => $b.input_scalar(n, *d), Op::InSc(n, d) => $b.input_scalar_tensor(n, *d), Op::InSh(n, r) => $b.input_shape(n, *r), Op::InC(n, v) => $b.input_const_i64(n, *v),
    Op::OutT(n, r, d) => $b.output_tensor(n, *r, *d), Op::OutS(n, d) => $b.output_scalar(n, *d), Op::OutSc(n, d) => $b.output_scalar_tensor(n, *d), Op::OutSh(n, r) => $b.output_shape(n, *r) } } }

fn same_args(what: &str, got: &[Argument], want: &[&Want]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{} {what}s instead of {}", got.len(), want.len())); }
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        let e = |x: &str, a: String, b: String| Err(format!("{what} {k}: {x} {a} instead of {b}"));
        if g.name != w.name && !(w.value.is_some() && g.name.is_empty()) { return e("name", format!("{:?}", g.name), format!("{:?}", w.name)); }
        if g.ty != w.ty { return e("type", format!("{:?}", g.ty), format!("{:?}", w.ty)); }
        let konst = matches!(g.value_source, ValueSource::Static(_) | ValueSource::Constant);
        let free = if w.name.is_empty() { ValueSource::Optional } else { ValueSource::Dynamic };
        if konst != w.fixed || (!konst && g.value_source != free) { return e("source", format!("{:?}", g.value_source), format!("constant: {}", w.fixed)); }
        if let Some(v) = w.value {
            let d = g.value().map(|t| (t.dtype, t.bytes.to_vec()));
            if d != Some((DType::I64, v.to_le_bytes().to_vec())) { return e("value", format!("{d:?}"), v.to_string()); }
        }
    }
    Ok(())
}
/// What a displayed argument says, written from the documented form.
fn arg_line(a: &Argument) -> String {
    if a.value_source == ValueSource::Optional { return "<optional>".into(); }
    let ty = match &a.ty {
        ArgType::ScalarTensor(d) => format!("ScalarTensor({d:?})"), ArgType::ScalarNative(d) => format!("ScalarNative({d:?})"), ArgType::Shape(r) => format!("Shape({r})"),
        ArgType::Tensor(t) => { let dims: Vec<String> = match &t.static_shape { Some(s) => s.iter().map(|d| d.map(|v| v.to_string()).unwrap_or("?".into())).collect(), None => vec!["?".to_string(); t.rank] }; format!("{:?}[{}]", t.dtype, dims.join(", ")) }
    };
    let src = match a.value_source { ValueSource::Static(i) => format!(" [static({i})]"), ValueSource::Constant => " [constant]".into(), _ => String::new() };
    format!("{}: {ty}{src}", if a.name.is_empty() { "_" } else { &a.name })
}
fn lines(s: &str) -> Vec<String> { s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect() }
fn page(op: &str, name: &str, ins: &[Argument], outs: &[Argument], config: Option<String>) -> Vec<String> {
    let mut s = format!("{op} {name:?}\nInputs:\n");
    for a in ins { s += &arg_line(a); s.push('\n'); }
    s += "Outputs:\n";
    for a in outs { s += &arg_line(a); s.push('\n'); }
    if let Some(c) = config { s += "Config:\n"; s += &c; }
    lines(&s)
}
fn same_page(got: String, want: Vec<String>) -> Result<(), String> {
    let got = lines(&got);
    if got == want { return Ok(()); }
    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    Err(format!("display line {k}: {:?} instead of {:?}", got.get(k), want.get(k)))
}
macro_rules! drive { ($ops:expr, $name:expr, $op:expr, $T:ident, $B:ident) => {{ let ops: &[Op] = $ops; catch_unwind(AssertUnwindSafe(|| {
    let mut b = $B::new($name);
    for o in ops { b = apply!(b, o); }
    let n: $T = b.build();
    judge(&n.name, &n.inputs, &n.outputs, ops, $name).and_then(|_| same_page(n.to_string(), page($op, &n.name, &n.inputs, &n.outputs, None)))
})).unwrap_or_else(|_| Err("panic".into())) }};
 ($ops:expr, $name:expr, $op:expr, $T:ident, $B:ident, $cfgs:expr) => {{ let ops: &[Op] = $ops; catch_unwind(AssertUnwindSafe(|| {
    let cfgs = $cfgs;
    // the configuration is set once at every position, and twice (the last one counts)
    for at in 0..=ops.len() { for second in [None, Some(at), Some(ops.len())] {
        let mut b = $B::new(String::from($name));
        let mut last = None;
        for (i, o) in ops.iter().enumerate() { if i == at { b = b.config(cfgs[0].clone()); last = Some(0); } if second == Some(i) { b = b.config(cfgs[1].clone()); last = Some(1); } b = apply!(b, o); }
        if at == ops.len() { b = b.config(cfgs[0].clone()); last = Some(0); }
        if second == Some(ops.len()) { b = b.config(cfgs[1].clone()); last = Some(1); }
        let c = cfgs[last.unwrap()].clone();
        let n: $T = b.build();
        judge(&n.name, &n.inputs, &n.outputs, ops, $name)?;
        if n.config != c { return Err(format!("configuration {:?} instead of {c:?}", n.config)); }
        same_page(n.to_string(), page($op, &n.name, &n.inputs, &n.outputs, Some(format!("{c:#?}"))))?;
    } }
    // without one, building must not make one up
    if catch_unwind(AssertUnwindSafe(|| { let mut b = $B::new($name); for o in ops { b = apply!(b, o); } b.build() })).is_ok() { return Err("built without a configuration".into()); }
    Ok(())
})).unwrap_or_else(|_| Err("panic".into())) }} }
fn judge(name: &str, ins: &[Argument], outs: &[Argument], ops: &[Op], want_name: &str) -> Result<(), String> {
    if name != want_name { return Err(format!("name {name:?} instead of {want_name:?}")); }
    let w: Vec<Want> = ops.iter().map(want).collect();
    same_args("input", ins, &w.iter().filter(|x| x.input).collect::<Vec<_>>())?;
    same_args("output", outs, &w.iter().filter(|x| !x.input).collect::<Vec<_>>())
}
fn all_forms(ops: &[Op], name: &str, full: bool) -> Result<u64, String> {
    let conf = || [Conf { a: Some(vec![1, -2]), b: "x \"y\"\nz".into(), c: Inner::Named { x: 3 } }, Conf { a: None, b: String::new(), c: Inner::Tuple(1.5, true) }, Conf { a: None, b: "b".into(), c: Inner::Unit }];
    let t = |f: &str, r: Result<(), String>| r.map_err(|e| format!("{f}: {e}"));
    t("PlainNode", drive!(ops, name, "Plain", PlainNode, PlainNodeBuilder))?;
    t("ConfNode", drive!(ops, name, "Conf", ConfNode, ConfNodeBuilder, conf()))?;
    if !full { return Ok(2); }
    t("FirstNode", drive!(ops, name, "First", FirstNode, FirstNodeBuilder, conf()))?;
    t("NumNode", drive!(ops, name, "Num", NumNode, NumNodeBuilder, [0usize, 7]))?;
    t("OptNode", drive!(ops, name, "Opt", OptNode, OptNodeBuilder, [None, Some("s".to_string())]))?;
    t("Odd", drive!(ops, name, "Odd", Odd, OddBuilder, [(1i64, conf()[0].clone()), (-1, conf()[1].clone())]))?;
    t("NodeInNodeList", drive!(ops, name, "NodeInNodeList", NodeInNodeList, NodeInNodeListBuilder))?;
    t("NodeNode", drive!(ops, name, "Node", NodeNode, NodeNodeBuilder, [vec![], vec![1.0f32, -0.0]]))?;
    real(ops, name)?;
    Ok(10)
}
/// Real nodes without a configuration.
fn real(ops: &[Op], name: &str) -> Result<(), String> {
    use onnx_ir::node::*;
    macro_rules! r { ($($op:literal $m:ident $T:ident $B:ident)*) => { $( { use $m::{$T, $B}; drive!(ops, name, $op, $T, $B).map_err(|e| format!("{}: {e}", stringify!($T)))?; } )* } }
    r! { "Add" arithmetic AddNode AddNodeBuilder "Sub" arithmetic SubNode SubNodeBuilder "Mul" arithmetic MulNode MulNodeBuilder "Div" arithmetic DivNode DivNodeBuilder "Neg" neg NegNode NegNodeBuilder "Relu" relu ReluNode ReluNodeBuilder "Equal" comparison EqualNode EqualNodeBuilder }
    Ok(())
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    let names = ["a", "", "x_1", "\u{65e5}/b:0", "in put"];
    let dts = [DType::F32, DType::I64, DType::Bool];
    for n in names { for d in dts { let n = || n.to_string();
        for r in [0usize, 1, 2, 4, 7] { v.push(Op::InT(n(), r, d)); v.push(Op::OutT(n(), r, d)); }
        for s in [vec![], vec![1], vec![0, 3], vec![2, 1, 5], vec![usize::MAX]] { v.push(Op::InTs(n(), s.clone(), d)); v.push(Op::InSt(n(), s, d)); }
        v.push(Op::InS(n(), d)); v.push(Op::InSc(n(), d)); v.push(Op::OutS(n(), d)); v.push(Op::OutSc(n(), d));
    } for r in [0usize, 1, 2, 4, 9] { v.push(Op::InSh(n.into(), r)); v.push(Op::OutSh(n.into(), r)); } for c in [0i64, 1, -1, i64::MIN, i64::MAX, 256] { v.push(Op::InC(n.into(), c)); } }
    v
}
fn small() -> Vec<Op> { let n = |s: &str| s.to_string(); vec![Op::InT(n("a"), 2, DType::F32), Op::InTs(n("b"), vec![2, 3], DType::I64), Op::InSt(n("w"), vec![4], DType::F32), Op::InS(n("s"), DType::F64), Op::InSc(n("t"), DType::Bool), Op::InSh(n("h"), 3), Op::InC(n("c"), -5), Op::InC(n("a"), 9), Op::OutT(n("y"), 4, DType::F16), Op::OutS(n("a"), DType::I32), Op::OutSc(n("z"), DType::U8), Op::OutSh(n("o"), 2)] }

/// The configuration part of a node's debug text.
fn config_of(dbg: &str) -> Option<String> {
    let ls: Vec<&str> = dbg.lines().collect();
    let k = ls.iter().position(|l| l.starts_with("        config: "))?;
    let end = (k..ls.len()).find(|i| *i > k && (ls[*i].starts_with("        ") && !ls[*i].starts_with("         ")) || *i > k && ls[*i] == "    },")?;
    let one = ls[k].ends_with(',') && !ls[k].ends_with("{,");
    let mut out: Vec<String> = if one { vec![ls[k].to_string()] } else { ls[k..=end].iter().map(|s| s.to_string()).collect() };
    out[0] = out[0].replacen("config: ", "", 1);
    let n = out.len() - 1;
    if out[n].ends_with(',') { out[n].pop(); }
    Some(out.join("\n"))
}
fn node_names(n: &Node) -> (String, String) {
    let d = format!("{n:?}");
    let variant: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    let st: String = d[variant.len()..].trim_start_matches('(').chars().take_while(|c| c.is_alphanumeric()).collect();
    (variant, st)
}
fn graph_pages(g: &OnnxGraph, bad: &mut Vec<String>, n: &mut u64) {
    for node in &g.nodes {
        *n += 1;
        let (variant, st) = node_names(node);
        let op = st.strip_suffix("Node").unwrap_or(&st).to_string();
        let want = page(&op, node.name(), node.inputs(), node.outputs(), config_of(&format!("{node:#?}")));
        let shown = node.to_string();
        if let Err(e) = same_page(shown, want) { bad.push(format!("{variant} {:?}: {e}", node.name())); }
        for (_, s) in subgraphs(node) { graph_pages(s, bad, n); }
    }
}

pub fn c25() -> i32 {
    let mut run = Run::new("C25");
    std::panic::set_hook(Box::new(|_| {}));
    let al = alphabet(); let sm = small();
    let mut seqs: Vec<(Vec<Op>, bool)> = vec![(vec![], true)];
    for a in &al { seqs.push((vec![a.clone()], true)); for b in &al { seqs.push((vec![a.clone(), b.clone()], false)); } }
    let depth = if thorough() { 6 } else { 4 };
    for k in 1..=depth { for s in irmc::util::seqs(sm.len(), k) { if s.len() == k { seqs.push((s.iter().map(|i| sm[*i].clone()).collect(), k <= 3)); } } }
    let names = ["n1", "", "a \"b\"", "\u{65e5}\n", "Add"];
    let res = par(&seqs, |(s, full)| {
        if s.len() <= 1 { for n in names { all_forms(s, n, true).map_err(|e| format!("node name {n:?}: {e}"))?; } Ok(names.len() as u64 * 10) } else { all_forms(s, "node", *full) }
    });
    for ((s, _), r) in seqs.iter().zip(res) {
        run.states += 1; run.transitions += s.len() as u64 + 1;
        match r { Ok(n) => run.validated += n, Err(e) => run.fail(&format!("build/{s:?}"), e) }
        if run.states % 20011 == 7 { run.sample(|| format!("{s:?}: built and displayed as put in")); }
    }
    run.count("builder_sequences", seqs.len() as u64);
    irmc::quiet();
    let cases: Vec<_> = crate::fams::families().into_iter().filter(|c| thorough() || c.lvl == 0).collect();
    let res = par(&cases, |c| { let mut bad = vec![]; let mut n = 0; for s in [false, true] { if let Ok(g) = import(&c.model, s) { graph_pages(&g, &mut bad, &mut n); } } (bad, n) });
    let mut shown = 0;
    for (c, (bad, n)) in cases.iter().zip(res) { run.states += 1; run.transitions += n; run.validated += n; shown += n; if !bad.is_empty() { run.fail(&format!("display/{}", c.name), bad[0].clone()); } }
    run.count("imported_nodes_displayed", shown);
    run.finish()
}
