//! Judging one model: import it, execute the imported graph, compare with the reference evaluator.
use crate::{guarded, import, interp, Fail};
use interp::{Env, X};
use onnx_ir::ir::{ArgType, Node};
use onnx_ir::OnnxGraph;
use vcore::proto::Model;
use vcore::refi::E;
pub use vcore::judge::{brief, reference, runtime};
use vcore::tensor::*;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    /// All defined valuations agree (how many were compared).
    Same(usize),
    Refused(String),
    /// The reference assigns no meaning to the model on any valuation.
    Undef(String),
    /// Outside what the interpreter or reference can evaluate.
    Unsup(String),
    Differ(String),
    /// The imported graph is broken in itself.
    Bad(String),
}
pub fn bind(g: &OnnxGraph, m: &Model, vals: &[T]) -> Result<Env, String> {
    if g.inputs.len() != runtime(m).len() { return Err(format!("{} graph inputs instead of {}", g.inputs.len(), runtime(m).len())); }
    Ok(g.inputs.iter().zip(vals).map(|(a, t)| (a.name.clone(), t.clone())).collect())
}
pub fn run(g: &OnnxGraph, m: &Model, vals: &[T]) -> Result<Result<(Vec<T>, Env), X>, Fail> {
    guarded(|| { let e = bind(g, m, vals)?; Ok(interp::eval(g, &e)) })
}
/// The outputs against the reference. `Ok(n)`: n valuations compared.
pub fn compare(g: &OnnxGraph, m: &Model, vals: &[Vec<T>], tol: f64) -> V {
    let mut n = 0;
    let mut und = String::new();
    for (k, v) in vals.iter().enumerate() {
        let want = match reference(m, v) { Ok(w) => w, Err(E::Undef(e)) => { und = e; continue; } Err(E::Unsup(e)) => return V::Unsup(format!("reference: {e}")) };
        let got = match run(g, m, v) { Ok(Ok(r)) => r.0, Ok(Err(X::Unsup(e))) => return V::Unsup(e), Ok(Err(X::Bad(e))) => return V::Bad(e), Ok(Err(X::Undef(e))) => return V::Differ(format!("valuation {k}: the model is defined, the imported graph is not: {e}")), Err(f) => return V::Bad(format!("valuation {k}: {}", f.text())) };
        if got.len() != want.len() { return V::Differ(format!("{} outputs instead of {}", got.len(), want.len())); }
        for (j, (a, b)) in got.iter().zip(&want).enumerate() {
            if !a.close(b, tol) { return V::Differ(format!("valuation {k}, output {j}: imported graph gives {}, the model means {}", brief(a), brief(b))); }
        }
        n += 1;
    }
    if n == 0 { V::Undef(und) } else { V::Same(n) }
}
pub fn judge(m: &Model, simplify: bool, vals: &[Vec<T>], tol: f64) -> (V, Option<OnnxGraph>) {
    match import(m, simplify) { Err(f) => (V::Refused(f.text()), None), Ok(g) => (compare(&g, m, vals, tol), Some(g)) }
}
pub fn subgraphs(n: &Node) -> Vec<(&'static str, &OnnxGraph)> {
    match n { Node::If(q) => vec![("then", &q.config.then_branch), ("else", &q.config.else_branch)], Node::Loop(q) => vec![("body", &q.config.body)], Node::Scan(q) => vec![("body", &q.config.body)], _ => vec![] }
}
/// Does a value contradict the argument's stated type?
pub fn contradicts(ty: &ArgType, t: &T) -> Option<String> {
    let want = match ty { ArgType::Shape(_) => Some(DT::I64), _ => interp::dt(ty.elem_type()) };
    if want != Some(t.dt) { return Some(format!("stated element type {}, value {}", want.map(|d| d.name()).unwrap_or("?"), t.dt.name())); }
    match ty {
        ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => if t.len() != 1 || t.rank() > 1 { return Some(format!("stated a scalar, value has shape {:?}", t.shape)); },
        ArgType::Shape(r) => if t.shape != [*r] { return Some(format!("stated a shape vector of length {r}, value has shape {:?}", t.shape)); },
        ArgType::Tensor(tt) => {
            if tt.rank != t.rank() { return Some(format!("stated rank {}, value has shape {:?}", tt.rank, t.shape)); }
            if let Some(s) = &tt.static_shape {
                if s.len() != t.rank() || s.iter().zip(&t.shape).any(|(a, b)| a.map(|a| a != *b).unwrap_or(false)) { return Some(format!("stated shape {s:?}, value has shape {:?}", t.shape)); }
            }
        }
    }
    None
}
/// C04: every stated type of every top-level value against one execution.
pub fn types(g: &OnnxGraph, env: &Env) -> Vec<String> {
    let mut bad = vec![];
    for n in &g.nodes { for o in n.outputs() { if let Some(t) = env.get(&o.name) { if let Some(e) = contradicts(&o.ty, t) { bad.push(format!("{} output '{}': {e}", n.name(), o.name)); } } } }
    for n in &g.nodes { for o in n.inputs() { if let Some(t) = env.get(&o.name) { if let Some(e) = contradicts(&o.ty, t) { bad.push(format!("{} input '{}': {e}", n.name(), o.name)); } } else if let Some(d) = o.value() { if let Ok(t) = interp::td(&d) { if let Some(e) = contradicts(&o.ty, &t) { bad.push(format!("{} constant input '{}': {e}", n.name(), o.name)); } } } } }
    for o in &g.outputs { if let Some(t) = env.get(&o.name) { if let Some(e) = contradicts(&o.ty, t) { bad.push(format!("graph output '{}': {e}", o.name)); } } }
    bad
}

/// C03: the graph is well formed and has the model's interface.
pub fn wf(g: &OnnxGraph, m: &Model) -> Vec<String> {
    let mut bad = vec![];
    let want = runtime(m);
    if g.inputs.len() != want.len() { bad.push(format!("{} inputs instead of {}", g.inputs.len(), want.len())); }
    for (k, (a, w)) in g.inputs.iter().zip(&want).enumerate() {
        if interp::dt(a.ty.elem_type()).map(|d| d.onnx()) != Some(w.dt) { bad.push(format!("input {k} ({}) has element type {:?}", w.name, a.ty.elem_type())); }
        if let Some(s) = &w.shape { if a.ty.is_tensor() && a.ty.rank() != s.len() { bad.push(format!("input {k} ({}) has rank {}", w.name, a.ty.rank())); } }
        if a.is_constant() || a.is_static() || a.is_optional() { bad.push(format!("input {k} ({}) is {:?}", w.name, a.value_source)); }
    }
    if g.outputs.len() != m.graph.outputs.len() { bad.push(format!("{} outputs instead of {}", g.outputs.len(), m.graph.outputs.len())); }
    scope(g, &mut Default::default(), &mut Default::default(), &mut bad, "");
    bad
}
type Names = std::collections::HashSet<String>;
fn scope(g: &OnnxGraph, outer: &mut Names, nodes: &mut Names, bad: &mut Vec<String>, at: &str) {
    let mut seen = Names::new(); // defined in this graph
    for i in &g.inputs { if i.name.is_empty() { bad.push(format!("{at}an input has no name")); } if !seen.insert(i.name.clone()) { bad.push(format!("{at}two inputs named '{}'", i.name)); } }
    for n in &g.nodes {
        if n.name().is_empty() { bad.push(format!("{at}a node has no name")); }
        if !nodes.insert(format!("{at}{}", n.name())) { bad.push(format!("{at}two nodes named '{}'", n.name())); }
        for (k, a) in n.inputs().iter().enumerate() {
            if a.is_optional() || a.name.is_empty() && a.is_dynamic() { continue; }
            // the names a loop provides to its own body are listed among what the body refers to
            if interp::provided(n, &a.name) { continue; }
            if a.is_static() { if a.value().is_none() { bad.push(format!("{at}{} input {k}: static without data", n.name())); } continue; }
            if !seen.contains(&a.name) && !outer.contains(&a.name) { bad.push(format!("{at}{} input {k} reads '{}', which nothing before it defines", n.name(), a.name)); }
            if a.is_constant() && a.value().is_none() && !outer.contains(&a.name) { bad.push(format!("{at}{} input {k}: constant '{}' without data", n.name(), a.name)); }
        }
        for (what, b) in subgraphs(n) {
            // the bodies see what is defined so far
            let mut inner: Names = outer.union(&seen).cloned().collect();
            let refs = match n { Node::If(q) => q.config.scope_ref_names.clone(), Node::Loop(q) => q.config.scope_ref_names.clone(), Node::Scan(q) => q.config.scope_ref_names.clone(), _ => vec![] };
            inner.extend(refs);
            scope(b, &mut inner, &mut Names::new(), bad, &format!("{at}{}.{what}: ", n.name()));
        }
        for (k, o) in n.outputs().iter().enumerate() {
            if o.name.is_empty() { continue; }
            if !seen.insert(o.name.clone()) { bad.push(format!("{at}{} output {k}: '{}' is defined twice", n.name(), o.name)); }
        }
    }
    for (k, o) in g.outputs.iter().enumerate() { if !seen.contains(&o.name) && !(at.len() > 0 && outer.contains(&o.name)) { bad.push(format!("{at}graph output {k} '{}' is neither an input nor the result of a node", o.name)); } }
}
