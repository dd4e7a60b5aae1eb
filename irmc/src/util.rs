use crate::{guarded, interp, Fail};
use onnx_ir::ir::Node;
use onnx_ir::{OnnxGraph, OnnxGraphBuilder};
use std::path::Path;
use vcore::tensor::*;

pub use vcore::par::{par, Scratch};
pub fn import_file(p: &Path, simplify: bool) -> Result<OnnxGraph, Fail> {
    guarded(|| OnnxGraphBuilder::new().simplify(simplify).parse_file(p).map_err(|e| e.to_string()))
}
/// The constant fed to the given operand of the first node that is not a Constant.
pub fn operand(g: &OnnxGraph, k: usize) -> Result<T, Fail> {
    guarded(|| {
        let n = g.nodes.iter().find(|n| !matches!(n, Node::Constant(_))).ok_or("no node")?;
        let a = n.inputs().get(k).ok_or("no operand")?;
        let d = match a.value() { Some(d) => d, None => {
            let c = g.nodes.iter().find(|c| c.outputs().first().map(|o| o.name == a.name).unwrap_or(false)).ok_or(format!("operand '{}' is not constant", a.name))?;
            c.inputs().first().and_then(|a| a.value()).or_else(|| c.outputs()[0].value()).ok_or("constant has no data")?
        } };
        interp::td(&d)
    })
}
/// All sequences over `0..k` of length `n`.
pub fn seqs(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|p: Vec<usize>| (0..k).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect(); }
    v
}
/// All vectors drawing position i from `choices[i]`.
pub fn product<C: Clone>(choices: &[Vec<C>]) -> Vec<Vec<C>> {
    let mut v: Vec<Vec<C>> = vec![vec![]];
    for c in choices { v = v.into_iter().flat_map(|p| c.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q }).collect::<Vec<_>>()).collect(); }
    v
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out.sort();
    out
}
