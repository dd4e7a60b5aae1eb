//! The reference meaning of a model, shared by all checks.
use crate::proto::{Model, VI};
use crate::refi::{eval_graph, E};
use crate::tensor::*;
use std::collections::HashMap;
/// The inputs that are not initializers.
pub fn runtime(m: &Model) -> Vec<&VI> { m.graph.inputs.iter().filter(|i| !m.graph.inits.iter().any(|t| t.name == i.name)).collect() }
pub fn reference(m: &Model, vals: &[T]) -> Result<Vec<T>, E> {
    let env: HashMap<String, T> = runtime(m).into_iter().zip(vals).map(|(v, t)| (v.name.clone(), t.clone())).collect();
    eval_graph(&m.graph, m.opset, &env)
}
pub fn brief(t: &T) -> String {
    let v: Vec<String> = (0..t.len().min(12)).map(|i| match &t.buf { Buf::F(v) => format!("{}", v[i]), Buf::I(v) => format!("{}", v[i]) }).collect();
    format!("{}{:?}[{}{}]", t.dt.name(), t.shape, v.join(","), if t.len() > 12 { ",…" } else { "" })
}
