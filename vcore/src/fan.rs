//! Fan-out: the cases of the operator families with further uses of every operand and result, placed
//! before, after, or as a second copy of the operator itself.
use crate::fam::Case;
use crate::proto::*;
use crate::tensor::*;
pub const MODES: [&str; 5] = ["before", "after", "twice", "results", "both"];
fn user(dt: i32, from: &str, to: &str) -> (Node, i32) {
    match DT::from_onnx(dt) {
        Some(DT::Bool) => (Node::new("Not", &[from], &[to]), dt),
        Some(d) if d.is_float() || d.is_signed() => (Node::new("Neg", &[from], &[to]), dt),
        _ => (Node::new("Equal", &[from, from], &[to]), 9),
    }
}
pub fn fan(c: &Case, mode: &str) -> Option<Case> {
    let mut c = c.clone();
    c.name = format!("{}+{mode}", c.name);
    let g = &mut c.model.graph;
    let rt: Vec<(String, i32)> = g.inputs.iter().filter(|i| !g.inits.iter().any(|t| t.name == i.name)).map(|i| (i.name.clone(), i.dt)).collect();
    let mut add = |g: &mut Graph, at_start: bool, list: &[(String, i32)], tag: &str| {
        let mut new = vec![];
        for (k, (n, dt)) in list.iter().enumerate() {
            let o = format!("fan_{tag}{k}");
            let (mut node, odt) = user(*dt, n, &o);
            node.name = format!("fan_n{tag}{k}");
            new.push(node);
            g.outputs.push(VI { name: o, dt: odt, shape: None });
        }
        if at_start { new.append(&mut g.nodes); g.nodes = new; } else { g.nodes.extend(new); }
    };
    match mode {
        "before" => { if rt.is_empty() { return None; } add(g, true, &rt, "b") }
        "after" => { if rt.is_empty() { return None; } add(g, false, &rt, "a") }
        "both" => { if rt.is_empty() { return None; } add(g, true, &rt, "b"); add(g, false, &rt, "a") }
        "results" => { let outs: Vec<(String, i32)> = g.outputs.iter().map(|o| (o.name.clone(), o.dt)).collect(); if outs.iter().any(|o| o.1 == 0) { return None; } add(g, false, &outs, "r"); add(g, false, &outs, "s") }
        _ => {
            let outs: Vec<(String, VI)> = g.outputs.iter().map(|o| (o.name.clone(), o.clone())).collect();
            let mut new = vec![];
            let produced: Vec<String> = g.nodes.iter().flat_map(|n| n.outputs.clone()).filter(|o| !o.is_empty()).collect();
            for n in &g.nodes {
                let mut m = n.clone();
                m.name = if m.name.is_empty() { String::new() } else { format!("{}_dup", m.name) };
                for i in m.inputs.iter_mut().chain(m.outputs.iter_mut()) { if produced.contains(i) { *i = format!("{i}_dup"); } }
                new.push(m);
            }
            g.nodes.extend(new);
            for (n, mut v) in outs { if produced.contains(&n) { v.name = format!("{n}_dup"); g.outputs.push(v); } }
        }
    }
    Some(c)
}
