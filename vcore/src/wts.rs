//! Programs for the weights file: every structurally different use of an operator with constant
//! operands, placed at the top level, repeated, shared, in branches and bodies, nested.
use crate::fam::{vary, Case};
use crate::proto::*;
use crate::tensor::*;
use std::collections::BTreeSet;

/// One case of every structural class: operators, attribute names, which operands are absent, constant or
/// supplied at run time, their element types and ranks.
pub fn classes(all: Vec<Case>, any: bool) -> Vec<Case> {
    let mut seen = BTreeSet::new();
    all.into_iter().filter(|c| {
        let g = &c.model.graph;
        if c.lvl != 0 || !any && (g.inits.is_empty() && g.nodes.iter().all(|n| n.op != "Constant")) { return false; }
        let kind = |n: &String| {
            if n.is_empty() { return "-".to_string(); }
            let of = |t: &T, k: &str| format!("{k}{}{}", t.dt.name(), t.shape.len());
            if let Some(i) = g.inits.iter().find(|i| i.name == *n) { return of(&i.t, if g.inputs.iter().any(|v| v.name == *n) { "d" } else { "i" }); }
            if let Some(i) = g.inputs.iter().position(|i| i.name == *n) { return of(&c.vals[0][i], "r"); }
            "n".into()
        };
        let key: Vec<String> = g.nodes.iter().map(|n| { let mut a: Vec<&str> = n.attrs.iter().map(|a| a.0.as_str()).collect(); a.sort(); format!("{}({})[{}]->{}", n.op, n.inputs.iter().map(kind).collect::<Vec<_>>().join(","), a.join(","), n.outputs.iter().filter(|o| !o.is_empty()).count()) }).collect();
        seen.insert(key.join(";"))
    }).collect()
}
/// A renamed copy of the program: its nodes, constants (changed if asked), inputs, outputs.
struct Part { nodes: Vec<Node>, inits: Vec<TensorP>, inputs: Vec<(VI, usize)>, outs: Vec<VI> }
fn part(c: &Case, tag: &str, change: usize, share: Option<&str>) -> Part {
    let g = &c.model.graph;
    let isin = |n: &str| g.inputs.iter().any(|i| i.name == n) && !g.inits.iter().any(|i| i.name == n);
    let isinit = |n: &str| g.inits.iter().any(|i| i.name == n);
    let nm = |n: &String| if n.is_empty() { String::new() } else if isin(n) { format!("in_{n}") } else if isinit(n) { format!("{}{n}", share.unwrap_or(tag)) } else { format!("{tag}{n}") };
    let nodes = g.nodes.iter().map(|n| { let mut m = n.clone(); m.name = if n.name.is_empty() { String::new() } else { format!("{tag}{}", n.name) }; for x in m.inputs.iter_mut().chain(m.outputs.iter_mut()) { *x = nm(x); } m }).collect();
    let inits = if share.is_some_and(|s| s != tag) { vec![] } else { g.inits.iter().map(|i| { let mut t = i.t.clone(); if t.dt.is_float() && !g.nodes.iter().any(|n| n.op == "Resize") { for _ in 0..change { t = vary(&t); } } TensorP { name: nm(&i.name), t, enc: i.enc.clone() } }).collect() };
    let inputs = g.inputs.iter().enumerate().filter(|(_, i)| isin(&i.name)).map(|(k, i)| { let mut v = i.clone(); v.name = nm(&i.name); (v, k) }).collect();
    let outs = g.outputs.iter().map(|o| { let mut v = o.clone(); v.name = nm(&o.name); v }).collect();
    Part { nodes, inits, inputs, outs }
}
pub const PLACES: [&str; 10] = ["once", "two", "shared", "branches", "captured", "nested", "loop", "loop-captured", "scan", "mixed"];
fn graph(nodes: Vec<Node>, inits: Vec<TensorP>, inputs: Vec<VI>, outputs: Vec<VI>) -> Graph { Graph { name: "body".into(), nodes, inits, inputs, outputs, ..Default::default() } }
/// The program with its operators at the given place; `None` where the place does not apply.
pub fn place(c: &Case, how: &str) -> Option<Case> {
    let mut r = c.clone();
    r.name = format!("{}@{how}", c.name);
    r.may_refuse = true;
    let mut g = Graph { name: "g".into(), ..Default::default() };
    let a = part(c, "a_", 0, None);
    // graph inputs, values
    g.inputs = a.inputs.iter().map(|i| i.0.clone()).collect();
    let mut vals: Vec<Vec<T>> = c.vals.iter().map(|v| a.inputs.iter().map(|i| v[i.1].clone()).collect()).collect();
    let out = |k: usize, v: &VI| VI { name: format!("y{k}"), ..v.clone() };
    let first = a.outs.first()?.clone();
    match how {
        "once" => { g.nodes = a.nodes; g.inits = a.inits; g.outputs = a.outs; }
        "two" => { let b = part(c, "b_", 1, None); for p in [a, b] { g.nodes.extend(p.nodes); g.inits.extend(p.inits); g.outputs.extend(p.outs); } }
        "shared" => { let a = part(c, "a_", 0, Some("a_")); let b = part(c, "b_", 0, Some("a_")); for p in [a, b] { g.nodes.extend(p.nodes); g.inits.extend(p.inits); g.outputs.extend(p.outs); } }
        "branches" | "captured" | "nested" | "mixed" => {
            let b = part(c, "b_", 1, None);
            g.inputs.push(VI::known("flag", DT::Bool, &[]));
            vals = vals.into_iter().flat_map(|v| [true, false].map(|f| { let mut v = v.clone(); v.push(T::bool(&[], &[f])); v })).collect();
            let (bo, ao) = (b.outs.clone(), a.outs.clone());
            let names: Vec<String> = (0..ao.len()).map(|k| format!("y{k}")).collect();
            let outs: Vec<VI> = ao.iter().enumerate().map(|(k, v)| out(k, v)).collect();
            let strs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let iff = |th: Graph, el: Graph, outs: &[&str]| Node::new("If", &["flag"], outs).attr("then_branch", Attr::G(th)).attr("else_branch", Attr::G(el));
            match how {
                "branches" => g.nodes.push(iff(graph(a.nodes, a.inits, vec![], ao), graph(b.nodes, b.inits, vec![], bo), &strs)),
                "captured" => { g.inits.extend(a.inits); g.inits.extend(b.inits); g.nodes.push(iff(graph(a.nodes, vec![], vec![], ao), graph(b.nodes, vec![], vec![], bo), &strs)); }
                "mixed" => {
                    // the same constants inside and outside
                    let t = part(c, "t_", 0, Some("a_"));
                    g.inits.extend(a.inits); g.nodes.extend(t.nodes); g.outputs.extend(t.outs);
                    g.nodes.push(iff(graph(a.nodes, vec![], vec![], ao), graph(b.nodes, b.inits, vec![], bo), &strs));
                }
                _ => {
                    let (d, e, t) = (part(c, "d_", 2, None), part(c, "e_", 3, None), part(c, "t_", 4, None));
                    let inner: Vec<String> = (0..ao.len()).map(|k| format!("i{k}")).collect();
                    let is: Vec<&str> = inner.iter().map(|s| s.as_str()).collect();
                    let io: Vec<VI> = ao.iter().zip(&inner).map(|(v, n)| VI { name: n.clone(), ..v.clone() }).collect();
                    let eo = e.outs.clone(); let d_outs = d.outs.clone();
                    let th = graph(vec![iff(graph(a.nodes, a.inits, vec![], ao), graph(d.nodes, d.inits, vec![], d_outs), &is)], vec![], vec![], io);
                    g.nodes.push(iff(th, graph(e.nodes, e.inits, vec![], eo), &strs));
                    g.nodes.extend(t.nodes); g.inits.extend(t.inits); g.outputs.extend(t.outs);
                    g.nodes.extend(b.nodes); g.inits.extend(b.inits); g.outputs.extend(b.outs);
                }
            }
            g.outputs.extend(outs);
        }
        "loop" | "loop-captured" => {
            // the state takes the first result
            let s0 = crate::judge::reference(&c.model, &c.vals[0]).ok()?.into_iter().next()?;
            let dt = s0.dt;
            let init = T { buf: match &s0.buf { Buf::F(v) => Buf::F(vec![0.0; v.len()]), Buf::I(v) => Buf::I(vec![0; v.len()]) }, ..s0.clone() };
            g.inputs.push(VI::known("s0", dt, &s0.shape)); for v in &mut vals { v.push(init.clone()); }
            g.inits.push(TensorP::raw("m", T::i64s(2)));
            let mut nodes = a.nodes; nodes.push(Node::new("Identity", &["cin"], &["cout"]));
            let (bi, gi) = if how == "loop" { (a.inits, vec![]) } else { (vec![], a.inits) };
            g.inits.extend(gi);
            let bd = graph(nodes, bi, vec![VI::known("it", DT::I64, &[]), VI::known("cin", DT::Bool, &[]), VI::known("s", dt, &s0.shape)], vec![VI { name: "cout".into(), dt: 9, shape: None }, first.clone()]);
            g.nodes.push(Node::new("Loop", &["m", "", "s0"], &["y0"]).attr("body", Attr::G(bd)));
            g.outputs.push(out(0, &first));
        }
        _ => {
            let s0 = crate::judge::reference(&c.model, &c.vals[0]).ok()?.into_iter().next()?;
            g.inputs.push(VI::known("seq", DT::F32, &[2, 1])); for v in &mut vals { v.push(T::f32(&[2, 1], &[1.0, 2.0])); }
            g.inputs.push(VI::known("st", DT::F32, &[1])); for v in &mut vals { v.push(T::f32(&[1], &[0.5])); }
            let mut nodes = a.nodes; nodes.push(Node::new("Add", &["sin", "e"], &["sout"]));
            let bd = graph(nodes, a.inits, vec![VI::known("sin", DT::F32, &[1]), VI::known("e", DT::F32, &[1])], vec![VI { name: "sout".into(), dt: 1, shape: None }, first.clone()]);
            g.nodes.push(Node::new("Scan", &["st", "seq"], &["sf", "y0"]).attr("body", Attr::G(bd)).attr("num_scan_inputs", Attr::I(1)));
            g.outputs.push(VI { name: "sf".into(), dt: 1, shape: None });
            g.outputs.push(VI { name: "y0".into(), dt: first.dt, shape: None });
        }
    }
    r.model.graph = g; r.vals = vals;
    Some(r)
}
/// Two programs side by side, the first repeated after the second.
pub fn pair(c: &Case, d: &Case) -> Option<Case> {
    if c.model.opset != d.model.opset { return None; }
    let mut r = c.clone();
    r.name = format!("{}&{}", c.name, d.name);
    r.may_refuse = true; r.tol = c.tol.max(d.tol);
    let mut g = Graph { name: "g".into(), ..Default::default() };
    let mut row: Vec<T> = vec![];
    for (k, (p, cc)) in [(part(c, "a_", 0, None), c), (part(d, "b_", 0, None), d), (part(c, "c_", 2, None), c)].into_iter().enumerate() {
        for n in p.nodes { let mut n = n; for x in n.inputs.iter_mut() { if x.starts_with("in_") { *x = format!("{x}_{k}"); } } g.nodes.push(n); }
        g.inits.extend(p.inits);
        for (v, j) in p.inputs { g.inputs.push(VI { name: format!("{}_{k}", v.name), ..v }); row.push(cc.vals[0][j].clone()); }
        g.outputs.extend(p.outs);
    }
    r.model.graph = g; r.vals = vec![row];
    Some(r)
}
