//! All small wirings: every sequence of nodes over the values available so far, every list of graph
//! outputs, initializers used, unused, or also listed as inputs, omitted optional operands and outputs.
use crate::fam::{mix, vary, Case};
use crate::proto::*;
use crate::tensor::*;

#[derive(Clone)]
struct V { n: String, ok: bool }
struct G { nodes: Vec<Node>, vals: Vec<V>, tag: String }
fn steps(g: &G) -> Vec<(String, Node, usize)> {
    // [2, 2] float values can be operands; a mask cannot
    let mut o = vec![];
    let k = g.nodes.len();
    let use_: Vec<&V> = g.vals.iter().filter(|v| v.ok).collect();
    let (a, b) = (format!("t{k}"), format!("t{k}b"));
    for (i, v) in use_.iter().enumerate() {
        for op in ["Relu", "Identity"] { o.push((format!("{op}{i}"), Node::new(op, &[&v.n], &[&a]), 1)); }
        for (j, w) in use_.iter().enumerate() { o.push((format!("Sub{i}{j}"), Node::new("Sub", &[&v.n, &w.n], &[&a]), 1)); }
        o.push((format!("Cast{i}"), Node::new("Cast", &[&v.n], &[&a]).i("to", 1), 1));
        o.push((format!("Split{i}"), Node::new("Split", &[&v.n], &[&a, &b]).i("axis", 1), 2));
        o.push((format!("Drop{i}"), Node::new("Dropout", &[&v.n, "ra"], &[&a]), 1));
        o.push((format!("Dropm{i}"), Node::new("Dropout", &[&v.n, "ra"], &[&a, &b]), 3));
        o.push((format!("Clip{i}"), Node::new("Clip", &[&v.n, "", "hi"], &[&a]), 1));
    }
    o.push(("Const".into(), Node::new("Constant", &[], &[&a]).attr("value", Attr::T(TensorP::raw("", mix(DT::F32, &[2, 1])))), 1));
    o
}
/// How the initializer `w` and an unused input `z` appear in the header.
const HEADS: [&str; 5] = ["plain", "w listed first", "w listed last", "unused input", "unused first, w unused"];
fn emit(g: &G, outs: &[usize], head: usize, f: &mut dyn FnMut(Case)) {
    let mut m = Graph { name: "g".into(), nodes: g.nodes.clone(), ..Default::default() };
    for (j, n) in m.nodes.iter_mut().enumerate() { n.name = format!("n{j}"); }
    let x = mix(DT::F32, &[2, 2]); let y = T::f32(&[2, 2], &[0.75, -1.25, 2.0, 0.5]); let z = T::f32(&[3], &[9.0, 8.0, 7.0]);
    let mut vals = vec![];
    let w = T::f32(&[2, 2], &[1.5, -0.5, 0.25, 3.0]);
    let mut input = |m: &mut Graph, n: &str, t: &T| { m.inputs.push(VI::known(n, DT::F32, &t.shape)); vals.push(t.clone()); };
    if head == 1 { input(&mut m, "w", &w); }
    if head == 4 { input(&mut m, "z", &z); }
    input(&mut m, "x", &x);
    if head == 3 { input(&mut m, "z", &z); }
    input(&mut m, "y", &y);
    if head == 2 { input(&mut m, "w", &w); }
    m.inits.push(TensorP::raw("w", w.clone()));
    m.inits.push(TensorP::raw("hi", T::f32s(1.0))); m.inits.push(TensorP::raw("ra", T::f32s(0.25)));
    for o in outs { m.outputs.push(VI { name: g.vals[*o].n.clone(), dt: if g.vals[*o].ok { 1 } else { 9 }, shape: Option::None }); }
    // a listed initializer is not a runtime input
    let listed: Vec<bool> = m.inputs.iter().map(|i| i.name == "w").collect();
    let runtime: Vec<T> = vals.iter().zip(&listed).filter(|(_, l)| !**l).map(|(v, _)| v.clone()).collect();
    let other = runtime.iter().map(vary).collect();
    f(Case { name: format!("topo/{}/{}/out{outs:?}", g.tag, HEADS[head]).replace(' ', "_"), group: "topo", model: Model::new(17, m), vals: vec![runtime, other], lvl: 1, may_refuse: true, tol: 0.0 });
}
fn go(g: &mut G, depth: usize, deep: bool, f: &mut dyn FnMut(Case)) {
    if !g.nodes.is_empty() {
        let n = g.vals.len();
        let last = n - 1;
        let full = g.nodes.len() + 1 <= if deep { 3 } else { 2 };
        for head in 0..HEADS.len() {
            if head > 0 && g.nodes.len() > 1 && !(deep && full) { continue; }
            emit(g, &[last], head, f);
            if !deep && g.nodes.len() > 2 { continue; }
            if full { for i in 0..n { if i != last { emit(g, &[i], head, f); } for j in 0..n { emit(g, &[i, j], head, f); } } emit(g, &(0..n).collect::<Vec<_>>(), head, f); emit(g, &(0..n).rev().collect::<Vec<_>>(), head, f); }
            else { emit(g, &(0..n).rev().collect::<Vec<_>>(), head, f); emit(g, &[last, 0, last], head, f); }
        }
    }
    if depth == 0 { return; }
    for (tag, node, nout) in steps(g) {
        // the omitted-output forms of a node with two outputs
        let forms: Vec<(Node, Vec<(String, bool)>)> = match nout {
            1 => vec![(node.clone(), vec![(node.outputs[0].clone(), true)])],
            k => {
                let (a, b) = (node.outputs[0].clone(), node.outputs[1].clone());
                let mut v = vec![(node.clone(), vec![(a.clone(), true), (b.clone(), k == 2)])];
                let mut n2 = node.clone(); n2.outputs[1] = String::new(); v.push((n2, vec![(a, true)]));
                if k == 2 { let mut n3 = node.clone(); n3.outputs[0] = String::new(); v.push((n3, vec![(b, true)])); }
                v
            }
        };
        for (k, (nd, outs)) in forms.into_iter().enumerate() {
            let (was, base) = (g.tag.len(), g.vals.len());
            if was > 0 { g.tag.push('>'); }
            g.tag += &format!("{tag}{}", ["", "-", "_"][k]);
            g.nodes.push(nd);
            for (n, ok) in outs { g.vals.push(V { n, ok }); }
            go(g, depth - 1, deep, f);
            g.nodes.pop(); g.vals.truncate(base); g.tag.truncate(was);
        }
    }
}
pub fn wirings(deep: bool, f: &mut dyn FnMut(Case)) {
    let mut g = G { nodes: vec![], vals: ["x", "y", "w"].iter().map(|n| V { n: n.to_string(), ok: true }).collect(), tag: String::new() };
    go(&mut g, 3, deep, f);
}
