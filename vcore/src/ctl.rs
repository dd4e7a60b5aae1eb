//! Control flow: every combination of branch and loop bodies from a catalogue, capturing graph inputs,
//! initializers, computed values, values of enclosing bodies, with equal inner names, nested.
use crate::fam::{vary, Case};
use crate::proto::*;
use crate::tensor::*;

/// A body under construction: its nodes and initializers; `p` makes names unique where asked.
#[derive(Clone, Default)]
struct B { nodes: Vec<Node>, inits: Vec<TensorP> }
/// Expressions over the names in scope (`vs`, all f32[2]); returns the name of the result.
const EXPRS: usize = 12;
fn expr(k: usize, vs: &[&str], p: &str, b: &mut B) -> String {
    let (x, t) = (vs[0], vs[vs.len() - 1]);
    let r = format!("{p}r{}", b.nodes.len());
    match k {
        0 => b.nodes.push(Node::new("Identity", &[x], &[&r])),
        1 => b.nodes.push(Node::new("Neg", &[t], &[&r])),
        2 => b.nodes.push(Node::new("Sub", &[x, t], &[&r])),
        3 => { let u = format!("{p}u{}", b.nodes.len()); b.nodes.push(Node::new("Add", &[t, "w"], &[&u])); b.nodes.push(Node::new("Mul", &[&u, x], &[&r])); }
        4 => { let c = format!("{p}k{}", b.nodes.len()); b.inits.push(TensorP::raw(&c, T::f32(&[2], &[10.0, -20.0]))); b.nodes.push(Node::new("Sub", &[&c, x], &[&r])); }
        5 => { let c = format!("{p}k{}", b.nodes.len()); b.nodes.push(Node::new("Constant", &[], &[&c]).attr("value", Attr::T(TensorP::raw("", T::f32(&[2], &[0.5, 4.0]))))); b.nodes.push(Node::new("Add", &[&c, t], &[&r])); }
        6 => b.nodes.push(Node::new("Identity", &["w"], &[&r])),
        7 => b.nodes.push(Node::new("Sub", &[t, t], &[&r])),
        8 => { let c = format!("{p}k{}", b.nodes.len()); b.inits.push(TensorP::raw(&c, T::f32(&[1, 2], &[3.0, 5.0]))); let u = format!("{p}u{}", b.nodes.len()); b.nodes.push(Node::new("MatMul", &[&c, t], &[&u])); b.nodes.push(Node::new("Add", &[&u, x], &[&r])); }
        // inner If on a computed condition, capturing both the enclosing body's and the outer values
        9 | 10 => {
            let q = format!("{p}q{}", b.nodes.len());
            b.nodes.push(Node::new("Relu", &[x], &[&q]));
            let mut scope: Vec<&str> = vs.to_vec(); scope.push(&q);
            let (mut th, mut el) = (B::default(), B::default());
            let a = expr(if k == 9 { 2 } else { 3 }, &scope, &format!("{p}i"), &mut th);
            let c = expr(if k == 9 { 4 } else { 1 }, &scope, &format!("{p}i"), &mut el);
            b.nodes.push(Node::new("If", &["c2"], &[&r]).attr("then_branch", Attr::G(body(th, vec![], &[a]))).attr("else_branch", Attr::G(body(el, vec![], &[c]))));
        }
        // inner loop adding a captured value twice
        _ => {
            let mut lb = B::default();
            lb.nodes.push(Node::new("Add", &[&format!("{p}s"), t], &[&format!("{p}s2")]));
            lb.nodes.push(Node::new("Identity", &[&format!("{p}cin")], &[&format!("{p}cout")]));
            b.nodes.push(Node::new("Loop", &["two", "", x], &[&r]).attr("body", Attr::G(body(lb, vec![VI::known(&format!("{p}it"), DT::I64, &[]), VI::known(&format!("{p}cin"), DT::Bool, &[]), VI::known(&format!("{p}s"), DT::F32, &[2])], &[format!("{p}cout"), format!("{p}s2")]))));
        }
    }
    r
}
fn body(mut b: B, inputs: Vec<VI>, outs: &[String]) -> Graph {
    for (j, n) in b.nodes.iter_mut().enumerate() { n.name = format!("bn{j}"); }
    Graph { name: "body".into(), nodes: b.nodes, inits: b.inits, inputs, outputs: outs.iter().map(|o| VI { name: o.clone(), dt: 1, shape: Option::None }).collect(), ..Default::default() }
}
fn bool_out(g: &mut Graph, k: usize) { g.outputs[k].dt = 9; }
/// The model around the node: x, y, flags; `t` computed before, a use of `t` and of the result after.
fn wrap(name: String, pre: Vec<Node>, node: Node, nout: usize, post: usize, extra: Vec<(VI, T)>, inits: Vec<(&str, T)>, dynamic: bool) -> Case {
    let mut g = Graph { name: "g".into(), ..Default::default() };
    let x = T::f32(&[2], &[1.5, -2.5]); let y = T::f32(&[2], &[-0.5, 3.0]);
    let mut vals = vec![];
    let mut keep = vec![];
    for (n, t) in [("x", x), ("y", y)] { g.inputs.push(if dynamic { VI::dynr(n, DT::F32, 1) } else { VI::known(n, DT::F32, &[2]) }); vals.push(t); keep.push(false); }
    for (v, t) in extra { g.inputs.push(v); vals.push(t); keep.push(true); }
    g.inits.push(TensorP::raw("w", T::f32(&[2], &[0.25, 7.0])));
    g.inits.push(TensorP::raw("two", T::i64s(2)));
    for (n, t) in inits { g.inits.push(TensorP::raw(n, t)); }
    g.nodes = pre; g.nodes.push(node);
    let mut outs: Vec<String> = (0..nout).map(|k| format!("y{k}")).collect();
    match post {
        1 => { g.nodes.push(Node::new("Sub", &["y0", "t"], &["z"])); outs.push("z".into()); }
        2 => { g.nodes.push(Node::new("Add", &["y0", "y0"], &["z"])); outs = vec!["z".into()]; outs.extend((1..nout).map(|k| format!("y{k}"))); }
        3 => { outs.insert(0, "t".into()); }
        _ => {}
    }
    for o in &outs { g.outputs.push(VI { name: o.clone(), dt: 1, shape: Option::None }); }
    for (j, n) in g.nodes.iter_mut().enumerate() { n.name = format!("n{j}"); }
    // both values of every Boolean flag
    let flags: Vec<usize> = g.inputs.iter().enumerate().filter(|(_, i)| i.dt == 9).map(|(k, _)| k).collect();
    let mut all = vec![];
    for bits in 0..1usize << flags.len() { let mut v = vals.clone(); for (k, f) in flags.iter().enumerate() { v[*f] = T::bool(&vals[*f].shape, &[bits >> k & 1 == 1]); } if bits % 2 == 1 { v = v.iter().enumerate().map(|(k, t)| if keep[k] { t.clone() } else { vary(t) }).collect(); } all.push(v); }
    // every trip count
    if let Some(k) = g.inputs.iter().position(|i| i.name == "m") { all = all.into_iter().flat_map(|v| (0..=3i64).map(move |m| { let mut w = v.clone(); w[k] = T::i64s(m).with_shape(&w[k].shape); w })).collect(); }
    Case { name, group: "ctl", model: Model::new(17, g), vals: all, lvl: 0, may_refuse: true, tol: 1e-5 }
}
fn flag(n: &str) -> (VI, T) { (VI::known(n, DT::Bool, &[]), T::bool(&[], &[true])) }
pub fn control(deep: bool, f: &mut dyn FnMut(Case)) {
    let pre = || vec![Node::new("Relu", &["y"], &["t"])];
    let scope = ["x", "y", "t"];
    // ---- If: every pair of expressions, same or different inner names, how the condition is supplied
    for a in 0..EXPRS { for b in 0..EXPRS { for cond in 0..4 { for post in 0..4 { for names in 0..2 {
        if !deep && ((cond > 0) as u32 + (post > 0) as u32 + names as u32) > 1 { continue; }
        let (mut th, mut el) = (B::default(), B::default());
        let ra = expr(a, &scope, "p", &mut th); let rb = expr(b, &scope, if names == 0 { "p" } else { "e" }, &mut el);
        let mut pr = pre();
        let mut extra = vec![]; let mut inits = vec![];
        let needs2 = [a, b].iter().any(|k| *k == 9 || *k == 10);
        match cond { 0 => extra.push(flag("c")), 1 => inits.push(("c", T::bool(&[], &[true]))), 2 => inits.push(("c", T::bool(&[1], &[false]))), _ => { extra.push(flag("nc")); pr.push(Node::new("Not", &["nc"], &["c"])); } }
        if needs2 { extra.push(flag("c2")); }
        let node = Node::new("If", &["c"], &["y0"]).attr("then_branch", Attr::G(body(th, vec![], &[ra]))).attr("else_branch", Attr::G(body(el, vec![], &[rb])));
        f(wrap(format!("If/{a}-{b}/cond{cond}/post{post}/names{names}"), pr, node, 1, post, extra, inits, cond == 3));
    } } } } }
    // ---- If with two outputs: every assignment of two inner values, in both orders
    for a in 0..EXPRS { for b in 0..EXPRS { for swap in 0..4 { for post in 0..3 {
        if !deep && post > 0 && swap > 0 { continue; }
        let (mut th, mut el) = (B::default(), B::default());
        let (a1, a2) = (expr(a, &scope, "p", &mut th), expr(b, &scope, "p", &mut th));
        let (b1, b2) = (expr(b, &scope, "p", &mut el), expr(a, &scope, "p", &mut el));
        let (o1, o2) = match swap { 0 => (vec![a1, a2], vec![b1, b2]), 1 => (vec![a2, a1], vec![b1, b2]), 2 => (vec![a1.clone(), a1], vec![b2, b1]), _ => (vec![a2, a1], vec![b2.clone(), b2]) };
        let mut extra = vec![flag("c")];
        if [a, b].iter().any(|k| *k == 9 || *k == 10) { extra.push(flag("c2")); }
        let node = Node::new("If", &["c"], &["y0", "y1"]).attr("then_branch", Attr::G(body(th, vec![], &o1))).attr("else_branch", Attr::G(body(el, vec![], &o2)));
        f(wrap(format!("If2/{a}-{b}/swap{swap}/post{post}"), pre(), node, 2, post, extra, vec![], false));
    } } } }
    // ---- Loop: body expression over the state, captures, trip count, condition, scan output
    for a in 0..EXPRS { for states in 1..=2 { for scan in 0..=2 { for trip in 0..4 { for cond in 0..5 { for post in 0..4 {
        let odd = (states == 2) as u32 + (scan > 0) as u32 + (trip > 0) as u32 + (cond > 0) as u32 + (post > 0) as u32;
        if odd > if deep { 4 } else { 2 } { continue; }
        if trip == 3 && cond < 2 { continue; } // would never end
        let mut b = B::default();
        let sc: Vec<&str> = if states == 2 { vec!["sa", "sb", "t"] } else { vec!["sa", "t"] };
        let r = expr(a, &sc, "l", &mut b);
        // the second state remembers the first
        let mut outs = vec!["cond_out".to_string(), r.clone()];
        if states == 2 { b.nodes.push(Node::new("Identity", &["sa"], &["sb2"])); outs.push("sb2".into()); }
        match cond {
            0 => b.nodes.push(Node::new("Identity", &["cond_in"], &["cond_out"])),
            1 => b.inits.push(TensorP::raw("cond_out", T::bool(&[], &[true]))),
            // as long as the iteration number is small
            2 | 4 => { b.inits.push(TensorP::raw("lim", T::i64s(1))); b.nodes.push(Node::new("Less", &["it", "lim"], &["cond_out"])); }
            // on the data
            _ => { b.inits.push(TensorP::raw("lim", T::f32s(0.0))); b.inits.push(TensorP::raw("z0", T::i64s(0))); b.nodes.push(Node::new("Gather", &["sa", "z0"], &["first"]).i("axis", 0)); b.nodes.push(Node::new("Less", &["first", "lim"], &["cond_out"])); }
        }
        if scan >= 1 { b.nodes.push(Node::new("Add", &["sa", "x"], &["so"])); outs.push("so".into()); }
        if scan == 2 { b.nodes.push(Node::new("Identity", &[&r], &["so2"])); outs.push("so2".into()); }
        let mut ins = vec![VI::known("it", DT::I64, &[]), VI::known("cond_in", DT::Bool, &[]), VI::known("sa", DT::F32, &[2])];
        if states == 2 { ins.push(VI::known("sb", DT::F32, &[2])); }
        let mut bd = body(b, ins, &outs); bool_out(&mut bd, 0);
        let mut extra = vec![]; let mut inits = vec![];
        let m = match trip { 0 => { inits.push(("m0", T::i64s(3))); "m0" } 1 => { extra.push((VI::known("m", DT::I64, &[]), T::i64s(2))); "m" } 2 => { inits.push(("m0", T::i64v(&[1]))); "m0" } _ => "" };
        let c = if cond == 4 { extra.push(flag("c")); "c" } else if cond == 3 { inits.push(("c", T::bool(&[], &[true]))); "c" } else { "" };
        if a == 9 || a == 10 { extra.push(flag("c2")); }
        let mut li = vec![m, c, "x"]; if states == 2 { li.push("y"); }
        let outn: Vec<String> = (0..states + scan).map(|k| format!("y{k}")).collect();
        let node = Node::new("Loop", &li, &outn.iter().map(|s| s.as_str()).collect::<Vec<_>>()).attr("body", Attr::G(bd));
        f(wrap(format!("Loop/{a}/states{states}/scan{scan}/trip{trip}/cond{cond}/post{post}"), pre(), node, outn.len(), post, extra, inits, false));
    } } } } } }
    // ---- Scan: state and scanned inputs, directions, axes
    for a in 0..EXPRS { for m in 1..=2usize { for dir in 0..4 { for ax in 0..3 { for post in 0..2 {
        let odd = (m == 2) as u32 + (dir > 0) as u32 + (ax > 0) as u32 + (post > 0) as u32;
        if odd > if deep { 4 } else { 2 } { continue; }
        let mut b = B::default();
        let sc: Vec<&str> = if m == 2 { vec!["sa", "e1", "e0"] } else { vec!["sa", "e0"] };
        let r = expr(a, &sc, "l", &mut b);
        b.nodes.push(Node::new("Add", &["sa", "t"], &["so"]));
        let mut ins = vec![VI::known("sa", DT::F32, &[2]), VI::known("e0", DT::F32, &[2])];
        if m == 2 { ins.push(VI::known("e1", DT::F32, &[2])); }
        let bd = body(b, ins, &[r, "so".into()]);
        let sq = |n: &str, k: f64, ax: usize| { let t = T::f32(&[3, 2], &[1.0 * k, -2.0, 3.5, 0.25 * k, -1.0, 6.0]); let t = if ax > 0 { T::f32(&[2, 3], &[1.0 * k, 3.5, -1.0, -2.0, 0.25 * k, 6.0]) } else { t }; (VI::known(n, DT::F32, &t.shape), t) };
        let mut extra = vec![sq("d0", 1.0, ax)]; if m == 2 { extra.push(sq("d1", -3.0, 0)); }
        if a == 9 || a == 10 { extra.push(flag("c2")); }
        let mut li = vec!["x", "d0"]; if m == 2 { li.push("d1"); }
        let mut node = Node::new("Scan", &li, &["y0", "y1"]).i("num_scan_inputs", m as i64);
        if dir & 1 > 0 { node = node.is("scan_input_directions", &if m == 2 { vec![1, 0] } else { vec![1] }); }
        if dir & 2 > 0 { node = node.is("scan_output_directions", &[1]); }
        if ax == 1 { node = node.is("scan_input_axes", &if m == 2 { vec![1, 0] } else { vec![1] }); }
        if ax == 2 { node = node.is("scan_input_axes", &if m == 2 { vec![-1, -2] } else { vec![-1] }).is("scan_output_axes", &[1]); }
        let node = node.attr("body", Attr::G(bd));
        f(wrap(format!("Scan/{a}/m{m}/dir{dir}/ax{ax}/post{post}"), pre(), node, 2, post, extra, vec![], false));
    } } } } }
}
