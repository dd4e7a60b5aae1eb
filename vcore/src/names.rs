//! Models whose values carry given names: every assignment of names from an adversarial alphabet.
use crate::fam::{mix, vary, Case};
use crate::proto::*;
use crate::tensor::*;

/// A model with name slots. Slots in one group must carry different names; `node`: a slot naming a node.
pub struct Template { pub name: &'static str, pub slots: &'static [&'static str], pub nodes: usize, pub make: fn(&[String]) -> (Graph, Vec<T>) }

fn f22() -> T { mix(DT::F32, &[2, 2]) }
fn vin(n: &str, t: &T) -> VI { VI::known(n, t.dt, &t.shape) }
fn vout(n: &str) -> VI { VI::known(n, DT::F32, &[2, 2]) }
fn nm(mut n: Node, name: &str) -> Node { n.name = name.into(); n }
fn nd(op: &str, i: &[&str], o: &[&str]) -> Node { let mut n = Node::new(op, i, o); n.name = String::new(); n }
fn body(inputs: Vec<VI>, nodes: Vec<Node>, outs: Vec<VI>) -> Graph { Graph { name: "b".into(), inputs, nodes, outputs: outs, ..Default::default() } }
fn other() -> T { T::f32(&[2, 2], &[0.75, -1.25, 2.0, 0.5]) }
fn third() -> T { T::f32(&[2, 2], &[-3.0, 1.5, 0.25, 4.0]) }
fn k(n: &str, o: &str, v: f64) -> Node { let mut t = T::f32(&[1], &[v]); t.dt = DT::F32; let _ = n; nd("Constant", &[], &[o]).attr("value", Attr::T(TensorP::raw("", t))) }

pub fn templates() -> Vec<Template> {
    vec![
        // two inputs, told apart by the subtraction
        Template { name: "inputs", slots: &["a", "b", "y"], nodes: 0, make: |s| (Graph { name: "g".into(), inputs: vec![vin(&s[0], &f22()), vin(&s[1], &other())], nodes: vec![nd("Sub", &[&s[0], &s[1]], &[&s[2]])], outputs: vec![vout(&s[2])], ..Default::default() }, vec![f22(), other()]) },
        // an input, two initializers, two intermediate values
        Template { name: "inits", slots: &["a", "w", "v", "t", "y"], nodes: 0, make: |s| { let mut g = Graph { name: "g".into(), inputs: vec![vin(&s[0], &f22())], nodes: vec![nd("Mul", &[&s[0], &s[1]], &[&s[3]]), nd("Sub", &[&s[3], &s[2]], &[&s[4]])], outputs: vec![vout(&s[4]), vout(&s[3])], ..Default::default() }; g.inits.push(TensorP::raw(&s[1], other())); g.inits.push(TensorP::raw(&s[2], third())); (g, vec![f22()]) } },
        // an initializer that is listed as an input, an input that is an output
        Template { name: "listed", slots: &["a", "w", "b", "y"], nodes: 0, make: |s| { let mut g = Graph { name: "g".into(), inputs: vec![vin(&s[1], &third()), vin(&s[0], &f22()), vin(&s[2], &other())], nodes: vec![nd("Sub", &[&s[0], &s[1]], &[&s[3]])], outputs: vec![vout(&s[3]), vout(&s[2])], ..Default::default() }; g.inits.push(TensorP::raw(&s[1], third())); (g, vec![f22(), other()]) } },
        // constants as nodes, several results of one node
        Template { name: "results", slots: &["a", "c", "p", "q", "y"], nodes: 0, make: |s| (Graph { name: "g".into(), inputs: vec![vin(&s[0], &mix(DT::F32, &[2, 4]))], nodes: vec![k("", &s[1], 1.5), nd("Split", &[&s[0]], &[&s[2], &s[3]]).i("axis", 1), nd("Sub", &[&s[2], &s[3]], &["m"]), nd("Mul", &["m", &s[1]], &[&s[4]])], outputs: vec![vout(&s[4]), vout(&s[3]), vout(&s[2])], ..Default::default() }, vec![mix(DT::F32, &[2, 4])]) },
        // two layers with weights: the names of nodes become fields
        Template { name: "layers", slots: &["a", "t", "y", "n1", "n2"], nodes: 2, make: |s| { let mut g = Graph { name: "g".into(), inputs: vec![vin(&s[0], &f22())], nodes: vec![nm(nd("Gemm", &[&s[0], "w1", "b1"], &[&s[1]]), &s[3]), nm(nd("Gemm", &[&s[1], "w2", "b2"], &[&s[2]]), &s[4])], outputs: vec![vout(&s[2])], ..Default::default() }; for (n, t) in [("w1", other()), ("w2", third()), ("b1", T::f32(&[2], &[1.0, -1.0])), ("b2", T::f32(&[2], &[0.5, 0.25]))] { g.inits.push(TensorP::raw(n, t)); } (g, vec![f22()]) } },
        // values of the outer graph, of two branches
        Template { name: "branches", slots: &["c", "a", "t", "u", "e", "y"], nodes: 0, make: |s| { let th = body(vec![], vec![nd("Sub", &[&s[2], &s[1]], &[&s[3]])], vec![vout(&s[3])]); let el = body(vec![], vec![nd("Neg", &[&s[2]], &[&s[4]])], vec![vout(&s[4])]); (Graph { name: "g".into(), inputs: vec![VI::known(&s[0], DT::Bool, &[]), vin(&s[1], &f22())], nodes: vec![nd("Relu", &[&s[1]], &[&s[2]]), nd("If", &[&s[0]], &[&s[5]]).attr("then_branch", Attr::G(th)).attr("else_branch", Attr::G(el))], outputs: vec![vout(&s[5]), vout(&s[2])], ..Default::default() }, vec![T::bool(&[], &[true]), f22()]) } },
        // an initializer of the outer graph captured by a branch, one of the branch itself
        Template { name: "branch-inits", slots: &["c", "a", "w", "v", "u", "y"], nodes: 0, make: |s| { let mut th = body(vec![], vec![nd("Mul", &[&s[1], &s[2]], &["tm"]), nd("Sub", &["tm", &s[3]], &[&s[4]])], vec![vout(&s[4])]); th.inits.push(TensorP::raw(&s[3], third())); let el = body(vec![], vec![nd("Sub", &[&s[1], &s[2]], &["eo"])], vec![vout("eo")]); let mut g = Graph { name: "g".into(), inputs: vec![VI::known(&s[0], DT::Bool, &[]), vin(&s[1], &f22())], nodes: vec![nd("If", &[&s[0]], &[&s[5]]).attr("then_branch", Attr::G(th)).attr("else_branch", Attr::G(el))], outputs: vec![vout(&s[5])], ..Default::default() }; g.inits.push(TensorP::raw(&s[2], other())); (g, vec![T::bool(&[], &[true]), f22()]) } },
        // a loop: iteration number, condition, state, captured value, results
        Template { name: "loop", slots: &["a", "x", "it", "ci", "s", "co", "so", "y"], nodes: 0, make: |s| { let b = body(vec![VI::known(&s[2], DT::I64, &[]), VI::known(&s[3], DT::Bool, &[]), vout(&s[4])], vec![nd("Identity", &[&s[3]], &[&s[5]]), nd("Cast", &[&s[2]], &["itf"]).i("to", 1), nd("Add", &[&s[4], "itf"], &["acc"]), nd("Sub", &["acc", &s[0]], &[&s[6]])], vec![VI::known(&s[5], DT::Bool, &[]), vout(&s[6])]); let mut g = Graph { name: "g".into(), inputs: vec![vin(&s[0], &f22()), vin(&s[1], &other())], nodes: vec![nd("Loop", &["m", "k", &s[1]], &[&s[7]]).attr("body", Attr::G(b))], outputs: vec![vout(&s[7])], ..Default::default() }; g.inits.push(TensorP::raw("m", T::i64s(3))); g.inits.push(TensorP::raw("k", T::bool(&[], &[true]))); (g, vec![f22(), other()]) } },
        // a scan: state, element, captured value, results
        Template { name: "scan", slots: &["a", "x", "q", "s", "e", "so", "ez", "y", "z"], nodes: 0, make: |s| { let b = body(vec![vout(&s[3]), vout(&s[4])], vec![nd("Sub", &[&s[3], &s[4]], &[&s[5]]), nd("Mul", &[&s[5], &s[0]], &[&s[6]])], vec![vout(&s[5]), vout(&s[6])]); let q = mix(DT::F32, &[3, 2, 2]); (Graph { name: "g".into(), inputs: vec![vin(&s[0], &f22()), vin(&s[1], &other()), vin(&s[2], &q)], nodes: vec![nd("Scan", &[&s[1], &s[2]], &[&s[7], &s[8]]).i("num_scan_inputs", 1).attr("body", Attr::G(b))], outputs: vec![vout(&s[7]), VI::known(&s[8], DT::F32, &[3, 2, 2])], ..Default::default() }, vec![f22(), other(), q]) } },
        // a branch inside a loop that reads the loop's and the outer graph's values
        Template { name: "nested", slots: &["a", "x", "it", "s", "so", "u", "e", "y"], nodes: 0, make: |s| { let th = body(vec![], vec![nd("Sub", &[&s[3], &s[0]], &[&s[5]])], vec![vout(&s[5])]); let el = body(vec![], vec![nd("Neg", &[&s[3]], &[&s[6]])], vec![vout(&s[6])]); let b = body(vec![VI::known(&s[2], DT::I64, &[]), VI::known("ci", DT::Bool, &[]), vout(&s[3])], vec![nd("Identity", &["ci"], &["co"]), nd("Cast", &[&s[2]], &["odd"]).i("to", 9), nd("If", &["odd"], &[&s[4]]).attr("then_branch", Attr::G(th)).attr("else_branch", Attr::G(el))], vec![VI::known("co", DT::Bool, &[]), vout(&s[4])]); let mut g = Graph { name: "g".into(), inputs: vec![vin(&s[0], &f22()), vin(&s[1], &other())], nodes: vec![nd("Loop", &["m", "k", &s[1]], &[&s[7]]).attr("body", Attr::G(b))], outputs: vec![vout(&s[7])], ..Default::default() }; g.inits.push(TensorP::raw("m", T::i64s(3))); g.inits.push(TensorP::raw("k", T::bool(&[], &[true]))); (g, vec![f22(), other()]) } },
    ]
}
/// Names that identifiers cannot hold, that differ only in what identifiers cannot hold, that look generated
/// or mean something in Rust.
pub fn alphabet() -> Vec<&'static str> {
    vec!["p", "P", "p.q", "p/q", "p:q", "p q", "p_q", "p__q", "pQ", "PQ", "p-q", "_p", "__p", "p_", "p__", "/p", ".p", "1p", "_1p", "1", "_1", "01", "_", "__", ".", "/", "::", "\u{e9}", "p\u{e9}", "\u{65e5}", "\u{65e5}\u{672c}", "p\u{65e5}q", "\n", "p\nq", "\"", "p\"", "{}", "type", "Type", "self", "Self", "SELF", "fn", "match", "async", "crate", "super", "gen", "try", "dyn", "true", "yield", "union", "r#fn",
        "sub1_out1", "mul1_out1", "split1_out1", "split1_out2", "constant1_out1", "constant2_out1", "constant3_out1", "if1_out1", "loop1_out1", "scan1_out1", "scan1_out2", "relu1_out1", "linear1_out1", "gemm1_out1", "Sub1_Out1", "constant1", "linear1", "linear2", "gemm1", "sub1", "cast1_out1", "identity1_out1", "add1_out1", "neg1_out1",
        "i", "seq_len", "loop_limit", "max_iter", "cond", "loop_cond", "scan_output_collector_0", "scan_output_0", "scan_collector_0", "device", "tensor", "Tensor", "Model", "model", "burn", "alloc", "core", "std", "phantom", "b", "B", "vec", "some", "f32", "usize", "forward", "new", "split_tensors", "p_2", "p_3", "p_1"]
}
/// May the slots of the template carry these names? Values need different, non-empty names; nodes need not.
pub fn valid(t: &Template, s: &[String]) -> bool {
    let v = &s[..s.len() - t.nodes];
    let fixed = ["m", "k", "itf", "acc", "tm", "eo", "ci", "co", "odd", "w1", "w2", "b1", "b2"];
    v.iter().all(|x| !x.is_empty() && !fixed.contains(&x.as_str())) && v.iter().enumerate().all(|(i, x)| !v[..i].contains(x))
}
pub fn case(t: &Template, s: &[String], tag: &str) -> Case {
    let (g, v) = (t.make)(s);
    let o = v.iter().map(|x| if x.dt == DT::Bool { T::bool(&[], &[false]) } else { vary(x) }).collect();
    Case { name: format!("{}/{tag}", t.name), group: "names", model: Model::new(17, g), vals: vec![v, o], lvl: 0, may_refuse: false, tol: 1e-5 }
}
pub fn show(s: &str) -> String { s.chars().map(|c| if c.is_ascii_graphic() && c != '*' { c.to_string() } else { format!("<{:x}>", c as u32) }).collect() }
/// One name in every slot, then two names in every pair of slots.
pub fn singles(al: &[String], f: &mut dyn FnMut(Case)) {
    for t in templates() { let base: Vec<String> = t.slots.iter().map(|s| s.to_string()).collect(); for k in 0..base.len() { for n in al { let mut s = base.clone(); s[k] = n.clone(); if valid(&t, &s) { f(case(&t, &s, &format!("{}={}", t.slots[k], show(n)))); } } if k + t.nodes >= base.len() { let mut s = base.clone(); s[k] = String::new(); f(case(&t, &s, &format!("{}=", t.slots[k]))); } } }
}
pub fn pairs(al: &[&str], f: &mut dyn FnMut(Case)) {
    for t in templates() { let base: Vec<String> = t.slots.iter().map(|s| s.to_string()).collect(); for k in 0..base.len() { for l in 0..base.len() { if l == k || l < k && false { continue; } if l < k { continue; } for a in al { for b in al { let mut s = base.clone(); s[k] = a.to_string(); s[l] = b.to_string(); if valid(&t, &s) { f(case(&t, &s, &format!("{}={},{}={}", t.slots[k], show(a), t.slots[l], show(b)))); } } } } } }
}
