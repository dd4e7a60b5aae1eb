//! C10: every single fault at every position of the bounded models is refused.
use irmc::{check::*, import_bytes, interp, util::*};
use std::collections::{BTreeMap, BTreeSet};
use vcore::fam::Case;
use vcore::proto::*;
use vcore::refi::E;
use vcore::report::*;
use vcore::tensor::*;

/// What a mutated model may be imported as.
enum Want {
    /// Not a model at all: refuse.
    Refuse,
    /// Whatever the reference makes of it: the same meaning, or refuse if it has none.
    Means(Model),
    /// As `Means`, but a model without a meaning may be one whose fault shows at run time only.
    Agree(Model),
    /// The graph input must have this element type, or refuse.
    InputType(i32),
}
struct Mutant { tag: String, bytes: Vec<u8>, want: Want }

/// Are all operands defined before their use (by the graph itself or around it), and all outputs?
fn defined(g: &Graph, outer: &BTreeSet<String>) -> bool {
    let mut s = outer.clone();
    s.extend(g.inputs.iter().map(|i| i.name.clone())); s.extend(g.inits.iter().map(|i| i.name.clone()));
    for n in &g.nodes {
        if n.inputs.iter().any(|i| !i.is_empty() && !s.contains(i)) { return false; }
        for (_, a) in &n.attrs { if let Attr::G(b) = a { if !defined(b, &s) { return false; } } }
        s.extend(n.outputs.iter().filter(|o| !o.is_empty()).cloned());
    }
    g.outputs.iter().all(|o| s.contains(&o.name))
}
/// All graphs of a model, outermost first, as paths of (node, attribute) steps.
fn paths(g: &Graph, at: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
    out.push(at.clone());
    for (i, n) in g.nodes.iter().enumerate() { for (j, (_, a)) in n.attrs.iter().enumerate() { if let Attr::G(b) = a { at.push((i, j)); paths(b, at, out); at.pop(); } } }
}
fn at<'a>(g: &'a mut Graph, p: &[(usize, usize)]) -> &'a mut Graph {
    match p { [] => g, [(i, j), r @ ..] => match &mut g.nodes[*i].attrs[*j].1 { Attr::G(b) => at(b, r), _ => unreachable!() } }
}
/// Offsets at which a truncated model still is a whole model: both the graph and the opset are complete.
fn whole(b: &[u8], cut: usize) -> bool {
    let (mut p, mut graph, mut opset) = (0, false, false);
    let var = |p: &mut usize| -> Option<u64> { let (mut v, mut s) = (0u64, 0); loop { let x = *b[..cut].get(*p)?; *p += 1; v |= ((x & 127) as u64) << s; if x < 128 { return Some(v); } s += 7; } };
    while p < cut {
        let Some(k) = var(&mut p) else { return false };
        if k & 7 == 0 { if var(&mut p).is_none() { return false; } continue; }
        let Some(n) = var(&mut p) else { return false };
        p += n as usize;
        if p > cut { return false; }
        match k >> 3 { 7 => graph = true, 8 => opset = true, _ => {} }
    }
    graph && opset
}
fn raw_model(graph: W, opset: Option<(&str, i64)>, functions: &[W]) -> Vec<u8> {
    let mut w = W(vec![]);
    w.int(1, 8); w.str(2, "vcore"); w.msg(7, graph);
    if let Some((d, v)) = opset { let mut o = W(vec![]); o.str(1, d); o.int(2, v); w.msg(8, o); }
    for f in functions { w.bytes(25, &f.0); }
    w.0
}
/// A tensor whose type, dimensions and payload are chosen apart.
fn odd_tensor(t: &TensorP, dt: i32, shape: &[i64]) -> W {
    let mut w = W(vec![]);
    w.packed(1, shape.iter().map(|d| *d as u64)); w.int(2, dt as i64); w.bytes(9, &t.t.raw()); w.str(8, &t.name);
    w
}
/// The graph with one of its initializers replaced by an arbitrary message.
fn with_init(g: &Graph, k: usize, t: W) -> W {
    let mut h = g.clone(); h.inits.remove(k);
    let mut w = graph(&h); w.msg(5, t); w
}
/// The attributes that an operator cannot do without.
fn required(op: &str, a: &str) -> bool {
    matches!((op, a), ("BitShift", "direction") | ("Cast", "to") | ("Concat", "axis") | ("MaxPool" | "AveragePool" | "LpPool", "kernel_shape") | ("DepthToSpace" | "SpaceToDepth", "blocksize") | ("Einsum", "equation") | ("Scan", "num_scan_inputs" | "body") | ("Loop", "body") | ("If", "then_branch" | "else_branch") | ("GroupNormalization", "num_groups"))
}
fn size_of(code: i32) -> Option<usize> { DT::from_onnx(code).map(|d| d.size()) }

fn mutants(c: &Case, deep: bool) -> Vec<Mutant> {
    let m = &c.model;
    let mut v: Vec<Mutant> = vec![];
    let whole_bytes = m.encode();
    // every truncation
    for cut in 0..whole_bytes.len() { if !whole(&whole_bytes, cut) { v.push(Mutant { tag: format!("truncated/{cut}"), bytes: whole_bytes[..cut].to_vec(), want: Want::Refuse }); } }
    let must = |v: &mut Vec<Mutant>, tag: String, q: &Model| v.push(Mutant { tag, bytes: q.encode(), want: Want::Refuse });
    // every opset
    v.push(Mutant { tag: "opset/none".into(), bytes: raw_model(graph(&m.graph), None, &[]), want: Want::Refuse });
    for o in [-1i64, 0] { let mut q = m.clone(); q.opset = o; must(&mut v, format!("opset/{o}"), &q); }
    for o in 1..=24i64 { if o != m.opset { let mut q = m.clone(); q.opset = o; v.push(Mutant { tag: format!("opset/{o}"), bytes: q.encode(), want: Want::Agree(q) }); } }
    v.push(Mutant { tag: "opset/custom-domain-only".into(), bytes: raw_model(graph(&m.graph), Some(("com.example", m.opset)), &[]), want: Want::Refuse });
    let mut ps = vec![]; paths(&m.graph, &mut vec![], &mut ps);
    for p in &ps {
        let w = if p.is_empty() { String::new() } else { format!("{p:?}:") }.replace(' ', "");
        let g0 = at(&mut m.clone().graph, p).clone();
        let n = g0.nodes.len();
        let mut edit = |tag: String, f: &mut dyn FnMut(&mut Graph), want: u8| { let mut q = m.clone(); f(at(&mut q.graph, p)); let bytes = q.encode(); v.push(Mutant { tag: format!("{w}{tag}"), bytes, want: match want { 0 => Want::Refuse, 1 => Want::Means(q), 2 => Want::Agree(q), _ => Want::Agree(m.clone()) } }); };
        // every order of the nodes that uses something before it exists
        if (2..=4).contains(&n) { for q in perms(n) { if q.windows(2).all(|x| x[0] < x[1]) { continue; } let mut h = m.clone(); at(&mut h.graph, p).nodes = q.iter().map(|i| g0.nodes[*i].clone()).collect(); let ok = defined(&h.graph, &Default::default()); edit(format!("order/{q:?}"), &mut |g| g.nodes = q.iter().map(|i| g0.nodes[*i].clone()).collect(), if ok { 2 } else { 0 }); } }
        for i in 0..n {
            let nd = &g0.nodes[i];
            edit(format!("n{i}/unknown-op"), &mut |g| g.nodes[i].op = "NoSuchOperator".into(), 0);
            edit(format!("n{i}/no-op"), &mut |g| g.nodes[i].op = String::new(), 0);
edit(format!("n{i}/other-domain"), &mut |g| g.nodes[i].domain = "com.example".into(), 0);
            for k in 0..nd.inputs.len() {
                if nd.inputs[k].is_empty() { continue; }
                edit(format!("n{i}/in{k}/undefined"), &mut |g| g.nodes[i].inputs[k] = "no_such_value".into(), 0);
                edit(format!("n{i}/in{k}/own-output"), &mut |g| g.nodes[i].inputs[k] = nd.outputs.iter().find(|o| !o.is_empty()).unwrap().clone(), 0);
                edit(format!("n{i}/in{k}/omitted"), &mut |g| { g.nodes[i].inputs[k] = String::new(); while g.nodes[i].inputs.last().is_some_and(|x| x.is_empty()) { g.nodes[i].inputs.pop(); } }, if nd.op == "Loop" && k < 2 { 2 } else { 1 });
                for later in &g0.nodes[i + 1..] { for o in &later.outputs { if !o.is_empty() { edit(format!("n{i}/in{k}/later:{o}"), &mut |g| g.nodes[i].inputs[k] = o.clone(), 0); } } }
            }
            if !nd.inputs.is_empty() { edit(format!("n{i}/no-inputs"), &mut |g| g.nodes[i].inputs.clear(), 1); }
            edit(format!("n{i}/extra-input"), &mut |g| { let e = g.nodes[i].inputs.first().cloned().unwrap_or("no_such_value".into()); for _ in 0..9 { g.nodes[i].inputs.push(e.clone()); } }, 2);
            edit(format!("n{i}/extra-undefined-input"), &mut |g| g.nodes[i].inputs.push("no_such_value".into()), 0);
            for k in 0..nd.outputs.len() {
                if nd.outputs[k].is_empty() { continue; }
                let used = g0.outputs.iter().any(|o| o.name == nd.outputs[k]) || g0.nodes.iter().any(|x| x.inputs.contains(&nd.outputs[k]));
                if used { edit(format!("n{i}/out{k}/renamed"), &mut |g| g.nodes[i].outputs[k] = "elsewhere".into(), 0); edit(format!("n{i}/out{k}/omitted"), &mut |g| g.nodes[i].outputs[k] = String::new(), 0); }
                // a value defined twice
                for j in 0..i { for o in &g0.nodes[j].outputs { if !o.is_empty() { edit(format!("n{i}/out{k}/again:{o}"), &mut |g| { let old = g.nodes[i].outputs[k].clone(); g.nodes[i].outputs[k] = o.clone(); for x in g.nodes[i + 1..].iter_mut() { for y in x.inputs.iter_mut() { if *y == old { *y = o.clone(); } } } for y in g.outputs.iter_mut() { if y.name == old { y.name = o.clone(); } } }, 0); } } }
                if p.is_empty() { for o in g0.inputs.iter().map(|x| &x.name).chain(g0.inits.iter().map(|x| &x.name)) { edit(format!("n{i}/out{k}/shadows:{o}"), &mut |g| { let old = g.nodes[i].outputs[k].clone(); g.nodes[i].outputs[k] = o.clone(); for x in g.nodes[i + 1..].iter_mut() { for y in x.inputs.iter_mut() { if *y == old { *y = o.clone(); } } } for y in g.outputs.iter_mut() { if y.name == old { y.name = o.clone(); } } }, 0); } }
            }
            if used_all(&g0, nd) { edit(format!("n{i}/no-outputs"), &mut |g| g.nodes[i].outputs.clear(), 0); edit(format!("n{i}/removed"), &mut |g| { g.nodes.remove(i); }, 0); }
            for k in 0..nd.attrs.len() {
                let (name, val) = &nd.attrs[k];
                edit(format!("n{i}/attr:{name}/missing"), &mut |g| { g.nodes[i].attrs.remove(k); }, if required(&nd.op, name) { 0 } else { 2 });
                // another kind of attribute
                let mut kinds: Vec<(&str, Attr)> = vec![("int", Attr::I(1)), ("float", Attr::F(0.5)), ("string", Attr::S("NO_SUCH_MODE".into())), ("ints", Attr::Is(vec![1, 0, 1, 0, 1, 0, 1])), ("floats", Attr::Fs(vec![0.5])), ("strings", Attr::Ss(vec!["NO_SUCH".into()])), ("tensor", Attr::T(TensorP::raw("", T::f32(&[2], &[1.0, 2.0])))), ("graph", Attr::G(Graph::default()))];
                kinds.retain(|(_, x)| std::mem::discriminant(x) != std::mem::discriminant(val));
                // the attributes of Constant say what they are in both name and kind
                if nd.op != "Constant" { for (kn, x) in kinds { if deep || matches!(kn, "int" | "string" | "ints" | "tensor") { edit(format!("n{i}/attr:{name}/{kn}"), &mut |g| g.nodes[i].attrs[k].1 = x.clone(), 3); } } }
                if let Attr::S(_) = val { if !(nd.op == "Constant") { edit(format!("n{i}/attr:{name}/unknown"), &mut |g| g.nodes[i].attrs[k].1 = Attr::S("NO_SUCH_MODE".into()), 0); } }
            }
        }
        for k in 0..g0.outputs.len() {
            edit(format!("output{k}/undefined"), &mut |g| g.outputs[k].name = "no_such_value".into(), 0);
            edit(format!("output{k}/unnamed"), &mut |g| g.outputs[k].name = String::new(), 0);
        }
        for k in 0..g0.inputs.len() {
            let u = g0.nodes.iter().any(|x| x.inputs.contains(&g0.inputs[k].name)) || g0.outputs.iter().any(|o| o.name == g0.inputs[k].name);
            if u && !g0.inits.iter().any(|t| t.name == g0.inputs[k].name) { edit(format!("input{k}/renamed"), &mut |g| g.inputs[k].name = "elsewhere".into(), 0); if p.is_empty() { edit(format!("input{k}/removed"), &mut |g| { g.inputs.remove(k); }, 0); } }
            for j in 0..k { edit(format!("input{k}/same-as-{j}"), &mut |g| g.inputs[k].name = g0.inputs[j].name.clone(), 0); }
        }
        for k in 0..g0.inits.len() {
            let u = g0.nodes.iter().any(|x| x.inputs.contains(&g0.inits[k].name));
            if u && !g0.inputs.iter().any(|t| t.name == g0.inits[k].name) { edit(format!("init{k}/renamed"), &mut |g| g.inits[k].name = "elsewhere".into(), 0); edit(format!("init{k}/removed"), &mut |g| { g.inits.remove(k); }, 0); }
            for j in 0..k { edit(format!("init{k}/same-as-{j}"), &mut |g| g.inits[k].name = g0.inits[j].name.clone(), 0); }
        }
    }
    // tensors that disagree with their payload, of unknown types
    let g = &m.graph;
    for (k, t) in g.inits.iter().enumerate() {
        if !g.nodes.iter().any(|x| x.inputs.contains(&t.name)) { continue; }
        let shape: Vec<i64> = t.t.shape.iter().map(|d| *d as i64).collect();
        let mut put = |tag: String, dt: i32, s: &[i64]| v.push(Mutant { tag: format!("init{k}/{tag}"), bytes: raw_model(with_init(g, k, odd_tensor(t, dt, s)), Some(("", m.opset)), &[]), want: Want::Refuse });
        for code in (0..=32).chain([-1, 100]) { if code == t.t.dt.onnx() || size_of(code) == Some(t.t.dt.size()) { continue; } if t.t.is_empty() && size_of(code).is_some() { continue; } put(format!("type{code}"), code, &shape); }
        for d in 0..shape.len() { for x in [shape[d] - 1, shape[d] + 1, -1, -shape[d], i64::MAX, 1 << 32, shape[d] * 2] { let mut s = shape.clone(); s[d] = x; let keeps = s.iter().all(|d| *d >= 0) && s.iter().map(|d| *d as i128).product::<i128>() == t.t.len() as i128; if !keeps { put(format!("dim{d}={x}"), t.t.dt.onnx(), &s); } } }
        // one more dimension is another rank but the same number of elements when it is 1: not a fault in itself
        { let mut s = shape.clone(); s.push(2); if t.t.len() > 0 { put("extra-dim".into(), t.t.dt.onnx(), &s); } }
        if !shape.is_empty() && t.t.len() != 1 { put("no-dims".into(), t.t.dt.onnx(), &[]); }
        // two payloads, or none
        let mut none = W(vec![]); none.packed(1, shape.iter().map(|d| *d as u64)); none.int(2, t.t.dt.onnx() as i64); none.str(8, &t.name);
        if !t.t.is_empty() { v.push(Mutant { tag: format!("init{k}/no-data"), bytes: raw_model(with_init(g, k, none), Some(("", m.opset)), &[]), want: Want::Refuse }); }
    }
    // element types of the graph inputs
    for (k, i) in g.inputs.iter().enumerate() {
        for code in (0..=32).chain([-1, 100]) { if code == i.dt { continue; }
            let mut q = m.clone(); q.graph.inputs[k].dt = code;
            let bad = DT::from_onnx(code).is_none();
            v.push(Mutant { tag: format!("input{k}/type{code}"), bytes: q.encode(), want: if bad { Want::Refuse } else { Want::InputType(code) } });
        }
        let mut q = m.clone(); q.graph.inputs[k].dt = 0; q.graph.inputs[k].shape = None; must(&mut v, format!("input{k}/untyped"), &q);
        // sequences, maps, optionals and sparse tensors
        for (f, what) in [(4u32, "sequence"), (5, "map"), (8, "sparse"), (9, "optional"), (7, "opaque")] {
            let mut h = g.clone(); let name = h.inputs.remove(k).name;
            let mut el = W(vec![]); el.int(1, 1); let mut ty = W(vec![]); let mut inner = W(vec![]);
            match what { "sequence" | "optional" => { let mut t = W(vec![]); t.msg(1, W(el.0.clone())); inner.msg(1, t) } "map" => { inner.int(1, 7); let mut t = W(vec![]); t.msg(1, W(el.0.clone())); inner.msg(2, t) } _ => inner = el }
            ty.msg(f, inner);
            let mut vi = W(vec![]); vi.str(1, &name); vi.msg(2, ty);
            // the input is put back in its place by splitting the list around it
            let mut w = graph(&Graph { inputs: h.inputs[..k].to_vec(), ..h.clone() }); w.msg(11, vi);
            for r in &h.inputs[k..] { w.msg(11, vcore::proto::vi(r)); }
            if g.nodes.iter().any(|x| x.inputs.contains(&name)) { v.push(Mutant { tag: format!("input{k}/{what}"), bytes: raw_model(w, Some(("", m.opset)), &[]), want: Want::Refuse }); }
        }
    }
    // local functions and sparse initializers, which the importer does not know
    for (i, n) in g.nodes.iter().enumerate() {
        let mut q = m.clone(); q.graph.nodes[i].op = "Fn".into(); q.graph.nodes[i].domain = "local".into();
        let mut f = W(vec![]); f.str(1, "Fn"); for x in &n.inputs { f.str(4, x); } for x in &n.outputs { f.str(5, x); } f.msg(7, node(n)); f.str(10, "local");
        v.push(Mutant { tag: format!("n{i}/local-function"), bytes: raw_model(graph(&q.graph), Some(("", m.opset)), &[f]), want: Want::Refuse });
        // a function that shadows a standard operator's name in a domain of its own
        let mut q = m.clone(); q.graph.nodes[i].domain = "local".into();
        let mut f = W(vec![]); f.str(1, &n.op); for x in &n.inputs { f.str(4, x); } for x in &n.outputs { f.str(5, x); } f.msg(7, node(&Node::new("Identity", &[n.inputs.iter().find(|x| !x.is_empty()).map(|s| s.as_str()).unwrap_or("")], &[&n.outputs[0]]))); f.str(10, "local");
        v.push(Mutant { tag: format!("n{i}/function-of-same-name"), bytes: raw_model(graph(&q.graph), Some(("", m.opset)), &[f]), want: Want::Refuse });
    }
    for (k, t) in g.inits.iter().enumerate() {
        if !g.nodes.iter().any(|x| x.inputs.contains(&t.name)) || g.inputs.iter().any(|i| i.name == t.name) { continue; }
        let mut h = g.clone(); h.inits.remove(k);
        let mut ix = W(vec![]); ix.packed(1, [t.t.len() as u64].into_iter()); ix.int(2, 7); ix.bytes(9, &(0..t.t.len() as i64).flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        let mut vs = t.clone(); vs.t = vs.t.with_shape(&[t.t.len()]);
        let mut sp = W(vec![]); sp.msg(1, tensor(&vs)); sp.msg(2, ix); sp.packed(3, t.t.shape.iter().map(|d| *d as u64));
        let mut w = graph(&h); w.msg(15, sp);
        v.push(Mutant { tag: format!("init{k}/sparse"), bytes: raw_model(w, Some(("", m.opset)), &[]), want: Want::Refuse });
    }
    v
}
fn used_all(g: &Graph, n: &Node) -> bool { n.outputs.iter().any(|y| !y.is_empty() && (g.outputs.iter().any(|o| o.name == *y) || g.nodes.iter().any(|x| x.inputs.contains(y)))) }

fn judge_one(c: &Case, mu: &Mutant, simplify: bool) -> (&'static str, Option<String>) {
    let g = match import_bytes(&mu.bytes, simplify) { Err(irmc::Fail::Err(_)) => return ("refused", None), Err(irmc::Fail::Panic(_)) => return ("refused_by_panic", None), Ok(g) => g };
    match &mu.want {
        Want::Refuse => ("imported", Some(format!("imported as: {}", brief_graph(&g)))),
        Want::InputType(code) => {
            // the graph's own inputs in order; every one of them keeps the type the model states
            let k: usize = mu.tag.trim_start_matches("input").split('/').next().unwrap().parse().unwrap();
            let rt: Vec<&VI> = runtime(&c.model);
            let Some(pos) = rt.iter().position(|i| i.name == c.model.graph.inputs[k].name) else { return ("default", None) };
            let have = g.inputs.get(pos).and_then(|a| interp::dt(a.ty.elem_type())).map(|d| d.onnx());
            if have == Some(*code) { ("typed", None) } else { ("imported", Some(format!("input {pos} was imported with type {have:?} instead of {code}"))) }
        }
        Want::Means(q) | Want::Agree(q) => {
            let vals: Vec<Vec<T>> = c.vals.clone();
            if runtime(q).len() != vals[0].len() { return ("other_inputs", None); }
            let mut some = false; let mut und = String::new();
            for v in &vals { match irmc::guarded(|| Ok(reference(q, v))) { Ok(Ok(_)) => some = true, Err(_) | Ok(Err(E::Unsup(_))) => return ("reference_unsupported", None), Ok(Err(E::Undef(e))) => und = e } }
            if !some { return if matches!(mu.want, Want::Agree(_)) { ("undefined", None) } else { ("imported", Some(format!("has no meaning ({und}) but imported as: {}", brief_graph(&g)))) }; }
            match irmc::guarded(|| Ok(compare(&g, q, &vals, c.tol.max(1e-5)))).unwrap_or_else(|e| V::Unsup(e.text())) { V::Same(_) => ("agrees", None), V::Differ(e) | V::Bad(e) => ("imported", Some(e)), V::Unsup(_) => ("harness_unsupported", None), _ => ("undefined", None) }
        }
    }
}
fn brief_graph(g: &onnx_ir::OnnxGraph) -> String { let s = interp::dump(g).lines().take_while(|l| !l.contains("dtype")).take(8).collect::<Vec<_>>().join(" | "); s.chars().take(500).collect() }

pub fn bases(deep: bool) -> Vec<Case> {
    let mut v = vcore::wts::classes(vcore::fam2::all(), true);
    let mut n = 0; vcore::topo::wirings(false, &mut |c| { if c.model.graph.nodes.len() <= if deep { 3 } else { 2 } && c.name.contains("/plain/") && c.model.graph.outputs.len() == 1 { n += 1; v.push(c) } });
    let mut seen = BTreeSet::new();
    vcore::ctl::control(false, &mut |c| { let k: String = format!("{:?}", c.model.graph.nodes.iter().map(shape_of).collect::<Vec<_>>()); if seen.insert(k) { v.push(c) } });
    v
}
/// The operators of a node and of its bodies, nested.
fn shape_of(n: &Node) -> String { format!("{}/{}/{}{:?}", n.op, n.inputs.len(), n.outputs.len(), n.attrs.iter().filter_map(|(k, a)| if let Attr::G(g) = a { Some((k.clone(), g.nodes.iter().map(shape_of).collect::<Vec<_>>())) } else { None }).collect::<Vec<_>>()) }

pub fn c10() -> i32 {
    let mut run = Run::new("C10");
    let deep = thorough();
    let only = std::env::var("ONLY").ok();
    // bases that mean something themselves
    let cases: Vec<Case> = bases(deep).into_iter().filter(|c| only.as_ref().is_none_or(|o| c.name.contains(o.as_str())) && c.vals.iter().any(|v| reference(&c.model, v).is_ok())).collect();
    let res = par(&cases, |c| {
        let mut by: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut bad = vec![]; let mut n = 0u64;
        for mu in mutants(c, deep) {
            for s in [false, true] {
                if mu.tag.starts_with("truncated") && s { continue; }
                let (k, e) = judge_one(c, &mu, s);
                n += 1; *by.entry(k).or_default() += 1;
                if let Some(e) = e { bad.push((format!("{}@{}", c.name, mu.tag), format!("{}: {e}", if s { "simplified" } else { "raw" }))); break; }
            }
        }
        (by, bad, n)
    });
    for (c, (by, bad, n)) in cases.iter().zip(res) {
        run.transitions += n;
        for (k, x) in by { run.count(k, x); run.states += x; if matches!(k, "refused" | "refused_by_panic" | "agrees" | "typed") { run.validated += x; } }
        for (k, e) in bad { run.fail(&k, e); }
        if run.states % 40 == 7 { run.sample(|| format!("{}: {n} faulty models", c.name)); }
    }
    run.count("base_models", cases.len() as u64);
    run.finish()
}
