//! C05: tensor data through every encoding and carrier, compared byte for byte.
use irmc::{check::subgraphs, guarded, import_bytes, util::*, Fail};
use onnx_ir::ir::{ArgType, Node as IrNode};
use onnx_ir::OnnxGraph;
use vcore::proto::*;
use vcore::report::*;
use vcore::tensor::*;

/// A tensor as bytes: nothing here interprets the elements.
#[derive(Clone, Debug, PartialEq)]
struct B { dt: DT, shape: Vec<usize>, raw: Vec<u8> }
#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Raw, Packed, Unpacked, Split }
const HOW: [How; 4] = [How::Raw, How::Packed, How::Unpacked, How::Split];
/// Placement of the fields within the message.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Order { Usual, DataFirst, TypeLast }
fn varint(mut v: u64) -> Vec<u8> { let mut o = vec![]; loop { let b = (v & 127) as u8; v >>= 7; if v == 0 { o.push(b); return o; } o.push(b | 128); } }
fn elems(b: &B) -> Vec<u64> {
    let n = b.dt.size();
    b.raw.chunks(n).map(|c| { let mut x = [0u8; 8]; x[..n].copy_from_slice(c); let v = u64::from_le_bytes(x); if b.dt.is_signed() && n < 8 && c[n - 1] & 0x80 != 0 { v | (!0u64 << (8 * n)) } else { v } }).collect()
}
fn data_fields(b: &B, how: How) -> Vec<u8> {
    let mut w = W(vec![]);
    if how == How::Raw { w.bytes(9, &b.raw); return w.0; }
    let field = match b.dt { DT::F32 => 4, DT::F64 => 10, DT::I64 => 7, DT::U32 | DT::U64 => 11, _ => 5 };
    let items: Vec<Vec<u8>> = if b.dt == DT::F32 || b.dt == DT::F64 { b.raw.chunks(b.dt.size()).map(|c| c.to_vec()).collect() } else { elems(b).into_iter().map(varint).collect() };
    let wire = match b.dt { DT::F32 => 5u64, DT::F64 => 1, _ => 0 };
    match how {
        How::Packed => w.bytes(field, &items.concat()),
        How::Split => { let k = items.len() / 2; w.bytes(field, &items[..k].concat()); w.bytes(field, &items[k..].concat()); }
        _ => for i in items { w.0.extend(varint((field as u64) << 3 | wire)); w.0.extend(i); },
    }
    w.0
}
fn tensor_proto(name: &str, b: &B, how: How, order: Order, dims_packed: bool) -> W {
    let mut dims = W(vec![]);
    if dims_packed { dims.packed(1, b.shape.iter().map(|d| *d as u64)); } else { dims.unpacked(1, b.shape.iter().map(|d| *d as u64)); }
    let mut ty = W(vec![]); ty.int(2, b.dt.onnx() as i64);
    let mut nm = W(vec![]); if !name.is_empty() { nm.str(8, name); } nm.str(12, "doc");
    let d = data_fields(b, how);
    W(match order { Order::Usual => [dims.0, ty.0, d, nm.0].concat(), Order::DataFirst => [d, nm.0, dims.0, ty.0].concat(), Order::TypeLast => [nm.0, dims.0, d, ty.0].concat() })
}
#[derive(Clone, Debug)]
enum Carrier { Init, InitListed, Attr, F, Fs, I, Is }
/// Constant node with a hand-made attribute.
fn const_node(out: &str, attr: W) -> W { let mut n = node(&Node::new("Constant", &[], &[out])); n.msg(5, attr); n }
fn attr_w(name: &str, ty: i64, fill: impl Fn(&mut W)) -> W { let mut w = W(vec![]); w.str(1, name); fill(&mut w); w.int(20, ty); w }
struct G { nodes: Vec<W>, inits: Vec<W>, inputs: Vec<VI>, outputs: Vec<VI> }
impl G {
    fn new() -> G { G { nodes: vec![], inits: vec![], inputs: vec![], outputs: vec![] } }
    fn put(&mut self, name: &str, b: &B, c: &Carrier, how: How, order: Order, dp: bool) {
        match c {
            Carrier::Init => self.inits.push(tensor_proto(name, b, how, order, dp)),
            Carrier::InitListed => { self.inits.push(tensor_proto(name, b, how, order, dp)); self.inputs.push(VI::known(name, b.dt, &b.shape)); }
            Carrier::Attr => self.nodes.push(const_node(name, attr_w("value", 4, |w| w.msg(5, tensor_proto("", b, how, order, dp))))),
            Carrier::F => self.nodes.push(const_node(name, attr_w("value_float", 1, |w| { w.0.push(0x15); w.0.extend(&b.raw); }))),
            Carrier::Fs => self.nodes.push(const_node(name, attr_w("value_floats", 6, |w| if dp { w.bytes(7, &b.raw) } else { for c in b.raw.chunks(4) { w.0.push(0x3d); w.0.extend(c); } }))),
            Carrier::I => self.nodes.push(const_node(name, attr_w("value_int", 2, |w| w.int(3, elems(b)[0] as i64)))),
            Carrier::Is => self.nodes.push(const_node(name, attr_w("value_ints", 7, |w| if dp { w.packed(8, elems(b).into_iter()) } else { w.unpacked(8, elems(b).into_iter()) }))),
        }
    }
    /// A consumer of constant `w` next to runtime input `x`, keeping the constant as its second operand.
    fn consume(&mut self, x: &str, w: &str, y: &str, b: &B) {
        if b.shape.is_empty() {
            self.inputs.push(VI::known(x, b.dt, &[2]));
            self.nodes.push(node(&Node::new("Equal", &[x, w], &[y])));
            self.outputs.push(VI::known(y, DT::Bool, &[2]));
        } else {
            self.inputs.push(VI::known(x, b.dt, &b.shape));
            self.nodes.push(node(&Node::new("Concat", &[x, w], &[y]).i("axis", 0)));
            let mut s = b.shape.clone(); s[0] *= 2;
            self.outputs.push(VI::known(y, b.dt, &s));
        }
    }
    fn graph(&self) -> W {
        let mut w = W(vec![]);
        for n in &self.nodes { w.bytes(1, &n.0) }
        w.str(2, "g");
        for n in &self.inits { w.bytes(5, &n.0) }
        for v in &self.inputs { w.msg(11, vi(v)) }
        for v in &self.outputs { w.msg(12, vi(v)) }
        w
    }
    fn model(&self) -> Vec<u8> { let mut w = W(vec![]); w.int(1, 8); w.msg(7, self.graph()); let mut o = W(vec![]); o.str(1, ""); o.int(2, 16); w.msg(8, o); w.0 }
}
/// The constant that reaches the second operand of the node whose first operand is runtime value `x`.
fn found(g: &OnnxGraph, x: &str) -> Result<B, Fail> { guarded(|| {
    let n = g.nodes.iter().find(|n| n.inputs().len() > 1 && n.inputs()[0].name == x).ok_or(format!("no node reads '{x}' first"))?;
    let a = &n.inputs()[1];
    let d = match a.value() { Some(d) => d, None => {
        let c = g.nodes.iter().find(|c| matches!(c, IrNode::Constant(_)) && c.outputs()[0].name == a.name).ok_or(format!("operand '{}' is not a constant", a.name))?;
        c.inputs().first().and_then(|a| a.value()).or_else(|| c.outputs()[0].value()).ok_or("constant has no data")?
    } };
    let dt = irmc::interp::dt(d.dtype).ok_or(format!("element type {:?}", d.dtype))?;
    let (want_dt, want_shape) = match &a.ty { ArgType::Shape(n) => (DT::I64, vec![*n]), ArgType::Tensor(t) => (irmc::interp::dt(t.dtype).ok_or("operand type")?, t.static_shape.clone().map(|s| s.into_iter().map(|d| d.unwrap_or(usize::MAX)).collect()).unwrap_or(d.shape.to_vec())), t => (irmc::interp::dt(t.elem_type()).ok_or("operand type")?, vec![]) };
    if want_dt != dt { return Err(format!("operand is typed {} but holds {}", want_dt.name(), dt.name())); }
    if want_shape != d.shape.to_vec() && !(want_shape.is_empty() && d.shape.iter().product::<usize>() == 1) { return Err(format!("operand is typed {want_shape:?} but holds {:?}", d.shape)); }
    Ok(B { dt, shape: d.shape.to_vec(), raw: d.as_bytes().to_vec() })
}) }
fn show(b: &B) -> String { let s: String = b.raw.iter().take(24).map(|x| format!("{x:02x}")).collect(); format!("{}{:?} {s}{}", b.dt.name(), b.shape, if b.raw.len() > 24 { "…" } else { "" }) }
fn judge(run: &mut Run, key: &str, r: &[Result<B, Fail>], want: &[&B]) {
    run.states += 1;
    for (k, (r, w)) in r.iter().zip(want).enumerate() {
        run.transitions += 1;
        match r {
            Err(e) => run.fail(key, format!("tensor {k} ({}) not imported: {}", show(w), e.text())),
            Ok(b) if b != *w => run.fail(key, format!("tensor {k}: {} was imported as {}", show(w), show(b))),
            _ => run.validated += 1,
        }
    }
}
/// Interesting bit patterns of an element type.
fn patterns(dt: DT) -> Vec<u64> {
    let b = dt.bits();
    let m = if b == 64 { !0u64 } else { (1u64 << b) - 1 };
    if dt == DT::Bool { return vec![0, 1]; }
    let mut v = vec![0, 1, 2, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2, 0x5555555555555555 & m, 0xaaaaaaaaaaaaaaaa & m, 0x0102030405060708 & m, 0x80 & m, 0x7f, 0xff & m];
    match dt {
        DT::F32 => v.extend([0x80000000u64, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0xffc12345, 0x7fffffff, 0x00800000, 0x007fffff, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x3dcccccd]),
        DT::F64 => v.extend([1u64 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8000000012345, 0x0010000000000000, 0x000fffffffffffff, 0x8000000000000001, 0x7fefffffffffffff, 0x3fb999999999999a, 0x4340000000000001]),
        DT::F16 => v.extend([0x8000u64, 0x3c00, 0xbc00, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0xfe34, 0x0400, 0x03ff, 0x8001, 0x7bff]),
        DT::BF16 => v.extend([0x8000u64, 0x3f80, 0xbf80, 0x7f80, 0xff80, 0x7fc0, 0x7f81, 0xffc1, 0x0080, 0x007f, 0x8001, 0x7f7f]),
        _ => {}
    }
    v.sort(); v.dedup(); v
}
fn mk(dt: DT, shape: &[usize], pats: &[u64]) -> B { let n = numel(shape); B { dt, shape: shape.to_vec(), raw: (0..n).flat_map(|i| pats[i % pats.len()].to_le_bytes()[..dt.size()].to_vec()).collect() } }
fn tensors(dt: DT) -> Vec<B> {
    let p = patterns(dt);
    let mut v: Vec<B> = p.iter().map(|x| mk(dt, &[], &[*x])).collect();
    v.extend(p.iter().map(|x| mk(dt, &[1], &[*x])));
    let n = p.len();
    for s in [vec![n], vec![1, n], vec![n, 1], vec![2, 3], vec![3, 2], vec![2, 2, 2], vec![1, 2, 1, 3], vec![1, 1, 1, 1, 1], vec![2, 1, 2, 1, 2], vec![1, 1, 1, 2, 1, 3], vec![0], vec![0, 3], vec![2, 0], vec![1, 0, 2], vec![7], vec![1, 1]] { v.push(mk(dt, &s, &p)); let r: Vec<u64> = p.iter().rev().copied().collect(); if numel(&s) > 0 { v.push(mk(dt, &s, &r)); } }
    // every pair of patterns next to each other
    for a in &p { v.push(mk(dt, &[2, n], &p.iter().flat_map(|b| [*a, *b]).collect::<Vec<_>>())); }
    v
}
/// Every bit pattern (up to 16 bits), every one- and two-bit pattern and its complement (above).
fn sweep(dt: DT) -> B {
    let b = dt.bits();
    let p: Vec<u64> = if dt == DT::Bool { vec![0, 1, 1, 0] } else if b <= 16 { (0..1u64 << b).collect() } else { let m = if b == 64 { !0 } else { (1u64 << b) - 1 }; let mut v = vec![0u64]; for i in 0..b { for j in 0..=i { let x = 1u64 << i | 1u64 << j; v.push(x); v.push(!x & m); } } v };
    mk(dt, &[p.len()], &p)
}
pub fn c05() -> i32 {
    let mut run = Run::new("C05");
    // single tensors
    let mut jobs: Vec<(String, Vec<u8>, B)> = vec![];
    let mut add = |b: &B, c: Carrier, how: How, o: Order, dp: bool| {
        let mut g = G::new();
        g.put("w", b, &c, how, o, dp);
        g.consume("x", "w", "y", b);
        jobs.push((format!("{c:?}/{how:?}/{o:?}/dims={dp}/{}", show(b)), g.model(), b.clone()));
    };
    for dt in ALL_DT {
        for b in tensors(dt) { for how in HOW { for c in [Carrier::Init, Carrier::InitListed, Carrier::Attr] { for o in [Order::Usual, Order::DataFirst, Order::TypeLast] { for dp in [false, true] { if o != Order::Usual && dp && !thorough() { continue; } add(&b, c.clone(), how, o, dp); } } } } }
        let s = sweep(dt);
        for how in HOW { for c in [Carrier::Init, Carrier::Attr] { add(&s, c, how, Order::Usual, true); } }
    }
    for p in patterns(DT::F32) { let b = mk(DT::F32, &[], &[p]); add(&b, Carrier::F, How::Raw, Order::Usual, true); }
    for p in patterns(DT::I64) { let b = mk(DT::I64, &[], &[p]); add(&b, Carrier::I, How::Raw, Order::Usual, true); }
    for b in tensors(DT::F32).into_iter().chain([sweep(DT::F32)]) { if b.shape.len() == 1 { for dp in [false, true] { add(&b, Carrier::Fs, How::Raw, Order::Usual, dp); } } }
    for b in tensors(DT::I64).into_iter().chain([sweep(DT::I64)]) { if b.shape.len() == 1 { for dp in [false, true] { add(&b, Carrier::Is, How::Raw, Order::Usual, dp); } } }
    for simp in [false, true] {
        let res = par(&jobs, |(_, m, _)| import_bytes(m, simp).and_then(|g| found(&g, "x")));
        for ((k, _, b), r) in jobs.iter().zip(res) { judge(&mut run, &format!("{}{k}", if simp { "simplified/" } else { "" }), &[r], &[b]); }
    }
    run.count("single_tensor_models", 2 * jobs.len() as u64);
    drop(jobs);
    several(&mut run);
    nested(&mut run);
    folded(&mut run);
    external(&mut run);
    run.finish()
}
/// Two tensors that look alike in one model; several initializers in every order.
fn several(run: &mut Run) {
    let z = vec![0u8; 8];
    let b = |dt, s: &[usize], r: &[u8]| B { dt, shape: s.to_vec(), raw: r.to_vec() };
    let f = |v: &[u32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let like = vec![b(DT::F32, &[2], &z), b(DT::F32, &[2], &f(&[0x80000000, 0])), b(DT::F32, &[2], &f(&[0, 0x80000000])), b(DT::I32, &[2], &z), b(DT::U32, &[2], &z), b(DT::I64, &[1], &z), b(DT::I64, &[], &z), b(DT::F64, &[1], &z), b(DT::U8, &[8], &z), b(DT::I8, &[8], &z), b(DT::Bool, &[8], &z), b(DT::F32, &[1, 2], &z), b(DT::F32, &[2, 1], &z), b(DT::U8, &[2, 4], &z), b(DT::U8, &[4, 2], &z), b(DT::F32, &[2], &f(&[0x7fc00000, 0])), b(DT::F32, &[2], &f(&[0x7fc00001, 0])), b(DT::F32, &[0], &[]), b(DT::F32, &[0, 2], &[]), b(DT::I64, &[0], &[]), b(DT::F16, &[4], &z), b(DT::BF16, &[4], &z), b(DT::F32, &[1], &f(&[0x3f800000])), b(DT::F32, &[], &f(&[0x3f800000])), b(DT::I64, &[1], &[1, 0, 0, 0, 0, 0, 0, 0]), b(DT::I64, &[], &[1, 0, 0, 0, 0, 0, 0, 0])];
    let mut jobs = vec![];
    for a in &like { for c in &like { for (ca, cc) in [(Carrier::Init, Carrier::Init), (Carrier::Init, Carrier::Attr), (Carrier::Attr, Carrier::Attr), (Carrier::Attr, Carrier::Init)] {
        let mut g = G::new();
        g.put("wa", a, &ca, How::Raw, Order::Usual, true);
        g.put("wb", c, &cc, How::Packed, Order::Usual, true);
        g.consume("xa", "wa", "ya", a);
        g.consume("xb", "wb", "yb", c);
        jobs.push((format!("pair/{ca:?}/{cc:?}/{}/{}", show(a), show(c)), g.model(), vec!["xa".to_string(), "xb".into()], vec![a.clone(), c.clone()]));
    } } }
    // five initializers stored in every order, consumed in every rotation
    let five: Vec<B> = vec![b(DT::F32, &[2], &f(&[1, 2])), b(DT::F32, &[2], &f(&[3, 4])), b(DT::U8, &[2], &[5, 6]), b(DT::I64, &[], &[7, 0, 0, 0, 0, 0, 0, 0]), b(DT::F32, &[0], &[])];
    for p in perms(5) { for rot in 0..5 { for how in [How::Raw, How::Packed] { for mixed in [false, true] {
        let mut g = G::new();
        for k in &p { g.put(&format!("w{k}"), &five[*k], if mixed && k % 2 == 0 { &Carrier::Attr } else { &Carrier::Init }, how, Order::Usual, true); }
        for k in 0..5 { let k = (k + rot) % 5; g.consume(&format!("x{k}"), &format!("w{k}"), &format!("y{k}"), &five[k]); }
        jobs.push((format!("order/{p:?}/{rot}/{how:?}/mixed={mixed}"), g.model(), (0..5).map(|k| format!("x{k}")).collect(), five.clone()));
    } } } }
    for simp in [false, true] {
        let res = par(&jobs, |(_, m, xs, _)| match import_bytes(m, simp) { Ok(g) => xs.iter().map(|x| found(&g, x)).collect(), Err(e) => xs.iter().map(|_| Err(e.clone())).collect::<Vec<_>>() });
        for ((k, _, _, w), r) in jobs.iter().zip(res) { judge(run, &format!("{}{k}", if simp { "simplified/" } else { "" }), &r, &w.iter().collect::<Vec<_>>()); }
    }
    run.count("multi_tensor_models", 2 * jobs.len() as u64);
}
/// Tensors in branch bodies, one and two levels down.
fn nested(run: &mut Run) {
    let mut jobs = vec![];
    for dt in ALL_DT { for s in [vec![], vec![3usize], vec![2, 2], vec![0]] { for how in HOW { for c in [Carrier::Init, Carrier::Attr] { for depth in 1..=2usize {
        let b = mk(dt, &s, &patterns(dt));
        let oshape: Vec<usize> = if s.is_empty() { vec![2] } else { let mut t = s.clone(); t[0] *= 2; t };
        let odt = if s.is_empty() { DT::Bool } else { dt };
        // then: consume(w); else: the same with the bytes reversed per element order
        let mut rev = b.clone(); rev.raw = b.raw.chunks(dt.size()).rev().flatten().copied().collect();
        let body = |b: &B, tag: &str| { let mut g = G::new(); g.put("w", b, &c, how, Order::Usual, true); let out = format!("y{tag}"); let mut h = G::new(); h.consume("x", "w", &out, b); g.nodes.extend(h.nodes); g.outputs = h.outputs; g };
        let iff = |t: W, e: W, out: &str| { let mut n = node(&Node::new("If", &["c"], &[out])); n.msg(5, attr_w("then_branch", 5, |w| w.bytes(6, &t.0))); n.msg(5, attr_w("else_branch", 5, |w| w.bytes(6, &e.0))); n };
        let mut inner = G::new();
        inner.nodes.push(iff(body(&b, "t").graph(), body(&rev, "e").graph(), "q"));
        inner.outputs.push(VI::known("q", odt, &oshape));
        let top = if depth == 1 { let mut g = G::new(); g.nodes = inner.nodes; g.outputs = inner.outputs; g } else { let mut g = G::new(); g.nodes.push(iff(inner.graph(), body(&rev, "f").graph(), "r")); g.outputs.push(VI::known("r", odt, &oshape)); g };
        let mut top = top;
        top.inputs.push(VI::known("c", DT::Bool, &[]));
        top.inputs.push(VI::known("x", dt, &if s.is_empty() { vec![2] } else { s.clone() }));
        jobs.push((format!("nested/depth={depth}/{c:?}/{how:?}/{}", show(&b)), top.model(), depth, b, rev));
    } } } } }
    for simp in [false, true] {
        let res = par(&jobs, |(_, m, depth, _, _)| -> Vec<Result<B, Fail>> {
            let g = match import_bytes(m, simp) { Ok(g) => g, Err(e) => return vec![Err(e.clone()), Err(e)] };
            let mut cur = &g;
            for _ in 1..*depth { match cur.nodes.iter().find_map(|n| subgraphs(n).into_iter().next()) { Some((_, s)) => cur = s, None => return vec![Err(Fail::Err("no branch".into()))] } }
            let subs: Vec<_> = cur.nodes.iter().flat_map(|n| subgraphs(n)).collect();
            if subs.len() != 2 { return vec![Err(Fail::Err(format!("{} branches", subs.len())))]; }
            subs.iter().map(|(_, s)| found_any(s)).collect()
        });
        for ((k, _, _, a, b), r) in jobs.iter().zip(res) { judge(run, &format!("{}{k}", if simp { "simplified/" } else { "" }), &r, &[a, b]); }
    }
    run.count("nested_models", 2 * jobs.len() as u64);
}
fn found_any(g: &OnnxGraph) -> Result<B, Fail> { let x = g.nodes.iter().find(|n| !matches!(n, IrNode::Constant(_)) && n.inputs().len() > 1).map(|n| n.inputs()[0].name.clone()).ok_or(Fail::Err("no consumer".into()))?; found(g, &x) }
/// Constants that only reach a graph output, and weights embedded in an operator.
fn folded(run: &mut Run) {
    let mut jobs = vec![];
    for dt in ALL_DT { for b in tensors(dt).into_iter().filter(|b| !b.raw.is_empty()) { if b.shape.len() > 3 { continue; } for c in [Carrier::Init, Carrier::Attr] {
        let mut g = G::new();
        g.put("w", &b, &c, How::Raw, Order::Usual, true);
        g.nodes.push(node(&Node::new("Identity", &["w"], &["y"])));
        g.inputs.push(VI::known("x", DT::F32, &[1])); g.nodes.push(node(&Node::new("Relu", &["x"], &["z"]))); g.outputs.push(VI::known("z", DT::F32, &[1]));
        g.outputs.push(VI::known("y", b.dt, &b.shape));
        jobs.push((format!("output/{c:?}/{}", show(&b)), g.model(), b.clone()));
    } } }
    for simp in [false, true] {
        let res = par(&jobs, |(_, m, _)| import_bytes(m, simp).and_then(|g| guarded(|| {
            let o = g.outputs.get(1).ok_or("the constant output is missing")?;
            let c = g.nodes.iter().find(|c| matches!(c, IrNode::Constant(_)) && c.outputs()[0].name == o.name).ok_or(format!("output '{}' is not a constant", o.name))?;
            let d = c.inputs().first().and_then(|a| a.value()).or_else(|| c.outputs()[0].value()).ok_or("constant has no data")?;
            Ok(B { dt: irmc::interp::dt(d.dtype).ok_or("type")?, shape: d.shape.to_vec(), raw: d.as_bytes().to_vec() })
        })));
        for ((k, _, b), r) in jobs.iter().zip(res) { judge(run, &format!("{}{k}", if simp { "simplified/" } else { "" }), &[r], &[b]); }
    }
    run.count("constant_output_models", 2 * jobs.len() as u64);
    let mut jobs = vec![];
    for dt in [DT::F32, DT::F64, DT::F16, DT::BF16] { for s in [vec![1usize, 1, 2], vec![2, 1, 3], vec![3, 1, 1]] { for how in HOW { for rot in 0..patterns(dt).len() {
        let mut p = patterns(dt); p.rotate_left(rot);
        let b = mk(dt, &s, &p);
        let mut g = G::new();
        g.put("w", &b, &Carrier::Init, how, Order::Usual, true);
        g.inputs.push(VI::known("x", dt, &[1, 1, 4])); g.nodes.push(node(&Node::new("Conv", &["x", "w"], &["y"]))); g.outputs.push(VI::dynr("y", dt, 3));
        jobs.push((format!("weight/{how:?}/{}", show(&b)), g.model(), b));
    } } } }
    let res = par(&jobs, |(_, m, _)| import_bytes(m, false).and_then(|g| found(&g, "x")));
    for ((k, _, b), r) in jobs.iter().zip(res) { judge(run, k, &[r], &[b]); }
    run.count("weight_models", jobs.len() as u64);
}
/// The same tensors from an external file.
fn external(run: &mut Run) {
    let sc = Scratch::new("c05");
    let mut jobs = vec![];
    for dt in ALL_DT { for b in tensors(dt).into_iter().chain([sweep(dt)]) { for off in [0usize, 3, 64] { for len in [false, true] {
        if off == 3 && !len && !thorough() { continue; }
        jobs.push((dt, b.clone(), off, len));
    } } } }
    let idx: Vec<usize> = (0..jobs.len()).collect();
    let res = par(&idx, |i| {
        let (_, b, off, len) = &jobs[*i];
        let d = sc.0.join(format!("m{i}"));
        std::fs::create_dir(&d).unwrap();
        let mut data = vec![0xEEu8; *off]; data.extend(&b.raw); if *len { data.extend([0xDD; 5]); }
        std::fs::write(d.join("w.bin"), &data).unwrap();
        let mut g = G::new();
        let mut t = W(vec![]); t.packed(1, b.shape.iter().map(|d| *d as u64)); t.int(2, b.dt.onnx() as i64); t.str(8, "w");
        let mut kv = vec![("location", "w.bin".to_string())]; if *off > 0 { kv.push(("offset", off.to_string())); } if *len { kv.push(("length", b.raw.len().to_string())); }
        for (k, v) in kv { let mut e = W(vec![]); e.str(1, k); e.str(2, &v); t.msg(13, e); }
        t.int(14, 1);
        g.inits.push(t);
        g.consume("x", "w", "y", b);
        let f = d.join("m.onnx");
        std::fs::write(&f, g.model()).unwrap();
        let r = import_file(&f, false).and_then(|g| found(&g, "x"));
        let _ = std::fs::remove_dir_all(&d);
        r
    });
    for ((dt, b, off, len), r) in jobs.iter().zip(res) { judge(run, &format!("external/{}/off={off}/len={len}/{}", dt.name(), show(b)), &[r], &[b]); }
    run.count("external_models", jobs.len() as u64);
}
