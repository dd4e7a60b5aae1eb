//! A minimal ONNX protobuf model and encoder, independent of the one the importer uses.
use crate::tensor::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Attr { I(i64), F(f64), S(String), Is(Vec<i64>), Fs(Vec<f64>), Ss(Vec<String>), T(TensorP), G(Graph) }

/// How a tensor's payload is carried.
#[derive(Clone, Debug, PartialEq)]
pub enum Enc { Raw, Typed, External(Vec<(String, String)>) }

#[derive(Clone, Debug, PartialEq)]
pub struct TensorP { pub name: String, pub t: T, pub enc: Enc }
impl TensorP { pub fn raw(name: &str, t: T) -> Self { TensorP { name: name.into(), t, enc: Enc::Raw } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Dim { N(i64), S(String), U }
#[derive(Clone, Debug, PartialEq)]
pub struct VI { pub name: String, pub dt: i32, pub shape: Option<Vec<Dim>> }
impl VI {
    pub fn known(name: &str, dt: DT, s: &[usize]) -> VI { VI { name: name.into(), dt: dt.onnx(), shape: Some(s.iter().map(|d| Dim::N(*d as i64)).collect()) } }
    pub fn dynr(name: &str, dt: DT, rank: usize) -> VI { VI { name: name.into(), dt: dt.onnx(), shape: Some((0..rank).map(|i| Dim::S(format!("d{i}"))).collect()) } }
    pub fn untyped(name: &str) -> VI { VI { name: name.into(), dt: 0, shape: None } }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node { pub name: String, pub op: String, pub domain: String, pub inputs: Vec<String>, pub outputs: Vec<String>, pub attrs: Vec<(String, Attr)> }
impl Node {
    pub fn new(op: &str, inputs: &[&str], outputs: &[&str]) -> Node {
        Node { name: format!("{}_{}", op, outputs.first().unwrap_or(&"")), op: op.into(), domain: String::new(), inputs: inputs.iter().map(|s| s.to_string()).collect(), outputs: outputs.iter().map(|s| s.to_string()).collect(), attrs: vec![] }
    }
    pub fn attr(mut self, k: &str, v: Attr) -> Node { self.attrs.push((k.into(), v)); self }
    pub fn i(self, k: &str, v: i64) -> Node { self.attr(k, Attr::I(v)) }
    pub fn f(self, k: &str, v: f64) -> Node { self.attr(k, Attr::F(v)) }
    pub fn s(self, k: &str, v: &str) -> Node { self.attr(k, Attr::S(v.into())) }
    pub fn is(self, k: &str, v: &[i64]) -> Node { self.attr(k, Attr::Is(v.to_vec())) }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Graph { pub name: String, pub nodes: Vec<Node>, pub inits: Vec<TensorP>, pub inputs: Vec<VI>, pub outputs: Vec<VI>, pub value_info: Vec<VI> }
impl Graph {
    pub fn init(mut self, name: &str, t: T) -> Self { self.inits.push(TensorP::raw(name, t)); self }
    pub fn input(mut self, v: VI) -> Self { self.inputs.push(v); self }
    pub fn output(mut self, v: VI) -> Self { self.outputs.push(v); self }
    pub fn node(mut self, n: Node) -> Self { self.nodes.push(n); self }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Model { pub opset: i64, pub graph: Graph }

pub struct W(pub Vec<u8>);
impl W {
    fn varint(&mut self, mut v: u64) { loop { let b = (v & 127) as u8; v >>= 7; if v == 0 { self.0.push(b); break; } self.0.push(b | 128); } }
    pub fn int(&mut self, f: u32, v: i64) { self.varint((f as u64) << 3); self.varint(v as u64); }
    pub fn bytes(&mut self, f: u32, b: &[u8]) { self.varint(((f as u64) << 3) | 2); self.varint(b.len() as u64); self.0.extend(b); }
    pub fn str(&mut self, f: u32, s: &str) { self.bytes(f, s.as_bytes()); }
    pub fn f32(&mut self, f: u32, v: f32) { self.varint(((f as u64) << 3) | 5); self.0.extend(v.to_le_bytes()); }
    pub fn msg(&mut self, f: u32, w: W) { self.bytes(f, &w.0); }
    pub fn packed(&mut self, f: u32, vs: impl Iterator<Item = u64>) { let mut w = W(vec![]); for v in vs { w.varint(v); } self.bytes(f, &w.0); }
    pub fn unpacked(&mut self, f: u32, vs: impl Iterator<Item = u64>) { for v in vs { self.varint((f as u64) << 3); self.varint(v); } }
}

pub fn tensor(tp: &TensorP) -> W {
    let mut w = W(vec![]);
    let t = &tp.t;
    w.packed(1, t.shape.iter().map(|d| *d as u64));
    w.int(2, t.dt.onnx() as i64);
    match &tp.enc {
        Enc::Raw => w.bytes(9, &t.raw()),
        Enc::Typed => typed(&mut w, t),
        Enc::External(kv) => {
            for (k, v) in kv { let mut e = W(vec![]); e.str(1, k); e.str(2, v); w.msg(13, e); }
            w.int(14, 1);
        }
    }
    w.str(8, &tp.name);
    w
}
fn typed(w: &mut W, t: &T) {
    match t.dt {
        DT::F32 => { let mut b = vec![]; for v in t.fv() { b.extend((v as f32).to_le_bytes()); } w.bytes(4, &b) }
        DT::F64 => { let mut b = vec![]; for v in t.fv() { b.extend(v.to_le_bytes()); } w.bytes(10, &b) }
        DT::F16 | DT::BF16 => { let r = t.raw(); w.packed(5, r.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]]) as u64)) }
        DT::I64 => w.packed(7, t.iv().into_iter().map(|v| v as i64 as u64)),
        DT::U32 | DT::U64 => w.packed(11, t.iv().into_iter().map(|v| v as u64)),
        _ => w.packed(5, t.iv().into_iter().map(|v| v as i64 as u64)),
    }
}
pub fn attr(name: &str, a: &Attr) -> W {
    let mut w = W(vec![]);
    w.str(1, name);
    match a {
        Attr::F(v) => { w.f32(2, *v as f32); w.int(20, 1) }
        Attr::I(v) => { w.int(3, *v); w.int(20, 2) }
        Attr::S(v) => { w.str(4, v); w.int(20, 3) }
        Attr::T(t) => { w.msg(5, tensor(t)); w.int(20, 4) }
        Attr::G(g) => { w.msg(6, graph(g)); w.int(20, 5) }
        Attr::Fs(v) => { for x in v { w.f32(7, *x as f32) } w.int(20, 6) }
        Attr::Is(v) => { w.unpacked(8, v.iter().map(|x| *x as u64)); w.int(20, 7) }
        Attr::Ss(v) => { for x in v { w.str(9, x) } w.int(20, 8) }
    }
    w
}
pub fn vi(v: &VI) -> W {
    let mut w = W(vec![]);
    w.str(1, &v.name);
    if v.dt != 0 || v.shape.is_some() {
        let mut tt = W(vec![]);
        tt.int(1, v.dt as i64);
        if let Some(s) = &v.shape {
            let mut sh = W(vec![]);
            for d in s { let mut dd = W(vec![]); match d { Dim::N(n) => dd.int(1, *n), Dim::S(s) => dd.str(2, s), Dim::U => {} } sh.msg(1, dd); }
            tt.msg(2, sh);
        }
        let mut ty = W(vec![]);
        ty.msg(1, tt);
        w.msg(2, ty);
    }
    w
}
pub fn node(n: &Node) -> W {
    let mut w = W(vec![]);
    for i in &n.inputs { w.str(1, i) }
    for o in &n.outputs { w.str(2, o) }
    w.str(3, &n.name);
    w.str(4, &n.op);
    for (k, a) in &n.attrs { w.msg(5, attr(k, a)) }
    if !n.domain.is_empty() { w.str(7, &n.domain) }
    w
}
pub fn graph(g: &Graph) -> W {
    let mut w = W(vec![]);
    for n in &g.nodes { w.msg(1, node(n)) }
    w.str(2, if g.name.is_empty() { "g" } else { &g.name });
    for t in &g.inits { w.msg(5, tensor(t)) }
    for v in &g.inputs { w.msg(11, vi(v)) }
    for v in &g.outputs { w.msg(12, vi(v)) }
    for v in &g.value_info { w.msg(13, vi(v)) }
    w
}
impl Model {
    pub fn new(opset: i64, graph: Graph) -> Model { Model { opset, graph } }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        w.int(1, 8);
        w.str(2, "vcore");
        w.msg(7, graph(&self.graph));
        let mut o = W(vec![]);
        o.str(1, "");
        o.int(2, self.opset);
        w.msg(8, o);
        w.0
    }
}
