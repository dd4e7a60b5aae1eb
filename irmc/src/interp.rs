//! Executes the importer's output (`onnx_ir::OnnxGraph`) by reading every node's configuration and
//! arguments back into canonical ONNX operators, which the reference evaluator then runs.
use burn_tensor::{DType, TensorData};
use onnx_ir::ir::{ArgType, Argument, Node, RuntimeInputRef, ValueSource};
use onnx_ir::node as n;
use onnx_ir::OnnxGraph;
use std::collections::HashMap;
use vcore::proto::Attr;
use vcore::refi::*;
use vcore::tensor::*;

pub fn dt(d: DType) -> Option<DT> {
    Some(match d { DType::F64 => DT::F64, DType::F32 | DType::Flex32 => DT::F32, DType::F16 => DT::F16, DType::BF16 => DT::BF16, DType::I64 => DT::I64, DType::I32 => DT::I32, DType::I16 => DT::I16, DType::I8 => DT::I8, DType::U64 => DT::U64, DType::U32 => DT::U32, DType::U16 => DT::U16, DType::U8 => DT::U8, DType::Bool => DT::Bool, _ => return None })
}
pub fn td(d: &TensorData) -> Result<T, String> {
    let t = dt(d.dtype).ok_or(format!("dtype {:?}", d.dtype))?;
    T::from_raw(t, &d.shape, d.as_bytes()).ok_or(format!("payload of {} bytes does not fit {:?}{:?}", d.as_bytes().len(), t, d.shape))
}

/// The outcome of evaluating IR: `Bad` means the IR itself is broken (not merely undefined input).
#[derive(Debug, Clone)]
pub enum X { Undef(String), Unsup(String), Bad(String) }
impl From<E> for X { fn from(e: E) -> X { match e { E::Undef(s) => X::Undef(s), E::Unsup(s) => X::Unsup(s) } } }
type RX<V> = Result<V, X>;
pub type Env = HashMap<String, T>;

pub fn arg_value(a: &Argument, env: &Env) -> RX<Option<T>> {
    match &a.value_source {
        ValueSource::Optional => Ok(None),
        ValueSource::Static(_) => match a.value() { Some(d) => td(&d).map(Some).map_err(X::Bad), None => Err(X::Bad(format!("static argument '{}' has no data", a.name))) },
        _ => match env.get(&a.name) { Some(t) => Ok(Some(t.clone())), None => if a.name.is_empty() { Ok(None) } else { Err(X::Bad(format!("reads undefined value '{}'", a.name))) } },
    }
}

type At = Vec<(String, Attr)>;
fn i(k: &str, v: impl TryInto<i64>) -> (String, Attr) { (k.into(), Attr::I(v.try_into().ok().expect("int attr"))) }
fn f(k: &str, v: impl Into<f64>) -> (String, Attr) { (k.into(), Attr::F(v.into())) }
fn s(k: &str, v: &str) -> (String, Attr) { (k.into(), Attr::S(v.into())) }
fn is(k: &str, v: impl IntoIterator<Item = i64>) -> (String, Attr) { (k.into(), Attr::Is(v.into_iter().collect())) }
fn u(v: &[usize]) -> Vec<i64> { v.iter().map(|x| *x as i64).collect() }
fn iv(v: &[i64]) -> T { T::i64v(v) }

struct Ctx<'a> { ins: Vec<Option<T>>, node: &'a Node }
impl Ctx<'_> {
    fn rt(&self, r: &RuntimeInputRef) -> RX<Option<T>> {
        let a = self.node.inputs().get(r.input_index).ok_or(X::Bad(format!("runtime ref index {} out of range", r.input_index)))?;
        if a.name != r.name { return Err(X::Bad(format!("runtime ref '{}' but input {} is '{}'", r.name, r.input_index, a.name))); }
        Ok(self.ins[r.input_index].clone())
    }
}

fn pad1(p: &n::padding::PaddingConfig1d) -> Vec<i64> { match p { n::padding::PaddingConfig1d::Valid => vec![0; 2], n::padding::PaddingConfig1d::Explicit(a, b) => u(&[*a, *b]) } }
fn pad2(p: &n::padding::PaddingConfig2d) -> Vec<i64> { match p { n::padding::PaddingConfig2d::Valid => vec![0; 4], n::padding::PaddingConfig2d::Explicit(a, b, c, d) => u(&[*a, *b, *c, *d]) } }
fn pad3(p: &n::padding::PaddingConfig3d) -> Vec<i64> { match p { n::padding::PaddingConfig3d::Valid => vec![0; 6], n::padding::PaddingConfig3d::Explicit(a, b, c, d, e, g) => u(&[*a, *b, *c, *d, *e, *g]) } }
fn ap(a: &n::padding::AutoPad) -> (String, Attr) { use n::padding::AutoPad::*; s("auto_pad", match a { NotSet => "NOTSET", SameUpper => "SAME_UPPER", SameLower => "SAME_LOWER", Valid => "VALID" }) }

/// Canonical opset in which translated operators are evaluated.
const OP: i64 = 18;

pub fn eval_nodes(g: &OnnxGraph, env: &mut Env) -> RX<()> {
    for node in &g.nodes {
        let outs = eval_node(node, env).map_err(|e| match e { X::Bad(m) => X::Bad(format!("{}: {m}", node.name())), X::Undef(m) => X::Undef(format!("{}: {m}", node.name())), e => e })?;
        for (k, o) in node.outputs().iter().enumerate() {
            if o.name.is_empty() { continue; }
            match outs.get(k) { Some(Some(t)) => { env.insert(o.name.clone(), t.clone()); } _ => return Err(X::Bad(format!("{} has no output {k}", node.name()))) }
        }
    }
    Ok(())
}
pub fn eval(g: &OnnxGraph, outer: &Env) -> RX<(Vec<T>, Env)> {
    let mut env = outer.clone();
    eval_nodes(g, &mut env)?;
    let mut out = vec![];
    for o in &g.outputs { out.push(arg_value(o, &env)?.ok_or(X::Bad(format!("graph output '{}' has no value", o.name)))?); }
    Ok((out, env))
}
/// A loop's own body inputs are listed among the names its body refers to; the loop supplies them.
pub fn provided(node: &Node, name: &str) -> bool {
    match node { Node::Loop(q) => &q.config.body, Node::Scan(q) => &q.config.body, _ => return false }.inputs.iter().any(|i| i.name == name)
}
fn body_env(node: &Node, ins: &[Option<T>], refs: &[String], env: &Env) -> RX<(usize, Env)> {
    let base = node.inputs().len() - refs.len();
    let mut e = env.clone();
    for (k, r) in refs.iter().enumerate() { match &ins[base + k] { Some(t) => { e.insert(r.clone(), t.clone()); } None if provided(node, r) => {} None => return Err(X::Bad(format!("captured value '{r}' missing"))) } }
    Ok((base, e))
}

fn draw(name: &str, shape: &[usize]) -> T {
    let mut h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    T::f32(shape, &(0..numel(shape)).map(|_| { h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((h >> 40) as f64) / 16777216.0 }).collect::<Vec<_>>())
}
pub fn eval_node(node: &Node, env: &Env) -> RX<Vec<Option<T>>> {
    let mut ins: Vec<Option<T>> = vec![];
    for a in node.inputs() { ins.push(if provided(node, &a.name) { None } else { arg_value(a, env)? }); }
    let c = Ctx { ins: ins.clone(), node };
    let nout = node.outputs().len();
    let run = |ty: &str, at: At, ins: &[Option<T>]| -> RX<Vec<Option<T>>> {
        let mut r: Vec<Option<&T>> = ins.iter().map(|x| x.as_ref()).collect();
        while matches!(r.last(), Some(None)) { r.pop(); }
        Ok(eval_op(&Op { ty, attrs: &at, opset: OP, nout }, &r)?)
    };
    let x = |k: usize| -> RX<Option<T>> { Ok(ins.get(k).cloned().flatten()) };
    let plain = |ty: &str| run(ty, vec![], &ins);
    let _ = &x;
    match node {
        Node::Add(_) => plain("Add"), Node::Sub(_) => plain("Sub"), Node::Mul(_) => plain("Mul"), Node::Div(_) => plain("Div"),
        Node::Neg(_) => plain("Neg"), Node::Abs(_) => plain("Abs"), Node::Pow(_) => plain("Pow"), Node::Reciprocal(_) => plain("Reciprocal"), Node::Sqrt(_) => plain("Sqrt"), Node::Exp(_) => plain("Exp"), Node::Log(_) => plain("Log"), Node::Ceil(_) => plain("Ceil"), Node::Floor(_) => plain("Floor"), Node::Round(_) => plain("Round"), Node::Sign(_) => plain("Sign"), Node::Erf(_) => plain("Erf"),
        Node::Sin(_) => plain("Sin"), Node::Cos(_) => plain("Cos"), Node::Tan(_) => plain("Tan"), Node::Asin(_) => plain("Asin"), Node::Acos(_) => plain("Acos"), Node::Atan(_) => plain("Atan"), Node::Sinh(_) => plain("Sinh"), Node::Cosh(_) => plain("Cosh"), Node::Tanh(_) => plain("Tanh"), Node::Asinh(_) => plain("Asinh"), Node::Acosh(_) => plain("Acosh"), Node::Atanh(_) => plain("Atanh"),
        Node::Relu(_) => plain("Relu"), Node::Sigmoid(_) => plain("Sigmoid"), Node::Mish(_) => plain("Mish"), Node::Softplus(_) => plain("Softplus"), Node::Softsign(_) => plain("Softsign"), Node::HardSwish(_) => plain("HardSwish"), Node::PRelu(_) => plain("PRelu"), Node::Gelu(_) => plain("Gelu"),
        Node::Softmax(q) => run("Softmax", vec![i("axis", q.config.axis)], &ins),
        Node::LogSoftmax(q) => run("LogSoftmax", vec![i("axis", q.config.axis)], &ins),
        Node::Hardmax(q) => run("Hardmax", vec![i("axis", q.config.axis)], &ins),
        Node::LeakyRelu(q) => run("LeakyRelu", vec![f("alpha", q.config.alpha)], &ins),
        Node::HardSigmoid(q) => run("HardSigmoid", vec![f("alpha", q.config.alpha), f("beta", q.config.beta)], &ins),
        Node::Elu(q) => run("Elu", vec![f("alpha", q.config.alpha)], &ins),
        Node::Selu(q) => run("Selu", vec![f("alpha", q.config.alpha), f("gamma", q.config.gamma)], &ins),
        Node::Celu(q) => run("Celu", vec![f("alpha", q.config.alpha)], &ins),
        Node::ThresholdedRelu(q) => run("ThresholdedRelu", vec![f("alpha", q.config.alpha)], &ins),
        Node::Swish(q) => run("Swish", vec![f("alpha", q.config.alpha)], &ins),
        Node::Equal(_) => plain("Equal"), Node::Greater(_) => plain("Greater"), Node::GreaterOrEqual(_) => plain("GreaterOrEqual"), Node::Less(_) => plain("Less"), Node::LessOrEqual(_) => plain("LessOrEqual"),
        Node::And(_) => plain("And"), Node::Or(_) => plain("Or"), Node::Xor(_) => plain("Xor"), Node::Not(_) => plain("Not"), Node::Where(_) => plain("Where"),
        Node::BitwiseAnd(_) => plain("BitwiseAnd"), Node::BitwiseOr(_) => plain("BitwiseOr"), Node::BitwiseXor(_) => plain("BitwiseXor"), Node::BitwiseNot(_) => plain("BitwiseNot"),
        Node::BitShift(q) => run("BitShift", vec![s("direction", match q.config.direction { n::bitshift::Direction::Left => "LEFT", _ => "RIGHT" })], &ins),
        Node::ArgMax(q) => run("ArgMax", vec![i("axis", q.config.axis), i("keepdims", q.config.keepdims as i64)], &ins),
        Node::ArgMin(q) => run("ArgMin", vec![i("axis", q.config.axis), i("keepdims", q.config.keepdims as i64)], &ins),
        Node::ReduceMax(q) => red("ReduceMax", &q.config, &ins, &run), Node::ReduceMin(q) => red("ReduceMin", &q.config, &ins, &run), Node::ReduceMean(q) => red("ReduceMean", &q.config, &ins, &run), Node::ReduceSum(q) => red("ReduceSum", &q.config, &ins, &run), Node::ReduceProd(q) => red("ReduceProd", &q.config, &ins, &run),
        Node::ReduceL1(q) => red("ReduceL1", &q.config, &ins, &run), Node::ReduceL2(q) => red("ReduceL2", &q.config, &ins, &run), Node::ReduceLogSum(q) => red("ReduceLogSum", &q.config, &ins, &run), Node::ReduceLogSumExp(q) => red("ReduceLogSumExp", &q.config, &ins, &run), Node::ReduceSumSquare(q) => red("ReduceSumSquare", &q.config, &ins, &run),
        Node::Max(_) => plain("Max"), Node::Min(_) => plain("Min"), Node::Mean(_) => plain("Mean"), Node::Sum(_) => plain("Sum"),
        Node::Cast(q) => run("Cast", vec![i("to", dt(q.config.to).ok_or(X::Bad("cast type".into()))?.onnx() as i64)], &ins),
        Node::Clip(q) => {
            let xx = x(0)?.ok_or(X::Bad("clip input".into()))?;
            let b = |v: &Option<n::clip::ClipInput>| -> RX<Option<T>> { match v { None => Ok(None), Some(n::clip::ClipInput::Static(v)) => Ok(Some(T::num(xx.dt, &[], &[*v]))), Some(n::clip::ClipInput::Runtime(r)) => c.rt(r) } };
            run("Clip", vec![], &[Some(xx.clone()), b(&q.config.min)?, b(&q.config.max)?])
        }
        Node::Concat(q) => run("Concat", vec![i("axis", q.config.axis)], &ins),
        Node::Expand(q) => { let sh = match &q.config { n::expand::ExpandConfig::Static(v) => Some(iv(v)), n::expand::ExpandConfig::Runtime(r) => c.rt(r)? }; run("Expand", vec![], &[x(0)?, sh]) }
        Node::Flatten(q) => run("Flatten", vec![i("axis", q.config.axis)], &ins),
        Node::Gather(q) => run("Gather", vec![i("axis", q.config.axis)], &ins),
        Node::GatherElements(q) => { let ix = match &q.config.indices { n::gather_elements::GatherElementsInput::Static(_) => x(1)?, n::gather_elements::GatherElementsInput::Runtime(r) => c.rt(r)? }; run("GatherElements", vec![i("axis", q.config.axis)], &[x(0)?, ix]) }
        Node::GatherND(q) => run("GatherND", vec![i("batch_dims", q.config.batch_dims)], &ins),
        Node::Pad(q) => {
            let xx = x(0)?.ok_or(X::Bad("pad input".into()))?;
            let p = match &q.config.pads { n::pad::PadInput::Static(v) => { let mut p: Vec<i64> = v.iter().map(|a| a.0 as i64).collect(); p.extend(v.iter().map(|a| a.1 as i64)); if v.len() != xx.rank() { return Err(X::Bad(format!("pads for {} dims, rank {}", v.len(), xx.rank()))); } Some(iv(&p)) } n::pad::PadInput::Runtime(r) => c.rt(r)? };
            let v = match &q.config.constant_value { n::pad::ConstantValueInput::Static(v) => Some(T::num(xx.dt, &[], &[*v as f64])), n::pad::ConstantValueInput::Runtime(r) => c.rt(r)? };
            run("Pad", vec![s("mode", match q.config.mode { n::pad::PadMode::Constant => "constant", n::pad::PadMode::Reflect => "reflect", n::pad::PadMode::Edge => "edge" })], &[Some(xx), p, v])
        }
        Node::Reshape(q) => { let sh = match &q.config.shape { n::reshape::ReshapeInput::Static(v) => Some(iv(v)), n::reshape::ReshapeInput::Runtime(r) => c.rt(r)? }; run("Reshape", vec![], &[x(0)?, sh]) }
        Node::Resize(q) => {
            let sc = match &q.config.scales { Some(n::resize::ResizeScales::Static(v)) => Some(T::f32(&[v.len()], &v.iter().map(|a| *a as f64).collect::<Vec<_>>())), Some(n::resize::ResizeScales::Runtime(r)) => c.rt(r)?, None => None };
            let sz = match &q.config.sizes { Some(n::resize::ResizeSizes::Static(v)) => Some(iv(&u(v))), Some(n::resize::ResizeSizes::Runtime(r)) => c.rt(r)?, None => None };
            let xx = x(0)?.ok_or(X::Bad("resize input".into()))?;
            // scales / sizes may cover the two leading dims or only the spatial ones
            let full = |t: Option<T>, int: bool| t.map(|t| if t.len() + 2 == xx.rank() { let mut v = if int { vec![xx.shape[0] as f64, xx.shape[1] as f64] } else { vec![1.0, 1.0] }; v.extend(t.fv()); T::num(t.dt, &[v.len()], &v) } else { t });
            run("Resize", vec![s("mode", match q.config.mode { n::resize::ResizeMode::Nearest => "nearest", n::resize::ResizeMode::Linear => "linear", n::resize::ResizeMode::Cubic => "cubic" }), s("coordinate_transformation_mode", &q.config.coordinate_transformation_mode), s("nearest_mode", &q.config.nearest_mode), f("cubic_coeff_a", q.config.cubic_coeff_a), i("antialias", q.config.antialias), i("exclude_outside", q.config.exclude_outside)], &[Some(xx.clone()), None, full(sc, false), full(sz, true)])
        }
        Node::ScatterElements(q) => { use n::scatter_elements::ScatterElementsReduction as Q; run("ScatterElements", vec![i("axis", q.config.axis), s("reduction", match q.config.reduction { Q::None => "none", Q::Add => "add", Q::Mul => "mul", Q::Max => "max", Q::Min => "min" })], &ins) }
        Node::ScatterND(q) => { use n::scatter_nd::ScatterNDReduction as Q; run("ScatterND", vec![s("reduction", match q.config.reduction { Q::None => "none", Q::Add => "add", Q::Mul => "mul", Q::Max => "max", Q::Min => "min" })], &ins) }
        Node::Shape(q) => run("Shape", vec![i("start", q.config.start), i("end", q.config.end)], &ins),
        Node::Size(_) => plain("Size"),
        Node::Slice(q) => {
            let g = |v: &n::slice::SliceInput| -> RX<Option<T>> { match v { n::slice::SliceInput::Static(v) => Ok(Some(iv(v))), n::slice::SliceInput::Runtime(r) => c.rt(r) } };
            let o = |v: &Option<n::slice::SliceInput>| -> RX<Option<T>> { match v { None => Ok(None), Some(v) => g(v) } };
            run("Slice", vec![], &[x(0)?, g(&q.config.starts)?, g(&q.config.ends)?, o(&q.config.axes)?, o(&q.config.steps)?])
        }
        Node::Split(q) => {
            let xx = x(0)?.ok_or(X::Bad("split input".into()))?;
            let d = xx.shape[q.config.axis];
            let sz = match (&q.config.split_sizes, q.config.split_size) {
                (Some(n::split::SplitSizesInput::Static(v)), _) => Some(iv(&u(v))),
                (Some(n::split::SplitSizesInput::Runtime(r)), _) => c.rt(r)?,
                (None, Some(k)) => { if k == 0 { return Err(X::Bad("split_size 0".into())); } let mut v = vec![]; let mut left = d; while left > 0 { let m = k.min(left); v.push(m as i64); left -= m; } Some(iv(&v)) }
                (None, None) => { let k = q.config.num_outputs.unwrap_or(nout); let ch = d.div_ceil(k); let mut v = vec![]; let mut left = d; for _ in 0..k { let m = ch.min(left); v.push(m as i64); left -= m; } Some(iv(&v)) }
            };
            run("Split", vec![i("axis", q.config.axis)], &[Some(xx), sz])
        }
        Node::Squeeze(q) => { let a = match &q.config.axes { None => None, Some(n::squeeze::SqueezeInput::Static(v)) => Some(iv(v)), Some(n::squeeze::SqueezeInput::Runtime(r)) => c.rt(r)? }; run("Squeeze", vec![], &[x(0)?, a]) }
        Node::Tile(q) => { let a = match &q.config.repeats { n::tile::TileInput::Static(v) => Some(iv(&u(v))), n::tile::TileInput::Runtime(r) => c.rt(r)? }; run("Tile", vec![], &[x(0)?, a]) }
        Node::Transpose(q) => run("Transpose", vec![is("perm", q.config.perm.iter().copied())], &ins),
        Node::Unsqueeze(q) => { let a = match &q.config { n::unsqueeze::UnsqueezeConfig::Static(v) => Some(iv(v)), n::unsqueeze::UnsqueezeConfig::Runtime(r) => c.rt(r)? }; run("Unsqueeze", vec![], &[x(0)?, a]) }
        Node::DepthToSpace(q) => run("DepthToSpace", vec![i("blocksize", q.config.block_size), s("mode", match q.config.mode { n::depth_to_space::DepthToSpaceMode::Dcr => "DCR", _ => "CRD" })], &ins),
        Node::SpaceToDepth(q) => run("SpaceToDepth", vec![i("blocksize", q.config.block_size)], &ins),
        Node::MatMul(_) => plain("MatMul"), Node::MatMulInteger(_) => plain("MatMulInteger"),
        Node::Gemm(q) => run("Gemm", vec![f("alpha", q.config.alpha), f("beta", q.config.beta), i("transA", q.config.trans_a), i("transB", q.config.trans_b)], &ins),
        Node::Linear(q) => {
            let (xx, w) = (x(0)?.ok_or(X::Bad("linear input".into()))?, x(1)?.ok_or(X::Bad("linear weight".into()))?);
            let w = if q.config.transpose_weight { transpose(&w, &[1, 0]) } else { w };
            if w.rank() != 2 { return Err(X::Bad("linear weight rank".into())); }
            let y = matmul(&xx, &w)?;
            match x(2)? { None => Ok(vec![Some(y)]), Some(b) => { if b.rank() != 1 { return Err(X::Bad(format!("linear bias of rank {}", b.rank()))); } run("Add", vec![], &[Some(y), Some(b)]) } }
        }
        Node::Conv1d(q) => { let k = &q.config; run("Conv", vec![is("kernel_shape", u(&[k.kernel_size])), is("strides", u(&[k.stride])), is("dilations", u(&[k.dilation])), i("group", k.groups), is("pads", pad1(&k.padding)), ap(&k.auto_pad)], &ins) }
        Node::Conv2d(q) => { let k = &q.config; run("Conv", vec![is("kernel_shape", u(&k.kernel_size)), is("strides", u(&k.stride)), is("dilations", u(&k.dilation)), i("group", k.groups), is("pads", pad2(&k.padding)), ap(&k.auto_pad)], &ins) }
        Node::Conv3d(q) => { let k = &q.config; run("Conv", vec![is("kernel_shape", u(&k.kernel_size)), is("strides", u(&k.stride)), is("dilations", u(&k.dilation)), i("group", k.groups), is("pads", pad3(&k.padding)), ap(&k.auto_pad)], &ins) }
        Node::ConvTranspose1d(q) => { let k = &q.config; ct(&[k.kernel_size], &[k.stride], &[k.dilation], &[k.padding], &[k.padding_out], k.groups, &ins, &run) }
        Node::ConvTranspose2d(q) => { let k = &q.config; ct(&k.kernel_size, &k.stride, &k.dilation, &k.padding, &k.padding_out, k.groups, &ins, &run) }
        Node::ConvTranspose3d(q) => { let k = &q.config; ct(&k.kernel_size, &k.stride, &k.dilation, &k.padding, &k.padding_out, k.groups, &ins, &run) }
        Node::AveragePool1d(q) => { let k = &q.config; run("AveragePool", vec![is("kernel_shape", u(&[k.kernel_size])), is("strides", u(&[k.stride])), is("dilations", u(&[k.dilation])), is("pads", pad1(&k.padding)), ap(&k.auto_pad), i("ceil_mode", k.ceil_mode as i64), i("count_include_pad", k.count_include_pad as i64)], &ins) }
        Node::AveragePool2d(q) => { let k = &q.config; run("AveragePool", vec![is("kernel_shape", u(&k.kernel_size)), is("strides", u(&k.strides)), is("dilations", u(&k.dilation)), is("pads", pad2(&k.padding)), ap(&k.auto_pad), i("ceil_mode", k.ceil_mode as i64), i("count_include_pad", k.count_include_pad as i64)], &ins) }
        Node::MaxPool1d(q) => { let k = &q.config; run("MaxPool", vec![is("kernel_shape", u(&[k.kernel_size])), is("strides", u(&[k.stride])), is("dilations", u(&[k.dilation])), is("pads", pad1(&k.padding)), ap(&k.auto_pad), i("ceil_mode", k.ceil_mode as i64)], &ins) }
        Node::MaxPool2d(q) => { let k = &q.config; run("MaxPool", vec![is("kernel_shape", u(&k.kernel_size)), is("strides", u(&k.strides)), is("dilations", u(&k.dilation)), is("pads", pad2(&k.padding)), ap(&k.auto_pad), i("ceil_mode", k.ceil_mode as i64)], &ins) }
        Node::GlobalMaxPool(_) => plain("GlobalMaxPool"),
        Node::GlobalAveragePool(_) => plain("GlobalAveragePool"),
        Node::BatchNormalization(q) => { let e = match &q.config { n::batch_norm::BatchNormConfig::Static(v) => v.epsilon, n::batch_norm::BatchNormConfig::Runtime(v) => v.epsilon }; run("BatchNormalization", vec![f("epsilon", e)], &ins) }
        Node::InstanceNormalization(q) => run("InstanceNormalization", vec![f("epsilon", q.config.epsilon)], &ins),
        Node::LayerNormalization(q) => run("LayerNormalization", vec![f("epsilon", q.config.epsilon)], &ins),
        Node::GroupNormalization(q) => run("GroupNormalization", vec![f("epsilon", q.config.epsilon), i("num_groups", q.config.num_groups)], &ins),
        // stand-ins for random draws: each node has its own stream
        Node::RandomNormal(q) => Ok(vec![Some(draw(&q.name, &q.config.shape))]), Node::RandomUniform(q) => Ok(vec![Some(draw(&q.name, &q.config.shape))]),
        Node::RandomNormalLike(q) => Ok(vec![x(0)?.map(|t| draw(&q.name, &t.shape))]), Node::RandomUniformLike(q) => Ok(vec![x(0)?.map(|t| draw(&q.name, &t.shape))]),
        Node::Dropout(_) => run("Dropout", vec![], &[x(0)?]),
        Node::Attention(q) => {
            let k = &q.config;
            let mut a = vec![i("is_causal", k.is_causal as i64), f("softcap", k.softcap)];
            use n::attention::AttentionQkMatmulOutputMode as M;
            a.push(i("qk_matmul_output_mode", match k.qk_matmul_output_mode { M::Matmul => 0, M::MatmulPlusAttentionMask => 1, M::MatmulAfterSoftcap => 2, M::MatmulAfterSoftmax => 3 }));
            if let Some(v) = k.scale { a.push(f("scale", v)); }
            if let Some(v) = k.q_num_heads { a.push(i("q_num_heads", v)); }
            if let Some(v) = k.kv_num_heads { a.push(i("kv_num_heads", v)); }
            run("Attention", a, &ins)
        }
        Node::Constant(_) => {
            let o = node.inputs().first().ok_or(X::Bad("constant without data".into()))?;
            let d = o.value().ok_or(X::Bad("constant without data".into()))?;
            Ok(vec![Some(td(&d).map_err(X::Bad)?)])
        }
        Node::ConstantOfShape(q) => {
            let sh = match &q.config.shape { n::constant_of_shape::ConstantOfShapeShape::Static(v) => Some(iv(v)), n::constant_of_shape::ConstantOfShapeShape::Runtime(r) => c.rt(r)? };
            let a = match &q.config.value { Some(d) => vec![("value".to_string(), Attr::T(vcore::proto::TensorP::raw("", td(d).map_err(X::Bad)?)))], None => vec![] };
            run("ConstantOfShape", a, &[sh])
        }
        Node::EyeLike(q) => { let mut a = vec![i("k", q.config.k)]; if let Some(d) = q.config.dtype { a.push(i("dtype", dt(d).unwrap().onnx())); } run("EyeLike", a, &ins) }
        Node::Identity(_) => plain("Identity"),
        Node::Range(q) => {
            let g = |v: &n::range::RangeInput| -> RX<Option<T>> { match v { n::range::RangeInput::Static(v) => Ok(Some(T::i64s(*v))), n::range::RangeInput::Runtime(r) => c.rt(r) } };
            let mut v = [g(&q.config.start)?, g(&q.config.limit)?, g(&q.config.delta)?];
            // statics carry only the number: give them the element type of the output
            let od = dt(node.outputs()[0].ty.elem_type()).unwrap();
            for t in v.iter_mut().flatten() { *t = t.cast(od); }
            run("Range", vec![], &v)
        }
        Node::OneHot(q) => {
            let d = match &q.config.depth { n::one_hot::OneHotDepthInput::Static(v) => Some(T::i64s(*v as i64)), n::one_hot::OneHotDepthInput::Runtime(r) => c.rt(r)? };
            let od = dt(node.outputs()[0].ty.elem_type()).unwrap();
            let v = match &q.config.values { n::one_hot::OneHotValuesInput::Static(v) => Some(T::num(od, &[2], &[v[0] as f64, v[1] as f64])), n::one_hot::OneHotValuesInput::Runtime(r) => c.rt(r)? };
            run("OneHot", vec![i("axis", q.config.axis)], &[x(0)?, d, v])
        }
        Node::IsInf(q) => run("IsInf", vec![i("detect_negative", q.config.detect_negative as i64), i("detect_positive", q.config.detect_positive as i64)], &ins),
        Node::IsNaN(_) => plain("IsNaN"), Node::NonZero(_) => plain("NonZero"),
        Node::TopK(q) => { let k = match &q.config.k { n::topk::TopKInput::Static(v) => Some(T::i64v(&[*v as i64])), n::topk::TopKInput::Runtime(r) => c.rt(r)? }; run("TopK", vec![i("axis", q.config.axis)], &[x(0)?, k]) }
        Node::Trilu(q) => run("Trilu", vec![i("upper", q.config.upper as i64)], &[x(0)?, Some(T::i64s(q.config.diagonal))]),
        Node::Mod(q) => run("Mod", vec![i("fmod", q.config.fmod as i64)], &ins),
        Node::CumSum(q) => { let a = match &q.config.axis { n::cumsum::CumSumAxis::Static(v) => Some(T::i64s(*v as i64)), n::cumsum::CumSumAxis::Runtime(r) => c.rt(r)? }; run("CumSum", vec![i("exclusive", q.config.exclusive as i64), i("reverse", q.config.reverse as i64)], &[x(0)?, a]) }
        Node::Col2Im(q) => { let k = &q.config; run("Col2Im", vec![is("dilations", u(&k.dilations)), is("strides", u(&k.strides)), is("pads", u(&k.pads))], &[x(0)?, Some(iv(&u(&k.image_shape))), Some(iv(&u(&k.block_shape)))]) }
        Node::DeformConv(q) => { let k = &q.config; run("DeformConv", vec![is("kernel_shape", u(&k.kernel_size)), is("strides", u(&k.stride)), is("dilations", u(&k.dilation)), is("pads", pad2(&k.padding)), i("group", k.groups), i("offset_group", k.offset_groups)], &ins) }
        Node::GridSample(q) => { use n::grid_sample::*; run("GridSample", vec![s("mode", match q.config.mode { GridSampleMode::Bilinear => "linear", GridSampleMode::Nearest => "nearest", GridSampleMode::Bicubic => "cubic" }), s("padding_mode", match q.config.padding_mode { GridSamplePaddingMode::Zeros => "zeros", GridSamplePaddingMode::Border => "border", GridSamplePaddingMode::Reflection => "reflection" }), i("align_corners", q.config.align_corners as i64)], &ins) }
        Node::Lstm(q) => {
            let k = &q.config;
            let d = match k.direction { n::lstm::LstmDirection::Forward => "forward", n::lstm::LstmDirection::Reverse => "reverse", _ => "bidirectional" };
            let one = [format!("{:?}", k.gate_activation), format!("{:?}", k.cell_activation), format!("{:?}", k.hidden_activation)];
            let mut a = rec(k.hidden_size, d, k.batch_first, k.clip, &one);
            a.push(i("input_forget", k.input_forget as i64));
            flags(&ins, k.has_bias, k.has_initial_h, Some((k.has_initial_c, k.has_peephole)))?;
            run("LSTM", a, &ins)
        }
        Node::Gru(q) => {
            let k = &q.config;
            let d = match k.direction { n::gru::GruDirection::Forward => "forward", n::gru::GruDirection::Reverse => "reverse", _ => "bidirectional" };
            let mut a = rec(k.hidden_size, d, k.batch_first, k.clip, &[format!("{:?}", k.gate_activation), format!("{:?}", k.hidden_activation)]);
            a.push(i("linear_before_reset", k.linear_before_reset as i64));
            if let Some(v) = &k.activation_alpha { a.push(("activation_alpha".into(), Attr::Fs(v.iter().map(|x| *x as f64).collect()))); }
            if let Some(v) = &k.activation_beta { a.push(("activation_beta".into(), Attr::Fs(v.iter().map(|x| *x as f64).collect()))); }
            flags(&ins, k.has_bias, k.has_initial_h, None)?;
            run("GRU", a, &ins)
        }
        Node::Rnn(q) => {
            let k = &q.config;
            let d = match k.direction { n::rnn::RnnDirection::Forward => "forward", n::rnn::RnnDirection::Reverse => "reverse", _ => "bidirectional" };
            let a = rec(k.hidden_size, d, k.batch_first, k.clip, &[format!("{:?}", k.hidden_activation)]);
            flags(&ins, k.has_bias, k.has_initial_h, None)?;
            run("RNN", a, &ins)
        }
        Node::If(q) => {
            let (base, e) = body_env(node, &ins, &q.config.scope_ref_names, env)?;
            if base != 1 { return Err(X::Bad(format!("If with {base} own inputs"))); }
            let cnd = ins[0].clone().ok_or(X::Bad("if cond".into()))?;
            let b = if cnd.b()[0] { &q.config.then_branch } else { &q.config.else_branch };
            Ok(eval(b, &e)?.0.into_iter().map(Some).collect())
        }
        Node::Loop(q) => {
            let (base, e) = body_env(node, &ins, &q.config.scope_ref_names, env)?;
            let b = &q.config.body;
            let max = ins[0].as_ref().map(|t| t.to_i64()[0]);
            let mut cond = ins.get(1).cloned().flatten().map(|t| t.b()[0]).unwrap_or(true);
            let mut stt: Vec<T> = ins[2..base].iter().map(|t| t.clone().ok_or(X::Bad("loop state".into()))).collect::<RX<_>>()?;
            let ns = stt.len();
            if b.outputs.len() < 1 + ns || b.inputs.len() != 2 + ns { return Err(X::Bad(format!("loop body has {} inputs / {} outputs for {ns} states", b.inputs.len(), b.outputs.len()))); }
            let mut scans: Vec<Vec<T>> = vec![vec![]; b.outputs.len() - 1 - ns];
            let mut it = 0;
            while cond && max.map(|m| it < m).unwrap_or(true) {
                if it > 64 { return Err(X::Undef("loop bound".into())); }
                let mut e2 = e.clone();
                e2.insert(b.inputs[0].name.clone(), T::i64s(it));
                e2.insert(b.inputs[1].name.clone(), T::bool(&[], &[cond]));
                for (k, v) in stt.iter().enumerate() { e2.insert(b.inputs[2 + k].name.clone(), v.clone()); }
                let r = eval(b, &e2)?.0;
                cond = r[0].b()[0];
                stt = r[1..1 + ns].to_vec();
                for (k, sc) in scans.iter_mut().enumerate() { sc.push(r[1 + ns + k].clone()); }
                it += 1;
            }
            let mut out: Vec<Option<T>> = stt.into_iter().map(Some).collect();
            for sc in scans { if sc.is_empty() { return Err(X::Undef("scan of zero".into())); } let v: Vec<T> = sc.iter().map(|t| { let mut q = vec![1]; q.extend(&t.shape); t.with_shape(&q) }).collect(); out.push(Some(concat(&v.iter().collect::<Vec<_>>(), 0)?)); }
            Ok(out)
        }
        Node::Scan(q) => {
            let (base, e) = body_env(node, &ins, &q.config.scope_ref_names, env)?;
            let k = &q.config; let b = &k.body;
            let m = k.num_scan_inputs as usize; let ns = base - m;
            let mut stt: Vec<T> = ins[..ns].iter().map(|t| t.clone().unwrap()).collect();
            let xs: Vec<T> = ins[ns..base].iter().map(|t| t.clone().unwrap()).collect();
            let at = |v: &Vec<i64>, j: usize| v.get(j).copied().unwrap_or(0);
            let axs: Vec<usize> = (0..m).map(|j| norm_axis(at(&k.scan_input_axes, j), xs[j].rank())).collect::<Result<_, _>>()?;
            let len = xs[0].shape[axs[0]];
            let no = b.outputs.len() - ns;
            let mut acc: Vec<Vec<T>> = vec![vec![]; no];
            for t in 0..len {
                let mut e2 = e.clone();
                for (j, v) in stt.iter().enumerate() { e2.insert(b.inputs[j].name.clone(), v.clone()); }
                for j in 0..m { let p = if at(&k.scan_input_directions, j) != 0 { len - 1 - t } else { t }; let mut sh = xs[j].shape.clone(); sh.remove(axs[j]); e2.insert(b.inputs[ns + j].name.clone(), slice1(&xs[j], axs[j], p, 1).with_shape(&sh)); }
                let r = eval(b, &e2)?.0;
                stt = r[..ns].to_vec();
                for j in 0..no { acc[j].push(r[ns + j].clone()); }
            }
            let mut out: Vec<Option<T>> = stt.into_iter().map(Some).collect();
            for j in 0..no { let mut v = acc[j].clone(); if v.is_empty() { return Err(X::Undef("scan of zero".into())); } if at(&k.scan_output_directions, j) != 0 { v.reverse(); } let a = norm_axis(at(&k.scan_output_axes, j), v[0].rank() + 1)?; let w: Vec<T> = v.iter().map(|t| { let mut q = t.shape.clone(); q.insert(a, 1); t.with_shape(&q) }).collect(); out.push(Some(concat(&w.iter().collect::<Vec<_>>(), a)?)); }
            Ok(out)
        }
        other => Err(X::Unsup(format!("IR node {}", other.name()))),
    }
}
fn red(ty: &str, c: &n::reduce::ReduceConfig, ins: &[Option<T>], run: &dyn Fn(&str, At, &[Option<T>]) -> RX<Vec<Option<T>>>) -> RX<Vec<Option<T>>> {
    let mut a = vec![i("keepdims", c.keepdims as i64)];
    // an empty dims list stands for "all axes"
    if !c.dims.is_empty() { a.push(is("axes", u(&c.dims))); }
    run(ty, a, &ins[..1])
}
#[allow(clippy::too_many_arguments)]
fn ct(k: &[usize], st: &[usize], d: &[usize], p: &[usize], po: &[usize], g: usize, ins: &[Option<T>], run: &dyn Fn(&str, At, &[Option<T>]) -> RX<Vec<Option<T>>>) -> RX<Vec<Option<T>>> {
    let mut pads = u(p); pads.extend(u(p));
    run("ConvTranspose", vec![is("kernel_shape", u(k)), is("strides", u(st)), is("dilations", u(d)), is("pads", pads), is("output_padding", u(po)), i("group", g)], ins)
}
fn rec(h: usize, d: &str, batch_first: bool, clip: Option<f32>, acts: &[String]) -> At {
    let n = if d == "bidirectional" { 2 } else { 1 };
    let mut a = vec![i("hidden_size", h), s("direction", d), i("layout", batch_first as i64), ("activations".into(), Attr::Ss((0..n).flat_map(|_| acts.to_vec()).collect()))];
    if let Some(c) = clip { a.push(f("clip", c)); }
    a
}
fn flags(ins: &[Option<T>], bias: bool, h: bool, lstm: Option<(bool, bool)>) -> RX<()> {
    let has = |k: usize| ins.get(k).map(|x| x.is_some()).unwrap_or(false);
    let mut want = vec![(3, bias, "bias"), (5, h, "initial_h")];
    if let Some((c, p)) = lstm { want.push((6, c, "initial_c")); want.push((7, p, "peephole")); }
    for (k, w, nm) in want { if has(k) != w { return Err(X::Bad(format!("config says {nm}={w} but input {k} present={}", has(k)))); } }
    Ok(())
}

/// A printable, order-preserving rendering of a whole graph including constant payloads.
pub fn dump(g: &OnnxGraph) -> String {
    let mut o = String::new();
    dump_graph(g, &mut o, 0);
    o
}
fn dump_graph(g: &OnnxGraph, o: &mut String, d: usize) {
    let p = "  ".repeat(d);
    for a in &g.inputs { o.push_str(&format!("{p}in {a}\n")); }
    for n in &g.nodes {
        // the text of a node with bodies prints their tensor stores, of which only the data is
        // part of the graph; the bodies follow
        let io = |c: String| format!("{} {c} ({}) -> ({})", n.name(), n.inputs().iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", "), n.outputs().iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", "));
        let t = match n {
            Node::If(q) => io(format!("If {:?}", q.config.scope_ref_names)),
            Node::Loop(q) => io(format!("Loop {:?}", q.config.scope_ref_names)),
            Node::Scan(q) => io(format!("Scan {:?} {} {:?} {:?} {:?} {:?}", q.config.scope_ref_names, q.config.num_scan_inputs, q.config.scan_input_directions, q.config.scan_output_directions, q.config.scan_input_axes, q.config.scan_output_axes)),
            _ => n.to_string(),
        };
        o.push_str(&format!("{p}{} = {t}\n", n.name()));
        match n { Node::If(q) => { dump_graph(&q.config.then_branch, o, d + 1); dump_graph(&q.config.else_branch, o, d + 1) } Node::Loop(q) => dump_graph(&q.config.body, o, d + 1), Node::Scan(q) => dump_graph(&q.config.body, o, d + 1), _ => {} }
    }
    for a in &g.outputs { o.push_str(&format!("{p}out {a}\n")); }
    if d == 0 { dump_data(g, o); }
}
fn dump_data(g: &OnnxGraph, o: &mut String) {
    for n in &g.nodes {
        for a in n.inputs().iter().chain(n.outputs()) { if let Some(v) = a.value() { o.push_str(&format!("{} {} {:?} {:?} {:?}\n", n.name(), a.name, v.dtype, v.shape, v.as_bytes())); } }
        match n { Node::If(q) => { dump_data(&q.config.then_branch, o); dump_data(&q.config.else_branch, o) } Node::Loop(q) => dump_data(&q.config.body, o), Node::Scan(q) => dump_data(&q.config.body, o), _ => {} }
    }
}
pub fn arg_kind(t: &ArgType) -> &'static str { match t { ArgType::ScalarNative(_) => "scalar", ArgType::ScalarTensor(_) => "scalar-tensor", ArgType::Shape(_) => "shape", ArgType::Tensor(_) => "tensor" } }
