//! C01: with simplification against without.
use irmc::{check::*, import, interp::X, util::*, Fail};
use vcore::fam::Case;
use vcore::prog::*;
use vcore::report::*;
use vcore::tensor::*;

pub enum O { Same(usize, bool), Nothing, Refused, Bad(String), Known(&'static str, String) }
fn kind(t: &onnx_ir::ir::ArgType) -> String { match t { onnx_ir::ir::ArgType::Tensor(t) => format!("{:?} rank {}", t.dtype, t.rank), o => format!("{o:?}") } }
const TRANSPOSED: &str = "permute-reshape/data transposed";
/// A Reshape to the dimensions of its own operand in another order, turned into a Transpose: exactly that.
fn transposed(c: &Case, x: &T, y: &T) -> bool {
    let Some(q) = c.name.strip_prefix("permute-reshape/").and_then(|n| n.rsplit_once("/[")) else { return false };
    let r = x.rank() as i64;
    let perm: Vec<usize> = q.1.trim_end_matches(']').split(", ").map(|i| i.parse::<i64>().unwrap().rem_euclid(r) as usize).collect();
    let mut p = perm.clone(); p.sort();
    if p != (0..r as usize).collect::<Vec<_>>() || y.shape != perm.iter().map(|i| x.shape[*i]).collect::<Vec<_>>() { return false; }
    let st = strides(&x.shape);
    let t = x.pick(&y.shape, |i| { let ix = unravel(i, &y.shape); Some((0..perm.len()).map(|k| ix[k] * st[perm[k]]).sum()) }, 0.0);
    y.close(&t, 0.0)
}
/// An attention block without a constant scale, computed with the default scale of Attention: exactly that.
fn default_scale(c: &Case, off: &onnx_ir::OnnxGraph, v: &[T], j: usize, y: &T) -> Option<&'static str> {
    let mut w = v.to_vec();
    let d = *v[0].shape.last()? as f64;
    let key = if c.name.starts_with("attention/scale0/") {
        w[0] = T::f32(&v[0].shape, &v[0].fv().iter().map(|x| x / d.sqrt()).collect::<Vec<_>>());
        "attention/no scale"
    } else if c.name.starts_with("attention/scale10/") {
        let k = c.model.graph.inputs.iter().position(|i| i.name == "rs")?;
        w[k] = T::f32(&v[k].shape, &vec![d.powf(-0.25); v[k].len()]);
        "attention/runtime scale"
    } else { return None };
    match run(off, &c.model, &w) { Ok(Ok(r)) => y.close(&typed(&r.0[j], &off.outputs[j].ty), c.tol * 4.0).then_some(key), _ => None }
}
fn typed(t: &T, ty: &onnx_ir::ir::ArgType) -> T {
    use onnx_ir::ir::ArgType::*;
    match ty { ScalarNative(d) | ScalarTensor(d) if t.len() == 1 => { let mut t = match irmc::interp::dt(*d) { Some(d) if d != t.dt => t.cast(d), _ => t.clone() }; t.shape = vec![]; t } Shape(_) if t.rank() <= 1 => { let mut t = t.cast(DT::I64); t.shape = vec![t.len()]; t } _ => t.clone() }
}
pub fn both(c: &Case) -> O {
    let off = match import(&c.model, false) { Ok(g) => g, Err(_) => return O::Refused };
    let on = match import(&c.model, true) { Ok(g) => g, Err(f) => return O::Bad(format!("refused only when simplified: {}", f.text())) };
    let names = |g: &onnx_ir::OnnxGraph| g.outputs.iter().map(|a| kind(&a.ty)).collect::<Vec<_>>();
    let ins = |g: &onnx_ir::OnnxGraph| g.inputs.iter().map(|a| (a.name.clone(), format!("{:?}", a.ty))).collect::<Vec<_>>();
    if names(&off) != names(&on) { return O::Bad(format!("outputs {:?} become {:?}", names(&off), names(&on))); }
    if ins(&off) != ins(&on) { return O::Bad(format!("inputs {:?} become {:?}", ins(&off), ins(&on))); }
    let fewer = on.nodes.len() < off.nodes.len();
    let mut n = 0;
    for (k, v) in c.vals.iter().enumerate() {
        let a = match run(&off, &c.model, v) { Ok(Ok(r)) => r, _ => continue };
        let b = match run(&on, &c.model, v) {
            Ok(Ok(r)) => r,
            Ok(Err(X::Unsup(e))) => return O::Bad(format!("harness cannot evaluate the simplified graph: {e}")),
            Ok(Err(X::Bad(e))) | Ok(Err(X::Undef(e))) | Err(Fail::Err(e)) | Err(Fail::Panic(e)) => return O::Bad(format!("valuation {k}: the simplified graph is broken: {e}")),
        };
        for (j, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
            // what a native output type makes of the value (C02 settles whether the type is right)
            let (x, y) = (&typed(x, &off.outputs[j].ty), &typed(y, &off.outputs[j].ty));
            if !y.close(x, c.tol) { if let Some(k) = default_scale(c, &off, v, j, y) { return O::Known(k, format!("{}: {} simplified, {} otherwise", c.name, brief(y), brief(x))); } }
            if !y.close(x, c.tol) && transposed(c, &v[0], y) { return O::Known(TRANSPOSED, format!("{}: {} simplified, {} otherwise", c.name, brief(y), brief(x))); }
            if !y.close(x, c.tol) { return O::Bad(format!("valuation {k}, output {}: {} simplified, {} otherwise", off.outputs[j].name, brief(y), brief(x))); }
        }
        n += 1;
    }
    if n == 0 { O::Nothing } else { O::Same(n, fewer) }
}
fn batch(run: &mut Run, cases: &mut Vec<Case>, group: &str) {
    let res = par(cases, both);
    for (c, r) in cases.iter().zip(res) {
        run.states += 1; run.transitions += 2 * c.model.graph.nodes.len() as u64;
        match r {
            O::Same(n, f) => { run.validated += n as u64; run.count(&format!("{group}_same"), 1); if f { run.count(&format!("{group}_rewritten"), 1); if run.states % 4999 == 11 { run.sample(|| format!("{}: rewritten, same outputs", c.name)); } } }
            O::Nothing => run.count(&format!("{group}_undefined"), 1),
            O::Refused => run.count(&format!("{group}_refused_either_way"), 1),
            O::Known(k, e) => { run.count(&format!("{group}_known"), 1); run.fail(k, e) }
            O::Bad(e) => { run.count(&format!("{group}_differ"), 1); run.fail(&c.name, e) }
        }
    }
    cases.clear();
}
pub fn c01() -> i32 {
    let mut run = Run::new("C01");
    let only = std::env::var("C01_ONLY").unwrap_or_default();
    let mut buf: Vec<Case> = vec![];
    let deep = thorough();
    for th in themes(deep) {
        if !th.name.starts_with(&only) { continue; }
        let g = th.name.split('/').next().unwrap().to_string();
        programs(&th, &mut |c| { buf.push(c); if buf.len() == 20000 { batch(&mut run, &mut buf, &g); } });
        batch(&mut run, &mut buf, &g);
    }
    if "permute".starts_with(&only) { permute_reshapes(&mut |c| buf.push(c)); batch(&mut run, &mut buf, "permute_reshape"); }
    if "attention".starts_with(&only) { attention_blocks(deep, &mut |c| buf.push(c)); batch(&mut run, &mut buf, "attention"); }
    if only.is_empty() { buf = crate::fams::families(); batch(&mut run, &mut buf, "families"); }
    run.finish()
}
