//! Reference evaluator for ONNX operators and graphs, written from the ONNX operator specification.
use crate::proto::{Attr, Graph, Node};
use crate::tensor::*;
use DT::*;
use std::collections::HashMap;

/// Undef: the specification leaves the result open (or the run is invalid); such a case is not judged.
#[derive(Debug, Clone, PartialEq)]
pub enum E { Undef(String), Unsup(String) }
pub type R<X> = Result<X, E>;
pub fn undef<X>(s: impl Into<String>) -> R<X> { Err(E::Undef(s.into())) }
fn unsup<X>(s: impl Into<String>) -> R<X> { Err(E::Unsup(s.into())) }

pub struct Op<'a> { pub ty: &'a str, pub attrs: &'a [(String, Attr)], pub opset: i64, pub nout: usize }
impl<'a> Op<'a> {
    pub fn a(&self, k: &str) -> Option<&'a Attr> { self.attrs.iter().find(|(n, _)| n == k).map(|(_, a)| a) }
    pub fn i(&self, k: &str, d: i64) -> i64 { match self.a(k) { Some(Attr::I(v)) => *v, _ => d } }
    pub fn f(&self, k: &str, d: f64) -> f64 { match self.a(k) { Some(Attr::F(v)) => *v as f32 as f64, _ => d as f32 as f64 } }
    pub fn s(&self, k: &str, d: &str) -> String { match self.a(k) { Some(Attr::S(v)) => v.clone(), _ => d.to_string() } }
    pub fn is(&self, k: &str) -> Option<Vec<i64>> { match self.a(k) { Some(Attr::Is(v)) => Some(v.clone()), _ => None } }
    pub fn fs(&self, k: &str) -> Option<Vec<f64>> { match self.a(k) { Some(Attr::Fs(v)) => Some(v.clone()), _ => None } }
    pub fn ss(&self, k: &str) -> Option<Vec<String>> { match self.a(k) { Some(Attr::Ss(v)) => Some(v.clone()), _ => None } }
}

pub fn norm_axis(a: i64, r: usize) -> R<usize> {
    let v = if a < 0 { a + r as i64 } else { a };
    if v < 0 || v >= r as i64 { return undef(format!("axis {a} out of range for rank {r}")); }
    Ok(v as usize)
}
fn fmap(x: &T, f: impl Fn(f64) -> f64) -> R<T> {
    match &x.buf { Buf::F(v) => Ok(T::f(x.dt, &x.shape, v.iter().map(|a| f(*a)).collect())), _ => unsup("float op on int") }
}
fn nmap(x: &T, f: impl Fn(f64) -> f64, g: impl Fn(i128) -> i128) -> T {
    match &x.buf { Buf::F(v) => T::f(x.dt, &x.shape, v.iter().map(|a| f(*a)).collect()), Buf::I(v) => T::i(x.dt, &x.shape, v.iter().map(|a| g(*a)).collect()) }
}
pub fn bcast2(a: &T, b: &T) -> R<(T, T, Vec<usize>)> {
    let s = match bshape(&[&a.shape, &b.shape]) { Some(s) => s, None => return undef("broadcast") };
    Ok((a.broadcast_to(&s).unwrap(), b.broadcast_to(&s).unwrap(), s))
}
fn arith(op: &str, a: &T, b: &T) -> R<T> {
    if a.dt != b.dt { return undef(format!("mixed types {:?} {:?}", a.dt, b.dt)); }
    let (x, y, s) = bcast2(a, b)?;
    match (&x.buf, &y.buf) {
        (Buf::F(u), Buf::F(v)) => {
            let g = |p: f64, q: f64| match op { "Add" => p + q, "Sub" => p - q, "Mul" => p * q, "Div" => p / q, _ => unreachable!() };
            Ok(T::f(a.dt, &s, u.iter().zip(v).map(|(p, q)| g(*p, *q)).collect()))
        }
        (Buf::I(u), Buf::I(v)) => {
            let mut o = vec![];
            for (p, q) in u.iter().zip(v) {
                let r = match op {
                    "Add" => p + q, "Sub" => p - q, "Mul" => p * q,
                    _ => { if *q == 0 { return undef("int div by zero"); } p / q }
                };
                let (lo, hi) = a.dt.range();
                if r < lo || r > hi { return undef("int overflow"); }
                o.push(r);
            }
            Ok(T::i(a.dt, &s, o))
        }
        _ => unreachable!(),
    }
}
fn cmp(a: &T, b: &T, f: impl Fn(std::cmp::Ordering) -> bool, ne: bool) -> R<T> {
    if a.dt != b.dt { return undef("mixed types"); }
    let _ = ne;
    let (x, y, s) = bcast2(a, b)?;
    let o = match (&x.buf, &y.buf) {
        (Buf::F(u), Buf::F(v)) => u.iter().zip(v).map(|(p, q)| p.partial_cmp(q).map(&f).unwrap_or(false) as i128).collect(),
        (Buf::I(u), Buf::I(v)) => u.iter().zip(v).map(|(p, q)| f(p.cmp(q)) as i128).collect(),
        _ => unreachable!(),
    };
    Ok(T::i(Bool, &s, o))
}
fn bits(a: &T, b: &T, f: impl Fn(i128, i128) -> i128) -> R<T> {
    if a.dt != b.dt || a.is_float() { return undef("bitwise types"); }
    let (x, y, s) = bcast2(a, b)?;
    Ok(T::i(a.dt, &s, x.iv().iter().zip(y.iv()).map(|(p, q)| f(*p, q)).collect()))
}
pub fn erf(x: f64) -> f64 {
    // series for small, continued fraction for large; accurate to ~1e-15
    let a = x.abs();
    if x.is_nan() { return x; }
    let r = if a < 3.0 {
        let (mut t, mut s, mut n) = (a, a, 0.0);
        while t.abs() > 1e-18 * s.abs() && n < 200.0 { n += 1.0; t *= -a * a / n; s += t / (2.0 * n + 1.0); }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else if a > 6.0 { 1.0 } else {
        let mut f = 0.0;
        for k in (1..=80).rev() { f = k as f64 / 2.0 / (a + f); }
        1.0 - (-a * a).exp() / (a + f) / std::f64::consts::PI.sqrt()
    };
    if x < 0.0 { -r } else { r }
}
fn softplus(x: f64) -> f64 { if x > 30.0 { x + (-x).exp().ln_1p() } else { x.exp().ln_1p() } }
fn sigmoid(x: f64) -> f64 { 1.0 / (1.0 + (-x).exp()) }

pub fn unary(ty: &str, o: &Op, x: &T) -> Option<R<T>> {
    Some(match ty {
        "Neg" => { if !x.is_float() && (!x.dt.is_signed()) { return Some(unsup("neg unsigned")); } if !x.is_float() && x.iv().iter().any(|v| *v == x.dt.range().0) { return Some(undef("neg overflow")); } Ok(nmap(x, |a| -a, |a| -a)) }
        "Abs" => { if !x.is_float() && x.dt.is_signed() && x.iv().iter().any(|v| *v == x.dt.range().0) { return Some(undef("abs overflow")); } Ok(nmap(x, f64::abs, i128::abs)) }
        "Sign" => Ok(nmap(x, |a| if a.is_nan() { a } else if a > 0.0 { 1.0 } else if a < 0.0 { -1.0 } else { 0.0 }, |a| a.signum())),
        "Reciprocal" => fmap(x, |a| 1.0 / a),
        "Sqrt" => fmap(x, f64::sqrt),
        "Exp" => fmap(x, f64::exp),
        "Log" => fmap(x, f64::ln),
        "Ceil" => fmap(x, f64::ceil),
        "Floor" => fmap(x, f64::floor),
        "Round" => fmap(x, |a| if a.is_finite() { let r = rne(a); if r == 0.0 { 0.0f64.copysign(a) } else { r } } else { a }),
        "Erf" => fmap(x, erf),
        "Sin" => fmap(x, f64::sin), "Cos" => fmap(x, f64::cos), "Tan" => fmap(x, f64::tan),
        "Asin" => fmap(x, f64::asin), "Acos" => fmap(x, f64::acos), "Atan" => fmap(x, f64::atan),
        "Sinh" => fmap(x, f64::sinh), "Cosh" => fmap(x, f64::cosh), "Tanh" => fmap(x, f64::tanh),
        "Asinh" => fmap(x, |a| { let b = a.abs(); let r = if b > 1e8 { b.ln() + 2f64.ln() } else { (b + (b * b + 1.0).sqrt()).ln() }; r.copysign(a) }), "Acosh" => fmap(x, f64::acosh), "Atanh" => fmap(x, f64::atanh),
        "Relu" => Ok(nmap(x, |a| if a.is_nan() { a } else { a.max(0.0) }, |a| a.max(0))),
        "Sigmoid" => fmap(x, sigmoid),
        "LeakyRelu" => { let al = o.f("alpha", 0.01); fmap(x, |a| if a < 0.0 { al * a } else { a }) }
        "HardSigmoid" => { let (al, be) = (o.f("alpha", 0.2), o.f("beta", 0.5)); fmap(x, |a| (al * a + be).clamp(0.0, 1.0)) }
        "Elu" => { let al = o.f("alpha", 1.0); fmap(x, |a| if a < 0.0 { al * a.exp_m1() } else { a }) }
        "Selu" => { let (al, ga) = (o.f("alpha", 1.67326319217681884765625), o.f("gamma", 1.05070102214813232421875)); fmap(x, |a| if a > 0.0 { ga * a } else { ga * al * a.exp_m1() }) }
        "Celu" => { let al = o.f("alpha", 1.0); fmap(x, |a| a.max(0.0) + (al * (a / al).exp_m1()).min(0.0)) }
        "Gelu" => { let ap = o.s("approximate", "none"); fmap(x, |a| if ap == "tanh" { 0.5 * a * (1.0 + ((2.0 / std::f64::consts::PI).sqrt() * (a + 0.044715 * a * a * a)).tanh()) } else { 0.5 * a * (1.0 + erf(a / 2f64.sqrt())) }) }
        "Mish" => fmap(x, |a| a * softplus(a).tanh()),
        "Softplus" => fmap(x, softplus),
        "Softsign" => fmap(x, |a| a / (1.0 + a.abs())),
        "ThresholdedRelu" => { let al = o.f("alpha", 1.0); fmap(x, |a| if a > al { a } else { 0.0 }) }
        "HardSwish" => fmap(x, |a| a * (a / 6.0 + 0.5).clamp(0.0, 1.0)),
        "Swish" => { let al = o.f("alpha", 1.0); fmap(x, |a| a * sigmoid(al * a)) }
        "Not" => if x.dt != Bool { undef("not type") } else { Ok(nmap(x, |a| a, |a| 1 - a)) },
        "BitwiseNot" => if x.is_float() { undef("type") } else { Ok(nmap(x, |a| a, |a| !a)) },
        "IsNaN" => Ok(T::i(Bool, &x.shape, x.fv().iter().map(|a| a.is_nan() as i128).collect())),
        "IsInf" => { let (n, p) = (o.i("detect_negative", 1) != 0, o.i("detect_positive", 1) != 0); Ok(T::i(Bool, &x.shape, x.fv().iter().map(|a| ((*a == f64::INFINITY && p) || (*a == f64::NEG_INFINITY && n)) as i128).collect())) }
        "Identity" => Ok(x.clone()),
        _ => return None,
    })
}

fn reduce(ty: &str, x: &T, axes: &[usize], keep: bool) -> R<T> {
    let mut keep_shape = x.shape.clone();
    for a in axes { keep_shape[*a] = 1; }
    let n = numel(&keep_shape);
    let mut groups: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..x.len() {
        let mut ix = unravel(i, &x.shape);
        for a in axes { ix[*a] = 0; }
        groups[ravel(&ix, &keep_shape)].push(i);
    }
    let fin = |t: T| { let s: Vec<usize> = if keep { keep_shape.clone() } else { (0..x.rank()).filter(|d| !axes.contains(d)).map(|d| x.shape[d]).collect() }; t.with_shape(&s) };
    let red_empty = groups.iter().any(|g| g.is_empty());
    match &x.buf {
        Buf::F(v) => {
            if red_empty && matches!(ty, "ReduceMean" | "ReduceMax" | "ReduceMin") { return undef("empty reduce"); }
            let o = groups.iter().map(|g| {
                let it = g.iter().map(|i| v[*i]);
                match ty {
                    "ReduceSum" => it.sum(), "ReduceProd" => it.product(), "ReduceMean" => { let n = g.len() as f64; it.sum::<f64>() / n }
                    "ReduceMax" => it.fold(f64::NEG_INFINITY, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) }),
                    "ReduceMin" => it.fold(f64::INFINITY, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.min(b) }),
                    "ReduceL1" => it.map(f64::abs).sum(), "ReduceL2" => it.map(|a| a * a).sum::<f64>().sqrt(), "ReduceSumSquare" => it.map(|a| a * a).sum(),
                    "ReduceLogSum" => it.sum::<f64>().ln(),
                    "ReduceLogSumExp" => { let m = it.clone().fold(f64::NEG_INFINITY, f64::max); let m = if m.is_finite() { m } else { 0.0 }; it.map(|a| (a - m).exp()).sum::<f64>().ln() + m }
                    _ => unreachable!(),
                }
            }).collect();
            Ok(fin(T::f(x.dt, &keep_shape, o)))
        }
        Buf::I(v) => {
            if red_empty && matches!(ty, "ReduceMean" | "ReduceMax" | "ReduceMin") { return undef("empty reduce"); }
            let mut o = vec![];
            for g in &groups {
                let it = g.iter().map(|i| v[*i]);
                o.push(match ty {
                    "ReduceSum" => it.sum(), "ReduceProd" => it.product(),
                    "ReduceMean" => { let s: i128 = it.sum(); if s % g.len() as i128 != 0 { return undef("inexact integer mean"); } s / g.len() as i128 }
                    "ReduceMax" => it.max().unwrap(), "ReduceMin" => it.min().unwrap(),
                    "ReduceL1" => it.map(i128::abs).sum(), "ReduceSumSquare" => it.map(|a| a * a).sum(),
                    "ReduceL2" => { let s: i128 = it.map(|a| a * a).sum(); let r = (s as f64).sqrt(); if r.fract() != 0.0 { return undef("inexact integer norm"); } r as i128 }
                    _ => return undef("log reduce of ints"),
                });
            }
            let (lo, hi) = x.dt.range();
            if o.iter().any(|r| *r < lo || *r > hi) { return undef("int overflow"); }
            Ok(fin(T::i(x.dt, &keep_shape, o)))
        }
    }
}

/// Batched matrix product with numpy semantics.
pub fn matmul(a: &T, b: &T) -> R<T> {
    if a.dt != b.dt { return undef("matmul types"); }
    if a.rank() == 0 || b.rank() == 0 { return undef("matmul of scalar"); }
    let mut sa = a.shape.clone();
    let mut sb = b.shape.clone();
    if a.rank() == 1 { sa.insert(0, 1); }
    if b.rank() == 1 { sb.push(1); }
    let (m, k) = (sa[sa.len() - 2], sa[sa.len() - 1]);
    let (k2, n) = (sb[sb.len() - 2], sb[sb.len() - 1]);
    if k != k2 { return undef("matmul inner"); }
    let bs = match bshape(&[&sa[..sa.len() - 2], &sb[..sb.len() - 2]]) { Some(s) => s, None => return undef("matmul batch") };
    let mut fa = bs.clone(); fa.extend([m, k]);
    let mut fb = bs.clone(); fb.extend([k, n]);
    let xa = a.with_shape(&sa).broadcast_to(&fa).unwrap();
    let xb = b.with_shape(&sb).broadcast_to(&fb).unwrap();
    let nb = numel(&bs);
    let mut os = bs.clone();
    let mut full = bs; full.extend([m, n]);
    if a.rank() > 1 { os.push(m); }
    if b.rank() > 1 { os.push(n); }
    let r = match (&xa.buf, &xb.buf) {
        (Buf::F(u), Buf::F(v)) => { let mut o = vec![0.0; nb * m * n]; for q in 0..nb { for i in 0..m { for j in 0..n { let mut s = 0.0; for l in 0..k { s += u[q * m * k + i * k + l] * v[q * k * n + l * n + j]; } o[q * m * n + i * n + j] = s; } } } T::f(a.dt, &full, o) }
        (Buf::I(u), Buf::I(v)) => { let mut o = vec![0; nb * m * n]; for q in 0..nb { for i in 0..m { for j in 0..n { let mut s = 0; for l in 0..k { s += u[q * m * k + i * k + l] * v[q * k * n + l * n + j]; } o[q * m * n + i * n + j] = s; } } } T::i(a.dt, &full, o) }
        _ => unreachable!(),
    };
    Ok(r.with_shape(&os))
}
pub fn transpose(x: &T, perm: &[usize]) -> T {
    let s: Vec<usize> = perm.iter().map(|p| x.shape[*p]).collect();
    x.pick(&s, |i| { let ix = unravel(i, &s); let mut src = vec![0; ix.len()]; for (k, p) in perm.iter().enumerate() { src[*p] = ix[k]; } Some(ravel(&src, &x.shape)) }, 0.0)
}
pub fn concat(xs: &[&T], axis: usize) -> R<T> {
    let mut s = xs[0].shape.clone();
    for x in xs { if x.dt != xs[0].dt || x.rank() != s.len() { return undef("concat types"); } for d in 0..s.len() { if d != axis && x.shape[d] != s[d] { return undef("concat dims"); } } }
    s[axis] = xs.iter().map(|x| x.shape[axis]).sum();
    let mut f = vec![]; let mut iv = vec![];
    for i in 0..numel(&s) {
        let mut ix = unravel(i, &s);
        let mut k = 0;
        while ix[axis] >= xs[k].shape[axis] { ix[axis] -= xs[k].shape[axis]; k += 1; }
        let j = ravel(&ix, &xs[k].shape);
        match &xs[k].buf { Buf::F(v) => f.push(v[j]), Buf::I(v) => iv.push(v[j]) }
    }
    Ok(if xs[0].is_float() { T::f(xs[0].dt, &s, f) } else { T::i(xs[0].dt, &s, iv) })
}
pub fn slice1(x: &T, axis: usize, start: usize, len: usize) -> T {
    let mut s = x.shape.clone(); s[axis] = len;
    x.pick(&s, |i| { let mut ix = unravel(i, &s); ix[axis] += start; Some(ravel(&ix, &x.shape)) }, 0.0)
}

fn slice(x: &T, starts: &[i64], ends: &[i64], axes: &[i64], steps: &[i64]) -> R<T> {
    let r = x.rank();
    let (mut st, mut sp, mut s) = (vec![0i64; r], vec![1i64; r], x.shape.clone());
    let mut seen = vec![false; r];
    for k in 0..starts.len() {
        let a = norm_axis(axes[k], r)?;
        if seen[a] { return undef("repeated axis"); }
        seen[a] = true;
        let d = x.shape[a] as i128;
        let step = steps[k];
        if step == 0 { return undef("step 0"); }
        let (mut b, mut e) = (starts[k] as i128, ends[k] as i128);
        if b < 0 { b += d; }
        if e < 0 { e += d; }
        if step > 0 { b = b.clamp(0, d); e = e.clamp(0, d); } else { b = b.clamp(0, (d - 1).max(0)); e = e.clamp(-1, (d - 1).max(-1)); }
        let step = step as i128;
        let n = if d == 0 { 0 } else { ((e - b + step - step.signum()) / step).max(0) };
        st[a] = b as i64; sp[a] = step as i64; s[a] = n as usize;
    }
    Ok(x.pick(&s, |i| { let ix = unravel(i, &s); let src: Vec<usize> = (0..r).map(|k| (st[k] + ix[k] as i64 * sp[k]) as usize).collect(); Some(ravel(&src, &x.shape)) }, 0.0))
}

pub fn pads_for(auto: &str, pads: Option<Vec<i64>>, inp: &[usize], k: &[usize], st: &[usize], dil: &[usize]) -> R<(Vec<i64>, Vec<i64>)> {
    let n = inp.len();
    match auto {
        "NOTSET" | "" => { let p = pads.unwrap_or(vec![0; 2 * n]); if p.len() != 2 * n { return undef("pads len"); } Ok((p[..n].to_vec(), p[n..].to_vec())) }
        "VALID" => Ok((vec![0; n], vec![0; n])),
        _ => {
            let (mut b, mut e) = (vec![], vec![]);
            for i in 0..n {
                let out = inp[i].div_ceil(st[i]);
                let tot = ((out as i64 - 1) * st[i] as i64 + ((k[i] as i64 - 1) * dil[i] as i64 + 1) - inp[i] as i64).max(0);
                let (lo, hi) = (tot / 2, tot - tot / 2);
                if auto == "SAME_UPPER" { b.push(lo); e.push(hi) } else { b.push(hi); e.push(lo) }
            }
            Ok((b, e))
        }
    }
}
fn us(v: &[i64]) -> Vec<usize> { v.iter().map(|x| *x as usize).collect() }

fn conv(o: &Op, x: &T, w: &T, b: Option<&T>) -> R<T> {
    let n = x.rank().checked_sub(2).unwrap_or(0);
    if n == 0 || w.rank() != n + 2 { return undef("conv rank"); }
    let k: Vec<usize> = w.shape[2..].to_vec();
    if let Some(ks) = o.is("kernel_shape") { if us(&ks) != k { return undef("kernel_shape mismatch"); } }
    let st = us(&o.is("strides").unwrap_or(vec![1; n]));
    let dil = us(&o.is("dilations").unwrap_or(vec![1; n]));
    let g = o.i("group", 1) as usize;
    let (pb, pe) = pads_for(&o.s("auto_pad", "NOTSET"), o.is("pads"), &x.shape[2..], &k, &st, &dil)?;
    let (nb, c, m, cg) = (x.shape[0], x.shape[1], w.shape[0], w.shape[1]);
    if cg * g != c || m % g != 0 { return undef("conv groups"); }
    let mut os = vec![nb, m];
    for i in 0..n { let t = x.shape[2 + i] as i64 + pb[i] + pe[i] - ((k[i] as i64 - 1) * dil[i] as i64 + 1); if t < 0 { return undef("kernel larger than input"); } os.push(t as usize / st[i] + 1); }
    let xv = x.fv(); let wv = w.fv(); let bv = b.map(|t| t.fv());
    let ksz = numel(&k);
    let mut out = vec![0.0; numel(&os)];
    for i in 0..out.len() {
        let ix = unravel(i, &os);
        let grp = ix[1] / (m / g);
        let mut s = bv.as_ref().map(|v| v[ix[1]]).unwrap_or(0.0);
        for ci in 0..cg { 'q: for q in 0..ksz {
            let kx = unravel(q, &k);
            let mut src = vec![ix[0], grp * cg + ci];
            for d in 0..n { let p = (ix[2 + d] * st[d] + kx[d] * dil[d]) as i64 - pb[d]; if p < 0 || p >= x.shape[2 + d] as i64 { continue 'q; } src.push(p as usize); }
            s += xv[ravel(&src, &x.shape)] * wv[(ix[1] * cg + ci) * ksz + q];
        } }
        out[i] = s;
    }
    Ok(T::f(x.dt, &os, out))
}
fn conv_transpose(o: &Op, x: &T, w: &T, b: Option<&T>) -> R<T> {
    let n = x.rank() - 2;
    let k: Vec<usize> = w.shape[2..].to_vec();
    if let Some(ks) = o.is("kernel_shape") { if us(&ks) != k { return undef("kernel_shape mismatch"); } }
    let st = us(&o.is("strides").unwrap_or(vec![1; n]));
    let dil = us(&o.is("dilations").unwrap_or(vec![1; n]));
    let g = o.i("group", 1) as usize;
    let op = us(&o.is("output_padding").unwrap_or(vec![0; n]));
    let auto = o.s("auto_pad", "NOTSET");
    let (nb, c, cg_out) = (x.shape[0], x.shape[1], w.shape[1]);
    if w.shape[0] != c || c % g != 0 { return undef("ct groups"); }
    let m = cg_out * g;
    let mut pb = vec![]; let mut osz = vec![];
    let pads = o.is("pads").unwrap_or(vec![0; 2 * n]);
    let given = o.is("output_shape").map(|v| us(&v[v.len() - n..].to_vec()));
    for i in 0..n {
        let full = st[i] * (x.shape[2 + i] - 1) + op[i] + (k[i] - 1) * dil[i] + 1;
        let out = if let Some(gs) = &given { gs[i] } else if auto.starts_with("SAME") { x.shape[2 + i] * st[i] } else if auto == "VALID" { full } else { let v = full as i64 - pads[i] - pads[n + i]; if v <= 0 { return undef("ct size"); } v as usize };
        let b = if given.is_some() || auto.starts_with("SAME") {
            let tot = full as i64 - out as i64;
            if tot < 0 { return undef("negative total padding"); }
            if auto == "SAME_UPPER" { tot / 2 } else { tot - tot / 2 }
        } else if auto == "VALID" { 0 } else { pads[i] };
        pb.push(b); osz.push(out);
    }
    let mut os = vec![nb, m]; os.extend(&osz);
    let xv = x.fv(); let wv = w.fv(); let ksz = numel(&k);
    let mut out = vec![0.0; numel(&os)];
    if let Some(bt) = b { let bv = bt.fv(); for (i, v) in out.iter_mut().enumerate() { *v = bv[unravel(i, &os)[1]]; } }
    let cpg = c / g;
    for i in 0..x.len() {
        let ix = unravel(i, &x.shape);
        let grp = ix[1] / cpg;
        for mo in 0..cg_out { 'q: for q in 0..ksz {
            let kx = unravel(q, &k);
            let mut dst = vec![ix[0], grp * cg_out + mo];
            for d in 0..n { let p = (ix[2 + d] * st[d] + kx[d] * dil[d]) as i64 - pb[d]; if p < 0 || p >= osz[d] as i64 { continue 'q; } dst.push(p as usize); }
            out[ravel(&dst, &os)] += xv[i] * wv[(ix[1] * cg_out + mo) * ksz + q];
        } }
    }
    Ok(T::f(x.dt, &os, out))
}
fn pool(o: &Op, x: &T, max: bool) -> R<T> {
    let n = x.rank() - 2;
    let k = us(&o.is("kernel_shape").ok_or(E::Undef("kernel_shape".into()))?);
    if k.len() != n { return undef("pool rank"); }
    let st = us(&o.is("strides").unwrap_or(vec![1; n]));
    let dil = us(&o.is("dilations").unwrap_or(vec![1; n]));
    let auto = o.s("auto_pad", "NOTSET");
    let ceil = o.i("ceil_mode", 0) != 0;
    let cip = o.i("count_include_pad", 0) != 0;
    let (pb, pe) = pads_for(&auto, o.is("pads"), &x.shape[2..], &k, &st, &dil)?;
    let mut os = x.shape[..2].to_vec();
    for i in 0..n {
        let keff = (k[i] as i64 - 1) * dil[i] as i64 + 1;
        if pb[i] >= keff || pe[i] >= keff { return undef("pad not smaller than kernel"); }
        let t = x.shape[2 + i] as i64 + pb[i] + pe[i] - keff;
        if t < 0 { return undef("kernel larger than input"); }
        let mut out = if ceil { (t + st[i] as i64 - 1) / st[i] as i64 + 1 } else { t / st[i] as i64 + 1 };
        if ceil && (out - 1) * st[i] as i64 >= x.shape[2 + i] as i64 + pb[i] { out -= 1; }
        os.push(out as usize);
    }
    let ksz = numel(&k);
    let xv = x.fv();
    let mut outf = vec![];
    for i in 0..numel(&os) {
        let ix = unravel(i, &os);
        let (mut s, mut cnt, mut any, mut m) = (0.0, 0usize, false, f64::NEG_INFINITY);
        'q: for q in 0..ksz {
            let kx = unravel(q, &k);
            let mut src = ix[..2].to_vec();
            let mut inside_padded = true; let mut inside = true;
            for d in 0..n { let p = (ix[2 + d] * st[d] + kx[d] * dil[d]) as i64 - pb[d]; if p < 0 || p >= x.shape[2 + d] as i64 { inside = false; if p >= x.shape[2 + d] as i64 + pe[d] { inside_padded = false; } } src.push(p.max(0) as usize); }
            if inside_padded && cip { cnt += 1; }
            if !inside { continue 'q; }
            if !cip { cnt += 1; }
            any = true;
            let v = xv[ravel(&src, &x.shape)];
            s += v; m = if m.is_nan() || v.is_nan() { f64::NAN } else { m.max(v) };
        }
        if !any { return undef("pool window over padding only"); }
        outf.push(if max { m } else { s / cnt as f64 });
    }
    if x.is_float() { Ok(T::f(x.dt, &os, outf)) } else { Ok(T::i(x.dt, &os, outf.iter().map(|v| *v as i128).collect())) }
}

fn softmaxish(ty: &str, o: &Op, x: &T) -> R<T> {
    let r = x.rank();
    let old = o.opset < 13;
    let ax = if r == 0 { return undef("softmax scalar"); } else if old && r == 1 && o.i("axis", 1) == 1 { return undef("axis of a rank-1 softmax before opset 13"); } else { let a = o.i("axis", if old { 1 } else { -1 }); if old && a == r as i64 { r } else { norm_axis(a, r)? } };
    // pre-13: coerce to 2-D at axis; 13+: along the one axis
    let (outer, mid, inner) = if old { (numel(&x.shape[..ax]), numel(&x.shape[ax..]), 1) } else { (numel(&x.shape[..ax]), x.shape[ax], numel(&x.shape[ax + 1..])) };
    let v = x.fv();
    let mut out = vec![0.0; v.len()];
    for a in 0..outer { for c in 0..inner {
        let id = |m: usize| (a * mid + m) * inner + c;
        let mx = (0..mid).map(|m| v[id(m)]).fold(f64::NEG_INFINITY, f64::max);
        match ty {
            "Hardmax" => { let mut done = false; for m in 0..mid { if !done && v[id(m)] == mx { out[id(m)] = 1.0; done = true; } } }
            _ => {
                let s: f64 = (0..mid).map(|m| (v[id(m)] - mx).exp()).sum();
                for m in 0..mid { out[id(m)] = if ty == "Softmax" { (v[id(m)] - mx).exp() / s } else { v[id(m)] - mx - s.ln() }; }
            }
        }
    } }
    Ok(T::f(x.dt, &x.shape, out))
}

fn act(name: &str, a: Option<f64>, b: Option<f64>) -> R<Box<dyn Fn(f64) -> f64>> {
    Ok(match name.to_lowercase().as_str() {
        "sigmoid" => Box::new(sigmoid), "tanh" => Box::new(f64::tanh), "relu" => Box::new(|x: f64| x.max(0.0)),
        "hardsigmoid" => { let (a, b) = (a.unwrap_or(0.2), b.unwrap_or(0.5)); Box::new(move |x| (a * x + b).clamp(0.0, 1.0)) }
        "leakyrelu" => { let a = a.unwrap_or(0.01); Box::new(move |x| if x < 0.0 { a * x } else { x }) }
        "thresholdedrelu" => { let a = a.unwrap_or(1.0); Box::new(move |x| if x > a { x } else { 0.0 }) }
        "scaledtanh" => { match (a, b) { (Some(a), Some(b)) => Box::new(move |x: f64| a * (b * x).tanh()), _ => return undef("scaledtanh params") } }
        "elu" => { let a = a.unwrap_or(1.0); Box::new(move |x| if x < 0.0 { a * x.exp_m1() } else { x }) }
        "softsign" => Box::new(|x| x / (1.0 + x.abs())), "softplus" => Box::new(softplus),
        "affine" => { match (a, b) { (Some(a), Some(b)) => Box::new(move |x| a * x + b), _ => return undef("affine params") } }
        n => return unsup(format!("activation {n}")),
    })
}

fn recurrent(o: &Op, ins: &[Option<&T>]) -> R<Vec<Option<T>>> {
    let kind = o.ty;
    let ng = match kind { "RNN" => 1, "GRU" => 3, _ => 4 };
    let (x, w, rr) = match (ins.first().copied().flatten(), ins.get(1).copied().flatten(), ins.get(2).copied().flatten()) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => return undef("rnn inputs") };
    let g = |i: usize| ins.get(i).copied().flatten();
    let h = o.i("hidden_size", rr.shape[2] as i64) as usize;
    let layout = o.i("layout", 0);
    let x = if layout == 1 { transpose(x, &[1, 0, 2]) } else { x.clone() };
    let (sl, bs, is) = (x.shape[0], x.shape[1], x.shape[2]);
    let dir = o.s("direction", "forward");
    let nd = if dir == "bidirectional" { 2 } else { 1 };
    if w.shape != [nd, ng * h, is] || rr.shape != [nd, ng * h, h] { return undef("rnn weight shape"); }
    let init = |i: usize| -> R<Vec<f64>> { match g(i) { None => Ok(vec![0.0; nd * bs * h]), Some(t) => { let t = if layout == 1 { transpose(t, &[1, 0, 2]) } else { t.clone() }; if t.shape != [nd, bs, h] { return undef("initial state shape"); } Ok(t.fv()) } } };
    if let Some(l) = g(4) { if l.to_i64().iter().any(|v| *v != sl as i64) { return unsup("sequence_lens"); } }
    let h0 = init(5)?;
    let c0 = if kind == "LSTM" { init(6)? } else { vec![] };
    let per = match kind { "RNN" => 1, "GRU" => 2, _ => 3 };
    let defs: Vec<&str> = match kind { "RNN" => vec!["Tanh"], "GRU" => vec!["Sigmoid", "Tanh"], _ => vec!["Sigmoid", "Tanh", "Tanh"] };
    let acts = o.ss("activations").unwrap_or_else(|| (0..nd).flat_map(|_| defs.iter().map(|s| s.to_string())).collect());
    if acts.len() != per * nd { return undef("activations count"); }
    let (al, be) = (o.fs("activation_alpha").unwrap_or_default(), o.fs("activation_beta").unwrap_or_default());
    let (mut ai, mut bi) = (0, 0);
    let mut fs: Vec<Box<dyn Fn(f64) -> f64>> = vec![];
    for a in &acts {
        let l = a.to_lowercase();
        let na = matches!(l.as_str(), "hardsigmoid" | "leakyrelu" | "thresholdedrelu" | "scaledtanh" | "elu" | "affine");
        let nb = matches!(l.as_str(), "hardsigmoid" | "scaledtanh" | "affine");
        let av = if na { let v = al.get(ai).copied(); ai += 1; v } else { None };
        let bv = if nb { let v = be.get(bi).copied(); bi += 1; v } else { None };
        fs.push(act(a, av.map(|x| x as f32 as f64), bv.map(|x| x as f32 as f64))?);
    }
    let clip = match o.a("clip") { Some(Attr::F(c)) => Some(*c as f32 as f64), _ => None };
    let cl = |v: f64| match clip { Some(c) => v.clamp(-c, c), None => v };
    let (wv, rv) = (w.fv(), rr.fv());
    let bv = g(3).map(|t| t.fv()).unwrap_or(vec![0.0; nd * 2 * ng * h]);
    let pv = if kind == "LSTM" { g(7).map(|t| t.fv()) } else { None };
    let xv = x.fv();
    let lbr = o.i("linear_before_reset", 0) != 0;
    let iforget = o.i("input_forget", 0) != 0;
    let mut y = vec![0.0; sl * nd * bs * h];
    let (mut yh, mut yc) = (vec![0.0; nd * bs * h], vec![0.0; nd * bs * h]);
    for d in 0..nd {
        let rev = dir == "reverse" || d == 1;
        for b in 0..bs {
            let mut hs: Vec<f64> = h0[(d * bs + b) * h..(d * bs + b + 1) * h].to_vec();
            let mut cs: Vec<f64> = if kind == "LSTM" { c0[(d * bs + b) * h..(d * bs + b + 1) * h].to_vec() } else { vec![0.0; h] };
            for t in 0..sl {
                let t = if rev { sl - 1 - t } else { t };
                let xw = |gi: usize, j: usize| -> f64 { (0..is).map(|q| xv[(t * bs + b) * is + q] * wv[(d * ng * h + gi * h + j) * is + q]).sum::<f64>() };
                let hr = |gi: usize, j: usize, hs: &[f64]| -> f64 { (0..h).map(|q| hs[q] * rv[(d * ng * h + gi * h + j) * h + q]).sum::<f64>() };
                let wb = |gi: usize, j: usize| bv[d * 2 * ng * h + gi * h + j];
                let rb = |gi: usize, j: usize| bv[d * 2 * ng * h + ng * h + gi * h + j];
                let f = |k: usize, v: f64| fs[d * per + k](v);
                let mut nh = vec![0.0; h];
                match kind {
                    "RNN" => for j in 0..h { nh[j] = f(0, cl(xw(0, j) + hr(0, j, &hs) + wb(0, j) + rb(0, j))); },
                    "GRU" => {
                        let z: Vec<f64> = (0..h).map(|j| f(0, cl(xw(0, j) + hr(0, j, &hs) + wb(0, j) + rb(0, j)))).collect();
                        let r: Vec<f64> = (0..h).map(|j| f(0, cl(xw(1, j) + hr(1, j, &hs) + wb(1, j) + rb(1, j)))).collect();
                        let rh: Vec<f64> = (0..h).map(|j| r[j] * hs[j]).collect();
                        for j in 0..h {
                            let n = if lbr { f(1, cl(xw(2, j) + r[j] * (hr(2, j, &hs) + rb(2, j)) + wb(2, j))) } else { f(1, cl(xw(2, j) + hr(2, j, &rh) + rb(2, j) + wb(2, j))) };
                            nh[j] = (1.0 - z[j]) * n + z[j] * hs[j];
                        }
                    }
                    _ => for j in 0..h {
                        let p = |k: usize| pv.as_ref().map(|v| v[d * 3 * h + k * h + j]).unwrap_or(0.0);
                        let it = f(0, cl(xw(0, j) + hr(0, j, &hs) + wb(0, j) + rb(0, j) + p(0) * cs[j]));
                        let ft = if iforget { 1.0 - it } else { f(0, cl(xw(2, j) + hr(2, j, &hs) + wb(2, j) + rb(2, j) + p(2) * cs[j])) };
                        let ct = f(1, cl(xw(3, j) + hr(3, j, &hs) + wb(3, j) + rb(3, j)));
                        let c = ft * cs[j] + it * ct;
                        let ot = f(0, cl(xw(1, j) + hr(1, j, &hs) + wb(1, j) + rb(1, j) + p(1) * c));
                        cs[j] = c;
                        nh[j] = ot * f(2, c);
                    },
                }
                hs = nh;
                for j in 0..h { y[((t * nd + d) * bs + b) * h + j] = hs[j]; }
            }
            for j in 0..h { yh[(d * bs + b) * h + j] = hs[j]; yc[(d * bs + b) * h + j] = cs[j]; }
        }
    }
    let (mut y, mut yh, mut yc) = (T::f(x.dt, &[sl, nd, bs, h], y), T::f(x.dt, &[nd, bs, h], yh), T::f(x.dt, &[nd, bs, h], yc));
    if layout == 1 { y = transpose(&y, &[2, 0, 1, 3]); yh = transpose(&yh, &[1, 0, 2]); yc = transpose(&yc, &[1, 0, 2]); }
    let mut out = vec![Some(y), Some(yh)];
    if kind == "LSTM" { out.push(Some(yc)); }
    Ok(out)
}

fn resize(o: &Op, ins: &[Option<&T>]) -> R<T> {
    let x = ins[0].unwrap();
    let r = x.rank();
    let g = |i: usize| ins.get(i).copied().flatten().filter(|t| !t.is_empty());
    let (sc, sz) = if o.opset < 11 { (g(1), None) } else { (g(2), g(3)) };
    let mode = o.s("mode", "nearest");
    let ct = if o.opset < 11 { "asymmetric".to_string() } else { o.s("coordinate_transformation_mode", "half_pixel") };
    let nm = if o.opset < 11 { "floor".to_string() } else { o.s("nearest_mode", "round_prefer_floor") };
    let ca = o.f("cubic_coeff_a", -0.75);
    if o.i("antialias", 0) != 0 || o.i("exclude_outside", 0) != 0 || o.a("axes").is_some() || ct == "tf_crop_and_resize" || o.s("keep_aspect_ratio_policy", "stretch") != "stretch" { return unsup("resize option"); }
    let (os, scales): (Vec<usize>, Vec<f64>) = match (sc, sz) {
        (Some(s), None) => { let s = s.fv(); if s.len() != r { return undef("scales len"); } ((0..r).map(|i| (x.shape[i] as f64 * s[i]).floor() as usize).collect(), s) }
        (None, Some(s)) => { let s = us(&s.to_i64()); if s.len() != r { return undef("sizes len"); } let sc = (0..r).map(|i| s[i] as f64 / x.shape[i] as f64).collect(); (s, sc) }
        _ => return undef("scales/sizes"),
    };
    let coord = |d: usize, i: usize| -> f64 {
        let (xr, s, li, lo) = (i as f64, scales[d], x.shape[d] as f64, os[d] as f64);
        match ct.as_str() {
            "half_pixel" => (xr + 0.5) / s - 0.5,
            "pytorch_half_pixel" => if os[d] > 1 { (xr + 0.5) / s - 0.5 } else { 0.0 },
            "align_corners" => if os[d] == 1 { 0.0 } else { xr * (li - 1.0) / (lo - 1.0) },
            "asymmetric" => xr / s,
            "half_pixel_symmetric" => { let adj = lo / (s * li); let c = li / 2.0; c * (1.0 - adj) + (xr + 0.5) / s - 0.5 }
            _ => f64::NAN,
        }
    };
    let cl = |d: usize, i: i64| i.clamp(0, x.shape[d] as i64 - 1) as usize;
    // separable: per dimension taps (index, weight)
    let mut taps: Vec<Vec<Vec<(usize, f64)>>> = vec![];
    for d in 0..r {
        let mut per = vec![];
        for i in 0..os[d] {
            if os[d] == x.shape[d] && scales[d] == 1.0 { per.push(vec![(i, 1.0)]); continue; }
            let c = coord(d, i);
            if c.is_nan() { return unsup("coordinate mode"); }
            per.push(match mode.as_str() {
                "nearest" => {
                    // positions within rounding noise of a tie are not judged
                    let near_half = ((c - c.floor()) - 0.5).abs() < 1e-6; let near_int = (c - c.round()).abs() < 1e-6;
                    let j = match nm.as_str() {
                        "round_prefer_floor" => if near_half { c.floor() } else { c.round() },
                        "round_prefer_ceil" => if near_half { c.floor() + 1.0 } else { c.round() },
                        "floor" => if near_int { c.round() } else { c.floor() }, _ => if near_int { c.round() } else { c.ceil() },
                    };
                    vec![(cl(d, j as i64), 1.0)]
                }
                "linear" => { let f = c.floor(); let t = c - f; vec![(cl(d, f as i64), 1.0 - t), (cl(d, f as i64 + 1), t)] }
                _ => {
                    let f = c.floor(); let t = c - f;
                    let w = |s: f64| { let s = s.abs(); if s <= 1.0 { (ca + 2.0) * s * s * s - (ca + 3.0) * s * s + 1.0 } else if s < 2.0 { ca * s * s * s - 5.0 * ca * s * s + 8.0 * ca * s - 4.0 * ca } else { 0.0 } };
                    (-1..3).map(|k| (cl(d, f as i64 + k), w(k as f64 - t))).collect()
                }
            });
        }
        taps.push(per);
    }
    let v = x.fv();
    let mut out = vec![];
    for i in 0..numel(&os) {
        let ix = unravel(i, &os);
        let mut acc = vec![(0usize, 1.0)];
        for d in 0..r { let mut n = vec![]; for (b, w) in &acc { for (j, u) in &taps[d][ix[d]] { n.push((b * x.shape[d] + j, w * u)); } } acc = n; }
        out.push(acc.iter().map(|(j, w)| v[*j] * w).sum());
    }
    Ok(if x.is_float() { T::f(x.dt, &os, out) } else { T::num(x.dt, &os, &out) })
}

fn grid_sample(o: &Op, x: &T, g: &T) -> R<T> {
    let n = x.rank() - 2;
    if n != 2 { return unsup("grid_sample rank"); }
    let mode = o.s("mode", "linear"); let pm = o.s("padding_mode", "zeros"); let ac = o.i("align_corners", 0) != 0;
    let (nb, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
    let (ho, wo) = (g.shape[1], g.shape[2]);
    let (xv, gv) = (x.fv(), g.fv());
    let den = |p: f64, l: usize| if ac { (p + 1.0) / 2.0 * (l as f64 - 1.0) } else { ((p + 1.0) * l as f64 - 1.0) / 2.0 };
    let refl = |p: f64, l: usize| -> f64 {
        let (lo, hi) = if ac { (0.0, l as f64 - 1.0) } else { (-0.5, l as f64 - 0.5) };
        let rng = hi - lo; if rng <= 0.0 { return lo; }
        let mut v = p; 
        if v < lo { let dx = lo - v; let k = (dx / rng).floor(); let rr = dx - k * rng; v = if (k as i64) % 2 == 0 { lo + rr } else { hi - rr }; }
        else if v > hi { let dx = v - hi; let k = (dx / rng).floor(); let rr = dx - k * rng; v = if (k as i64) % 2 == 0 { hi - rr } else { lo + rr }; }
        v
    };
    let mut out = vec![0.0; nb * c * ho * wo];
    let px = |b: usize, ch: usize, yy: i64, xx: i64| -> f64 {
        let (mut yy, mut xx) = (yy, xx);
        match pm.as_str() {
            "zeros" => if yy < 0 || xx < 0 || yy >= h as i64 || xx >= w as i64 { return 0.0; },
            "border" => { yy = yy.clamp(0, h as i64 - 1); xx = xx.clamp(0, w as i64 - 1); }
            _ => { yy = (refl(yy as f64, h).round() as i64).clamp(0, h as i64 - 1); xx = (refl(xx as f64, w).round() as i64).clamp(0, w as i64 - 1); }
        }
        xv[((b * c + ch) * h + yy as usize) * w + xx as usize]
    };
    for b in 0..nb { for i in 0..ho { for j in 0..wo {
        let q = ((b * ho + i) * wo + j) * 2;
        let (mut gx, mut gy) = (den(gv[q], w), den(gv[q + 1], h));
        if mode == "nearest" || mode == "linear" || mode == "bilinear" {
            if pm == "border" { gx = gx.clamp(0.0, w as f64 - 1.0); gy = gy.clamp(0.0, h as f64 - 1.0); }
            if pm == "reflection" { gx = refl(gx, w).clamp(0.0, w as f64 - 1.0); gy = refl(gy, h).clamp(0.0, h as f64 - 1.0); }
        }
        for ch in 0..c {
            out[((b * c + ch) * ho + i) * wo + j] = match mode.as_str() {
                "nearest" => { if (gx - gx.floor() - 0.5).abs() < 1e-6 || (gy - gy.floor() - 0.5).abs() < 1e-6 { return undef("nearest tie"); } px(b, ch, rne(gy) as i64, rne(gx) as i64) }
                "linear" | "bilinear" => { let (x0, y0) = (gx.floor(), gy.floor()); let (tx, ty) = (gx - x0, gy - y0); let (x0, y0) = (x0 as i64, y0 as i64); (1.0 - ty) * ((1.0 - tx) * px(b, ch, y0, x0) + tx * px(b, ch, y0, x0 + 1)) + ty * ((1.0 - tx) * px(b, ch, y0 + 1, x0) + tx * px(b, ch, y0 + 1, x0 + 1)) }
                _ => {
                    let (x0, y0) = (gx.floor(), gy.floor()); let (tx, ty) = (gx - x0, gy - y0);
                    let ca = -0.75; let wgt = |s: f64| { let s = s.abs(); if s <= 1.0 { (ca + 2.0) * s * s * s - (ca + 3.0) * s * s + 1.0 } else if s < 2.0 { ca * s * s * s - 5.0 * ca * s * s + 8.0 * ca * s - 4.0 * ca } else { 0.0 } };
                    let mut s = 0.0; for a in -1..3i64 { for bb in -1..3i64 { s += wgt(a as f64 - ty) * wgt(bb as f64 - tx) * px(b, ch, y0 as i64 + a, x0 as i64 + bb); } } s
                }
            };
        }
    } } }
    Ok(T::f(x.dt, &[nb, c, ho, wo], out))
}

fn deform_conv(o: &Op, ins: &[Option<&T>]) -> R<T> {
    let (x, w, off) = (ins[0].unwrap(), ins[1].unwrap(), ins[2].unwrap());
    let b = ins.get(3).copied().flatten(); let mask = ins.get(4).copied().flatten();
    if x.rank() != 4 { return unsup("deform rank"); }
    let k = [w.shape[2], w.shape[3]];
    let st = us(&o.is("strides").unwrap_or(vec![1; 2])); let dil = us(&o.is("dilations").unwrap_or(vec![1; 2]));
    let p = o.is("pads").unwrap_or(vec![0; 4]);
    let g = o.i("group", 1) as usize; let og = o.i("offset_group", 1) as usize;
    let (nb, c, h, wd) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
    let (m, cg) = (w.shape[0], w.shape[1]);
    if cg * g != c || m % g != 0 || c % og != 0 { return undef("groups"); }
    let oh = (h as i64 + p[0] + p[2] - ((k[0] - 1) * dil[0] + 1) as i64) / st[0] as i64 + 1;
    let ow = (wd as i64 + p[1] + p[3] - ((k[1] - 1) * dil[1] + 1) as i64) / st[1] as i64 + 1;
    let (oh, ow) = (oh as usize, ow as usize);
    if off.shape != [nb, og * k[0] * k[1] * 2, oh, ow] { return undef("offset shape"); }
    let (xv, wv, ov) = (x.fv(), w.fv(), off.fv());
    let mv = mask.map(|t| t.fv()); let bv = b.map(|t| t.fv());
    let samp = |n: usize, ch: usize, y: f64, xx: f64| -> f64 {
        if y <= -1.0 || xx <= -1.0 || y >= h as f64 || xx >= wd as f64 { return 0.0; }
        let (y0, x0) = (y.floor(), xx.floor()); let (ty, tx) = (y - y0, xx - x0);
        let at = |yy: i64, xq: i64| if yy < 0 || xq < 0 || yy >= h as i64 || xq >= wd as i64 { 0.0 } else { xv[((n * c + ch) * h + yy as usize) * wd + xq as usize] };
        let (y0, x0) = (y0 as i64, x0 as i64);
        (1.0 - ty) * ((1.0 - tx) * at(y0, x0) + tx * at(y0, x0 + 1)) + ty * ((1.0 - tx) * at(y0 + 1, x0) + tx * at(y0 + 1, x0 + 1))
    };
    let mut out = vec![];
    for n in 0..nb { for mo in 0..m { for i in 0..oh { for j in 0..ow {
        let grp = mo / (m / g);
        let mut s = bv.as_ref().map(|v| v[mo]).unwrap_or(0.0);
        for ci in 0..cg { let ch = grp * cg + ci; let ogi = ch / (c / og); for a in 0..k[0] { for bq in 0..k[1] {
            let kk = a * k[1] + bq;
            let oi = |comp: usize| ov[((n * og * k[0] * k[1] * 2 + (ogi * k[0] * k[1] + kk) * 2 + comp) * oh + i) * ow + j];
            let y = (i * st[0] + a * dil[0]) as f64 - p[0] as f64 + oi(0);
            let xx = (j * st[1] + bq * dil[1]) as f64 - p[1] as f64 + oi(1);
            let mm = mv.as_ref().map(|v| v[((n * og * k[0] * k[1] + ogi * k[0] * k[1] + kk) * oh + i) * ow + j]).unwrap_or(1.0);
            s += mm * samp(n, ch, y, xx) * wv[((mo * cg + ci) * k[0] + a) * k[1] + bq];
        } } }
        out.push(s);
    } } } }
    Ok(T::f(x.dt, &[nb, m, oh, ow], out))
}

fn col2im(o: &Op, x: &T, img: &[usize], blk: &[usize]) -> R<T> {
    let n = img.len();
    let dil = us(&o.is("dilations").unwrap_or(vec![1; n])); let st = us(&o.is("strides").unwrap_or(vec![1; n]));
    let p = o.is("pads").unwrap_or(vec![0; 2 * n]);
    let bl = numel(blk);
    let (nb, c) = (x.shape[0], x.shape[1] / bl);
    let mut ls = vec![];
    for d in 0..n { ls.push(((img[d] as i64 + p[d] + p[n + d] - (dil[d] * (blk[d] - 1) + 1) as i64) / st[d] as i64 + 1) as usize); }
    if numel(&ls) != x.shape[2] || x.shape[1] % bl != 0 { return undef("col2im shape"); }
    let mut os = vec![nb, c]; os.extend(img);
    let mut out = vec![0.0; numel(&os)];
    let v = x.fv();
    for b in 0..nb { for ch in 0..c { for q in 0..bl { for l in 0..numel(&ls) {
        let (kx, lx) = (unravel(q, blk), unravel(l, &ls));
        let mut dst = vec![b, ch]; let mut ok = true;
        for d in 0..n { let pos = (lx[d] * st[d] + kx[d] * dil[d]) as i64 - p[d]; if pos < 0 || pos >= img[d] as i64 { ok = false; break; } dst.push(pos as usize); }
        if ok { out[ravel(&dst, &os)] += v[((b * c + ch) * bl + q) * x.shape[2] + l]; }
    } } } }
    Ok(T::f(x.dt, &os, out))
}

fn attention(o: &Op, ins: &[Option<&T>]) -> R<Vec<Option<T>>> {
    let g = |i: usize| ins.get(i).copied().flatten();
    let (q, k, v) = (g(0).unwrap(), g(1).unwrap(), g(2).unwrap());
    let r3 = q.rank() == 3;
    let split = |t: &T, nh: usize| { let (b, s, e) = (t.shape[0], t.shape[1], t.shape[2]); transpose(&t.with_shape(&[b, s, nh, e / nh]), &[0, 2, 1, 3]) };
    let (qh, kh) = (o.i("q_num_heads", 0) as usize, o.i("kv_num_heads", 0) as usize);
    if r3 && (qh == 0 || kh == 0) { return undef("heads"); }
    let (q, mut k, mut v) = if r3 { (split(q, qh), split(k, kh), split(v, kh)) } else { (q.clone(), k.clone(), v.clone()) };
    if let Some(pk) = g(4) { k = concat(&[pk, &k], 2)?; }
    if let Some(pv) = g(5) { v = concat(&[pv, &v], 2)?; }
    let (pk, pv) = (k.clone(), v.clone());
    let (hq, hk) = (q.shape[1], k.shape[1]);
    if hq % hk != 0 { return undef("gqa"); }
    if hq != hk { let rep = hq / hk; let ex = |t: &T| { let s = vec![t.shape[0], hq, t.shape[2], t.shape[3]]; t.pick(&s, |i| { let mut ix = unravel(i, &s); ix[1] /= rep; Some(ravel(&ix, &t.shape)) }, 0.0) }; k = ex(&k); v = ex(&v); }
    let d = q.shape[3] as f64;
    let scale = match o.a("scale") { Some(Attr::F(s)) => *s as f32 as f64, _ => 1.0 / d.sqrt() };
    let (sq, sk) = (q.shape[2], k.shape[2]);
    let mut qk = matmul(&q, &transpose(&k, &[0, 1, 3, 2]))?;
    qk = fmap(&qk, |a| a * scale)?;
    let m0 = qk.clone();
    let bias = match g(3) { None => None, Some(m) => { let m = if m.dt == Bool { T::f(q.dt, &m.shape, m.iv().iter().map(|b| if *b != 0 { 0.0 } else { f64::NEG_INFINITY }).collect()) } else { m.clone() }; Some(m) } };
    if let Some(b) = &bias { qk = arith("Add", &qk, b)?; }
    if o.i("is_causal", 0) != 0 {
        let past = 0usize; let _ = past;
        if g(4).is_some() { return unsup("causal with past"); }
        let s = qk.shape.clone(); let vv = qk.fv();
        qk = T::f(qk.dt, &s, vv.iter().enumerate().map(|(i, x)| { let ix = unravel(i, &s); if ix[3] > ix[2] { f64::NEG_INFINITY } else { *x } }).collect());
        let _ = (sq, sk);
    }
    let m1 = qk.clone();
    let cap = o.f("softcap", 0.0);
    if cap > 0.0 && (bias.is_some() || o.i("is_causal", 0) != 0) { return undef("softcap and mask order changed between spec revisions"); }
    if cap > 0.0 { qk = fmap(&qk, |a| cap * (a / cap).tanh())?; }
    let m2 = qk.clone();
    let sm = softmaxish("Softmax", &Op { ty: "Softmax", attrs: &[], opset: 13, nout: 1 }, &qk)?;
    if sm.fv().iter().any(|x| x.is_nan()) { return undef("fully masked row"); }
    let mut y = matmul(&sm, &v)?;
    if r3 { let (b, h, s, e) = (y.shape[0], y.shape[1], y.shape[2], y.shape[3]); y = transpose(&y, &[0, 2, 1, 3]).with_shape(&[b, s, h * e]); }
    let qkm = match o.i("qk_matmul_output_mode", 0) { 0 => m0, 1 => m1, 2 => m2, _ => sm };
    Ok(vec![Some(y), Some(pk), Some(pv), Some(qkm)])
}

fn scatter_red(red: &str, a: f64, b: f64) -> f64 { match red { "add" => a + b, "mul" => a * b, "max" => a.max(b), "min" => a.min(b), _ => b } }

fn reshape_dims(x: &T, dims: &[i64], allowzero: bool) -> R<Vec<usize>> {
    let mut s = vec![];
    let mut neg = None;
    for (i, d) in dims.iter().enumerate() {
        match *d {
            -1 => { if neg.is_some() { return undef("two -1"); } neg = Some(i); s.push(1) }
            0 if !allowzero => { if i >= x.rank() { return undef("0 dim beyond rank"); } s.push(x.shape[i]) }
            v if v < 0 => return undef("negative dim"),
            v => s.push(v as usize),
        }
    }
    if let Some(i) = neg { let rest = numel(&s); if rest == 0 { return undef("-1 with zero"); } if x.len() % rest != 0 { return undef("reshape size"); } s[i] = x.len() / rest; }
    if numel(&s) != x.len() { return undef("reshape size"); }
    Ok(s)
}

/// Evaluate one operator. `ins` are the operand values in ONNX order.
pub fn eval_op(o: &Op, ins: &[Option<&T>]) -> R<Vec<Option<T>>> {
    let one = |t: R<T>| t.map(|t| vec![Some(t)]);
    let g = |i: usize| ins.get(i).copied().flatten();
    let need = |i: usize| -> R<&T> { match ins.get(i).copied().flatten() { Some(t) => Ok(t), None => undef(format!("missing input {i} of {}", o.ty)) } };
    if ins.len() == 1 || o.ty == "Identity" { if let Some(x) = g(0) { if let Some(r) = unary(o.ty, o, x) { return one(r); } } }
    // axes as attribute (older) or input (newer)
    let axes_in = |idx: usize| -> Option<Vec<i64>> { o.is("axes").or_else(|| g(idx).map(|t| t.to_i64())) };
    match o.ty {
        "Add" | "Sub" | "Mul" | "Div" => one(arith(o.ty, need(0)?, need(1)?)),
        "Pow" => {
            let (a, b) = (need(0)?, need(1)?);
            let (x, y, s) = bcast2(a, b)?;
            if a.is_float() { one(Ok(T::f(a.dt, &s, x.fv().iter().zip(y.fv()).map(|(p, q)| p.powf(q)).collect()))) }
            else {
                let mut out = vec![];
                for (p, q) in x.iv().iter().zip(y.fv()) {
                    let r = (*p as f64).powf(q);
                    if !r.is_finite() || r.fract() != 0.0 || r.abs() > 2f64.powi(52) { return undef("int pow"); }
                    let (lo, hi) = a.dt.range();
                    if (r as i128) < lo || (r as i128) > hi { return undef("int pow overflow"); }
                    out.push(r as i128);
                }
                one(Ok(T::i(a.dt, &s, out)))
            }
        }
        "Mod" => {
            let (a, b) = (need(0)?, need(1)?);
            if a.dt != b.dt { return undef("types"); }
            let fm = o.i("fmod", 0) != 0;
            let (x, y, s) = bcast2(a, b)?;
            match (&x.buf, &y.buf) {
                (Buf::F(u), Buf::F(v)) => { if !fm { return undef("float mod needs fmod=1"); } one(Ok(T::f(a.dt, &s, u.iter().zip(v).map(|(p, q)| p % q).collect()))) }
                (Buf::I(u), Buf::I(v)) => { if v.iter().any(|q| *q == 0) { return undef("mod 0"); } one(Ok(T::i(a.dt, &s, u.iter().zip(v).map(|(p, q)| if fm { p % q } else { let r = p % q; if r != 0 && (r < 0) != (*q < 0) { r + q } else { r } }).collect()))) }
                _ => unreachable!(),
            }
        }
        "PRelu" => { let (a, b) = (need(0)?, need(1)?); let bb = match b.broadcast_to(&a.shape) { Some(t) => t, None => return undef("prelu slope") }; one(Ok(if a.is_float() { T::f(a.dt, &a.shape, a.fv().iter().zip(bb.fv()).map(|(x, s)| if *x < 0.0 { x * s } else { *x }).collect()) } else { T::i(a.dt, &a.shape, a.iv().iter().zip(bb.iv()).map(|(x, s)| if *x < 0 { x * s } else { *x }).collect()) })) }
        "Equal" => one(cmp(need(0)?, need(1)?, |c| c.is_eq(), false)),
        "Greater" => one(cmp(need(0)?, need(1)?, |c| c.is_gt(), false)),
        "GreaterOrEqual" => one(cmp(need(0)?, need(1)?, |c| c.is_ge(), false)),
        "Less" => one(cmp(need(0)?, need(1)?, |c| c.is_lt(), false)),
        "LessOrEqual" => one(cmp(need(0)?, need(1)?, |c| c.is_le(), false)),
        "And" => one(bits(need(0)?, need(1)?, |a, b| a & b)),
        "Or" => one(bits(need(0)?, need(1)?, |a, b| a | b)),
        "Xor" => one(bits(need(0)?, need(1)?, |a, b| a ^ b)),
        "BitwiseAnd" => one(bits(need(0)?, need(1)?, |a, b| a & b)),
        "BitwiseOr" => one(bits(need(0)?, need(1)?, |a, b| a | b)),
        "BitwiseXor" => one(bits(need(0)?, need(1)?, |a, b| a ^ b)),
        "BitShift" => { let (a, b) = (need(0)?, need(1)?); if a.dt.is_float() { return undef("type"); } let n = a.dt.bits() as i128; if b.iv().iter().any(|s| *s < 0 || *s >= n) { return undef("shift amount"); } let l = o.s("direction", "") == "LEFT"; let dt = a.dt; let (lo, hi) = dt.range(); let r = bits(a, b, |x, s| if l { x << s } else { x >> s })?; if l { let (x, y, _) = bcast2(a, b)?; if dt.is_signed() && x.iv().iter().zip(y.iv()).any(|(p, s)| (p << s) < lo || (p << s) > hi) { return undef("signed shift overflow"); } } one(Ok(r)) }
        "Where" => {
            let (c, a, b) = (need(0)?, need(1)?, need(2)?);
            if a.dt != b.dt || c.dt != Bool { return undef("where types"); }
            let s = match bshape(&[&c.shape, &a.shape, &b.shape]) { Some(s) => s, None => return undef("broadcast") };
            let (c, a, b) = (c.broadcast_to(&s).unwrap(), a.broadcast_to(&s).unwrap(), b.broadcast_to(&s).unwrap());
            one(Ok(match (&a.buf, &b.buf) { (Buf::F(x), Buf::F(y)) => T::f(a.dt, &s, c.iv().iter().enumerate().map(|(i, q)| if *q != 0 { x[i] } else { y[i] }).collect()), (Buf::I(x), Buf::I(y)) => T::i(a.dt, &s, c.iv().iter().enumerate().map(|(i, q)| if *q != 0 { x[i] } else { y[i] }).collect()), _ => unreachable!() }))
        }
        "Max" | "Min" | "Sum" | "Mean" => {
            let xs: Vec<&T> = ins.iter().map(|x| x.ok_or(E::Undef("missing".into()))).collect::<R<_>>()?;
            let sh: Vec<&[usize]> = xs.iter().map(|t| &t.shape[..]).collect();
            let s = match bshape(&sh) { Some(s) => s, None => return undef("broadcast") };
            if xs.iter().any(|t| t.dt != xs[0].dt) { return undef("types"); }
            let bx: Vec<T> = xs.iter().map(|t| t.broadcast_to(&s).unwrap()).collect();
            let n = numel(&s);
            let dt = xs[0].dt;
            if dt.is_float() {
                let v: Vec<Vec<f64>> = bx.iter().map(|t| t.fv()).collect();
                one(Ok(T::f(dt, &s, (0..n).map(|i| { let it = v.iter().map(|u| u[i]); match o.ty { "Max" => it.fold(f64::NEG_INFINITY, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) }), "Min" => it.fold(f64::INFINITY, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.min(b) }), "Sum" => it.sum(), _ => it.sum::<f64>() / v.len() as f64 } }).collect())))
            } else {
                let v: Vec<Vec<i128>> = bx.iter().map(|t| t.iv()).collect();
                if o.ty == "Mean" || o.ty == "Sum" { return undef("int sum/mean"); }
                one(Ok(T::i(dt, &s, (0..n).map(|i| { let it = v.iter().map(|u| u[i]); if o.ty == "Max" { it.max().unwrap() } else { it.min().unwrap() } }).collect())))
            }
        }
        "Clip" => {
            let x = need(0)?;
            if if o.opset < 11 { g(1).is_some() || g(2).is_some() } else { o.a("min").is_some() || o.a("max").is_some() } { return undef("bounds of another opset"); }
            let (mn, mx) = if o.opset < 11 { (match o.a("min") { Some(Attr::F(v)) => Some(*v as f32 as f64), _ => None }, match o.a("max") { Some(Attr::F(v)) => Some(*v as f32 as f64), _ => None }) } else { (g(1).map(|t| t.fget(0)), g(2).map(|t| t.fget(0))) };
            for t in [g(1), g(2)].into_iter().flatten() { if t.dt != x.dt || t.len() != 1 { return undef("clip bound type"); } }
            if let (Some(a), Some(b)) = (mn, mx) { if a > b { return undef("clip min > max"); } }
            one(Ok(nmap(x, |a| { let mut a = a; if a.is_nan() { return a; } if let Some(m) = mn { a = a.max(m) } if let Some(m) = mx { a = a.min(m) } a }, |a| { let mut a = a; if let Some(m) = mn { a = a.max(m as i128) } if let Some(m) = mx { a = a.min(m as i128) } a })))
        }
        "Cast" => {
            let x = need(0)?;
            let to = match DT::from_onnx(o.i("to", 0) as i32) { Some(d) => d, None => return undef("cast type") };
            if x.is_float() && to.is_int() { let (lo, hi) = to.range(); if x.fv().iter().any(|v| v.is_nan() || v.trunc() < lo as f64 || v.trunc() >= hi as f64 + 1.0) { return undef("cast out of range"); } }
            if x.dt.is_int() && to.is_int() { let (lo, hi) = to.range(); if x.iv().iter().any(|v| *v < lo || *v > hi) { return undef("cast out of range"); } }
            one(Ok(x.cast(to)))
        }
        "Dropout" => { let x = need(0)?; if let Some(t) = g(2) { if t.iv()[0] != 0 { return undef("training dropout"); } } let mut v = vec![Some(x.clone())]; if o.nout > 1 { v.push(Some(T::i(Bool, &x.shape, vec![1; x.len()]))); } Ok(v) }
        "ReduceMax" | "ReduceMin" | "ReduceMean" | "ReduceSum" | "ReduceProd" | "ReduceL1" | "ReduceL2" | "ReduceLogSum" | "ReduceLogSumExp" | "ReduceSumSquare" => {
            let x = need(0)?;
            let ax = axes_in(1);
            let keep = o.i("keepdims", 1) != 0;
            let axes: Vec<usize> = match ax { Some(a) if !a.is_empty() => { let v = a.iter().map(|d| norm_axis(*d, x.rank())).collect::<R<Vec<_>>>()?; let mut u = v.clone(); u.sort(); u.dedup(); if u.len() != v.len() { return undef("repeated axis"); } v } _ => { if o.i("noop_with_empty_axes", 0) != 0 { if !matches!(o.ty, "ReduceMax" | "ReduceMin" | "ReduceMean" | "ReduceSum" | "ReduceProd") { return undef("noop semantics of transforming reductions"); } return one(Ok(x.clone())); } (0..x.rank()).collect() } };
            one(reduce(o.ty, x, &axes, keep))
        }
        "ArgMax" | "ArgMin" => {
            let x = need(0)?;
            let ax = norm_axis(o.i("axis", 0), x.rank())?;
            if x.shape[ax] == 0 { return undef("empty argmax"); }
            let (keep, last) = (o.i("keepdims", 1) != 0, o.i("select_last_index", 0) != 0);
            let mut ks = x.shape.clone(); ks[ax] = 1;
            let v = x.fv();
            let mut out = vec![];
            for i in 0..numel(&ks) {
                let mut ix = unravel(i, &ks);
                let mut best = 0usize; let mut bv = f64::NAN;
                for k in 0..x.shape[ax] { ix[ax] = k; let q = v[ravel(&ix, &x.shape)]; if q.is_nan() { return undef("nan argmax"); } let better = k == 0 || if o.ty == "ArgMax" { q > bv } else { q < bv } || (last && q == bv); if better { best = k; bv = q; } }
                out.push(best as i128);
            }
            let t = T::i(I64, &ks, out);
            one(Ok(if keep { t } else { let mut s = x.shape.clone(); s.remove(ax); t.with_shape(&s) }))
        }
        "CumSum" => {
            let x = need(0)?;
            let ax = norm_axis(need(1)?.to_i64()[0], x.rank())?;
            let (ex, rev) = (o.i("exclusive", 0) != 0, o.i("reverse", 0) != 0);
            let mut out = x.clone();
            let n = x.shape[ax];
            for i in 0..x.len() {
                let ix = unravel(i, &x.shape);
                let p = ix[ax];
                let rng: Vec<usize> = match (ex, rev) { (false, false) => (0..=p).collect(), (true, false) => (0..p).collect(), (false, true) => (p..n).collect(), (true, true) => (p + 1..n).collect() };
                let src: Vec<usize> = rng.into_iter().map(|k| { let mut j = ix.clone(); j[ax] = k; ravel(&j, &x.shape) }).collect();
                match (&x.buf, &mut out.buf) { (Buf::F(v), Buf::F(w)) => w[i] = round_to(x.dt, src.iter().map(|k| v[*k]).sum()), (Buf::I(v), Buf::I(w)) => w[i] = wrap(x.dt, src.iter().map(|k| v[*k]).sum()), _ => unreachable!() }
            }
            one(Ok(out))
        }
        "TopK" => {
            let x = need(0)?;
            if o.opset < 10 && o.a("k").is_none() { return undef("k"); }
            let k = if o.opset < 10 { o.i("k", 0) } else { need(1)?.to_i64()[0] } as usize;
            let ax = norm_axis(o.i("axis", -1), x.rank())?;
            let largest = o.i("largest", 1) != 0;
            if o.i("sorted", 1) == 0 { return undef("unsorted topk"); }
            if k > x.shape[ax] { return undef("k"); }
            let mut os = x.shape.clone(); os[ax] = k;
            let mut base = x.shape.clone(); base[ax] = 1;
            let v = x.fv();
            if v.iter().any(|q| q.is_nan()) { return undef("nan topk"); }
            let mut pickv = vec![0usize; numel(&os)]; let mut idx = vec![0i128; numel(&os)];
            for i in 0..numel(&base) {
                let ix = unravel(i, &base);
                let at = |p: usize| { let mut j = ix.clone(); j[ax] = p; ravel(&j, &x.shape) };
                let mut ord: Vec<usize> = (0..x.shape[ax]).collect();
                ord.sort_by(|a, b| { let c = v[at(*a)].partial_cmp(&v[at(*b)]).unwrap(); let c = if largest { c.reverse() } else { c }; c.then(a.cmp(b)) });
                for (p, s) in ord.iter().take(k).enumerate() { let mut j = ix.clone(); j[ax] = p; let d = ravel(&j, &os); pickv[d] = at(*s); idx[d] = *s as i128; }
            }
            Ok(vec![Some(x.pick(&os, |i| Some(pickv[i]), 0.0)), Some(T::i(I64, &os, idx))])
        }
        "Softmax" | "LogSoftmax" | "Hardmax" => one(softmaxish(o.ty, o, need(0)?)),
        "Concat" => { let xs: Vec<&T> = ins.iter().flatten().copied().collect(); if xs.is_empty() || xs[0].rank() == 0 { return undef("concat scalars"); } let ax = norm_axis(match o.a("axis") { Some(Attr::I(v)) => *v, _ => return undef("axis") }, xs[0].rank())?; one(concat(&xs, ax)) }
        "Expand" => { let x = need(0)?; let t = us(&need(1)?.to_i64()); let s = match bshape(&[&x.shape, &t]) { Some(s) => s, None => return undef("expand") }; if numel(&s) > 1 << 20 { return unsup("too large"); } one(x.broadcast_to(&s).ok_or(E::Undef("expand".into()))) }
        "Flatten" => { let x = need(0)?; let a = o.i("axis", 1); let r = x.rank() as i64; let a = if a < 0 { a + r } else { a }; if a < 0 || a > r { return undef("axis"); } let a = a as usize; one(Ok(x.with_shape(&[numel(&x.shape[..a]), numel(&x.shape[a..])]))) }
        "Gather" => {
            let (x, ix) = (need(0)?, need(1)?);
            let ax = norm_axis(o.i("axis", 0), x.rank())?;
            let d = x.shape[ax] as i64;
            let iv: Vec<i64> = ix.to_i64();
            if iv.iter().any(|i| *i < -d || *i >= d) { return undef("gather index"); }
            let mut s = x.shape[..ax].to_vec(); s.extend(&ix.shape); s.extend(&x.shape[ax + 1..]);
            let ir = ix.rank();
            one(Ok(x.pick(&s, |i| { let p = unravel(i, &s); let q = iv[ravel(&p[ax..ax + ir], &ix.shape)]; let q = if q < 0 { q + d } else { q } as usize; let mut src = p[..ax].to_vec(); src.push(q); src.extend(&p[ax + ir..]); Some(ravel(&src, &x.shape)) }, 0.0)))
        }
        "GatherElements" => {
            let (x, ix) = (need(0)?, need(1)?);
            let ax = norm_axis(o.i("axis", 0), x.rank())?;
            if ix.rank() != x.rank() { return undef("rank"); }
            for k in 0..x.rank() { if k != ax && ix.shape[k] > x.shape[k] { return undef("index shape"); } }
            let d = x.shape[ax] as i64; let iv = ix.to_i64();
            if iv.iter().any(|i| *i < -d || *i >= d) { return undef("index"); }
            one(Ok(x.pick(&ix.shape, |i| { let mut p = unravel(i, &ix.shape); let q = iv[i]; p[ax] = if q < 0 { q + d } else { q } as usize; Some(ravel(&p, &x.shape)) }, 0.0)))
        }
        "GatherND" => {
            let (x, ix) = (need(0)?, need(1)?);
            let b = o.i("batch_dims", 0) as usize;
            if ix.rank() == 0 || b >= ix.rank().min(x.rank()) || x.shape[..b] != ix.shape[..b] { return undef("batch_dims"); }
            let l = ix.shape[ix.rank() - 1];
            if l == 0 || l > x.rank() - b { return undef("index depth"); }
            let mut s = ix.shape[..ix.rank() - 1].to_vec(); s.extend(&x.shape[b + l..]);
            let iv = ix.to_i64(); let il = ix.rank() - 1;
            for (n, q) in iv.iter().enumerate() { let d = x.shape[b + n % l] as i64; if *q < -d || *q >= d { return undef("index"); } }
            one(Ok(x.pick(&s, |i| { let p = unravel(i, &s); let base = ravel(&p[..il], &ix.shape[..il]) * l; let mut src = p[..b].to_vec(); for j in 0..l { let q = iv[base + j]; let d = x.shape[b + j] as i64; src.push(if q < 0 { q + d } else { q } as usize); } src.extend(&p[il..]); Some(ravel(&src, &x.shape)) }, 0.0)))
        }
        "ScatterElements" | "Scatter" => {
            let (x, ix, u) = (need(0)?, need(1)?, need(2)?);
            let ax = norm_axis(o.i("axis", 0), x.rank())?;
            let red = o.s("reduction", "none");
            if ix.shape != u.shape || u.dt != x.dt { return undef("shapes"); }
            for k in 0..x.rank() { if k != ax && ix.shape[k] > x.shape[k] { return undef("index shape"); } }
            let d = x.shape[ax] as i64; let iv = ix.to_i64();
            if iv.iter().any(|i| *i < -d || *i >= d) { return undef("index"); }
            let mut out = x.clone(); let mut hit = vec![false; x.len()];
            for i in 0..ix.len() {
                let mut p = unravel(i, &ix.shape); let q = iv[i]; p[ax] = if q < 0 { q + d } else { q } as usize; let j = ravel(&p, &x.shape);
                if red == "none" && hit[j] { return undef("duplicate scatter index"); } hit[j] = true;
                match (&mut out.buf, &u.buf) { (Buf::F(a), Buf::F(b)) => a[j] = round_to(x.dt, scatter_red(&red, a[j], b[i])), (Buf::I(a), Buf::I(b)) => a[j] = wrap(x.dt, scatter_red(&red, a[j] as f64, b[i] as f64) as i128), _ => unreachable!() }
            }
            one(Ok(out))
        }
        "ScatterND" => {
            let (x, ix, u) = (need(0)?, need(1)?, need(2)?);
            let red = o.s("reduction", "none");
            if ix.rank() == 0 || u.dt != x.dt { return undef("rank"); }
            let l = ix.shape[ix.rank() - 1];
            if l == 0 || l > x.rank() { return undef("depth"); }
            let mut us_ = ix.shape[..ix.rank() - 1].to_vec(); us_.extend(&x.shape[l..]);
            if us_ != u.shape { return undef("updates shape"); }
            let inner = numel(&x.shape[l..]); let iv = ix.to_i64();
            let mut out = x.clone(); let mut hit = std::collections::HashSet::new();
            for n in 0..iv.len() / l {
                let mut p = vec![]; for j in 0..l { let d = x.shape[j] as i64; let q = iv[n * l + j]; if q < -d || q >= d { return undef("index"); } p.push(if q < 0 { q + d } else { q } as usize); }
                let base = ravel(&p, &x.shape[..l]) * inner;
                if red == "none" && !hit.insert(base) { return undef("duplicate scatter index"); }
                for k in 0..inner { match (&mut out.buf, &u.buf) { (Buf::F(a), Buf::F(b)) => a[base + k] = round_to(x.dt, scatter_red(&red, a[base + k], b[n * inner + k])), (Buf::I(a), Buf::I(b)) => a[base + k] = wrap(x.dt, scatter_red(&red, a[base + k] as f64, b[n * inner + k] as f64) as i128), _ => unreachable!() } }
            }
            one(Ok(out))
        }
        "Pad" => {
            let x = need(0)?;
            let r = x.rank();
            let mode = o.s("mode", "constant");
            let (pads, cv) = if o.opset < 11 { (o.is("pads").or(o.is("paddings")).ok_or(E::Undef("pads".into()))?, o.f("value", 0.0)) } else { (need(1)?.to_i64(), g(2).map(|t| t.fget(0)).unwrap_or(0.0)) };
            let axes: Vec<usize> = match g(3) { Some(a) => a.to_i64().iter().map(|d| norm_axis(*d, r)).collect::<R<_>>()?, None => (0..r).collect() };
            if pads.len() != 2 * axes.len() { return undef("pads"); }
            let (mut b, mut e) = (vec![0i64; r], vec![0i64; r]);
            for (k, a) in axes.iter().enumerate() { b[*a] = pads[k]; e[*a] = pads[axes.len() + k]; }
            let mut s = vec![]; for d in 0..r { let n = x.shape[d] as i64 + b[d] + e[d]; if n < 0 { return undef("negative size"); } s.push(n as usize); }
            if mode == "reflect" { for d in 0..r { if b[d] >= x.shape[d] as i64 || e[d] >= x.shape[d] as i64 { return undef("reflect pad too large"); } } }
            if mode != "constant" && (0..r).any(|d| x.shape[d] == 0 && s[d] > 0) { return undef("pad of nothing"); }
            one(Ok(x.pick(&s, |i| { let p = unravel(i, &s); let mut src = vec![]; for d in 0..r { let mut q = p[d] as i64 - b[d]; let n = x.shape[d] as i64; if q < 0 || q >= n { match mode.as_str() { "constant" => return None, "edge" => q = q.clamp(0, n - 1), "wrap" => q = q.rem_euclid(n), _ => { if q < 0 { q = -q } if q >= n { q = 2 * (n - 1) - q } } } } src.push(q as usize); } Some(ravel(&src, &x.shape)) }, cv)))
        }
        "Reshape" => { let x = need(0)?; let d = match o.is("shape") { Some(s) if o.opset < 5 => s, _ => need(1)?.to_i64() }; let s = reshape_dims(x, &d, o.i("allowzero", 0) != 0)?; one(Ok(x.with_shape(&s))) }
        "Shape" => { let x = need(0)?; let r = x.rank() as i64; let nz = |v: i64| (if v < 0 { v + r } else { v }).clamp(0, r); let (s, e) = (nz(o.i("start", 0)), nz(o.i("end", r))); let v: Vec<i64> = if s < e { x.shape[s as usize..e as usize].iter().map(|d| *d as i64).collect() } else { vec![] }; one(Ok(T::i64v(&v))) }
        "Size" => one(Ok(T::i64s(need(0)?.len() as i64))),
        "Slice" => {
            let x = need(0)?;
            if if o.opset < 10 { g(1).is_some() } else { o.a("starts").is_some() } { return undef("bounds of another opset"); }
            let (st, en, ax, sp) = if o.opset < 10 { (o.is("starts").unwrap_or_default(), o.is("ends").unwrap_or_default(), o.is("axes"), None) } else { (need(1)?.to_i64(), need(2)?.to_i64(), g(3).map(|t| t.to_i64()), g(4).map(|t| t.to_i64())) };
            let n = st.len();
            let ax = ax.unwrap_or((0..n as i64).collect()); let sp = sp.unwrap_or(vec![1; n]);
            if en.len() != n || ax.len() != n || sp.len() != n { return undef("slice lens"); }
            one(slice(x, &st, &en, &ax, &sp))
        }
        "Split" => {
            let x = need(0)?;
            let ax = norm_axis(o.i("axis", 0), x.rank())?;
            let d = x.shape[ax];
            let sizes: Vec<usize> = match o.is("split").or_else(|| g(1).map(|t| t.to_i64())) { Some(s) => us(&s), None => { let n = if o.a("num_outputs").is_some() { o.i("num_outputs", 1) as usize } else { o.nout }; let c = if o.opset >= 18 { d.div_ceil(n) } else { if d % n != 0 { return undef("uneven split"); } d / n }; let mut v = vec![]; let mut left = d; for _ in 0..n { let k = c.min(left); v.push(k); left -= k; } v } };
            if sizes.iter().sum::<usize>() != d || sizes.len() != o.nout { return undef("split sizes"); }
            let mut p = 0; Ok(sizes.iter().map(|n| { let t = slice1(x, ax, p, *n); p += n; Some(t) }).collect())
        }
        "Squeeze" => { let x = need(0)?; let ax: Vec<usize> = match axes_in(1) { Some(a) => a.iter().map(|d| norm_axis(*d, x.rank())).collect::<R<_>>()?, None => (0..x.rank()).filter(|d| x.shape[*d] == 1).collect() }; if ax.iter().any(|a| x.shape[*a] != 1) { return undef("squeeze dim != 1"); } let s: Vec<usize> = (0..x.rank()).filter(|d| !ax.contains(d)).map(|d| x.shape[d]).collect(); one(Ok(x.with_shape(&s))) }
        "Unsqueeze" => { let x = need(0)?; let a = axes_in(1).ok_or(E::Undef("axes".into()))?; let r = x.rank() + a.len(); let mut ax = a.iter().map(|d| norm_axis(*d, r)).collect::<R<Vec<_>>>()?; ax.sort(); let l = ax.len(); ax.dedup(); if ax.len() != l { return undef("dup axes"); } let mut s = x.shape.clone(); for d in ax { s.insert(d, 1); } one(Ok(x.with_shape(&s))) }
        "Tile" => { let x = need(0)?; let rep = us(&need(1)?.to_i64()); if rep.len() != x.rank() { return undef("repeats"); } let s: Vec<usize> = x.shape.iter().zip(&rep).map(|(a, b)| a.saturating_mul(*b)).collect(); if numel(&s) > 100_000 { return undef("too large"); } one(Ok(x.pick(&s, |i| { let p = unravel(i, &s); Some(ravel(&p.iter().zip(&x.shape).map(|(a, d)| a % d).collect::<Vec<_>>(), &x.shape)) }, 0.0))) }
        "Transpose" => { let x = need(0)?; let p = us(&o.is("perm").unwrap_or((0..x.rank() as i64).rev().collect())); let mut q = p.clone(); q.sort(); if q != (0..x.rank()).collect::<Vec<_>>() { return undef("perm"); } one(Ok(transpose(x, &p))) }
        "DepthToSpace" => { let x = need(0)?; let b = o.i("blocksize", 0) as usize; let (n, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]); if c % (b * b) != 0 { return undef("block"); } let q = c / (b * b); let t = if o.s("mode", "DCR") == "DCR" { transpose(&x.with_shape(&[n, b, b, q, h, w]), &[0, 3, 4, 1, 5, 2]) } else { transpose(&x.with_shape(&[n, q, b, b, h, w]), &[0, 1, 4, 2, 5, 3]) }; one(Ok(t.with_shape(&[n, q, h * b, w * b]))) }
        "SpaceToDepth" => { let x = need(0)?; let b = o.i("blocksize", 0) as usize; let (n, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]); if h % b != 0 || w % b != 0 { return undef("block"); } let t = transpose(&x.with_shape(&[n, c, h / b, b, w / b, b]), &[0, 3, 5, 1, 2, 4]); one(Ok(t.with_shape(&[n, c * b * b, h / b, w / b]))) }
        "Trilu" => { let x = need(0)?; if x.rank() < 2 { return undef("rank"); } let k = g(1).map(|t| t.to_i64()[0]).unwrap_or(0); let up = o.i("upper", 1) != 0; let r = x.rank(); one(Ok(x.pick(&x.shape, |i| { let p = unravel(i, &x.shape); let d = p[r - 1] as i64 - p[r - 2] as i64; if (up && d >= k) || (!up && d <= k) { Some(i) } else { None } }, 0.0))) }
        "EyeLike" => { let x = need(0)?; if x.rank() != 2 { return undef("rank"); } let dt = if o.a("dtype").is_some() { DT::from_onnx(o.i("dtype", 1) as i32).unwrap() } else { x.dt }; let k = o.i("k", 0); one(Ok(T::num(dt, &x.shape, &(0..x.len()).map(|i| { let p = unravel(i, &x.shape); (p[1] as i64 - p[0] as i64 == k) as u8 as f64 }).collect::<Vec<_>>()))) }
        "ConstantOfShape" => { let s0 = need(0)?.to_i64(); if s0.iter().any(|d| *d < 0) { return undef("negative dimension"); } let s = us(&s0); if numel(&s) > 1 << 20 { return unsup("too large"); } let v = match o.a("value") { Some(Attr::T(t)) => t.t.clone(), _ => T::f32(&[1], &[0.0]) }; one(v.with_shape(&[]).broadcast_to(&s).ok_or(E::Undef("cos".into()))) }
        "Constant" => {
            let (k, a) = match o.attrs.first() { Some(x) => x, None => return undef("constant without value") };
            one(match (k.as_str(), a) { ("value", Attr::T(t)) => Ok(t.t.clone()), ("value_float", Attr::F(v)) => Ok(T::f32s(*v)), ("value_floats", Attr::Fs(v)) => Ok(T::f32(&[v.len()], v)), ("value_int", Attr::I(v)) => Ok(T::i64s(*v)), ("value_ints", Attr::Is(v)) => Ok(T::i64v(v)), _ => unsup("constant kind") })
        }
        "OneHot" => {
            let (ix, dep, val) = (need(0)?, need(1)?, need(2)?);
            let d = dep.iv()[0] as i64; if d <= 0 { return undef("depth"); }
            let r = ix.rank() + 1; let ax = norm_axis(o.i("axis", -1), r)?;
            let mut s = ix.shape.clone(); s.insert(ax, d as usize);
            let iv = ix.to_i64();
            one(Ok(val.pick(&s, |i| { let mut p = unravel(i, &s); let k = p.remove(ax) as i64; let q = iv[ravel(&p, &ix.shape)]; let q = if q < 0 { q + d } else { q }; Some((q == k) as usize) }, 0.0)))
        }
        "NonZero" => { let x = need(0)?; let hits: Vec<Vec<usize>> = (0..x.len()).filter(|i| x.fget(*i) != 0.0).map(|i| unravel(i, &x.shape)).collect(); let r = x.rank(); if r == 0 { return undef("nonzero scalar"); } let mut v = vec![]; for d in 0..r { for h in &hits { v.push(h[d] as i64); } } one(Ok(T::i64(&[r, hits.len()], &v))) }
        "Range" => { let (a, l, d) = (need(0)?, need(1)?, need(2)?); if a.dt != l.dt || a.dt != d.dt { return undef("types"); } if d.fget(0) == 0.0 { return undef("delta 0"); } if a.is_float() { let n = (((l.fget(0) - a.fget(0)) / d.fget(0)).ceil()).max(0.0) as usize; one(Ok(T::f(a.dt, &[n], (0..n).map(|i| a.fget(0) + i as f64 * d.fget(0)).collect()))) } else { let (x, y, z) = (a.iv()[0], l.iv()[0], d.iv()[0]); let n = if (y - x) * z <= 0 { 0 } else { ((y - x).abs() + z.abs() - 1) / z.abs() }; if n > 100000 { return undef("range size"); } one(Ok(T::i(a.dt, &[n as usize], (0..n).map(|i| x + i * z).collect()))) } }
        "MatMul" => one(matmul(need(0)?, need(1)?)),
        "MatMulInteger" => {
            let (a, b) = (need(0)?, need(1)?);
            let zp = |t: &T, z: Option<&T>, row: bool| -> R<T> { let w = T::i(I32, &t.shape, t.iv()); match z { None => Ok(w), Some(z) => { let z32 = T::i(I32, &z.shape, z.iv()); if z.len() == 1 { arith("Sub", &w, &z32.with_shape(&[])) } else if z.rank() == 1 { if row { let n = z.len(); arith("Sub", &w, &z32.with_shape(&[n, 1])) } else { arith("Sub", &w, &z32) } } else { arith("Sub", &w, &z32) } } } };
            one(matmul(&zp(a, g(2), true)?, &zp(b, g(3), false)?))
        }
        "Gemm" => {
            let (a, b) = (need(0)?, need(1)?);
            if a.rank() != 2 || b.rank() != 2 { return undef("gemm rank"); }
            let (al, be) = (o.f("alpha", 1.0), o.f("beta", 1.0));
            let a = if o.i("transA", 0) != 0 { transpose(a, &[1, 0]) } else { a.clone() };
            let b = if o.i("transB", 0) != 0 { transpose(b, &[1, 0]) } else { b.clone() };
            let m = matmul(&a, &b)?;
            let mut out: Vec<f64> = m.fv().iter().map(|v| v * al).collect();
            if let Some(c) = g(2) { if c.dt != a.dt { return undef("types"); } let c = match c.broadcast_to(&m.shape) { Some(c) => c, None => return undef("gemm C") }; for (x, y) in out.iter_mut().zip(c.fv()) { *x += be * y; } }
            one(Ok(T::num(a.dt, &m.shape, &out)))
        }
        "Conv" => one(conv(o, need(0)?, need(1)?, g(2))),
        "ConvTranspose" => one(conv_transpose(o, need(0)?, need(1)?, g(2))),
        "MaxPool" | "AveragePool" => { let x = need(0)?; if o.nout > 1 { return unsup("MaxPool indices"); } one(pool(o, x, o.ty == "MaxPool")) }
        "GlobalAveragePool" | "GlobalMaxPool" => { let x = need(0)?; let r = x.rank(); one(reduce(if o.ty == "GlobalAveragePool" { "ReduceMean" } else { "ReduceMax" }, x, &(2..r).collect::<Vec<_>>(), true)) }
        "BatchNormalization" => {
            let (x, sc, b, m, v) = (need(0)?, need(1)?, need(2)?, need(3)?, need(4)?);
            if o.i("training_mode", 0) != 0 { return unsup("bn training"); }
            let eps = o.f("epsilon", 1e-5);
            let (sc, b, m, v) = (sc.fv(), b.fv(), m.fv(), v.fv());
            one(Ok(T::f(x.dt, &x.shape, x.fv().iter().enumerate().map(|(i, a)| { let c = unravel(i, &x.shape)[1]; (a - m[c]) / (v[c] + eps).sqrt() * sc[c] + b[c] }).collect())))
        }
        "InstanceNormalization" | "GroupNormalization" => {
            let (x, sc, b) = (need(0)?, need(1)?, need(2)?);
            let eps = o.f("epsilon", 1e-5);
            let c = x.shape[1];
            let ng = if o.ty == "GroupNormalization" { o.i("num_groups", 0) as usize } else { c };
            if ng == 0 || c % ng != 0 { return undef("groups"); }
            let (sc, b, v) = (sc.fv(), b.fv(), x.fv());
            let grp = x.shape[0] * ng; let len = x.len() / grp; let sp = numel(&x.shape[2..]);
            let mut out = vec![0.0; v.len()];
            for q in 0..grp { let s = &v[q * len..(q + 1) * len]; let m = s.iter().sum::<f64>() / len as f64; let va = s.iter().map(|a| (a - m) * (a - m)).sum::<f64>() / len as f64; for (j, a) in s.iter().enumerate() { let i = q * len + j; let ch = (i / sp) % c; let pg = if sc.len() == ng && sc.len() != c { ch / (c / ng) } else { ch }; out[i] = (a - m) / (va + eps).sqrt() * sc[pg] + b[pg]; } }
            one(Ok(T::f(x.dt, &x.shape, out)))
        }
        "LayerNormalization" => {
            let (x, sc) = (need(0)?, need(1)?);
            let ax = norm_axis(o.i("axis", -1), x.rank())?;
            let eps = o.f("epsilon", 1e-5);
            let len = numel(&x.shape[ax..]); let grp = x.len() / len.max(1);
            let bs = |t: &T| t.broadcast_to(&x.shape[ax..].to_vec()).map(|t| t.fv());
            let sc = match bs(sc) { Some(s) => s, None => return undef("scale") };
            let b = match g(2) { Some(t) => match bs(t) { Some(s) => s, None => return undef("bias") }, None => vec![0.0; len] };
            let v = x.fv(); let mut out = vec![0.0; v.len()]; let (mut ms, mut is) = (vec![], vec![]);
            for q in 0..grp { let s = &v[q * len..(q + 1) * len]; let m = s.iter().sum::<f64>() / len as f64; let va = s.iter().map(|a| (a - m) * (a - m)).sum::<f64>() / len as f64; ms.push(m); is.push(1.0 / (va + eps).sqrt()); for (j, a) in s.iter().enumerate() { out[q * len + j] = (a - m) / (va + eps).sqrt() * sc[j] + b[j]; } }
            let mut rs = x.shape.clone(); for d in ax..x.rank() { rs[d] = 1; }
            Ok(vec![Some(T::f(x.dt, &x.shape, out)), Some(T::f(x.dt, &rs, ms)), Some(T::f(x.dt, &rs, is))])
        }
        "RNN" | "GRU" | "LSTM" => recurrent(o, ins),
        "Resize" | "Upsample" => one(resize(o, ins)),
        "GridSample" => one(grid_sample(o, need(0)?, need(1)?)),
        "DeformConv" => one(deform_conv(o, ins)),
        "Col2Im" => one(col2im(o, need(0)?, &us(&need(1)?.to_i64()), &us(&need(2)?.to_i64()))),
        "Attention" => attention(o, ins),
        t => unsup(format!("op {t}")),
    }
}

/// Evaluate a graph. `env` holds outer values and the runtime inputs by name.
pub fn eval_graph(g: &Graph, opset: i64, outer: &HashMap<String, T>) -> R<Vec<T>> {
    let mut env = outer.clone();
    for t in &g.inits { if !(g.inputs.iter().any(|i| i.name == t.name) && outer.contains_key(&t.name)) { env.insert(t.name.clone(), t.t.clone()); } }
    for n in &g.nodes { eval_node(n, opset, &mut env)?; }
    g.outputs.iter().map(|o| env.get(&o.name).cloned().ok_or(E::Undef(format!("output {} undefined", o.name)))).collect()
}
/// All values of a graph after evaluation.
pub fn eval_env(g: &Graph, opset: i64, outer: &HashMap<String, T>) -> R<HashMap<String, T>> {
    let mut env = outer.clone();
    for t in &g.inits { if !(g.inputs.iter().any(|i| i.name == t.name) && outer.contains_key(&t.name)) { env.insert(t.name.clone(), t.t.clone()); } }
    for n in &g.nodes { eval_node(n, opset, &mut env)?; }
    Ok(env)
}
fn sub<'a>(n: &'a Node, k: &str) -> R<&'a Graph> { match n.attrs.iter().find(|(a, _)| a == k) { Some((_, Attr::G(g))) => Ok(g), _ => undef("subgraph") } }
pub fn eval_node(n: &Node, opset: i64, env: &mut HashMap<String, T>) -> R<()> {
    let o = Op { ty: &n.op, attrs: &n.attrs, opset, nout: n.outputs.len() };
    let mut ins: Vec<Option<&T>> = vec![];
    for i in &n.inputs { if i.is_empty() { ins.push(None); } else { match env.get(i) { Some(t) => ins.push(Some(t)), None => return undef(format!("undefined value {i}")) } } }
    while matches!(ins.last(), Some(None)) { ins.pop(); }
    let outs: Vec<Option<T>> = match n.op.as_str() {
        "If" => {
            let c = ins[0].unwrap();
            if c.len() != 1 { return undef("if cond"); }
            let b = sub(n, if c.iv()[0] != 0 { "then_branch" } else { "else_branch" })?;
            eval_graph(b, opset, env)?.into_iter().map(Some).collect()
        }
        "Loop" => {
            let b = sub(n, "body")?;
            let max = ins.first().copied().flatten().map(|t| t.to_i64()[0]);
            let mut cond = ins.get(1).copied().flatten().map(|t| t.iv()[0] != 0).unwrap_or(true);
            let mut st: Vec<T> = ins[2.min(ins.len())..].iter().map(|t| t.unwrap().clone()).collect();
            let ns = st.len();
            let nscan = b.outputs.len() - 1 - ns;
            let mut scans: Vec<Vec<T>> = vec![vec![]; nscan];
            let mut it = 0i64;
            while cond && max.map(|m| it < m).unwrap_or(true) {
                if it > 64 { return undef("loop bound"); }
                let mut e = env.clone();
                e.insert(b.inputs[0].name.clone(), T::i64s(it));
                e.insert(b.inputs[1].name.clone(), T::bool(&[], &[cond]));
                for (k, v) in st.iter().enumerate() { e.insert(b.inputs[2 + k].name.clone(), v.clone()); }
                let r = eval_graph(b, opset, &e)?;
                cond = r[0].iv()[0] != 0;
                st = r[1..1 + ns].to_vec();
                for (k, s) in scans.iter_mut().enumerate() { s.push(r[1 + ns + k].clone()); }
                it += 1;
            }
            let mut out: Vec<Option<T>> = st.into_iter().map(Some).collect();
            for s in scans { if s.is_empty() { return undef("scan of zero iterations"); } let us_: Vec<T> = s.iter().map(|t| { let mut q = vec![1]; q.extend(&t.shape); t.with_shape(&q) }).collect(); out.push(Some(concat(&us_.iter().collect::<Vec<_>>(), 0)?)); }
            out
        }
        "Scan" => {
            let b = sub(n, "body")?;
            let m = o.i("num_scan_inputs", 0) as usize;
            let ns = ins.len() - m;
            let mut st: Vec<T> = ins[..ns].iter().map(|t| t.unwrap().clone()).collect();
            let xs: Vec<&T> = ins[ns..].iter().map(|t| t.unwrap()).collect();
            let id = o.is("scan_input_directions").unwrap_or(vec![0; m]);
            let ia = o.is("scan_input_axes").unwrap_or(vec![0; m]);
            let k = b.outputs.len() - ns;
            let od = o.is("scan_output_directions").unwrap_or(vec![0; k]);
            let oa = o.is("scan_output_axes").unwrap_or(vec![0; k]);
            let axs: Vec<usize> = (0..m).map(|i| norm_axis(ia[i], xs[i].rank())).collect::<R<_>>()?;
            let len = xs[0].shape[axs[0]];
            for i in 0..m { if xs[i].shape[axs[i]] != len { return undef("scan len"); } }
            let mut outs: Vec<Vec<T>> = vec![vec![]; k];
            for t in 0..len {
                let mut e = env.clone();
                for (i, v) in st.iter().enumerate() { e.insert(b.inputs[i].name.clone(), v.clone()); }
                for i in 0..m { let p = if id[i] != 0 { len - 1 - t } else { t }; let mut s = xs[i].shape.clone(); s.remove(axs[i]); e.insert(b.inputs[ns + i].name.clone(), slice1(xs[i], axs[i], p, 1).with_shape(&s)); }
                let r = eval_graph(b, opset, &e)?;
                st = r[..ns].to_vec();
                for i in 0..k { outs[i].push(r[ns + i].clone()); }
            }
            let mut out: Vec<Option<T>> = st.into_iter().map(Some).collect();
            for i in 0..k { let mut v = outs[i].clone(); if v.is_empty() { return undef("scan of zero"); } if od[i] != 0 { v.reverse(); } let a = norm_axis(oa[i], v[0].rank() + 1)?; let us_: Vec<T> = v.iter().map(|t| { let mut q = t.shape.clone(); q.insert(a, 1); t.with_shape(&q) }).collect(); out.push(Some(concat(&us_.iter().collect::<Vec<_>>(), a)?)); }
            out
        }
        _ => eval_op(&o, &ins)?,
    };
    for (k, name) in n.outputs.iter().enumerate() { if !name.is_empty() { match outs.get(k) { Some(Some(t)) => { env.insert(name.clone(), t.clone()); } _ => return undef(format!("output {k} of {}", n.op)) } } }
    Ok(())
}
