use crate::dy::*;
use crate::tensor::*;
fn map<B: Backend, const D: usize>(x: Tensor<B, D>, f: impl Fn(f64) -> f64) -> Tensor<B, D> { Tensor::from_dy(x.dy.map_f(f)) }
pub fn relu<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| if v.is_nan() { v } else { v.max(0.0) }) }
pub fn leaky_relu<B: Backend, const D: usize>(x: Tensor<B, D>, a: f64) -> Tensor<B, D> { map(x, |v| if v < 0.0 { a * v } else { v }) }
pub fn sigmoid<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| 1.0 / (1.0 + (-v).exp())) }
pub fn log_sigmoid<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| -((-v).exp().ln_1p())) }
pub fn tanh<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { x.tanh() }
pub fn hard_sigmoid<B: Backend, const D: usize>(x: Tensor<B, D>, a: f64, b: f64) -> Tensor<B, D> { map(x, |v| (a * v + b).clamp(0.0, 1.0)) }
pub fn hard_swish<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| v * (v / 6.0 + 0.5).clamp(0.0, 1.0)) }
pub fn silu<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| v / (1.0 + (-v).exp())) }
pub fn gelu<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| 0.5 * v * (1.0 + erf(v / core::f64::consts::SQRT_2))) }
pub fn gelu_approximate<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| 0.5 * v * (1.0 + ((2.0 / core::f64::consts::PI).sqrt() * (v + 0.044715 * v * v * v)).tanh())) }
pub fn elu<B: Backend, const D: usize>(x: Tensor<B, D>, a: f64) -> Tensor<B, D> { map(x, |v| if v > 0.0 { v } else { a * v.exp_m1() }) }
pub fn celu<B: Backend, const D: usize>(x: Tensor<B, D>, a: f64) -> Tensor<B, D> { map(x, |v| if v > 0.0 { v } else { a * (v / a).exp_m1() }) }
pub fn selu<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| { let (a, g) = (1.6732632423543772848170429916717, 1.0507009873554804934193349852946); g * if v > 0.0 { v } else { a * v.exp_m1() } }) }
fn softplus_f(v: f64, b: f64) -> f64 { let t = b * v; (t.max(0.0) + (-t.abs()).exp().ln_1p()) / b }
pub fn softplus<B: Backend, const D: usize>(x: Tensor<B, D>, beta: f64) -> Tensor<B, D> { map(x, |v| softplus_f(v, beta)) }
pub fn mish<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| v * softplus_f(v, 1.0).tanh()) }
pub fn softsign<B: Backend, const D: usize>(x: Tensor<B, D>) -> Tensor<B, D> { map(x, |v| v / (1.0 + v.abs())) }
pub fn thresholded_relu<B: Backend, const D: usize>(x: Tensor<B, D>, a: f64) -> Tensor<B, D> { map(x, |v| if v > a { v } else { 0.0 }) }
pub fn shrink<B: Backend, const D: usize>(x: Tensor<B, D>, lambda: f64, bias: f64) -> Tensor<B, D> { map(x, |v| if v < -lambda { v + bias } else if v > lambda { v - bias } else { 0.0 }) }
pub fn hard_shrink<B: Backend, const D: usize>(x: Tensor<B, D>, lambda: f64) -> Tensor<B, D> { map(x, |v| if v < -lambda || v > lambda { v } else { 0.0 }) }
pub fn soft_shrink<B: Backend, const D: usize>(x: Tensor<B, D>, lambda: f64) -> Tensor<B, D> { shrink(x, lambda, lambda) }
pub fn prelu<B: Backend, const D: usize>(x: Tensor<B, D>, alpha: Tensor<B, 1>) -> Tensor<B, D> {
    let n = alpha.dims()[0];
    let mut s = vec![1; D];
    if n > 1 { assert!(D >= 2 && x.dy.shape[1] == n, "prelu: {n} parameters for {:?}", x.dy.shape); s[1] = n; }
    let a = alpha.dy.reshape(s);
    Tensor::from_dy(x.dy.zip_n(&a, |v, a| if v < 0.0 { a * v } else { v }, |v, _| v))
}
pub fn softmax<B: Backend, const D: usize>(x: Tensor<B, D>, dim: usize) -> Tensor<B, D> {
    assert!(dim < D, "softmax over dimension {dim} of rank {D}");
    let (d, n) = (x.dy.dtype, x.dy.shape[dim]);
    Tensor::from_dy(x.dy.scan(dim, d, n, |v| { let m = v.iter().map(|a| a.f()).fold(f64::NEG_INFINITY, f64::max); let e: Vec<f64> = v.iter().map(|a| (a.f() - m).exp()).collect(); let s: f64 = e.iter().sum(); e.iter().map(|a| crate::dtype::Val::F(a / s)).collect() }))
}
pub fn log_softmax<B: Backend, const D: usize>(x: Tensor<B, D>, dim: usize) -> Tensor<B, D> {
    assert!(dim < D, "log_softmax over dimension {dim} of rank {D}");
    let (d, n) = (x.dy.dtype, x.dy.shape[dim]);
    Tensor::from_dy(x.dy.scan(dim, d, n, |v| { let m = v.iter().map(|a| a.f()).fold(f64::NEG_INFINITY, f64::max); let s: f64 = v.iter().map(|a| (a.f() - m).exp()).sum(); v.iter().map(|a| crate::dtype::Val::F(a.f() - m - s.ln())).collect() }))
}
#[allow(unused)]
fn _u(_: &Dy) {}
