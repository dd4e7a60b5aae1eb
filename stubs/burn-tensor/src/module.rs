use crate::dy::*;
use crate::ops::*;
use crate::tensor::*;
pub fn interpolate<B: Backend>(x: Tensor<B, 4>, out: [usize; 2], o: InterpolateOptions) -> Tensor<B, 4> { Tensor::from_dy(crate::ops::interpolate(&x.dy, out, &o)) }
/// Scaled dot-product attention; `mask` is true where a position may not be attended to.
pub fn attention<B: Backend>(q: Tensor<B, 4>, k: Tensor<B, 4>, v: Tensor<B, 4>, mask: Option<Tensor<B, 4, Bool>>, bias: Option<Tensor<B, 4>>, o: AttentionModuleOptions) -> Tensor<B, 4> {
    let d = q.dims()[3];
    let scale = o.scale.unwrap_or(1.0 / (d as f64).sqrt());
    let mut s = q.matmul(k.swap_dims(2, 3)).mul_scalar(scale);
    if let Some(c) = o.softcap { s = s.div_scalar(c).tanh().mul_scalar(c); }
    let [b, h, l, n] = s.dims();
    if let Some(m) = mask { s = s.mask_fill(m.expand([b, h, l, n]), f64::NEG_INFINITY); }
    if o.is_causal {
        let m: Vec<bool> = indices(&[l, n]).iter().map(|x| x[1] > x[0] + (n - l.min(n)) * 0).collect();
        let m: Tensor<B, 2, Bool> = Tensor::from_dy(Dy::b(vec![l, n], m));
        s = s.mask_fill(m.unsqueeze::<4>().expand([b, h, l, n]), f64::NEG_INFINITY);
    }
    if let Some(x) = bias { s = s.add(x); }
    crate::activation::softmax(s, 3).matmul(v)
}
pub fn embedding<B: Backend>(w: Tensor<B, 2>, ix: Tensor<B, 2, Int>) -> Tensor<B, 3> {
    let [b, s] = ix.dims();
    let d = w.dims()[1];
    w.select(0, ix.reshape([b * s])).reshape([b, s, d])
}
