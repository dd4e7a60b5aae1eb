use super::*;
macro_rules! conv {
    ($cfg:ident, $t:ident, $n:literal, $d:literal, $pad:ident, $one:ty, ($($new:ident: $nty:ty),*) => $chan:expr, $arr:expr) => {
        #[derive(Clone, Debug)]
        pub struct $cfg { ch: [usize; 2], kernel: $one, stride: $one, dilation: $one, groups: usize, padding: $pad, bias: bool }
        impl $cfg {
            pub fn new($($new: $nty,)* kernel: $one) -> Self { let f: fn(usize) -> $one = $arr; $cfg { ch: $chan, kernel, stride: f(1), dilation: f(1), groups: 1, padding: $pad::Valid, bias: true } }
            with!(with_stride: stride: $one, with_dilation: dilation: $one, with_groups: groups: usize, with_padding: padding: $pad, with_bias: bias: bool);
            pub fn init<B: Backend>(&self, _d: &B::Device) -> $t<B> {
                assert!(self.groups > 0 && self.ch[0] % self.groups == 0 && self.ch[1] % self.groups == 0, "{}: channels {:?} with {} groups", stringify!($cfg), self.ch, self.groups);
                let mut s = [0; $d]; s[0] = self.ch[1]; s[1] = self.ch[0] / self.groups; for (a, b) in s[2..].iter_mut().zip(dims(&self.kernel)) { *a = b; }
                $t { weight: param(s), bias: self.bias.then(|| param([self.ch[1]])), c: self.clone() }
            }
        }
        #[derive(Clone, Debug)]
        pub struct $t<B: Backend> { pub weight: Param<Tensor<B, $d>>, pub bias: Option<Param<Tensor<B, 1>>>, c: $cfg }
        module!($t<B>; weight, bias);
        impl<B: Backend> $t<B> {
            pub fn forward(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
                assert_eq!(x.dims()[1], self.c.ch[0], "{}: input channels", stringify!($t));
                let (k, s, d) = (dims(&self.c.kernel), dims(&self.c.stride), dims(&self.c.dilation));
                let p = self.c.padding.get(&x.dims()[2..], &k, &s, &d);
                Tensor::from_dy(x.dy.conv(&self.weight.dy, self.bias.as_ref().map(|b| &b.dy), &s, &p, &d, self.c.groups))
            }
        }
    };
}
pub(crate) trait Dims { fn v(&self) -> Vec<usize>; }
impl Dims for usize { fn v(&self) -> Vec<usize> { vec![*self] } }
impl<const N: usize> Dims for [usize; N] { fn v(&self) -> Vec<usize> { self.to_vec() } }
pub(crate) fn dims(d: &impl Dims) -> Vec<usize> { d.v() }
conv!(Conv1dConfig, Conv1d, 1, 3, PaddingConfig1d, usize, (channels_in: usize, channels_out: usize) => [channels_in, channels_out], |x| x);
conv!(Conv2dConfig, Conv2d, 2, 4, PaddingConfig2d, [usize; 2], (channels: [usize; 2]) => channels, |x| [x; 2]);
conv!(Conv3dConfig, Conv3d, 3, 5, PaddingConfig3d, [usize; 3], (channels: [usize; 2]) => channels, |x| [x; 3]);
macro_rules! convt {
    ($cfg:ident, $t:ident, $d:literal, $one:ty, $arr:expr) => {
        #[derive(Clone, Debug)]
        pub struct $cfg { ch: [usize; 2], kernel: $one, stride: $one, dilation: $one, groups: usize, padding: $one, padding_out: $one, bias: bool }
        impl $cfg {
            pub fn new(ch: [usize; 2], kernel: $one) -> Self { let f: fn(usize) -> $one = $arr; $cfg { ch, kernel, stride: f(1), dilation: f(1), groups: 1, padding: f(0), padding_out: f(0), bias: true } }
            with!(with_stride: stride: $one, with_dilation: dilation: $one, with_groups: groups: usize, with_padding: padding: $one, with_padding_out: padding_out: $one, with_bias: bias: bool);
            pub fn init<B: Backend>(&self, _d: &B::Device) -> $t<B> {
                assert!(self.groups > 0 && self.ch[0] % self.groups == 0 && self.ch[1] % self.groups == 0, "{}: channels {:?} with {} groups", stringify!($cfg), self.ch, self.groups);
                let mut s = [0; $d]; s[0] = self.ch[0]; s[1] = self.ch[1] / self.groups; for (a, b) in s[2..].iter_mut().zip(dims(&self.kernel)) { *a = b; }
                $t { weight: param(s), bias: self.bias.then(|| param([self.ch[1]])), c: self.clone() }
            }
        }
        #[derive(Clone, Debug)]
        pub struct $t<B: Backend> { pub weight: Param<Tensor<B, $d>>, pub bias: Option<Param<Tensor<B, 1>>>, c: $cfg }
        module!($t<B>; weight, bias);
        impl<B: Backend> $t<B> {
            pub fn forward(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
                assert_eq!(x.dims()[1], self.c.ch[0], "{}: input channels", stringify!($t));
                Tensor::from_dy(x.dy.conv_transpose(&self.weight.dy, self.bias.as_ref().map(|b| &b.dy), &dims(&self.c.stride), &dims(&self.c.padding), &dims(&self.c.padding_out), &dims(&self.c.dilation), self.c.groups))
            }
        }
    };
}
convt!(ConvTranspose1dConfig, ConvTranspose1d, 3, usize, |x| x);
convt!(ConvTranspose2dConfig, ConvTranspose2d, 4, [usize; 2], |x| [x; 2]);
convt!(ConvTranspose3dConfig, ConvTranspose3d, 5, [usize; 3], |x| [x; 3]);

#[derive(Clone, Debug)]
pub struct DeformConv2dConfig { ch: [usize; 2], kernel: [usize; 2], stride: [usize; 2], dilation: [usize; 2], weight_groups: usize, offset_groups: usize, padding: PaddingConfig2d, bias: bool }
impl DeformConv2dConfig {
    pub fn new(ch: [usize; 2], kernel: [usize; 2]) -> Self { DeformConv2dConfig { ch, kernel, stride: [1; 2], dilation: [1; 2], weight_groups: 1, offset_groups: 1, padding: PaddingConfig2d::Valid, bias: true } }
    with!(with_stride: stride: [usize; 2], with_dilation: dilation: [usize; 2], with_weight_groups: weight_groups: usize, with_offset_groups: offset_groups: usize, with_padding: padding: PaddingConfig2d, with_bias: bias: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> DeformConv2d<B> { assert!(self.ch[0] % self.weight_groups == 0 && self.ch[1] % self.weight_groups == 0 && self.ch[0] % self.offset_groups == 0); DeformConv2d { weight: param([self.ch[1], self.ch[0] / self.weight_groups, self.kernel[0], self.kernel[1]]), bias: self.bias.then(|| param([self.ch[1]])), c: self.clone() } }
}
#[derive(Clone, Debug)]
pub struct DeformConv2d<B: Backend> { pub weight: Param<Tensor<B, 4>>, pub bias: Option<Param<Tensor<B, 1>>>, c: DeformConv2dConfig }
module!(DeformConv2d<B>; weight, bias);
impl<B: Backend> DeformConv2d<B> {
    pub fn forward(&self, x: Tensor<B, 4>, off: Tensor<B, 4>, mask: Option<Tensor<B, 4>>) -> Tensor<B, 4> {
        let c = &self.c;
        let [n, ci, h, w] = x.dims();
        assert_eq!(ci, c.ch[0], "DeformConv2d: input channels");
        let p = c.padding.get(&[h, w], &c.kernel, &c.stride, &c.dilation);
        assert!(p.iter().all(|(a, b)| a == b), "DeformConv2d: asymmetric padding");
        let o: Vec<usize> = (0..2).map(|d| ([h, w][d] + p[d].0 + p[d].1 - c.dilation[d] * (c.kernel[d] - 1) - 1) / c.stride[d] + 1).collect();
        let kk = c.kernel[0] * c.kernel[1];
        assert_eq!(off.dims(), [n, c.offset_groups * kk * 2, o[0], o[1]], "DeformConv2d: offset shape");
        if let Some(m) = &mask { assert_eq!(m.dims(), [n, c.offset_groups * kk, o[0], o[1]], "DeformConv2d: mask shape"); }
        let (xv, ov, wv) = (x.dy.fv(), off.dy.fv(), self.weight.dy.fv());
        let mv = mask.as_ref().map(|m| m.dy.fv());
        let (cig, cog) = (ci / c.weight_groups, c.ch[1] / c.weight_groups);
        let cpo = ci / c.offset_groups;
        let mut out = vec![];
        for b in 0..n { for co in 0..c.ch[1] { let g = co / cog; for y in 0..o[0] { for z in 0..o[1] {
            let mut s = self.bias.as_ref().map(|q| q.dy.fv()[co]).unwrap_or(0.0);
            for q in 0..cig { let cin = g * cig + q; let og = cin / cpo; for k in 0..kk {
                let (ky, kx) = (k / c.kernel[1], k % c.kernel[1]);
                let at = |ch: usize| ov[((b * c.offset_groups * kk * 2 + ch) * o[0] + y) * o[1] + z];
                let py = (y * c.stride[0] + ky * c.dilation[0]) as f64 - p[0].0 as f64 + at(og * kk * 2 + 2 * k);
                let px = (z * c.stride[1] + kx * c.dilation[1]) as f64 - p[1].0 as f64 + at(og * kk * 2 + 2 * k + 1);
                let pix = |i: f64, j: f64| if i < 0.0 || j < 0.0 || i >= h as f64 || j >= w as f64 { 0.0 } else { xv[((b * ci + cin) * h + i as usize) * w + j as usize] };
                let (y0, x0) = (py.floor(), px.floor()); let (ty, tx) = (py - y0, px - x0);
                let v = pix(y0, x0) * (1.0 - ty) * (1.0 - tx) + pix(y0, x0 + 1.0) * (1.0 - ty) * tx + pix(y0 + 1.0, x0) * ty * (1.0 - tx) + pix(y0 + 1.0, x0 + 1.0) * ty * tx;
                let m = mv.map(|m| m[((b * c.offset_groups * kk + og * kk + k) * o[0] + y) * o[1] + z]).unwrap_or(1.0);
                s += v * m * wv[(co * cig + q) * kk + k];
            } }
            out.push(s);
        } } } }
        Tensor::from_dy(Dy::f(vec![n, c.ch[1], o[0], o[1]], x.dy.dtype, out))
    }
}
