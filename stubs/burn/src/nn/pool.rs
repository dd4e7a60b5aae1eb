use super::conv::{Dims, dims};
use super::*;
macro_rules! pool {
    ($mc:ident, $m:ident, $ac:ident, $a:ident, $gc:ident, $g:ident, $d:literal, $pad:ident, $one:ty, $ws:ident, $arr:expr) => {
        #[derive(Clone, Debug)]
        pub struct $mc { kernel: $one, stride: $one, dilation: $one, padding: $pad, ceil: bool }
        impl $mc {
            pub fn new(kernel: $one) -> Self { let f: fn(usize) -> $one = $arr; $mc { kernel, stride: kernel, dilation: f(1), padding: $pad::Valid, ceil: false } }
            with!($ws: stride: $one, with_dilation: dilation: $one, with_padding: padding: $pad, with_ceil_mode: ceil: bool);
            pub fn init(&self) -> $m { $m { c: self.clone() } }
        }
        #[derive(Clone, Debug)]
        pub struct $m { c: $mc }
        module!($m);
        impl $m { pub fn forward<B: Backend>(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
            let (k, s, d) = (dims(&self.c.kernel), dims(&self.c.stride), dims(&self.c.dilation));
            let p = self.c.padding.get(&x.dims()[2..], &k, &s, &d);
            Tensor::from_dy(x.dy.pool(&k, &s, &p, &d, self.c.ceil, |v, _| v.iter().copied().fold(f64::NEG_INFINITY, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) })))
        } }
        #[derive(Clone, Debug)]
        pub struct $ac { kernel: $one, stride: $one, padding: $pad, count_include_pad: bool, ceil: bool }
        impl $ac {
            pub fn new(kernel: $one) -> Self { $ac { kernel, stride: kernel, padding: $pad::Valid, count_include_pad: true, ceil: false } }
            with!($ws: stride: $one, with_padding: padding: $pad, with_count_include_pad: count_include_pad: bool, with_ceil_mode: ceil: bool);
            pub fn init(&self) -> $a { $a { c: self.clone() } }
        }
        #[derive(Clone, Debug)]
        pub struct $a { c: $ac }
        module!($a);
        impl $a { pub fn forward<B: Backend>(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
            let (k, s) = (dims(&self.c.kernel), dims(&self.c.stride)); let d = vec![1; k.len()];
            let p = self.c.padding.get(&x.dims()[2..], &k, &s, &d);
            let inc = self.c.count_include_pad;
            Tensor::from_dy(x.dy.pool(&k, &s, &p, &d, self.c.ceil, |v, n| v.iter().sum::<f64>() / if inc { n as f64 } else { v.len() as f64 }))
        } }
        #[derive(Clone, Debug)]
        pub struct $gc { out: $one }
        impl $gc { pub fn new(out: $one) -> Self { $gc { out } } pub fn init(&self) -> $g { $g { out: self.out } } }
        #[derive(Clone, Debug)]
        pub struct $g { out: $one }
        module!($g);
        impl $g { pub fn forward<B: Backend>(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
            let mut t = x;
            for (k, n) in dims(&self.out).into_iter().enumerate() { let dt = t.dy.dtype; let size = t.dims()[2 + k]; t = Tensor::from_dy(t.dy.scan(2 + k, dt, n, |v| (0..n).map(|j| { let (a, b) = (j * size / n, ((j + 1) * size).div_ceil(n)); Val::F(v[a..b].iter().map(|q| q.f()).sum::<f64>() / (b - a) as f64) }).collect())); }
            t
        } }
    };
}
pool!(MaxPool1dConfig, MaxPool1d, AvgPool1dConfig, AvgPool1d, AdaptiveAvgPool1dConfig, AdaptiveAvgPool1d, 3, PaddingConfig1d, usize, with_stride, |x| x);
pool!(MaxPool2dConfig, MaxPool2d, AvgPool2dConfig, AvgPool2d, AdaptiveAvgPool2dConfig, AdaptiveAvgPool2d, 4, PaddingConfig2d, [usize; 2], with_strides, |x| [x; 2]);
#[allow(unused)]
fn _u<T: Dims>(_: T) {}
