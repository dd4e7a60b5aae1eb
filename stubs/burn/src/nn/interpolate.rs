use super::*;
use burn_tensor::ops;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum InterpolateMode { Nearest, Linear, Cubic, Lanczos }
fn mode(m: InterpolateMode) -> ops::InterpolateMode { match m { InterpolateMode::Nearest => ops::InterpolateMode::Nearest, InterpolateMode::Linear => ops::InterpolateMode::Bilinear, InterpolateMode::Cubic => ops::InterpolateMode::Bicubic, InterpolateMode::Lanczos => ops::InterpolateMode::Lanczos3 } }
macro_rules! interp {
    ($cfg:ident, $t:ident, $d:literal, $sz:ty, $sc:ty) => {
        #[derive(Clone, Debug)]
        pub struct $cfg { size: Option<$sz>, scale: Option<$sc>, mode: InterpolateMode, align: bool }
        impl $cfg {
            pub fn new() -> Self { $cfg { size: None, scale: None, mode: InterpolateMode::Nearest, align: true } }
            with!(with_output_size: size: Option<$sz>, with_scale_factor: scale: Option<$sc>, with_mode: mode: InterpolateMode, with_align_corners: align: bool);
            pub fn init(&self) -> $t { $t { c: self.clone() } }
        }
        #[derive(Clone, Debug)]
        pub struct $t { c: $cfg }
        module!($t);
    };
}
interp!(Interpolate1dConfig, Interpolate1d, 3, usize, f32);
interp!(Interpolate2dConfig, Interpolate2d, 4, [usize; 2], [f32; 2]);
fn size(n: usize, size: Option<usize>, scale: Option<f32>) -> usize { match (size, scale) { (Some(s), _) => s, (None, Some(f)) => (n as f64 * f as f64) as usize, _ => panic!("Either output_size or scale_factor must be provided") } }
impl Interpolate1d { pub fn forward<B: Backend>(&self, x: Tensor<B, 3>) -> Tensor<B, 3> { let [a, b, n] = x.dims(); let m = size(n, self.c.size, self.c.scale); let o = ops::InterpolateOptions::new(mode(self.c.mode)).with_align_corners(self.c.align); Tensor::from_dy(ops::interpolate(&x.dy.reshape(vec![a, b, 1, n]), [1, m], &o).reshape(vec![a, b, m])) } }
impl Interpolate2d { pub fn forward<B: Backend>(&self, x: Tensor<B, 4>) -> Tensor<B, 4> { let [_, _, h, w] = x.dims(); let m = [size(h, self.c.size.map(|s| s[0]), self.c.scale.map(|s| s[0])), size(w, self.c.size.map(|s| s[1]), self.c.scale.map(|s| s[1]))]; let o = ops::InterpolateOptions::new(mode(self.c.mode)).with_align_corners(self.c.align); Tensor::from_dy(ops::interpolate(&x.dy, m, &o)) } }
