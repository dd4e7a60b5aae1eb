use crate::dy::*;
pub use crate::tensor::PadMode;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum InterpolateMode { Nearest, Bilinear, Bicubic, Lanczos3 }
#[derive(Clone, Debug)]
pub struct InterpolateOptions { pub mode: InterpolateMode, pub align_corners: bool }
impl InterpolateOptions {
    pub fn new(mode: InterpolateMode) -> Self { InterpolateOptions { mode, align_corners: true } }
    pub fn with_align_corners(mut self, a: bool) -> Self { self.align_corners = a; self }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum GridSamplePaddingMode { #[default] Zeros, Border, Reflection }
#[derive(Clone, Debug)]
pub struct GridSampleOptions { pub mode: InterpolateMode, pub padding_mode: GridSamplePaddingMode, pub align_corners: bool }
impl GridSampleOptions {
    pub fn new(mode: InterpolateMode) -> Self { GridSampleOptions { mode, padding_mode: GridSamplePaddingMode::Zeros, align_corners: false } }
    pub fn with_padding_mode(mut self, p: GridSamplePaddingMode) -> Self { self.padding_mode = p; self }
    pub fn with_align_corners(mut self, a: bool) -> Self { self.align_corners = a; self }
}
impl From<InterpolateMode> for GridSampleOptions { fn from(m: InterpolateMode) -> Self { GridSampleOptions::new(m) } }
#[derive(Clone, Debug, Default)]
pub struct AttentionModuleOptions { pub scale: Option<f64>, pub softcap: Option<f64>, pub is_causal: bool }

fn cubic(x: f64) -> f64 {
    let a = -0.75;
    let x = x.abs();
    if x <= 1.0 { (a + 2.0) * x * x * x - (a + 3.0) * x * x + 1.0 } else if x < 2.0 { a * x * x * x - 5.0 * a * x * x + 8.0 * a * x - 4.0 * a } else { 0.0 }
}
/// Interpolates a [b, c, h, w] tensor.
pub fn interpolate(x: &Dy, out: [usize; 2], o: &InterpolateOptions) -> Dy {
    assert_eq!(x.rank(), 4);
    let (b, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
    let weights = |n: usize, m: usize| -> Vec<Vec<(usize, f64)>> {
        (0..m)
            .map(|j| match o.mode {
                InterpolateMode::Nearest => vec![(((j as f64) * (n as f64 / m as f64)).floor() as usize, 1.0)],
                _ => {
                    let p = if o.align_corners { if m > 1 { j as f64 * (n as f64 - 1.0) / (m as f64 - 1.0) } else { 0.0 } } else { (j as f64 + 0.5) * n as f64 / m as f64 - 0.5 };
                    let cl = |i: isize| i.clamp(0, n as isize - 1) as usize;
                    if o.mode == InterpolateMode::Bilinear {
                        let p = p.clamp(0.0, n as f64 - 1.0);
                        let (lo, t) = (p.floor(), p - p.floor());
                        vec![(cl(lo as isize), 1.0 - t), (cl(lo as isize + 1), t)]
                    } else {
                        assert!(o.mode == InterpolateMode::Bicubic, "interpolation mode");
                        let (lo, t) = (p.floor() as isize, p - p.floor());
                        (-1..=2).map(|k| (cl(lo + k), cubic(t - k as f64))).collect()
                    }
                }
            })
            .collect()
    };
    let (wh, ww) = (weights(h, out[0]), weights(w, out[1]));
    let v = x.fv();
    let mut r = Vec::with_capacity(b * c * out[0] * out[1]);
    for bc in 0..b * c {
        for a in &wh {
            for e in &ww {
                let mut s = 0.0;
                for (i, p) in a { for (j, q) in e { s += v[bc * h * w + i * w + j] * p * q; } }
                r.push(s);
            }
        }
    }
    Dy::f(vec![b, c, out[0], out[1]], x.dtype, r)
}
/// Samples [b, c, h, w] at grid [b, oh, ow, 2].
pub fn grid_sample(x: &Dy, g: &Dy, o: &GridSampleOptions) -> Dy {
    assert!(x.rank() == 4 && g.rank() == 4 && g.shape[3] == 2 && g.shape[0] == x.shape[0], "grid_sample: {:?} at {:?}", x.shape, g.shape);
    let (b, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
    let (oh, ow) = (g.shape[1], g.shape[2]);
    let (v, gv) = (x.fv(), g.fv());
    let refl = |p: f64, n: usize| -> f64 {
        let (lo, hi) = if o.align_corners { (0.0, n as f64 - 1.0) } else { (-0.5, n as f64 - 0.5) };
        let span = hi - lo;
        if span <= 0.0 { return 0.0; }
        let t = (p - lo).abs() % (2.0 * span);
        let t = if t > span { 2.0 * span - t } else { t };
        (t + lo).clamp(0.0, n as f64 - 1.0)
    };
    let un = |p: f64, n: usize| { let p = if o.align_corners { (p + 1.0) / 2.0 * (n as f64 - 1.0) } else { ((p + 1.0) * n as f64 - 1.0) / 2.0 }; match o.padding_mode { GridSamplePaddingMode::Zeros => p, GridSamplePaddingMode::Border => p.clamp(0.0, n as f64 - 1.0), GridSamplePaddingMode::Reflection => refl(p, n) } };
    let mut r = vec![];
    for bi in 0..b { for ci in 0..c {
        let at = |i: f64, j: f64| -> f64 { if i < 0.0 || j < 0.0 || i > h as f64 - 1.0 || j > w as f64 - 1.0 { 0.0 } else { v[((bi * c + ci) * h + i as usize) * w + j as usize] } };
        for y in 0..oh { for z in 0..ow {
            let k = ((bi * oh + y) * ow + z) * 2;
            let (px, py) = (un(gv[k], w), un(gv[k + 1], h));
            r.push(match o.mode {
                InterpolateMode::Nearest => at(py.round_ties_even(), px.round_ties_even()),
                InterpolateMode::Bilinear => { let (x0, y0) = (px.floor(), py.floor()); let (tx, ty) = (px - x0, py - y0); at(y0, x0) * (1.0 - ty) * (1.0 - tx) + at(y0, x0 + 1.0) * (1.0 - ty) * tx + at(y0 + 1.0, x0) * ty * (1.0 - tx) + at(y0 + 1.0, x0 + 1.0) * ty * tx }
                _ => panic!("grid_sample_2d supports Nearest and Bilinear only"),
            });
        } }
    } }
    Dy::f(vec![b, c, oh, ow], x.dtype, r)
}
pub type FloatElem<B> = <B as crate::tensor::Backend>::FloatElem;
pub type IntElem<B> = <B as crate::tensor::Backend>::IntElem;
