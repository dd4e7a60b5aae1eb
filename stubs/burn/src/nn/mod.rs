//! Layers, with the parameter names and shapes of burn's own.
use crate::module::{Module, Param, Visitor, join, param};
use burn_tensor::dy::Dy;
use burn_tensor::*;

macro_rules! with {
    ($($n:ident: $f:ident: $t:ty),* $(,)?) => { $(pub fn $n(mut self, v: $t) -> Self { self.$f = v.into(); self })* };
}
pub(crate) use with;
macro_rules! module {
    ($t:ident<B>; $($f:ident),*) => { impl<B: Backend> Module<B> for $t<B> { fn visit(&mut self, p: &str, v: &mut Visitor) { $(Module::<B>::visit(&mut self.$f, &join(p, stringify!($f)), v);)* let _ = (p, v); } } };
    ($t:ident) => { impl<B: Backend> Module<B> for $t { fn visit(&mut self, _: &str, _: &mut Visitor) {} } };
}
pub(crate) use module;

pub mod activation;
pub mod conv;
pub mod gru;
pub mod interpolate;
pub mod pool;
mod rec;
pub use activation::{ActivationConfig, HardSigmoidConfig, LeakyReluConfig, PReluConfig, PRelu, SoftplusConfig};
pub use rec::*;
pub mod lstm { pub use super::rec::{BiLstm, BiLstmConfig, Lstm, LstmConfig, LstmState}; }
pub mod rnn { pub use super::rec::{BiRnn, BiRnnConfig, Rnn, RnnConfig, RnnState}; }
pub mod norm { pub use super::{BatchNorm, BatchNormConfig, GroupNorm, GroupNormConfig, InstanceNorm, InstanceNormConfig, LayerNorm, LayerNormConfig}; }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PaddingConfig1d { Same, Valid, Explicit(usize, usize) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PaddingConfig2d { Same, Valid, Explicit(usize, usize, usize, usize) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PaddingConfig3d { Same, Valid, Explicit(usize, usize, usize) }
fn same(size: usize, k: usize, s: usize, d: usize) -> (usize, usize) { let o = size.div_ceil(s); let t = ((o - 1) * s + d * (k - 1) + 1).saturating_sub(size); (t / 2, t - t / 2) }
impl PaddingConfig1d { pub(crate) fn get(&self, x: &[usize], k: &[usize], s: &[usize], d: &[usize]) -> Vec<(usize, usize)> { match self { Self::Valid => vec![(0, 0)], Self::Explicit(a, b) => vec![(*a, *b)], Self::Same => vec![same(x[0], k[0], s[0], d[0])] } } }
impl PaddingConfig2d { pub(crate) fn get(&self, x: &[usize], k: &[usize], s: &[usize], d: &[usize]) -> Vec<(usize, usize)> { match self { Self::Valid => vec![(0, 0); 2], Self::Explicit(t, l, b, r) => vec![(*t, *b), (*l, *r)], Self::Same => (0..2).map(|i| same(x[i], k[i], s[i], d[i])).collect() } } }
impl PaddingConfig3d { pub(crate) fn get(&self, x: &[usize], k: &[usize], s: &[usize], d: &[usize]) -> Vec<(usize, usize)> { match self { Self::Valid => vec![(0, 0); 3], Self::Explicit(a, b, c) => vec![(*a, *a), (*b, *b), (*c, *c)], Self::Same => (0..3).map(|i| same(x[i], k[i], s[i], d[i])).collect() } } }

// ---------------------------------------------------------------- linear
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum LinearLayout { #[default] Row, Col }
#[derive(Clone, Debug)]
pub struct LinearConfig { d_input: usize, d_output: usize, bias: bool, layout: LinearLayout }
impl LinearConfig {
    pub fn new(d_input: usize, d_output: usize) -> Self { LinearConfig { d_input, d_output, bias: true, layout: LinearLayout::Row } }
    with!(with_bias: bias: bool, with_layout: layout: LinearLayout);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> Linear<B> {
        let shape = match self.layout { LinearLayout::Row => [self.d_input, self.d_output], LinearLayout::Col => [self.d_output, self.d_input] };
        Linear { weight: param(shape), bias: self.bias.then(|| param([self.d_output])), layout: self.layout }
    }
}
#[derive(Clone, Debug)]
pub struct Linear<B: Backend> { pub weight: Param<Tensor<B, 2>>, pub bias: Option<Param<Tensor<B, 1>>>, layout: LinearLayout }
module!(Linear<B>; weight, bias);
impl<B: Backend> Linear<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        let w = match self.layout { LinearLayout::Row => self.weight.val(), LinearLayout::Col => self.weight.val().transpose() };
        assert_eq!(x.dims()[D - 1], w.dims()[0], "Linear: input {:?}, weight {:?}", x.dims(), w.dims());
        let rows: usize = x.dims()[..D - 1].iter().product();
        let mut s = x.dims().to_vec();
        s[D - 1] = w.dims()[1];
        let y = x.dy.reshape(vec![rows, w.dims()[0]]).matmul(&w.dy).reshape(s);
        let y: Tensor<B, D> = Tensor::from_dy(y);
        match &self.bias { Some(b) => { let mut s = vec![1; D]; s[D - 1] = b.dims()[0]; y.add(Tensor::from_dy(b.dy.reshape(s))) } None => y }
    }
}

// ---------------------------------------------------------------- normalisation
fn per_channel<B: Backend, const D: usize>(p: &Tensor<B, 1>, axis: usize) -> Tensor<B, D> { let mut s = vec![1; D]; s[axis] = p.dims()[0]; Tensor::from_dy(p.dy.reshape(s)) }
fn normalise(v: &[Val], eps: f64) -> Vec<Val> { let n = v.len() as f64; let m = v.iter().map(|x| x.f()).sum::<f64>() / n; let q = v.iter().map(|x| (x.f() - m) * (x.f() - m)).sum::<f64>() / n; v.iter().map(|x| Val::F((x.f() - m) / (q + eps).sqrt())).collect() }
fn normalise_rows<B: Backend, const D: usize>(x: Tensor<B, D>, rows: usize, eps: f64) -> Tensor<B, D> { let n = if rows == 0 { 0 } else { x.dy.numel() / rows }; let d = x.dy.dtype; Tensor::from_dy(x.dy.reshape(vec![rows, n]).scan(1, d, n, |v| normalise(v, eps)).reshape(x.dims().to_vec())) }

#[derive(Clone, Debug)]
pub struct BatchNormConfig { n: usize, epsilon: f64, momentum: f64 }
impl BatchNormConfig {
    pub fn new(n: usize) -> Self { BatchNormConfig { n, epsilon: 1e-5, momentum: 0.1 } }
    with!(with_epsilon: epsilon: f64, with_momentum: momentum: f64);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> BatchNorm<B> { let _ = self.momentum; BatchNorm { gamma: param([self.n]), beta: param([self.n]), running_mean: param([self.n]), running_var: param([self.n]), epsilon: self.epsilon } }
}
#[derive(Clone, Debug)]
pub struct BatchNorm<B: Backend> { pub gamma: Param<Tensor<B, 1>>, pub beta: Param<Tensor<B, 1>>, pub running_mean: Param<Tensor<B, 1>>, pub running_var: Param<Tensor<B, 1>>, epsilon: f64 }
module!(BatchNorm<B>; gamma, beta, running_mean, running_var);
impl<B: Backend> BatchNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        assert!(D >= 2, "BatchNorm: input of rank {D}");
        assert_eq!(x.dims()[1], self.gamma.dims()[0], "BatchNorm: channels");
        let m = per_channel::<B, D>(&self.running_mean, 1);
        let s = per_channel::<B, D>(&self.running_var, 1).add_scalar(self.epsilon).sqrt();
        x.sub(m).div(s).mul(per_channel(&self.gamma, 1)).add(per_channel(&self.beta, 1))
    }
}
#[derive(Clone, Debug)]
pub struct LayerNormConfig { n: usize, epsilon: f64, bias: bool }
impl LayerNormConfig {
    pub fn new(n: usize) -> Self { LayerNormConfig { n, epsilon: 1e-5, bias: true } }
    with!(with_epsilon: epsilon: f64, with_bias: bias: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> LayerNorm<B> { LayerNorm { gamma: param([self.n]), beta: self.bias.then(|| param([self.n])), epsilon: self.epsilon } }
}
#[derive(Clone, Debug)]
pub struct LayerNorm<B: Backend> { pub gamma: Param<Tensor<B, 1>>, pub beta: Option<Param<Tensor<B, 1>>>, epsilon: f64 }
module!(LayerNorm<B>; gamma, beta);
impl<B: Backend> LayerNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        assert_eq!(x.dims()[D - 1], self.gamma.dims()[0], "LayerNorm: the last dimension");
        let rows = x.dims()[..D - 1].iter().product();
        let y = normalise_rows(x, rows, self.epsilon).mul(per_channel(&self.gamma, D - 1));
        match &self.beta { Some(b) => y.add(per_channel(b, D - 1)), None => y }
    }
}
#[derive(Clone, Debug)]
pub struct GroupNormConfig { g: usize, n: usize, epsilon: f64, affine: bool }
impl GroupNormConfig {
    pub fn new(g: usize, n: usize) -> Self { GroupNormConfig { g, n, epsilon: 1e-5, affine: true } }
    with!(with_epsilon: epsilon: f64, with_affine: affine: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> GroupNorm<B> { assert_eq!(self.n % self.g, 0, "GroupNorm: channels not divisible by groups"); GroupNorm { gamma: self.affine.then(|| param([self.n])), beta: self.affine.then(|| param([self.n])), g: self.g, epsilon: self.epsilon } }
}
#[derive(Clone, Debug)]
pub struct GroupNorm<B: Backend> { pub gamma: Option<Param<Tensor<B, 1>>>, pub beta: Option<Param<Tensor<B, 1>>>, g: usize, epsilon: f64 }
module!(GroupNorm<B>; gamma, beta);
impl<B: Backend> GroupNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        assert!(D >= 2);
        let rows = x.dims()[0] * self.g;
        let mut y = normalise_rows(x, rows, self.epsilon);
        if let (Some(g), Some(b)) = (&self.gamma, &self.beta) { y = y.mul(per_channel(g, 1)).add(per_channel(b, 1)); }
        y
    }
}
#[derive(Clone, Debug)]
pub struct InstanceNormConfig { n: usize, epsilon: f64, affine: bool }
impl InstanceNormConfig {
    pub fn new(n: usize) -> Self { InstanceNormConfig { n, epsilon: 1e-5, affine: true } }
    with!(with_epsilon: epsilon: f64, with_affine: affine: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> InstanceNorm<B> { InstanceNorm { gamma: self.affine.then(|| param([self.n])), beta: self.affine.then(|| param([self.n])), n: self.n, epsilon: self.epsilon } }
}
#[derive(Clone, Debug)]
pub struct InstanceNorm<B: Backend> { pub gamma: Option<Param<Tensor<B, 1>>>, pub beta: Option<Param<Tensor<B, 1>>>, n: usize, epsilon: f64 }
module!(InstanceNorm<B>; gamma, beta);
impl<B: Backend> InstanceNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        assert!(D >= 2);
        assert_eq!(x.dims()[1], self.n, "InstanceNorm: channels");
        let rows = x.dims()[0] * x.dims()[1];
        let mut y = normalise_rows(x, rows, self.epsilon);
        if let (Some(g), Some(b)) = (&self.gamma, &self.beta) { y = y.mul(per_channel(g, 1)).add(per_channel(b, 1)); }
        y
    }
}
// ---------------------------------------------------------------- dropout
#[derive(Clone, Debug)]
pub struct DropoutConfig { prob: f64 }
impl DropoutConfig { pub fn new(prob: f64) -> Self { DropoutConfig { prob } } pub fn init(&self) -> Dropout { assert!((0.0..=1.0).contains(&self.prob), "Dropout probability"); Dropout { prob: self.prob } } }
#[derive(Clone, Debug)]
pub struct Dropout { pub prob: f64 }
module!(Dropout);
impl Dropout { pub fn forward<B: Backend, const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { x } }
#[allow(unused)]
fn _u(_: Dy) {}
