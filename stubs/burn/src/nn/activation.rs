use super::*;
use burn_tensor::activation as act;
#[derive(Clone, Debug)]
pub struct HardSigmoidConfig { pub alpha: f64, pub beta: f64 }
impl HardSigmoidConfig { pub fn new() -> Self { HardSigmoidConfig { alpha: 0.2, beta: 0.5 } } with!(with_alpha: alpha: f64, with_beta: beta: f64); }
#[derive(Clone, Debug)]
pub struct LeakyReluConfig { pub negative_slope: f64 }
impl LeakyReluConfig { pub fn new() -> Self { LeakyReluConfig { negative_slope: 0.01 } } with!(with_negative_slope: negative_slope: f64); }
#[derive(Clone, Debug)]
pub struct SoftplusConfig { pub beta: f64 }
impl SoftplusConfig { pub fn new() -> Self { SoftplusConfig { beta: 1.0 } } with!(with_beta: beta: f64); }
#[derive(Clone, Debug)]
pub enum ActivationConfig { Gelu, Relu, Sigmoid, Tanh, HardSwish, HardSigmoid(HardSigmoidConfig), LeakyRelu(LeakyReluConfig), Softplus(SoftplusConfig), Softsign }
impl ActivationConfig {
    pub(crate) fn apply<B: Backend, const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        match self {
            Self::Gelu => act::gelu(x), Self::Relu => act::relu(x), Self::Sigmoid => act::sigmoid(x), Self::Tanh => act::tanh(x), Self::HardSwish => act::hard_swish(x), Self::Softsign => act::softsign(x),
            Self::HardSigmoid(c) => act::hard_sigmoid(x, c.alpha, c.beta), Self::LeakyRelu(c) => act::leaky_relu(x, c.negative_slope), Self::Softplus(c) => act::softplus(x, c.beta),
        }
    }
}
#[derive(Clone, Debug)]
pub struct PReluConfig { n: usize, alpha: f64 }
impl PReluConfig { pub fn new() -> Self { PReluConfig { n: 1, alpha: 0.25 } } with!(with_num_parameters: n: usize, with_alpha: alpha: f64); pub fn init<B: Backend>(&self, _d: &B::Device) -> PRelu<B> { PRelu { alpha: param([self.n]), alpha_value: self.alpha } } }
#[derive(Clone, Debug)]
pub struct PRelu<B: Backend> { pub alpha: Param<Tensor<B, 1>>, pub alpha_value: f64 }
module!(PRelu<B>; alpha);
impl<B: Backend> PRelu<B> { pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { act::prelu(x, self.alpha.val()) } }
