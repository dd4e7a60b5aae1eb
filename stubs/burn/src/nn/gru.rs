use super::rec::Gate;
use super::*;
use burn_tensor::activation::{sigmoid, tanh};
macro_rules! cfg { ($c:ident) => {
    #[derive(Clone, Debug)]
    pub struct $c { i: usize, h: usize, bias: bool, reset_after: bool, batch_first: bool }
    impl $c { pub fn new(i: usize, h: usize, bias: bool) -> Self { $c { i, h, bias, reset_after: true, batch_first: true } } with!(with_reset_after: reset_after: bool, with_batch_first: batch_first: bool); }
} }
cfg!(GruConfig);
cfg!(BiGruConfig);
impl GruConfig { pub fn init<B: Backend>(&self, _d: &B::Device) -> Gru<B> { let g = || Gate::new(self.i, self.h, self.bias); Gru { update_gate: g(), reset_gate: g(), new_gate: g(), d_hidden: self.h, reset_after: self.reset_after } } }
impl BiGruConfig { pub fn init<B: Backend>(&self, d: &B::Device) -> BiGru<B> { let c = GruConfig::new(self.i, self.h, self.bias).with_reset_after(self.reset_after); BiGru { forward: c.init(d), reverse: c.init(d), batch_first: self.batch_first } } }
#[derive(Clone, Debug)]
pub struct Gru<B: Backend> { pub update_gate: Gate<B>, pub reset_gate: Gate<B>, pub new_gate: Gate<B>, pub d_hidden: usize, pub reset_after: bool }
module!(Gru<B>; update_gate, reset_gate, new_gate);
impl<B: Backend> Gru<B> {
    /// [batch, seq, in] to [batch, seq, hidden]
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<Tensor<B, 2>>) -> Tensor<B, 3> {
        let [b, n, _] = x.dims();
        let dev = x.device();
        let mut h = state.unwrap_or_else(|| Tensor::zeros([b, self.d_hidden], &dev));
        assert_eq!(h.dims(), [b, self.d_hidden], "Gru: state");
        let mut out = vec![];
        for t in 0..n {
            let xt: Tensor<B, 2> = x.clone().narrow(1, t, 1).squeeze_dim(1);
            let z = sigmoid(self.update_gate.sum(&xt, &h));
            let r = sigmoid(self.reset_gate.sum(&xt, &h));
            let c = if self.reset_after { self.new_gate.input_transform.forward(xt.clone()).add(r.mul(self.new_gate.hidden_transform.forward(h.clone()))) } else { self.new_gate.sum(&xt, &h.clone().mul(r)) };
            let c = tanh(c);
            h = c.clone().mul(z.clone().neg().add_scalar(1.0)).add(z.mul(h));
            out.push(h.clone().unsqueeze_dim::<3>(1));
        }
        Tensor::cat(out, 1)
    }
}
#[derive(Clone, Debug)]
pub struct BiGru<B: Backend> { pub forward: Gru<B>, pub reverse: Gru<B>, pub batch_first: bool }
module!(BiGru<B>; forward, reverse);
impl<B: Backend> BiGru<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<Tensor<B, 3>>) -> (Tensor<B, 3>, Tensor<B, 3>) {
        let x = if self.batch_first { x } else { x.swap_dims(0, 1) };
        let n = x.dims()[1];
        let (a, b) = match state { Some(s) => (Some(s.clone().narrow(0, 0, 1).squeeze_dim::<2>(0)), Some(s.narrow(0, 1, 1).squeeze_dim::<2>(0))), None => (None, None) };
        let f = self.forward.forward(x.clone(), a);
        let r = self.reverse.forward(x.flip([1]), b).flip([1]);
        let st = Tensor::cat(vec![f.clone().narrow(1, n - 1, 1).swap_dims(0, 1), r.clone().narrow(1, 0, 1).swap_dims(0, 1)], 0);
        let o = Tensor::cat(vec![f, r], 2);
        (if self.batch_first { o } else { o.swap_dims(0, 1) }, st)
    }
}
