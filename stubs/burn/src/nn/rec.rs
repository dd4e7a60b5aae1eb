use super::*;
#[derive(Clone, Debug)]
pub struct Gate<B: Backend> { pub input_transform: Linear<B>, pub hidden_transform: Linear<B> }
module!(Gate<B>; input_transform, hidden_transform);
impl<B: Backend> Gate<B> {
    pub fn new(i: usize, h: usize, bias: bool) -> Self { let d = B::Device::default(); Gate { input_transform: LinearConfig::new(i, h).with_bias(bias).init(&d), hidden_transform: LinearConfig::new(h, h).with_bias(bias).init(&d) } }
    pub fn sum(&self, x: &Tensor<B, 2>, h: &Tensor<B, 2>) -> Tensor<B, 2> { self.input_transform.forward(x.clone()).add(self.hidden_transform.forward(h.clone())) }
}
#[derive(Clone, Debug)]
pub struct LstmState<B: Backend, const D: usize> { pub cell: Tensor<B, D>, pub hidden: Tensor<B, D> }
impl<B: Backend, const D: usize> LstmState<B, D> { pub fn new(cell: Tensor<B, D>, hidden: Tensor<B, D>) -> Self { LstmState { cell, hidden } } }
#[derive(Clone, Debug)]
pub struct RnnState<B: Backend, const D: usize> { pub hidden: Tensor<B, D> }
impl<B: Backend, const D: usize> RnnState<B, D> { pub fn new(hidden: Tensor<B, D>) -> Self { RnnState { hidden } } }
macro_rules! cfg { ($($c:ident),*) => { $(
    #[derive(Clone, Debug)]
    pub struct $c { i: usize, h: usize, bias: bool, batch_first: bool, reverse: bool, clip: Option<f64>, input_forget: bool, gate: ActivationConfig, cell: ActivationConfig, hidden: ActivationConfig }
    impl $c {
        pub fn new(i: usize, h: usize, bias: bool) -> Self { $c { i, h, bias, batch_first: true, reverse: false, clip: None, input_forget: false, gate: ActivationConfig::Sigmoid, cell: ActivationConfig::Tanh, hidden: ActivationConfig::Tanh } }
        with!(with_batch_first: batch_first: bool, with_clip: clip: Option<f64>, with_hidden_activation: hidden: ActivationConfig);
    }
)* } }
cfg!(LstmConfig, BiLstmConfig, RnnConfig, BiRnnConfig);
impl RnnConfig { with!(with_reverse: reverse: bool); }
impl LstmConfig { with!(with_reverse: reverse: bool, with_input_forget: input_forget: bool, with_gate_activation: gate: ActivationConfig, with_cell_activation: cell: ActivationConfig); pub fn init<B: Backend>(&self, _d: &B::Device) -> Lstm<B> { let g = || Gate::new(self.i, self.h, self.bias); Lstm { input_gate: g(), forget_gate: g(), output_gate: g(), cell_gate: g(), c: self.clone() } } }
impl BiLstmConfig { with!(with_input_forget: input_forget: bool, with_gate_activation: gate: ActivationConfig, with_cell_activation: cell: ActivationConfig);
    pub fn init<B: Backend>(&self, d: &B::Device) -> BiLstm<B> { let _ = self.reverse; let c = LstmConfig { i: self.i, h: self.h, bias: self.bias, batch_first: true, reverse: false, clip: self.clip, input_forget: self.input_forget, gate: self.gate.clone(), cell: self.cell.clone(), hidden: self.hidden.clone() }; let r = c.clone().with_reverse(true); BiLstm { forward: c.init(d), reverse: r.init(d), batch_first: self.batch_first } } }
impl RnnConfig { pub fn init<B: Backend>(&self, _d: &B::Device) -> Rnn<B> { let _ = (&self.gate, &self.cell, self.input_forget); Rnn { gate: Gate::new(self.i, self.h, self.bias), c: self.clone() } } }
impl BiRnnConfig { pub fn init<B: Backend>(&self, d: &B::Device) -> BiRnn<B> { let _ = (&self.gate, &self.cell, self.input_forget, self.reverse); let c = RnnConfig { i: self.i, h: self.h, bias: self.bias, batch_first: true, reverse: false, clip: self.clip, input_forget: false, gate: self.gate.clone(), cell: self.cell.clone(), hidden: self.hidden.clone() }; let r = c.clone().with_reverse(true); BiRnn { forward: c.init(d), reverse: r.init(d), batch_first: self.batch_first } } }
fn clip<B: Backend>(x: Tensor<B, 2>, c: Option<f64>) -> Tensor<B, 2> { match c { Some(c) => x.clamp(-c, c), None => x } }
fn steps<B: Backend, S>(x: Tensor<B, 3>, batch_first: bool, reverse: bool, mut s: S, mut f: impl FnMut(Tensor<B, 2>, S) -> (Tensor<B, 2>, S)) -> (Tensor<B, 3>, S) {
    let x = if batch_first { x } else { x.swap_dims(0, 1) };
    let n = x.dims()[1];
    let mut out: Vec<Option<Tensor<B, 3>>> = vec![None; n];
    for k in 0..n { let t = if reverse { n - 1 - k } else { k }; let (y, s2) = f(x.clone().narrow(1, t, 1).squeeze_dim(1), s); s = s2; out[t] = Some(y.unsqueeze_dim(1)); }
    let o = Tensor::cat(out.into_iter().map(|x| x.unwrap()).collect(), 1);
    (if batch_first { o } else { o.swap_dims(0, 1) }, s)
}
#[derive(Clone, Debug)]
pub struct Lstm<B: Backend> { pub input_gate: Gate<B>, pub forget_gate: Gate<B>, pub output_gate: Gate<B>, pub cell_gate: Gate<B>, c: LstmConfig }
module!(Lstm<B>; input_gate, forget_gate, output_gate, cell_gate);
impl<B: Backend> Lstm<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<LstmState<B, 2>>) -> (Tensor<B, 3>, LstmState<B, 2>) {
        let b = if self.c.batch_first { x.dims()[0] } else { x.dims()[1] };
        let dev = x.device();
        let s = state.unwrap_or_else(|| LstmState::new(Tensor::zeros([b, self.c.h], &dev), Tensor::zeros([b, self.c.h], &dev)));
        assert!(s.hidden.dims() == [b, self.c.h] && s.cell.dims() == [b, self.c.h], "Lstm: state");
        steps(x, self.c.batch_first, self.c.reverse, s, |xt, s| {
            let g = |m: &Gate<B>| clip(m.sum(&xt, &s.hidden), self.c.clip);
            let f = self.c.gate.apply(g(&self.forget_gate));
            let i = if self.c.input_forget { f.clone().neg().add_scalar(1.0) } else { self.c.gate.apply(g(&self.input_gate)) };
            let o = self.c.gate.apply(g(&self.output_gate));
            let c = self.c.cell.apply(g(&self.cell_gate));
            let cell = f.mul(s.cell.clone()).add(i.mul(c));
            let hidden = o.mul(self.c.hidden.apply(cell.clone()));
            (hidden.clone(), LstmState { cell, hidden })
        })
    }
}
#[derive(Clone, Debug)]
pub struct Rnn<B: Backend> { pub gate: Gate<B>, c: RnnConfig }
module!(Rnn<B>; gate);
impl<B: Backend> Rnn<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<RnnState<B, 2>>) -> (Tensor<B, 3>, RnnState<B, 2>) {
        let b = if self.c.batch_first { x.dims()[0] } else { x.dims()[1] };
        let dev = x.device();
        let s = state.unwrap_or_else(|| RnnState::new(Tensor::zeros([b, self.c.h], &dev)));
        assert!(s.hidden.dims() == [b, self.c.h], "Rnn: state");
        steps(x, self.c.batch_first, self.c.reverse, s, |xt, s| { let h = self.c.hidden.apply(clip(self.gate.sum(&xt, &s.hidden), self.c.clip)); (h.clone(), RnnState { hidden: h }) })
    }
}
macro_rules! halves { ($s:expr) => {{ let s = $s; (s.clone().narrow(0, 0, 1).squeeze_dim::<2>(0), s.narrow(0, 1, 1).squeeze_dim::<2>(0)) }} }
fn join2<B: Backend>(a: Tensor<B, 2>, b: Tensor<B, 2>) -> Tensor<B, 3> { Tensor::cat(vec![a.unsqueeze_dim::<3>(0), b.unsqueeze_dim::<3>(0)], 0) }
#[derive(Clone, Debug)]
pub struct BiLstm<B: Backend> { pub forward: Lstm<B>, pub reverse: Lstm<B>, pub batch_first: bool }
module!(BiLstm<B>; forward, reverse);
impl<B: Backend> BiLstm<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<LstmState<B, 3>>) -> (Tensor<B, 3>, LstmState<B, 3>) {
        let x = if self.batch_first { x } else { x.swap_dims(0, 1) };
        let (a, b) = match state { Some(s) => { let (h0, h1) = halves!(s.hidden); let (c0, c1) = halves!(s.cell); (Some(LstmState::new(c0, h0)), Some(LstmState::new(c1, h1))) } None => (None, None) };
        let (f, sf) = self.forward.forward(x.clone(), a);
        let (r, sr) = self.reverse.forward(x, b);
        let o = Tensor::cat(vec![f, r], 2);
        (if self.batch_first { o } else { o.swap_dims(0, 1) }, LstmState { hidden: join2(sf.hidden, sr.hidden), cell: join2(sf.cell, sr.cell) })
    }
}
#[derive(Clone, Debug)]
pub struct BiRnn<B: Backend> { pub forward: Rnn<B>, pub reverse: Rnn<B>, pub batch_first: bool }
module!(BiRnn<B>; forward, reverse);
impl<B: Backend> BiRnn<B> {
    pub fn forward(&self, x: Tensor<B, 3>, state: Option<RnnState<B, 3>>) -> (Tensor<B, 3>, RnnState<B, 3>) {
        let x = if self.batch_first { x } else { x.swap_dims(0, 1) };
        let (a, b) = match state { Some(s) => { let (h0, h1) = halves!(s.hidden); (Some(RnnState::new(h0)), Some(RnnState::new(h1))) } None => (None, None) };
        let (f, sf) = self.forward.forward(x.clone(), a);
        let (r, sr) = self.reverse.forward(x, b);
        let o = Tensor::cat(vec![f, r], 2);
        (if self.batch_first { o } else { o.swap_dims(0, 1) }, RnnState { hidden: join2(sf.hidden, sr.hidden) })
    }
}
