pub use burn_derive::Module;
use burn_tensor::*;
use core::marker::PhantomData;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// One parameter as found in (or stored for) a module.
#[derive(Clone, Debug)]
pub struct Entry { pub path: String, pub kind: &'static str, pub shape: Vec<usize> }

/// Walks the parameters of a module: either lists them or loads them from stored data.
#[derive(Default)]
pub struct Visitor {
    pub data: Option<BTreeMap<String, TensorData>>,
    pub seen: Vec<Entry>,
    pub missing: Vec<String>,
    pub errors: Vec<String>,
    pub used: BTreeSet<String>,
}
pub fn join(p: &str, f: &str) -> String { if p.is_empty() { f.to_string() } else { format!("{p}.{f}") } }

pub trait Module<B: Backend>: Sized {
    fn visit(&mut self, path: &str, v: &mut Visitor);
    fn to_device(self, _d: &B::Device) -> Self { self }
    fn num_params(&self) -> usize { 0 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ParamId(u64);
thread_local! { static IDS: RefCell<u64> = const { RefCell::new(0) }; }
impl ParamId {
    pub fn new() -> Self { IDS.with(|c| { *c.borrow_mut() += 1; ParamId(*c.borrow()) }) }
    pub fn val(&self) -> u64 { self.0 }
}
impl Default for ParamId { fn default() -> Self { Self::new() } }
impl From<u64> for ParamId { fn from(v: u64) -> Self { ParamId(v) } }

type Init<T> = Arc<Mutex<Option<Box<dyn FnOnce() -> T + Send>>>>;
/// A parameter, initialised when first used.
pub struct Param<T> { pub id: ParamId, cell: std::sync::OnceLock<T>, init: Init<T>, shape: Vec<usize> }
impl<T: core::fmt::Debug> core::fmt::Debug for Param<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "Param{:?}", self.shape) } }
impl<T: Clone> Clone for Param<T> { fn clone(&self) -> Self { Param { id: self.id, cell: std::sync::OnceLock::from(self.val_ref().clone()), init: Arc::new(Mutex::new(None)), shape: self.shape.clone() } } }
impl<T> Param<T> {
    pub fn uninitialized<D: Clone + Send + 'static, F: FnOnce(&D, bool) -> T + Send + 'static>(id: ParamId, f: F, device: D, require_grad: bool, shape: Shape) -> Self {
        Param { id, cell: std::sync::OnceLock::new(), init: Arc::new(Mutex::new(Some(Box::new(move || f(&device, require_grad))))), shape: shape.dims }
    }
    pub fn initialized(id: ParamId, v: T, shape: Vec<usize>) -> Self { Param { id, cell: std::sync::OnceLock::from(v), init: Arc::new(Mutex::new(None)), shape } }
    fn val_ref(&self) -> &T { self.cell.get_or_init(|| (self.init.lock().unwrap().take().expect("parameter without a value"))()) }
    pub fn lazy_shape(&self) -> Vec<usize> { self.shape.clone() }
}
impl<T: Clone> Param<T> { pub fn val(&self) -> T { self.val_ref().clone() } pub fn into_value(self) -> T { self.val() } }
impl<T> core::ops::Deref for Param<T> { type Target = T; fn deref(&self) -> &T { self.val_ref() } }
impl<B: Backend, const D: usize, K: BasicOps<B>> Param<Tensor<B, D, K>> {
    pub fn from_tensor(t: Tensor<B, D, K>) -> Self { let s = t.shape().dims; Param::initialized(ParamId::new(), t, s) }
    pub fn from_data<T: Into<TensorData>>(d: T, dev: &B::Device) -> Self { Self::from_tensor(Tensor::from_data(d, dev)) }
}
pub(crate) fn param<B: Backend, const D: usize>(shape: [usize; D]) -> Param<Tensor<B, D>> {
    Param::uninitialized(ParamId::new(), move |d, _| Tensor::<B, D>::full(shape, 0.123456, d), B::Device::default(), true, shape.into())
}
impl<B: Backend, const D: usize, K: BasicOps<B>> Module<B> for Param<Tensor<B, D, K>> {
    fn visit(&mut self, path: &str, v: &mut Visitor) {
        v.seen.push(Entry { path: path.to_string(), kind: K::NAME, shape: self.shape.clone() });
        let Some(m) = &v.data else { return };
        let Some(d) = m.get(path) else { v.missing.push(path.to_string()); return };
        v.used.insert(path.to_string());
        if d.shape != self.shape { v.errors.push(format!("{path}: the module has shape {:?}, the file {:?}", self.shape, d.shape)); return; }
        if !K::admits(d.dtype) { v.errors.push(format!("{path}: the module holds {}, the file {:?}", K::NAME, d.dtype)); return; }
        *self = Param::initialized(self.id, Tensor::from_data_dtype(d.clone(), &B::Device::default(), d.dtype), self.shape.clone());
    }
}
impl<B: Backend, M: Module<B>> Module<B> for Option<M> { fn visit(&mut self, p: &str, v: &mut Visitor) { if let Some(m) = self { m.visit(p, v) } } }
impl<B: Backend, M: Module<B>> Module<B> for Vec<M> { fn visit(&mut self, p: &str, v: &mut Visitor) { for (k, m) in self.iter_mut().enumerate() { m.visit(&join(p, &k.to_string()), v) } } }
impl<B: Backend, M: Module<B>, const N: usize> Module<B> for [M; N] { fn visit(&mut self, p: &str, v: &mut Visitor) { for (k, m) in self.iter_mut().enumerate() { m.visit(&join(p, &k.to_string()), v) } } }
impl<B: Backend, T> Module<B> for PhantomData<T> { fn visit(&mut self, _: &str, _: &mut Visitor) {} }
/// Not part of the module's state.
#[derive(Clone, Debug, Default)]
pub struct Ignored<T>(pub T);
impl<T> core::ops::Deref for Ignored<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<B: Backend, T> Module<B> for Ignored<T> { fn visit(&mut self, _: &str, _: &mut Visitor) {} }
macro_rules! plain { ($($t:ty),*) => { $(impl<B: Backend> Module<B> for $t { fn visit(&mut self, _: &str, _: &mut Visitor) {} })* } }
plain!(bool, usize, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, String);
