//! The one backend of the stand-in.
use burn_tensor::{Backend, Element};
use core::marker::PhantomData;
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum NdArrayDevice { #[default] Cpu }
#[derive(Clone, Debug, Default)]
pub struct NdArray<E = f32, I = i64>(PhantomData<(E, I)>);
impl<E: Element, I: Element> Backend for NdArray<E, I> {
    type Device = NdArrayDevice;
    type FloatElem = E;
    type IntElem = I;
    type BoolElem = bool;
}
