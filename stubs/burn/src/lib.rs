//! Offline stand-in for `burn`: what generated models are written against.
#![allow(clippy::all)]
extern crate self as burn;
pub mod module;
pub mod nn;
pub mod tensor {
    pub use burn_tensor::*;
}
pub mod backend {
    pub use burn_tensor::Backend;
    #[cfg(feature = "ndarray")]
    pub use burn_ndarray::NdArray;
}
pub mod prelude {
    pub use crate::module::Module;
    pub use crate::nn;
    pub use crate::tensor;
    pub use burn_tensor::{Backend, Bool, Device, ElementConversion, Float, Int, Shape, Slice, Tensor, TensorData, s};
}
pub mod config {}
