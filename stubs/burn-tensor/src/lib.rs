//! Offline stand-in for `burn-tensor`, written for the verification machinery.
//! It provides the API subset that burn-onnx, onnx-ir and *generated* code use, executing every
//! operation on a simple dense CPU representation.
#![allow(clippy::all)]
pub mod activation;
pub mod data;
pub mod dtype;
pub mod dy;
pub mod module;
pub mod ops;
pub mod random;
pub mod tensor;
pub use data::*;
pub use dtype::*;
pub use tensor::*;
pub type Device<B> = <B as Backend>::Device;
pub mod backend {
    pub use crate::tensor::Backend;
}
