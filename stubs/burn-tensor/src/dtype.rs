//! Element types. Mirrors the part of burn's `DType`/`Element` API that is used by this code base.
use half::{bf16, f16};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct QuantScheme;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DType {
    F64,
    F32,
    Flex32,
    F16,
    BF16,
    I64,
    I32,
    I16,
    I8,
    U64,
    U32,
    U16,
    U8,
    Bool,
    QFloat(QuantScheme),
}

impl DType {
    pub const fn size(&self) -> usize {
        match self {
            DType::F64 | DType::I64 | DType::U64 => 8,
            DType::F32 | DType::Flex32 | DType::I32 | DType::U32 => 4,
            DType::F16 | DType::BF16 | DType::I16 | DType::U16 => 2,
            DType::I8 | DType::U8 | DType::Bool => 1,
            DType::QFloat(_) => 1,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(
            self,
            DType::F64 | DType::F32 | DType::Flex32 | DType::F16 | DType::BF16
        )
    }
    pub fn is_int(&self) -> bool {
        matches!(self, DType::I64 | DType::I32 | DType::I16 | DType::I8)
    }
    pub fn is_uint(&self) -> bool {
        matches!(self, DType::U64 | DType::U32 | DType::U16 | DType::U8)
    }
    pub fn is_bool(&self) -> bool {
        matches!(self, DType::Bool)
    }
    pub fn name(&self) -> &'static str {
        match self {
            DType::F64 => "f64",
            DType::F32 => "f32",
            DType::Flex32 => "flex32",
            DType::F16 => "f16",
            DType::BF16 => "bf16",
            DType::I64 => "i64",
            DType::I32 => "i32",
            DType::I16 => "i16",
            DType::I8 => "i8",
            DType::U64 => "u64",
            DType::U32 => "u32",
            DType::U16 => "u16",
            DType::U8 => "u8",
            DType::Bool => "bool",
            DType::QFloat(_) => "qfloat",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FloatDType {
    F64,
    F32,
    Flex32,
    F16,
    BF16,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IntDType {
    I64,
    I32,
    I16,
    I8,
    U64,
    U32,
    U16,
    U8,
}
impl From<DType> for FloatDType {
    fn from(d: DType) -> Self {
        match d {
            DType::F64 => FloatDType::F64,
            DType::F32 => FloatDType::F32,
            DType::Flex32 => FloatDType::Flex32,
            DType::F16 => FloatDType::F16,
            DType::BF16 => FloatDType::BF16,
            o => panic!("Expected float data type, got {o:?}"),
        }
    }
}
impl From<FloatDType> for DType {
    fn from(d: FloatDType) -> Self {
        match d {
            FloatDType::F64 => DType::F64,
            FloatDType::F32 => DType::F32,
            FloatDType::Flex32 => DType::Flex32,
            FloatDType::F16 => DType::F16,
            FloatDType::BF16 => DType::BF16,
        }
    }
}
impl From<DType> for IntDType {
    fn from(d: DType) -> Self {
        match d {
            DType::I64 => IntDType::I64,
            DType::I32 => IntDType::I32,
            DType::I16 => IntDType::I16,
            DType::I8 => IntDType::I8,
            DType::U64 => IntDType::U64,
            DType::U32 => IntDType::U32,
            DType::U16 => IntDType::U16,
            DType::U8 => IntDType::U8,
            o => panic!("Expected int data type, got {o:?}"),
        }
    }
}
impl From<IntDType> for DType {
    fn from(d: IntDType) -> Self {
        match d {
            IntDType::I64 => DType::I64,
            IntDType::I32 => DType::I32,
            IntDType::I16 => DType::I16,
            IntDType::I8 => DType::I8,
            IntDType::U64 => DType::U64,
            IntDType::U32 => DType::U32,
            IntDType::U16 => DType::U16,
            IntDType::U8 => DType::U8,
        }
    }
}

/// A dynamically typed element value: the pivot of every conversion.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    F(f64),
    I(i64),
    U(u64),
    B(bool),
}

impl Val {
    pub fn f(self) -> f64 {
        match self {
            Val::F(x) => x,
            Val::I(x) => x as f64,
            Val::U(x) => x as f64,
            Val::B(x) => x as u8 as f64,
        }
    }
    pub fn i(self) -> i64 {
        match self {
            Val::F(x) => x as i64,
            Val::I(x) => x,
            Val::U(x) => x as i64,
            Val::B(x) => x as i64,
        }
    }
    pub fn b(self) -> bool {
        match self {
            Val::F(x) => x != 0.0,
            Val::I(x) => x != 0,
            Val::U(x) => x != 0,
            Val::B(x) => x,
        }
    }
}

pub trait ToElement {
    fn val(&self) -> Val;
    fn to_f32(&self) -> f32 {
        self.val().f() as f32
    }
    fn to_f64(&self) -> f64 {
        self.val().f()
    }
    fn to_i64(&self) -> i64 {
        self.val().i()
    }
    fn to_i32(&self) -> i32 {
        self.val().i() as i32
    }
    fn to_usize(&self) -> usize {
        self.val().i() as usize
    }
    fn to_bool(&self) -> bool {
        self.val().b()
    }
}

pub trait Element:
    ToElement + Copy + core::fmt::Debug + core::fmt::Display + Default + Send + Sync + PartialEq + 'static
{
    fn dtype() -> DType;
    fn from_val(v: Val) -> Self;
    /// Reinterpret the raw bytes of one element.
    fn from_raw(b: &[u8]) -> Self;
    fn push_raw(self, out: &mut Vec<u8>);
}

/// `x.elem::<T>()`
pub trait ElementConversion {
    fn elem<E: Element>(self) -> E;
    fn from_elem<E: Element>(e: E) -> Self;
}
impl<T: Element> ElementConversion for T {
    fn elem<E: Element>(self) -> E {
        E::from_val(self.val())
    }
    fn from_elem<E: Element>(e: E) -> Self {
        T::from_val(e.val())
    }
}

macro_rules! int_elem {
    ($($t:ty, $d:ident, $v:ident, $w:ty);* $(;)?) => {$(
        impl ToElement for $t { fn val(&self) -> Val { Val::$v(*self as $w) } }
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_val(v: Val) -> Self {
                match v { Val::F(x) => x as $t, Val::I(x) => x as $t, Val::U(x) => x as $t, Val::B(x) => x as $t }
            }
            fn from_raw(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().unwrap()) }
            fn push_raw(self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_ne_bytes()) }
        }
    )*}
}
int_elem! { i64, I64, I, i64; i32, I32, I, i64; i16, I16, I, i64; i8, I8, I, i64;
u64, U64, U, u64; u32, U32, U, u64; u16, U16, U, u64; u8, U8, U, u64; }
macro_rules! flt_elem {
    ($($t:ty, $d:ident);*) => {$(
        impl ToElement for $t { fn val(&self) -> Val { Val::F(*self as f64) } }
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_val(v: Val) -> Self { v.f() as $t }
            fn from_raw(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().unwrap()) }
            fn push_raw(self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_ne_bytes()) }
        }
    )*}
}
flt_elem! { f64, F64; f32, F32 }
macro_rules! half_elem {
    ($($t:ty, $d:ident);*) => {$(
        impl ToElement for $t { fn val(&self) -> Val { Val::F(f64::from(*self)) } }
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_val(v: Val) -> Self { <$t>::from_f64(v.f()) }
            fn from_raw(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().unwrap()) }
            fn push_raw(self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_ne_bytes()) }
        }
    )*}
}
half_elem! { f16, F16; bf16, BF16 }
impl ToElement for usize {
    fn val(&self) -> Val {
        Val::U(*self as u64)
    }
}
impl ToElement for isize {
    fn val(&self) -> Val {
        Val::I(*self as i64)
    }
}
impl ToElement for bool {
    fn val(&self) -> Val {
        Val::B(*self)
    }
}
impl Element for bool {
    fn dtype() -> DType {
        DType::Bool
    }
    fn from_val(v: Val) -> Self {
        v.b()
    }
    fn from_raw(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn push_raw(self, out: &mut Vec<u8>) {
        out.push(self as u8)
    }
}

/// Run `$body` with `$t` bound to the Rust type of a dtype.
#[macro_export]
macro_rules! with_dtype {
    ($d:expr, $t:ident => $body:expr) => {
        match $d {
            $crate::DType::F64 => { type $t = f64; $body }
            $crate::DType::F32 | $crate::DType::Flex32 => { type $t = f32; $body }
            $crate::DType::F16 => { type $t = half::f16; $body }
            $crate::DType::BF16 => { type $t = half::bf16; $body }
            $crate::DType::I64 => { type $t = i64; $body }
            $crate::DType::I32 => { type $t = i32; $body }
            $crate::DType::I16 => { type $t = i16; $body }
            $crate::DType::I8 => { type $t = i8; $body }
            $crate::DType::U64 => { type $t = u64; $body }
            $crate::DType::U32 => { type $t = u32; $body }
            $crate::DType::U16 => { type $t = u16; $body }
            $crate::DType::U8 => { type $t = u8; $body }
            $crate::DType::Bool => { type $t = bool; $body }
            $crate::DType::QFloat(_) => panic!("quantised tensors are not modelled"),
        }
    };
}
