//! TensorData: a shape, a dtype and raw bytes.
use crate::dtype::*;
use crate::with_dtype;

/// Raw byte buffer. Kept 8-byte aligned, so that typed views are always possible.
#[derive(Clone)]
pub struct Bytes {
    words: Vec<u64>,
    len: usize,
}
impl Bytes {
    pub fn from_bytes_vec(v: Vec<u8>) -> Self {
        let len = v.len();
        let mut words = vec![0u64; len.div_ceil(8)];
        bytemuck::cast_slice_mut::<u64, u8>(&mut words)[..len].copy_from_slice(&v);
        Self { words, len }
    }
    pub fn from_elems<E: Element>(v: Vec<E>) -> Self {
        let mut out = Vec::new();
        for e in v {
            e.push_raw(&mut out);
        }
        Self::from_bytes_vec(out)
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
}
impl core::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.words)[..self.len]
    }
}
impl core::ops::DerefMut for Bytes {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.words)[..self.len]
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Eq for Bytes {}
impl core::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        // as in Burn, abbreviated
        let d: &[u8] = self;
        write!(f, "Bytes {{ data: {:?}{}, len: {} }}", &d[..d.len().min(3)], if d.len() > 3 { "..." } else { "" }, self.len)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DataError {
    CastError(String),
    TypeMismatch(String),
}
impl core::fmt::Display for DataError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DataError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TensorData {
    pub bytes: Bytes,
    pub shape: Vec<usize>,
    pub dtype: DType,
}

/// True if a buffer of dtype `d` may be viewed as elements of dtype `e`.
fn matches_dtype(d: DType, e: DType) -> bool {
    match e {
        DType::F32 => matches!(d, DType::F32 | DType::Flex32),
        DType::U8 => matches!(d, DType::U8),
        _ => d == e,
    }
}

impl TensorData {
    pub fn new<E: Element, S: Into<Vec<usize>>>(value: Vec<E>, shape: S) -> Self {
        let shape = shape.into();
        let n: usize = shape.iter().product();
        assert_eq!(
            n,
            value.len(),
            "Shape {shape:?} is invalid for input of size {:?}",
            value.len()
        );
        Self {
            bytes: Bytes::from_elems(value),
            shape,
            dtype: E::dtype(),
        }
    }
    /// Like burn's: no check that the byte count fits the shape.
    pub fn from_bytes_vec<S: Into<Vec<usize>>>(bytes: Vec<u8>, shape: S, dtype: DType) -> Self {
        Self {
            bytes: Bytes::from_bytes_vec(bytes),
            shape: shape.into(),
            dtype,
        }
    }
    pub fn from_bytes<S: Into<Vec<usize>>>(bytes: Bytes, shape: S, dtype: DType) -> Self {
        Self {
            bytes,
            shape: shape.into(),
            dtype,
        }
    }
    pub fn rank(&self) -> usize {
        self.shape.len()
    }
    pub fn num_elements(&self) -> usize {
        self.shape.iter().product()
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn into_bytes(self) -> Bytes {
        self.bytes
    }
    pub fn as_slice<E: Element>(&self) -> Result<&[E], DataError> {
        if !matches_dtype(self.dtype, E::dtype()) {
            return Err(DataError::TypeMismatch(format!(
                "Invalid target element type (expected {:?}, got {:?})",
                self.dtype,
                E::dtype()
            )));
        }
        let sz = core::mem::size_of::<E>();
        let b: &[u8] = &self.bytes;
        if b.len() % sz != 0 {
            return Err(DataError::CastError("slop".into()));
        }
        if E::dtype() == DType::Bool && b.iter().any(|x| *x > 1) {
            return Err(DataError::CastError("not a bool".into()));
        }
        // SAFETY: buffer is 8-aligned, E is one of the plain element types, bools were checked.
        Ok(unsafe { core::slice::from_raw_parts(b.as_ptr() as *const E, b.len() / sz) })
    }
    pub fn as_mut_slice<E: Element>(&mut self) -> Result<&mut [E], DataError> {
        let (p, n) = {
            let s = self.as_slice::<E>()?;
            (s.as_ptr() as *mut E, s.len())
        };
        // SAFETY: exclusive borrow of self.
        Ok(unsafe { core::slice::from_raw_parts_mut(p, n) })
    }
    pub fn to_vec<E: Element>(&self) -> Result<Vec<E>, DataError> {
        Ok(self.as_slice::<E>()?.to_vec())
    }
    pub fn into_vec<E: Element>(self) -> Result<Vec<E>, DataError> {
        self.to_vec()
    }
    pub fn vals(&self) -> Vec<Val> {
        let b: &[u8] = &self.bytes;
        with_dtype!(self.dtype, T => b.chunks_exact(core::mem::size_of::<T>()).map(|c| <T as Element>::from_raw(c).val()).collect())
    }
    pub fn iter<E: Element>(&self) -> Box<dyn Iterator<Item = E> + '_> {
        Box::new(self.vals().into_iter().map(|v| E::from_val(v)))
    }
    pub fn convert<E: Element>(self) -> Self {
        self.convert_dtype(E::dtype())
    }
    pub fn convert_dtype(self, dtype: DType) -> Self {
        if self.dtype == dtype {
            return self;
        }
        let v = self.vals();
        let bytes = with_dtype!(dtype, T => Bytes::from_elems(v.into_iter().map(|x| <T as Element>::from_val(x)).collect::<Vec<T>>()));
        Self {
            bytes,
            shape: self.shape,
            dtype,
        }
    }
    pub fn full<E: Element, S: Into<Vec<usize>>>(shape: S, fill: E) -> Self {
        let shape = shape.into();
        let n: usize = shape.iter().product();
        Self::new(vec![fill; n], shape)
    }
    pub fn zeros<E: Element, S: Into<Vec<usize>>>(shape: S) -> Self {
        Self::full(shape, E::from_val(Val::I(0)))
    }
    pub fn ones<E: Element, S: Into<Vec<usize>>>(shape: S) -> Self {
        Self::full(shape, E::from_val(Val::I(1)))
    }
    #[track_caller]
    pub fn assert_eq(&self, other: &Self, strict: bool) {
        if strict {
            assert_eq!(
                self.dtype, other.dtype,
                "Data types differ ({:?} != {:?})",
                self.dtype, other.dtype
            );
        }
        assert_eq!(self.shape, other.shape, "Shapes differ");
        let (a, b) = (self.vals(), other.vals());
        for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            let same = if self.dtype.is_float() || other.dtype.is_float() {
                let (x, y) = (
                    round_f(self.dtype, x.f()),
                    round_f(self.dtype, y.f()),
                );
                x == y || (x.is_nan() && y.is_nan())
            } else {
                x.i() == y.i()
            };
            assert!(same, "Position {i}: {x:?} != {y:?}\n{a:?}\n{b:?}");
        }
    }
    #[track_caller]
    pub fn assert_approx_eq<F: Element>(&self, other: &Self, tol: Tolerance<F>) {
        assert_eq!(self.shape, other.shape, "Shapes differ");
        let (a, b) = (self.vals(), other.vals());
        for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            let (x, y) = (x.f(), y.f());
            let ok = x == y
                || (x.is_nan() && y.is_nan())
                || (x - y).abs() <= tol.abs
                || (x - y).abs() <= tol.rel * (x.abs() + y.abs()) / 2.0 * 2.0;
            assert!(ok, "Position {i}: {x:?} !~ {y:?}\n{a:?}\n{b:?}");
        }
    }
}

pub fn round_f(d: DType, x: f64) -> f64 {
    match d {
        DType::F32 | DType::Flex32 => x as f32 as f64,
        DType::F16 => half::f16::from_f64(x).to_f64(),
        DType::BF16 => half::bf16::from_f64(x).to_f64(),
        _ => x,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Tolerance<F> {
    rel: f64,
    abs: f64,
    _p: core::marker::PhantomData<F>,
}
impl<F: Element> Default for Tolerance<F> {
    fn default() -> Self {
        Self {
            rel: 5e-3,
            abs: 1e-5,
            _p: Default::default(),
        }
    }
}
impl<F: Element> Tolerance<F> {
    pub fn new(rel: f64, abs: f64) -> Self {
        Self {
            rel,
            abs,
            _p: Default::default(),
        }
    }
    pub fn absolute<T: Element>(abs: T) -> Self {
        Self::new(0.0, abs.val().f())
    }
    pub fn relative<T: Element>(rel: T) -> Self {
        Self::new(rel.val().f(), 0.0)
    }
    pub fn rel_abs<T: Element, U: Element>(rel: T, abs: U) -> Self {
        Self::new(rel.val().f(), abs.val().f())
    }
    pub fn permissive() -> Self {
        Self::new(1e-2, 1e-2)
    }
    pub fn strict() -> Self {
        Self::new(1e-4, 1e-6)
    }
    pub fn set_relative<T: Element>(mut self, r: T) -> Self {
        self.rel = r.val().f();
        self
    }
    pub fn set_absolute<T: Element>(mut self, a: T) -> Self {
        self.abs = a.val().f();
        self
    }
    pub fn set_half_precision_relative<T: Element>(self, _r: T) -> Self {
        self
    }
    pub fn set_half_precision_absolute<T: Element>(self, _r: T) -> Self {
        self
    }
}

// ---- nested arrays ----
impl<E: Element, const A: usize> From<[E; A]> for TensorData {
    fn from(v: [E; A]) -> Self {
        TensorData::new(v.to_vec(), [A])
    }
}
impl<E: Element, const A: usize, const B: usize> From<[[E; B]; A]> for TensorData {
    fn from(v: [[E; B]; A]) -> Self {
        TensorData::new(v.into_iter().flatten().collect(), [A, B])
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize> From<[[[E; C]; B]; A]>
    for TensorData
{
    fn from(v: [[[E; C]; B]; A]) -> Self {
        TensorData::new(v.into_iter().flatten().flatten().collect(), [A, B, C])
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize, const D: usize>
    From<[[[[E; D]; C]; B]; A]> for TensorData
{
    fn from(v: [[[[E; D]; C]; B]; A]) -> Self {
        TensorData::new(
            v.into_iter().flatten().flatten().flatten().collect(),
            [A, B, C, D],
        )
    }
}
impl<
    E: Element,
    const A: usize,
    const B: usize,
    const C: usize,
    const D: usize,
    const F: usize,
> From<[[[[[E; F]; D]; C]; B]; A]> for TensorData
{
    fn from(v: [[[[[E; F]; D]; C]; B]; A]) -> Self {
        TensorData::new(
            v.into_iter()
                .flatten()
                .flatten()
                .flatten()
                .flatten()
                .collect(),
            [A, B, C, D, F],
        )
    }
}
impl<E: Element> From<&[E]> for TensorData {
    fn from(v: &[E]) -> Self {
        TensorData::new(v.to_vec(), [v.len()])
    }
}
impl<const A: usize> From<[usize; A]> for TensorData {
    fn from(v: [usize; A]) -> Self {
        TensorData::new(v.iter().map(|x| *x as i64).collect(), [A])
    }
}
impl<const A: usize> From<&[usize; A]> for TensorData {
    fn from(v: &[usize; A]) -> Self {
        TensorData::new(v.iter().map(|x| *x as i64).collect(), [A])
    }
}
impl core::fmt::Display for TensorData {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self.vals())
    }
}
