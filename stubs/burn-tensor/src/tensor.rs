//! The typed tensor API that generated code is written against.
use crate::data::TensorData;
use crate::dtype::*;
use crate::dy::*;
use core::marker::PhantomData;

// ---------------------------------------------------------------- backend
pub trait Backend: Clone + Default + core::fmt::Debug + Send + Sync + 'static {
    type Device: Clone + Default + core::fmt::Debug + PartialEq + Send + Sync;
    type FloatElem: Element;
    type IntElem: Element;
    type BoolElem: Element;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Float;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Int;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Bool;

pub trait TensorKind<B: Backend>: Clone + Copy + core::fmt::Debug + Send + Sync + 'static {
    type Elem: Element;
    fn default_dtype() -> DType;
    fn admits(d: DType) -> bool;
    const NAME: &'static str;
}
impl<B: Backend> TensorKind<B> for Float {
    type Elem = B::FloatElem;
    fn default_dtype() -> DType { B::FloatElem::dtype() }
    fn admits(d: DType) -> bool { d.is_float() }
    const NAME: &'static str = "Float";
}
impl<B: Backend> TensorKind<B> for Int {
    type Elem = B::IntElem;
    fn default_dtype() -> DType { B::IntElem::dtype() }
    fn admits(d: DType) -> bool { d.is_int() || d.is_uint() }
    const NAME: &'static str = "Int";
}
impl<B: Backend> TensorKind<B> for Bool {
    type Elem = B::BoolElem;
    fn default_dtype() -> DType { DType::Bool }
    fn admits(d: DType) -> bool { d.is_bool() }
    const NAME: &'static str = "Bool";
}
pub trait BasicOps<B: Backend>: TensorKind<B> {}
pub trait Numeric<B: Backend>: BasicOps<B> {}
pub trait Ordered<B: Backend>: Numeric<B> {}
impl<B: Backend> BasicOps<B> for Float {}
impl<B: Backend> BasicOps<B> for Int {}
impl<B: Backend> BasicOps<B> for Bool {}
impl<B: Backend> Numeric<B> for Float {}
impl<B: Backend> Numeric<B> for Int {}
impl<B: Backend> Ordered<B> for Float {}
impl<B: Backend> Ordered<B> for Int {}

// ---------------------------------------------------------------- shape, indices, slices
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Shape { pub dims: Vec<usize> }
impl Shape {
    pub fn new<const D: usize>(d: [usize; D]) -> Shape { Shape { dims: d.to_vec() } }
    pub fn num_elements(&self) -> usize { numel(&self.dims) }
    pub fn num_dims(&self) -> usize { self.dims.len() }
    pub fn rank(&self) -> usize { self.dims.len() }
    pub fn dims<const D: usize>(&self) -> [usize; D] { self.dims.clone().try_into().expect("rank") }
    pub fn as_slice(&self) -> &[usize] { &self.dims }
    pub fn to_vec(&self) -> Vec<usize> { self.dims.clone() }
    pub fn iter(&self) -> core::slice::Iter<'_, usize> { self.dims.iter() }
    pub fn len(&self) -> usize { self.dims.len() }
}
impl core::ops::Deref for Shape { type Target = [usize]; fn deref(&self) -> &[usize] { &self.dims } }
impl<const D: usize> From<[usize; D]> for Shape { fn from(d: [usize; D]) -> Shape { Shape { dims: d.to_vec() } } }
impl<const D: usize> From<[i64; D]> for Shape { fn from(d: [i64; D]) -> Shape { Shape { dims: d.iter().map(|x| usize::try_from(*x).expect("negative dimension")).collect() } } }
impl<const D: usize> From<[i32; D]> for Shape { fn from(d: [i32; D]) -> Shape { Shape { dims: d.iter().map(|x| usize::try_from(*x).expect("negative dimension")).collect() } } }
impl From<Vec<usize>> for Shape { fn from(d: Vec<usize>) -> Shape { Shape { dims: d } } }
impl From<&[usize]> for Shape { fn from(d: &[usize]) -> Shape { Shape { dims: d.to_vec() } } }
impl From<Shape> for Vec<usize> { fn from(s: Shape) -> Vec<usize> { s.dims } }

pub trait AsIndex: Copy + core::fmt::Debug { fn ix(self) -> isize; }
macro_rules! as_index { ($($t:ty),*) => { $(impl AsIndex for $t { fn ix(self) -> isize { self as isize } } impl From<$t> for Slice { fn from(i: $t) -> Slice { let i = i as isize; Slice { start: i, end: if i == -1 { None } else { Some(i + 1) }, step: 1 } } })* } }
as_index!(i64, i32, i16, i8, isize, usize, u64, u32, u16, u8);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Slice { pub start: isize, pub end: Option<isize>, pub step: isize }
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice { assert!(step != 0, "slice step must be non-zero"); Slice { start, end, step } }
    pub fn full() -> Slice { Slice { start: 0, end: None, step: 1 } }
    pub fn from_range_stepped<R: Into<Slice>>(r: R, step: isize) -> Slice { assert!(step != 0, "slice step must be non-zero"); let s: Slice = r.into(); Slice { step, ..s } }
    /// Positions taken from an axis of the given size.
    pub fn positions(&self, size: usize) -> Vec<usize> {
        let c = |i: isize| if i < 0 { (i + size as isize).max(0) as usize } else { (i as usize).min(size) };
        let (a, b) = (c(self.start), self.end.map(c).unwrap_or(size));
        let n = b.saturating_sub(a);
        let k = self.step.unsigned_abs();
        if self.step > 0 { (a..b.max(a)).step_by(k).collect() } else { (0..n.div_ceil(k)).map(|j| b - 1 - j * k).collect() }
    }
}
impl<I: AsIndex> From<core::ops::Range<I>> for Slice { fn from(r: core::ops::Range<I>) -> Slice { Slice { start: r.start.ix(), end: Some(r.end.ix()), step: 1 } } }
impl<I: AsIndex> From<core::ops::RangeInclusive<I>> for Slice { fn from(r: core::ops::RangeInclusive<I>) -> Slice { let e = r.end().ix(); Slice { start: r.start().ix(), end: if e == -1 { None } else { Some(e + 1) }, step: 1 } } }
impl<I: AsIndex> From<core::ops::RangeFrom<I>> for Slice { fn from(r: core::ops::RangeFrom<I>) -> Slice { Slice { start: r.start.ix(), end: None, step: 1 } } }
impl<I: AsIndex> From<core::ops::RangeTo<I>> for Slice { fn from(r: core::ops::RangeTo<I>) -> Slice { Slice { start: 0, end: Some(r.end.ix()), step: 1 } } }
impl<I: AsIndex> From<core::ops::RangeToInclusive<I>> for Slice { fn from(r: core::ops::RangeToInclusive<I>) -> Slice { let e = r.end.ix(); Slice { start: 0, end: if e == -1 { None } else { Some(e + 1) }, step: 1 } } }
impl From<core::ops::RangeFull> for Slice { fn from(_: core::ops::RangeFull) -> Slice { Slice::full() } }

pub trait SliceArg { fn slices(self) -> Vec<Slice>; }
impl<S: Into<Slice>, const R: usize> SliceArg for [S; R] { fn slices(self) -> Vec<Slice> { self.into_iter().map(|s| s.into()).collect() } }
impl SliceArg for Slice { fn slices(self) -> Vec<Slice> { vec![self] } }
impl SliceArg for Vec<Slice> { fn slices(self) -> Vec<Slice> { self } }
impl SliceArg for &[Slice] { fn slices(self) -> Vec<Slice> { self.to_vec() } }
impl<I: AsIndex> SliceArg for core::ops::Range<I> { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
impl<I: AsIndex> SliceArg for core::ops::RangeFrom<I> { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
impl<I: AsIndex> SliceArg for core::ops::RangeTo<I> { fn slices(self) -> Vec<Slice> { vec![self.into()] } }
impl SliceArg for core::ops::RangeFull { fn slices(self) -> Vec<Slice> { vec![self.into()] } }

#[macro_export]
macro_rules! s {
    [] => { compile_error!("Empty slice specification") };
    [$range:expr; $step:expr] => { $crate::Slice::from_range_stepped($range, $step) };
    [$range:expr] => { $crate::Slice::from($range) };
    [$range:expr; $step:expr, $($rest:tt)*] => { $crate::s!(@acc [$crate::Slice::from_range_stepped($range, $step)] $($rest)*) };
    [$range:expr, $($rest:tt)*] => { $crate::s!(@acc [$crate::Slice::from($range)] $($rest)*) };
    (@acc [$($acc:expr),*]) => { [$($acc),*] };
    (@acc [$($acc:expr),*] $range:expr; $step:expr) => { $crate::s!(@acc [$($acc,)* $crate::Slice::from_range_stepped($range, $step)]) };
    (@acc [$($acc:expr),*] $range:expr; $step:expr, $($rest:tt)*) => { $crate::s!(@acc [$($acc,)* $crate::Slice::from_range_stepped($range, $step)] $($rest)*) };
    (@acc [$($acc:expr),*] $range:expr) => { $crate::s!(@acc [$($acc,)* $crate::Slice::from($range)]) };
    (@acc [$($acc:expr),*] $range:expr, $($rest:tt)*) => { $crate::s!(@acc [$($acc,)* $crate::Slice::from($range)] $($rest)*) };
}

pub trait ReshapeArgs<const D2: usize> { fn target(self, from: &[usize]) -> Vec<usize>; }
impl<I: AsIndex, const D2: usize> ReshapeArgs<D2> for [I; D2] {
    fn target(self, from: &[usize]) -> Vec<usize> {
        let mut out = vec![];
        let mut hole = None;
        for (k, d) in self.iter().enumerate() {
            match d.ix() { -1 => { assert!(hole.is_none(), "reshape: more than one -1"); hole = Some(k); out.push(1) } 0 if from.len() > k && numel(from) != 0 => out.push(from[k]), 0 if numel(from) == 0 => out.push(0), x if x > 0 => out.push(x as usize), x => panic!("reshape: bad dimension {x}") }
        }
        if let Some(k) = hole { let rest: usize = numel(&out); assert!(rest > 0 && numel(from) % rest == 0, "reshape: cannot infer a dimension"); out[k] = numel(from) / rest; }
        assert_eq!(numel(&out), numel(from), "reshape: {from:?} has a different number of elements than {out:?}");
        out
    }
}
impl<const D2: usize> ReshapeArgs<D2> for Shape { fn target(self, from: &[usize]) -> Vec<usize> { assert_eq!(self.dims.len(), D2); assert_eq!(numel(&self.dims), numel(from), "reshape: {from:?} to {:?}", self.dims); self.dims } }
impl<const D2: usize> ReshapeArgs<D2> for Vec<usize> { fn target(self, from: &[usize]) -> Vec<usize> { assert_eq!(self.len(), D2); assert_eq!(numel(&self), numel(from)); self } }

pub trait BroadcastArgs<const D1: usize, const D2: usize> { fn target(self, from: &[usize]) -> Vec<usize>; }
impl<I: AsIndex, const D1: usize, const D2: usize> BroadcastArgs<D1, D2> for [I; D2] {
    fn target(self, from: &[usize]) -> Vec<usize> {
        assert!(D2 >= D1, "expand: fewer dimensions");
        self.iter().enumerate().map(|(k, d)| match d.ix() { -1 => { assert!(k >= D2 - D1, "expand: -1 for a new dimension"); from[k - (D2 - D1)] } x if x >= 0 => x as usize, x => panic!("expand: bad dimension {x}") }).collect()
    }
}
impl<const D1: usize, const D2: usize> BroadcastArgs<D1, D2> for Shape { fn target(self, _: &[usize]) -> Vec<usize> { assert_eq!(self.dims.len(), D2); self.dims } }


#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Distribution { Default, Bernoulli(f64), Uniform(f64, f64), Normal(f64, f64) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IndexingUpdateOp { Assign, Add, Mul, Min, Max }

// ---------------------------------------------------------------- tensor
pub struct Tensor<B: Backend, const D: usize, K: TensorKind<B> = Float> { pub dy: Dy, pub(crate) p: PhantomData<(B, K)> }
impl<B: Backend, const D: usize, K: TensorKind<B>> Clone for Tensor<B, D, K> { fn clone(&self) -> Self { Tensor { dy: self.dy.clone(), p: PhantomData } } }
impl<B: Backend, const D: usize, K: TensorKind<B>> core::fmt::Debug for Tensor<B, D, K> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "Tensor<{D}, {}>{:?}", K::NAME, self.dy) } }

/// The dimensions of a tensor as an array of any integer type.
pub trait DimsArray: Sized { fn arr(d: &[usize]) -> Self; }
pub fn bin_check(a: &Dy, b: &Dy) {
    assert!(a.dtype.is_float() == b.dtype.is_float() && a.dtype.is_bool() == b.dtype.is_bool(), "operands of type {:?} and {:?}", a.dtype, b.dtype);
}
fn dim_ok<const D: usize>(d: usize) -> usize { assert!(d < D, "dimension {d} out of range for rank {D}"); d }
fn neg_dim<const D: usize>(d: isize) -> usize { let d = if d < 0 { d + D as isize } else { d }; assert!(d >= 0 && (d as usize) < D, "dimension {d} out of range for rank {D}"); d as usize }

pub(crate) fn mk<B: Backend, const D: usize, K: TensorKind<B>>(dy: Dy) -> Tensor<B, D, K> {
    assert_eq!(dy.rank(), D, "a tensor of shape {:?} where rank {D} is expected", dy.shape);
    assert!(K::admits(dy.dtype), "a {:?} tensor where {} is expected", dy.dtype, K::NAME);
    Tensor { dy, p: PhantomData }
}

impl<B: Backend, const D: usize, K: BasicOps<B>> Tensor<B, D, K> {
    pub fn from_dy(dy: Dy) -> Self { mk(dy) }
    pub fn from_data<T: Into<TensorData>>(d: T, _device: &B::Device) -> Self { let d = d.into(); let dy = Dy::from_data(&d).cast(K::default_dtype()); mk(dy) }
    pub fn from_data_dtype<T: Into<TensorData>>(d: T, _device: &B::Device, dtype: DType) -> Self { let d = d.into(); assert!(K::admits(dtype), "from_data_dtype({dtype:?}) for a {} tensor", K::NAME); mk(Dy::from_data(&d).cast(dtype)) }
    pub fn empty<S: Into<Shape>>(s: S, d: &B::Device) -> Self where Self: Sized { let s: Shape = s.into(); let _ = d; mk(Dy::from_vals(&vec![Val::I(0); s.num_elements()], s.dims, K::default_dtype())) }
    pub fn dims(&self) -> [usize; D] { self.dy.shape.clone().try_into().unwrap() }
    pub fn shape(&self) -> Shape { Shape { dims: self.dy.shape.clone() } }
    pub fn dtype(&self) -> DType { self.dy.dtype }
    pub fn device(&self) -> B::Device { B::Device::default() }
    pub fn to_device(self, _d: &B::Device) -> Self { self }
    pub fn to_data(&self) -> TensorData { self.dy.to_data() }
    pub fn into_data(self) -> TensorData { self.dy.to_data() }
    pub fn into_scalar(self) -> K::Elem { assert_eq!(self.dy.numel(), 1, "into_scalar on a tensor of shape {:?}", self.dy.shape); K::Elem::from_val(self.dy.vals()[0]) }
    pub fn reshape<const D2: usize, S: ReshapeArgs<D2>>(self, s: S) -> Tensor<B, D2, K> { let t = s.target(&self.dy.shape); mk(self.dy.reshape(t)) }
    pub fn transpose(self) -> Self { assert!(D >= 2, "transpose of a tensor of rank {D}"); self.swap_dims(D - 2, D - 1) }
    pub fn swap_dims(self, a: usize, b: usize) -> Self { let mut ax: Vec<usize> = (0..D).collect(); ax.swap(dim_ok::<D>(a), dim_ok::<D>(b)); mk(self.dy.permute(&ax)) }
    pub fn permute<I: AsIndex>(self, axes: [I; D]) -> Self { let ax: Vec<usize> = axes.iter().map(|a| neg_dim::<D>(a.ix())).collect(); let mut s = ax.clone(); s.sort(); s.dedup(); assert_eq!(s.len(), D, "permute: repeated axis in {ax:?}"); mk(self.dy.permute(&ax)) }
    pub fn flip<const N: usize, I: AsIndex>(self, axes: [I; N]) -> Self { let mut sel: Vec<Vec<usize>> = self.dy.shape.iter().map(|n| (0..*n).collect()).collect(); for a in axes { sel[neg_dim::<D>(a.ix())].reverse(); } mk(self.dy.select_all(&sel)) }
    pub fn flatten<const D2: usize>(self, start: isize, end: isize) -> Tensor<B, D2, K> { let (a, b) = (neg_dim::<D>(start), neg_dim::<D>(end)); assert!(a <= b); let mut s = self.dy.shape[..a].to_vec(); s.push(self.dy.shape[a..=b].iter().product()); s.extend(&self.dy.shape[b + 1..]); mk(self.dy.reshape(s)) }
    pub fn squeeze<const D2: usize>(self) -> Tensor<B, D2, K> { let mut s: Vec<usize> = self.dy.shape.iter().copied().filter(|d| *d != 1).collect(); if s.is_empty() && D2 == 1 { s = vec![1]; } assert_eq!(s.len(), D2, "squeeze of {:?} to rank {D2}", self.dy.shape); mk(self.dy.reshape(s)) }
    pub fn squeeze_dim<const D2: usize>(self, dim: usize) -> Tensor<B, D2, K> { dim_ok::<D>(dim); assert_eq!(self.dy.shape[dim], 1, "squeeze_dim({dim}) of {:?}", self.dy.shape); let mut s = self.dy.shape.clone(); s.remove(dim); mk(self.dy.reshape(s)) }
    pub fn squeeze_dims<const D2: usize>(self, dims: &[isize]) -> Tensor<B, D2, K> { let ds: Vec<usize> = dims.iter().map(|d| neg_dim::<D>(*d)).collect(); for d in &ds { assert_eq!(self.dy.shape[*d], 1, "squeeze_dims({dims:?}) of {:?}", self.dy.shape); } let s: Vec<usize> = self.dy.shape.iter().enumerate().filter(|(k, _)| !ds.contains(k)).map(|(_, d)| *d).collect(); mk(self.dy.reshape(s)) }
    pub fn unsqueeze<const D2: usize>(self) -> Tensor<B, D2, K> { assert!(D2 >= D, "unsqueeze to a smaller rank"); let mut s = vec![1; D2 - D]; s.extend(&self.dy.shape); mk(self.dy.reshape(s)) }
    pub fn unsqueeze_dim<const D2: usize>(self, dim: usize) -> Tensor<B, D2, K> { assert!(dim <= D); let mut s = self.dy.shape.clone(); s.insert(dim, 1); mk(self.dy.reshape(s)) }
    pub fn unsqueeze_dims<const D2: usize>(self, axes: &[impl AsIndex]) -> Tensor<B, D2, K> {
        // as in Burn: negative axes count from the end of the result; the axes are positions in the result
        // Follows the documented behaviour of burn: repeated axes insert further unit dimensions.
        let mut neg = D2 as isize;
        let mut ax: Vec<usize> = axes.iter().map(|a| { let a = a.ix(); assert!(a >= -(D2 as isize) && a < D2 as isize, "unsqueeze_dims: axis {a} for rank {D2}"); (if a < 0 { neg -= 1; a + neg + 1 } else { a }) as usize }).collect();
        ax.sort();
        assert!(ax.len() + D == D2, "unsqueeze_dims({ax:?}) of {:?} to rank {D2}", self.dy.shape);
        let mut taken = vec![false; D2];
        for a in ax { let mut a = a; while taken[a] { a += 1; } taken[a] = true; }
        let mut it = self.dy.shape.iter();
        let s: Vec<usize> = taken.iter().map(|t| if *t { 1 } else { *it.next().expect("unsqueeze_dims: too few dimensions") }).collect();
        mk(self.dy.reshape(s))
    }
    pub fn expand<const D2: usize, S: BroadcastArgs<D, D2>>(self, s: S) -> Tensor<B, D2, K> { let t = s.target(&self.dy.shape); let mut own = vec![1; D2 - D]; own.extend(&self.dy.shape); mk(self.dy.reshape(own).expand(&t)) }
    fn sel(&self, sl: Vec<Slice>) -> Vec<Vec<usize>> { assert!(sl.len() <= D, "{} slices for a tensor of rank {D}", sl.len()); self.dy.shape.iter().enumerate().map(|(k, n)| sl.get(k).map(|s| s.positions(*n)).unwrap_or_else(|| (0..*n).collect())).collect() }
    pub fn slice<S: SliceArg>(self, s: S) -> Self { let sel = self.sel(s.slices()); mk(self.dy.select_all(&sel)) }
    pub fn slice_assign<S: SliceArg>(self, s: S, v: Self) -> Self { let sel = self.sel(s.slices()); let want: Vec<usize> = sel.iter().map(|x| x.len()).collect(); assert_eq!(want, v.dy.shape, "slice_assign: a value of shape {:?} for {want:?}", v.dy.shape); mk(self.dy.assign_all(&sel, &v.dy)) }
    pub fn slice_dim<S: Into<Slice>>(self, dim: usize, s: S) -> Self { dim_ok::<D>(dim); let mut v = vec![Slice::full(); D]; v[dim] = s.into(); self.slice(v) }
    pub fn narrow(self, dim: usize, start: usize, len: usize) -> Self { dim_ok::<D>(dim); assert!(len > 0 && start + len <= self.dy.shape[dim], "narrow({dim}, {start}, {len}) of {:?}", self.dy.shape); self.slice_dim(dim, start..start + len) }
    pub fn select(self, dim: usize, ix: Tensor<B, 1, Int>) -> Self { dim_ok::<D>(dim); let n = self.dy.shape[dim]; let v: Vec<usize> = ix.dy.iv().iter().map(|i| { let i = if *i < 0 { *i + n as i64 } else { *i }; assert!(i >= 0 && (i as usize) < n, "select: index {i} out of range for size {n}"); i as usize }).collect(); mk(self.dy.select(dim, &v)) }
    pub fn take<const DI: usize, const DO: usize>(self, dim: usize, ix: Tensor<B, DI, Int>) -> Tensor<B, DO, K> {
        dim_ok::<D>(dim); assert_eq!(DO, D + DI - 1, "take: output rank");
        let flat = self.dy.shape.clone(); let mut to = flat[..dim].to_vec(); to.extend(&ix.dy.shape); to.extend(&flat[dim + 1..]);
        let n = ix.dy.numel(); let r: Tensor<B, D, K> = self.select(dim, mk(ix.dy.reshape(vec![n])));
        mk(r.dy.reshape(to))
    }
    pub fn gather(self, dim: usize, ix: Tensor<B, D, Int>) -> Self { dim_ok::<D>(dim); mk(self.dy.gather(dim, &ix.dy)) }
    pub fn scatter(self, dim: usize, ix: Tensor<B, D, Int>, v: Self, op: IndexingUpdateOp) -> Self { dim_ok::<D>(dim); assert_eq!(ix.dy.shape, v.dy.shape, "scatter: indices and values differ in shape"); mk(self.dy.scatter(dim, &ix.dy, &v.dy, &|a, b| match (op, a, b) { (IndexingUpdateOp::Assign, _, b) => b, (IndexingUpdateOp::Add, Val::F(x), Val::F(y)) => Val::F(x + y), (IndexingUpdateOp::Add, Val::I(x), Val::I(y)) => Val::I(x.wrapping_add(y)), (IndexingUpdateOp::Add, Val::B(x), Val::B(y)) => Val::B(x | y), (IndexingUpdateOp::Mul, Val::F(x), Val::F(y)) => Val::F(x * y), (IndexingUpdateOp::Mul, Val::I(x), Val::I(y)) => Val::I(x.wrapping_mul(y)), (IndexingUpdateOp::Min, Val::F(x), Val::F(y)) => Val::F(x.min(y)), (IndexingUpdateOp::Min, Val::I(x), Val::I(y)) => Val::I(x.min(y)), (IndexingUpdateOp::Max, Val::F(x), Val::F(y)) => Val::F(x.max(y)), (IndexingUpdateOp::Max, Val::I(x), Val::I(y)) => Val::I(x.max(y)), _ => panic!("scatter") })) }
    pub fn cat(ts: Vec<Self>, dim: usize) -> Self { dim_ok::<D>(dim); let v: Vec<Dy> = ts.into_iter().map(|t| t.dy).collect(); assert!(!v.is_empty(), "cat of no tensors"); for t in &v { assert!(t.shape.iter().zip(&v[0].shape).enumerate().all(|(k, (a, b))| k == dim || a == b), "cat along {dim}: {:?} and {:?}", v[0].shape, t.shape); } mk(Dy::cat(&v, dim)) }
    pub fn stack<const D2: usize>(ts: Vec<Self>, dim: usize) -> Tensor<B, D2, K> { assert_eq!(D2, D + 1); Tensor::cat(ts.into_iter().map(|t| t.unsqueeze_dim::<D2>(dim)).collect(), dim) }
    pub fn repeat_dim(self, dim: usize, n: usize) -> Self { mk(self.dy.repeat_dim(dim_ok::<D>(dim), n)) }
    pub fn repeat(self, n: &[usize]) -> Self { assert!(n.len() <= D, "repeat: {} counts for rank {D}", n.len()); let mut d = self.dy; for (k, c) in n.iter().enumerate() { d = d.repeat_dim(k, *c); } mk(d) }
    pub fn split(self, size: usize, dim: usize) -> Vec<Self> { let n = self.dy.shape[dim_ok::<D>(dim)]; assert!(size > 0, "split into chunks of 0"); (0..n).step_by(size).map(|a| self.clone().slice_dim(dim, a..(a + size).min(n))).collect() }
    pub fn split_with_sizes(self, sizes: Vec<usize>, dim: usize) -> Vec<Self> { let n = self.dy.shape[dim_ok::<D>(dim)]; assert_eq!(sizes.iter().sum::<usize>(), n, "split_with_sizes({sizes:?}) of size {n}"); let mut a = 0; sizes.into_iter().map(|s| { a += s; self.clone().slice_dim(dim, a - s..a) }).collect() }
    pub fn chunk(self, k: usize, dim: usize) -> Vec<Self> { let n = self.dy.shape[dim_ok::<D>(dim)]; self.split(n.div_ceil(k), dim) }
    pub fn iter_dim(self, dim: usize) -> std::vec::IntoIter<Self> { self.split(1, dim).into_iter() }
    pub fn equal(self, o: Self) -> Tensor<B, D, Bool> { bin_check(&self.dy, &o.dy); mk(self.dy.zip_b(&o.dy, veq)) }
    pub fn not_equal(self, o: Self) -> Tensor<B, D, Bool> { bin_check(&self.dy, &o.dy); mk(self.dy.zip_b(&o.dy, |a, b| !veq(a, b))) }
    pub fn equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> { let v = self.fit(o.val()); mk(self.dy.map_b(|a| veq(a, v))) }
    pub fn not_equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> { let v = self.fit(o.val()); mk(self.dy.map_b(|a| !veq(a, v))) }
    /// A scalar converted to this tensor's element type.
    pub(crate) fn fit(&self, v: Val) -> Val { Dy::from_vals(&[v], vec![1], self.dy.dtype).vals()[0] }
    pub fn mask_where(self, m: Tensor<B, D, Bool>, v: Self) -> Self { bin_check(&self.dy, &v.dy); let s: Vec<usize> = (0..D).map(|k| { let ds = [self.dy.shape[k], m.dy.shape[k], v.dy.shape[k]]; let t = *ds.iter().find(|d| **d != 1).unwrap_or(&1); assert!(ds.iter().all(|d| *d == 1 || *d == t), "mask_where: shapes {:?} {:?} {:?}", self.dy.shape, m.dy.shape, v.dy.shape); t }).collect(); let (a, m, v) = (self.dy.expand(&s).vals(), m.dy.expand(&s), v.dy.expand(&s).vals()); mk(Dy::from_vals(&a.into_iter().zip(v).zip(m.bv()).map(|((a, v), m)| if *m { v } else { a }).collect::<Vec<_>>(), s, self.dy.dtype)) }
    pub fn mask_fill<E: Element>(self, m: Tensor<B, D, Bool>, v: E) -> Self { let (a, b) = Dy::broadcast(&self.dy, &m.dy); let v = self.fit(v.val()); mk(Dy::from_vals(&a.vals().into_iter().zip(b.bv()).map(|(a, m)| if *m { v } else { a }).collect::<Vec<_>>(), a.shape.clone(), self.dy.dtype)) }
    pub fn full<S: Into<Shape>, E: Element>(s: S, v: E, _d: &B::Device) -> Self { let s: Shape = s.into(); mk(Dy::from_vals(&vec![v.val(); s.num_elements()], s.dims, K::default_dtype())) }
    pub fn full_like<E: Element>(&self, v: E) -> Self { mk(Dy::from_vals(&vec![v.val(); self.dy.numel()], self.dy.shape.clone(), self.dy.dtype)) }
    pub fn zeros<S: Into<Shape>>(s: S, d: &B::Device) -> Self { Self::full(s, 0i64, d) }
    pub fn ones<S: Into<Shape>>(s: S, d: &B::Device) -> Self { Self::full(s, 1i64, d) }
    pub fn zeros_like(&self) -> Self { self.full_like(0i64) }
    pub fn ones_like(&self) -> Self { self.full_like(1i64) }
    pub fn tril(self, k: i64) -> Self { self.tri(|r, c| c - r <= k) }
    pub fn triu(self, k: i64) -> Self { self.tri(|r, c| c - r >= k) }
    fn tri(self, keep: impl Fn(i64, i64) -> bool) -> Self { assert!(D >= 2, "triangle of a tensor of rank {D}"); let z = self.fit(Val::I(0)); let v = self.dy.vals(); let out: Vec<Val> = indices(&self.dy.shape).iter().zip(v).map(|(m, v)| if keep(m[D - 2] as i64, m[D - 1] as i64) { v } else { z }).collect(); mk(Dy::from_vals(&out, self.dy.shape.clone(), self.dy.dtype)) }
    pub fn any(self) -> Tensor<B, 1, Bool> { let v = self.dy.vals().iter().any(|x| x.b()); mk(Dy::b(vec![1], vec![v])) }
    pub fn all(self) -> Tensor<B, 1, Bool> { let v = self.dy.vals().iter().all(|x| x.b()); mk(Dy::b(vec![1], vec![v])) }
    pub fn any_dim(self, d: usize) -> Tensor<B, D, Bool> { mk(self.dy.reduce(dim_ok::<D>(d), DType::Bool, |f| Val::B(f.iter().any(|x| x.b())))) }
    pub fn all_dim(self, d: usize) -> Tensor<B, D, Bool> { mk(self.dy.reduce(dim_ok::<D>(d), DType::Bool, |f| Val::B(f.iter().all(|x| x.b())))) }
}
pub(crate) fn veq(a: Val, b: Val) -> bool { match (a, b) { (Val::F(x), Val::F(y)) => x == y, (Val::I(x), Val::I(y)) => x == y, (Val::B(x), Val::B(y)) => x == y, (Val::F(x), y) => x == y.f(), (x, Val::F(y)) => x.f() == y, (x, y) => x.i() == y.i() } }
fn vcmp(d: DType, a: Val, b: Val) -> Option<core::cmp::Ordering> { match (a, b) { (Val::F(x), Val::F(y)) => x.partial_cmp(&y), (x, y) => Some(if d == DType::U64 { (x.i() as u64).cmp(&(y.i() as u64)) } else { x.i().cmp(&y.i()) }) } }

#[derive(Clone, Debug)]
pub enum PadMode { Constant(f32), Reflect, Edge }
impl Default for PadMode { fn default() -> Self { PadMode::Constant(0.0) } }
impl<E: Element> From<E> for PadMode { fn from(v: E) -> Self { PadMode::Constant(v.val().f() as f32) } }
pub trait PadArg { fn pads(self, d: usize) -> Vec<(usize, usize)>; }
impl PadArg for (usize, usize, usize, usize) { fn pads(self, d: usize) -> Vec<(usize, usize)> { assert!(d >= 2); let mut v = vec![(0, 0); d]; v[d - 1] = (self.0, self.1); v[d - 2] = (self.2, self.3); v } }
impl<const N: usize> PadArg for [(usize, usize); N] { fn pads(self, d: usize) -> Vec<(usize, usize)> { assert!(N <= d, "pad: {N} pairs for rank {d}"); let mut v = vec![(0, 0); d - N]; v.extend(self); v } }
impl PadArg for Vec<(usize, usize)> { fn pads(self, d: usize) -> Vec<(usize, usize)> { assert!(self.len() <= d); let mut v = vec![(0, 0); d - self.len()]; v.extend(self); v } }
impl PadArg for &[(usize, usize)] { fn pads(self, d: usize) -> Vec<(usize, usize)> { self.to_vec().pads(d) } }

fn fmod(a: f64, b: f64) -> f64 { a % b }
fn rem_f(a: f64, b: f64) -> f64 { if b.is_infinite() && a.is_finite() { return if a == 0.0 || (a < 0.0) == (b < 0.0) { a } else { b }; } a - (a / b).floor() * b }
fn rem_i(a: i64, b: i64) -> i64 { let r = a.wrapping_rem(b); if r != 0 && (r < 0) != (b < 0) { r + b } else { r } }
impl<B: Backend, const D: usize, K: Numeric<B>> Tensor<B, D, K> {
    fn z(self, o: Self, ff: impl Fn(f64, f64) -> f64, fi: impl Fn(i64, i64) -> i64) -> Self { bin_check(&self.dy, &o.dy); mk(self.dy.zip_n(&o.dy, ff, fi)) }
    fn s<E: Element>(self, o: E, ff: impl Fn(f64, f64) -> f64, fi: impl Fn(i64, i64) -> i64) -> Self { mk(self.dy.scalar_n(o.val(), ff, fi)) }
    fn un(&self) -> bool { self.dy.dtype == DType::U64 }
    pub fn add(self, o: Self) -> Self { self.z(o, |a, b| a + b, |a, b| a.wrapping_add(b)) }
    pub fn sub(self, o: Self) -> Self { self.z(o, |a, b| a - b, |a, b| a.wrapping_sub(b)) }
    pub fn mul(self, o: Self) -> Self { self.z(o, |a, b| a * b, |a, b| a.wrapping_mul(b)) }
    pub fn div(self, o: Self) -> Self { let u = self.un(); self.z(o, |a, b| a / b, move |a, b| if u { (a as u64 / b as u64) as i64 } else { a.wrapping_div(b) }) }
    pub fn remainder(self, o: Self) -> Self { let u = self.un(); self.z(o, rem_f, move |a, b| if u { (a as u64 % b as u64) as i64 } else { rem_i(a, b) }) }
    pub fn add_scalar<E: Element>(self, o: E) -> Self { self.s(o, |a, b| a + b, |a, b| a.wrapping_add(b)) }
    pub fn sub_scalar<E: Element>(self, o: E) -> Self { self.s(o, |a, b| a - b, |a, b| a.wrapping_sub(b)) }
    pub fn mul_scalar<E: Element>(self, o: E) -> Self { self.s(o, |a, b| a * b, |a, b| a.wrapping_mul(b)) }
    pub fn div_scalar<E: Element>(self, o: E) -> Self { let u = self.un(); self.s(o, |a, b| a / b, move |a, b| if u { (a as u64 / b as u64) as i64 } else { a.wrapping_div(b) }) }
    pub fn remainder_scalar<E: Element>(self, o: E) -> Self { let u = self.un(); self.s(o, rem_f, move |a, b| if u { (a as u64 % b as u64) as i64 } else { rem_i(a, b) }) }
    pub fn neg(self) -> Self { mk(self.dy.map_n(|x| -x, |x| x.wrapping_neg())) }
    pub fn abs(self) -> Self { let u = self.un(); mk(self.dy.map_n(|x| x.abs(), |x| if u { x } else { x.wrapping_abs() })) }
    pub fn sign(self) -> Self { let u = self.un(); mk(self.dy.map_n(|x| if x == 0.0 { 0.0 } else if x.is_nan() { x } else { x.signum() }, |x| if u { (x != 0) as i64 } else { x.signum() })) }
    pub fn square(self) -> Self { mk(self.dy.map_n(|x| x * x, |x| x.wrapping_mul(x))) }
    pub fn powi<K2: Numeric<B>>(self, o: Tensor<B, D, K2>) -> Self { let o: Self = if self.dy.is_f() == o.dy.is_f() { mk(o.dy) } else if self.dy.is_f() { mk(o.dy.cast(self.dy.dtype)) } else { panic!("powi of an integer tensor by a float tensor") }; self.z(o, |a, b| a.powf(b), ipow) }
    pub fn powi_scalar<E: Element>(self, o: E) -> Self { let k = o.val().i(); mk(self.dy.map_n(|x| x.powi(k as i32), |x| ipow(x, k))) }
    pub fn powf(self, o: Self) -> Self { self.z(o, |a, b| a.powf(b), |a, b| (a as f64).powf(b as f64) as i64) }
    pub fn powf_scalar<E: Element>(self, o: E) -> Self { let k = o.val().f(); mk(self.dy.map_n(|x| x.powf(k), |x| (x as f64).powf(k) as i64)) }
    pub fn sum(self) -> Tensor<B, 1, K> { let f = self.dy.is_f(); mk(Dy::from_vals(&[Dy::sum_vals(&self.dy.vals(), f)], vec![1], self.dy.dtype)) }
    pub fn prod(self) -> Tensor<B, 1, K> { let f = self.dy.is_f(); mk(Dy::from_vals(&[Dy::prod_vals(&self.dy.vals(), f)], vec![1], self.dy.dtype)) }
    pub fn mean(self) -> Tensor<B, 1, K> { let f = self.dy.is_f(); mk(Dy::from_vals(&[Dy::mean_vals(&self.dy.vals(), f)], vec![1], self.dy.dtype)) }
    pub fn sum_dim(self, d: usize) -> Self { let f = self.dy.is_f(); mk(self.dy.reduce(dim_ok::<D>(d), self.dy.dtype, |v| Dy::sum_vals(v, f))) }
    pub fn prod_dim(self, d: usize) -> Self { let f = self.dy.is_f(); mk(self.dy.reduce(dim_ok::<D>(d), self.dy.dtype, |v| Dy::prod_vals(v, f))) }
    pub fn mean_dim(self, d: usize) -> Self { let f = self.dy.is_f(); mk(self.dy.reduce(dim_ok::<D>(d), self.dy.dtype, |v| Dy::mean_vals(v, f))) }
    pub fn cumsum(self, d: usize) -> Self { let f = self.dy.is_f(); let n = self.dy.shape[dim_ok::<D>(d)]; mk(self.dy.scan(d, self.dy.dtype, n, |v| { let mut acc = if f { Val::F(0.0) } else { Val::I(0) }; v.iter().map(|x| { acc = Dy::sum_vals(&[acc, *x], f); acc }).collect() })) }
    fn best(self, d: usize, max: bool) -> (Dy, Dy) { let f = self.dy.is_f(); dim_ok::<D>(d); let dt = self.dy.dtype; let v = self.dy.reduce(d, dt, |v| v[Dy::arg_best(v, max, f)]); let i = self.dy.reduce(d, <Int as TensorKind<B>>::default_dtype(), |v| Val::I(Dy::arg_best(v, max, f) as i64)); (v, i) }
    pub fn argmax(self, d: usize) -> Tensor<B, D, Int> { mk(self.best(d, true).1) }
    pub fn argmin(self, d: usize) -> Tensor<B, D, Int> { mk(self.best(d, false).1) }
    pub fn max_dim(self, d: usize) -> Self { mk(self.best(d, true).0) }
    pub fn min_dim(self, d: usize) -> Self { mk(self.best(d, false).0) }
    pub fn max_dim_with_indices(self, d: usize) -> (Self, Tensor<B, D, Int>) { let (v, i) = self.best(d, true); (mk(v), mk(i)) }
    pub fn min_dim_with_indices(self, d: usize) -> (Self, Tensor<B, D, Int>) { let (v, i) = self.best(d, false); (mk(v), mk(i)) }
    pub fn max(self) -> Tensor<B, 1, K> { let n = self.dy.numel(); Tensor::<B, 1, K>::from_dy(self.dy.reshape(vec![n])).max_dim(0) }
    pub fn min(self) -> Tensor<B, 1, K> { let n = self.dy.numel(); Tensor::<B, 1, K>::from_dy(self.dy.reshape(vec![n])).min_dim(0) }
    pub fn max_abs(self) -> Tensor<B, 1, K> { self.abs().max() }
    pub fn max_pair(self, o: Self) -> Self { let u = self.un(); self.z(o, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) }, move |a, b| if u { (a as u64).max(b as u64) as i64 } else { a.max(b) }) }
    pub fn min_pair(self, o: Self) -> Self { let u = self.un(); self.z(o, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.min(b) }, move |a, b| if u { (a as u64).min(b as u64) as i64 } else { a.min(b) }) }
    pub fn clamp<E: Element, F: Element>(self, lo: E, hi: F) -> Self { self.clamp_min(lo).clamp_max(hi) }
    pub fn clamp_min<E: Element>(self, lo: E) -> Self { let u = self.un(); self.s(lo, |a, b| if a < b { b } else { a }, move |a, b| if u { (a as u64).max(b as u64) as i64 } else { a.max(b) }) }
    pub fn clamp_max<E: Element>(self, hi: E) -> Self { let u = self.un(); self.s(hi, |a, b| if a > b { b } else { a }, move |a, b| if u { (a as u64).min(b as u64) as i64 } else { a.min(b) }) }
    fn c(self, o: Self, f: impl Fn(Option<core::cmp::Ordering>) -> bool) -> Tensor<B, D, Bool> { bin_check(&self.dy, &o.dy); let d = self.dy.dtype; mk(self.dy.zip_b(&o.dy, |a, b| f(vcmp(d, a, b)))) }
    fn ce<E: Element>(self, o: E, f: impl Fn(Option<core::cmp::Ordering>) -> bool) -> Tensor<B, D, Bool> { let d = self.dy.dtype; let v = self.fit(o.val()); mk(self.dy.map_b(|a| f(vcmp(d, a, v)))) }
    pub fn greater(self, o: Self) -> Tensor<B, D, Bool> { self.c(o, |c| c == Some(core::cmp::Ordering::Greater)) }
    pub fn greater_equal(self, o: Self) -> Tensor<B, D, Bool> { self.c(o, |c| matches!(c, Some(core::cmp::Ordering::Greater | core::cmp::Ordering::Equal))) }
    pub fn lower(self, o: Self) -> Tensor<B, D, Bool> { self.c(o, |c| c == Some(core::cmp::Ordering::Less)) }
    pub fn lower_equal(self, o: Self) -> Tensor<B, D, Bool> { self.c(o, |c| matches!(c, Some(core::cmp::Ordering::Less | core::cmp::Ordering::Equal))) }
    pub fn greater_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> { self.ce(o, |c| c == Some(core::cmp::Ordering::Greater)) }
    pub fn greater_equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> { self.ce(o, |c| matches!(c, Some(core::cmp::Ordering::Greater | core::cmp::Ordering::Equal))) }
    pub fn lower_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> { self.ce(o, |c| c == Some(core::cmp::Ordering::Less)) }
    pub fn lower_equal_elem<E: Element>(self, o: E) -> Tensor<B, D, Bool> { self.ce(o, |c| matches!(c, Some(core::cmp::Ordering::Less | core::cmp::Ordering::Equal))) }
    pub fn matmul(self, o: Self) -> Self { bin_check(&self.dy, &o.dy); mk(self.dy.matmul(&o.dy)) }
    fn order(v: &[Val], d: DType, desc: bool) -> Vec<usize> { let mut ix: Vec<usize> = (0..v.len()).collect(); ix.sort_by(|a, b| { let c = vcmp(d, v[*a], v[*b]).unwrap_or(core::cmp::Ordering::Equal); if desc { c.reverse() } else { c } }); ix }
    pub fn sort_with_indices(self, d: usize) -> (Self, Tensor<B, D, Int>) { self.sorted(d, false, usize::MAX) }
    pub fn sort_descending_with_indices(self, d: usize) -> (Self, Tensor<B, D, Int>) { self.sorted(d, true, usize::MAX) }
    pub fn topk_with_indices(self, k: usize, d: usize) -> (Self, Tensor<B, D, Int>) { assert!(k <= self.dy.shape[dim_ok::<D>(d)], "topk({k}) of {:?}", self.dy.shape); self.sorted(d, true, k) }
    fn sorted(self, d: usize, desc: bool, k: usize) -> (Self, Tensor<B, D, Int>) { let n = self.dy.shape[dim_ok::<D>(d)].min(k); let dt = self.dy.dtype; let v = self.dy.scan(d, dt, n, |v| Self::order(v, dt, desc).into_iter().take(n).map(|i| v[i]).collect()); let i = self.dy.scan(d, <Int as TensorKind<B>>::default_dtype(), n, |v| Self::order(v, dt, desc).into_iter().take(n).map(|i| Val::I(i as i64)).collect()); (mk(v), mk(i)) }
    pub fn topk(self, k: usize, d: usize) -> Self { self.topk_with_indices(k, d).0 }
    pub fn pad<P: PadArg, M: Into<PadMode>>(self, p: P, m: M) -> Self {
        let (p, m) = (p.pads(D), m.into());
        let mut d = self.dy;
        match m {
            PadMode::Constant(c) => { let c = c as f64;
                let s: Vec<usize> = d.shape.iter().zip(&p).map(|(n, (a, b))| n + a + b).collect();
                let base = Dy::from_vals(&vec![Val::F(c); numel(&s)], s, d.dtype);
                let sel: Vec<Vec<usize>> = d.shape.iter().zip(&p).map(|(n, (a, _))| (*a..a + n).collect()).collect();
                mk(base.assign_all(&sel, &d))
            }
            m => {
                for (k, (a, b)) in p.iter().enumerate() {
                    let n = d.shape[k] as isize;
                    if *a == 0 && *b == 0 { continue; }
                    let ix: Vec<usize> = (-(*a as isize)..n + *b as isize).map(|i| match m {
                        PadMode::Edge => { assert!(n > 0, "edge padding of an empty dimension"); i.clamp(0, n - 1) as usize }
                        _ => { let i = if i < 0 { -i } else if i >= n { 2 * (n - 1) - i } else { i }; assert!(i >= 0 && i < n, "reflect padding must be smaller than the dimension"); i as usize }
                    }).collect();
                    d = d.select(k, &ix);
                }
                mk(d)
            }
        }
    }
    pub fn one_hot_fill<const D2: usize>(self, classes: usize, on: f32, off: f32, axis: i64) -> Tensor<B, D2, K> {
        assert_eq!(D2, D + 1); let ax = if axis < 0 { axis + D2 as i64 } else { axis }; assert!(ax >= 0 && (ax as usize) < D2, "one_hot_fill axis {axis}"); let ax = ax as usize;
        let v = self.dy.vals(); let mut s = self.dy.shape.clone(); s.insert(ax, classes); let st = strides(&self.dy.shape);
        let out: Vec<Val> = indices(&s).into_iter().map(|mut m| { let c = m.remove(ax); let i = v[m.iter().zip(&st).map(|(a, b)| a * b).sum::<usize>()].i(); let i = if i < 0 { i + classes as i64 } else { i }; Val::F(if i == c as i64 { on } else { off } as f64) }).collect();
        mk(Dy::from_vals(&out, s, self.dy.dtype))
    }
    pub fn is_close(self, o: Self) -> Tensor<B, D, Bool> { mk(self.dy.zip_b(&o.dy, |a, b| (a.f() - b.f()).abs() < 1e-5)) }
    pub fn bool(self) -> Tensor<B, D, Bool> { let v = self.dy.map_b(|x| x.f() != 0.0); mk(v) }
    pub fn random_like(&self, d: Distribution) -> Self { mk(Dy::from_vals(&crate::random::draw(&d, self.dy.numel()), self.dy.shape.clone(), self.dy.dtype)) }
    pub fn random<S: Into<Shape>>(s: S, d: Distribution, _dev: &B::Device) -> Self { let s: Shape = s.into(); mk(Dy::from_vals(&crate::random::draw(&d, s.num_elements()), s.dims, K::default_dtype())) }
}
fn ipow(a: i64, b: i64) -> i64 { if b < 0 { return match a { 1 => 1, -1 => if b % 2 == 0 { 1 } else { -1 }, 0 => panic!("0 to a negative power"), _ => 0 }; } a.wrapping_pow(b as u32) }

pub fn erf(x: f64) -> f64 {
    if x.is_nan() { return x; }
    let a = x.abs();
    let v = if a < 3.0 { let mut s = a; let mut t = a; let mut n = 0.0; while t.abs() > 1e-17 * s.abs().max(1e-300) { n += 1.0; t *= -a * a / n; s += t / (2.0 * n + 1.0); if n > 200.0 { break; } } s * 2.0 / core::f64::consts::PI.sqrt() }
        else if a > 6.0 { 1.0 } else { let mut f = 0.0; for k in (1..=60).rev() { f = k as f64 / 2.0 / (a + f); } 1.0 - (-a * a).exp() / ((a + f) * core::f64::consts::PI.sqrt()) };
    if x < 0.0 { -v } else { v }
}
fn round_even(x: f64) -> f64 { x.round_ties_even() }
impl<B: Backend, const D: usize> Tensor<B, D, Float> {
    pub fn from_floats<A: Into<TensorData>>(a: A, d: &B::Device) -> Self { Self::from_data(a, d) }
    fn m(self, f: impl Fn(f64) -> f64) -> Self { mk(self.dy.map_f(f)) }
    pub fn exp(self) -> Self { self.m(f64::exp) }
    pub fn log(self) -> Self { self.m(f64::ln) }
    pub fn log1p(self) -> Self { self.m(f64::ln_1p) }
    pub fn sqrt(self) -> Self { self.m(f64::sqrt) }
    pub fn recip(self) -> Self { self.m(|x| 1.0 / x) }
    pub fn sin(self) -> Self { self.m(f64::sin) }
    pub fn cos(self) -> Self { self.m(f64::cos) }
    pub fn tan(self) -> Self { self.m(f64::tan) }
    pub fn sinh(self) -> Self { self.m(f64::sinh) }
    pub fn cosh(self) -> Self { self.m(f64::cosh) }
    pub fn tanh(self) -> Self { self.m(f64::tanh) }
    pub fn asin(self) -> Self { self.m(f64::asin) }
    pub fn acos(self) -> Self { self.m(f64::acos) }
    pub fn atan(self) -> Self { self.m(f64::atan) }
    pub fn asinh(self) -> Self { self.m(f64::asinh) }
    pub fn acosh(self) -> Self { self.m(f64::acosh) }
    pub fn atanh(self) -> Self { self.m(f64::atanh) }
    pub fn atan2(self, o: Self) -> Self { mk(self.dy.zip_n(&o.dy, f64::atan2, |a, _| a)) }
    pub fn erf(self) -> Self { self.m(erf) }
    pub fn ceil(self) -> Self { self.m(f64::ceil) }
    pub fn floor(self) -> Self { self.m(f64::floor) }
    pub fn round(self) -> Self { self.m(round_even) }
    pub fn trunc(self) -> Self { self.m(f64::trunc) }
    pub fn fmod(self, o: Self) -> Self { mk(self.dy.zip_n(&o.dy, fmod, |a, _| a)) }
    pub fn fmod_scalar<E: Element>(self, o: E) -> Self { mk(self.dy.scalar_n(o.val(), fmod, |a, _| a)) }
    pub fn is_nan(self) -> Tensor<B, D, Bool> { mk(self.dy.map_b(|x| x.f().is_nan())) }
    pub fn is_inf(self) -> Tensor<B, D, Bool> { mk(self.dy.map_b(|x| x.f().is_infinite())) }
    pub fn is_finite(self) -> Tensor<B, D, Bool> { mk(self.dy.map_b(|x| x.f().is_finite())) }
    pub fn int(self) -> Tensor<B, D, Int> { let d = <Int as TensorKind<B>>::default_dtype(); mk(self.dy.cast(d)) }
    pub fn cast<C: CastTo<B, Float>>(self, c: C) -> Tensor<B, D, C::Kind> { mk(self.dy.cast(c.dtype())) }
    pub fn var(self, d: usize) -> Self { let m = self.clone().mean_dim(d); let n = self.dy.shape[d] as f64; let q = self.sub(m); q.clone().mul(q).sum_dim(d).div_scalar(n - 1.0) }
    pub fn var_bias(self, d: usize) -> Self { let m = self.clone().mean_dim(d); let q = self.sub(m); q.clone().mul(q).mean_dim(d) }
    pub fn grid_sample_2d(self, grid: Tensor<B, D, Float>, o: impl Into<crate::ops::GridSampleOptions>) -> Self { mk(crate::ops::grid_sample(&self.dy, &grid.dy, &o.into())) }
}
/// What `cast` accepts for each kind.
pub trait CastTo<B: Backend, From> { type Kind: BasicOps<B>; fn dtype(&self) -> DType; }
impl<B: Backend> CastTo<B, Float> for DType { type Kind = Float; fn dtype(&self) -> DType { *self } }
impl<B: Backend> CastTo<B, Float> for FloatDType { type Kind = Float; fn dtype(&self) -> DType { (*self).into() } }
impl<B: Backend> CastTo<B, Float> for IntDType { type Kind = Int; fn dtype(&self) -> DType { (*self).into() } }
impl<B: Backend> CastTo<B, Int> for DType { type Kind = Int; fn dtype(&self) -> DType { *self } }
impl<B: Backend> CastTo<B, Int> for IntDType { type Kind = Int; fn dtype(&self) -> DType { (*self).into() } }
impl<B: Backend> CastTo<B, Int> for FloatDType { type Kind = Float; fn dtype(&self) -> DType { (*self).into() } }

impl<B: Backend, const D: usize> Tensor<B, D, Int> {
    pub fn from_ints<A: Into<TensorData>>(a: A, d: &B::Device) -> Self { Self::from_data(a, d) }
    pub fn float(self) -> Tensor<B, D, Float> { let d = <Float as TensorKind<B>>::default_dtype(); mk(self.dy.cast(d)) }
    pub fn cast<C: CastTo<B, Int>>(self, c: C) -> Tensor<B, D, C::Kind> { mk(self.dy.cast(c.dtype())) }
    fn bz(self, o: Self, f: impl Fn(i64, i64) -> i64) -> Self { bin_check(&self.dy, &o.dy); mk(self.dy.zip_n(&o.dy, |a, _| a, f)) }
    fn bs<E: Element>(self, o: E, f: impl Fn(i64, i64) -> i64) -> Self { mk(self.dy.scalar_n(o.val(), |a, _| a, f)) }
    pub fn bitwise_and(self, o: Self) -> Self { self.bz(o, |a, b| a & b) }
    pub fn bitwise_or(self, o: Self) -> Self { self.bz(o, |a, b| a | b) }
    pub fn bitwise_xor(self, o: Self) -> Self { self.bz(o, |a, b| a ^ b) }
    pub fn bitwise_not(self) -> Self { mk(self.dy.map_i(|a| !a)) }
    pub fn bitwise_left_shift(self, o: Self) -> Self { self.bz(o, shl) }
    pub fn bitwise_right_shift(self, o: Self) -> Self { let u = self.un(); self.bz(o, move |a, b| shr(a, b, u)) }
    pub fn bitwise_and_scalar(self, o: B::IntElem) -> Self { self.bs(o, |a, b| a & b) }
    pub fn bitwise_or_scalar(self, o: B::IntElem) -> Self { self.bs(o, |a, b| a | b) }
    pub fn bitwise_xor_scalar(self, o: B::IntElem) -> Self { self.bs(o, |a, b| a ^ b) }
    pub fn bitwise_left_shift_scalar(self, o: B::IntElem) -> Self { self.bs(o, shl) }
    pub fn bitwise_right_shift_scalar(self, o: B::IntElem) -> Self { let u = self.un(); self.bs(o, move |a, b| shr(a, b, u)) }
}
fn shl(a: i64, b: i64) -> i64 { if (0..64).contains(&b) { a << b } else { 0 } }
fn shr(a: i64, b: i64, u: bool) -> i64 { if !(0..64).contains(&b) { 0 } else if u { (a as u64 >> b) as i64 } else { a >> b } }
impl<B: Backend> Tensor<B, 1, Int> {
    pub fn arange(r: core::ops::Range<i64>, d: &B::Device) -> Self { Self::arange_step(r, 1, d) }
    pub fn arange_step(r: core::ops::Range<i64>, step: usize, _d: &B::Device) -> Self { let v: Vec<i64> = r.step_by(step).collect(); mk(Dy::i(vec![v.len()], <Int as TensorKind<B>>::default_dtype(), v)) }
}
impl<B: Backend, const D: usize> Tensor<B, D, Bool> {
    pub fn from_bool(d: TensorData, dev: &B::Device) -> Self { Self::from_data(d, dev) }
    pub fn int(self) -> Tensor<B, D, Int> { let d = <Int as TensorKind<B>>::default_dtype(); mk(self.dy.cast(d)) }
    pub fn float(self) -> Tensor<B, D, Float> { let d = <Float as TensorKind<B>>::default_dtype(); mk(self.dy.cast(d)) }
    pub fn bool_not(self) -> Self { mk(self.dy.map_b(|x| !x.b())) }
    pub fn bool_and(self, o: Self) -> Self { mk(self.dy.zip_b(&o.dy, |a, b| a.b() && b.b())) }
    pub fn bool_or(self, o: Self) -> Self { mk(self.dy.zip_b(&o.dy, |a, b| a.b() || b.b())) }
    pub fn bool_xor(self, o: Self) -> Self { mk(self.dy.zip_b(&o.dy, |a, b| a.b() != b.b())) }
    pub fn argwhere(self) -> Tensor<B, 2, Int> { let v: Vec<Vec<usize>> = indices(&self.dy.shape).into_iter().zip(self.dy.bv()).filter(|(_, b)| **b).map(|(m, _)| m).collect(); mk(Dy::i(vec![v.len(), D], <Int as TensorKind<B>>::default_dtype(), v.into_iter().flatten().map(|x| x as i64).collect())) }
    pub fn nonzero(self) -> Vec<Tensor<B, 1, Int>> { let t = self.argwhere(); (0..D).map(|k| t.clone().slice_dim(1, k..k + 1).flatten::<1>(0, 1)).collect() }
    /// True off the chosen diagonal.
    pub fn diag_mask<S: Into<Shape>>(s: S, offset: i64, _d: &B::Device) -> Self { let s: Shape = s.into(); let v = indices(&s.dims).into_iter().map(|m| m[D - 1] as i64 - m[D - 2] as i64 != offset).collect(); mk(Dy::b(s.dims, v)) }
    pub fn tril_mask<S: Into<Shape>>(s: S, offset: i64, _d: &B::Device) -> Self { let s: Shape = s.into(); let v = indices(&s.dims).into_iter().map(|m| m[D - 1] as i64 - m[D - 2] as i64 > offset).collect(); mk(Dy::b(s.dims, v)) }
    pub fn triu_mask<S: Into<Shape>>(s: S, offset: i64, _d: &B::Device) -> Self { let s: Shape = s.into(); let v = indices(&s.dims).into_iter().map(|m| (m[D - 1] as i64 - m[D - 2] as i64) < offset).collect(); mk(Dy::b(s.dims, v)) }
}
macro_rules! ops { ($($tr:ident $f:ident $sf:ident),*) => { $(
    impl<B: Backend, const D: usize, K: Numeric<B>> core::ops::$tr for Tensor<B, D, K> { type Output = Self; fn $f(self, o: Self) -> Self { Tensor::$f(self, o) } }
    impl<E: Element, B: Backend, const D: usize, K: Numeric<B>> core::ops::$tr<E> for Tensor<B, D, K> { type Output = Self; fn $f(self, o: E) -> Self { Tensor::$sf(self, o) } }
)* } }
ops!(Add add add_scalar, Sub sub sub_scalar, Mul mul mul_scalar, Div div div_scalar);
impl<B: Backend, const D: usize, K: Numeric<B>> core::ops::Neg for Tensor<B, D, K> { type Output = Self; fn neg(self) -> Self { Tensor::neg(self) } }

// scalar op tensor, as burn has it for the primitive numbers
macro_rules! scalar_left { ($($t:ty),*) => { $(
    impl<B: Backend, const D: usize, K: Numeric<B>> core::ops::Add<Tensor<B, D, K>> for $t { type Output = Tensor<B, D, K>; fn add(self, t: Tensor<B, D, K>) -> Tensor<B, D, K> { t.add_scalar(self) } }
    impl<B: Backend, const D: usize, K: Numeric<B>> core::ops::Sub<Tensor<B, D, K>> for $t { type Output = Tensor<B, D, K>; fn sub(self, t: Tensor<B, D, K>) -> Tensor<B, D, K> { t.neg().add_scalar(self) } }
    impl<B: Backend, const D: usize, K: Numeric<B>> core::ops::Mul<Tensor<B, D, K>> for $t { type Output = Tensor<B, D, K>; fn mul(self, t: Tensor<B, D, K>) -> Tensor<B, D, K> { t.mul_scalar(self) } }
    impl<B: Backend, const D: usize> core::ops::Div<Tensor<B, D>> for $t { type Output = Tensor<B, D>; fn div(self, t: Tensor<B, D>) -> Tensor<B, D> { t.recip().mul_scalar(self) } }
)* } }
scalar_left!(f32, f64, i32, i64, u32, u64);
impl<B: Backend, const D: usize, K: BasicOps<B>, T: Into<TensorData>> From<T> for Tensor<B, D, K> {
    fn from(d: T) -> Self { Self::from_data(d, &Default::default()) }
}
