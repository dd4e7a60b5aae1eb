//! Dense reference tensors. Floats are kept as f64 rounded to the element type, integers as i128
//! wrapped to the element type. Nothing here depends on the code under test.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum DT { F32, F64, F16, BF16, I8, I16, I32, I64, U8, U16, U32, U64, Bool }
use DT::*;

pub const ALL_DT: [DT; 13] = [F32, F64, F16, BF16, I8, I16, I32, I64, U8, U16, U32, U64, Bool];

impl DT {
    pub fn onnx(self) -> i32 {
        match self { F32 => 1, U8 => 2, I8 => 3, U16 => 4, I16 => 5, I32 => 6, I64 => 7, Bool => 9, F16 => 10, F64 => 11, U32 => 12, U64 => 13, BF16 => 16 }
    }
    pub fn from_onnx(v: i32) -> Option<DT> { ALL_DT.iter().copied().find(|d| d.onnx() == v) }
    pub fn is_float(self) -> bool { matches!(self, F32 | F64 | F16 | BF16) }
    pub fn is_int(self) -> bool { !self.is_float() && self != Bool }
    pub fn is_signed(self) -> bool { matches!(self, I8 | I16 | I32 | I64) }
    pub fn size(self) -> usize { match self { F64 | I64 | U64 => 8, F32 | I32 | U32 => 4, F16 | BF16 | I16 | U16 => 2, _ => 1 } }
    pub fn bits(self) -> u32 { (self.size() * 8) as u32 }
    pub fn range(self) -> (i128, i128) {
        if self == Bool { return (0, 1); }
        let b = self.bits();
        if self.is_signed() { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) }
    }
    pub fn name(self) -> &'static str {
        match self { F32 => "f32", F64 => "f64", F16 => "f16", BF16 => "bf16", I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", Bool => "bool" }
    }
}

pub fn f16_to_f64(h: u16) -> f64 {
    let s = if h >> 15 == 1 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    s * match e { 0 => m * 2f64.powi(-24), 31 => if m == 0.0 { f64::INFINITY } else { f64::NAN }, _ => (1.0 + m / 1024.0) * 2f64.powi(e - 15) }
}
pub fn f64_to_f16(x: f64) -> u16 {
    if x.is_nan() { return 0x7e00; }
    let s = if x.is_sign_negative() { 0x8000u16 } else { 0 };
    let a = x.abs();
    if a >= 65520.0 { return s | 0x7c00; }
    if a < 2f64.powi(-14) { return s | rne(a * 2f64.powi(24)) as u16; }
    let mut e = a.log2().floor() as i32;
    if 2f64.powi(e) > a { e -= 1; }
    if 2f64.powi(e + 1) <= a { e += 1; }
    let m = rne(a / 2f64.powi(e) * 1024.0) as u32; // 1024..=2048
    let v = (((e + 15) as u32) << 10) + (m - 1024);
    s | v as u16
}
pub fn rne(x: f64) -> f64 { let r = x.round(); if (x - x.trunc()).abs() == 0.5 { 2.0 * (x / 2.0).round() } else { r } }
pub fn f32_to_bf16(x: f32) -> u16 {
    if x.is_nan() { return 0x7fc0; }
    let b = x.to_bits();
    let r = 0x7fff + ((b >> 16) & 1);
    ((b.wrapping_add(r)) >> 16) as u16
}
pub fn bf16_to_f32(h: u16) -> f32 { f32::from_bits((h as u32) << 16) }

pub fn round_to(dt: DT, x: f64) -> f64 {
    match dt { F32 => x as f32 as f64, F16 => f16_to_f64(f64_to_f16(x)), BF16 => bf16_to_f32(f32_to_bf16(x as f32)) as f64, _ => x }
}
pub fn wrap(dt: DT, v: i128) -> i128 {
    if dt == Bool { return (v != 0) as i128; }
    let b = dt.bits();
    let m = 1i128 << b;
    let r = v.rem_euclid(m);
    if dt.is_signed() && r >= m / 2 { r - m } else { r }
}

#[derive(Clone, PartialEq)]
pub enum Buf { F(Vec<f64>), I(Vec<i128>) }

#[derive(Clone, PartialEq)]
pub struct T { pub dt: DT, pub shape: Vec<usize>, pub buf: Buf }

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{:?}", self.dt.name(), self.shape)?;
        match &self.buf { Buf::F(v) => write!(f, "{:?}", v), Buf::I(v) => write!(f, "{:?}", v) }
    }
}

pub fn numel(s: &[usize]) -> usize { s.iter().fold(1usize, |a, b| a.saturating_mul(*b)) }
pub fn strides(s: &[usize]) -> Vec<usize> {
    let mut st = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() { st[i] = st[i + 1] * s[i + 1]; }
    st
}
pub fn unravel(mut i: usize, s: &[usize]) -> Vec<usize> {
    let mut r = vec![0; s.len()];
    for k in (0..s.len()).rev() { r[k] = i % s[k]; i /= s[k]; }
    r
}
pub fn ravel(ix: &[usize], s: &[usize]) -> usize { ix.iter().zip(s).fold(0, |a, (i, d)| a * d + i) }

impl T {
    pub fn f(dt: DT, shape: &[usize], v: Vec<f64>) -> T {
        assert_eq!(numel(shape), v.len(), "shape {shape:?}");
        T { dt, shape: shape.to_vec(), buf: Buf::F(v.into_iter().map(|x| round_to(dt, x)).collect()) }
    }
    pub fn i(dt: DT, shape: &[usize], v: Vec<i128>) -> T {
        assert_eq!(numel(shape), v.len(), "shape {shape:?}");
        T { dt, shape: shape.to_vec(), buf: Buf::I(v.into_iter().map(|x| wrap(dt, x)).collect()) }
    }
    pub fn f32(shape: &[usize], v: &[f64]) -> T { T::f(F32, shape, v.to_vec()) }
    pub fn i64(shape: &[usize], v: &[i64]) -> T { T::i(I64, shape, v.iter().map(|x| *x as i128).collect()) }
    pub fn i64v(v: &[i64]) -> T { T::i64(&[v.len()], v) }
    pub fn i64s(v: i64) -> T { T::i64(&[], &[v]) }
    pub fn f32s(v: f64) -> T { T::f32(&[], &[v]) }
    pub fn bool(shape: &[usize], v: &[bool]) -> T { T::i(Bool, shape, v.iter().map(|x| *x as i128).collect()) }
    /// Build a tensor of any element type from small numbers.
    pub fn zeros(dt: DT, shape: &[usize]) -> T { T::num(dt, shape, &vec![0.0; numel(shape)]) }
    pub fn num(dt: DT, shape: &[usize], v: &[f64]) -> T {
        if dt.is_float() { T::f(dt, shape, v.to_vec()) } else if dt == Bool { T::i(dt, shape, v.iter().map(|x| (*x != 0.0) as i128).collect()) } else { T::i(dt, shape, v.iter().map(|x| *x as i128).collect()) }
    }
    /// 0,1,2,... style filler: distinct small values, some negative.
    pub fn ramp(dt: DT, shape: &[usize], start: f64, step: f64) -> T {
        let n = numel(shape);
        if dt == Bool { return T::i(dt, shape, (0..n).map(|i| ((i * 7 + start as usize) % 3 != 0) as i128).collect()); }
        T::num(dt, shape, &(0..n).map(|i| start + step * i as f64).collect::<Vec<_>>())
    }
    pub fn len(&self) -> usize { numel(&self.shape) }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn rank(&self) -> usize { self.shape.len() }
    pub fn is_float(&self) -> bool { self.dt.is_float() }
    pub fn fv(&self) -> Vec<f64> { match &self.buf { Buf::F(v) => v.clone(), Buf::I(v) => v.iter().map(|x| *x as f64).collect() } }
    pub fn iv(&self) -> Vec<i128> { match &self.buf { Buf::F(v) => v.iter().map(|x| *x as i128).collect(), Buf::I(v) => v.clone() } }
    pub fn to_i64(&self) -> Vec<i64> { self.iv().iter().map(|x| *x as i64).collect() }
    pub fn b(&self) -> Vec<bool> { self.iv().iter().map(|x| *x != 0).collect() }
    pub fn fget(&self, i: usize) -> f64 { match &self.buf { Buf::F(v) => v[i], Buf::I(v) => v[i] as f64 } }
    pub fn with_shape(&self, s: &[usize]) -> T { assert_eq!(self.len(), numel(s)); let mut t = self.clone(); t.shape = s.to_vec(); t }
    /// New tensor of `shape` picking flat source indices; None picks the fill.
    pub fn pick(&self, shape: &[usize], mut src: impl FnMut(usize) -> Option<usize>, fill: f64) -> T {
        let n = numel(shape);
        let buf = match &self.buf {
            Buf::F(v) => Buf::F((0..n).map(|i| src(i).map(|j| v[j]).unwrap_or(fill)).collect()),
            Buf::I(v) => Buf::I((0..n).map(|i| src(i).map(|j| v[j]).unwrap_or(fill as i128)).collect()),
        };
        T { dt: self.dt, shape: shape.to_vec(), buf }
    }
    pub fn broadcast_to(&self, s: &[usize]) -> Option<T> {
        if self.shape.len() > s.len() { return None; }
        let off = s.len() - self.shape.len();
        for (i, d) in self.shape.iter().enumerate() { if *d != 1 && *d != s[off + i] { return None; } }
        let st = strides(&self.shape);
        Some(self.pick(s, |i| { let ix = unravel(i, s); Some((0..self.shape.len()).map(|k| if self.shape[k] == 1 { 0 } else { ix[off + k] * st[k] }).sum()) }, 0.0))
    }
    pub fn cast(&self, to: DT) -> T {
        match (&self.buf, to.is_float()) {
            (Buf::F(v), true) => T::f(to, &self.shape, v.clone()),
            (Buf::I(v), true) => T::f(to, &self.shape, v.iter().map(|x| *x as f64).collect()),
            (Buf::F(v), false) => if to == Bool { T::i(to, &self.shape, v.iter().map(|x| (*x != 0.0) as i128).collect()) } else { T::i(to, &self.shape, v.iter().map(|x| x.trunc() as i128).collect()) },
            (Buf::I(v), false) => T::i(to, &self.shape, v.clone()),
        }
    }
    /// Little-endian raw bytes.
    pub fn raw(&self) -> Vec<u8> {
        let mut o = vec![];
        match &self.buf {
            Buf::F(v) => for x in v { match self.dt { F32 => o.extend((*x as f32).to_le_bytes()), F64 => o.extend(x.to_le_bytes()), F16 => o.extend(f64_to_f16(*x).to_le_bytes()), BF16 => o.extend(f32_to_bf16(*x as f32).to_le_bytes()), _ => unreachable!() } },
            Buf::I(v) => for x in v { o.extend(&(*x as u128).to_le_bytes()[..self.dt.size()]) },
        }
        o
    }
    pub fn from_raw(dt: DT, shape: &[usize], raw: &[u8]) -> Option<T> {
        let n = numel(shape);
        if raw.len() != n * dt.size() { return None; }
        let ch = raw.chunks(dt.size());
        Some(match dt {
            F32 => T { dt, shape: shape.to_vec(), buf: Buf::F(ch.map(|c| f32::from_le_bytes(c.try_into().unwrap()) as f64).collect()) },
            F64 => T { dt, shape: shape.to_vec(), buf: Buf::F(ch.map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()) },
            F16 => T { dt, shape: shape.to_vec(), buf: Buf::F(ch.map(|c| f16_to_f64(u16::from_le_bytes(c.try_into().unwrap()))).collect()) },
            BF16 => T { dt, shape: shape.to_vec(), buf: Buf::F(ch.map(|c| bf16_to_f32(u16::from_le_bytes(c.try_into().unwrap())) as f64).collect()) },
            _ => T::i(dt, shape, ch.map(|c| { let mut b = [0u8; 16]; b[..c.len()].copy_from_slice(c); i128::from_le_bytes(b) }).collect()),
        })
    }
    /// Bit-equal except that all NaNs are equal.
    pub fn same(&self, o: &T) -> bool {
        if self.dt != o.dt || self.shape != o.shape { return false; }
        match (&self.buf, &o.buf) {
            (Buf::F(a), Buf::F(b)) => a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan())),
            (Buf::I(a), Buf::I(b)) => a == b,
            _ => false,
        }
    }
    /// Equal within rounding for floats (absolute and relative), exact for the rest.
    pub fn close(&self, o: &T, tol: f64) -> bool {
        if self.dt != o.dt || self.shape != o.shape { return false; }
        match (&self.buf, &o.buf) {
            (Buf::F(a), Buf::F(b)) => a.iter().zip(b).all(|(x, y)| feq(*x, *y, tol)),
            (Buf::I(a), Buf::I(b)) => a == b,
            _ => false,
        }
    }
}
pub fn feq(x: f64, y: f64, tol: f64) -> bool {
    if x.is_nan() || y.is_nan() { return x.is_nan() && y.is_nan(); }
    if x == y { return true; }
    if x.is_infinite() || y.is_infinite() { return false; }
    (x - y).abs() <= tol * (1.0 + x.abs().max(y.abs()))
}
pub fn bshape(shapes: &[&[usize]]) -> Option<Vec<usize>> {
    let r = shapes.iter().map(|s| s.len()).max().unwrap_or(0);
    let mut o = vec![1usize; r];
    for s in shapes {
        for (i, d) in s.iter().enumerate() {
            let k = r - s.len() + i;
            if o[k] == 1 { o[k] = *d; } else if *d != 1 && *d != o[k] { return None; }
        }
    }
    Some(o)
}
