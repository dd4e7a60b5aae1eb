//! The dense, dynamically typed tensor every operation is executed on.
use crate::data::{TensorData, round_f};
use crate::dtype::*;
use crate::with_dtype;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Buf {
    F(Arc<Vec<f64>>),
    I(Arc<Vec<i64>>),
    B(Arc<Vec<bool>>),
}

#[derive(Clone, Debug)]
pub struct Dy {
    pub shape: Vec<usize>,
    pub dtype: DType,
    pub buf: Buf,
}

pub fn numel(s: &[usize]) -> usize {
    s.iter().product()
}
pub fn strides(s: &[usize]) -> Vec<usize> {
    let mut st = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() {
        st[i] = st[i + 1] * s[i + 1];
    }
    st
}
/// Row-major enumeration of all multi-indices of a shape.
pub fn indices(s: &[usize]) -> Vec<Vec<usize>> {
    let n = numel(s);
    let mut out = Vec::with_capacity(n);
    let mut cur = vec![0; s.len()];
    for _ in 0..n {
        out.push(cur.clone());
        for d in (0..s.len()).rev() {
            cur[d] += 1;
            if cur[d] < s[d] {
                break;
            }
            cur[d] = 0;
        }
    }
    out
}
pub fn wrap_i(d: DType, x: i64) -> i64 {
    match d {
        DType::I32 => x as i32 as i64,
        DType::I16 => x as i16 as i64,
        DType::I8 => x as i8 as i64,
        DType::U32 => x as u32 as i64,
        DType::U16 => x as u16 as i64,
        DType::U8 => x as u8 as i64,
        _ => x,
    }
}

macro_rules! on_buf {
    ($b:expr, $v:ident => $e:expr) => {
        match $b {
            Buf::F($v) => Buf::F(Arc::new($e)),
            Buf::I($v) => Buf::I(Arc::new($e)),
            Buf::B($v) => Buf::B(Arc::new($e)),
        }
    };
}

impl Dy {
    pub fn from_data(d: &TensorData) -> Dy {
        let v = d.vals();
        assert_eq!(
            v.len(),
            numel(&d.shape),
            "TensorData holds {} elements but has shape {:?}",
            v.len(),
            d.shape
        );
        Dy::from_vals(&v, d.shape.clone(), d.dtype)
    }
    pub fn from_vals(v: &[Val], shape: Vec<usize>, dtype: DType) -> Dy {
        let buf = if dtype.is_float() {
            Buf::F(Arc::new(v.iter().map(|x| round_f(dtype, x.f())).collect()))
        } else if dtype.is_bool() {
            Buf::B(Arc::new(v.iter().map(|x| x.b()).collect()))
        } else {
            Buf::I(Arc::new(v.iter().map(|x| wrap_i(dtype, x.i())).collect()))
        };
        Dy { shape, dtype, buf }
    }
    pub fn vals(&self) -> Vec<Val> {
        match &self.buf {
            Buf::F(v) => v.iter().map(|x| Val::F(*x)).collect(),
            Buf::I(v) => v.iter().map(|x| Val::I(*x)).collect(),
            Buf::B(v) => v.iter().map(|x| Val::B(*x)).collect(),
        }
    }
    pub fn to_data(&self) -> TensorData {
        let v = self.vals();
        let u64s = self.dtype == DType::U64;
        with_dtype!(self.dtype, T => {
            let e: Vec<T> = v.into_iter().map(|x| {
                let x = if u64s { Val::U(x.i() as u64) } else { x };
                <T as Element>::from_val(x)
            }).collect();
            TensorData::new(e, self.shape.clone())
        })
    }
    pub fn f(shape: Vec<usize>, dtype: DType, v: Vec<f64>) -> Dy {
        assert_eq!(numel(&shape), v.len());
        Dy {
            shape,
            dtype,
            buf: Buf::F(Arc::new(v.into_iter().map(|x| round_f(dtype, x)).collect())),
        }
    }
    pub fn i(shape: Vec<usize>, dtype: DType, v: Vec<i64>) -> Dy {
        assert_eq!(numel(&shape), v.len());
        Dy {
            shape,
            dtype,
            buf: Buf::I(Arc::new(v.into_iter().map(|x| wrap_i(dtype, x)).collect())),
        }
    }
    pub fn b(shape: Vec<usize>, v: Vec<bool>) -> Dy {
        assert_eq!(numel(&shape), v.len());
        Dy {
            shape,
            dtype: DType::Bool,
            buf: Buf::B(Arc::new(v)),
        }
    }
    pub fn fv(&self) -> &Vec<f64> {
        match &self.buf {
            Buf::F(v) => v,
            o => panic!("expected float tensor, got {o:?}"),
        }
    }
    pub fn iv(&self) -> &Vec<i64> {
        match &self.buf {
            Buf::I(v) => v,
            o => panic!("expected int tensor, got {o:?}"),
        }
    }
    pub fn bv(&self) -> &Vec<bool> {
        match &self.buf {
            Buf::B(v) => v,
            o => panic!("expected bool tensor, got {o:?}"),
        }
    }
    pub fn rank(&self) -> usize {
        self.shape.len()
    }
    pub fn numel(&self) -> usize {
        numel(&self.shape)
    }

    // ---------- data movement ----------
    /// New tensor whose elements are the given source positions.
    pub fn pick(&self, idx: &[usize], shape: Vec<usize>) -> Dy {
        assert_eq!(numel(&shape), idx.len());
        let buf = on_buf!(&self.buf, v => idx.iter().map(|i| v[*i].clone()).collect());
        Dy {
            shape,
            dtype: self.dtype,
            buf,
        }
    }
    pub fn reshape(&self, shape: Vec<usize>) -> Dy {
        assert_eq!(
            numel(&shape),
            self.numel(),
            "reshape: {:?} has a different number of elements than {:?}",
            self.shape,
            shape
        );
        Dy {
            shape,
            dtype: self.dtype,
            buf: self.buf.clone(),
        }
    }
    pub fn permute(&self, axes: &[usize]) -> Dy {
        assert_eq!(axes.len(), self.rank(), "permute: wrong number of axes");
        let mut seen = vec![false; axes.len()];
        for a in axes {
            assert!(!seen[*a], "permute: repeated axis");
            seen[*a] = true;
        }
        let st = strides(&self.shape);
        let ns: Vec<usize> = axes.iter().map(|a| self.shape[*a]).collect();
        let idx: Vec<usize> = indices(&ns)
            .iter()
            .map(|m| m.iter().zip(axes).map(|(i, a)| i * st[*a]).sum())
            .collect();
        self.pick(&idx, ns)
    }
    pub fn expand(&self, shape: &[usize]) -> Dy {
        assert!(
            shape.len() >= self.rank(),
            "expand: cannot expand {:?} to {shape:?}",
            self.shape
        );
        let off = shape.len() - self.rank();
        for (i, s) in self.shape.iter().enumerate() {
            assert!(
                *s == shape[off + i] || *s == 1,
                "expand: cannot expand {:?} to {shape:?}",
                self.shape
            );
        }
        let st = strides(&self.shape);
        let idx: Vec<usize> = indices(shape)
            .iter()
            .map(|m| {
                (0..self.rank())
                    .map(|d| {
                        if self.shape[d] == 1 {
                            0
                        } else {
                            m[off + d] * st[d]
                        }
                    })
                    .sum()
            })
            .collect();
        self.pick(&idx, shape.to_vec())
    }
    /// Select the given list of indices along every axis (outer product).
    pub fn select_all(&self, sel: &[Vec<usize>]) -> Dy {
        let st = strides(&self.shape);
        let ns: Vec<usize> = sel.iter().map(|s| s.len()).collect();
        for (d, s) in sel.iter().enumerate() {
            for x in s {
                assert!(
                    *x < self.shape[d],
                    "index {x} out of range for axis {d} of {:?}",
                    self.shape
                );
            }
        }
        let idx: Vec<usize> = indices(&ns)
            .iter()
            .map(|m| {
                m.iter()
                    .enumerate()
                    .map(|(d, i)| sel[d][*i] * st[d])
                    .sum()
            })
            .collect();
        self.pick(&idx, ns)
    }
    pub fn select(&self, dim: usize, ix: &[usize]) -> Dy {
        let sel: Vec<Vec<usize>> = (0..self.rank())
            .map(|d| {
                if d == dim {
                    ix.to_vec()
                } else {
                    (0..self.shape[d]).collect()
                }
            })
            .collect();
        self.select_all(&sel)
    }
    /// Write `v` at the outer product of the selected positions.
    pub fn assign_all(&self, sel: &[Vec<usize>], v: &Dy) -> Dy {
        let ns: Vec<usize> = sel.iter().map(|s| s.len()).collect();
        assert_eq!(
            ns, v.shape,
            "slice_assign: value shape {:?} does not match slice {:?}",
            v.shape, ns
        );
        let st = strides(&self.shape);
        let mut out = self.vals();
        let vv = v.vals();
        for (k, m) in indices(&ns).iter().enumerate() {
            let p: usize = m.iter().enumerate().map(|(d, i)| sel[d][*i] * st[d]).sum();
            out[p] = vv[k];
        }
        Dy::from_vals(&out, self.shape.clone(), self.dtype)
    }
    pub fn cat(ts: &[Dy], dim: usize) -> Dy {
        assert!(!ts.is_empty(), "cat: no tensors");
        let mut shape = ts[0].shape.clone();
        for t in &ts[1..] {
            assert_eq!(t.rank(), shape.len(), "cat: ranks differ");
            assert_eq!(
                std::mem::discriminant(&t.buf),
                std::mem::discriminant(&ts[0].buf)
            );
            for d in 0..shape.len() {
                if d != dim {
                    assert_eq!(
                        t.shape[d], ts[0].shape[d],
                        "cat: shapes {:?} and {:?} differ outside axis {dim}",
                        t.shape, ts[0].shape
                    );
                }
            }
            shape[dim] += t.shape[dim];
        }
        let outer: usize = shape[..dim].iter().product();
        let inner: usize = shape[dim + 1..].iter().product();
        let mut out: Vec<Val> = Vec::with_capacity(numel(&shape));
        let vs: Vec<Vec<Val>> = ts.iter().map(|t| t.vals()).collect();
        for o in 0..outer {
            for (t, v) in ts.iter().zip(&vs) {
                let n = t.shape[dim] * inner;
                out.extend_from_slice(&v[o * n..(o + 1) * n]);
            }
        }
        Dy::from_vals(&out, shape, ts[0].dtype)
    }
    pub fn gather(&self, dim: usize, ix: &Dy) -> Dy {
        assert_eq!(ix.rank(), self.rank(), "gather: ranks differ");
        for d in 0..self.rank() {
            if d != dim {
                assert_eq!(
                    ix.shape[d], self.shape[d],
                    "gather: shapes {:?}/{:?} differ outside axis {dim}",
                    self.shape, ix.shape
                );
            }
        }
        let st = strides(&self.shape);
        let iv = ix.iv();
        let idx: Vec<usize> = indices(&ix.shape)
            .iter()
            .enumerate()
            .map(|(k, m)| {
                let g = if iv[k] < 0 { iv[k] + self.shape[dim] as i64 } else { iv[k] };
                assert!(
                    g >= 0 && (g as usize) < self.shape[dim],
                    "gather: index {g} out of range for axis of size {}",
                    self.shape[dim]
                );
                (0..self.rank())
                    .map(|d| if d == dim { g as usize } else { m[d] } * st[d])
                    .sum()
            })
            .collect();
        self.pick(&idx, ix.shape.clone())
    }
    pub fn scatter(&self, dim: usize, ix: &Dy, v: &Dy, f: &dyn Fn(Val, Val) -> Val) -> Dy {
        assert_eq!(ix.shape, v.shape, "scatter: indices and values differ");
        let st = strides(&self.shape);
        let iv = ix.iv();
        let mut out = self.vals();
        let vv = v.vals();
        for (k, m) in indices(&ix.shape).iter().enumerate() {
            let g = if iv[k] < 0 { iv[k] + self.shape[dim] as i64 } else { iv[k] };
            assert!(
                g >= 0 && (g as usize) < self.shape[dim],
                "scatter: index {g} out of range for axis of size {}",
                self.shape[dim]
            );
            let p: usize = (0..self.rank())
                .map(|d| if d == dim { g as usize } else { m[d] } * st[d])
                .sum();
            out[p] = f(out[p], vv[k]);
        }
        Dy::from_vals(&out, self.shape.clone(), self.dtype)
    }
    pub fn repeat_dim(&self, dim: usize, n: usize) -> Dy {
        let ix: Vec<usize> = (0..n).flat_map(|_| 0..self.shape[dim]).collect();
        self.select(dim, &ix)
    }

    // ---------- element-wise ----------
    pub fn map_f(&self, f: impl Fn(f64) -> f64) -> Dy {
        Dy::f(
            self.shape.clone(),
            self.dtype,
            self.fv().iter().map(|x| f(*x)).collect(),
        )
    }
    pub fn map_i(&self, f: impl Fn(i64) -> i64) -> Dy {
        Dy::i(
            self.shape.clone(),
            self.dtype,
            self.iv().iter().map(|x| f(*x)).collect(),
        )
    }
    pub fn map_n(&self, ff: impl Fn(f64) -> f64, fi: impl Fn(i64) -> i64) -> Dy {
        match &self.buf {
            Buf::F(_) => self.map_f(ff),
            Buf::I(_) => self.map_i(fi),
            Buf::B(_) => panic!("numeric operation on a bool tensor"),
        }
    }
    pub fn map_b(&self, f: impl Fn(Val) -> bool) -> Dy {
        Dy::b(
            self.shape.clone(),
            self.vals().into_iter().map(|x| f(x)).collect(),
        )
    }
    pub fn broadcast(a: &Dy, b: &Dy) -> (Dy, Dy) {
        assert_eq!(
            a.rank(),
            b.rank(),
            "binary operation on tensors of different rank"
        );
        if a.shape == b.shape {
            return (a.clone(), b.clone());
        }
        let s: Vec<usize> = a
            .shape
            .iter()
            .zip(&b.shape)
            .map(|(x, y)| {
                assert!(
                    x == y || *x == 1 || *y == 1,
                    "cannot broadcast {:?} with {:?}",
                    a.shape,
                    b.shape
                );
                if *x == 1 { *y } else { *x }
            })
            .collect();
        (a.expand(&s), b.expand(&s))
    }
    pub fn zip_n(
        &self,
        o: &Dy,
        ff: impl Fn(f64, f64) -> f64,
        fi: impl Fn(i64, i64) -> i64,
    ) -> Dy {
        let (a, b) = Dy::broadcast(self, o);
        match (&a.buf, &b.buf) {
            (Buf::F(x), Buf::F(y)) => Dy::f(
                a.shape.clone(),
                a.dtype,
                x.iter().zip(y.iter()).map(|(p, q)| ff(*p, *q)).collect(),
            ),
            (Buf::I(x), Buf::I(y)) => Dy::i(
                a.shape.clone(),
                a.dtype,
                x.iter().zip(y.iter()).map(|(p, q)| fi(*p, *q)).collect(),
            ),
            _ => panic!("binary operation on tensors of different kind"),
        }
    }
    pub fn zip_b(&self, o: &Dy, f: impl Fn(Val, Val) -> bool) -> Dy {
        let (a, b) = Dy::broadcast(self, o);
        let v = a
            .vals()
            .into_iter()
            .zip(b.vals())
            .map(|(x, y)| f(x, y))
            .collect();
        Dy::b(a.shape, v)
    }
    pub fn scalar_n(&self, s: Val, ff: impl Fn(f64, f64) -> f64, fi: impl Fn(i64, i64) -> i64) -> Dy {
        match &self.buf {
            Buf::F(_) => {
                let s = round_f(self.dtype, s.f());
                self.map_f(|x| ff(x, s))
            }
            Buf::I(_) => {
                let s = wrap_i(self.dtype, s.i());
                self.map_i(|x| fi(x, s))
            }
            Buf::B(_) => panic!("numeric operation on a bool tensor"),
        }
    }
    pub fn cast(&self, d: DType) -> Dy {
        if d == self.dtype {
            return self.clone();
        }
        Dy::from_vals(&self.vals(), self.shape.clone(), d)
    }

    // ---------- reductions ----------
    /// Fold every 1-D fibre along `dim` to a single value (axis kept with size 1).
    pub fn reduce(&self, dim: usize, dtype: DType, f: impl Fn(&[Val]) -> Val) -> Dy {
        let n = self.shape[dim];
        let outer: usize = self.shape[..dim].iter().product();
        let inner: usize = self.shape[dim + 1..].iter().product();
        let v = self.vals();
        let mut out = Vec::with_capacity(outer * inner);
        let mut fib = Vec::with_capacity(n);
        for o in 0..outer {
            for i in 0..inner {
                fib.clear();
                for k in 0..n {
                    fib.push(v[(o * n + k) * inner + i]);
                }
                out.push(f(&fib));
            }
        }
        let mut s = self.shape.clone();
        s[dim] = 1;
        Dy::from_vals(&out, s, dtype)
    }
    /// Rewrite every 1-D fibre along `dim`.
    pub fn scan(&self, dim: usize, dtype: DType, out_len: usize, f: impl Fn(&[Val]) -> Vec<Val>) -> Dy {
        let n = self.shape[dim];
        let outer: usize = self.shape[..dim].iter().product();
        let inner: usize = self.shape[dim + 1..].iter().product();
        let v = self.vals();
        let mut out = vec![Val::I(0); outer * inner * out_len];
        let mut fib = Vec::with_capacity(n);
        for o in 0..outer {
            for i in 0..inner {
                fib.clear();
                for k in 0..n {
                    fib.push(v[(o * n + k) * inner + i]);
                }
                let r = f(&fib);
                assert_eq!(r.len(), out_len);
                for k in 0..out_len {
                    out[(o * out_len + k) * inner + i] = r[k];
                }
            }
        }
        let mut s = self.shape.clone();
        s[dim] = out_len;
        Dy::from_vals(&out, s, dtype)
    }
    pub fn sum_vals(f: &[Val], float: bool) -> Val {
        if float {
            Val::F(f.iter().map(|x| x.f()).sum())
        } else {
            Val::I(f.iter().fold(0i64, |a, x| a.wrapping_add(x.i())))
        }
    }
    pub fn prod_vals(f: &[Val], float: bool) -> Val {
        if float {
            Val::F(f.iter().map(|x| x.f()).product())
        } else {
            Val::I(f.iter().fold(1i64, |a, x| a.wrapping_mul(x.i())))
        }
    }
    pub fn mean_vals(f: &[Val], float: bool) -> Val {
        if float {
            Val::F(f.iter().map(|x| x.f()).sum::<f64>() / f.len() as f64)
        } else {
            Val::I(f.iter().fold(0i64, |a, x| a.wrapping_add(x.i())) / f.len() as i64)
        }
    }
    /// Index of the best element; the first one wins, NaN wins over everything.
    pub fn arg_best(f: &[Val], max: bool, float: bool) -> usize {
        assert!(!f.is_empty(), "arg reduction over an empty axis");
        let mut best = 0;
        for k in 1..f.len() {
            let better = if float {
                let (a, b) = (f[k].f(), f[best].f());
                (a.is_nan() && !b.is_nan()) || if max { a > b } else { a < b }
            } else {
                let (a, b) = (f[k].i(), f[best].i());
                if max { a > b } else { a < b }
            };
            if better {
                best = k;
            }
        }
        best
    }
    pub fn is_f(&self) -> bool {
        matches!(self.buf, Buf::F(_))
    }

    // ---------- linear algebra ----------
    pub fn matmul(&self, o: &Dy) -> Dy {
        assert_eq!(self.rank(), o.rank(), "matmul: ranks differ");
        let r = self.rank();
        assert!(r >= 2, "matmul: rank must be at least 2");
        let (m, k) = (self.shape[r - 2], self.shape[r - 1]);
        let (k2, n) = (o.shape[r - 2], o.shape[r - 1]);
        assert_eq!(
            k, k2,
            "matmul: inner dimensions of {:?} and {:?} differ",
            self.shape, o.shape
        );
        let mut bs = vec![];
        for d in 0..r - 2 {
            let (x, y) = (self.shape[d], o.shape[d]);
            assert!(
                x == y || x == 1 || y == 1,
                "matmul: batch dimensions of {:?} and {:?} differ",
                self.shape,
                o.shape
            );
            bs.push(if x == 1 { y } else { x });
        }
        let mut sa = bs.clone();
        sa.extend([m, k]);
        let mut sb = bs.clone();
        sb.extend([k, n]);
        let (a, b) = (self.expand(&sa), o.expand(&sb));
        let nb = numel(&bs);
        let mut so = bs;
        so.extend([m, n]);
        match (&a.buf, &b.buf) {
            (Buf::F(x), Buf::F(y)) => {
                let mut out = vec![0.0; nb * m * n];
                for q in 0..nb {
                    for i in 0..m {
                        for j in 0..n {
                            let mut s = 0.0;
                            for l in 0..k {
                                s += x[(q * m + i) * k + l] * y[(q * k + l) * n + j];
                            }
                            out[(q * m + i) * n + j] = s;
                        }
                    }
                }
                Dy::f(so, self.dtype, out)
            }
            (Buf::I(x), Buf::I(y)) => {
                let mut out = vec![0i64; nb * m * n];
                for q in 0..nb {
                    for i in 0..m {
                        for j in 0..n {
                            let mut s = 0i64;
                            for l in 0..k {
                                s = s.wrapping_add(
                                    x[(q * m + i) * k + l].wrapping_mul(y[(q * k + l) * n + j]),
                                );
                            }
                            out[(q * m + i) * n + j] = s;
                        }
                    }
                }
                Dy::i(so, self.dtype, out)
            }
            _ => panic!("matmul: kinds differ"),
        }
    }

    /// General N-d convolution. x: [b, cin, s..], w: [cout, cin/groups, k..].
    pub fn conv(
        &self,
        w: &Dy,
        bias: Option<&Dy>,
        stride: &[usize],
        pad: &[(usize, usize)],
        dil: &[usize],
        groups: usize,
    ) -> Dy {
        let nd = self.rank() - 2;
        let (b, cin) = (self.shape[0], self.shape[1]);
        let (cout, cpg) = (w.shape[0], w.shape[1]);
        assert_eq!(cin, cpg * groups, "conv: channels/groups mismatch");
        assert_eq!(cout % groups, 0, "conv: output channels not divisible by groups");
        let mut os = vec![];
        for d in 0..nd {
            let eff = dil[d] * (w.shape[2 + d] - 1) + 1;
            let tot = self.shape[2 + d] + pad[d].0 + pad[d].1;
            assert!(tot >= eff, "conv: kernel larger than the padded input");
            os.push((tot - eff) / stride[d] + 1);
        }
        let sx = strides(&self.shape);
        let sw = strides(&w.shape);
        let (xv, wv) = (self.fv(), w.fv());
        let ks: Vec<usize> = w.shape[2..].to_vec();
        let kidx = indices(&ks);
        let mut so = vec![b, cout];
        so.extend(&os);
        let opg = cout / groups;
        let out = indices(&so)
            .iter()
            .map(|m| {
                let g = m[1] / opg;
                let mut s = 0.0;
                for c in 0..cpg {
                    'k: for k in &kidx {
                        let mut p = m[0] * sx[0] + (g * cpg + c) * sx[1];
                        let mut q = m[1] * sw[0] + c * sw[1];
                        for d in 0..nd {
                            let pos = (m[2 + d] * stride[d] + k[d] * dil[d]) as isize
                                - pad[d].0 as isize;
                            if pos < 0 || pos as usize >= self.shape[2 + d] {
                                continue 'k;
                            }
                            p += pos as usize * sx[2 + d];
                            q += k[d] * sw[2 + d];
                        }
                        s += xv[p] * wv[q];
                    }
                }
                s + bias.map(|b| b.fv()[m[1]]).unwrap_or(0.0)
            })
            .collect();
        Dy::f(so, self.dtype, out)
    }
    /// Transposed convolution. x: [b, cin, s..], w: [cin, cout/groups, k..].
    pub fn conv_transpose(
        &self,
        w: &Dy,
        bias: Option<&Dy>,
        stride: &[usize],
        pad: &[usize],
        pad_out: &[usize],
        dil: &[usize],
        groups: usize,
    ) -> Dy {
        let nd = self.rank() - 2;
        let (b, cin) = (self.shape[0], self.shape[1]);
        assert_eq!(w.shape[0], cin, "conv_transpose: channels mismatch");
        let opg = w.shape[1];
        let cout = opg * groups;
        let ipg = cin / groups;
        let mut so = vec![b, cout];
        for d in 0..nd {
            let v = (self.shape[2 + d] as isize - 1) * stride[d] as isize
                + (dil[d] * (w.shape[2 + d] - 1)) as isize
                + 1
                + pad_out[d] as isize
                - 2 * pad[d] as isize;
            assert!(v >= 0, "conv_transpose: negative output size");
            so.push(v as usize);
        }
        let st = strides(&so);
        let mut out = vec![0.0; numel(&so)];
        let sx = strides(&self.shape);
        let sw = strides(&w.shape);
        let (xv, wv) = (self.fv(), w.fv());
        let kidx = indices(&w.shape[2..].to_vec());
        for m in indices(&self.shape) {
            let x = xv[m.iter().zip(&sx).map(|(a, b)| a * b).sum::<usize>()];
            let g = m[1] / ipg;
            for oc in 0..opg {
                'k: for k in &kidx {
                    let mut p = m[0] * st[0] + (g * opg + oc) * st[1];
                    let mut q = m[1] * sw[0] + oc * sw[1];
                    for d in 0..nd {
                        let pos = (m[2 + d] * stride[d] + k[d] * dil[d]) as isize - pad[d] as isize;
                        if pos < 0 || pos as usize >= so[2 + d] {
                            continue 'k;
                        }
                        p += pos as usize * st[2 + d];
                        q += k[d] * sw[2 + d];
                    }
                    out[p] += x * wv[q];
                }
            }
        }
        if let Some(bv) = bias {
            for (k, m) in indices(&so).iter().enumerate() {
                out[k] += bv.fv()[m[1]];
            }
        }
        Dy::f(so, self.dtype, out)
    }
    /// Windowed pooling. `f` receives the in-range values and the number of window cells that lie
    /// inside the (explicitly) padded input.
    pub fn pool(
        &self,
        kernel: &[usize],
        stride: &[usize],
        pad: &[(usize, usize)],
        dil: &[usize],
        ceil: bool,
        f: impl Fn(&[f64], usize) -> f64,
    ) -> Dy {
        let nd = self.rank() - 2;
        let mut so = self.shape[..2].to_vec();
        for d in 0..nd {
            let eff = dil[d] * (kernel[d] - 1) + 1;
            let tot = self.shape[2 + d] + pad[d].0 + pad[d].1;
            assert!(tot >= eff, "pool: kernel larger than the padded input");
            let mut o = if ceil {
                (tot - eff).div_ceil(stride[d]) + 1
            } else {
                (tot - eff) / stride[d] + 1
            };
            // the last window must start inside the input or the leading padding
            if ceil && (o - 1) * stride[d] >= self.shape[2 + d] + pad[d].0 {
                o -= 1;
            }
            so.push(o);
        }
        let sx = strides(&self.shape);
        let xv = self.fv();
        let kidx = indices(kernel);
        let out = indices(&so)
            .iter()
            .map(|m| {
                let mut vs = vec![];
                let mut cells = 0;
                'k: for k in &kidx {
                    let mut p = m[0] * sx[0] + m[1] * sx[1];
                    let mut inside = true;
                    for d in 0..nd {
                        let pos = (m[2 + d] * stride[d] + k[d] * dil[d]) as isize
                            - pad[d].0 as isize;
                        if pos >= (self.shape[2 + d] + pad[d].1) as isize {
                            continue 'k; // beyond the padded input (ceil mode)
                        }
                        if pos < 0 || pos as usize >= self.shape[2 + d] {
                            inside = false;
                        } else {
                            p += pos as usize * sx[2 + d];
                        }
                    }
                    cells += 1;
                    if inside {
                        vs.push(xv[p]);
                    }
                }
                f(&vs, cells)
            })
            .collect();
        Dy::f(so, self.dtype, out)
    }
}
