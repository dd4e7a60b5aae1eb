//! Runtime of the executables that hold generated models: feeds inputs, collects outputs.
use burn::module::{Module, Visitor};
use burn::tensor::dy::Dy;
use burn::tensor::*;
use std::io::Write;
pub type B = burn_ndarray::NdArray<f32, i64>;

pub trait In: Sized { fn take(v: &Dy) -> Self; }
pub trait Out { fn put(self, o: &mut Vec<Dy>); }
impl<const D: usize, K: BasicOps<B>> In for Tensor<B, D, K> { fn take(v: &Dy) -> Self { Tensor::from_dy(if v.rank() == 0 && D == 1 { v.reshape(vec![1]) } else { v.clone() }) } }
impl<const D: usize, K: BasicOps<B>> Out for Tensor<B, D, K> { fn put(self, o: &mut Vec<Dy>) { o.push(self.dy) } }
macro_rules! scalars { ($($t:ty: $d:ident),*) => { $(
    impl In for $t { fn take(v: &Dy) -> Self { assert!(v.numel() == 1 && v.dtype == DType::$d, "a scalar argument of another type: {:?} {:?}", v.dtype, v.shape); <$t as Element>::from_val(v.vals()[0]) } }
    impl Out for $t { fn put(self, o: &mut Vec<Dy>) { o.push(Dy::from_vals(&[self.val()], vec![], DType::$d)) } }
)* } }
scalars!(f64: F64, f32: F32, i64: I64, i32: I32, i16: I16, i8: I8, u64: U64, u32: U32, u16: U16, u8: U8, bool: Bool, half::f16: F16, half::bf16: BF16);
impl<const N: usize> In for [i64; N] { fn take(v: &Dy) -> Self { assert_eq!((v.dtype, &v.shape[..]), (DType::I64, &[N][..])); v.iv().clone().try_into().unwrap() } }
impl<const N: usize> Out for [i64; N] { fn put(self, o: &mut Vec<Dy>) { o.push(Dy::i(vec![N], DType::I64, self.to_vec())) } }
impl Out for () { fn put(self, _: &mut Vec<Dy>) {} }
macro_rules! tuples { ($(($($n:ident)*)),*) => { $(impl<$($n: Out),*> Out for ($($n,)*) { #[allow(non_snake_case)] fn put(self, o: &mut Vec<Dy>) { let ($($n,)*) = self; $($n.put(o);)* } })* } }
tuples!((A0), (A0 A1), (A0 A1 A2), (A0 A1 A2 A3), (A0 A1 A2 A3 A4), (A0 A1 A2 A3 A4 A5), (A0 A1 A2 A3 A4 A5 A6), (A0 A1 A2 A3 A4 A5 A6 A7), (A0 A1 A2 A3 A4 A5 A6 A7 A8), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13 A14), (A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13 A14 A15));
pub fn take<T: In>(v: &Dy) -> T { T::take(v) }
pub fn out<T: Out>(t: T) -> Vec<Dy> { let mut o = vec![]; t.put(&mut o); o }

const NAMES: [(&str, DType); 13] = [("f32", DType::F32), ("f64", DType::F64), ("f16", DType::F16), ("bf16", DType::BF16), ("i8", DType::I8), ("i16", DType::I16), ("i32", DType::I32), ("i64", DType::I64), ("u8", DType::U8), ("u16", DType::U16), ("u32", DType::U32), ("u64", DType::U64), ("bool", DType::Bool)];
/// `dtype|shape|values`, the values as hexadecimal f64 bits or i64.
pub fn show(d: &Dy) -> String {
    let n = NAMES.iter().find(|x| x.1 == d.dtype).map(|x| x.0).unwrap_or("?");
    let v: Vec<String> = d.vals().iter().map(|v| match v { Val::F(x) => format!("{:x}", x.to_bits()), v => format!("{:x}", v.i()) }).collect();
    format!("{n}|{}|{}", d.shape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.join(","))
}
pub fn read(s: &str) -> Dy {
    let p: Vec<&str> = s.split('|').collect();
    let dt = NAMES.iter().find(|x| x.0 == p[0]).unwrap().1;
    let shape: Vec<usize> = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let v: Vec<u64> = p[2].split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    if dt.is_float() { Dy::f(shape, dt, v.into_iter().map(f64::from_bits).collect()) } else if dt == DType::Bool { Dy::b(shape, v.into_iter().map(|x| x != 0).collect()) } else { Dy::i(shape, dt, v.into_iter().map(|x| x as i64).collect()) }
}
pub type Names = Vec<String>;
pub type Call = Box<dyn Fn(&[Dy]) -> Vec<Dy>>;
/// One way of making a model: a tag and how.
pub struct Case { pub id: usize, pub make: fn() -> (Vec<String>, Call) }
/// The parameters of a model, as `path|kind|shape`.
pub fn params<M: Module<B>>(m: &mut M) -> Vec<String> { let mut v = Visitor::default(); m.visit("", &mut v); v.seen.iter().map(|e| format!("{}|{}|{}", e.path, e.kind, e.shape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect() }

fn msg(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ") }
/// Reads `id` lines followed by one line per valuation (inputs separated by tabs) from the file
/// named on the command line; writes the results to standard output.
pub fn main(cases: &[Case]) {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut o = std::io::BufWriter::new(std::io::stdout());
    let mut cur: Option<Call> = None;
    for l in text.lines() {
        let Some((what, rest)) = l.split_once(' ') else { continue };
        if what == "case" {
            let id: usize = rest.parse().unwrap();
            let c = cases.iter().find(|c| c.id == id).unwrap();
            writeln!(o, "case {id}").unwrap();
            cur = None;
            match std::panic::catch_unwind(|| (c.make)()) { Ok((p, c)) => { for p in p { writeln!(o, "param {p}").unwrap(); } cur = Some(c) } Err(e) => writeln!(o, "load {}", msg(e)).unwrap() }
        } else {
            let Some(c) = &cur else { continue };
            let ins: Vec<Dy> = rest.split('\t').filter(|s| !s.is_empty()).map(read).collect();
            o.flush().unwrap();
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c(&ins))) { Ok(v) => writeln!(o, "ok {}", v.iter().map(show).collect::<Vec<_>>().join("\t")).unwrap(), Err(e) => writeln!(o, "panic {}", msg(e)).unwrap() }
        }
    }
    writeln!(o, "end 0").unwrap();
}
pub use burn;
pub use burn_store;
