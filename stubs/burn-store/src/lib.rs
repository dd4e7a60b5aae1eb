//! Snapshots and the weights file of the stand-in (its own simple container format).
use burn::module::{Module, ParamId, Visitor};
use burn::tensor::{Backend, DType, TensorData};
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum TensorSnapshotError { IoError(String), DataError(String), PanicError(String) }
impl core::fmt::Display for TensorSnapshotError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for TensorSnapshotError {}

#[derive(Clone)]
pub struct TensorSnapshot { data_fn: Rc<dyn Fn() -> Result<TensorData, TensorSnapshotError>>, pub dtype: DType, pub shape: Vec<usize>, pub path_stack: Option<Vec<String>>, pub container_stack: Option<Vec<String>>, pub tensor_id: Option<ParamId> }
impl core::fmt::Debug for TensorSnapshot { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{}", self.full_path()) } }
impl TensorSnapshot {
    pub fn from_closure(data_fn: Rc<dyn Fn() -> Result<TensorData, TensorSnapshotError>>, dtype: DType, shape: Vec<usize>, path: Vec<String>, container: Vec<String>, id: ParamId) -> Self { TensorSnapshot { data_fn, dtype, shape, path_stack: Some(path), container_stack: Some(container), tensor_id: Some(id) } }
    pub fn from_data(data: TensorData, path: Vec<String>, container: Vec<String>, id: ParamId) -> Self { let (d, s) = (data.dtype, data.shape.clone()); Self::from_closure(Rc::new(move || Ok(data.clone())), d, s, path, container, id) }
    pub fn to_data(&self) -> Result<TensorData, TensorSnapshotError> { (self.data_fn)() }
    pub fn full_path(&self) -> String { self.path_stack.as_ref().map(|p| p.join(".")).unwrap_or_default() }
    pub fn data_len(&self) -> usize { self.shape.iter().product::<usize>() * self.dtype.size() }
}
#[derive(Clone, Debug)]
pub struct BurnpackError(pub String);
impl core::fmt::Display for BurnpackError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for BurnpackError {}

const NAMES: [DType; 13] = [DType::F64, DType::F32, DType::F16, DType::BF16, DType::I64, DType::I32, DType::I16, DType::I8, DType::U64, DType::U32, DType::U16, DType::U8, DType::Bool];
pub struct BurnpackWriter { snapshots: Vec<TensorSnapshot>, meta: BTreeMap<String, String> }
impl BurnpackWriter {
    pub fn new(snapshots: Vec<TensorSnapshot>) -> Self { BurnpackWriter { snapshots, meta: BTreeMap::new() } }
    pub fn with_metadata(mut self, k: &str, v: &str) -> Self { self.meta.insert(k.into(), v.into()); self }
    pub fn to_bytes(&self) -> Result<Vec<u8>, BurnpackError> {
        let mut o = b"BPKSTUB1".to_vec();
        let mut num = |o: &mut Vec<u8>, n: usize| o.extend((n as u64).to_le_bytes());
        let text = |o: &mut Vec<u8>, s: &str| { o.extend((s.len() as u64).to_le_bytes()); o.extend(s.as_bytes()); };
        num(&mut o, self.meta.len());
        for (k, v) in &self.meta { text(&mut o, k); text(&mut o, v); }
        num(&mut o, self.snapshots.len());
        for s in &self.snapshots {
            let d = s.to_data().map_err(|e| BurnpackError(format!("{}: {e}", s.full_path())))?;
            // the writer lays out the file from the declared metadata and checks the data against it
            let bytes = d.as_bytes();
            if bytes.len() != s.data_len() { return Err(BurnpackError(format!("Data corruption: tensor '{}' has inconsistent length (expected {}, got {})", s.full_path(), s.data_len(), bytes.len()))); }
            text(&mut o, &s.full_path());
            num(&mut o, NAMES.iter().position(|x| *x == s.dtype).ok_or(BurnpackError("dtype".into()))?);
            num(&mut o, s.shape.len());
            for x in &s.shape { num(&mut o, *x); }
            num(&mut o, bytes.len());
            o.extend(bytes);
        }
        Ok(o)
    }
    pub fn write_to_file<P: AsRef<Path>>(self, p: P) -> Result<(), BurnpackError> { let b = self.to_bytes()?; std::fs::write(p, b).map_err(|e| BurnpackError(e.to_string())) }
}
/// Everything a weights file holds, in file order.
pub fn parse(b: &[u8]) -> Result<Vec<(String, TensorData)>, BurnpackError> {
    let mut p = 0;
    let e = |s: &str| BurnpackError(s.to_string());
    fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Result<&'a [u8], BurnpackError> { let r = b.get(*p..*p + n).ok_or(BurnpackError("truncated".into()))?; *p += n; Ok(r) }
    fn num(b: &[u8], p: &mut usize) -> Result<usize, BurnpackError> { Ok(u64::from_le_bytes(take(b, p, 8)?.try_into().unwrap()) as usize) }
    fn text(b: &[u8], p: &mut usize) -> Result<String, BurnpackError> { let n = num(b, p)?; String::from_utf8(take(b, p, n)?.to_vec()).map_err(|e| BurnpackError(e.to_string())) }
    if take(b, &mut p, 8)? != b"BPKSTUB1" { return Err(e("magic")); }
    for _ in 0..num(b, &mut p)? { text(b, &mut p)?; text(b, &mut p)?; }
    let mut r = vec![];
    for _ in 0..num(b, &mut p)? {
        let name = text(b, &mut p)?;
        let d = *NAMES.get(num(b, &mut p)?).ok_or(e("dtype"))?;
        let n = num(b, &mut p)?;
        let s = (0..n).map(|_| num(b, &mut p)).collect::<Result<Vec<_>, _>>()?;
        let n = num(b, &mut p)?;
        r.push((name, TensorData::from_bytes_vec(take(b, &mut p, n)?.to_vec(), s, d)));
    }
    Ok(r)
}
pub enum BurnpackStore { File(std::path::PathBuf), Bytes(Vec<u8>) }
impl BurnpackStore {
    pub fn from_file<P: AsRef<Path>>(p: P) -> Self { BurnpackStore::File(p.as_ref().to_path_buf()) }
    pub fn from_static(b: &'static [u8]) -> Self { BurnpackStore::Bytes(b.to_vec()) }
    pub fn from_bytes(b: Option<Vec<u8>>) -> Self { BurnpackStore::Bytes(b.unwrap_or_default()) }
    pub fn entries(&self) -> Result<Vec<(String, TensorData)>, BurnpackError> { match self { BurnpackStore::File(p) => parse(&std::fs::read(p).map_err(|e| BurnpackError(e.to_string()))?), BurnpackStore::Bytes(b) => parse(b) } }
}
#[derive(Clone, Debug, Default)]
pub struct ApplyResult { pub missing: Vec<String>, pub unused: Vec<String> }
pub trait ModuleSnapshot<B: Backend>: Module<B> {
    fn load_from(&mut self, store: &mut BurnpackStore) -> Result<ApplyResult, BurnpackError> {
        let es = store.entries()?;
        let names: Vec<String> = es.iter().map(|x| x.0.clone()).collect();
        let mut v = Visitor { data: Some(es.into_iter().collect()), ..Default::default() };
        self.visit("", &mut v);
        if !v.errors.is_empty() { return Err(BurnpackError(format!("validation: {:?}", v.errors))); }
        if !v.missing.is_empty() { return Err(BurnpackError(format!("missing tensors: {:?}", v.missing))); }
        Ok(ApplyResult { missing: vec![], unused: names.into_iter().filter(|n| !v.used.contains(n)).collect() })
    }
}
impl<B: Backend, M: Module<B>> ModuleSnapshot<B> for M {}
