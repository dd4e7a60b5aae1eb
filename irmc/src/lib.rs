pub mod util;
pub mod interp;
pub mod check;
use onnx_ir::{OnnxGraph, OnnxGraphBuilder};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::proto::Model;

thread_local! { static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }
/// Silence panics and remember their message.
pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        if DEPTH.with(|d| d.get()) == 0 { eprintln!("harness panic: {m} @ {l}"); if std::env::var_os("BT").is_some() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); } }
        MSG.with(|c| *c.borrow_mut() = format!("{m} @ {l}"));
    }));
}
#[derive(Debug, Clone)]
pub enum Fail { Err(String), Panic(String) }
impl Fail { pub fn text(&self) -> String { match self { Fail::Err(s) => format!("error: {s}"), Fail::Panic(s) => format!("panic: {s}") } } }
pub fn guarded<V>(f: impl FnOnce() -> Result<V, String>) -> Result<V, Fail> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    match r { Ok(Ok(v)) => Ok(v), Ok(Err(e)) => Err(Fail::Err(e)), Err(_) => Err(Fail::Panic(MSG.with(|c| c.borrow().clone()))) }
}
pub fn import(m: &Model, simplify: bool) -> Result<OnnxGraph, Fail> { import_bytes(&m.encode(), simplify) }
pub fn import_bytes(b: &[u8], simplify: bool) -> Result<OnnxGraph, Fail> {
    guarded(|| OnnxGraphBuilder::new().simplify(simplify).parse_bytes(b).map_err(|e| e.to_string()))
}
