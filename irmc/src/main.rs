mod ext;
mod fams;
mod data;
mod pads;
mod nodes;
mod simp;
mod wf;
mod muta;
mod entry;
/// What code generated by the NodeBuilder macro refers to.
#[allow(unused)]
mod ir { pub use onnx_ir::ir::*; }
#[cfg(feature = "unit")]
mod unit_pads;
/// What the modules compiled straight from /repo import.
#[cfg(feature = "unit")]
#[allow(unused)]
mod processor {
#[derive(Debug, Clone)]
pub enum ProcessError {
    UnsupportedOpset {
        required: usize,
        actual: usize,
    },
    MissingInput(String),
    MissingOutput(String),
    InvalidInputCount {
        expected: usize,
        actual: usize,
    },
    InvalidOutputCount {
        expected: usize,
        actual: usize,
    },
    TypeMismatch {
        expected: String,
        actual: String,
    },
    ConflictingPreferences {
        output: String,
        details: Vec<String>,
    },
    MissingAttribute(String),
    InvalidAttribute {
        name: String,
        reason: String,
    },
    UnsupportedOps(Vec<String>),
    Custom(String),
}
    impl std::fmt::Display for ProcessError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for ProcessError {}
}
#[cfg(feature = "unit")]
mod unit;
fn main() {
    irmc::quiet();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("C06") => ext::c06(),
        Some("C07") => ext::c07(),
        Some("C02") => fams::c02(),
        Some("C05") => data::c05(),
        Some("C09") => pads::c09(),
        Some("C25") => nodes::c25(),
        Some("C01") => simp::c01(),
        Some("C03") => wf::c03(),
        Some("C04") => fams::c04(),
        Some("C08") => entry::c08(),
        Some("C10") => muta::c10(),
        Some("C08-lines") => { for l in entry::c08_lines(std::path::Path::new(&a[1])) { println!("{l}"); } 0 }
        Some("C08-show") => { entry::show(&a[1]); 0 }
        Some("C07-lines") => { for l in ext::c07_lines(std::path::Path::new(&a[1])) { println!("{l}"); } 0 }
        Some("C07-child") => { ext::c07_child(&a[1..]); 0 }
        _ => { eprintln!("usage: irmc Cxx"); 2 }
    };
    std::process::exit(code);
}
