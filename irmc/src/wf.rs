//! C03: well-formed graphs with the model's interface.
use irmc::{check::*, import, util::*};
use vcore::fam::Case;
use vcore::report::*;

pub enum O { Ok(usize), Refused(String), Bad(String) }
pub fn one(c: &Case, simplify: bool, values: bool) -> O {
    let g = match import(&c.model, simplify) { Ok(g) => g, Err(f) => return O::Refused(f.text()) };
    let bad = wf(&g, &c.model);
    if !bad.is_empty() { return O::Bad(bad.join("; ")); }
    if !values { return O::Ok(0); }
    match compare(&g, &c.model, &c.vals, c.tol) { V::Same(n) => O::Ok(n), V::Differ(e) | V::Bad(e) => O::Bad(e), _ => O::Ok(0) }
}
fn batch(run: &mut Run, cases: &mut Vec<Case>, group: &str, values: bool) {
    for simplify in [false, true] {
        let res = par(cases, |c| one(c, simplify, values));
        for (c, r) in cases.iter().zip(res) {
            run.states += 1; run.transitions += c.model.graph.nodes.len() as u64;
            match r {
                O::Ok(n) => { run.validated += n as u64; run.count(&format!("{group}_well_formed"), 1); if run.states % 7919 == 3 { run.sample(|| format!("{} (simplify {simplify}): well formed", c.name)); } }
                O::Refused(e) => { run.count(&format!("{group}_refused"), 1); if std::env::var("SHOW_REFUSED").is_ok() { println!("{} {e}", c.name); } }
                O::Bad(e) => run.fail(&format!("{}{}", c.name, if simplify { "/simplified" } else { "" }), e),
            }
        }
    }
    cases.clear();
}
pub fn c03() -> i32 {
    let mut run = Run::new("C03");
    let only = std::env::var("C03_ONLY").unwrap_or_default();
    let deep = thorough();
    let mut buf: Vec<Case> = vec![];
    if "topo".starts_with(&only) { vcore::topo::wirings(deep, &mut |c| { buf.push(c); if buf.len() == 20000 { batch(&mut run, &mut buf, "wiring", true); } }); batch(&mut run, &mut buf, "wiring", true); }
    if "ctl".starts_with(&only) { vcore::ctl::control(deep, &mut |c| buf.push(c)); batch(&mut run, &mut buf, "control", true); }
    if "families".starts_with(&only) { buf = crate::fams::families(); batch(&mut run, &mut buf, "families", false); }
    if "programs".starts_with(&only) { for th in vcore::prog::themes(false) { if !deep && th.depth > 2 && !th.name.starts_with("shape/[5]") { continue; } vcore::prog::programs(&th, &mut |c| { buf.push(c); if buf.len() == 20000 { batch(&mut run, &mut buf, "programs", false); } }); batch(&mut run, &mut buf, "programs", false); } vcore::prog::attention_blocks(false, &mut |c| buf.push(c)); batch(&mut run, &mut buf, "attention", false); }
    run.finish()
}
