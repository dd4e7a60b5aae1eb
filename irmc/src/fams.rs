//! C02, C04 over the operator families.
use irmc::{check::*, import, interp, util::*};
use std::collections::BTreeMap;
use vcore::fam::Case;
use vcore::report::*;

pub fn families() -> Vec<Case> { vcore::fam2::all() }

pub fn c02() -> i32 {
    let mut run = Run::new("C02");
    let cases = families();
    let res = par(&cases, |c| judge(&c.model, false, &c.vals, c.tol).0);
    let mut by: BTreeMap<String, u64> = BTreeMap::new();
    for (c, v) in cases.iter().zip(res) {
        run.states += 1; run.transitions += c.model.graph.nodes.len() as u64 * c.vals.len() as u64;
        let k = match &v {
            V::Same(n) => { run.validated += *n as u64; "agree" }
            V::Undef(_) => "reference_undefined",
            V::Unsup(e) => { run.fail(&format!("{}/unsupported", c.name), format!("harness cannot evaluate: {e}")); "harness_unsupported" }
            V::Refused(_) if c.may_refuse => "refused_as_documented",
            V::Refused(e) => { run.fail(&c.name, format!("refused: {e}")); "refused" }
            V::Differ(e) => { run.fail(&c.name, e.clone()); "differ" }
            V::Bad(e) => { run.fail(&c.name, format!("broken graph: {e}")); "broken" }
        };
        *by.entry(format!("{}_{k}", c.group)).or_default() += 1;
        if c.lvl == 0 && run.states % 9001 == 5 { run.sample(|| format!("{} -> agrees", c.name)); }
    }
    for (k, n) in by { run.count(&k, n); }
    run.finish()
}
pub fn c04() -> i32 {
    let mut run = Run::new("C04");
    let cases = families();
    let res = par(&cases, |c| {
        let mut bad = vec![]; let mut n = 0u64; let mut m = 0u64;
        for s in [false, true] {
            let Ok(g) = import(&c.model, s) else { continue };
            for v in &c.vals {
                if reference(&c.model, v).is_err() { continue; }
                if let Ok(Ok((_, env))) = irmc::check::run(&g, &c.model, v) {
                    n += 1; m += env.len() as u64;
                    bad.extend(types(&g, &env));
                }
            }
        }
        bad.sort(); bad.dedup();
        (bad, n, m)
    });
    for (c, (bad, n, m)) in cases.iter().zip(res) {
        run.states += 1; run.transitions += m; run.validated += n;
        if !bad.is_empty() { run.fail(&c.name, bad.join("; ")); }
    }
    let _ = interp::dump;
    run.finish()
}
