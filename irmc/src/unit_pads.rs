//! The padding helpers, compiled straight from /repo.
#![allow(dead_code)]
#[path = "/repo/crates/onnx-ir/src/node/padding.rs"]
mod padding;
use irmc::{guarded, util::*};
use vcore::report::*;

/// The helpers on every vector over {negative, 0, 1, 2, 3, large}.
pub fn functions(run: &mut Run) {
    let al = [i64::MIN, -1, 0, 1, 2, 3, 1 << 40];
    let mut n = 0u64;
    for (r, idx) in [(1usize, 2usize), (2, 4), (3, 6)] {
        for s in seqs(if r == 3 { 6 } else { 7 }, idx) {
            let p: Vec<i64> = s.iter().map(|i| al[*i]).collect();
            n += 1;
            let got: Result<Vec<usize>, _> = guarded(|| Ok(match r {
                1 => { let t = padding::padding_config_1d(&p).as_tuple(); vec![t.0, t.1] }
                2 => { let t = padding::padding_config_2d(&p).as_tuple(); vec![t.0, t.1, t.2, t.3] }
                _ => { let t = padding::padding_config_3d(&p).as_tuple(); vec![t.0, t.1, t.2, t.3, t.4, t.5] }
            }));
            let neg = p.iter().any(|v| *v < 0);
            match got {
                Ok(v) if neg => run.fail(&format!("padding_config_{r}d({p:?})"), format!("accepted as {v:?}")),
                Ok(v) if v.iter().zip(&p).any(|(a, b)| *a as i64 != *b) => run.fail(&format!("padding_config_{r}d({p:?})"), format!("gives {v:?}")),
                Err(e) if !neg => run.fail(&format!("padding_config_{r}d({p:?})"), e.text()),
                _ => {}
            }
        }
    }
    run.states += n; run.transitions += n; run.validated += n;
    run.count("padding_vectors", n);
}
