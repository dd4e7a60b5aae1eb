//! Two private modules of the importer, compiled straight from /repo.
#![allow(dead_code)]
#[path = "/repo/crates/onnx-ir/src/external_data.rs"]
mod external_data;
use irmc::util::*;
use std::path::{Path, PathBuf};
use vcore::report::*;

/// `resolve_path` on every location, also for locations that name nothing.
pub fn paths(run: &mut Run, root: &Path, locs: &[String]) {
    let base = root.join("model");
    let bases = [base.clone(), root.join("mlink"), base.join("sub/..")];
    let mut n = 0;
    for b in &bases {
        for l in locs {
            let info = external_data::ExternalDataInfo { location: PathBuf::from(l), offset: 0, length: None, checksum: None };
            let r = irmc::guarded(|| info.resolve_path(b));
            n += 1; run.states += 1; run.transitions += 1; run.validated += 1;
            let lexically_bad = l.contains('\0') || l.starts_with('/') || l.split('/').any(|c| c == "..");
            let real = b.join(l).canonicalize().ok();
            let inside = real.as_ref().map(|r| r.starts_with(base.canonicalize().unwrap()));
            let key = format!("resolve:{}", l.replace(root.to_str().unwrap(), "<root>").escape_default());
            match r {
                Ok(p) if lexically_bad || inside == Some(false) => run.fail(&key, format!("resolve_path({l:?}) on {b:?} = {p:?} although it leaves the directory")),
                Ok(p) if inside == Some(true) && p.canonicalize().ok() != real => run.fail(&key, format!("resolve_path({l:?}) on {b:?} = {p:?} which is another file than {real:?}")),
                Ok(p) if inside.is_none() && p.exists() => run.fail(&key, format!("resolve_path({l:?}) on {b:?} = {p:?} names an existing file, the location names none")),
                Err(e) if !lexically_bad && inside == Some(true) => run.fail(&key, format!("resolve_path({l:?}) on {b:?} refused: {}", e.text())),
                _ => {}
            }
        }
    }
    run.count("resolve_path_calls", n);
}
/// `from_proto_entries` on every sequence of up to four entries.
pub fn entries(run: &mut Run) {
    let al = [("location", "w.bin"), ("location", "sub/v.bin"), ("offset", "0"), ("offset", "4096"), ("offset", "18446744073709551615"), ("offset", "-1"), ("length", "0"), ("length", "77"), ("length", "x"), ("length", ""), ("checksum", "c"), ("other", "9"), ("", "")];
    let mut n = 0;
    for k in 0..=4 { for s in seqs(al.len(), k) {
        let kv: Vec<(&str, &str)> = s.iter().map(|i| al[*i]).collect();
        let dup = ["location", "offset", "length", "checksum"].iter().any(|k| kv.iter().filter(|e| e.0 == *k).count() > 1);
        if dup { continue; }
        let get = |k: &str| kv.iter().find(|e| e.0 == k).map(|e| e.1);
        let num = |k: &str| get(k).map(|v| v.parse::<u64>().map_err(|_| ()));
        let want = match (get("location"), num("offset"), num("length")) { (Some(l), o, Some(Ok(n))) if o != Some(Err(())) => Some((l, o.map(|x| x.unwrap()).unwrap_or(0), Some(n))), (Some(l), o, None) if o != Some(Err(())) => Some((l, o.map(|x| x.unwrap()).unwrap_or(0), None)), _ => None };
        let got = irmc::guarded(|| external_data::ExternalDataInfo::from_proto_entries(kv.iter().copied()));
        n += 1; run.states += 1; run.transitions += kv.len() as u64; run.validated += 1;
        let key = format!("entries {kv:?}");
        match (want, got) {
            (None, Ok(i)) => run.fail(&key, format!("accepted as {i:?}")),
            (Some(w), Ok(i)) => if i.location != Path::new(w.0) || i.offset != w.1 || i.length != w.2 { run.fail(&key, format!("parsed as {i:?}")) },
            (Some(_), Err(e)) => run.fail(&key, e.text()),
            _ => {}
        }
    } }
    run.count("entry_sequences", n);
}
