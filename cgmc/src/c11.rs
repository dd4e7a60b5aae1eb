//! C11: names. The imported graph and the generated program under every assignment of names.
use crate::check::*;
use crate::engine::*;
use crate::props::*;
use irmc::check as ir;
use onnx_ir::OnnxGraph;
use std::collections::{BTreeMap, BTreeSet};
use vcore::fam::Case;
use vcore::names;
use vcore::par::{par, Scratch};
use vcore::proto::*;
use vcore::report::*;

const WORDS: [&str; 52] = ["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen"];
pub fn identifier(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c == '_' || c.is_alphabetic()) && c.all(|c| c == '_' || c.is_alphanumeric()) && s != "_" && !WORDS.contains(&s)
}
fn value_names(g: &OnnxGraph, out: &mut BTreeSet<String>) {
    for a in g.inputs.iter().chain(&g.outputs) { out.insert(a.name.clone()); }
    for n in &g.nodes { for a in n.inputs() { if a.is_dynamic() { out.insert(a.name.clone()); } } for a in n.outputs() { out.insert(a.name.clone()); } if !identifier(n.name()) { out.insert(format!("node {}", n.name())); } for (_, b) in ir::subgraphs(n) { value_names(b, out); } }
    out.remove("");
}
fn imported(c: &Case) -> Vec<(String, String)> {
    let mut bad = vec![];
    for (s, tag) in [(false, "raw"), (true, "simplified")] {
        let (v, g) = ir::judge(&c.model, s, &c.vals, c.tol);
        let e = match v { ir::V::Same(_) => None, ir::V::Refused(e) => Some(format!("refused: {e}")), ir::V::Differ(e) | ir::V::Bad(e) | ir::V::Unsup(e) | ir::V::Undef(e) => Some(e) };
        if let Some(e) = e { bad.push((format!("{}+{tag}", c.name), e)); continue; }
        let g = g.unwrap();
        let mut ns = BTreeSet::new(); value_names(&g, &mut ns);
        let mut w = ir::wf(&g, &c.model);
        for n in ns { if !identifier(&n) { w.push(format!("'{n}' is not an identifier")); } }
        if !w.is_empty() { bad.push((format!("{}+{tag}", c.name), w.join("; "))); }
    }
    bad
}
/// The variables a generated program binds, other than the results of its nodes.
pub fn locals(code: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    let Some(at) = code.find("pub fn forward") else { return v };
    let b: Vec<&str> = { let mut t = vec![]; let mut cur: Option<usize> = None; let s = &code[at..]; for (i, c) in s.char_indices() { let id = c == '_' || c.is_alphanumeric(); match (id, cur) { (true, None) => cur = Some(i), (false, Some(j)) => { t.push(&s[j..i]); cur = None; } _ => {} } if !id && !c.is_whitespace() { t.push(&s[i..i + c.len_utf8()]); } } t };
    let mut i = 0;
    let word = |t: &str| t.chars().next().is_some_and(|c| c == '_' || c.is_lowercase()) && !["mut", "ref", "move", "let", "for", "in", "if"].contains(&t);
    while i < b.len() {
        // a pattern: after `let` or `for`, or between the bars of a closure
        let end = match b[i] { "let" => "=", "for" => "in", "|" => "|", _ => { i += 1; continue; } };
        let mut j = i + 1; let mut found = vec![]; let mut ty = false;
        while j < b.len() && b[j] != end && j < i + 40 { match b[j] { ":" => ty = true, "," | "(" => ty = false, t if word(t) && !ty => found.push(t.to_string()), _ => {} } j += 1; }
        if end != "|" || j < i + 12 { v.extend(found); }
        i += 1;
    }
    // as are the parameters and calls of functions it declares
    v.retain(|s| !s.contains("_out") && identifier(s));
    v
}
/// The model with one of its inputs renamed everywhere.
fn rename(c: &Case, from: &str, to: &str) -> Option<Case> {
    fn used(g: &Graph, n: &str) -> bool { g.inputs.iter().chain(&g.outputs).any(|v| v.name == n) || g.inits.iter().any(|t| t.name == n) || g.nodes.iter().any(|x| x.inputs.iter().chain(&x.outputs).any(|v| v == n) || x.attrs.iter().any(|(_, a)| matches!(a, Attr::G(b) if used(b, n)))) }
    fn put(g: &mut Graph, from: &str, to: &str) {
        for v in g.inputs.iter_mut().chain(g.outputs.iter_mut()).chain(g.value_info.iter_mut()) { if v.name == from { v.name = to.into(); } }
        for t in g.inits.iter_mut() { if t.name == from { t.name = to.into(); } }
        for n in g.nodes.iter_mut() { for v in n.inputs.iter_mut().chain(n.outputs.iter_mut()) { if v == from { *v = to.into(); } } for (_, a) in n.attrs.iter_mut() { if let Attr::G(b) = a { put(b, from, to); } } }
    }
    if used(&c.model.graph, to) { return None; }
    let mut d = c.clone();
    put(&mut d.model.graph, from, to);
    d.name = format!("{}/{from}={to}", c.name); d.group = "own_locals";
    Some(d)
}
/// Renames `from` only inside the bodies: what a Loop or Scan provides.
fn body_inputs(g: &Graph, v: &mut Vec<String>) { for n in &g.nodes { for (_, a) in &n.attrs { if let Attr::G(b) = a { v.extend(b.inputs.iter().map(|i| i.name.clone())); body_inputs(b, v); } } } }

pub fn c11() -> i32 {
    let mut run = Run::new("C11"); let mut by: BTreeMap<String, u64> = BTreeMap::new();
    let only = std::env::var("ONLY").ok();
    let deep = thorough();
    let al = names::alphabet();
    // 1. the imported graph
    let mut buf: Vec<Case> = vec![];
    let mut flush = |run: &mut Run, buf: &mut Vec<Case>| {
        let res = par(buf, imported);
        for (c, bad) in buf.iter().zip(res) { run.states += 1; run.transitions += 2 * c.model.graph.nodes.len() as u64 * c.vals.len() as u64; if bad.is_empty() { run.validated += 2; if run.states % 100_003 == 5 { run.sample(|| format!("imported {}", c.name)); } } for (k, e) in bad { run.fail(&format!("imported/{k}"), e); } }
        *by.entry("imported".into()).or_default() += buf.len() as u64;
        buf.clear();
    };
    let mut see = |run: &mut Run, c: Case| { if only.as_ref().is_none_or(|o| c.name.contains(o.as_str())) { buf.push(c); if buf.len() >= 40_000 { flush(run, &mut buf); } } };
    let als: Vec<String> = al.iter().map(|s| s.to_string()).collect();
    names::singles(&als, &mut |c| see(&mut run, c));
    names::pairs(&al, &mut |c| see(&mut run, c));
    flush(&mut run, &mut buf);
    // 2. the generated program: the alphabet and every variable that generated code binds by itself
    let libs = Libs::load();
    let mut classes = vcore::wts::classes(vcore::fam2::all(), true);
    let mut seen = BTreeSet::new();
    vcore::ctl::control(false, &mut |c| { let k = format!("{:?}", c.model.graph.nodes.iter().map(skeleton).collect::<Vec<_>>()); if seen.insert(k) { classes.push(c) } });
    let sc = Scratch::new("C11g");
    let ix: Vec<usize> = (0..classes.len()).collect();
    let own: Vec<BTreeSet<String>> = par(&ix, |k| { let p = sc.0.join(format!("g{k}.onnx")); std::fs::write(&p, classes[*k].model.encode()).unwrap(); generate(&p, &sc.0, PLAIN).map(|(c, _)| locals(&c)).unwrap_or_default() });
    drop(sc);
    let bound: BTreeSet<String> = own.iter().flatten().cloned().collect();
    run.notes.push(format!("variables generated code binds: {}", bound.iter().cloned().collect::<Vec<_>>().join(" ")));
    let mut all: Vec<String> = als.clone(); all.extend(bound.iter().filter(|b| !als.contains(b)).cloned());
    let mut cases = vec![];
    names::singles(&all, &mut |c| cases.push(c));
    let few = ["p.q", "p/q", "pQ", "P_Q", "_", ".", "1", "_1", "\u{e9}", "type", "self", "sub1_out1", "Sub1_out1", "i", "I"];
    names::pairs(if deep { &few } else { &few[..7] }, &mut |c| cases.push(c));
    // the inputs of every operator's model named as the variables of its own code
    let mut own_cases = vec![];
    for (c, h) in classes.iter().zip(&own) {
        let mut from: Vec<String> = c.model.graph.inputs.iter().map(|i| i.name.clone()).collect(); body_inputs(&c.model.graph, &mut from); from.sort(); from.dedup();
        for f in &from { for n in h { if n != f { own_cases.extend(rename(c, f, n)); } } }
    }
    let cases = limit(cases); let own_cases = limit(own_cases);
    for (o, tag) in if deep { vec![(PLAIN, "+simplified"), (RAW, "+raw")] } else { vec![(PLAIN, "+simplified")] } {
        sweep(&mut run, &libs, &cases, o, true, &mut |run, c, r| { let mut d = c.clone(); d.name = format!("generated/{}", c.name); decide(run, &mut by, &d, tag, r, false) });
        // as good under these names as under its own
        let plain: Vec<Case> = classes.iter().filter(|c| own_cases.iter().any(|d| d.name.starts_with(&format!("{}/", c.name)))).cloned().collect();
        let mut good = BTreeSet::new();
        sweep(&mut run, &libs, &plain, o, true, &mut |_, c, r| { if matches!(judge(c, &r.out), V::Same(_)) { good.insert(c.name.clone()); } });
        sweep(&mut run, &libs, &own_cases, o, true, &mut |run, c, r| { let base = c.name.rsplit_once('/').unwrap().0; if good.contains(base) { decide(run, &mut by, c, tag, r, false) } else { *by.entry("operator_wrong_by_itself".into()).or_default() += 1; } });
    }
    tally(&mut run, by);
    run.finish()
}
fn skeleton(n: &Node) -> String { format!("{}/{}/{}{:?}", n.op, n.inputs.len(), n.outputs.len(), n.attrs.iter().filter_map(|(k, a)| if let Attr::G(g) = a { Some((k.clone(), g.nodes.iter().map(skeleton).collect::<Vec<_>>())) } else { None }).collect::<Vec<_>>()) }
