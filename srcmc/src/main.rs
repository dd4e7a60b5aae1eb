//! C24: the formatter and the import header, compiled straight from /repo.
#[path = "/repo/crates/burn-onnx/src/formatter.rs"]
#[allow(dead_code)]
mod formatter;
#[path = "/repo/crates/burn-onnx/src/burn/imports.rs"]
#[allow(dead_code)]
mod imports;
use proc_macro2::{Delimiter, Literal, Span, TokenStream, TokenTree};
use quote::quote;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::report::*;

/// A token sequence as text, with what layout may change taken out: a comma before a closing
/// delimiter, and the generator's layout markers (which become blank lines and comments).
fn flat(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            let marker = id == "_blank_" || id == "_comment_";
            if marker && matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '!') && matches!(v.get(i + 2), Some(TokenTree::Group(_))) {
                i += 3;
                if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if !a.is_empty() { out.push(a.into()); }
                let call = i > 0 && match &v[i - 1] { TokenTree::Ident(w) => !["return", "in", "match", "if", "while", "break", "as", "mut", "else", "move", "let"].contains(&w.to_string().as_str()), TokenTree::Punct(p) => p.as_char() == '>' && !matches!(i.checked_sub(2).map(|j| &v[j]), Some(TokenTree::Punct(q)) if q.as_char() == '=' || q.as_char() == '-'), TokenTree::Group(g) => g.delimiter() != Delimiter::Brace, _ => false };
                let k = out.len();
                flat(g.stream(), out);
                if out.last().map(|s| s == ",").unwrap_or(false) && out.len() > k && !(a == "(" && !call && one_tuple(&out[k..])) { out.pop(); }
                if !b.is_empty() { out.push(b.into()); }
            }
            TokenTree::Literal(l) if out.last().map(|x| x == ".").unwrap_or(false) && l.to_string().contains('.') => for (k, p) in l.to_string().split('.').enumerate() { if k > 0 { out.push(".".into()); } out.push(p.into()); },
            TokenTree::Literal(l) => out.push(lit(l)),
            t => out.push(t.to_string()),
        }
        i += 1;
    }
}
/// `(x,)`: its only top-level comma is the last token.
fn one_tuple(inner: &[String]) -> bool {
    let mut d = 0i32; let mut n = 0;
    for (i, t) in inner.iter().enumerate() { match t.as_str() { "(" | "[" | "{" => d += 1, ")" | "]" | "}" => d -= 1, "," if d == 0 && inner.get(i + 1).map(|x| x != ">").unwrap_or(true) => n += 1, _ => {} } }
    n == 1
}
/// String literals by value (a doc comment's text may be spelled as a raw string).
fn lit(l: &Literal) -> String { let s = l.to_string(); if s.starts_with('"') || s.starts_with('r') { if let Ok(v) = syn::parse_str::<syn::LitStr>(&s) { return format!("{:?}{}", v.value(), v.suffix()); } } s }
fn toks(ts: TokenStream) -> Vec<String> { let mut v = vec![]; flat(ts, &mut v); v }
fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())) }
/// Before comparing: braces' trailing commas after match arm blocks are layout as well.
fn norm(v: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for (i, t) in v.iter().enumerate() {
        if t == "," && (i > 0 && v[i - 1] == "}" || v.get(i + 1).map(|n| n == ">").unwrap_or(false)) { continue; }
        o.push(t.clone());
    }
    o
}

/// Braces around the one expression of a match arm or closure body are layout.
struct Unwrap;
impl Unwrap {
    fn body(e: &mut syn::Expr) {
        loop {
            let inner = match &*e {
                syn::Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(x, None) => x.clone(), _ => return },
                syn::Expr::Tuple(t) if t.elems.is_empty() && t.attrs.is_empty() => syn::parse_quote!({}),
                _ => return,
            };
            *e = inner;
        }
    }
}
impl syn::visit_mut::VisitMut for Unwrap {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) { syn::visit_mut::visit_arm_mut(self, a); Self::body(&mut a.body); }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) { syn::visit_mut::visit_expr_closure_mut(self, c); if matches!(c.output, syn::ReturnType::Default) { Self::body(&mut c.body); } }
}
fn braces(ts: TokenStream) -> TokenStream {
    let t = ts.to_string();
    if !t.contains("=>") && !t.contains('|') { return ts; }
    match syn::parse2::<syn::File>(ts.clone()) { Ok(mut f) => { syn::visit_mut::VisitMut::visit_file_mut(&mut Unwrap, &mut f); quote::ToTokens::into_token_stream(f) } Err(_) => ts }
}
/// Nothing on success.
fn check(text: &str) -> Result<(), String> {
    let src: TokenStream = text.parse().unwrap();
    let src = &src;
    let want = norm(toks(braces(src.clone())));
    let once = guard(|| formatter::format_tokens(src.clone()))?;
    let back: TokenStream = once.parse().map_err(|e| format!("the formatted text is not tokens: {e}\n{once}"))?;
    let got = norm(toks(braces(back.clone())));
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("token {k}: {:?} became {:?}\n{once}", want[k.saturating_sub(2)..(k + 4).min(want.len())].join(" "), got[k.saturating_sub(2)..(k + 4).min(got.len())].join(" ")));
    }
    // a file of inner attributes only is nothing a generator writes
    if syn::parse2::<syn::File>(back.clone()).map(|f| f.items.is_empty()).unwrap_or(false) { return Ok(()); }
    let twice = guard(|| formatter::format_tokens(back)).map_err(|e| format!("formatting again: {e}\n{once}"))?;
    // comments and blank lines are not tokens, so formatting the text again drops them
    let strip = |s: &str| s.lines().filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with("// ")).map(|l| format!("{l}\n")).collect::<String>();
    let has_marker = src.to_string().contains("_blank_") || src.to_string().contains("_comment_");
    if if has_marker { strip(&once) != strip(&twice) } else { once != twice } { return Err(format!("formatting again changes the text:\n{once}\n----\n{twice}")); }
    let again = guard(|| formatter::format_tokens(src.clone()))?;
    if again != once { return Err("formatting the same tokens twice gives different text".into()); }
    Ok(())
}
fn par<A: Sync, R: Send>(items: &[A], f: impl Fn(&A) -> R + Sync) -> Vec<R> {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut out: Vec<(usize, R)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|_| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || { let mut v = vec![]; loop { let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed); if i >= items.len() { break v; } v.push((i, f(&items[i]))); } }).unwrap()).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    out.sort_by_key(|x| x.0);
    out.into_iter().map(|x| x.1).collect()
}

const ATOMS: &[&str] = &["x", "self.a", "1", "-1", "0u8", "1_000i64", "0xffu32", "1.0", "1e-5", "1.5f32", "1e10f64", "f32::NEG_INFINITY", "-2.5", "true", "'a'", "'\\n'", "'\"'", "\"s\"", "b\"bytes\\x00\"", "r\"raw\"", "r#type", "()", "a::b::C", "B::Device", "Tensor::<B, 2>::zeros([1, 2], &*self.device)", "<T as Into<f64>>::into(x)", "burn::tensor::Shape::new([2usize, 3usize])", "1isize", "340282350000000000000000000000000000000f32", "i64::MIN", "self"];
const FORMS: &[&str] = &["#.add(@)", "@.add(#)", "@.cast::<f32, 2>(#)", "#.expand(@)", "# as f64", "-#", "!#", "&#", "&mut #", "*#", "(#)", "(#,)", "(#, @)", "(@, #)", "[#, @]", "[@, #]", "[#; 3]", "[@; #]", "# + @", "@ + #", "# - @", "@ - #", "# * @", "@ * #", "@ / #", "@ % #", "# % @", "# << @", "# >> @", "# & @", "# | @", "# ^ @", "# == @", "# != @", "# < @", "# > @", "# <= @", "# >= @", "# && @", "@ || #", "x[#]", "x[#..]", "x[..#]", "x[#..@]", "x[@..=#]", "#..@", "#?", "#.0", "if # { @ } else { y }", "if @ { # } else { y }", "if @ { x } else if # { y } else { z }", "if let Some(q) = # { @ } else { z }", "match # { 0 => @, 1 | 2 => y, _ => z }", "match @ { A { x, .. } => #, B(y) if y > 1 => y, _ => { w; z } }", "|x| #", "move |x: f32| -> f32 { # }", "{ let a = #; a }", "{ g(#); }", "S { a: #, b: @ }", "S { a, ..# }", "f(#)", "f(@, #, x)", "vec![#, @]", "vec![#; 3]", "format!(\"{}\", #)", "assert_eq!(#, @)", "loop { break #; }", "for i in 0..# { @; }", "for (i, v) in #.iter().enumerate() { y += @; }", "while # { @; }", "'l: loop { if # { break 'l; } continue 'l; }", "unsafe { # }", "{ x = #; }", "{ x += #; y }", "{ x[@] = #; }", "{ return #; }", "#.await", "|| { # }", "let_chain(#).unwrap_or_else(|e| panic!(\"{e}\", e = @))", "TryInto::<[i64; 2]>::try_into(#).unwrap()", "{ use a::b; # }", "{ const N: usize = #; N }", "{ let (a, b): (f32, [i64; 2]) = #; a }", "{ fn g() -> f32 { # } g() }"];
const ITEMS: &[&str] = &["use burn::prelude::*;", "use burn::nn::{Linear, LinearConfig as L, conv::*};", "use crate::a; use super::b;", "pub struct Model<B: Backend> { a: Linear<B>, phantom: core::marker::PhantomData<B>, device: burn::module::Ignored<B::Device>, }", "#[derive(Module, Debug)] pub struct S<B: Backend>(pub Tensor<B, 2>, f32);", "struct Unit;", "impl<B: Backend> Default for Model<B> { fn default() -> Self { Self::from_file(\"p\", &Default::default()) } }", "impl<B: Backend, const D: usize> Model<B> where B: Clone, Self: Sized, { const N: usize = 3; #[allow(unused_variables)] pub fn new(device: &B::Device) -> Self { let a = LinearConfig::new(2, 3).with_bias(true).init(device); Self { a, phantom: core::marker::PhantomData, device: burn::module::Ignored(device.clone()), } } }", "fn f(a: Tensor<B, 2>, mut b: [i64; 3], c: &'static str) -> (Tensor<B, 2, Int>, f32) { let x = a; (x, 1.0) }", "pub(crate) const X: &[u8] = &[1, 2];", "static Y: f32 = 1e-5;", "enum E { A, B(f32), C { x: i32 } = 3 }", "type T<'a> = &'a dyn Fn(f32) -> f32;", "mod m { pub fn g() {} }", "trait Q: Clone { fn q(&self) -> i32; }", "#![allow(dead_code)]", "#[doc = \" A doc line\"] fn d() {}", "#[cfg(test)] mod t { #[test] fn a() { assert!(true); } }", "_blank_!();", "_comment_!(\"Generated from ONNX \\\"m.onnx\\\"\");", "static STATES: &[u8] = include_bytes!(\"m.bpk\");", "macro_rules! m { ($a:expr) => { $a + 1 }; }", "extern crate alloc;", "#[repr(C, align(16))] struct Aligned([u8; include_bytes!(concat!(\"/tmp\", \"/m.bpk\")).len()]);"];

fn put(form: &str, inner: &str) -> String { form.replace('#', inner).replace('@', "y") }
fn sources(run: &mut Run) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let wrap = |k: usize, e: &str| match k { 0 => format!("fn f() {{ let a = {e}; }}"), 1 => format!("fn f() -> T {{ {e} }}"), _ => format!("impl M {{ pub fn f(&self) {{ let _ = {e}; x }} }}") };
    for a in ATOMS { for k in 0..3 { v.push((format!("atom/{k}/{a}"), wrap(k, a))); } for f in FORMS { for k in 0..3 { v.push((format!("one/{k}/{f}/{a}"), wrap(k, &put(f, a)))); } } }
    let small: &[&str] = if thorough() { ATOMS } else { &["x", "-1", "\"s\"", "self.a"] };
    for f in FORMS { for g in FORMS { for a in small { for k in 0..2 { v.push((format!("two/{k}/{f}/{g}/{a}"), wrap(k, &put(f, &put(g, a))))); } } } }
    if thorough() { for f in FORMS { for g in FORMS { for h in FORMS {
        // a block-like expression leading a closure's body is re-braced by the pretty printer
        let has = |p: &dyn Fn(&str) -> bool| [f, g, h].iter().any(|x| p(x));
        if has(&|x| x.contains('|') && !x.contains("||") && x.contains("|x") || x.starts_with("||")) && has(&|x| ["{", "if", "match", "loop", "for", "while", "'l", "unsafe"].iter().any(|p| x.starts_with(p))) { continue; }
        v.push((format!("three/{f}/{g}/{h}"), wrap(0, &put(f, &put(g, &put(h, "x")))))); } } } }
    for a in ITEMS { v.push((format!("item/{a}"), a.to_string())); for b in ITEMS { v.push((format!("items/{a}/{b}"), format!("{a} {b}"))); for c in ITEMS { if thorough() || (ITEMS.iter().position(|x| x == c).unwrap() % 3 == 0) { v.push((format!("items3/{a}/{b}/{c}"), format!("{a} {b} {c}"))); } } } }
    // statements with markers between them, and every line length around the wrapping column
    for a in ["_blank_!();", "_comment_!(\"note\");"] { for f in FORMS { v.push((format!("marker/{a}/{f}"), format!("fn f() {{ let a = x; {a} let b = {}; {a} }}", put(f, "x")))); } }
    for n in 0..=120usize { for depth in 0..=6usize {
        let open = "if x { ".repeat(depth); let close = " } ".repeat(depth);
        let args: Vec<String> = (0..n % 30).map(|i| format!("a{i}")).collect();
        let name = "n".repeat(1 + n);
        for (t, e) in [("call", format!("{name}({})", args.join(", "))), ("chain", (0..1 + n % 12).map(|i| format!(".m{i}(y)")).fold(name.clone(), |a, b| a + &b)), ("array", format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", "))), ("string", format!("f(\"{}\")", "s t ".repeat(n / 2))), ("tuple", format!("({}x, y)", args.iter().map(|a| format!("{a}, ")).collect::<String>())), ("sum", format!("{name} + {}y", args.iter().map(|a| format!("{a} * ")).collect::<String>()))] {
            v.push((format!("width/{t}/{n}/{depth}"), format!("fn f() {{ {open} let q = {e}; {close} }}")));
        }
        v.push((format!("width/sig/{n}/{depth}"), format!("pub fn {name}({}x: i32) -> ({}i32, i32) {{ x }}", args.iter().map(|a| format!("{a}: Tensor<B, {depth}>, ")).collect::<String>(), args.iter().map(|_| "f32, ").collect::<String>())));
    } }
    let total = v.len();
    let mut out: Vec<(String, TokenStream)> = v.into_iter().filter_map(|(k, s)| { let ts: TokenStream = s.parse().ok()?; let marked = s.replace("_blank_!();", "").split("_comment_!(").count(); let _ = marked; syn::parse2::<syn::File>(ts.clone()).ok()?; Some((k, ts)) }).collect();
    run.count("not_rust_skipped", (total - out.len()) as u64);
    // literals of every short string over an alphabet of everything a formatter could trip over
    let al = ['a', ' ', '\t', '\\', '"', '\n', '/', '*', '{', '}', '\'', '_', '!', 'é', '\r', '#', ';'];
    let mut strs: Vec<String> = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..3 { last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect(); strs.extend(last.clone()); }
    for w in ["  two  spaces  ", "line one  \n    line two\t\n\n\nline five", "// comment", "/* block */", "/// doc", "//! inner", "{}{:?}{{}}", "use burn::prelude::*;", "fn f() {}", "\u{0}", "\u{7f}", "日本語", "🔥", "a\\nb", "C:\\dir\\file", "/path/with space/m.bpk", "a//b", "http://x/y", "\"quoted\"", "trailing ", " leading", ";;", "\n\n\n", "}\n\n{", "#[doc = \"x\"]", "let a = 1;", "_blank_", "_comment_", "_blank_!", "_blank_!();", "_blank_ ! ( ) ;", "_comment_!(\"x\");", "_comment_!();", "blank", &"long ".repeat(60)] { strs.push(w.to_string()); for x in ["", " ", "\n"] { strs.push(format!("a{x}{w}{x}b")); } }
    for s in &strs {
        let l = Literal::string(s);
        out.push((format!("string/{s:?}"), quote! { fn f() { let a = g(#l, 1); } }));
        if s.len() <= 2 || s.len() > 3 { out.push((format!("stringitem/{s:?}"), quote! { const A: &str = #l; static B: [&str; 2] = [#l, #l]; })); }
        let b = Literal::byte_string(s.as_bytes());
        if s.len() <= 2 || s.len() > 3 { out.push((format!("bytes/{s:?}"), quote! { const A: &[u8] = #b; })); }
        // raw string literal
        if !s.contains('\r') && !s.contains("\"#") { if let Ok(ts) = format!("const A: &str = r#\"{s}\"#;").parse::<TokenStream>() { out.push((format!("raw/{s:?}"), ts)); } }
        if s.chars().count() == 1 { let c = Literal::character(s.chars().next().unwrap()); out.push((format!("char/{s:?}"), quote! { const A: char = #c; })); }
        if !s.is_empty() && s.len() <= 4 && s.chars().all(|c| c == 'a' || c == '_' || c == 'é') && s.chars().any(|c| c != '_') { let i = proc_macro2::Ident::new(s, Span::call_site()); out.push((format!("ident/{s}"), quote! { fn #i(#i: #i) -> #i { let #i = self.#i; #i } })); }
    }
    for v in [0.0f32, -0.0, 1.0, 0.1, 1e-45, f32::MAX, f32::MIN_POSITIVE, 123456789.0] { let l = if v.is_sign_negative() { quote! { - 0f32 } } else { let l = Literal::f32_suffixed(v); quote! { #l } }; out.push((format!("f32/{v}"), quote! { const A: f32 = #l; })); }
    for v in [0i64, 1, i64::MAX, 1 << 40] { let a = Literal::i64_suffixed(v); let b = Literal::i64_unsuffixed(v); let c = Literal::f64_unsuffixed(v as f64); out.push((format!("i64/{v}"), quote! { const A: [f64; 3] = [#a, #b, #c]; })); }
    // a long module
    for n in [1usize, 10, 200] { let fs: Vec<TokenStream> = (0..n).map(|i| { let a = quote::format_ident!("f{}", i); quote! { pub fn #a(&self, x: Tensor<B, 2>) -> Tensor<B, 2> { let y = x.clone().add(x); _blank_!(); y } _blank_!(); } }).collect(); out.push((format!("long/{n}"), quote! { use burn::prelude::*; _blank_!(); #(#fs)* })); }
    out.into_iter().map(|(k, t)| (k, t.to_string())).collect()
}
fn import_checks(run: &mut Run) {
    // same last segment, one a prefix of another, same length, differing in case only
    let al = ["burn::nn::Linear", "burn::nn::LinearConfig", "burn::tensor::Linear", "core", "burn::tensor::ops::ConvOptions", "alloc::vec::Vec", "burn::nn::conv::Linear", "Burn::nn::Linear", "burn::tensor::Int"];
    let k = if thorough() { 6 } else { 5 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..k { last = last.iter().flat_map(|s| (0..al.len()).map(move |i| { let mut t = s.clone(); t.push(i); t })).collect(); seqs.extend(last.clone()); }
    let res = par(&seqs, |s| guard(|| {
        let mut im = imports::BurnImports::default();
        for (n, i) in s.iter().enumerate() { if n % 2 == 0 { im.register(al[*i]) } else { im.register(al[*i].to_string()) } }
        let a = toks(im.codegen());
        let b = toks(im.codegen());
        (a, b)
    }));
    let mut canon: std::collections::HashMap<Vec<usize>, Vec<String>> = Default::default();
    for (s, r) in seqs.iter().zip(res) {
        run.states += 1; run.transitions += s.len() as u64; run.validated += 1;
        let key = format!("imports/{s:?}");
        let (a, b) = match r { Ok(x) => x, Err(e) => { run.fail(&key, e); continue; } };
        if a != b { run.fail(&key, "two calls give different headers".into()); }
        let mut set = s.clone(); set.sort(); set.dedup();
        // the statements of the header
        let text = a.join(" ");
        let mut stm: Vec<String> = text.split(';').map(|x| x.replace(' ', "")).filter(|x| !x.is_empty()).collect();
        let mut want: Vec<String> = set.iter().map(|i| format!("use{}", al[*i])).collect(); want.push("useburn::prelude::*".into());
        stm.sort(); want.sort();
        if stm != want { run.fail(&key, format!("registered {:?}, header {stm:?}", set.iter().map(|i| al[*i]).collect::<Vec<_>>())); }
        if let Some(c) = canon.get(&set) { if *c != a { run.fail(&key, format!("the header depends on the order of registration: {a:?} or {c:?}")); } } else { canon.insert(set, a); }
    }
    run.count("import_sequences", seqs.len() as u64);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut run = Run::new("C24");
    let src = sources(&mut run);
    let res = par(&src, |(_, t)| check(t));
    for ((k, _), r) in src.iter().zip(res) {
        run.states += 1; run.transitions += 3;
        match r { Ok(()) => run.validated += 1, Err(e) => run.fail(k, e) }
        if run.states % 9973 == 1 { run.sample(|| format!("{k}: same tokens, stable")); }
    }
    run.count("token_sequences", src.len() as u64);
    import_checks(&mut run);
    std::process::exit(run.finish());
}
