//! `#[derive(Module)]` for the stand-in: visits the fields in order, by name.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Module, attributes(module))]
pub fn module(input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut name = String::new();
    let mut body = None;
    for w in 0..toks.len() {
        if let TokenTree::Ident(i) = &toks[w] {
            if i.to_string() == "struct" {
                if let TokenTree::Ident(n) = &toks[w + 1] { name = n.to_string(); }
            }
        }
        if let TokenTree::Group(g) = &toks[w] {
            if g.delimiter() == Delimiter::Brace { body = Some(g.stream()); }
        }
    }
    let mut fields = vec![];
    let mut depth = 0i32;
    let mut want = true;
    let body: Vec<TokenTree> = body.map(|b| b.into_iter().collect()).unwrap_or_default();
    let mut prev_minus = false;
    for w in 0..body.len() {
        let mut minus = false;
        match &body[w] {
            TokenTree::Punct(p) => match p.as_char() {
                '<' => depth += 1,
                '>' if !prev_minus => depth -= 1,
                '-' => minus = true,
                ',' if depth == 0 => want = true,
                _ => {}
            },
            TokenTree::Ident(i) if want && i.to_string() != "pub" => { fields.push(i.to_string()); want = false; }
            _ => {}
        }
        prev_minus = minus;
    }
    let visits: String = fields.iter().map(|f| format!("burn::module::Module::<B>::visit(&mut self.{f}, &burn::module::join(__p, \"{}\"), __v);", f.trim_start_matches("r#"))).collect();
    format!("impl<B: burn::tensor::backend::Backend> burn::module::Module<B> for {name}<B> {{ fn visit(&mut self, __p: &str, __v: &mut burn::module::Visitor) {{ {visits} }} }}").parse().unwrap()
}
