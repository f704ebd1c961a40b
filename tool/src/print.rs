use crate::{contracts::*, rewrite, Res};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::*;

/// Token printer that breaks lines at `;`, `{` and `}`.
pub fn toks(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0, false);
    s.push('\n');
    s
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') { s.pop(); }
    s.push('\n');
    for _ in 0..ind { s.push_str("    "); }
}
fn go(ts: TokenStream, s: &mut String, ind: usize, in_paren: bool) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                if g.delimiter() == Delimiter::Brace {
                    if g.stream().is_empty() { s.push_str("{ } "); if !in_paren { nl(s, ind); } continue; }
                    s.push('{');
                    nl(s, ind + 1);
                    go(g.stream(), s, ind + 1, false);
                    nl(s, ind);
                    s.push_str("} ");
                    if !in_paren { nl(s, ind); }
                } else {
                    s.push_str(o);
                    go(g.stream(), s, ind, true);
                    while s.ends_with(' ') { s.pop(); }
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                if matches!(p.as_char(), ',' | ';' | '.' | ')') { while s.ends_with(' ') { s.pop(); } if p.as_char() != ')' { while s.ends_with('\n') || s.ends_with(' ') { s.pop(); } } }
                s.push(p.as_char());
                if p.as_char() == ';' && !in_paren { nl(s, ind); }
                else if p.spacing() == Spacing::Alone && p.as_char() != '.' { s.push(' '); }
            }
            TokenTree::Ident(i) => { s.push_str(&i.to_string()); s.push(' '); }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); }
        }
    }
}

pub fn impl_header(im: &ItemImpl, db: &Db) -> String {
    let key = db.implhdr.iter().find(|_| false).map(|x| x.1.clone());
    if let Some(k) = key { return k; }
    let mut g = im.generics.clone();
    rewrite::map_generics(&mut g);
    let (ig, _, wc) = g.split_for_impl();
    let mut st = (*im.self_ty).clone();
    rewrite::map_type(&mut st);
    let t = match &im.trait_ {
        Some((_, p, _)) => { let mut p = p.clone(); rewrite::map_path(&mut p); quote!(impl #ig #p for #st #wc) }
        None => quote!(impl #ig #st #wc),
    };
    toks(t).trim().to_string()
}

pub fn fn_header(vis: &Visibility, sig: &mut Signature, c: &Contract, in_trait_impl: bool, cx: &rewrite::Cx) -> Res<String> {
    rewrite::map_sig(sig, cx)?;
    let vis: TokenStream = if in_trait_impl { quote!() } else { let _ = vis; quote!(pub) };
    let ident = &sig.ident;
    let g = &sig.generics;
    let (ig, _, wc) = g.split_for_impl();
    let mut inputs = sig.inputs.clone();
    if !c.ghostparam.is_empty() {
        let a: FnArg = parse_str(&c.ghostparam).map_err(|e| format!("ghostparam: {}", e))?;
        inputs.push(a);
    }
    let inputs = &inputs;
    let out = match &sig.output {
        ReturnType::Default => quote!(),
        ReturnType::Type(_, t) => {
            let r = format_ident(if c.ret.is_empty() { "r" } else { &c.ret });
            quote!(-> (#r: #t))
        }
    };
    let con = if sig.constness.is_some() && !in_trait_impl && false { quote!(const) } else { quote!() };
    Ok(toks(quote!(#vis #con fn #ident #ig (#inputs) #out #wc)).trim_end().to_string())
}
pub fn format_ident(s: &str) -> Ident { Ident::new(s, proc_macro2::Span::call_site()) }
pub fn txt<T: ToTokens>(t: &T) -> String { quote!(#t).to_string() }
pub fn squash<T: ToTokens>(t: &T) -> String { txt(t).split_whitespace().collect() }
