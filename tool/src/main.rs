//! Mechanical extraction of functions of /repo into Verus source text.
//! usage: extract REPO CONTRACTS_DIR UNIT.json OUT.rs OUT.json
//! See DESIGN.md ("Extraction rules") for the list of rewriting rules R1..R14.
mod contracts;
mod iters;
mod norm;
mod print;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

/// One function of the crate as found in the source.
#[derive(Clone)]
pub struct FnInfo {
    pub id: String,
    pub module: String,
    pub attrs: Vec<Attribute>,
    pub vis: Visibility,
    pub sig: Signature,
    pub block: Option<Block>,
    pub impl_key: Option<String>,
    pub line: usize,
    pub file: String,
}

#[derive(Clone)]
pub struct ImplInfo {
    pub key: String,
    pub item: ItemImpl,
}

#[derive(Default)]
pub struct Krate {
    pub fns: BTreeMap<String, FnInfo>,
    pub impls: Vec<ImplInfo>,
    pub items: BTreeMap<String, Item>,
    /// associated constants, `module::Type::NAME`
    pub assoc: BTreeMap<String, (Type, Expr)>,
    pub traits: BTreeMap<String, ItemTrait>,
}

pub fn attr_is_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = quote::quote!(#a).to_string();
            t.contains("test") || t.contains("chromaprint_verif")
        }
    })
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => quote::quote!(#t).to_string(),
    }
}

fn load_items(k: &mut Krate, module: &str, file: &str, items: Vec<Item>) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if attr_is_cfg(&f.attrs) { continue; }
                let id = format!("{}::{}", module, f.sig.ident);
                let line = f.sig.ident.span().start().line;
                k.fns.insert(id.clone(), FnInfo { id, module: module.into(), attrs: f.attrs, vis: f.vis, sig: f.sig, block: Some(*f.block), impl_key: None, line, file: file.into() });
            }
            Item::Impl(im) => {
                if attr_is_cfg(&im.attrs) { continue; }
                let key = match &im.trait_ {
                    Some((_, p, _)) => format!("{}::{}.{}", module, type_name(&im.self_ty), p.segments.last().unwrap().ident),
                    None => format!("{}::{}", module, type_name(&im.self_ty)),
                };
                for ii in &im.items {
                    if let ImplItem::Const(c) = ii { k.assoc.insert(format!("{}::{}::{}", module, type_name(&im.self_ty), c.ident), (c.ty.clone(), c.expr.clone())); }
                    if let ImplItem::Fn(f) = ii {
                        if attr_is_cfg(&f.attrs) { continue; }
                        let id = format!("{}::{}", key, f.sig.ident);
                        let line = f.sig.ident.span().start().line;
                        k.fns.insert(id.clone(), FnInfo { id, module: module.into(), attrs: f.attrs.clone(), vis: f.vis.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), impl_key: Some(key.clone()), line, file: file.into() });
                    }
                }
                k.impls.push(ImplInfo { key, item: im });
            }
            Item::Trait(t) => {
                if attr_is_cfg(&t.attrs) { continue; }
                k.traits.insert(format!("{}::{}", module, t.ident), t);
            }
            Item::Struct(ref s) => { if !attr_is_cfg(&s.attrs) { k.items.insert(format!("{}::{}", module, s.ident), it); } }
            Item::Enum(ref s) => { if !attr_is_cfg(&s.attrs) { k.items.insert(format!("{}::{}", module, s.ident), it); } }
            Item::Const(ref s) => { if !attr_is_cfg(&s.attrs) {
                // R16: a constant can be put under contract as the function without arguments that computes it
                let (n, t, e) = (&s.ident, &s.ty, &s.expr);
                let id = format!("{}::{}", module, n);
                let f: ItemFn = parse_quote!(fn #n() -> #t { #e });
                k.fns.insert(id.clone(), FnInfo { id, module: module.into(), attrs: vec![], vis: f.vis, sig: f.sig, block: Some(*f.block), impl_key: None, line: s.ident.span().start().line, file: file.into() });
                k.items.insert(format!("{}::{}", module, s.ident), it); } }
            Item::Type(ref s) => { if !attr_is_cfg(&s.attrs) { k.items.insert(format!("{}::{}", module, s.ident), it); } }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: extract REPO CONTRACTS UNIT.json OUT.rs OUT.json");
        std::process::exit(2);
    }
    let (repo, cdir, unit_p, out_rs, out_js) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let unit: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(unit_p).unwrap()).unwrap();
    let sl = |k: &str| -> Vec<String> {
        unit[k].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    };
    let mut k = Krate::default();
    let mut errors: Vec<String> = vec![];
    let files = sl("files");
    for f in &files {
        let (p, m) = f.split_once('=').unwrap();
        let path = format!("{}/{}", repo, p);
        match std::fs::read_to_string(&path) {
            Err(e) => errors.push(format!("cannot read {}: {}", p, e)),
            Ok(s) => match syn::parse_file(&s) {
                Err(e) => errors.push(format!("cannot parse {}: {}", p, e)),
                Ok(file) => load_items(&mut k, m, p, file.items),
            },
        }
    }
    let db = contracts::load(cdir);
    let verify: BTreeSet<String> = sl("verify").into_iter().collect();
    let assume: BTreeSet<String> = sl("assume").into_iter().collect();
    let external: BTreeSet<String> = sl("external").into_iter().collect();
    let mut out = String::new();
    let mut js: Vec<serde_json::Value> = vec![];
    out.push_str("// GENERATED from /repo by /verif/tool on every run; do not edit.\n");
    for p in sl("head") { out.push_str(&std::fs::read_to_string(format!("{}/{}", cdir, p)).expect(&p)); out.push('\n'); }
    out.push_str("verus! {\n");
    for p in sl("preludes") {
        out.push_str(&format!("//@prelude {}\n", p));
        out.push_str(&std::fs::read_to_string(format!("{}/{}", cdir, p)).expect(&p));
        out.push('\n');
    }
    out.push_str("//@endprelude\n");
    // plain items
    for it in sl("items") {
        match k.items.get(&it) {
            None => {
                if let Some(t) = k.traits.get(&it) {
                    match emit_trait(t, &it, &db, &k) { Ok(s) => out.push_str(&s), Err(e) => errors.push(format!("{}: {}", it, e)) }
                } else { errors.push(format!("item {} not found", it)); }
            }
            Some(x) => match emit_item(x, &it, &db, &k) { Ok(s) => out.push_str(&s), Err(e) => errors.push(format!("{}: {}", it, e)) },
        }
    }
    let wanted = |id: &str| verify.contains(id) || assume.contains(id);
    for id in verify.iter().chain(assume.iter()) {
        if !k.fns.contains_key(id) {
            errors.push(format!("function {} not found", id));
            js.push(serde_json::json!({"id": id, "status": "missing", "detail": "function not found in source"}));
        }
    }
    // free functions
    let cx = rewrite::Cx { k: &k, db: &db, items: sl("items").into_iter().collect(), inline: unit["inline"].as_bool().unwrap_or(true), vacuity: unit["vacuity"].as_bool().unwrap_or(false) };
    let fnids: Vec<String> = k.fns.keys().cloned().collect();
    for id in &fnids {
        let f = &k.fns[id];
        if f.impl_key.is_some() || !wanted(id) { continue; }
        let ext = assume.contains(id) || external.contains(id);
        emit_fn(&cx, f, ext, false, &mut out, &mut js);
    }
    let mut impl_ghost_done: BTreeSet<String> = BTreeSet::new();
    for im in &k.impls {
        let ids: Vec<String> = im.item.items.iter().filter_map(|ii| if let ImplItem::Fn(f) = ii { if attr_is_cfg(&f.attrs) { None } else { Some(format!("{}::{}", im.key, f.sig.ident)) } } else { None }).collect();
        let is_trait = im.item.trait_.is_some();
        let forced = sl("impls").contains(&im.key);
        if !forced && !ids.iter().any(|i| wanted(i)) { continue; }
        let hdr = print::impl_header(&im.item, &db);
        out.push_str(&format!("{} {{\n", hdr));
        if impl_ghost_done.insert(im.key.clone()) {
            if let Some(t) = db.impls.get(&im.key) { out.push_str(t); out.push('\n'); }
        }
        if is_trait {
            for ii in &im.item.items {
                if let ImplItem::Type(t) = ii {
                    let mut t = t.clone();
                    rewrite::map_type(&mut t.ty);
                    out.push_str(&print::toks(quote::quote!(#t)));
                }
            }
        }
        for id in ids {
            if !(wanted(&id) || is_trait) { continue; }
            let f = &k.fns[&id];
            let ext = !verify.contains(&id) || external.contains(&id);
            emit_fn(&cx, f, ext, is_trait, &mut out, &mut js);
        }
        out.push_str("}\n");
    }
    // specifications of standard functions, only those the extracted text names
    if let Ok(t) = std::fs::read_to_string(format!("{}/prelude_std.rs", cdir)) {
        let text = &out[out.find("//@endprelude").unwrap_or(0)..];
        let toks: Vec<&str> = { let mut v = vec![]; let mut st = None; for (i, c) in text.char_indices() { if c.is_alphanumeric() || c == '_' { if st.is_none() { st = Some(i); } } else { if let Some(s) = st.take() { v.push(&text[s..i]); } if !c.is_whitespace() { v.push(&text[i..i + c.len_utf8()]); } } } v };
        let words: BTreeSet<&str> = toks.iter().cloned().collect();
        let called: BTreeSet<(&str, &str)> = toks.windows(3).filter(|w| (w[0] == "." || w[0] == ":") && w[2] == "(").map(|w| (w[0], w[1])).collect();
        let mut add = String::new();
        for b in t.split("//@when ").skip(1) {
            if let Some((w, c)) = b.split_once('\n') {
                for l in c.lines() {
                    // only for the types the text names
                    let ty = l.split("[ ").nth(1).and_then(|x| x.split("::").next()).unwrap_or("");
                    if !called.contains(&(if ["core", "std"].contains(&ty) { ":" } else { "." }, w.trim())) { continue; }
                    let prim = ty.len() <= 5 && ty.starts_with(|c| c == 'u' || c == 'i') && ty[1..].starts_with(|c: char| c.is_ascii_digit() || c == 's');
                    if (prim || ty == "VecDeque") && !words.contains(ty) { continue; }
                    add.push_str(l); add.push('\n');
                }
            }
        }
        if !add.is_empty() { out.push_str(&format!("//@prelude prelude_std.rs\n{}//@endprelude\n", add)); }
    }
    for p in sl("epilogues") {
        out.push_str(&format!("//@prelude {}\n", p));
        out.push_str(&std::fs::read_to_string(format!("{}/{}", cdir, p)).expect(&p));
        out.push_str("//@endprelude\n");
    }
    out.push_str("} // verus!\nfn main() {}\n");
    // line ranges
    let mut cur: Option<(String, usize)> = None;
    let mut ranges = BTreeMap::new();
    for (n, l) in out.lines().enumerate() {
        if let Some(r) = l.trim().strip_prefix("//@fn ") { cur = Some((r.to_string(), n + 1)); }
        if l.trim() == "//@endfn" { if let Some((i, s)) = cur.take() { ranges.insert(i, serde_json::json!([s, n + 1])); } }
    }
    std::fs::write(out_rs, &out).unwrap();
    std::fs::write(out_js, serde_json::to_string_pretty(&serde_json::json!({"functions": js, "errors": errors, "ranges": ranges})).unwrap()).unwrap();
}

fn const_eval(e: &Expr, k: &Krate, module: &str) -> Option<u128> {
    match e {
        Expr::Lit(l) => if let Lit::Int(i) = &l.lit { i.base10_parse().ok() } else { None },
        Expr::Paren(p) => const_eval(&p.expr, k, module),
        Expr::Group(p) => const_eval(&p.expr, k, module),
        Expr::Path(p) => { let i = p.path.get_ident()?; match k.items.get(&format!("{}::{}", module, i))? { Item::Const(c) => const_eval(&c.expr, k, module), _ => None } }
        Expr::Binary(b) => {
            let (x, y) = (const_eval(&b.left, k, module)?, const_eval(&b.right, k, module)?);
            match b.op { BinOp::Add(_) => x.checked_add(y), BinOp::Sub(_) => x.checked_sub(y), BinOp::Mul(_) => x.checked_mul(y), BinOp::Div(_) => x.checked_div(y), BinOp::Shl(_) if y < 64 => x.checked_mul(1u128 << y), BinOp::Shr(_) if y < 64 => Some(x >> y), _ => None }
        }
        _ => None,
    }
}
fn emit_item(it: &Item, id: &str, db: &contracts::Db, k: &Krate) -> Res<String> {
    if let Some(t) = db.items.get(id) { return Ok(format!("{}\n", t)); }
    let mut it = it.clone();
    let mut derives = String::new();
    {
        let (attrs, vis): (&mut Vec<Attribute>, Option<&mut Visibility>) = match &mut it {
            Item::Struct(s) => (&mut s.attrs, Some(&mut s.vis)),
            Item::Enum(s) => (&mut s.attrs, Some(&mut s.vis)),
            Item::Const(s) => (&mut s.attrs, Some(&mut s.vis)),
            Item::Type(s) => (&mut s.attrs, Some(&mut s.vis)),
            _ => return Err("unsupported item".into()),
        };
        for a in attrs.iter() {
            if a.path().is_ident("derive") {
                let t = quote::quote!(#a).to_string();
                let mut d = vec![];
                for n in ["Clone", "Copy"] { if t.contains(n) { d.push(n); } }
                // Clone alone on structs with float fields needs no spec; only keep for Copy types
                if d.contains(&"Copy") { derives = format!("#[derive({})]\n", d.join(", ")); }
            }
        }
        attrs.clear();
        if let Some(v) = vis { *v = parse_quote!(pub); }
    }
    match &mut it {
        Item::Struct(s) => {
            for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); rewrite::map_type(&mut f.ty); }
            rewrite::map_generics(&mut s.generics);
        }
        Item::Enum(s) => for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); rewrite::map_type(&mut f.ty); } },
        Item::Const(c) => {
            rewrite::map_type(&mut c.ty);
            // R13: constant integer expressions are evaluated
            if let Some(v) = const_eval(&c.expr, k, id.split("::").next().unwrap()) { let l = LitInt::new(&v.to_string(), proc_macro2::Span::call_site()); c.expr = Box::new(parse_quote!(#l)); }
        }
        Item::Type(t) => { rewrite::map_type(&mut t.ty); }
        _ => {}
    }
    Ok(format!("{}{}\n", derives, print::toks(quote::quote!(#it))))
}

fn emit_trait(t: &ItemTrait, id: &str, db: &contracts::Db, k: &Krate) -> Res<String> {
    if let Some(t) = db.items.get(id) { return Ok(format!("{}\n", t)); }
    let _ = k;
    let mut t = t.clone();
    t.attrs.clear();
    for it in t.items.iter_mut() {
        if let TraitItem::Fn(f) = it {
            f.attrs.clear();
            for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(p) = a { rewrite::map_type(&mut p.ty); } }
            if let ReturnType::Type(_, ty) = &mut f.sig.output { rewrite::map_ret_type(ty); }
        }
    }
    Ok(print::toks(quote::quote!(#t)))
}

fn emit_fn(cx: &rewrite::Cx, f: &FnInfo, ext: bool, in_trait_impl: bool, out: &mut String, js: &mut Vec<serde_json::Value>) {
    let c = cx.db.fns.get(&f.id).cloned().unwrap_or_default();
    let mut status = "ok".to_string();
    let mut detail = String::new();
    let mut info = serde_json::json!({});
    let mut body_txt = None;
    let mut sig = f.sig.clone();
    if !ext {
        match rewrite::translate(cx, f, &c) {
            Ok(t) => { sig = t.sig; body_txt = Some(t.text); info = t.info; if !t.notes.is_empty() { status = "structural".into(); detail = t.notes.join("; "); } }
            Err(e) => { status = "untranslatable".into(); detail = e; }
        }
    }
    let is_ext = body_txt.is_none();
    if sig.ident == "main" { sig.ident = print::format_ident("main_"); }
    if is_ext { if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() { if r.reference.is_none() { r.mutability = None; } } }
    let hdr = match print::fn_header(&f.vis, &mut sig, &c, in_trait_impl, cx) { Ok(h) => h, Err(e) => { status = "untranslatable".into(); detail = e; String::new() } };
    out.push_str(&format!("//@fn {}\n", f.id));
    if is_ext { out.push_str("#[verifier::external_body]\n"); }
    if !c.attrs.is_empty() { out.push_str(&c.attrs); out.push('\n'); }
    out.push_str(&hdr);
    out.push('\n');
    if !(in_trait_impl && c.spec_in_trait) || !c.spec.is_empty() { out.push_str(&c.spec); }
    out.push('\n');
    match body_txt {
        Some(b) => out.push_str(&b),
        None => out.push_str("{ unimplemented!() }\n"),
    }
    out.push_str("//@endfn\n");
    js.push(serde_json::json!({"id": f.id, "status": if ext { "assumed".into() } else { status }, "detail": detail, "info": info, "file": f.file, "line": f.line, "contract": cx.db.fns.contains_key(&f.id)}));
}
