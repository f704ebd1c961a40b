//! Translation of one function body.
use crate::contracts::Contract;
use crate::iters::{self, It};
use crate::print::{format_ident, squash};
use crate::{norm, FnInfo, Krate, Res};
use quote::quote;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cx<'a> {
    pub k: &'a Krate,
    pub db: &'a crate::contracts::Db,
    pub inline: bool,
    /// items written out for the unit (constants outside this set are substituted)
    pub items: BTreeSet<String>,
    /// insert `assert(false)` probes at function ends and loop tails (reachability of contracts and invariants)
    pub vacuity: bool,
}
pub struct Out {
    pub sig: Signature,
    pub text: String,
    pub info: serde_json::Value,
    pub notes: Vec<String>,
}

pub struct Rw<'a> {
    pub cx: &'a Cx<'a>,
    pub loops: Vec<String>,
    pub depth: usize,
    pub ctr: usize,
    pub err: Option<String>,
    pub iter_lets: HashMap<String, Expr>,
    pub opaque_iters: HashSet<String>,
    pub var_types: HashMap<String, Type>,
    pub iter_fns: HashSet<String>,
    pub floats: HashSet<String>,
    pub into_float: bool,
    pub anyhow: bool,
    pub callees: BTreeSet<String>,
}

// ---------------------------------------------------------------- types (R1)
pub fn map_path(p: &mut Path) { TyMap.visit_path_mut(p); strip_crate(p); }
fn strip_crate(p: &mut Path) {
    if p.leading_colon.is_none() && p.segments.len() > 1 {
        let f = p.segments[0].ident.to_string();
        if f == "crate" || f == "super" || f == "self" || f == "symphonia" || (f == "std" && matches!(p.segments[1].ident.to_string().as_str(), "fs" | "env")) {
            let n = p.segments.len();
            // keep the last segment, or the last two when the one before is a type/enum name
            let keep = if n >= 2 && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() { 2 } else { 1 };
            let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
            p.segments = segs.into_iter().collect();
        }
    }
}
struct TyMap;
impl VisitMut for TyMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = squash(t);
        if s == "f64" || s == "f32" { *t = parse_quote!(Real); return; }
        if s == "Complex64" { *t = parse_quote!(Complex<Real>); return; }
        if s.starts_with("Arc<dynrustfft::Fft<f64>>") { *t = parse_quote!(FftPlan); return; }
        if let Type::Path(p) = t { if p.path.segments.len() == 2 && p.path.segments[0].ident == "anyhow" && p.path.segments[1].ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &p.path.segments[1].arguments { if a.args.len() == 1 { let x = a.args[0].clone(); *t = parse_quote!(Result<#x, AnyErr>); visit_mut::visit_type_mut(self, t); return; } }
        } }
        if s == "std::fmt::Result" || s == "fmt::Result" || s == "core::fmt::Result" { *t = parse_quote!(Result<(), VcFmtError>); return; }
        if let Type::Path(p) = t { if let Some(i) = p.path.segments.last() { if i.ident == "Box" && p.path.segments.len() == 1 && (s == "Box<dynFormatReader>" || s == "Box<dynDecoder>") { *t = if s.contains("Format") { parse_quote!(FormatReader) } else { parse_quote!(Decoder) }; return; } } }
        if s == "&implAsRef<Path>" || s == "implAsRef<Path>" { *t = parse_quote!(&PathBuf); return; }
        if s.starts_with("Box<dynAudioConsumer<") { *t = parse_quote!(Fft<Chroma<ChromaFilter<ChromaNormalizer<FingerprintCalculator>>>>); return; }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_crate(p);
        if p.segments.len() == 2 && (p.segments[0].ident == "f64" || p.segments[0].ident == "f32") { p.segments[0].ident = format_ident("Real"); }
        visit_mut::visit_path_mut(self, p);
    }
}
pub fn map_type(t: &mut Type) { TyMap.visit_type_mut(t); }
pub fn map_ret_type(t: &mut Type) {
    if let Type::ImplTrait(it) = t {
        if let Some(item) = impl_iter_item(it) { let mut item = item; map_type(&mut item); *t = parse_quote!(Vec<#item>); return; }
    }
    map_type(t);
}
pub fn impl_iter_item(it: &TypeImplTrait) -> Option<Type> {
    for b in &it.bounds {
        if let TypeParamBound::Trait(tb) = b {
            let seg = tb.path.segments.last()?;
            if seg.ident == "Iterator" || seg.ident == "IntoIterator" || seg.ident == "ExactSizeIterator" || seg.ident == "DoubleEndedIterator" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    for g in &a.args { if let GenericArgument::AssocType(t) = g { if t.ident == "Item" { return Some(t.ty.clone()); } } }
                }
            }
        }
    }
    None
}
/// Type parameters bounded by `Into<f64>` are instantiated at f64 (the only instantiation in the library).
fn into_f64_params(g: &Generics) -> Vec<Ident> {
    let mut v = vec![];
    let is = |b: &TypeParamBound| squash(b).contains("Into<f64>");
    for p in g.type_params() { if p.bounds.iter().any(is) { v.push(p.ident.clone()); } }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates { if let WherePredicate::Type(t) = p { if t.bounds.iter().any(is) { if let Type::Path(tp) = &t.bounded_ty { if let Some(i) = tp.path.get_ident() { v.push(i.clone()); } } } } }
    }
    v
}
pub fn map_generics(g: &mut Generics) {
    TyMap.visit_generics_mut(g);
}
pub fn map_sig(sig: &mut Signature, _cx: &Cx) -> Res<()> {
    let inst = into_f64_params(&sig.generics);
    if !inst.is_empty() {
        sig.generics.params = sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if inst.contains(&t.ident))).cloned().collect();
        if let Some(w) = &mut sig.generics.where_clause {
            w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if inst.iter().any(|i| squash(&t.bounded_ty) == i.to_string()))).cloned().collect();
        }
        if sig.generics.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { sig.generics.where_clause = None; }
        struct S<'a>(&'a [Ident]);
        impl<'a> VisitMut for S<'a> { fn visit_type_mut(&mut self, t: &mut Type) { if let Type::Path(p) = t { if p.path.get_ident().map_or(false, |i| self.0.contains(i)) { *t = parse_quote!(f64); return; } } visit_mut::visit_type_mut(self, t); } }
        for a in sig.inputs.iter_mut() { S(&inst).visit_fn_arg_mut(a); }
        S(&inst).visit_return_type_mut(&mut sig.output);
    }
    map_generics(&mut sig.generics);
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = a {
            p.attrs.clear();
            if let Type::ImplTrait(it) = &*p.ty { if let Some(mut item) = impl_iter_item(it) { map_type(&mut item); *p.ty = parse_quote!(VIter<#item>); continue; } }
            if let Type::BareFn(b) = &*p.ty { let mut i: Vec<Type> = b.inputs.iter().map(|x| x.ty.clone()).collect(); i.iter_mut().for_each(map_type); let mut o = b.output.clone(); TyMap.visit_return_type_mut(&mut o); *p.ty = parse_quote!(impl Fn(#(#i),*) #o); continue; }
            // alias of a function pointer type
            if let Type::Path(tp) = &*p.ty { if let Some(id) = tp.path.get_ident() {
                let al = _cx.k.items.iter().find(|(k, _)| k.ends_with(&format!("::{}", id))).map(|x| x.1);
                if let Some(Item::Type(t)) = al { if let Type::BareFn(b) = &*t.ty { let mut i: Vec<Type> = b.inputs.iter().map(|x| x.ty.clone()).collect(); i.iter_mut().for_each(map_type); let mut o = b.output.clone(); TyMap.visit_return_type_mut(&mut o); *p.ty = parse_quote!(impl Fn(#(#i),*) #o); continue; } }
            } }
            map_type(&mut p.ty);
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output { map_ret_type(t); }
    Ok(())
}

// ---------------------------------------------------------------- driver
pub fn translate(cx: &Cx, f: &FnInfo, c: &Contract) -> Res<Out> {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone().ok_or("no body")?;
    let mut notes = vec![];
    norm::strip_attrs(&mut block);
    norm::drop_noops(&mut block);
    let mut inlined = vec![];
    if cx.inline { inlined = norm::inline_helpers(cx, f, &mut block)?; norm::drop_noops(&mut block); }
    norm::inline_consts(cx, f, &mut block);
    if !inlined.is_empty() { notes.push(format!("note: inlined {}", inlined.join(", "))); }
    norm::alias_parity(&mut block)?;
    // `mut self` by value: the body works on a mutable local
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            norm::subst_self(&mut block, &parse_quote!(vc_self));
            block.stmts.insert(0, parse_quote!(let mut vc_self = self;));
        }
    }
    let binders0 = norm::binders(&sig, &block);
    let renames = norm::align(&c.binders, &binders0);
    if !renames.is_empty() { norm::rename(&mut sig, &mut block, &renames); }
    let mut rw = Rw {
        cx, loops: vec![], depth: 0, ctr: 0, err: None,
        iter_lets: HashMap::new(), opaque_iters: HashSet::new(), var_types: HashMap::new(), iter_fns: HashSet::new(), floats: HashSet::new(),
        into_float: !into_f64_params(&sig.generics).is_empty(), anyhow: squash(&sig.output).contains("AnyErr") || squash(&f.sig.output).contains("anyhow::Result"), callees: BTreeSet::new(),
    };
    for g in cx.k.fns.values() {
        if let ReturnType::Type(_, t) = &g.sig.output { if let Type::ImplTrait(it) = &**t { if impl_iter_item(it).is_some() { rw.iter_fns.insert(g.sig.ident.to_string()); } } }
    }
    for a in &sig.inputs {
        if let FnArg::Typed(p) = a {
            if let Pat::Ident(i) = &*p.pat {
                rw.var_types.insert(i.ident.to_string(), (*p.ty).clone());
                if squash(&p.ty) == "f64" || squash(&p.ty) == "f32" { rw.floats.insert(i.ident.to_string()); }
                if let Type::ImplTrait(it) = &*p.ty { if impl_iter_item(it).is_some() { rw.opaque_iters.insert(i.ident.to_string()); } }
            } else { return Err("pattern parameter".into()); }
        }
    }
    let returns_iter = if let ReturnType::Type(_, t) = &sig.output { matches!(&**t, Type::ImplTrait(it) if impl_iter_item(it).is_some()) } else { false };
    if returns_iter {
        // R7: lazily returned iterators are materialised
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => block.stmts.push(Stmt::Expr(parse_quote!((#e).collect::<Vec<_>>()), None)),
            _ => return Err("iterator-returning function without tail expression".into()),
        }
    }
    let names: BTreeSet<String> = norm::binders(&sig, &block).into_iter().collect();
    rw.visit_block_mut(&mut block);
    if let Some(e) = rw.err.take() { return Err(e); }
    if c.nloops.is_some() && norm::post_binders(&sig, &block).iter().any(|b| b.starts_with("acc_t") && !c.post.contains(b)) { norm::name_accumulators(&mut block, &c.post); }
    // an accumulation written as an explicit loop, as a fold or as a sum: the accumulator takes the name the contract knows
    let mut post = norm::post_binders(&sig, &block);
    let acc = norm::align(&c.post, &post);
    let mut acc_notes = vec![];
    if !acc.is_empty() {
        norm::rename(&mut sig, &mut block, &acc);
        post = norm::post_binders(&sig, &block);
        let fresh = |s: &str| s.rsplit_once("_t").map_or(false, |x| x.1.parse::<u32>().is_ok());
        if acc.iter().any(|(a, b)| fresh(a) != fresh(b)) { acc_notes.push(format!("accumulators renamed: {}", acc.iter().map(|(a, b)| format!("{}->{}", a, b)).collect::<Vec<_>>().join(", "))); }
    }
    // a local must not hide a function that the contract mentions
    if c.nloops.is_some() {
        let all: String = c.loops.values().cloned().chain(c.at.iter().map(|a| a.2.clone())).chain(c.needle.iter().map(|a| a.3.clone())).collect::<Vec<_>>().join("\n");
        let hide: Vec<(String, String)> = post.iter().filter(|b| !c.post.contains(b) && all.contains(&format!("{}(", b))).map(|b| (b.clone(), format!("{}_v", b))).collect::<BTreeSet<_>>().into_iter().collect();
        norm::rename(&mut sig, &mut block, &hide);
    }
    let names: BTreeSet<String> = if acc.is_empty() { names } else { names.into_iter().map(|n| acc.iter().find(|(a, _)| *a == n).map_or(n.clone(), |x| x.1.clone())).collect() };
    let outer = norm::outer_uses(&block, &names);
    norm::deref_bits(&sig, &mut block);
    add_ghost_args(cx, &mut block)?;
    // markers for start/end
    let tail = match block.stmts.last() { Some(Stmt::Expr(_, None)) => block.stmts.pop(), _ => None };
    let mut stmts: Vec<Stmt> = vec![parse_quote!(__vc!(start);)];
    stmts.append(&mut block.stmts);
    let unit_ret = matches!(sig.output, ReturnType::Default);
    let has_end = cx.vacuity || c.at.iter().any(|a| a.0 == "end");
    match tail {
        Some(Stmt::Expr(t, None)) => {
            if unit_ret { let blocky = matches!(t, Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Match(_) | Expr::Block(_)); stmts.push(Stmt::Expr(t, if blocky { None } else { Some(Default::default()) })); stmts.push(parse_quote!(__vc!(end);)); }
            else if has_end { stmts.push(parse_quote!(let __ret = #t;)); stmts.push(parse_quote!(__vc!(end);)); stmts.push(Stmt::Expr(parse_quote!(__ret), None)); }
            else { stmts.push(Stmt::Expr(t, None)); }
        }
        _ => stmts.push(parse_quote!(__vc!(end);)),
    }
    block.stmts = stmts;
    // needle anchors
    let mut lost = vec![];
    for (i, (w, needle, ord, _)) in c.needle.iter().enumerate() {
        if !norm::insert_needle(&mut block, needle, *ord, w == "before", i) { lost.push(format!("anchor lost: {} \"{}\"", w, needle)); }
    }
    let mut text = crate::print::toks(quote!(#block));
    let lno = |s: &str| -> String { s.split_whitespace().collect() };
    // replace markers
    let mut out = String::new();
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let mut used: BTreeSet<(String, usize)> = BTreeSet::new();
    for l in lines {
        let s = lno(&l);
        if let Some(r) = s.strip_prefix("__vcloop!(") {
            let n: usize = r.trim_end_matches(");").parse().unwrap();
            // belongs before the preceding `{`
            let p = out.trim_end().rfind('{').unwrap();
            let after = out[p..].to_string();
            out.truncate(p);
            out.push('\n');
            out.push_str(&format!("//@loop {}\n", n));
            if let Some(t) = c.loops.get(&n) { out.push_str(t); out.push('\n'); used.insert(("loop".into(), n)); }
            else { out.push_str(&default_inv(&rw.loops, n)); }
            out.push_str(&after);
            continue;
        }
        if let Some(r) = s.strip_prefix("__vc!(") {
            let r = r.trim_end_matches(");");
            let (w, n) = match r.split_once(',') { Some((a, b)) => (a.to_string(), b.parse::<usize>().unwrap()), None => (r.to_string(), 0) };
            if w == "needle" { let t = &c.needle[n].3; out.push_str(t); out.push('\n'); continue; }
            let probe = cx.vacuity && (w == "end" || w == "tail");
            for (a, b, t) in &c.at { if *a == w && *b == n { out.push_str(t); out.push('\n'); used.insert((w.clone(), n)); } }
            if probe { out.push_str("proof { assert(false); } /*vacuity*/\n"); }
            continue;
        }
        out.push_str(&l);
        out.push('\n');
    }
    text = out;
    for n in c.loops.keys() { if !used.contains(&("loop".to_string(), *n)) { lost.push(format!("loop {} lost", n)); } }
    for (a, n, _) in &c.at { if !used.contains(&(a.clone(), *n)) { lost.push(format!("anchor {} {} lost", a, n)); } }
    let lk: Vec<String> = rw.loops.clone();
    if let Some(n) = c.nloops {
        if n != lk.len() || c.loopkinds != lk { lost.push(format!("loop structure changed: {:?} -> {:?}", c.loopkinds, lk)); }
        let unknown: Vec<String> = rw.callees.iter().filter(|x| !c.callees.contains(x)).cloned().collect();
        if !unknown.is_empty() { notes.push(format!("note: new callees {}", unknown.join(","))); }
    }
    lost.extend(acc_notes);
    let bounds = norm::loop_bounds(&block, &rw.loops);
    if c.nloops.is_some() && lost.is_empty() {
        for (k, t) in &bounds { if let Some(b) = c.bounds.get(k) { let t2 = t.clone(); if *b != t2 { lost.push(format!("loop range {} changed: {} -> {}", k, b, t)); } } }
        let all: String = c.loops.values().cloned().chain(c.at.iter().map(|a| a.2.clone())).chain(c.needle.iter().map(|a| a.3.clone())).collect::<Vec<_>>().join("\n");
        for b in c.post.iter().collect::<BTreeSet<_>>() {
            let count = |v: &Vec<String>| v.iter().filter(|x| *x == b).count();
            if count(&post) < count(&c.post) && mentions(&all, b) { lost.push(format!("variable {} gone", b)); }
        }
    }
    if lost.is_empty() {
        // an invariant cannot be inductive when the loop depends on variables it does not know of
        for (n, vs) in &outer {
            if let Some(base) = c.outer.get(n) {
                let new: Vec<&String> = vs.iter().filter(|v| !base.contains(v) && (v.ends_with('=') && !base.iter().any(|b| b == v.trim_end_matches('=')) || !c.binders.iter().any(|b| b == v.trim_end_matches('=')))).collect();
                if !new.is_empty() { lost.push(format!("loop {} depends on variables unknown to its invariant: {:?}", n, new)); }
            }
        }
    }
    notes.extend(lost);
    let info = serde_json::json!({"binders": binders0, "post": post, "bounds": bounds, "loops": lk, "outer": outer, "callees": rw.callees, "renamed": renames.iter().map(|(a, b)| format!("{}->{}", a, b)).collect::<Vec<_>>(), "inlined": inlined});
    notes.retain(|n| !n.starts_with("note: inlined"));
    Ok(Out { sig, text, info, notes: notes.into_iter().filter(|n| !n.starts_with("note:")).collect() })
}
fn mentions(t: &str, w: &str) -> bool { t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w) }
fn default_inv(loops: &[String], n: usize) -> String {
    let k = &loops[n - 1];
    let kind = k.split(':').nth(1).unwrap_or("");
    match kind { "while" | "loop" | "opaque" => String::new(), _ => format!("    invariant k{n} <= n{n},\n    decreases n{n} - k{n},\n", n = n) }
}

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"];
const FLOAT_METHODS: &[&str] = &["sqrt", "floor", "ceil", "round", "trunc", "ln", "log2", "log10", "cos", "sin", "exp", "powi", "powf", "to_real", "fract"];

impl<'a> Rw<'a> {
    pub fn fresh(&mut self, p: &str) -> Ident { self.ctr += 1; format_ident(&format!("{}_t{}", p, self.ctr)) }
    pub fn fresh_label(&mut self) -> Lifetime { self.ctr += 1; Lifetime::new(&format!("'l{}", self.ctr), proc_macro2::Span::call_site()) }
    pub fn new_loop(&mut self, kind: &str) -> usize { self.loops.push(format!("{}:{}", self.depth, kind)); self.loops.len() }
    pub fn is_deque(&self, e: &Expr) -> bool { let s = squash(e); s.ends_with("ring_buf") || s.contains("deque") }
    fn const_item(&self, n: &str) -> Option<&'a Item> { let s = format!("::{}", n); self.cx.k.items.iter().find(|(k, i)| k.ends_with(&s) && matches!(i, Item::Const(_))).map(|x| x.1) }
    fn fail(&mut self, m: String) { if self.err.is_none() { self.err = Some(m); } }
    fn is_float(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(&l.lit, Lit::Float(_)) || matches!(&l.lit, Lit::Int(i) if i.suffix() == "f64" || i.suffix() == "f32"),
            Expr::Paren(p) => self.is_float(&p.expr),
            Expr::Unary(u) => self.is_float(&u.expr),
            Expr::Binary(b) => !matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::And(_) | BinOp::Or(_)) && (self.is_float(&b.left) || self.is_float(&b.right)),
            Expr::Cast(c) => { let s = squash(&c.ty); s == "f64" || s == "f32" || s == "Real" }
            Expr::MethodCall(m) => FLOAT_METHODS.contains(&m.method.to_string().as_str()) || (m.method == "abs" && self.is_float(&m.receiver)),
            Expr::Call(c) => { let s = squash(&c.func); s.starts_with("f64::") || s.starts_with("f32::") || s.starts_with("Real::") }
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.floats.contains(&i.to_string())) || squash(&p.path).contains("f64::"),
            _ => false,
        }
    }
    fn consumer(&mut self, m: &ExprMethodCall) -> Res<Option<Expr>> {
        let name = m.method.to_string();
        if !["collect", "fold", "sum", "max", "min", "count", "any", "all", "for_each", "product", "to_vec_iter", "last", "position", "find"].contains(&name.as_str()) { return Ok(None); }
        if (name == "max" || name == "min") && !m.args.is_empty() { return Ok(None); }
        let it = match self.parse_iter(&m.receiver, false)? { Some(i) => i, None => return Ok(None) };
        let acc = self.fresh("acc");
        let e: Expr = match name.as_str() {
            "collect" => {
                let b = self.emit(it, &mut |_, e| { let x = iters::to_expr(&e); Ok(vec![parse_quote!(#acc.push(#x);)]) }, None)?;
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None });
                match ty { Some(t) if squash(&t) == "Vec<String>" => parse_quote!({ let mut #acc: #t = Vec::new(); #(#b)* #acc }), _ => parse_quote!({ let mut #acc = Vec::new(); #(#b)* #acc }) }
            }
            "for_each" => {
                let c = m.args[0].clone();
                let b = self.emit(it, &mut |_, e| { let (mut p, r) = iters::apply(&c, &e)?; p.push(parse_quote!(#r;)); Ok(p) }, None)?;
                parse_quote!({ #(#b)* })
            }
            "count" => {
                let b = self.emit(it, &mut |_, _| Ok(vec![parse_quote!(#acc = #acc + 1;)]), None)?;
                parse_quote!({ let mut #acc: usize = 0; #(#b)* #acc })
            }
            "sum" | "product" => {
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None });
                let mul = name == "product";
                let b = self.emit(it, &mut |_, e| { let x = match &e { iters::Elem::Ref(p) => p.clone(), e => iters::to_expr(e) }; Ok(vec![if mul { parse_quote!(#acc = #acc * #x;) } else { parse_quote!(#acc = #acc + #x;) }]) }, None)?;
                let init: Expr = match (&ty, mul) {
                    (Some(t), _) if squash(t) == "f64" || squash(t) == "f32" => if mul { parse_quote!(1.0) } else { parse_quote!(0.0) },
                    (Some(t), _) => { let v = LitInt::new(if mul { "1" } else { "0" }, proc_macro2::Span::call_site()); parse_quote!((#v as #t)) }
                    (None, false) => parse_quote!(vc_zero()),
                    (None, true) => return Err("untyped product".into()),
                };
                parse_quote!({ let mut #acc = #init; #(#b)* #acc })
            }
            "fold" => {
                let init = m.args[0].clone();
                let cl = match &m.args[1] { Expr::Closure(c) if c.inputs.len() == 2 => c.clone(), _ => return Err("fold without closure".into()) };
                if iters::contains_return(&cl.body) { return Err("return inside fold".into()); }
                let b = self.emit(it, &mut |me, e| {
                    let mut p: Vec<Stmt> = vec![];
                    let (mut s, mut t) = iters::split_block(&cl.body);
                    let named = match iters::strip_pat_type(&cl.inputs[0]) { Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && !squash(&cl.inputs[1]).contains(&i.ident.to_string()) => Some(i.ident.clone()), _ => None };
                    let mut blk: Block = parse_quote!({ #(#s)* #t });
                    let named = named.filter(|i| !norm::binders(&parse_quote!(fn f()), &blk).contains(&i.to_string()));
                    if let Some(i) = &named {
                        norm::rename(&mut parse_quote!(fn f()), &mut blk, &[(i.to_string(), acc.to_string())]);
                        let (s2, t2) = iters::split_block(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }));
                        s = s2; t = t2;
                    } else {
                        iters::bind(iters::strip_pat_type(&cl.inputs[0]), &iters::Elem::Val(parse_quote!(#acc)), &mut p)?;
                    }
                    iters::bind(iters::strip_pat_type(&cl.inputs[1]), &e, &mut p)?;
                    p.extend(s);
                    p.push(parse_quote!(#acc = #t;));
                    let _ = me;
                    Ok(p)
                }, None)?;
                parse_quote!({ let mut #acc = #init; #(#b)* #acc })
            }
            "max" | "min" => {
                let ge: Expr = if name == "max" { parse_quote!(__y >= __x) } else { parse_quote!(__y < __x) };
                let b = self.emit(it, &mut |_, e| { let x = iters::to_expr(&e); Ok(vec![parse_quote!(let __y = #x;), parse_quote!(#acc = match #acc { None => Some(__y), Some(__x) => if #ge { Some(__y) } else { Some(__x) } };)]) }, None)?;
                parse_quote!({ let mut #acc = None; #(#b)* #acc })
            }
            "find" => {
                let c = m.args[0].clone();
                let l = self.fresh_label();
                let l2 = l.clone();
                let b = self.emit(it, &mut |_, e| {
                    let x = iters::to_expr(&e);
                    let mut p: Vec<Stmt> = vec![parse_quote!(let __x = #x;)];
                    let (q, r) = iters::apply(&c, &iters::Elem::Val(parse_quote!((&__x))))?;
                    p.extend(q);
                    p.push(parse_quote!(if #r { #acc = Some(__x); break #l2; }));
                    Ok(p)
                }, Some(l))?;
                parse_quote!({ let mut #acc = None; #(#b)* #acc })
            }
            "any" | "all" => {
                let c = m.args[0].clone();
                let any = name == "any";
                let l = self.fresh_label();
                let l2 = l.clone();
                let b = self.emit(it, &mut |_, e| { let (mut p, r) = iters::apply(&c, &e)?; if any { p.push(parse_quote!(if #r { #acc = true; break #l2; })); } else { p.push(parse_quote!(if !(#r) { #acc = false; break #l2; })); } Ok(p) }, Some(l))?;
                let init = !any;
                parse_quote!({ let mut #acc = #init; #(#b)* #acc })
            }
            _ => return Err(format!("unsupported consumer {}", name)),
        };
        Ok(Some(e))
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> Res<Expr> {
        let it = self.parse_iter(&f.expr, true)?.ok_or("unsupported for-loop iterator")?;
        let body = f.body.stmts.clone();
        let pat = (*f.pat).clone();
        let lab = f.label.as_ref().map(|l| l.name.clone());
        let nested_stage = !matches!(it, It::Idx(_) | It::Opaque(_));
        if nested_stage && has_break(&f.body) { return Err("break/continue in a for loop over a non-indexable chain".into()); }
        let mut first = true;
        let st = self.emit(it, &mut |_, e| {
            if !first && false { return Err("duplicated loop body".into()); }
            first = false;
            let mut p = vec![];
            iters::bind(&pat, &e, &mut p)?;
            p.extend(body.clone());
            Ok(p)
        }, lab)?;
        Ok(parse_quote!({ #(#st)* }))
    }
    fn note_floats(&mut self, l: &Local) {
        if let (Pat::Ident(i), Some(init)) = (strip(&l.pat), &l.init) {
            if self.is_float(&init.expr) { self.floats.insert(i.ident.to_string()); } else { self.floats.remove(&i.ident.to_string()); }
        }
        if let Pat::Type(t) = &l.pat { if let Pat::Ident(i) = &*t.pat { if squash(&t.ty) == "f64" { self.floats.insert(i.ident.to_string()); } self.var_types.insert(i.ident.to_string(), (*t.ty).clone()); } }
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            match &*init.expr {
                Expr::Reference(r) => { let t: Type = if r.mutability.is_some() { parse_quote!(&mut [f64]) } else { parse_quote!(&[f64]) }; self.var_types.insert(i.ident.to_string(), t); }
                _ => { self.var_types.remove(&i.ident.to_string()); }
            }
        }
    }
}
/// `&x` inside a pattern becomes `x`; the names are collected
fn deref_pat(p: &mut Pat, ns: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) if r.mutability.is_none() => if let Pat::Ident(i) = &*r.pat { if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() { ns.push(i.ident.clone()); *p = (*r.pat).clone(); } },
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| deref_pat(q, ns)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|q| deref_pat(q, ns)),
        Pat::Paren(q) => deref_pat(&mut q.pat, ns),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|q| if q.colon_token.is_some() { deref_pat(&mut q.pat, ns) }),
        _ => {}
    }
}
fn deref_uses(e: &mut Expr, ns: &[Ident]) {
    struct V<'a>(&'a [Ident]);
    impl<'a> VisitMut for V<'a> { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if self.0.contains(i) { *e = parse_quote!((*#i)); } } return; } visit_mut::visit_expr_mut(self, e); } }
    V(ns).visit_expr_mut(e);
}
/// `break e` of this loop (not of inner ones) becomes `{ v = Some(e); break; }`
fn break_values(b: &mut Block, v: &Ident) -> bool {
    struct B<'a>(&'a Ident, bool);
    impl<'a> VisitMut for B<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Break(b) = e {
                if b.label.is_some() { self.1 = false; return; }
                if let Some(x) = &b.expr { let (v, x) = (self.0, x.clone()); *e = parse_quote!({ #v = Some(#x); break; }); }
                return;
            }
            match e { Expr::Closure(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => return, _ => {} }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_stmt_mut(&mut self, s: &mut Stmt) {
            visit_mut::visit_stmt_mut(self, s);
        }
    }
    let mut k = B(v, true);
    k.visit_block_mut(b);
    k.1
}
fn strip(p: &Pat) -> &Pat { match p { Pat::Type(t) => &t.pat, p => p } }
fn has_break(b: &Block) -> bool {
    use syn::visit::{self, Visit};
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    }
    let _ = visit::visit_block::<V>;
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
/// a literal whose numerator or denominator exceeds 128 bits is written as a product with powers of ten
fn lit_expr(n: &str, d: &str) -> Option<Expr> {
    let z = n.len() - n.trim_end_matches('0').len();
    let (n, mut up) = if n.len() <= 38 { (n.to_string(), 0) } else { (n[..n.len() - z].to_string(), z) };
    let (d, mut down) = if d.len() <= 38 { (d.to_string(), 0) } else { ("1".to_string(), d.len() - 1) };
    if n.len() > 38 { return None; }
    let (n, d): (proc_macro2::Literal, proc_macro2::Literal) = (n.parse().ok()?, d.parse().ok()?);
    let mut e: Expr = parse_quote!(Real::lit(#n, #d));
    let ten = |k: usize| -> proc_macro2::Literal { format!("1{}", "0".repeat(k)).parse().unwrap() };
    while up > 0 { let k = up.min(37); let t = ten(k); e = parse_quote!((#e * Real::lit(#t, 1))); up -= k; }
    while down > 0 { let k = down.min(37); let t = ten(k); e = parse_quote!((#e / Real::lit(#t, 1))); down -= k; }
    Some(e)
}
fn float_lit(s: &str) -> Option<(String, String)> {
    // exact decimal numerator / denominator
    let s = s.replace('_', "");
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') { Some(p) => (s[..p].to_string(), s[p + 1..].parse::<i32>().ok()?), None => (s.clone(), 0) };
    let (i, f) = match m.split_once('.') { Some((a, b)) => (a.to_string(), b.to_string()), None => (m.clone(), String::new()) };
    let f = f.trim_end_matches('0').to_string();
    let mut num = format!("{}{}", i, f).trim_start_matches('0').to_string();
    if num.is_empty() { num = "0".into(); }
    let mut den = format!("1{}", "0".repeat(f.len()));
    if e > 0 { num.push_str(&"0".repeat(e as usize)); }
    if e < 0 { den.push_str(&"0".repeat((-e) as usize)); }
    Some((num, den))
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R8: single-use local iterator bindings are substituted at their use
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        // R9: `let f = match .. { p => path }` followed by `f(args)`
        let mut fn_lets: BTreeMap<String, ExprMatch> = BTreeMap::new();
        for mut s in stmts {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = &*init.expr {
                        if iters::ADAPTORS.contains(&m.method.to_string().as_str()) || m.method == "iter" {
                            match self.parse_iter(&init.expr, false) { Ok(Some(_)) => { self.iter_lets.insert(i.ident.to_string(), (*init.expr).clone()); continue; } Ok(None) => {} Err(e) => { self.fail(e); return; } }
                        }
                    }
                    if let Expr::Match(m) = &*init.expr {
                        if m.arms.iter().all(|a| matches!(&*a.body, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.cx.k.fns.values().any(|f| f.sig.ident == *i && f.impl_key.is_none() && !self.cx.k.items.contains_key(&f.id))))) {
                            fn_lets.insert(i.ident.to_string(), m.clone());
                            continue;
                        }
                    }
                }
            }
            if !fn_lets.is_empty() {
                struct R<'b>(&'b BTreeMap<String, ExprMatch>);
                impl<'b> VisitMut for R<'b> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { if let Some(i) = p.path.get_ident() { if let Some(m) = self.0.get(&i.to_string()) {
                            let mut m = m.clone();
                            for a in m.arms.iter_mut() { let mut c2 = c.clone(); c2.func = a.body.clone(); a.body = Box::new(Expr::Call(c2)); }
                            *e = Expr::Match(m);
                        } } } }
                    }
                }
                R(&fn_lets).visit_stmt_mut(&mut s);
            }
            // statement-level rewrites
            if let Stmt::Macro(m) = &s {
                match self.macro_expr(&m.mac) { Ok(Some(e)) => { s = Stmt::Expr(e, Some(Default::default())); } Ok(None) => { if m.mac.path.is_ident("__vc") || m.mac.path.is_ident("__vcloop") { out.push(s); continue; } continue; } Err(e) => { self.fail(e); return; } }
            }
            if let Stmt::Expr(Expr::MethodCall(m), _) = &s {
                let n = m.method.to_string();
                if n == "drain" && m.args.len() == 1 {
                    if let Expr::Range(r) = &m.args[0] { if r.start.is_none() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) { let recv = &m.receiver; let e = r.end.as_ref().unwrap(); s = parse_quote!(vc_drain_front(&mut #recv, #e);); } }
                } else if n == "extend" && m.args.len() == 1 {
                    match self.parse_iter(&m.args[0], true) {
                        Ok(Some(it)) => {
                            let recv = m.receiver.clone();
                            match self.emit(it, &mut |_, e| { let x = match &e { iters::Elem::Ref(p) => p.clone(), e => iters::to_expr(e) }; Ok(vec![parse_quote!(vc_push(&mut #recv, #x);)]) }, None) { Ok(b) => s = Stmt::Expr(parse_quote!({ #(#b)* }), None), Err(e) => { self.fail(e); return; } }
                        }
                        Ok(None) => {}
                        Err(e) => { self.fail(e); return; }
                    }
                }
            }
            // R24: reference patterns bind the reference and dereference it; assignments to tuples go through temporaries
            if let Stmt::Local(l) = &mut s {
                if l.init.as_ref().map_or(false, |i| i.diverge.is_some()) {
                    let mut ns = vec![];
                    deref_pat(&mut l.pat, &mut ns);
                    if !ns.is_empty() { self.visit_stmt_mut(&mut s); out.push(s); for n in ns { out.push(parse_quote!(let #n = *#n;)); } continue; }
                }
            }
            if let Stmt::Expr(Expr::Assign(a), _) = &s { if let Expr::Tuple(t) = &*a.left {
                let names: Vec<Ident> = t.elems.iter().map(|_| self.fresh("tup")).collect();
                let r = &a.right;
                let pats: Vec<Pat> = names.iter().zip(&t.elems).map(|(n, e)| if matches!(e, Expr::Infer(_)) { parse_quote!(_) } else { parse_quote!(#n) }).collect();
                let mut st: Vec<Stmt> = vec![];
                match &**r {
                    Expr::Tuple(rt) if rt.elems.len() == names.len() => for (p, x) in pats.iter().zip(&rt.elems) { st.push(parse_quote!(let #p = #x;)); },
                    r => st.push(parse_quote!(let (#(#pats),*) = #r;)),
                }
                for (n, l) in names.iter().zip(&t.elems) { if !matches!(l, Expr::Infer(_)) { st.push(parse_quote!(#l = #n;)); } }
                for mut x in st { self.visit_stmt_mut(&mut x); if self.err.is_some() { return; } out.push(x); }
                continue;
            } }
            // R21: the value of a `loop` is carried by a fresh optional variable
            if let Stmt::Local(l) = &mut s { if let Some(init) = &mut l.init { if init.diverge.is_none() { if let Expr::Loop(lp) = &mut *init.expr {
                let v = self.fresh("brk");
                if !break_values(&mut lp.body, &v) { self.fail("loop value from a nested break".into()); return; }
                let mut st: Stmt = Stmt::Expr(Expr::Loop(lp.clone()), None);
                self.visit_stmt_mut(&mut st);
                if self.err.is_some() { return; }
                out.push(parse_quote!(let mut #v = None;));
                if let Stmt::Expr(Expr::Block(bl), _) = st { out.extend(bl.block.stmts); } else { out.push(st); }
                *init.expr = parse_quote!(vc_taken(#v));
                out.push(s);
                continue;
            } } } }
            if let Stmt::Local(l) = &s { let l = l.clone(); self.visit_stmt_mut(&mut s); self.note_floats(&l); } else { self.visit_stmt_mut(&mut s); }
            if self.err.is_some() { return; }
            match s {
                // a block expression produced by a desugared loop is spliced when it declares only fresh names
                Stmt::Expr(Expr::Block(bl), semi) if bl.label.is_none() && is_loop_block(&bl.block) => { let _ = semi; out.extend(bl.block.stmts); }
                Stmt::Local(mut l) => {
                    // `let x = { fresh..; acc }` is spliced so that loop anchors sit at statement level
                    let mut spliced = false;
                    if let Some(init) = &mut l.init {
                        if init.diverge.is_none() {
                            if let Expr::Block(bl) = &mut *init.expr {
                                if bl.label.is_none() && is_loop_block_tail(&bl.block) {
                                    let mut st = std::mem::take(&mut bl.block.stmts);
                                    if let Some(Stmt::Expr(t, None)) = st.pop() { out.extend(st); *init.expr = t; spliced = true; }
                                }
                            }
                        }
                    }
                    let _ = spliced;
                    out.push(Stmt::Local(l));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_type_mut(&mut self, t: &mut Type) { map_type(t); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() { return; }
        // ---- before children
        match e {
            Expr::Match(m) => for a in m.arms.iter_mut() {
                if matches!(a.pat, Pat::Or(_)) { continue; }
                let mut ns = vec![];
                deref_pat(&mut a.pat, &mut ns);
                if ns.is_empty() { continue; }
                if let Some((_, g)) = &mut a.guard { deref_uses(g, &ns); }
                let b = &a.body;
                a.body = parse_quote!({ #(let #ns = *#ns;)* #b });
            },
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond {
                let mut ns = vec![];
                deref_pat(&mut l.pat, &mut ns);
                for n in ns.into_iter().rev() { i.then_branch.stmts.insert(0, parse_quote!(let #n = *#n;)); }
            },
            Expr::While(w) => if let Expr::Let(l) = &mut *w.cond {
                let mut ns = vec![];
                deref_pat(&mut l.pat, &mut ns);
                for n in ns.into_iter().rev() { w.body.stmts.insert(0, parse_quote!(let #n = *#n;)); }
            },
            _ => {}
        }
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.for_loop(&f) { Ok(mut x) => { self.visit_expr_mut(&mut x); *e = x; } Err(m) => self.fail(m) }
                return;
            }
            Expr::While(w) => {
                if w.body.stmts.first().map_or(false, |s| squash(s).starts_with("__vcloop!")) {
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                let n = self.new_loop("while");
                let nn = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                if let Expr::While(w) = e {
                    let st = std::mem::take(&mut w.body.stmts);
                    w.body = parse_quote!({ __vcloop!(#nn); __vc!(body, #nn); #(#st)* __vc!(tail, #nn); });
                    let w = w.clone();
                    *e = parse_quote!({ __vc!(before, #nn); #w __vc!(after, #nn); });
                }
                return;
            }
            Expr::Loop(_) => {
                let n = self.new_loop("loop");
                let nn = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                if let Expr::Loop(w) = e {
                    let st = std::mem::take(&mut w.body.stmts);
                    w.body = parse_quote!({ __vcloop!(#nn); __vc!(body, #nn); #(#st)* __vc!(tail, #nn); });
                    struct B(bool, bool);
                    impl VisitMut for B {
                        fn visit_expr_break_mut(&mut self, b: &mut ExprBreak) { if b.expr.is_some() { self.1 = true; } else { self.0 = true; } }
                        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                    }
                    let mut k = B(false, false);
                    k.visit_block_mut(&mut w.body);
                    if k.0 && !k.1 { let w = w.clone(); *e = parse_quote!({ #w __vc!(after, #nn); }); }
                }
                return;
            }
            Expr::MethodCall(m) if combinator(m).is_some() && !matches!(self.parse_iter(&m.receiver, false), Ok(Some(_)) | Err(_)) => {
                let mut x = combinator(m).unwrap();
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                match self.consumer(&m) { Ok(Some(mut x)) => { self.visit_expr_mut(&mut x); *e = x; return; } Ok(None) => {} Err(x) => { self.fail(x); return; } }
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.macro_expr(&mac) { Ok(Some(mut x)) => { self.visit_expr_mut(&mut x); *e = x; } Ok(None) => {} Err(x) => self.fail(x) }
                return;
            }
            Expr::Lit(l) => {
                let fl = match &l.lit { Lit::Float(f) => Some(f.base10_digits().to_string()), Lit::Int(i) if i.suffix().starts_with('f') => Some(i.base10_digits().to_string()), _ => None };
                if let Some(s) = fl {
                    match float_lit(&s) {
                        Some((n, d)) => match lit_expr(&n, &d) { Some(x) => *e = x, None => self.fail("float literal".into()) },
                        None => self.fail("float literal".into()),
                    }
                }
                return;
            }
            // R15: boxing is transparent; `Box::new(x) as Box<dyn Trait>` is x (trait objects are replaced by their only implementor)
            Expr::Call(c) if squash(&c.func) == "Box::new" && c.args.len() == 1 => {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            Expr::Cast(c) if squash(&c.ty).starts_with("Box<dynAudioConsumer<") || squash(&c.ty).starts_with("Fft<Chroma<") => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            // R18: `?` in a function returning anyhow::Result
            Expr::Try(t) if self.anyhow => {
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!((match #x { Ok(__v) => __v, Err(__e) => return Err(vc_anyhow(__e)) }));
                return;
            }
            // an inferred cast in a tuple-struct constructor has the type of the field
            Expr::Call(c) if c.args.iter().any(|a| matches!(a, Expr::Cast(k) if matches!(&*k.ty, Type::Infer(_)))) => {
                let n = squash(&c.func);
                let n = n.rsplit("::").next().unwrap().to_string();
                if let Some(Item::Struct(st)) = self.cx.k.items.iter().find(|(k, _)| k.ends_with(&format!("::{}", n))).map(|x| x.1) {
                    for (a, f) in c.args.iter_mut().zip(st.fields.iter()) { if let Expr::Cast(k) = a { if matches!(&*k.ty, Type::Infer(_)) { *k.ty = f.ty.clone(); } } }
                    if c.args.iter().any(|a| matches!(a, Expr::Cast(k) if matches!(&*k.ty, Type::Infer(_)))) { self.fail("inferred cast".into()); return; }
                } else { self.fail("inferred cast".into()); return; }
            }
            Expr::Cast(c) => {
                let ty = squash(&c.ty);
                if ty == "f64" || ty == "f32" {
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    *e = parse_quote!((#x).to_real());
                    return;
                }
                if self.is_float(&c.expr) {
                    if !INTS.contains(&ty.as_str()) { self.fail(format!("float cast to {}", ty)); return; }
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    let m = format_ident(&format!("to_{}_sat", ty));
                    *e = parse_quote!((#x).#m());
                    return;
                }
                let inner = unparen(&c.expr);
                let isbool = match inner { Expr::Binary(b) => matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::And(_) | BinOp::Or(_)), _ => false };
                if isbool {
                    let mut x = inner.clone();
                    self.visit_expr_mut(&mut x);
                    let t = c.ty.clone();
                    *e = parse_quote!((if #x { 1 as #t } else { 0 as #t }));
                    return;
                }
            }
            Expr::Unary(u) => {
                if let (UnOp::Neg(_), Expr::Lit(l)) = (&u.op, &*u.expr) { if let Lit::Float(f) = &l.lit { if let Some((n, d)) = float_lit(f.base10_digits()) { if n.len() <= 38 && d.len() <= 38 { let n: proc_macro2::Literal = n.parse().unwrap(); let d: proc_macro2::Literal = d.parse().unwrap(); *e = parse_quote!(Real::neg_lit(#n, #d)); return; } } } }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) && squash(&b.left).contains('(') && squash(&b.right).contains('(') => {
                // R10: the right operand of a primitive compound assignment is evaluated first
                let t = self.fresh("rhs");
                let (l, r, op) = (&b.left, &b.right, &b.op);
                let mut x: Expr = parse_quote!({ let #t = #r; #l #op #t; });
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                // R11: mutable sub-ranges are taken from the slice view of the collection
                fn go(e: &mut Expr) {
                    if let Expr::Index(i) = e { if matches!(unparen(&i.index), Expr::Range(_)) {
                        if let Expr::Index(_) = &*i.expr { go(&mut i.expr); }
                        else if iters::is_place(&i.expr) { let b = &i.expr; let n: Expr = parse_quote!(#b.vc_ms()); *i.expr = n; }
                    } }
                }
                go(&mut r.expr);
            }
            Expr::Closure(_) => { /* closures that survive are left to Verus */ }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.err.is_some() { return; }
        // ---- after children
        match e {
            Expr::Path(p) => {
                let s = squash(&p.path);
                // R16
                if let Some(i) = p.path.get_ident() { let i = i.clone(); if let Some(Item::Const(_)) = self.const_item(&i.to_string()) { if self.cx.k.fns.values().any(|f| f.sig.ident == i && f.impl_key.is_none() && self.cx.db.fns.contains_key(&f.id)) { *e = parse_quote!(#i()); return; } } }
                if s.ends_with("f64::consts::PI") || s.ends_with("f32::consts::PI") { *e = parse_quote!(Real::pi()); return; }
                strip_crate(&mut p.path);
                if p.path.segments.len() == 2 && (p.path.segments[0].ident == "f64" || p.path.segments[0].ident == "f32") { p.path.segments[0].ident = format_ident("Real"); }
            }
            Expr::Call(c) => {
                let s = squash(&c.func);
                let base = s.rsplit("::").next().unwrap().to_string();
                if s == "Real::from" || s == "Real::from" { let a = &c.args[0]; *e = parse_quote!((#a).to_real()); return; }
                if (base == "min" || base == "max") && c.args.len() == 2 && (INTS.contains(&s.split("::").next().unwrap()) || s.contains("cmp::") || s.starts_with("Real::")) {
                    let f = format_ident(&format!("vc_{}", base)); let (a, b) = (&c.args[0], &c.args[1]);
                    *e = parse_quote!(#f(#a, #b)); return;
                }
                if let Some((t, "from")) = s.split_once("::") { if INTS.contains(&t) && c.args.len() == 1 { let a = &c.args[0]; let t = format_ident(t); *e = parse_quote!(((#a) as #t)); return; } }
                if s.ends_with("array::from_fn") && c.args.len() == 1 {
                    if let Expr::Closure(cl) = &c.args[0] { if cl.inputs.len() == 1 && matches!(cl.inputs[0], Pat::Wild(_)) { let b = &cl.body; *e = parse_quote!(vc_array_of(#b)); return; } }
                    self.fail("array::from_fn with an index-dependent closure".into());
                }
                self.callees.insert(s);
                // iterator arguments
                let mut c2 = c.clone();
                for a in c2.args.iter_mut() {
                    if let Expr::MethodCall(_) = a {
                        match self.parse_iter(a, false) {
                            Ok(Some(it)) => {
                                let acc = self.fresh("acc");
                                match self.emit(it, &mut |_, e| { let x = iters::to_expr(&e); Ok(vec![parse_quote!(#acc.push(#x);)]) }, None) {
                                    Ok(b) => { let mut x: Expr = parse_quote!(VIter::new({ let mut #acc = Vec::new(); #(#b)* #acc })); let sv = self.loops.clone(); visit_mut::visit_expr_mut(self, &mut x); self.loops = sv; *a = x; }
                                    Err(m) => { self.fail(m); return; }
                                }
                            }
                            Ok(None) => {}
                            Err(m) => { self.fail(m); return; }
                        }
                    }
                }
                *e = Expr::Call(c2);
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                m.turbofish = m.turbofish.clone();
                if n == "into" || n == "to_vec" || n == "to_owned" { if let Expr::Call(c) = &*m.receiver { if c.args.is_empty() { if let Some(i) = call_ident(c) { if let Some(Item::Const(k)) = self.const_item(&i) { if matches!(&*k.ty, Type::Array(_)) { let a = &m.receiver; *e = parse_quote!(vc_array_to_vec(#a)); return; } } } } } }
                match (n.as_str(), m.args.len()) {
                    ("div_ceil", 1) => { let (a, b) = (&m.receiver, &m.args[0]); *e = parse_quote!(vc_div_ceil(#a, #b)); return; }
                    ("min", 1) | ("max", 1) => { let f = format_ident(&format!("vc_{}", n)); let (a, b) = (&m.receiver, &m.args[0]); *e = parse_quote!(#f(#a, #b)); return; }
                    ("into", 0) if self.into_float => { let a = &m.receiver; *e = parse_quote!((#a).to_real()); return; }
                    ("then_some", 1) => { let (a, b) = (&m.receiver, &m.args[0]); *e = parse_quote!({ let __v = #b; if #a { Some(__v) } else { None } }); return; }
                    ("sort_unstable", 0) | ("sort", 0) => { let a = &m.receiver; *e = parse_quote!(vc_sort(&mut #a)); return; }
                    ("sort_unstable_by_key", 1) | ("sort_by_key", 1) => {
                        if squash(&m.args[0]).ends_with("Reverse(*it)") || { let s = squash(&m.args[0]); s.contains("Reverse(*") } { let a = &m.receiver; *e = parse_quote!(vc_sort_desc(&mut #a)); return; }
                        self.fail("unsupported sort key".into());
                    }
                    ("to_string", 0) => { let a = &m.receiver; *e = parse_quote!(vc_to_string(&#a)); return; }
                    ("join", 1) => { let (a, b) = (&m.receiver, &m.args[0]); *e = parse_quote!(vc_join(&#a, #b)); return; }
                    ("parse", 0) if m.turbofish.is_some() => { let f = format_ident(&format!("vc_parse_{}", squash(&m.turbofish.as_ref().unwrap().args))); let a = &m.receiver; *e = parse_quote!(#f(#a)); return; }
                    ("into_boxed_slice", 0) => { let a = &m.receiver; *e = parse_quote!(vc_boxed(#a)); return; }
                    ("count_ones", 0) => { let a = &m.receiver; *e = parse_quote!(vc_count_ones(#a)); return; }
                    _ => {}
                }
                self.callees.insert(format!(".{}", n));
            }
            _ => {}
        }
    }
}
/// R22: combinators of Option and Result applied to a closure become the match they stand for
fn combinator(m: &ExprMethodCall) -> Option<Expr> {
    let n = m.method.to_string();
    if m.args.len() == 2 && (n == "map_or" || n == "map_or_else") {
        let c = match &m.args[1] { Expr::Closure(c) => c, _ => return None };
        if iters::contains_return(&c.body) || c.inputs.len() != 1 { return None; }
        let (r, b, p) = (&m.receiver, &c.body, iters::strip_pat_type(&c.inputs[0]));
        let d: Expr = match (&m.args[0], n.as_str()) {
            (Expr::Closure(d), "map_or_else") if d.inputs.is_empty() && !iters::contains_return(&d.body) => (*d.body).clone(),
            (d, "map_or") if !matches!(d, Expr::Closure(_)) => d.clone(),
            _ => return None,
        };
        // the default of map_or is evaluated first; a literal or a place has no effect of its own
        if n == "map_or" && !matches!(&d, Expr::Lit(_) | Expr::Path(_)) && !iters::is_place(&d) { return Some(parse_quote!(({ let __o = #r; let __d = #d; match __o { Some(#p) => #b, None => __d } }))); }
        return Some(parse_quote!((match #r { Some(#p) => #b, None => #d })));
    }
    if m.args.len() != 1 { return None; }
    let c = match &m.args[0] { Expr::Closure(c) => c, _ => return None };
    if iters::contains_return(&c.body) { return None; }
    let (r, b) = (&m.receiver, &c.body);
    let p = c.inputs.first().map(|p| iters::strip_pat_type(p).clone());
    Some(match (m.method.to_string().as_str(), p) {
        ("or_else", None) => parse_quote!((match #r { Some(__v) => Some(__v), None => #b })),
        ("unwrap_or_else", None) => parse_quote!((match #r { Some(__v) => __v, None => #b })),
        ("ok_or_else", None) => parse_quote!((match #r { Some(__v) => Ok(__v), None => Err(#b) })),
        ("and_then", Some(p)) => parse_quote!((match vc_split(#r) { Ok(#p) => #b, Err(__e) => vc_fail(__e) })),
        ("is_some_and", Some(p)) => parse_quote!((match #r { Some(#p) => #b, None => false })),
        ("is_none_or", Some(p)) => parse_quote!((match #r { Some(#p) => #b, None => true })),
        ("is_ok_and", Some(p)) => parse_quote!((match #r { Ok(#p) => #b, Err(_) => false })),
        ("map", Some(p)) => parse_quote!((match #r { Some(#p) => Some(#b), None => None })),
        ("map_err", Some(p)) => parse_quote!((match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })),
        _ => return None,
    })
}
fn call_ident(c: &ExprCall) -> Option<String> { if let Expr::Path(p) = &*c.func { p.path.get_ident().map(|i| i.to_string()) } else { None } }
fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), _ => e } }
fn is_loop_block(b: &Block) -> bool {
    b.stmts.iter().any(|s| squash(s).starts_with("__vc!(")) && b.stmts.iter().all(|s| match s {
        Stmt::Local(l) => fresh_pat(&l.pat),
        Stmt::Macro(m) => m.mac.path.is_ident("__vc"),
        Stmt::Expr(Expr::While(_), _) => true,
        _ => false,
    })
}
fn is_loop_block_tail(b: &Block) -> bool {
    let n = b.stmts.len();
    n >= 2 && b.stmts.iter().any(|s| squash(s).starts_with("__vc!(")) && b.stmts[..n - 1].iter().all(|s| match s {
        Stmt::Local(l) => fresh_pat(&l.pat),
        Stmt::Macro(m) => m.mac.path.is_ident("__vc"),
        Stmt::Expr(Expr::While(_), _) => true,
        _ => false,
    })
}
fn fresh_pat(p: &Pat) -> bool {
    match strip(p) { Pat::Ident(i) => { let s = i.ident.to_string(); s.contains("_t") && s.rsplit("_t").next().unwrap().parse::<u32>().is_ok() || (s.len() >= 2 && (s.starts_with('k') || s.starts_with('n') || s.starts_with('j')) && s[1..].parse::<u32>().is_ok()) } _ => false }
}

impl<'a> Rw<'a> {
    fn macro_expr(&mut self, m: &Macro) -> Res<Option<Expr>> {
        use syn::punctuated::Punctuated;
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || -> Res<Vec<Expr>> { m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).map_err(|e| e.to_string()) };
        match name.as_str() {
            "__vc" | "__vcloop" => Ok(None),
            "assert" | "debug_assert" => { let a = args()?; let c = &a[0]; Ok(Some(parse_quote!(rt_assert(#c)))) }
            "assert_eq" | "debug_assert_eq" => { let a = args()?; let (x, y) = (&a[0], &a[1]); Ok(Some(parse_quote!(rt_assert(#x == #y)))) }
            "assert_ne" | "debug_assert_ne" => { let a = args()?; let (x, y) = (&a[0], &a[1]); Ok(Some(parse_quote!(rt_assert(#x != #y)))) }
            "panic" | "todo" | "unimplemented" | "unreachable" => Ok(Some(parse_quote!(rt_unreachable()))),
            "vec" => {
                if let Ok(r) = m.parse_body::<ExprRepeatInner>() { let (e, n) = (r.0, r.1); return Ok(Some(parse_quote!(vc_vec_from_elem(#e, #n)))); }
                let a = args()?;
                if a.is_empty() { return Ok(Some(parse_quote!(Vec::new()))); }
                let v = self.fresh("acc");
                Ok(Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v })))
            }
            "write" => { let a = args()?; Ok(Some(write_expr(&a)?)) }
            "println" | "print" => { let a = args()?; Ok(Some(print_expr(&a, name == "println")?)) }
            // standard error is not part of what is specified
            "eprintln" | "eprint" => { let a = args()?; for x in a.iter().skip(1) { if !matches!(x, Expr::Path(_) | Expr::Field(_) | Expr::Lit(_)) { return Err("eprintln! with computed arguments".into()); } } Ok(Some(parse_quote!({}))) }
            "writeln" | "format" => Err(format!("macro {} is outside the extracted subset", name)),
            n => Err(format!("unsupported macro {}", n)),
        }
    }
}
/// the pieces of a format string: a literal character, or an argument with its directive
enum Piece { Ch(char), Arg(Expr, String) }
fn pieces(a: &[Expr]) -> Res<Vec<Piece>> {
    let f = match a.first() { Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), _ => return Err("formatting macro without literal format".into()) };
    let mut out = vec![];
    let mut next = 1usize;
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if (c == '{' || c == '}') && cs.get(i + 1) == Some(&c) { out.push(Piece::Ch(c)); i += 2; continue; }
        if c == '}' { return Err("bad format".into()); }
        if c != '{' { out.push(Piece::Ch(c)); i += 1; continue; }
        let e = cs[i..].iter().position(|x| *x == '}').ok_or("bad format")? + i;
        let d: String = cs[i + 1..e].iter().collect();
        let (n, spec) = match d.split_once(':') { Some((n, s)) => (n.trim().to_string(), s.trim().to_string()), None => (d.trim().to_string(), String::new()) };
        let x: Expr = if n.is_empty() { let x = a.get(next).ok_or("missing format argument")?.clone(); next += 1; x }
            else if let Ok(k) = n.parse::<usize>() { a.get(1 + k).ok_or("missing format argument")?.clone() }
            else {
                let named = a[1..].iter().find_map(|x| if let Expr::Assign(g) = x { if squash(&g.left) == n { Some((*g.right).clone()) } else { None } } else { None });
                match named { Some(x) => x, None => { let i = format_ident(&n); parse_quote!(#i) } }
            };
        out.push(Piece::Arg(x, spec));
        i = e + 1;
    }
    Ok(out)
}
fn char_lit(c: char) -> LitChar { LitChar::new(c, proc_macro2::Span::call_site()) }
/// R17: `write!` with `{}` and `{:0w}` directives becomes one call per literal character and per number.
fn write_expr(a: &[Expr]) -> Res<Expr> {
    let w = &a[0];
    let mut st: Vec<Stmt> = vec![];
    for p in pieces(&a[1..])? {
        match p {
            Piece::Ch(c) => { let l = char_lit(c); st.push(parse_quote!(vc_put(#w, #l);)); }
            Piece::Arg(x, spec) => {
                let width: usize = if spec.is_empty() { 0 } else if spec.len() >= 2 && spec.starts_with('0') { spec.parse().map_err(|_| format!("format directive {}", spec))? } else { return Err(format!("format directive {}", spec)); };
                st.push(parse_quote!(vc_put_dec(#w, #x, #width);));
            }
        }
    }
    Ok(parse_quote!({ #(#st)* Ok(()) }))
}
/// R20: `print!` and `println!` become one call per literal character and per argument, in order.
fn print_expr(a: &[Expr], nl: bool) -> Res<Expr> {
    let mut st: Vec<Stmt> = vec![];
    let mut run: Vec<LitChar> = vec![];
    // literal characters are put eight at a time at most; how many at once makes no difference to the result
    fn put(st: &mut Vec<Stmt>, run: &mut Vec<LitChar>) {
        for c in run.chunks(8) { let f = format_ident(&format!("vc_out_put{}", c.len())); st.push(parse_quote!(#f(#(#c),*);)); }
        run.clear();
    }
    for p in if a.is_empty() { vec![] } else { pieces(a)? } {
        match p {
            Piece::Ch(c) => run.push(char_lit(c)),
            Piece::Arg(x, spec) => {
                put(&mut st, &mut run);
                if spec.is_empty() { st.push(parse_quote!(vc_out_show(&(#x));)); continue; }
                let bad = || format!("format directive {}", spec);
                let (align, tail) = match spec.chars().next().unwrap() { '<' => (1usize, &spec[1..]), '>' => (2, &spec[1..]), '^' => (3, &spec[1..]), _ => (0, &spec[..]) };
                let (width, prec) = match tail.split_once('.') { Some((w, p)) => (w, Some(p.parse::<usize>().map_err(|_| bad())?)), None => (tail, None) };
                if width.starts_with('0') { return Err(bad()); }
                let width: usize = if width.is_empty() { 0 } else { width.parse().map_err(|_| bad())? };
                if width == 0 {
                    match prec { Some(n) => st.push(parse_quote!(vc_out_fixed(&(#x), #n);)), None => st.push(parse_quote!(vc_out_show(&(#x));)) }
                } else {
                    match prec { Some(n) => st.push(parse_quote!(vc_out_fixed_in(&(#x), #n, #align, #width);)), None => st.push(parse_quote!(vc_out_show_in(&(#x), #align, #width);)) }
                }
            }
        }
    }
    if nl { run.push(char_lit('\n')); }
    put(&mut st, &mut run);
    Ok(parse_quote!({ #(#st)* }))
}
struct ExprRepeatInner(Expr, Expr);
impl syn::parse::Parse for ExprRepeatInner {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        let b: Expr = i.parse()?;
        Ok(ExprRepeatInner(a, b))
    }
}

/// R19: calls of functions whose contract names a ghost argument get that (erased) argument appended.
fn add_ghost_args(cx: &Cx, b: &mut Block) -> Res<()> {
    let mut m: HashMap<String, Expr> = HashMap::new();
    for (id, c) in &cx.db.fns {
        if c.ghostarg.is_empty() { continue; }
        let e: Expr = parse_str(&c.ghostarg).map_err(|e| format!("ghostarg: {}", e))?;
        let v: Vec<&str> = id.split("::").collect();
        if v.len() == 1 { m.insert(id.clone(), e); continue; }
        if cx.k.fns.contains_key(id) && cx.k.fns[id].impl_key.is_none() { m.insert(v[v.len() - 1].to_string(), e); continue; }
        m.insert(format!(".{}", v[v.len() - 1]), e.clone());
        m.insert(v[v.len() - 2..].join("::"), e);
    }
    if m.is_empty() { return Ok(()); }
    struct G<'a>(&'a HashMap<String, Expr>);
    impl<'a> VisitMut for G<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::MethodCall(c) => if let Some(x) = self.0.get(&format!(".{}", c.method)) { c.args.push(x.clone()); },
                Expr::Call(c) => if let Expr::Path(p) = &*c.func { if let Some(x) = self.0.get(&squash(&p.path)) { let x = x.clone(); c.args.push(x); } },
                _ => {}
            }
        }
    }
    G(&m).visit_block_mut(b);
    Ok(())
}
