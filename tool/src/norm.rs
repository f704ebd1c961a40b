//! Normalisation: attribute removal, no-op removal (R2), helper inlining (R3), binder alignment (R4).
use crate::print::{format_ident, squash};
use crate::rewrite::Cx;
use crate::{FnInfo, Res};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::quote;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn strip_attrs(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_stmt_mut(&mut self, s: &mut Stmt) { visit_mut::visit_stmt_mut(self, s); }
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    }
    V.visit_block_mut(b);
    struct W;
    impl VisitMut for W {
        fn visit_local_mut(&mut self, l: &mut Local) { l.attrs.clear(); visit_mut::visit_local_mut(self, l); }
    }
    W.visit_block_mut(b);
}

fn closed(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => closed(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(closed),
        Expr::Array(t) => t.elems.iter().all(closed),
        Expr::Unary(u) => closed(&u.expr),
        Expr::Reference(u) => closed(&u.expr),
        Expr::Cast(c) => closed(&c.expr),
        Expr::Binary(b) => !squash(&b.op).ends_with('=') && closed(&b.left) && closed(&b.right) || matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) && closed(&b.left) && closed(&b.right),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.iter().all(|s| noop_stmt(s, None)) ,
        Expr::If(i) => closed(&i.cond) && (squash(&i.cond) == "false" || i.then_branch.stmts.iter().all(|s| noop_stmt(s, None))) && i.else_branch.as_ref().map_or(true, |(_, e)| closed(e)),
        Expr::Call(c) => { let f = squash(&c.func); ["std::hint::black_box", "core::hint::black_box", "black_box", "std::convert::identity", "core::convert::identity", "identity", "drop", "std::mem::drop", "core::mem::drop", "std::sync::atomic::compiler_fence", "std::hint::spin_loop", "core::hint::spin_loop"].contains(&f.as_str()) && c.args.iter().all(closed) || f.starts_with("std::mem::size_of") || f.starts_with("core::mem::size_of") }
        Expr::Macro(m) => noop_macro(&m.mac),
        Expr::ForLoop(f) => squash(&f.expr) == "0..0" || (f.body.stmts.is_empty() && closed_range(&f.expr)),
        Expr::While(w) => squash(&w.cond) == "false",
        Expr::Match(m) => closed(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() && closed(&a.body)),
        Expr::Loop(l) => l.body.stmts.len() == 1 && squash(&l.body.stmts[0]).trim_end_matches(';') == "break",
        Expr::Path(p) => squash(&p.path).contains("::MAX") || squash(&p.path).contains("::MIN"),
        _ => false,
    }
}
fn closed_range(e: &Expr) -> bool { if let Expr::Range(r) = e { r.start.as_ref().map_or(true, |x| closed(x)) && r.end.as_ref().map_or(false, |x| closed(x)) } else { false } }
fn noop_macro(m: &Macro) -> bool {
    let n = m.path.segments.last().unwrap().ident.to_string();
    let t: String = m.tokens.to_string().split_whitespace().collect();
    (n == "assert" || n == "debug_assert") && t.starts_with("true") || (n == "debug_assert_eq" || n == "assert_eq") && t.split_once(',').map_or(false, |(a, b)| a == b.trim_end_matches(',') && a.parse::<i64>().is_ok())
}
/// Pure and total expressions over locals (used only for unused underscore bindings).
fn pure(e: &Expr) -> bool {
    closed(e) || match e {
        Expr::Path(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::MethodCall(m) => ["len", "is_empty", "is_some", "is_none"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && pure(&m.receiver),
        Expr::Call(c) => { let f = squash(&c.func); f.ends_with("black_box") && c.args.iter().all(pure) }
        Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::BitAnd(_) | BinOp::BitXor(_) | BinOp::BitOr(_)) && pure(&b.left) && pure(&b.right),
        _ => false,
    }
}
fn noop_stmt(s: &Stmt, rest: Option<&[Stmt]>) -> bool {
    match s {
        Stmt::Expr(e, Some(_)) => closed(e) || matches!(e, Expr::Call(c) if squash(&c.func).ends_with("black_box") && c.args.iter().all(pure)),
        Stmt::Expr(e, None) => matches!(e, Expr::Block(_) | Expr::If(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_)) && closed(e) && rest.map_or(false, |r| !r.is_empty()) && !ends_in_value(e),
        Stmt::Macro(m) => noop_macro(&m.mac),
        Stmt::Item(Item::Const(c)) => c.ident == "_",
        Stmt::Local(l) => {
            let init = match &l.init { Some(i) if i.diverge.is_none() => &i.expr, _ => return false };
            let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            match pat {
                Pat::Wild(_) => closed(init) || pure(init) && matches!(**init, Expr::Reference(_) | Expr::MethodCall(_) | Expr::Binary(_) | Expr::Call(_)),
                Pat::Ident(i) => {
                    let used = rest.map_or(true, |r| r.iter().any(|s| has_ident(quote!(#s), &i.ident.to_string())));
                    !used && (closed(init) || pure(init) && i.by_ref.is_none())
                }
                _ => false,
            }
        }
        _ => false,
    }
}
fn ends_in_value(e: &Expr) -> bool {
    let last = |b: &Block| matches!(b.stmts.last(), Some(Stmt::Expr(x, None)) if !matches!(x, Expr::Block(_) | Expr::If(_) | Expr::ForLoop(_) | Expr::While(_)) && squash(x) != "()");
    match e { Expr::Block(b) => last(&b.block), Expr::If(i) => last(&i.then_branch), Expr::Match(m) => m.arms.iter().any(|a| squash(&a.body) != "()" && squash(&a.body) != "{}"), _ => false }
}
fn has_ident(ts: TokenStream, n: &str) -> bool {
    ts.into_iter().any(|t| match t { TokenTree::Ident(i) => i == n, TokenTree::Group(g) => has_ident(g.stream(), n), _ => false })
}
pub fn drop_noops(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            loop {
                let n = b.stmts.len();
                for i in 0..n {
                    let rest = b.stmts[i + 1..].to_vec();
                    if noop_stmt(&b.stmts[i], Some(&rest)) { b.stmts.remove(i); break; }
                }
                if b.stmts.len() == n { break; }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    V.visit_block_mut(b);
}

// ------------------------------------------------------------------ inlining
const STD_NAMES: &[&str] = &["push", "len", "iter", "iter_mut", "new", "reset", "clear", "insert", "get", "next", "consume", "flush", "output", "push_back", "extend", "min", "max", "clone", "into", "from", "fill", "sort", "last", "first", "is_empty", "resize", "map", "take", "unwrap", "expect", "abs", "fmt", "append", "pop", "swap", "drain", "row"];
fn has_ret(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; } fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} fn visit_item(&mut self, _: &'a Item) {} }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
struct Inl<'a> {
    cx: &'a Cx<'a>,
    f: &'a FnInfo,
    done: Vec<String>,
    ctr: usize,
}
impl<'a> Inl<'a> {
    fn candidate(&self, name: &str, self_type: bool, recv_self: bool) -> Option<&'a FnInfo> {
        let ok = |g: &&FnInfo| !self.cx.db.fns.contains_key(&g.id) && g.id != self.f.id && g.block.as_ref().map_or(false, |b| !has_ret(b)) && !matches!(&g.sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::ImplTrait(_)));
        let ty = self.f.impl_key.as_ref().map(|k| k.split('.').next().unwrap().to_string());
        if self_type {
            let k = ty?;
            return self.cx.k.fns.values().filter(ok).find(|g| g.sig.ident == name && g.impl_key.as_deref() == Some(&k));
        }
        if recv_self { return None; }
        let v: Vec<_> = self.cx.k.fns.values().filter(|g| g.sig.ident == name).collect();
        if v.len() == 1 && ok(&v[0]) { return Some(v[0]); }
        None
    }
    fn expand(&mut self, g: &FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut b = g.block.clone()?;
        strip_attrs(&mut b);
        let mut sig = g.sig.clone();
        // hygiene: rename the helper's binders that also occur in the caller
        let caller: BTreeSet<String> = { let blk = self.f.block.as_ref().unwrap(); binders(&self.f.sig, blk).into_iter().collect() };
        self.ctr += 1;
        let ren: Vec<(String, String)> = binders(&sig, &b).into_iter().filter(|x| caller.contains(x)).map(|x| { let y = format!("{}_h{}", x, self.ctr); (x, y) }).collect::<BTreeSet<_>>().into_iter().collect();
        rename(&mut sig, &mut b, &ren);
        if let Some(r) = &recv { if squash(r) != "self" { if !crate::iters::is_place(r) { return None; } subst_self(&mut b, r); } }
        let mut st: Vec<Stmt> = vec![];
        let mut n = 0;
        for a in sig.inputs.iter() {
            if let FnArg::Typed(p) = a {
                let arg = args.get(n)?.clone();
                n += 1;
                let (pat, ty) = (&p.pat, &p.ty);
                if matches!(**ty, Type::ImplTrait(_)) || has_generic(&sig.generics, ty) { st.push(parse_quote!(let #pat = #arg;)); continue; }
                // argument that is the very same immutable variable: no binding needed
                if let (Pat::Ident(i), Expr::Path(ap)) = (&**pat, &arg) {
                    if i.mutability.is_none() { if let Some(id) = ap.path.get_ident() { let from = i.ident.to_string(); let to = id.to_string(); let mut s2 = sig.clone(); if from != to { rename(&mut s2, &mut b, &[(from, to)]); } continue; } }
                }
                st.push(parse_quote!(let #pat: #ty = #arg;));
            }
        }
        self.done.push(g.id.clone());
        st.extend(b.stmts);
        if st.len() == 1 { if let Stmt::Expr(e, None) = &st[0] { return Some(parse_quote!((#e))); } }
        Some(parse_quote!({ #(#st)* }))
    }
}
fn has_generic(g: &Generics, ty: &Type) -> bool { let s = quote!(#ty); g.type_params().any(|p| has_ident(s.clone(), &p.ident.to_string())) }
pub fn subst_self(b: &mut Block, r: &Expr) {
    struct V<'a>(&'a Expr);
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return; } } visit_mut::visit_expr_mut(self, e); }
    }
    V(r).visit_block_mut(b);
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let last = segs.last().unwrap().clone();
                    if segs.len() == 2 && segs[0] == "Self" {
                        self.candidate(&last, true, false).cloned().and_then(|g| if g.sig.receiver().is_some() { if squash(&args[0]).ends_with("self") { self.expand(&g, Some(parse_quote!(self)), args[1..].to_vec()) } else { None } } else { self.expand(&g, None, args) })
                    } else if segs.len() == 1 || segs[0] == "crate" || segs[0] == "super" {
                        let g = self.candidate(&last, false, false).cloned();
                        g.filter(|g| g.sig.receiver().is_none() && g.impl_key.is_none()).and_then(|g| self.expand(&g, None, args))
                    } else { None }
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let recv = (*m.receiver).clone();
                if squash(&recv) == "self" { self.candidate(&name, true, true).cloned().and_then(|g| self.expand(&g, Some(recv), args)) }
                else if STD_NAMES.contains(&name.as_str()) { None }
                else { self.candidate(&name, false, false).cloned().filter(|g| g.sig.receiver().is_some()).and_then(|g| self.expand(&g, Some(recv), args)) }
            }
            _ => None,
        };
        if let Some(x) = r { *e = x; }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if ["assert", "assert_eq", "vec", "debug_assert", "debug_assert_eq"].contains(&n.as_str()) {
            use syn::punctuated::Punctuated;
            if let Ok(p) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                let mut v: Vec<Expr> = p.into_iter().collect();
                for e in v.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = quote!(#(#v),*);
            }
        }
    }
}
pub fn inline_helpers(cx: &Cx, f: &FnInfo, b: &mut Block) -> Res<Vec<String>> {
    let mut all = vec![];
    let mut ctr = 0;
    for _ in 0..3 {
        let mut v = Inl { cx, f, done: vec![], ctr };
        v.visit_block_mut(b);
        ctr = v.ctr;
        if v.done.is_empty() { break; }
        all.extend(v.done);
    }
    // splice statement-position blocks produced by inlining of unit helpers
    struct S;
    impl VisitMut for S {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let st = std::mem::take(&mut b.stmts);
            for s in st {
                match s {
                    Stmt::Local(mut l) => {
                        // let x = { stmts; tail };  ==>  stmts; let x = tail;   (helper locals were made fresh)
                        let mut pre = vec![];
                        if let Some(i) = &mut l.init { if i.diverge.is_none() { if let Expr::Block(bl) = &mut *i.expr { if bl.label.is_none() { if let Some(Stmt::Expr(t, None)) = bl.block.stmts.last().cloned() { let mut v = std::mem::take(&mut bl.block.stmts); v.pop(); pre = v; *i.expr = t; } } } } }
                        b.stmts.extend(pre);
                        b.stmts.push(Stmt::Local(l));
                    }
                    s => b.stmts.push(s),
                }
            }
        }
    }
    if !all.is_empty() { S.visit_block_mut(b); }
    Ok(all)
}

/// R23: constants that are not among the unit's items (new ones, local ones, associated ones) are replaced by their value
pub fn inline_consts(cx: &Cx, f: &FnInfo, b: &mut Block) {
    fn value(t: &Type, e: &Expr) -> Expr { if let Type::Path(p) = t { if p.path.get_ident().map_or(false, |i| ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "f64", "f32"].contains(&i.to_string().as_str())) { if squash(t).starts_with('f') { return parse_quote!((#e)); } return parse_quote!(((#e) as #t)); } } parse_quote!((#e)) }
    struct Local { vals: Vec<BTreeMap<String, Expr>> }
    impl VisitMut for Local {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut m = BTreeMap::new();
            b.stmts.retain(|s| if let Stmt::Item(Item::Const(c)) = s { m.insert(c.ident.to_string(), value(&c.ty, &c.expr)); false } else { true });
            self.vals.push(m);
            visit_mut::visit_block_mut(self, b);
            self.vals.pop();
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { let n = i.to_string(); if let Some(v) = self.vals.iter().rev().find_map(|m| m.get(&n)).cloned() { *e = v; self.visit_expr_mut(e); return; } } }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            use syn::punctuated::Punctuated;
            if let Ok(p) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) { let mut v: Vec<Expr> = p.into_iter().collect(); for e in v.iter_mut() { self.visit_expr_mut(e); } m.tokens = quote!(#(#v),*); }
        }
    }
    Local { vals: vec![] }.visit_block_mut(b);
    struct V<'a> { cx: &'a Cx<'a>, f: &'a FnInfo, depth: usize }
    impl<'a> V<'a> {
        fn lookup(&self, p: &Path) -> Option<Expr> {
            let k = self.cx.k;
            let ty = self.f.impl_key.as_ref().map(|k| k.split('.').next().unwrap().to_string());
            let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.last()?;
            if !n.chars().all(|c| c.is_uppercase() || c.is_numeric() || c == '_') { return None; }
            if segs.len() == 2 {
                if segs[0] == "Self" { return k.assoc.get(&format!("{}::{}", ty?, n)).map(|(t, e)| value(t, e)); }
                let s = format!("::{}::{}", segs[0], n);
                if let Some((_, (t, e))) = k.assoc.iter().find(|(k, _)| k.ends_with(&s)) { return Some(value(t, e)); }
            }
            let id = if segs.len() == 1 { format!("{}::{}", self.f.module, n) } else { String::new() };
            let (id, it) = match k.items.get(&id) {
                Some(it) => (id, it),
                None => { let s = format!("::{}", n); let v: Vec<_> = k.items.iter().filter(|(k, i)| k.ends_with(&s) && matches!(i, Item::Const(_))).collect(); if v.len() != 1 { return None; } (v[0].0.clone(), v[0].1) }
            };
            if self.cx.items.contains(&id) || self.cx.db.fns.contains_key(&id) || self.cx.db.items.contains_key(&id) { return None; }
            if let Item::Const(c) = it { Some(value(&c.ty, &c.expr)) } else { None }
        }
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e { if self.depth < 8 { if let Some(v) = self.lookup(&p.path) { *e = v; self.depth += 1; self.visit_expr_mut(e); self.depth -= 1; return; } } }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            use syn::punctuated::Punctuated;
            if let Ok(p) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) { let mut v: Vec<Expr> = p.into_iter().collect(); for e in v.iter_mut() { self.visit_expr_mut(e); } m.tokens = quote!(#(#v),*); }
        }
    }
    V { cx, f, depth: 0 }.visit_block_mut(b);
}

// ------------------------------------------------------------------ binders
pub fn binders(sig: &Signature, b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { let s = p.ident.to_string(); if !s.chars().next().unwrap().is_uppercase() { self.0.push(s); } visit::visit_pat_ident(self, p); }
    }
    let mut v = V(vec![]);
    for a in &sig.inputs { if let FnArg::Typed(p) = a { v.visit_pat(&p.pat); } }
    v.visit_block(b);
    v.0
}
/// binders of a rewritten body, loop counters excepted
pub fn post_binders(sig: &Signature, b: &Block) -> Vec<String> {
    let counter = |s: &str| s.len() >= 2 && (s.starts_with('k') || s.starts_with('n') || s.starts_with('j')) && s[1..].parse::<u32>().is_ok();
    binders(sig, b).into_iter().filter(|s| !counter(s) && !s.starts_with("__")).collect()
}
/// initial value and bound of the counters of `for` loops over ranges
pub fn loop_bounds(b: &Block, kinds: &[String]) -> BTreeMap<String, String> {
    struct V<'a>(BTreeMap<String, String>, &'a [String]);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_local(&mut self, l: &'b Local) {
            let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                let s = i.ident.to_string();
                if s.starts_with('k') || s.starts_with('n') { if let Ok(n) = s[1..].parse::<usize>() { if n >= 1 && self.1.get(n - 1).map_or(false, |k| k.ends_with(":range")) { self.0.insert(s, squash(&init.expr)); } } }
            }
            visit::visit_local(self, l);
        }
    }
    let mut v = V(BTreeMap::new(), kinds);
    v.visit_block(b);
    v.0
}
/// `let x = { let mut acc = ..; loop; acc };` after splicing, and `fold(init, |x, ..| ..)`: the accumulator is called x
pub fn name_accumulators(b: &mut Block, known: &[String]) {
    struct V<'a>(&'a [String]);
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut i = 0;
            while i < b.stmts.len() {
                if let Some((x, acc)) = last_let(&b.stmts[i]).filter(|p| !self.0.contains(&p.1)) {
                    let d = (0..i).rev().find(|d| declares(&b.stmts[*d], &acc));
                    if let Some(d) = d {
                        let free = b.stmts[d..i].iter().all(|s| !has_ident(quote!(#s), &x)) && b.stmts[i + 1..].iter().all(|s| !has_ident(quote!(#s), &acc));
                        if free {
                            let mut blk: Block = parse_quote!({});
                            blk.stmts = b.stmts[d..=i].to_vec();
                            let mut sig: Signature = parse_quote!(fn f());
                            rename(&mut sig, &mut blk, &[(acc.clone(), x.clone())]);
                            let last = blk.stmts.len() - 1;
                            blk.stmts.truncate(last);
                            b.stmts.splice(d..=i, blk.stmts);
                            i = d;
                        }
                    }
                }
                i += 1;
            }
        }
    }
    fn last_let(s: &Stmt) -> Option<(String, String)> {
        if let Stmt::Local(l) = s { if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) { if init.diverge.is_none() && p.by_ref.is_none() { if let Expr::Path(q) = &*init.expr { if let Some(i) = q.path.get_ident() { let a = i.to_string(); if a.starts_with("acc_t") { return Some((p.ident.to_string(), a)); } } } } } }
        None
    }
    fn declares(s: &Stmt, n: &str) -> bool { matches!(s, Stmt::Local(l) if matches!(match &l.pat { Pat::Type(t) => &*t.pat, p => p }, Pat::Ident(i) if i.ident == n && i.mutability.is_some())) }
    V(known).visit_block_mut(b);
}
/// for every marked loop: the variables bound outside it (among `names`) that it uses; assigned ones are marked `=`
pub fn outer_uses(b: &Block, names: &BTreeSet<String>) -> BTreeMap<String, Vec<String>> {
    struct U { used: BTreeSet<String>, bound: BTreeSet<String>, set: BTreeSet<String> }
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
            Expr::Field(f) => root(&f.base), Expr::Index(i) => root(&i.expr), Expr::Paren(p) => root(&p.expr), Expr::Unary(u) => root(&u.expr), Expr::Reference(r) => root(&r.expr),
            _ => None,
        }
    }
    impl<'a> Visit<'a> for U {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.set.extend(root(&a.left)); visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, e: &'a ExprBinary) { if squash(&e.op).len() > 1 && squash(&e.op).ends_with('=') && !matches!(e.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) { self.set.extend(root(&e.left)); } visit::visit_expr_binary(self, e); }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) { if r.mutability.is_some() { self.set.extend(root(&r.expr)); } visit::visit_expr_reference(self, r); }
        fn visit_expr_path(&mut self, p: &'a ExprPath) { if p.path.segments.len() == 1 { self.used.insert(p.path.segments[0].ident.to_string()); } }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.bound.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
    }
    struct L<'n> { names: &'n BTreeSet<String>, out: BTreeMap<String, Vec<String>> }
    impl<'n> L<'n> {
        fn note(&mut self, body: &Block, cond: Option<&Expr>) {
            let n = match body.stmts.first().map(squash).and_then(|s| s.strip_prefix("__vcloop!(").map(|r| r.trim_end_matches(';').trim_end_matches(')').to_string())) { Some(n) => n, None => return };
            let mut u = U { used: BTreeSet::new(), bound: BTreeSet::new(), set: BTreeSet::new() };
            u.visit_block(body);
            if let Some(c) = cond { u.visit_expr(c); }
            let (bound, set) = (u.bound, u.set);
            self.out.insert(n, u.used.into_iter().filter(|x| self.names.contains(x) && !bound.contains(x)).map(|x| if set.contains(&x) { format!("{}=", x) } else { x }).collect());
        }
    }
    impl<'n, 'a> Visit<'a> for L<'n> {
        fn visit_expr_while(&mut self, w: &'a ExprWhile) { self.note(&w.body, Some(&w.cond)); visit::visit_expr_while(self, w); }
        fn visit_expr_loop(&mut self, w: &'a ExprLoop) { self.note(&w.body, None); visit::visit_expr_loop(self, w); }
    }
    let mut l = L { names, out: BTreeMap::new() };
    l.visit_block(b);
    l.out
}
pub fn align(base: &[String], new: &[String]) -> Vec<(String, String)> {
    if base.is_empty() || base == new { return vec![]; }
    let uniq = |v: &[String]| { let mut o: Vec<String> = vec![]; for x in v { if !o.contains(x) { o.push(x.clone()); } } o };
    let (bu, nu) = (uniq(base), uniq(new));
    let missing: Vec<String> = bu.iter().filter(|x| !nu.contains(x)).cloned().collect();
    let extra: Vec<String> = nu.iter().filter(|x| !bu.contains(x)).cloned().collect();
    if missing.len() != extra.len() { return vec![]; }
    extra.into_iter().zip(missing).collect()
}
pub fn rename(sig: &mut Signature, b: &mut Block, map: &[(String, String)]) {
    if map.is_empty() { return; }
    struct V<'a>(&'a [(String, String)]);
    impl<'a> V<'a> {
        fn get(&self, i: &Ident) -> Option<Ident> { self.0.iter().find(|(a, _)| i == a).map(|(_, b)| format_ident(b)) }
        fn toks(&self, ts: TokenStream) -> TokenStream {
            ts.into_iter().map(|t| match t {
                TokenTree::Ident(i) => TokenTree::Ident(self.get(&i).unwrap_or(i)),
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream()))),
                t => t,
            }).collect()
        }
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if let Some(n) = self.get(&p.ident) { p.ident = n; } visit_mut::visit_pat_ident_mut(self, p); }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() { if let Some(n) = self.get(&p.path.segments[0].ident) { p.path.segments[0].ident = n; } } }
        fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.toks(m.tokens.clone()); }
    }
    let mut v = V(map);
    for a in sig.inputs.iter_mut() { if let FnArg::Typed(p) = a { v.visit_pat_mut(&mut p.pat); } }
    v.visit_block_mut(b);
}

// ------------------------------------------------------------------ anchors
pub fn insert_needle(b: &mut Block, needle: &str, ord: usize, before: bool, idx: usize) -> bool {
    struct V<'a> { needle: &'a str, ord: usize, before: bool, idx: usize, count: usize, done: bool }
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                if self.done { return; }
                let c0 = self.count;
                visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                if self.done { return; }
                if self.count == c0 && squash(&b.stmts[i]).contains(self.needle) {
                    self.count += 1;
                    if self.count == self.ord {
                        let n = LitInt::new(&self.idx.to_string(), proc_macro2::Span::call_site());
                        let m: Stmt = parse_quote!(__vc!(needle, #n););
                        b.stmts.insert(if self.before { i } else { i + 1 }, m);
                        self.done = true;
                        return;
                    }
                }
                i += 1;
            }
        }
    }
    let mut v = V { needle, ord, before, idx, count: 0, done: false };
    v.visit_block_mut(b);
    v.done
}

// ------------------------------------------------------------------ swapped references (R14)
/// `let mut a = &mut x; let mut b = &mut y; .. mem::swap(&mut a, &mut b) ..` : pointer comparisons between a/b and
/// x/y are replaced by the parity of the number of swaps, kept in a local `vc_sw`.
pub fn alias_parity(b: &mut Block) -> Res<()> {
    let txt = squash(b);
    if !txt.contains(".as_ptr()") { return Ok(()); }
    let mut tgt: Vec<(String, String)> = vec![];
    for s in &b.stmts {
        if let Stmt::Local(l) = s { if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if let Expr::Reference(r) = &*init.expr { if r.mutability.is_some() { tgt.push((i.ident.to_string(), squash(&r.expr))); } } } }
    }
    struct V { tgt: Vec<(String, String)>, err: bool }
    fn swap_args(s: &Stmt) -> Option<(String, String)> {
        if let Stmt::Expr(Expr::Call(c), _) = s { let f = squash(&c.func); if f.ends_with("mem::swap") || f == "swap" { let g = |e: &Expr| squash(e).strip_prefix("&mut").map(|x| x.to_string()); return Some((g(&c.args[0])?, g(&c.args[1])?)); } }
        None
    }
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let st = std::mem::take(&mut b.stmts);
            for s in st {
                let sw = swap_args(&s);
                b.stmts.push(s);
                if let Some((x, y)) = sw {
                    let known = |n: &String| self.tgt.iter().any(|t| t.0 == *n);
                    if known(&x) && known(&y) && x != y { b.stmts.push(parse_quote!(vc_sw = !vc_sw;)); } else { self.err = true; }
                }
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Assign(a) = e { let l = squash(&a.left); if self.tgt.iter().any(|t| t.0 == l) { self.err = true; } }
            if let Expr::Binary(b) = e {
                if let (Some(x), Some(y)) = (squash(&b.left).strip_suffix(".as_ptr()").map(|x| x.to_string()), squash(&b.right).strip_suffix(".as_ptr()").map(|x| x.to_string())) {
                    let a = self.tgt.iter().find(|t| t.0 == x).cloned();
                    let c = self.tgt.iter().find(|t| t.0 == y).cloned();
                    let (v, o) = match (a, c) { (Some(t), None) => (t, y), (None, Some(t)) => (t, x), _ => { self.err = true; return; } };
                    if !self.tgt.iter().any(|t| t.1 == o) { self.err = true; return; }
                    let same_at_start = v.1 == o;
                    let eq = match b.op { BinOp::Eq(_) => true, BinOp::Ne(_) => false, _ => { self.err = true; return; } };
                    *e = if same_at_start == eq { parse_quote!(!vc_sw) } else { parse_quote!(vc_sw) };
                }
            }
        }
    }
    if tgt.len() != 2 { return Err("pointer comparison outside the supported pattern".into()); }
    let mut v = V { tgt, err: false };
    v.visit_block_mut(b);
    if v.err || squash(b).contains("as_ptr") { return Err("pointer comparison outside the supported pattern".into()); }
    b.stmts.insert(0, parse_quote!(let mut vc_sw: bool = false;));
    Ok(())
}

/// `x & y`, `x ^ y`, .. with an operand bound to a shared reference (`let x = &a[i]`): the operand is dereferenced, which is what
/// the forwarding impls of the bit operators on references do.
pub fn deref_bits(sig: &Signature, b: &mut Block) {
    struct D(Vec<std::collections::HashMap<String, bool>>);
    impl D {
        fn get(&self, n: &str) -> bool { for m in self.0.iter().rev() { if let Some(v) = m.get(n) { return *v; } } false }
        fn set(&mut self, n: String, v: bool) { self.0.last_mut().unwrap().insert(n, v); }
        fn bind_false(&mut self, p: &Pat) {
            struct N(Vec<String>);
            impl<'a> visit::Visit<'a> for N { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
            let mut n = N(vec![]); visit::Visit::visit_pat(&mut n, p);
            for x in n.0 { self.set(x, false); }
        }
        fn fix(&self, e: &mut Expr) {
            if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if self.get(&i.to_string()) { *e = parse_quote!((*#i)); } } }
        }
    }
    impl VisitMut for D {
        fn visit_block_mut(&mut self, b: &mut Block) {
            self.0.push(Default::default());
            for s in b.stmts.iter_mut() {
                self.visit_stmt_mut(s);
                if let Stmt::Local(l) = s {
                    self.bind_false(&l.pat);
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if i.by_ref.is_none() { if let Expr::Reference(r) = &*init.expr { if r.mutability.is_none() { self.set(i.ident.to_string(), true); } } } }
                }
            }
            self.0.pop();
        }
        fn visit_arm_mut(&mut self, a: &mut Arm) { self.0.push(Default::default()); self.bind_false(&a.pat); visit_mut::visit_arm_mut(self, a); self.0.pop(); }
        fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
            self.0.push(Default::default());
            struct L<'a>(&'a mut D);
            impl<'a, 'b> visit::Visit<'b> for L<'a> { fn visit_expr_let(&mut self, l: &'b ExprLet) { self.0.bind_false(&l.pat); } }
            let c = i.cond.clone();
            visit::Visit::visit_expr(&mut L(self), &c);
            visit_mut::visit_expr_if_mut(self, i);
            self.0.pop();
        }
        fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { self.0.push(Default::default()); for p in &c.inputs { self.bind_false(p); } visit_mut::visit_expr_closure_mut(self, c); self.0.pop(); }
        fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
            visit_mut::visit_expr_binary_mut(self, b);
            if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)) { self.fix(&mut b.left); self.fix(&mut b.right); }
            if matches!(b.op, BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) { self.fix(&mut b.right); }
        }
    }
    let mut d = D(vec![Default::default()]);
    for a in &sig.inputs { if let FnArg::Typed(p) = a { if let (Pat::Ident(i), Type::Reference(r)) = (&*p.pat, &*p.ty) { if r.mutability.is_none() && ["u8", "u16", "u32", "u64", "usize"].contains(&crate::print::squash(&r.elem).as_str()) { d.set(i.ident.to_string(), true); } } } }
    d.visit_block_mut(b);
}
