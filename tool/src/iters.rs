//! R6: iterator chains and `for` loops are turned into index-driven `while` loops.
use crate::rewrite::Rw;
use crate::Res;
use quote::quote;
use std::rc::Rc;
use syn::*;

#[derive(Clone)]
pub enum Elem {
    Val(Expr),
    Ref(Expr),
    MutRef(Expr),
    Tuple(Vec<Elem>),
}
type ElemFn = Rc<dyn Fn(Expr) -> Res<(Vec<Stmt>, Elem)>>;
pub struct Src {
    pub pre: Vec<Stmt>,
    pub lo: Expr,
    pub hi: Expr,
    pub elem: ElemFn,
    pub kind: String,
}
pub enum It {
    Idx(Src),
    Opaque(Expr),
    Once(Expr),
    Stage(Box<It>, StageKind),
    Chain(Box<It>, Box<It>),
}
pub enum StageKind {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Scan(Expr, Expr),
    FlatMap(Expr),
    TakeWhile(Expr),
    Enumerate,
    Copied,
}

pub fn to_expr(e: &Elem) -> Expr {
    match e {
        Elem::Val(e) => e.clone(),
        Elem::Ref(p) => parse_quote!(&#p),
        Elem::MutRef(p) => parse_quote!(&mut #p),
        Elem::Tuple(v) => {
            let v: Vec<Expr> = v.iter().map(to_expr).collect();
            parse_quote!((#(#v),*))
        }
    }
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}
pub fn bind(p: &Pat, e: &Elem, out: &mut Vec<Stmt>) -> Res<()> {
    match p {
        Pat::Wild(_) => {
            if let Elem::Val(x) = e { if !simple(x) { out.push(parse_quote!(let _ = #x;)); } }
            Ok(())
        }
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let x = to_expr(e);
            out.push(parse_quote!(let #p = #x;));
            Ok(())
        }
        Pat::Type(t) => bind(&t.pat, e, out),
        Pat::Paren(t) => bind(&t.pat, e, out),
        Pat::Reference(r) => match e {
            Elem::Ref(place) | Elem::MutRef(place) => bind(&r.pat, &Elem::Val(place.clone()), out),
            Elem::Val(x) => bind(&r.pat, &Elem::Val(parse_quote!(*#x)), out),
            Elem::Tuple(_) => Err("reference pattern against a tuple value".into()),
        },
        Pat::Tuple(t) => match e {
            Elem::Tuple(v) if v.len() == t.elems.len() => {
                for (p, e) in t.elems.iter().zip(v) { bind(p, e, out)?; }
                Ok(())
            }
            Elem::Val(x) => { out.push(parse_quote!(let #p = #x;)); Ok(()) }
            Elem::Ref(x) => {
                for (n, p) in t.elems.iter().enumerate() { let n = Index::from(n); bind(p, &Elem::Ref(parse_quote!(#x.#n)), out)?; }
                Ok(())
            }
            _ => Err("tuple pattern".into()),
        },
        _ => Err(format!("unsupported iteration pattern {}", quote!(#p))),
    }
}
fn add(a: &Expr, b: &Expr) -> Expr {
    if quote!(#a).to_string() == "0" { return b.clone(); }
    parse_quote!(#a + #b)
}

impl<'a> Rw<'a> {
    fn unparen<'e>(e: &'e Expr) -> &'e Expr {
        match e { Expr::Paren(p) => Self::unparen(&p.expr), Expr::Group(p) => Self::unparen(&p.expr), _ => e }
    }
    fn slice_src(&mut self, base: &Expr, mutable: bool, by_val: bool, kind: &str) -> Src {
        // base is the collection expression (not a reference)
        let mut pre: Vec<Stmt> = vec![];
        let place: Expr = if is_place(base) { base.clone() } else {
            let s = self.fresh("s");
            if by_val { pre.push(parse_quote!(let #s = #base;)); }
            else if mutable { pre.push(parse_quote!(let #s = &mut #base;)); }
            else { pre.push(parse_quote!(let #s = &#base;)); }
            parse_quote!(#s)
        };
        let vd = self.is_deque(base);
        let p2 = place.clone();
        let elem: ElemFn = Rc::new(move |k| {
            let pl: Expr = if vd { parse_quote!(*vc_dq_get(&#p2, #k)) } else { parse_quote!(#p2[#k]) };
            Ok((vec![], if by_val { Elem::Val(pl) } else if mutable { Elem::MutRef(pl) } else { Elem::Ref(pl) }))
        });
        Src { pre, lo: parse_quote!(0), hi: parse_quote!(#place.len()), elem, kind: kind.into() }
    }
    /// Recognises iterator-valued expressions. `head`: position directly after `for .. in`.
    pub fn parse_iter(&mut self, e: &Expr, head: bool) -> Res<Option<It>> {
        let e = Self::unparen(e);
        match e {
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                let lo = (**r.start.as_ref().unwrap()).clone();
                let mut hi = (**r.end.as_ref().unwrap()).clone();
                if matches!(r.limits, RangeLimits::Closed(_)) { hi = parse_quote!(#hi + 1); }
                Ok(Some(It::Idx(Src { pre: vec![], lo, hi, elem: Rc::new(|k| Ok((vec![], Elem::Val(k)))), kind: "range".into() })))
            }
            Expr::Reference(r) if head => {
                let b = Self::unparen(&r.expr);
                Ok(Some(It::Idx(self.slice_src(b, r.mutability.is_some(), false, "slice"))))
            }
            Expr::Path(p) if p.path.get_ident().is_some() => {
                let id = p.path.get_ident().unwrap().to_string();
                if let Some(x) = self.iter_lets.get(&id).cloned() { return self.parse_iter(&x, head); }
                if !head { if self.opaque_iters.contains(&id) { return Ok(Some(It::Opaque(e.clone()))); } return Ok(None); }
                if self.opaque_iters.contains(&id) { return Ok(Some(It::Opaque(e.clone()))); }
                match self.var_types.get(&id).cloned() {
                    Some(Type::Reference(r)) => { let m = r.mutability.is_some(); Ok(Some(It::Idx(self.slice_src(e, m, false, "slice")))) }
                    _ => Ok(Some(It::Idx(self.slice_src(e, false, true, "vec")))),
                }
            }
            Expr::Call(c) => {
                let f = crate::print::squash(&c.func);
                if f.ends_with("iter::once") || f == "once" { return Ok(Some(It::Once(c.args[0].clone()))); }
                if f.ends_with("iter::zip") || f == "zip" {
                    let (a, b) = (c.args[0].clone(), c.args[1].clone());
                    let a = self.parse_iter(&a, true)?;
                    let b = self.parse_iter(&b, true)?;
                    return match (a, b) { (Some(It::Idx(a)), Some(It::Idx(b))) => Ok(Some(It::Idx(self.zip(a, b)?))), _ => Err("zip of non-indexable iterators".into()) };
                }
                let base = f.split("::<").next().unwrap().rsplit("::").next().unwrap().to_string();
                if self.iter_fns.contains(&base) { return Ok(Some(It::Idx(self.slice_src(e, false, true, "vec")))); }
                Ok(None)
            }
            Expr::MethodCall(m) => self.parse_method(m, e, head),
            _ => if head { Ok(Some(It::Idx(self.slice_src(e, false, true, "vec")))) } else { Ok(None) },
        }
    }
    fn zip(&mut self, a: Src, b: Src) -> Res<Src> {
        let mut pre = a.pre;
        pre.extend(b.pre);
        let (ea, eb) = (a.elem, b.elem);
        let (la, lb, ha, hb) = (a.lo, b.lo, a.hi, b.hi);
        let same = quote!(#la).to_string() == quote!(#lb).to_string();
        if !same || quote!(#la).to_string() != "0" { return Err("zip with non-zero start".into()); }
        let hi: Expr = parse_quote!(vc_min(#ha, #hb));
        Ok(Src { pre, lo: la, hi, elem: Rc::new(move |k| {
            let (mut p, x) = ea(k.clone())?;
            let (q, y) = eb(k)?;
            p.extend(q);
            Ok((p, Elem::Tuple(vec![x, y])))
        }), kind: "zip".into() })
    }
    fn parse_method(&mut self, m: &ExprMethodCall, e: &Expr, head: bool) -> Res<Option<It>> {
        let name = m.method.to_string();
        let arg = |n: usize| m.args[n].clone();
        match name.as_str() {
            "iter" | "iter_mut" | "into_iter" if m.args.is_empty() => {
                if name == "into_iter" {
                    if let Some(it) = self.parse_iter(&m.receiver, false)? { return Ok(Some(it)); }
                }
                let recv = strip_ref(&m.receiver);
                return Ok(Some(It::Idx(self.slice_src(&recv, name == "iter_mut", name == "into_iter", "slice"))));
            }
            "chunks_exact" | "chunks" | "windows" => {
                let mut s = self.slice_src(&strip_ref(&m.receiver), false, false, &name);
                let n = arg(0);
                let pl: Expr = match &s.pre.first() { _ => { let h = &s.hi; match h { Expr::MethodCall(h) => (*h.receiver).clone(), _ => unreachable!() } } };
                let hi = s.hi.clone();
                let nm = name.clone();
                s.hi = match name.as_str() { "chunks_exact" => parse_quote!(vc_nchunks_exact(#hi, #n)), "chunks" => parse_quote!(vc_nchunks(#hi, #n)), _ => parse_quote!(vc_nwindows(#hi, #n)) };
                s.elem = Rc::new(move |k| {
                    let c: Expr = match nm.as_str() { "chunks_exact" => parse_quote!(vc_chunk_exact(&#pl, #n, #k)), "chunks" => parse_quote!(vc_chunk(&#pl, #n, #k)), _ => parse_quote!(vc_window(&#pl, #n, #k)) };
                    Ok((vec![], Elem::Val(c)))
                });
                return Ok(Some(It::Idx(s)));
            }
            _ => {}
        }
        if self.iter_fns.contains(&name) && !ADAPTORS.contains(&name.as_str()) {
            return Ok(Some(It::Idx(self.slice_src(e, false, true, "vec"))));
        }
        if !ADAPTORS.contains(&name.as_str()) {
            return if head { Ok(Some(It::Idx(self.slice_src(e, false, true, "vec")))) } else { Ok(None) };
        }
        let inner = match self.parse_iter(&m.receiver, false)? { Some(i) => i, None => return Ok(None) };
        let st = |k: StageKind, i: It| Ok(Some(It::Stage(Box::new(i), k)));
        match (name.as_str(), inner) {
            ("by_ref", i) | ("fuse", i) => Ok(Some(i)),
            ("copied", It::Idx(mut s)) | ("cloned", It::Idx(mut s)) => {
                let f = s.elem.clone();
                s.elem = Rc::new(move |k| { let (p, e) = f(k)?; match e { Elem::Ref(x) => Ok((p, Elem::Val(x))), Elem::Val(x) => Ok((p, Elem::Val(parse_quote!(*#x)))), _ => Err("copied".into()) } });
                Ok(Some(It::Idx(s)))
            }
            ("copied", i) | ("cloned", i) => st(StageKind::Copied, i),
            ("enumerate", It::Idx(mut s)) => {
                let f = s.elem.clone();
                let lo = s.lo.clone();
                let z = quote!(#lo).to_string() == "0";
                s.elem = Rc::new(move |k| { let (p, e) = f(k.clone())?; let ix: Expr = if z { k } else { parse_quote!((#k - #lo)) }; Ok((p, Elem::Tuple(vec![Elem::Val(ix), e]))) });
                Ok(Some(It::Idx(s)))
            }
            ("enumerate", i) => st(StageKind::Enumerate, i),
            ("take", It::Idx(mut s)) => {
                let n = add(&s.lo, &arg(0));
                let hi = s.hi;
                s.hi = parse_quote!(vc_min(#hi, #n));
                Ok(Some(It::Idx(s)))
            }
            ("skip", It::Idx(mut s)) => { s.lo = add(&s.lo, &arg(0)); Ok(Some(It::Idx(s))) }
            ("rev", It::Idx(mut s)) => {
                let (lo, hi, f) = (s.lo.clone(), s.hi.clone(), s.elem.clone());
                s.elem = Rc::new(move |k| { f(parse_quote!((#hi - 1 - (#k - #lo)))) });
                s.kind = "rev".into();
                Ok(Some(It::Idx(s)))
            }
            ("zip", It::Idx(a)) => match self.parse_iter(&arg(0), true)? {
                Some(It::Idx(b)) => Ok(Some(It::Idx(self.zip(a, b)?))),
                _ => Err("zip with a non-indexable iterator".into()),
            },
            ("map", It::Idx(mut s)) => {
                let f = s.elem.clone();
                let c = arg(0);
                s.elem = Rc::new(move |k| { let (mut p, e) = f(k)?; let (q, r) = apply(&c, &e)?; p.extend(q); Ok((p, Elem::Val(r))) });
                Ok(Some(It::Idx(s)))
            }
            ("map", i) => st(StageKind::Map(arg(0)), i),
            ("filter", i) => st(StageKind::Filter(arg(0)), i),
            ("filter_map", i) => st(StageKind::FilterMap(arg(0)), i),
            ("flat_map", i) => st(StageKind::FlatMap(arg(0)), i),
            ("take_while", i) => st(StageKind::TakeWhile(arg(0)), i),
            ("scan", i) => { let (a, b) = (arg(0), arg(1)); st(StageKind::Scan(a, b), i) }
            ("chain", i) => match self.parse_iter(&arg(0), true)? { Some(j) => Ok(Some(It::Chain(Box::new(i), Box::new(j)))), None => Err("chain argument".into()) },
            (n, _) => Err(format!("unsupported iterator adaptor {}", n)),
        }
    }
    pub fn emit(&mut self, it: It, sink: &mut dyn FnMut(&mut Rw<'a>, Elem) -> Res<Vec<Stmt>>, label: Option<Lifetime>) -> Res<Vec<Stmt>> {
        match it {
            It::Idx(s) => {
                let n = self.new_loop(&s.kind);
                let k = crate::print::format_ident(&format!("k{}", n));
                let hi = crate::print::format_ident(&format!("n{}", n));
                let mut out = s.pre;
                let (lo_e, hi_e) = (s.lo, s.hi);
                let isz = quote!(#lo_e).to_string() == "0" && s.kind != "range";
                if isz { out.push(parse_quote!(let mut #k: usize = 0;)); } else { out.push(parse_quote!(let mut #k = #lo_e;)); }
                out.push(parse_quote!(let #hi = #hi_e;));
                let depth_save = self.depth; self.depth += 1;
                let cur: Ident = crate::print::format_ident(&format!("j{}", n));
                let (pre, el) = (s.elem)(parse_quote!(#cur))?;
                let body = sink(self, el)?;
                self.depth = depth_save;
                let nn = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                out.push(parse_quote!(__vc!(before, #nn);));
                let w: Expr = parse_quote!(while #k < #hi { __vcloop!(#nn); let #cur = #k; #k = #k + 1; #(#pre)* __vc!(body, #nn); #(#body)* __vc!(tail, #nn); });
                push_labeled(&mut out, w, label);
                out.push(parse_quote!(__vc!(after, #nn);));
                Ok(out)
            }
            It::Opaque(e) => {
                let n = self.new_loop("opaque");
                let nn = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                let nx = crate::print::format_ident(&format!("x{}", n));
                let depth_save = self.depth; self.depth += 1;
                let body = sink(self, Elem::Val(parse_quote!(#nx)))?;
                self.depth = depth_save;
                let mut out: Vec<Stmt> = vec![parse_quote!(__vc!(before, #nn);)];
                let w: Expr = parse_quote!(while #e.has_next() { __vcloop!(#nn); let #nx = #e.next().unwrap(); __vc!(body, #nn); #(#body)* __vc!(tail, #nn); });
                push_labeled(&mut out, w, label);
                out.push(parse_quote!(__vc!(after, #nn);));
                Ok(out)
            }
            It::Once(e) => sink(self, Elem::Val(e)),
            It::Chain(a, b) => {
                let mut out = self.emit(*a, sink, label.clone())?;
                out.extend(self.emit(*b, sink, label)?);
                Ok(out)
            }
            It::Stage(inner, kind) => match kind {
                StageKind::Copied => self.emit(*inner, &mut |me, e| match e { Elem::Ref(x) => sink(me, Elem::Val(x)), Elem::Val(x) => sink(me, Elem::Val(parse_quote!(*#x))), _ => Err("copied".into()) }, label),
                StageKind::Map(c) => self.emit(*inner, &mut |me, e| {
                    let (mut p, r) = apply(&c, &e)?;
                    let v = me.fresh("m");
                    p.push(parse_quote!(let #v = #r;));
                    p.extend(sink(me, Elem::Val(parse_quote!(#v)))?);
                    Ok(p)
                }, label),
                StageKind::Filter(c) => self.emit(*inner, &mut |me, e| {
                    let x = to_expr(&e);
                    let v = me.fresh("f");
                    let (p, r) = apply(&c, &Elem::Ref(parse_quote!(#v)))?;
                    let body = sink(me, Elem::Val(parse_quote!(#v)))?;
                    Ok(vec![parse_quote!(let #v = #x;), Stmt::Expr(parse_quote!(if { #(#p)* #r } { #(#body)* }), None)])
                }, label),
                StageKind::FilterMap(c) => self.emit(*inner, &mut |me, e| {
                    let (mut p, r) = apply(&c, &e)?;
                    let v = me.fresh("f");
                    let body = sink(me, Elem::Val(parse_quote!(#v)))?;
                    p.push(Stmt::Expr(parse_quote!(if let Some(#v) = #r { #(#body)* }), None));
                    Ok(p)
                }, label),
                StageKind::TakeWhile(c) => {
                    let l = label.unwrap_or_else(|| self.fresh_label());
                    let l2 = l.clone();
                    self.emit(*inner, &mut |me, e| {
                        let x = to_expr(&e);
                        let v = me.fresh("f");
                        let (p, r) = apply(&c, &Elem::Ref(parse_quote!(#v)))?;
                        let body = sink(me, Elem::Val(parse_quote!(#v)))?;
                        let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #x;), Stmt::Expr(parse_quote!(if !{ #(#p)* #r } { break #l2; }), None)];
                        out.extend(body);
                        Ok(out)
                    }, Some(l))
                }
                StageKind::Enumerate => {
                    let c = self.fresh("c");
                    let mut out: Vec<Stmt> = vec![parse_quote!(let mut #c: usize = 0;)];
                    out.extend(self.emit(*inner, &mut |me, e| {
                        let ix = me.fresh("c");
                        let mut p: Vec<Stmt> = vec![parse_quote!(let #ix = #c;), parse_quote!(#c = #c + 1;)];
                        p.extend(sink(me, Elem::Tuple(vec![Elem::Val(parse_quote!(#ix)), e]))?);
                        Ok(p)
                    }, label)?);
                    Ok(out)
                }
                StageKind::Scan(init, c) => {
                    let st = self.fresh("scan");
                    let mut out: Vec<Stmt> = vec![parse_quote!(let mut #st = #init;)];
                    let cl = match &c { Expr::Closure(c) if c.inputs.len() == 2 => c.clone(), _ => return Err("scan without a closure".into()) };
                    let mut used: Option<Lifetime> = None;
                    let l0 = label.clone().unwrap_or_else(|| self.fresh_label());
                    let stp: Ident = match strip_pat_type(&cl.inputs[0]) { Pat::Ident(i) => i.ident.clone(), _ => return Err("scan state pattern".into()) };
                    let inner_st = {
                        let used = &mut used;
                        self.emit(*inner, &mut |me, e| {
                            let mut p: Vec<Stmt> = vec![];
                            bind(strip_pat_type(&cl.inputs[1]), &e, &mut p)?;
                            // `*st` of the closure becomes the state variable itself
                            let mut body = (*cl.body).clone();
                            subst_deref(&mut body, &stp, &st)?;
                            let (stm, tail) = split_block(&body);
                            p.extend(stm);
                            match some_arg(&tail) {
                                Some(x) => {
                                    let v = me.fresh("m");
                                    p.push(parse_quote!(let #v = #x;));
                                    p.extend(sink(me, Elem::Val(parse_quote!(#v)))?);
                                }
                                None => {
                                    let v = me.fresh("m");
                                    let l = l0.clone();
                                    *used = Some(l.clone());
                                    let b = sink(me, Elem::Val(parse_quote!(#v)))?;
                                    p.push(Stmt::Expr(parse_quote!(if let Some(#v) = #tail { #(#b)* } else { break #l; }), None));
                                }
                            }
                            Ok(p)
                        }, if label.is_some() { label.clone() } else { Some(l0.clone()) })?
                    };
                    let _ = used;
                    out.extend(inner_st);
                    Ok(out)
                }
                StageKind::FlatMap(c) => self.emit(*inner, &mut |me, e| {
                    let (mut p, r) = apply(&c, &e)?;
                    let nested = match me.parse_iter(&r, false)? {
                        Some(n) => n,
                        None => It::Idx(me.slice_src(&r, false, true, "vec")),
                    };
                    p.extend(me.emit(nested, &mut |me2, e2| sink(me2, e2), None)?);
                    Ok(p)
                }, label),
            },
        }
    }
}
fn push_labeled(out: &mut Vec<Stmt>, w: Expr, label: Option<Lifetime>) {
    match (w, label) {
        (Expr::While(mut w), Some(l)) => { w.label = Some(Label { name: l, colon_token: Default::default() }); out.push(Stmt::Expr(Expr::While(w), None)); }
        (w, _) => out.push(Stmt::Expr(w, None)),
    }
}
pub const ADAPTORS: &[&str] = &["copied", "cloned", "enumerate", "take", "skip", "zip", "map", "filter", "filter_map", "flat_map", "scan", "chain", "rev", "take_while", "by_ref", "fuse", "step_by", "peekable", "inspect", "skip_while", "map_while", "cycle", "flatten"];
pub fn strip_ref(e: &Expr) -> Expr {
    match e { Expr::Reference(r) => (*r.expr).clone(), Expr::Paren(p) => strip_ref(&p.expr), _ => e.clone() }
}
pub fn strip_pat_type(p: &Pat) -> &Pat { match p { Pat::Type(t) => &t.pat, p => p } }
pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}
fn some_arg(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e { if crate::print::squash(&c.func) == "Some" { return Some(c.args[0].clone()); } }
    None
}
pub fn split_block(e: &Expr) -> (Vec<Stmt>, Expr) {
    if let Expr::Block(b) = e {
        if b.label.is_none() {
            let mut s = b.block.stmts.clone();
            if let Some(Stmt::Expr(t, None)) = s.last().cloned() { s.pop(); return (s, t); }
        }
    }
    (vec![], e.clone())
}
/// Applies a closure or function path to an element: statements and result expression.
pub fn apply(c: &Expr, e: &Elem) -> Res<(Vec<Stmt>, Expr)> {
    match c {
        Expr::Closure(cl) => {
            if cl.inputs.len() != 1 { return Err("closure arity".into()); }
            let mut p = vec![];
            bind(strip_pat_type(&cl.inputs[0]), e, &mut p)?;
            let (s, t) = split_block(&cl.body);
            if contains_return(&cl.body) { return Err("return inside a closure".into()); }
            p.extend(s);
            Ok((p, t))
        }
        Expr::Path(_) => { let x = to_expr(e); Ok((vec![], parse_quote!(#c(#x)))) }
        Expr::Paren(p) => apply(&p.expr, e),
        _ => Err("unsupported callable".into()),
    }
}
pub fn contains_return(e: &Expr) -> bool {
    use syn::visit::Visit;
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; } fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
fn subst_deref(e: &mut Expr, from: &Ident, to: &Ident) -> Res<()> {
    use syn::visit_mut::{self, VisitMut};
    struct V<'a>(&'a Ident, &'a Ident);
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Unary(u) = e { if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) { if p.path.is_ident(self.0) { let t = self.1; *e = parse_quote!(#t); return; } } }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    V(from, to).visit_expr_mut(e);
    let s = quote!(#e).to_string();
    if s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| *from == w) { return Err("scan state used other than by dereference".into()); }
    Ok(())
}
