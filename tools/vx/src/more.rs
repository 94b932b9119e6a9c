//! Further mechanical rewrites: reference patterns, `|` and `&` on bool, folds, zips, closures with `?`.
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn id(s: String) -> Ident { Ident::new(&s, Span::call_site()) }

// ------------------------------------------------------------------ reference patterns
/// `&P` in a pattern becomes P under default binding modes: `ref x` becomes x, and a plain `x`
/// (which copies) is followed by `let x = *x;`
struct Strip { inside: bool, copies: Vec<Ident>, n: usize }
impl VisitMut for Strip {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p { if r.mutability.is_none() {
            let mut inner = (*r.pat).clone(); let old = self.inside; self.inside = true; self.n += 1;
            self.visit_pat_mut(&mut inner); self.inside = old; *p = inner; return;
        } }
        if self.inside { if let Pat::Ident(i) = p {
            let upper = i.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase());
            if i.by_ref.is_some() { i.by_ref = None; i.mutability = None; } else if !upper && i.subpat.is_none() { self.copies.push(i.ident.clone()); }
        } }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        // shorthand `x` or `ref x` in a struct pattern stays a shorthand
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
pub struct RefPats(pub usize);
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut s = Strip { inside: false, copies: vec![], n: 0 }; let mut p = a.pat.clone(); s.visit_pat_mut(&mut p);
        if s.n == 0 || (a.guard.is_some() && !s.copies.is_empty()) { return; }
        self.0 += s.n; a.pat = p;
        if !s.copies.is_empty() { let c = &s.copies; let b = &a.body; a.body = Box::new(parse2(quote!({ #(let #c = *#c;)* #b })).unwrap()); }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut st in b.stmts.drain(..) {
            let mut add = vec![];
            if let Stmt::Local(l) = &mut st { let mut s = Strip { inside: false, copies: vec![], n: 0 }; let mut p = l.pat.clone(); s.visit_pat_mut(&mut p);
                if s.n > 0 { self.0 += s.n; l.pat = p; for c in &s.copies { add.push(parse2::<Block>(quote!({ let #c = *#c; })).unwrap().stmts.remove(0)); } } }
            out.push(st); out.extend(add);
        }
        b.stmts = out;
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        visit_mut::visit_expr_let_mut(self, l);
        let mut s = Strip { inside: false, copies: vec![], n: 0 }; let mut p = (*l.pat).clone(); s.visit_pat_mut(&mut p);
        if s.n > 0 && s.copies.is_empty() { self.0 += s.n; l.pat = Box::new(p); }
    }
}

// ------------------------------------------------------------------ bool operators
pub struct BoolOps(pub usize);
impl VisitMut for BoolOps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let f = match b.op { BinOp::BitOr(_) => "vbor", BinOp::BitAnd(_) => "vband", BinOp::BitXor(_) => "vbxor", _ => return };
            let (l, r) = (&b.left, &b.right); let f = id(f.into());
            self.0 += 1; *e = parse2(quote!(#f(#l, #r))).unwrap();
        }
    }
}

// ------------------------------------------------------------------ shifts by a variable (which may be a reference)
pub struct Shifts(pub usize);
impl VisitMut for Shifts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            if !matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_)) { return; }
            let mut r = &*b.right; while let Expr::Paren(p) = r { r = &p.expr; }
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = r { r = expr; }
            if let Expr::Path(_) = r { let r = r.clone(); b.right = Box::new(parse2(quote!(vamt(#r))).unwrap()); self.0 += 1; }
        }
    }
}

// ------------------------------------------------------------------ `?` and closures
struct HasTry { t: bool, r: bool }
impl<'ast> visit::Visit<'ast> for HasTry {
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.t = true; }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.r = true; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn etry(e: &Expr) -> (bool, bool) { let mut h = HasTry { t: false, r: false }; visit::Visit::visit_expr(&mut h, e); (h.t, h.r) }
fn stry(s: &Stmt) -> bool { let mut h = HasTry { t: false, r: false }; visit::Visit::visit_stmt(&mut h, s); h.t || h.r }
pub struct Untry { pub k: usize }
impl Untry {
    /// the first-evaluated `X?` of an expression: (X, the expression with it replaced by a variable)
    fn hoist(&mut self, e: &Expr) -> Option<(Expr, Ident, Expr)> {
        match e {
            Expr::Try(t) => {
                if etry(&t.expr).0 { let (x, v, n) = self.hoist(&t.expr)?; let mut t2 = t.clone(); t2.expr = Box::new(n); return Some((x, v, Expr::Try(t2))); }
                let v = id(format!("vx_t{}", self.k)); self.k += 1;
                Some(((*t.expr).clone(), v.clone(), parse_quote!(#v)))
            }
            Expr::MethodCall(m) => {
                if etry(&m.receiver).0 { let (x, v, n) = self.hoist(&m.receiver)?; let mut m2 = m.clone(); m2.receiver = Box::new(n); return Some((x, v, Expr::MethodCall(m2))); }
                for (i, a) in m.args.iter().enumerate() { if etry(a).0 { if i > 0 { return None; } let (x, v, n) = self.hoist(a)?; let mut m2 = m.clone(); m2.args[i] = n; return Some((x, v, Expr::MethodCall(m2))); } }
                None
            }
            Expr::Call(c) => { for (i, a) in c.args.iter().enumerate() { if etry(a).0 { if i > 0 { return None; } let (x, v, n) = self.hoist(a)?; let mut c2 = c.clone(); c2.args[i] = n; return Some((x, v, Expr::Call(c2))); } } None }
            Expr::Match(m) => { let (x, v, n) = self.hoist(&m.expr)?; let mut m2 = m.clone(); m2.expr = Box::new(n); Some((x, v, Expr::Match(m2))) }
            Expr::If(m) => { let (x, v, n) = self.hoist(&m.cond)?; let mut m2 = m.clone(); m2.cond = Box::new(n); Some((x, v, Expr::If(m2))) }
            Expr::Reference(m) => { let (x, v, n) = self.hoist(&m.expr)?; let mut m2 = m.clone(); m2.expr = Box::new(n); Some((x, v, Expr::Reference(m2))) }
            Expr::Unary(m) => { let (x, v, n) = self.hoist(&m.expr)?; let mut m2 = m.clone(); m2.expr = Box::new(n); Some((x, v, Expr::Unary(m2))) }
            Expr::Field(m) => { let (x, v, n) = self.hoist(&m.base)?; let mut m2 = m.clone(); m2.base = Box::new(n); Some((x, v, Expr::Field(m2))) }
            Expr::Paren(m) => { let (x, v, n) = self.hoist(&m.expr)?; let mut m2 = m.clone(); m2.expr = Box::new(n); Some((x, v, Expr::Paren(m2))) }
            _ => None,
        }
    }
    fn wrap(&mut self, x: Expr, v: Ident, rest: TokenStream) -> TokenStream { quote!(match #x { Ok(#v) => { #rest } Err(vx_e) => { Err(vx_e) } }) }
    pub fn tail(&mut self, e: &Expr) -> Option<TokenStream> {
        let (t, r) = etry(e);
        if !t && !r { return Some(e.to_token_stream()); }
        match e {
            Expr::Return(r) => { let x = r.expr.as_ref()?; self.tail(x) }
            Expr::Block(b) => self.stmts(&b.block.stmts).map(|s| quote!({ #s })),
            Expr::Match(m) if etry(&m.expr) == (false, false) => {
                let mut arms = quote!();
                for a in &m.arms { if a.guard.as_ref().map_or(false, |g| { let (t, r) = etry(&g.1); t || r }) { return None; }
                    let b = self.tail(&a.body)?; let p = &a.pat; let g = a.guard.as_ref().map(|g| { let c = &g.1; quote!(if #c) }); arms = quote!(#arms #p #g => { #b }); }
                let s = &m.expr; Some(quote!(match #s { #arms }))
            }
            Expr::If(i) if etry(&i.cond) == (false, false) => {
                let t = self.stmts(&i.then_branch.stmts)?; let e = self.tail(&i.else_branch.as_ref()?.1)?; let c = &i.cond;
                Some(quote!(if #c { #t } else { #e }))
            }
            Expr::Try(t) if etry(&t.expr) == (false, false) => { let (x, v, n) = self.hoist(e)?; Some(self.wrap(x, v, n.to_token_stream())) }
            _ => { let (x, v, n) = self.hoist(e)?; let r = self.tail(&n)?; Some(self.wrap(x, v, r)) }
        }
    }
    pub fn stmts(&mut self, st: &[Stmt]) -> Option<TokenStream> {
        let i = match st.iter().position(stry) { None => return Some(quote!(#(#st)*)), Some(i) => i };
        let pre = &st[..i]; let rest = &st[i + 1..];
        let body = match &st[i] {
            Stmt::Expr(e, None) if rest.is_empty() => self.tail(e)?,
            Stmt::Expr(Expr::Return(r), _) if rest.is_empty() => self.tail(r.expr.as_ref()?)?,
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && etry(&f.cond) == (false, false) && matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) => {
                let t = self.stmts(&f.then_branch.stmts)?; let r = self.stmts(rest)?; let c = &f.cond; quote!(if #c { #t } else { #r })
            }
            Stmt::Expr(e, Some(_)) => {
                let (x, v, n) = self.hoist(e)?;
                let mut more: Vec<Stmt> = vec![]; if !matches!(&n, Expr::Path(_)) { more.push(Stmt::Expr(n, Some(Default::default()))); } more.extend_from_slice(rest);
                let r = self.stmts(&more)?; self.wrap(x, v, r)
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?; if init.diverge.is_some() { return None; }
                let (x, v, n) = self.hoist(&init.expr)?;
                let mut l2 = l.clone(); l2.init.as_mut().unwrap().expr = Box::new(n);
                let mut more = vec![Stmt::Local(l2)]; more.extend_from_slice(rest);
                let r = self.stmts(&more)?; self.wrap(x, v, r)
            }
            _ => return None,
        };
        Some(quote!(#(#pre)* #body))
    }
    /// a closure body as a block without `?` or `return`
    pub fn closure_body(&mut self, e: &Expr) -> Option<TokenStream> { self.tail(e).map(|t| quote!({ #t })) }
}

// ------------------------------------------------------------------ folds, zips, patterns of loops
pub const FOLD_ERR: &str = "{ let mut result = state ; for item in iter { match func (result , item) { Ok (val) => result = val , Err (err) => return Err (err) , } } Ok (result) }";
pub struct Folds { pub n: usize, pub k: usize, pub fold_err: bool, pub result_vec: bool }
impl Folds {
    /// (statements before, loop head, expression of the item)
    fn source(&mut self, e: &Expr, k: usize) -> Option<(TokenStream, TokenStream, TokenStream)> {
        if let Expr::MethodCall(m) = e {
            if m.method == "zip" && m.args.len() == 1 {
                let side = |e: &Expr| -> Option<TokenStream> { match e { Expr::MethodCall(x) if x.method == "iter" && x.args.is_empty() => Some(x.receiver.to_token_stream()), Expr::Reference(r) if r.mutability.is_none() => Some(r.expr.to_token_stream()), Expr::Paren(p) => Some(p.expr.to_token_stream()), _ => None } };
                let a = side(&m.receiver)?; let b = side(&m.args[0])?;
                let (i, n) = (id(format!("vx_i{}", k)), id(format!("vx_n{}", k)));
                return Some((quote!(let #n = { let vx_a: usize = #a.len(); let vx_b: usize = #b.len(); if vx_a < vx_b { vx_a } else { vx_b } };), quote!(for #i in 0..#n), quote!((&#a[#i], &#b[#i]))));
            }
            if m.method == "iter" && m.args.is_empty() { let x = id(format!("vx_x{}", k)); return Some((quote!(), quote!(for #x in #e), quote!(#x))); }
        }
        if let Expr::Path(p) = e { if p.path.get_ident().is_some() { let it = id(format!("vx_it{}", k)); return Some((quote!(let mut #it = #e;), quote!(while #it.vmore()), quote!(#it.vget()))); } }
        None
    }
    fn fold(&mut self, init: &Expr, src: &Expr, f: &Expr, err: bool) -> Option<Expr> {
        let c = match f { Expr::Closure(c) if c.inputs.len() == 2 => c, _ => return None };
        let pat = |p: &Pat| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        let (a, p) = (pat(&c.inputs[0]), pat(&c.inputs[1]));
        let k = self.k; self.k += 1;
        let (pre, head, item) = self.source(src, k)?;
        let mut u = Untry { k: k * 100 };
        let body = u.closure_body(&c.body)?;
        let acc = id(format!("vx_f{}", k)); let cur = id(format!("vx_a{}", k));
        self.n += 1;
        let t = if err { quote!({ let mut #acc = vok(#init); #pre #head { let vx_p = #item; match #acc { Ok(#cur) => { let #a = #cur; let #p = vx_p; #acc = #body; } Err(vx_e) => { #acc = Err(vx_e); } } } #acc }) }
            else { quote!({ let mut #acc = #init; #pre #head { let vx_p = #item; let #a = #acc; let #p = vx_p; #acc = #body; } #acc }) };
        parse2(t).ok()
    }
}
impl VisitMut for Folds {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let old = self.result_vec;
        if let Pat::Type(t) = &l.pat { let s = t.ty.to_token_stream().to_string().replace(' ', ""); self.result_vec = s.starts_with("Result<Vec<"); }
        visit_mut::visit_local_mut(self, l); self.result_vec = old;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut new: Option<Expr> = None;
        match e {
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 => new = self.fold(&m.args[0].clone(), &m.receiver.clone(), &m.args[1].clone(), false),
            Expr::Call(c) if self.fold_err && c.args.len() == 3 && c.func.to_token_stream().to_string() == "fold_err" => new = self.fold(&c.args[0].clone(), &c.args[1].clone(), &c.args[2].clone(), true),
            Expr::MethodCall(m) if m.method == "collect" && (self.result_vec || m.turbofish.as_ref().map_or(false, |t| t.to_token_stream().to_string().replace(' ', "").starts_with("::<Result<Vec<"))) => {
                // X.iter().map(|p| b).collect() into a Result
                if let Expr::MethodCall(mm) = &*m.receiver { if mm.method == "map" { if let (Expr::Closure(c), Expr::MethodCall(it)) = (&mm.args[0], &*mm.receiver) { if it.method == "iter" || it.method == "into_iter" {
                    let k = self.k; self.k += 1; let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    let x = id(format!("vx_x{}", k)); let acc = id(format!("vx_f{}", k)); let mut u = Untry { k: k * 100 };
                    let s = &it.receiver;
                    if let Some(b) = u.closure_body(&c.body) { self.n += 1; new = parse2(quote!({ let mut #acc = vok(Vec::new()); for #x in #s.iter() { match #acc { Ok(mut vx_v) => { let #p = #x; match #b { Ok(vx_y) => { vx_v.push(vx_y); #acc = Ok(vx_v); } Err(vx_e) => { #acc = Err(vx_e); } } } Err(vx_e) => { #acc = Err(vx_e); } } } #acc })).ok(); }
                } } } }
            }
            Expr::ForLoop(f) => {
                let zip = matches!(&*f.expr, Expr::MethodCall(m) if m.method == "zip");
                let plain = matches!(&*f.pat, Pat::Ident(i) if i.by_ref.is_none());
                if zip { let k = self.k; self.k += 1; if let Some((pre, head, item)) = self.source(&f.expr.clone(), k) { let (p, b) = (&f.pat, &f.body.stmts); self.n += 1; new = parse2(quote!({ #pre #head { let #p = #item; #(#b)* } })).ok(); } }
                else if !plain { let x = id(format!("vx_x{}", self.k)); self.k += 1; let p = &f.pat; let l: Block = parse2(quote!({ let #p = #x; })).unwrap(); f.body.stmts.insert(0, l.stmts[0].clone()); f.pat = Box::new(parse2::<Pat2>(quote!(#x)).unwrap().0); self.n += 1; }
                if let Expr::ForLoop(f) = new.as_mut().unwrap_or(e) { if let Expr::Reference(r) = &*f.expr { if r.mutability.is_none() { let x = &r.expr; f.expr = Box::new(parse2(quote!(#x.iter())).unwrap()); } } }
            }
            _ => {}
        }
        if let Some(n) = new { *e = n; }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Pat2(Pat);
impl parse::Parse for Pat2 { fn parse(i: parse::ParseStream) -> Result<Self> { Ok(Pat2(Pat::parse_single(i)?)) } }

// ------------------------------------------------------------------ loops over &mut elements of a Vec
/// `for P in &mut X { .. }` (and `for P in X` / `X.iter_mut()`, X a `&mut Vec` parameter or local) is the loop over the indices
pub struct MutLoops { pub n: usize, pub vecs: Vec<String> }
impl VisitMut for MutLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            // for P in X.enumerate(): a counter beside the loop over X
            if let Expr::MethodCall(m) = &*f.expr { if m.method == "enumerate" && m.args.is_empty() {
                let k = self.n; self.n += 1;
                let (c, v) = (id(format!("vx_e{}", k)), id(format!("vx_v{}", k)));
                let (x, p, b, l) = (&m.receiver, &f.pat, &f.body.stmts, &f.label);
                *e = parse2(quote!({ let mut #c: usize = 0; #l for #v in #x { let #p = (#c, #v); #c = #c + 1; #(#b)* } })).unwrap();
                return;
            } }
            let x: Option<Expr> = match &*f.expr {
                Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) => Some((*r.expr).clone()),
                Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) => Some((*m.receiver).clone()),
                Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.vecs.contains(&i.to_string())) => Some((*f.expr).clone()),
                _ => None };
            if let Some(x) = x {
                let k = self.n; self.n += 1;
                let (m, j, c) = (id(format!("vx_m{}", k)), id(format!("vx_j{}", k)), id(format!("vx_k{}", k)));
                let (p, b, l) = (&f.pat, &f.body.stmts, &f.label);
                *e = parse2(quote!({ let #m = #x.len(); let mut #j: usize = 0; #l while #j < #m { let #c = #j; #j = #j + 1; let #p = &mut #x[#c]; #(#b)* } })).unwrap();
            }
        }
    }
}
