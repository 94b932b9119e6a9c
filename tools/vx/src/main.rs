//! vx: mechanical extraction of functions of /repo into a Verus file.
//!
//! usage: vx UNIT VARIANT REPO_SRC OUT.rs OUT.json
//!
//! A unit file holds Verus text (specifications, lemmas) and `== ` directives naming items of the
//! repository's sources.  The text of every named function is taken from the current source, its
//! contract, loop invariants and proof hints are woven in, and a fixed list of rewrites is applied
//! (listed in OUT.json).  Nothing else of the function is changed.
mod rewrite;
mod more;
use proc_macro2::{Delimiter, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type Res<T> = std::result::Result<T, String>;

// ------------------------------------------------------------------ unit file
#[derive(Default, Clone, Debug)]
struct FnSpec { src: String, key: String, ret: String, opts: Vec<String>, spec: String, implx: String, entry: String, exit: String, loops: BTreeMap<usize, LoopSpec> }
#[derive(Default, Clone, Debug)]
struct LoopSpec { it: String, inv: String, body: String, after: String, before: String, end: String }
#[derive(Clone, Debug)]
enum Item0 { Text(String), Source(String, String), Rewrite(String, String, String), Type(String, String, Vec<String>), Const(String, String, String), Fn(FnSpec), Skip(String, String), Own(String) }

fn parse_unit(text: &str, variant: &str, dir: &std::path::Path) -> Res<Vec<Item0>> {
    let mut items: Vec<Item0> = vec![];
    let mut cur: Option<FnSpec> = None;
    let mut sub: String = "spec".into();
    let mut text_buf = String::new();
    let mut rw: Option<(String, String, bool, String)> = None;
    let mut in_text = true;
    fn flush(items: &mut Vec<Item0>, cur: &mut Option<FnSpec>, rw: &mut Option<(String, String, bool, String)>, t: &mut String) {
        if !t.trim().is_empty() { items.push(Item0::Text(std::mem::take(t))); } else { t.clear(); }
        if let Some(f) = cur.take() { items.push(Item0::Fn(f)); }
        if let Some((s, p, _, r)) = rw.take() { items.push(Item0::Rewrite(s, p, r)); }
    }
    for line0 in text.lines() {
        let mut line = line0.to_string();
        let tl = line.trim_start();
        if tl.starts_with('@') {
            if let Some(c) = tl.find(':') {
                let tag = &tl[1..c];
                if !tag.is_empty() && tag.chars().all(|c| c.is_alphanumeric()) {
                    if tag != variant { continue; }
                    line = tl[c + 1..].to_string();
                }
            }
        }
        if let Some(d) = line.strip_prefix("== ") {
            flush(&mut items, &mut cur, &mut rw, &mut text_buf);
            in_text = false;
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "text" => in_text = true,
                "include" => {
                    let t = std::fs::read_to_string(dir.join(w[1])).map_err(|e| format!("include {}: {}", w[1], e))?;
                    items.extend(parse_unit(&t, variant, dir)?);
                    in_text = true;
                }
                "source" => { items.push(Item0::Source(w[1].into(), w[2].into())); in_text = true; }
                "type" => { items.push(Item0::Type(w[1].into(), w[2].into(), w[3..].iter().map(|s| s.to_string()).collect())); in_text = true; }
                "const" => { items.push(Item0::Const(w[1].into(), w[2].into(), w[3..].join(" "))); in_text = true; }
                "own" => { for x in &w[1..] { items.push(Item0::Own(x.to_string())); } in_text = true; }
                "skip" => { items.push(Item0::Skip(w[1].into(), w[2].into())); in_text = true; }
                "rewrite" => rw = Some((w[1].into(), String::new(), false, String::new())),
                "fn" => {
                    let mut f = FnSpec { src: w[1].into(), key: w[2].into(), ret: "r".into(), ..Default::default() };
                    for x in &w[3..] { if let Some(r) = x.strip_prefix("ret=") { f.ret = r.into() } else { f.opts.push(x.to_string()) } }
                    cur = Some(f); sub = "spec".into();
                }
                x => return Err(format!("unknown directive {}", x)),
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            if let Some(d) = line.trim_start().strip_prefix("-- ") {
                sub = d.trim().to_string();
                let w: Vec<&str> = d.split_whitespace().collect();
                if w[0] == "loop" { let n: usize = w[1].parse().map_err(|_| "loop number".to_string())?; let l = f.loops.entry(n).or_default(); if w.len() > 2 { l.it = w[2].into(); } }
                continue;
            }
            let w: Vec<&str> = sub.split_whitespace().collect();
            let n = w.get(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
            let dst = match w[0] {
                "spec" => &mut f.spec, "impl" => &mut f.implx, "entry" => &mut f.entry, "exit" => &mut f.exit,
                "loop" => &mut f.loops.entry(n).or_default().inv,
                "body" => &mut f.loops.entry(n).or_default().body,
                "end" => &mut f.loops.entry(n).or_default().end,
                "after" => &mut f.loops.entry(n).or_default().after,
                "before" => &mut f.loops.entry(n).or_default().before,
                x => return Err(format!("unknown section {}", x)),
            };
            dst.push_str(&line); dst.push('\n');
            continue;
        }
        if let Some(r) = rw.as_mut() {
            if line.trim() == "=>" { r.2 = true; } else if r.2 { r.3.push_str(&line); r.3.push('\n'); } else { r.1.push_str(&line); r.1.push('\n'); }
            continue;
        }
        if in_text { text_buf.push_str(&line); text_buf.push('\n'); }
    }
    flush(&mut items, &mut cur, &mut rw, &mut text_buf);
    // a contract proved in another unit and assumed here
    for it in items.iter_mut() { if let Item0::Fn(f) = it { if f.spec.is_empty() { if let Some(u) = f.opts.iter().find_map(|o| o.strip_prefix("assumed=").map(|x| x.to_string())) {
        let t = std::fs::read_to_string(dir.join(format!("{}.unit", u))).map_err(|e| format!("assumed {}: {}", u, e))?;
        let other = parse_unit(&t, "prove", dir)?;
        let g = other.iter().find_map(|x| if let Item0::Fn(g) = x { if g.key == f.key && !g.opts.iter().any(|o| o.starts_with("assumed=")) { return Some(g.clone()); } None } else { None }).ok_or(format!("no contract of {} in {}", f.key, u))?;
        f.spec = g.spec.lines().filter(|l| !l.trim_start().starts_with("decreases")).map(|l| format!("{}\n", l)).collect(); f.ret = g.ret.clone();
    } } } }
    Ok(items)
}

/// awaiting a future is the call that runs it (the code between two awaits sees the mutex' content
/// to itself); lifetimes are dropped
struct Sections(usize);
impl VisitMut for Sections {
    fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Await(a) = e { let b = &a.base; *e = parse2(quote!(#b)).unwrap(); self.0 += 1; } }
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) { t.lifetime = None; visit_mut::visit_type_reference_mut(self, t); }
    fn visit_receiver_mut(&mut self, r: &mut Receiver) { if let Some((_, l)) = &mut r.reference { *l = None; } }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) { a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect(); visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a); }
}
/// `loop { .. break v .. }` as the result of a function: `return v`
fn loop_value(b: &mut Block) {
    struct B;
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                Expr::Break(b) if b.label.is_none() && b.expr.is_some() => { let v = &b.expr; *e = parse2(quote!(return #v)).unwrap(); }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() { B.visit_block_mut(&mut l.body); }
}
// ------------------------------------------------------------------ sources
#[derive(Clone)]
struct FnSrc { sig: Signature, block: Block, self_ty: Option<Type>, generics: Generics, trait_: Option<Path> }
#[derive(Default)]
struct Source { macros: BTreeMap<String, (Vec<TokenTree>, TokenStream)>, path: String, fns: BTreeMap<String, FnSrc>, types: BTreeMap<String, Item>, consts: BTreeMap<String, Item> }

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.to_token_stream().to_string().replace(' ', ""); s == "#[test]" || s.contains("cfg(test)") || s.contains("cathlamet_verif") })
}
fn ty_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => ty_name(&r.elem), t => t.to_token_stream().to_string().replace(' ', "") } }

/// macro_rules! with one arm of the form ($a:frag, ...) => { ... }
fn macro_def(ts: TokenStream) -> Option<(Vec<TokenTree>, TokenStream)> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let (pat, body) = match (t.get(0), t.get(3)) { (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) => (a.stream(), b.stream()), _ => return None };
    if t.len() > 5 { return None; }
    Some((pat.into_iter().collect(), body))
}
fn macro_use(s: &Source, m: &Macro) -> Option<TokenStream> {
    let (pat, body) = s.macros.get(&m.path.segments.last()?.ident.to_string())?;
    let inp: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
    let mut binds: BTreeMap<String, TokenTree> = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        match &pat[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => { let n = pat.get(i + 1)?.to_string(); binds.insert(n, inp.get(j)?.clone()); i += 4; j += 1; }
            x => { if x.to_string() != inp.get(j)?.to_string() { return None; } i += 1; j += 1; }
        }
    }
    fn subst(ts: TokenStream, b: &BTreeMap<String, TokenTree>) -> TokenStream {
        let t: Vec<TokenTree> = ts.into_iter().collect(); let mut o: Vec<TokenTree> = vec![]; let mut i = 0;
        while i < t.len() {
            match &t[i] {
                TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < t.len() && b.contains_key(&t[i + 1].to_string()) => { o.push(b[&t[i + 1].to_string()].clone()); i += 2; }
                TokenTree::Group(g) => { o.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), b)))); i += 1; }
                x => { o.push(x.clone()); i += 1; }
            }
        }
        o.into_iter().collect()
    }
    Some(subst(body.clone(), &binds))
}

fn load_source(path: &str, repo: &str) -> Res<Source> {
    let full = format!("{}/{}", repo, path);
    let text = std::fs::read_to_string(&full).map_err(|e| format!("{}: {}", full, e))?;
    let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", full, e))?;
    let mut s = Source { path: path.into(), ..Default::default() };
    fn add_items(s: &mut Source, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Macro(m) => {
                    if let Some(id) = &m.ident { if let Some(d) = macro_def(m.mac.tokens.clone()) { s.macros.insert(id.to_string(), d); } }
                    else if let Some(ts) = macro_use(s, &m.mac) { if let Ok(f) = parse2::<File>(ts) { add_items(s, f.items); } }
                }
                Item::Fn(f) if !is_test(&f.attrs) => { s.fns.insert(f.sig.ident.to_string(), FnSrc { sig: f.sig, block: *f.block, self_ty: None, generics: Generics::default(), trait_: None }); }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let tn = ty_name(&i.self_ty);
                    let mut members: Vec<ImplItem> = vec![];
                    for x in i.items { match x {
                        ImplItem::Macro(m) => { if let Some(ts) = macro_use(s, &m.mac) { if let Ok(im) = parse2::<ItemImpl>(quote!(impl X { #ts })) { members.extend(im.items); } } }
                        x => members.push(x) } }
                    for x in members {
                        if let ImplItem::Fn(f) = x {
                            if is_test(&f.attrs) { continue; }
                            let tr = i.trait_.as_ref().map(|(_, p, _)| p.clone());
                            let key = match &tr {
                                Some(p) => { let seg = p.segments.last().unwrap(); format!("{}@{}::{}", seg.to_token_stream().to_string().replace(' ', ""), tn, f.sig.ident) }
                                None => format!("{}::{}", tn, f.sig.ident),
                            };
                            let full = i.self_ty.to_token_stream().to_string().replace(' ', "");
                            if full != tn { let k2 = key.replace(&format!("{}::", tn), &format!("{}::", full)); s.fns.insert(k2, FnSrc { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some((*i.self_ty).clone()), generics: i.generics.clone(), trait_: tr.clone() }); }
                            s.fns.insert(key, FnSrc { sig: f.sig, block: f.block, self_ty: Some((*i.self_ty).clone()), generics: i.generics.clone(), trait_: tr });
                        }
                    }
                }
                Item::Struct(x) => { s.types.insert(x.ident.to_string(), Item::Struct(x)); }
                Item::Enum(x) => { s.types.insert(x.ident.to_string(), Item::Enum(x)); }
                Item::Type(x) => { s.types.insert(x.ident.to_string(), Item::Type(x)); }
                Item::Trait(t) => {
                    for x in &t.items { if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { s.fns.insert(format!("{}::{}", t.ident, f.sig.ident), FnSrc { sig: f.sig.clone(), block: b.clone(), self_ty: None, generics: t.generics.clone(), trait_: None }); } } }
                    s.types.insert(t.ident.to_string(), Item::Trait(t)); }
                Item::Const(x) => { s.consts.insert(x.ident.to_string(), Item::Const(x)); }
                Item::Static(x) => { s.consts.insert(x.ident.to_string(), Item::Static(x)); }
                Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, its)) = m.content { add_items(s, its); } }
                _ => {}
            }
        }
    }
    add_items(&mut s, file.items);
    Ok(s)
}

// ------------------------------------------------------------------ body transformation
struct Inliner<'a> { src: &'a Source, self_name: Option<String>, listed: &'a BTreeSet<String>, own: &'a BTreeSet<String>, counter: usize, done: Vec<String>, blocked: Vec<String> , monitor: bool }
/// Where a call to be inlined stands: an early return of the callee can stay one of the caller if the call is
/// the caller's result (Tail), and so can an error if the caller passes it on with `?` (Try).
#[derive(Clone, Copy, PartialEq)]
enum Mode { Plain, Try, Tail, Continue }
struct HasEscape(bool, Mode);
impl<'ast> syn::visit::Visit<'ast> for HasEscape {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        let err = match r.expr.as_deref() { Some(Expr::Call(c)) => c.func.to_token_stream().to_string() == "Err", _ => false };
        if self.1 == Mode::Plain || self.1 == Mode::Try && !err { self.0 = true; } else { syn::visit::visit_expr_return(self, r); }
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) { if self.1 == Mode::Plain { self.0 = true; } else { syn::visit::visit_expr_try(self, t); } }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_continue(&mut self, c: &'ast ExprContinue) { if self.1 == Mode::Continue && c.label.is_none() { self.0 = true; } }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) { if self.1 != Mode::Continue { syn::visit::visit_expr_for_loop(self, l); } }
    fn visit_expr_while(&mut self, l: &'ast ExprWhile) { if self.1 != Mode::Continue { syn::visit::visit_expr_while(self, l); } }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) { if self.1 != Mode::Continue { syn::visit::visit_expr_loop(self, l); } }
}
fn escapes<F: FnOnce(&mut HasEscape)>(m: Mode, f: F) -> bool { let mut h = HasEscape(false, m); f(&mut h); h.0 }
fn has_escape(b: &Block, m: Mode) -> bool { escapes(m, |h| syn::visit::Visit::visit_block(h, b)) }
fn expr_escapes(e: &Expr, m: Mode) -> bool { escapes(m, |h| syn::visit::Visit::visit_expr(h, e)) }
fn as_block(e: &Expr) -> Block { match e { Expr::Block(b) if b.label.is_none() => b.block.clone(), o => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(o.clone(), None)] } } }
fn exits(e: &Expr, m: Mode) -> bool { match e { Expr::Return(_) => m != Mode::Continue, Expr::Continue(c) => m == Mode::Continue && c.label.is_none(), _ => false } }
fn block_returned(b: &Block, m: Mode) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(e, _)) if exits(e, m)) }
fn returned(e: &Expr, m: Mode) -> bool { match e { Expr::Block(b) => block_returned(&b.block, m), e => exits(e, m) } }

/// `if c { return X; } rest` -> `if c { X } else { rest }` where possible, and the like for `match` with one arm that goes
/// on, so that early-returning helpers can be inlined too
fn unreturn(b: &Block, m: Mode) -> Option<Block> {
    if !has_escape(b, m) { return Some(b.clone()); }
    let mut stmts = b.stmts.clone();
    // trailing `return x;` or `continue;`
    if block_returned(b, m) {
        let last = stmts.pop();
        let nb = Block { brace_token: b.brace_token, stmts: { if let Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _)) = last { stmts.push(Stmt::Expr(*e, None)); } stmts } };
        return unreturn(&nb, m);
    }
    for i in 0..stmts.len() {
        if !escapes(m, |h| syn::visit::Visit::visit_stmt(h, &stmts[i])) { continue; }
        let last = i + 1 == stmts.len();
        let rest = || Block { brace_token: b.brace_token, stmts: stmts[i + 1..].to_vec() };
        let done = |e: Expr| { let mut out = stmts[..i].to_vec(); out.push(Stmt::Expr(e, None)); Some(Block { brace_token: b.brace_token, stmts: out }) };
        match &stmts[i] {
            Stmt::Expr(Expr::If(e), _) => {
                if expr_escapes(&e.cond, m) { return None; }
                let c = &e.cond;
                match &e.else_branch {
                    None => {
                        if !block_returned(&e.then_branch, m) { return None; }
                        let (t, r) = (unreturn(&e.then_branch, m)?, unreturn(&rest(), m)?);
                        return done(parse2(quote!(if #c #t else #r)).ok()?);
                    }
                    Some((_, el)) if last => {
                        let (t, el) = (unreturn(&e.then_branch, m)?, unreturn(&as_block(el), m)?);
                        return done(parse2(quote!(if #c #t else #el)).ok()?);
                    }
                    Some((_, el)) if block_returned(&e.then_branch, m) => {
                        let mut r = as_block(el);
                        if let Some(Stmt::Expr(_, semi @ None)) = r.stmts.last_mut() { *semi = Some(Default::default()); }
                        r.stmts.extend(rest().stmts);
                        let (t, r) = (unreturn(&e.then_branch, m)?, unreturn(&r, m)?);
                        return done(parse2(quote!(if #c #t else #r)).ok()?);
                    }
                    _ => return None,
                }
            }
            Stmt::Expr(Expr::Match(x), semi) if last && (semi.is_none() || m == Mode::Continue) => {
                if expr_escapes(&x.expr, m) { return None; }
                let mut x = x.clone();
                for a in x.arms.iter_mut() { if a.guard.as_ref().map_or(false, |g| expr_escapes(&g.1, m)) { return None; } let nb = unreturn(&as_block(&a.body), m)?; a.body = Box::new(parse2(quote!(#nb)).ok()?); }
                return done(Expr::Match(x));
            }
            Stmt::Expr(Expr::Match(_), _) | Stmt::Local(_) => {
                // one arm goes on, all others return
                let (pat, x): (Option<Pat>, ExprMatch) = match &stmts[i] {
                    Stmt::Local(l) => match &l.init {
                        Some(LocalInit { expr, diverge: None, .. }) => match &**expr { Expr::Match(x) => (Some(l.pat.clone()), x.clone()), _ => return None },
                        Some(LocalInit { expr, diverge: Some((_, d)), .. }) => { let (p, d) = (&l.pat, &**d); (None, parse2(quote!(match #expr { #p => {} _ => #d })).ok()?) }
                        None => return None },
                    Stmt::Expr(Expr::Match(x), _) => (None, x.clone()),
                    _ => return None };
                if expr_escapes(&x.expr, m) { return None; }
                let mut x = x; let mut went = 0;
                for a in x.arms.iter_mut() {
                    if a.guard.as_ref().map_or(false, |g| expr_escapes(&g.1, m)) { return None; }
                    let nb = if returned(&a.body, m) { unreturn(&as_block(&a.body), m)? } else {
                        went += 1; if expr_escapes(&a.body, m) { return None; }
                        let r = unreturn(&rest(), m)?; let (rs, body) = (&r.stmts, &a.body);
                        match &pat { Some(p) => parse2(quote!({ let #p = #body; #(#rs)* })).ok()?, None => parse2(quote!({ #body; #(#rs)* })).ok()? } };
                    a.body = Box::new(parse2(quote!(#nb)).ok()?);
                }
                if went != 1 { return None; }
                return done(Expr::Match(x));
            }
            _ => return None,
        }
    }
    None
}

/// a `for` loop without `continue`, where possible: the verifier has none
struct Continues;
impl VisitMut for Continues {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if has_escape(&f.body, Mode::Continue) { if let Some(b) = unreturn(&f.body, Mode::Continue) { f.body = b; } }
    }
}

/// marks the calls whose value is the result of the function
struct Tails;
impl Tails {
    fn attr() -> Attribute { parse_quote!(#[vx_tail]) }
    fn block(&mut self, b: &mut Block) { if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.expr(e); } }
    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => c.attrs.push(Self::attr()),
            Expr::MethodCall(c) => c.attrs.push(Self::attr()),
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block),
            Expr::If(i) => { self.block(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.expr(x); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.expr(&mut a.body); },
            _ => {}
        }
    }
}
impl VisitMut for Tails {
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) { if let Some(e) = &mut r.expr { self.expr(e); } visit_mut::visit_expr_return_mut(self, r); }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
fn mark_tails(b: &mut Block) { Tails.block(b); Tails.visit_block_mut(b); }
struct SelfAs(Ident, Option<Type>);
impl VisitMut for SelfAs {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") { *p = Path::from(self.0.clone()); return; }
        if let (Some(s), Some(Type::Path(t))) = (p.segments.first(), &self.1) { if s.ident == "Self" { let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect(); let mut q = t.path.clone(); for x in q.segments.iter_mut() { x.arguments = PathArguments::None; } q.segments.extend(rest); *p = q; return; } }
        visit_mut::visit_path_mut(self, p);
    }
}
struct Elide;
impl VisitMut for Elide { fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { *l = Lifetime::new("'_", Span::call_site()); } }

impl<'a> Inliner<'a> {
    fn try_inline(&mut self, key: &str, recv: Option<&Expr>, args: Vec<Expr>, mode: Mode) -> Option<Expr> {
        if self.listed.contains(key) || self.own.contains(key) { return None; }
        let mut f = self.src.fns.get(key)?.clone();
        if self.monitor { f.sig.asyncness = None; let mut s = Sections(0); s.visit_block_mut(&mut f.block); s.visit_signature_mut(&mut f.sig); f.sig.generics = Generics::default(); }
        if self.done.iter().filter(|x| *x == key).count() > 20 { self.blocked.push(key.into()); return None; }
        let mut block = match unreturn(&f.block, mode) { Some(b) => b, None => { self.blocked.push(key.into()); return None; } };
        if f.sig.asyncness.is_some() { self.blocked.push(key.into()); return None; }
        let mut temps: Vec<TokenStream> = vec![]; let mut binds: Vec<TokenStream> = vec![];
        let mut ai = args.into_iter();
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(r) => { match recv { Some(Expr::Path(p)) if p.path.is_ident("self") => {},
                    Some(x) if f.self_ty.is_some() && f.generics.type_params().next().is_none() && (r.mutability.is_none() || r.reference.is_none() || matches!(x, Expr::Field(_))) => {
                        self.counter += 1;
                        let id = Ident::new(&format!("__s{}", self.counter), Span::call_site());
                        let mut ty = f.self_ty.clone().unwrap(); Elide.visit_type_mut(&mut ty);
                        temps.push(match (&r.reference, &r.mutability) { (Some(_), Some(_)) => quote!(let #id: &mut #ty = &mut #x;), (Some(_), None) => quote!(let #id: &#ty = &#x;), _ => quote!(let #id: #ty = #x;) });
                        SelfAs(id, f.self_ty.clone()).visit_block_mut(&mut block);
                    }
                    _ => { self.blocked.push(key.into()); return None; } } }
                FnArg::Typed(t) => {
                    let a = ai.next()?; let ty = &t.ty; let pat = &t.pat;
                    self.counter += 1;
                    let id = Ident::new(&format!("__a{}", self.counter), Span::call_site());
                    let has_generic = !f.sig.generics.params.is_empty();
                    if matches!(**ty, Type::ImplTrait(_)) || has_generic {
                        temps.push(quote!(let #id = #a;)); binds.push(quote!(let #pat = #id;));
                    } else {
                        temps.push(quote!(let #id: #ty = #a;)); binds.push(quote!(let #pat: #ty = #id;));
                    }
                }
            }
        }
        let stmts = &block.stmts;
        let e: Expr = match &f.sig.output {
            _ if mode == Mode::Tail => parse2(quote!({ #(#temps)* #(#binds)* #(#stmts)* })).ok()?,
            ReturnType::Type(_, ty) if f.sig.generics.params.is_empty() => {
                self.counter += 1;
                let id = Ident::new(&format!("__r{}", self.counter), Span::call_site());
                parse2(quote!({ #(#temps)* #(#binds)* let #id: #ty = { #(#stmts)* }; #id })).ok()?
            }
            _ => parse2(quote!({ #(#temps)* #(#binds)* #(#stmts)* })).ok()?,
        };
        self.done.push(key.into());
        Some(e)
    }
}
impl<'a> Inliner<'a> {
    fn call(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                if let (Some(sn), Expr::Path(p)) = (self.self_name.clone(), &*m.receiver) {
                    if p.path.is_ident("self") { return self.try_inline(&format!("{}::{}", sn, m.method), Some(&m.receiver.clone()), args, mode); }
                }
                // a method of this file, by its name if there is only one of that name
                let end = format!("::{}", m.method);
                let ks: Vec<&String> = self.src.fns.iter().filter(|(k, f)| k.ends_with(&end) && f.self_ty.as_ref().map_or(false, |t| ty_name(t) == k[..k.len() - end.len()]) && f.trait_.is_none()).map(|x| x.0).collect();
                let any = self.src.fns.keys().filter(|k| k.ends_with(&end) && k.contains('@')).count();
                if ks.len() != 1 || any != 0 { return None; }
                let k = ks[0].clone();
                if !matches!(self.src.fns[&k].sig.inputs.first(), Some(FnArg::Receiver(_))) { return None; }
                self.try_inline(&k, Some(&m.receiver.clone()), args, mode)
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = if segs.len() == 1 { segs[0].clone() } else {
                        let q = &segs[segs.len() - 2]; let q = if q == "Self" { self.self_name.clone().unwrap_or_default() } else { q.clone() };
                        if q == "self" || q == "super" { segs[segs.len() - 1].clone() } else { format!("{}::{}", q, segs[segs.len() - 1]) }
                    };
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if let Some(f) = self.src.fns.get(&key) {
                        return if f.sig.inputs.first().map_or(false, |x| matches!(x, FnArg::Receiver(_))) {
                            let a0 = args.first().cloned()?;
                            let a0 = if let Expr::Reference(r) = &a0 { (*r.expr).clone() } else { a0 };
                            self.try_inline(&key, Some(&a0), args[1..].to_vec(), mode)
                        } else { self.try_inline(&key, None, args, mode) };
                    }
                }
                None
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            // the arguments first, then the call itself
            if matches!(&*t.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                visit_mut::visit_expr_mut(self, &mut t.expr);
                if let Some(mut r) = self.call(&t.expr.clone(), Mode::Try) { self.visit_expr_mut(&mut r); *t.expr = r; }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut tail = false;
        if let Expr::Call(ExprCall { attrs, .. }) | Expr::MethodCall(ExprMethodCall { attrs, .. }) = e { tail = attrs.iter().any(|a| a.path().is_ident("vx_tail")); attrs.retain(|a| !a.path().is_ident("vx_tail")); }
        let mode = if tail { Mode::Tail } else { Mode::Plain };
        if let Some(mut r) = self.call(&e.clone(), mode) {
            if tail { if let Expr::Block(b) = &mut r { mark_tails(&mut b.block); } }
            self.visit_expr_mut(&mut r); *e = r;
        }
    }
}

struct Macros { refuse: bool, n: usize }
impl Macros {
    fn convert(&mut self, m: &Macro, stmt: bool) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
        let f = if self.refuse { quote!(vrefuse) } else { quote!(vassert) };
        let r = match name.as_str() {
            "assert" | "debug_assert" => { let a = args.get(0)?; quote!(#f(#a)) }
            "assert_eq" | "debug_assert_eq" => { let a = args.get(0)?; let b = args.get(1)?; quote!(#f((#a) == (#b))) }
            "assert_ne" | "debug_assert_ne" => { let a = args.get(0)?; let b = args.get(1)?; quote!(#f((#a) != (#b))) }
            "panic" | "unreachable" | "unimplemented" | "todo" => if stmt { quote!(vpanic::<()>()) } else { quote!(vpanic()) },
            "matches" => { return rewrite::matches_macro(&m.tokens) }
            "vec" if args.is_empty() && m.tokens.is_empty() => quote!(Vec::new()),
            "println" | "eprintln" => quote!(()),
            _ => return None,
        };
        self.n += 1;
        parse2(r).ok()
    }
}
impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = self.convert(&m.mac.clone(), false) { *e = x; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { if let Some(x) = self.convert(&m.mac.clone(), m.semi_token.is_some()) { *s = Stmt::Expr(x, m.semi_token); } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) { 
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        for s in b.stmts.iter_mut() { if let Stmt::Item(Item::Const(c)) = s { let (i, t, e) = (&c.ident, &c.ty, &c.expr); if let Ok(x) = parse2::<Block>(quote!({ let #i: #t = #e; })) { *s = x.stmts.into_iter().next().unwrap(); } } }
        visit_mut::visit_block_mut(self, b) }
    fn visit_local_mut(&mut self, l: &mut Local) { l.attrs.clear(); visit_mut::visit_local_mut(self, l) }
}

struct SizeOf { n: usize }
impl VisitMut for SizeOf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let s = e.to_token_stream().to_string().replace(' ', "");
        let t = s.strip_prefix("std::mem::size_of::<").or(s.strip_prefix("mem::size_of::<")).or(s.strip_prefix("core::mem::size_of::<")).or(s.strip_prefix("size_of::<")).and_then(|x| x.strip_suffix(">()"));
        let n = match t { Some("u8") | Some("i8") | Some("bool") => 1, Some("u16") | Some("i16") => 2, Some("u32") | Some("i32") | Some("f32") | Some("char") => 4, Some("u64") | Some("i64") | Some("f64") | Some("usize") => 8, Some("u128") | Some("i128") => 16, _ => return };
        let l = LitInt::new(&format!("{}usize", n), Span::call_site());
        *e = parse2(quote!(#l)).unwrap();
        self.n += 1;
    }
}

/// `while let P = E { B }` -> `loop { match E { P => { B } _ => { break; } } }`
struct WhileLet { n: usize }
impl VisitMut for WhileLet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let p = &l.pat; let x = &l.expr; let b = &w.body; let lab = &w.label;
                *e = parse2(quote!(#lab loop { match #x { #p => #b _ => { break; } } })).unwrap();
                self.n += 1;
            }
        }
    }
}

/// `let mut i = a; while i < b { body; i += 1; }` as `for i in a..b { body }`, if neither `i` nor `b` is changed by the
/// body in another way and `i` is not used afterwards
fn counting(before: Option<&Stmt>, s: &Stmt, rest: &[Stmt]) -> Option<Stmt> {
    let (i, start) = match before? { Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) if p.mutability.is_some() => (p.ident.clone(), expr.clone()),
        Stmt::Local(Local { pat: Pat::Type(t), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &*t.pat { Pat::Ident(p) if p.mutability.is_some() => { let ty = &t.ty; (p.ident.clone(), parse2(quote!((#expr as #ty))).ok()?) } _ => return None }, _ => return None };
    let w = match s { Stmt::Expr(Expr::While(w), _) if w.label.is_none() => w, _ => return None };
    let end = match &*w.cond { Expr::Binary(ExprBinary { left, op: BinOp::Lt(_), right, .. }) if left.to_token_stream().to_string() == i.to_string() => right.clone(), _ => return None };
    let mut body = w.body.clone();
    let last = body.stmts.pop()?.to_token_stream().to_string().replace(' ', "");
    if last != format!("{}+=1;", i) && last != format!("{0}={0}+1;", i) { return None; }
    let root = match &*end { Expr::Lit(_) => None, Expr::Path(p) => Some(p.path.get_ident()?.to_string()),
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => Some(m.receiver.to_token_stream().to_string().replace(' ', "")), _ => return None };
    // spaced out, so that words can be told apart
    let text = format!(" {} ", body.to_token_stream());
    if text.contains(" continue ") || rest.iter().any(|r| rewrite::idents(&r.to_token_stream()).iter().any(|x| *x == i.to_string())) { return None; }
    let t: Vec<&str> = text.split_whitespace().collect(); let joined = t.join(" ");
    for name in std::iter::once(i.to_string()).chain(root.map(|r| r.split('.').last().unwrap().to_string())) {
        for op in ["=", "+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>=", "/=", "%="] { if joined.contains(&format!(" {} {} ", name, op)) { return None; } }
        if joined.contains(&format!("& mut {} ", name)) || joined.contains(&format!(". {} , ", name)) { return None; }
        for m in ["push", "pop", "insert", "remove", "clear", "truncate", "append", "extend", "drain", "resize", "retain", "swap_remove", "split_off", "extend_from_slice", "dedup"] { if joined.contains(&format!(" {} . {} ", name, m)) { return None; } }
    }
    parse2(quote!(for #i in #start .. #end #body)).ok().map(|f: ExprForLoop| Stmt::Expr(Expr::ForLoop(f), None))
}

struct Loops { n: usize, specs: BTreeMap<usize, LoopSpec> }
impl Loops {
    fn mark(&mut self, b: &mut Block) -> usize {
        let k = self.n; self.n += 1;
        let id = Ident::new(&format!("__vx_loop_{}", k), Span::call_site());
        b.stmts.insert(0, parse2(quote!(#id!();)).unwrap());
        let id = Ident::new(&format!("__vx_end_{}", k), Span::call_site());
        if self.specs.get(&k).map_or(false, |s| !s.end.trim().is_empty()) {
            // only sound textually when the body ends in a statement
            if let Some(Stmt::Expr(e, semi @ None)) = b.stmts.last_mut() { let _ = e; *semi = Some(Default::default()); }
            b.stmts.push(parse2(quote!(#id!();)).unwrap());
        }
        k
    }
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                self.visit_expr_mut(&mut f.expr);
                let k = self.mark(&mut f.body);
                let has_it = self.specs.get(&k).map_or(false, |s| !s.it.is_empty());
                if has_it { let id = Ident::new(&format!("__vx_it_{}", k), Span::call_site()); let x = &f.expr; f.expr = Box::new(parse2(quote!(#id!(#x))).unwrap()); }
                self.visit_block_mut(&mut f.body);
            }
            Expr::While(w) => { self.visit_expr_mut(&mut w.cond); self.mark(&mut w.body); self.visit_block_mut(&mut w.body); }
            Expr::Loop(w) => { self.mark(&mut w.body); self.visit_block_mut(&mut w.body); }
            _ => { visit_mut::visit_expr_mut(self, e); return; }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // before / after text
        let mut out: Vec<Stmt> = vec![];
        let all: Vec<Stmt> = b.stmts.drain(..).collect();
        for (at, s) in all.iter().enumerate() {
            let mut s = s.clone();
            // the contract is written for a `for` loop and the code counts with `while`
            if self.specs.get(&self.n).map_or(false, |x| !x.inv.contains("decreases")) { if let Some(f) = counting(out.last(), &s, &all[at + 1..]) { out.pop(); s = f; } }
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let k = self.n;
            self.visit_stmt_mut(&mut s);
            if is_loop {
                if self.specs.get(&k).map_or(false, |x| !x.before.trim().is_empty()) { let id = Ident::new(&format!("__vx_before_{}", k), Span::call_site()); out.push(parse2(quote!(#id!();)).unwrap()); }
                if let Stmt::Expr(_, semi @ None) = &mut s { if self.specs.get(&k).map_or(false, |x| !x.after.trim().is_empty()) { *semi = Some(Default::default()); } }
                out.push(s);
                if self.specs.get(&k).map_or(false, |x| !x.after.trim().is_empty()) { let id = Ident::new(&format!("__vx_after_{}", k), Span::call_site()); out.push(parse2(quote!(#id!();)).unwrap()); }
            } else { out.push(s); }
        }
        b.stmts = out;
    }
}

struct Returns { ret: String, has_value: bool, ty: TokenStream }
impl VisitMut for Returns {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if self.has_value {
                let id = Ident::new(&self.ret, Span::call_site());
                let ty = &self.ty; if let Some(x) = &r.expr { *e = parse2(quote!({ let #id : #ty = #x; __vx_exit!(); return #id; })).unwrap(); }
            } else { *e = parse2(quote!({ __vx_exit!(); return; })).unwrap(); }
        }
    }
}

// ------------------------------------------------------------------ printing
struct Printer<'a> { out: String, f: &'a FnSpec }
impl<'a> Printer<'a> {
    fn stream(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            match &toks[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s.starts_with("__vx_") && i + 2 < toks.len() {
                        if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&toks[i + 1], &toks[i + 2]) {
                            if p.as_char() == '!' {
                                let n: usize = s.rsplit('_').next().unwrap().parse().unwrap_or(0);
                                let l = self.f.loops.get(&n).cloned().unwrap_or_default();
                                if s.starts_with("__vx_it_") { self.out.push_str(&format!("{}: ", l.it)); self.stream(g.stream()); i += 3; continue; }
                                let t = if s.starts_with("__vx_loop_") { l.body } else if s.starts_with("__vx_end_") { l.end } else if s.starts_with("__vx_after_") { l.after } else if s.starts_with("__vx_before_") { l.before } else { self.f.exit.clone() };
                                self.out.push('\n'); self.out.push_str(&t); self.out.push('\n');
                                i += 3;
                                if i < toks.len() { if let TokenTree::Punct(p) = &toks[i] { if p.as_char() == ';' { i += 1; } } }
                                continue;
                            }
                        }
                    }
                    self.out.push_str(&s); self.out.push(' ');
                }
                TokenTree::Literal(l) => { self.out.push_str(&l.to_string()); self.out.push(' '); }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' { self.out.push('\n'); }
                    else if p.spacing() == Spacing::Alone { self.out.push(' '); }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{\n", "\n}\n"), Delimiter::None => ("", "") };
                    if g.delimiter() == Delimiter::Brace {
                        // loop header?
                        if let Some(TokenTree::Ident(id)) = g.stream().into_iter().next() {
                            let s = id.to_string();
                            if let Some(n) = s.strip_prefix("__vx_loop_") {
                                let n: usize = n.parse().unwrap();
                                let inv = self.f.loops.get(&n).map(|l| l.inv.clone()).unwrap_or_default();
                                self.out.push('\n'); self.out.push_str(&inv); self.out.push('\n');
                            }
                        }
                    }
                    self.out.push_str(o); self.stream(g.stream()); self.out.push_str(c);
                    if g.delimiter() != Delimiter::Brace { self.out.push(' '); }
                }
            }
            i += 1;
        }
    }
}
fn print_ts(ts: TokenStream) -> String { let f = FnSpec::default(); let mut p = Printer { out: String::new(), f: &f }; p.stream(ts); p.out }

fn json_str(v: &[String]) -> serde_json::Value { serde_json::json!(v) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match run(&a) {
        Ok(()) => {}
        Err(e) => { eprintln!("vx: {}", e); std::process::exit(3); }
    }
}

fn run(a: &[String]) -> Res<()> {
    let (unit, variant, repo, out_rs, out_json) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let text = std::fs::read_to_string(unit).map_err(|e| e.to_string())?;
    let items = parse_unit(&text, variant, std::path::Path::new(unit).parent().unwrap())?;
    let mut sources: BTreeMap<String, Source> = BTreeMap::new();
    let mut listed: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut own: BTreeSet<String> = BTreeSet::new();
    let mut rules: Vec<(String, rewrite::Rule, String, usize)> = vec![];
    for it in &items {
        match it {
            Item0::Source(n, p) => { sources.insert(n.clone(), load_source(p, repo)?); }
            Item0::Fn(f) => { listed.entry(f.src.clone()).or_default().insert(f.key.clone()); }
            Item0::Skip(s, k) => { listed.entry(s.clone()).or_default().insert(k.clone()); }
            Item0::Own(k) => { own.insert(k.clone()); }
            Item0::Rewrite(s, p, r) => rules.push((s.clone(), rewrite::Rule::new(p, r)?, p.trim().replace('\n', " "), 0)),
            _ => {}
        }
    }
    let refuse = variant.starts_with("refuse");
    let mut out = String::new();
    let mut open_impl: Option<(String, usize)> = None;
    let mut meta_fns = vec![]; let mut warnings: Vec<String> = vec![]; let mut assumed: Vec<String> = vec![]; let mut inlined: Vec<String> = vec![];
    let mut emitted_consts: BTreeSet<String> = BTreeSet::new();
    for it in &items { if let Item0::Const(_, n, _) = it { emitted_consts.insert(n.clone()); } }
    let mut auto_consts = String::new();
    let (mut n_assert, mut n_sizeof, mut n_wl, mut n_chain, mut n_more) = (0, 0, 0, 0, 0);
    for it in &items {
        match it {
            Item0::Text(t) => out.push_str(t),
            Item0::Type(s, n, opts) => {
                let src = sources.get(s).ok_or(format!("no source {}", s))?;
                let mut item = src.types.get(n).ok_or(format!("ANCHOR type {} not found in {}", n, src.path))?.clone();
                let mut pubs = PubAll;
                pubs.visit_item_mut(&mut item);
                if !opts.is_empty() { out.push_str(&format!("{}\n", opts.join(" "))); }
                let mut ts = item.to_token_stream();
                for (rs, r, _, cnt) in rules.iter_mut() { if rs == s { ts = r.apply(ts, cnt); } }
                out.push_str(&print_ts(ts)); out.push('\n');
            }
            Item0::Const(s, n, ens) => {
                let src = sources.get(s).ok_or(format!("no source {}", s))?;
                let mut item = src.consts.get(n).ok_or(format!("ANCHOR const {} not found in {}", n, src.path))?.clone();
                PubAll.visit_item_mut(&mut item);
                let mut sz = SizeOf { n: 0 }; sz.visit_item_mut(&mut item); ByteArrays.visit_item_mut(&mut item);
                let mut ts = item.to_token_stream();
                for (rs, r, _, cnt) in rules.iter_mut() { if rs == s { ts = r.apply(ts, cnt); } }
                match (&item, ens.is_empty()) {
                    (Item::Const(c), false) => { let e: Expr = parse2::<ItemConst>(ts).map_err(|e| e.to_string())?.expr.as_ref().clone(); let (en, pf) = ens.split_once("@@").unwrap_or((ens, "")); out.push_str(&format!("pub exec const {}: {} {} {{ {} {} }}\n", c.ident, print_ts(c.ty.to_token_stream()), en, pf, print_ts(e.to_token_stream()))); }
                    _ => { out.push_str(&print_ts(ts)); out.push('\n'); }
                }
            }
            Item0::Fn(f) => {
                let src = sources.get(&f.src).ok_or(format!("no source {}", f.src))?;
                let mut fs = src.fns.get(&f.key).ok_or(format!("ANCHOR fn {} not found in {}", f.key, src.path))?.clone();
                if f.opts.iter().any(|o| o.starts_with("assumed=")) { fs.block = parse_quote!({ std::process::abort() }); assumed.push(format!("{} (unit {})", f.key, f.opts.iter().find_map(|o| o.strip_prefix("assumed=")).unwrap())); }
                // a critical section of a monitor: the content of the mutex is passed exclusively
                if f.opts.iter().any(|o| o == "monitor") {
                    fs.sig.asyncness = None; fs.sig.generics = Generics::default(); fs.generics = Generics::default();
                    if let Some(t) = &mut fs.self_ty { Sections(0).visit_type_mut(t); }
                    let mut s = Sections(0); s.visit_block_mut(&mut fs.block); s.visit_signature_mut(&mut fs.sig); n_more += s.0;
                    if f.opts.iter().any(|o| o == "excl") { if let Some(FnArg::Receiver(r)) = fs.sig.inputs.first_mut() { *r = parse_quote!(&mut self); } }
                    loop_value(&mut fs.block);
                }
                // token rewrites
                let apply = |b: &Block, rules: &mut Vec<(String, rewrite::Rule, String, usize)>| -> Res<Block> {
                    let mut ts = b.to_token_stream();
                    for (rs, r, _, cnt) in rules.iter_mut() { if *rs == f.src { ts = r.apply(ts, cnt); } }
                    parse2::<Block>(ts.clone()).map_err(|e| format!("fn {}: after rewrites: {}: {}", f.key, e, ts))
                };
                // pattern parameters become a plain parameter and a let
                for (k, inp) in fs.sig.inputs.iter_mut().enumerate() { if let FnArg::Typed(t) = inp { if !matches!(&*t.pat, Pat::Ident(_)) {
                    let id = Ident::new(&format!("vx_arg{}", k), Span::call_site()); let pat = t.pat.clone();
                    t.pat = Box::new(parse_quote!(#id)); let st: Block = parse2(quote!({ let #pat = #id; })).map_err(|e| e.to_string())?;
                    fs.block.stmts.insert(0, st.stmts.into_iter().next().unwrap()); } } }
                let self_name = fs.self_ty.as_ref().map(ty_name);
                // fold_err becomes the loop it stands for below, or the text is not accepted
                let mut own = own.clone(); if f.opts.iter().any(|o| o == "folds") { own.insert("fold_err".into()); }
                let mut inl = Inliner { src, self_name, listed: &listed[&f.src], own: &own, counter: 0, done: vec![], blocked: vec![], monitor: f.opts.iter().any(|o| o == "monitor") };
                mark_tails(&mut fs.block);
                inl.visit_block_mut(&mut fs.block);
                inlined.extend(inl.done.iter().map(|x| format!("{} into {}", x, f.key)));
                warnings.extend(inl.blocked.iter().map(|x| format!("cannot inline {} into {}", x, f.key)));
                fs.block = apply(&fs.block, &mut rules)?;
                let mut m = Macros { refuse: refuse && !f.opts.iter().any(|o| o == "strict"), n: 0 }; m.visit_block_mut(&mut fs.block); n_assert += m.n;
                let mut sz = SizeOf { n: 0 }; sz.visit_block_mut(&mut fs.block); n_sizeof += sz.n; ByteArrays.visit_block_mut(&mut fs.block);
                if f.opts.iter().any(|o| o == "shifts") { let mut b = more::Shifts(0); b.visit_block_mut(&mut fs.block); n_more += b.0; }
                if f.opts.iter().any(|o| o == "boolops") { let mut b = more::BoolOps(0); b.visit_block_mut(&mut fs.block); n_more += b.0; }
                if f.opts.iter().any(|o| o == "folds") {
                    let fe = src.fns.get("fold_err").map_or(false, |x| x.block.to_token_stream().to_string().replace(' ', "") == more::FOLD_ERR.replace(' ', ""));
                    if !fe && src.fns.contains_key("fold_err") { return Err("fold_err is not the loop it stands for".into()); }
                    let mut fo = more::Folds { n: 0, k: 0, fold_err: fe, result_vec: false }; fo.visit_block_mut(&mut fs.block); n_more += fo.n;
                }
                { let vecs = fs.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_some() && r.elem.to_token_stream().to_string().starts_with("Vec") { return Some(i.ident.to_string()); } } None } else { None }).collect();
                    let mut ml = more::MutLoops { n: 0, vecs }; ml.visit_block_mut(&mut fs.block); n_more += ml.n; }
                let mut ch = Chains { n: 0, map_ty: f.opts.iter().find_map(|o| o.strip_prefix("collect=").map(|x| x.to_string())), tuple_ty: f.opts.iter().find_map(|o| o.strip_prefix("collect_pairs=").map(|x| x.to_string())) }; ch.visit_block_mut(&mut fs.block); n_chain += ch.n;
                if let Some(t) = f.opts.iter().find_map(|o| o.strip_prefix("eta=")) { let mut e = Eta { ty: t.to_string(), n: 0 }; e.visit_block_mut(&mut fs.block); n_more += e.n; }
                let mut wl = WhileLet { n: 0 }; wl.visit_block_mut(&mut fs.block); n_wl += wl.n;
                if f.opts.iter().any(|o| o == "refpats") { let mut r = more::RefPats(0); r.visit_block_mut(&mut fs.block); n_more += r.0; }
                rewrite::plain(&mut fs.block);
                // auto consts
                for id in rewrite::idents(&fs.block.to_token_stream()) {
                    if let Some(c) = src.consts.get(&id) { if emitted_consts.insert(id.clone()) { let mut c = c.clone(); PubAll.visit_item_mut(&mut c); ByteArrays.visit_item_mut(&mut c); auto_consts.push_str(&print_ts(c.to_token_stream())); auto_consts.push('\n'); } }
                }
                Continues.visit_block_mut(&mut fs.block);
                let mut lp = Loops { n: 0, specs: f.loops.clone() };
                lp.visit_block_mut(&mut fs.block);
                let want = f.loops.keys().max().map_or(0, |x| x + 1);
                if lp.n != want { warnings.push(format!("fn {}: {} loops, contract written for {}", f.key, lp.n, want)); }
                let has_value = matches!(fs.sig.output, ReturnType::Type(..));
                if !f.exit.trim().is_empty() {
                    let ty = match &fs.sig.output { ReturnType::Type(_, t) => { let mut t = t.to_token_stream(); for (rs, r, _, cnt) in rules.iter_mut() { if *rs == f.src { t = r.apply(t, cnt); } } t } _ => quote!(()) };
                    let mut r = Returns { ret: f.ret.clone(), has_value, ty: ty.clone() }; r.visit_block_mut(&mut fs.block);
                    let id = Ident::new(&f.ret, Span::call_site());
                    if has_value {
                        match fs.block.stmts.pop() {
                            Some(s @ Stmt::Expr(Expr::Loop(_), None)) => fs.block.stmts.push(s),
                            Some(Stmt::Expr(e, None)) => { fs.block.stmts.push(parse2(quote!(let #id : #ty = #e;)).unwrap()); fs.block.stmts.push(parse2(quote!(__vx_exit!();)).unwrap()); fs.block.stmts.push(Stmt::Expr(parse2(quote!(#id)).unwrap(), None)); }
                            Some(s) => fs.block.stmts.push(s),
                            None => {}
                        }
                    } else {
                        if let Some(Stmt::Expr(_, semi @ None)) = fs.block.stmts.last_mut() { *semi = Some(Default::default()); }
                        fs.block.stmts.push(parse2(quote!(__vx_exit!();)).unwrap());
                    }
                }
                // a free copy of an associated function: the type parameters of the impl, and its type for Self
                if let (true, Some(t)) = (f.opts.iter().any(|o| o == "free"), fs.self_ty.clone()) {
                    for p in fs.generics.params.iter().filter(|p| matches!(p, GenericParam::Type(_))) { fs.sig.generics.params.push(p.clone()); }
                    if let (Some(w), true) = (&fs.generics.where_clause, !fs.sig.generics.params.is_empty()) { if fs.sig.generics.where_clause.is_none() { fs.sig.generics.where_clause = Some(w.clone()); } }
                    struct SelfIs(Type);
                    impl VisitMut for SelfIs { fn visit_type_mut(&mut self, t: &mut Type) { if let Type::Path(p) = t { if p.path.is_ident("Self") { *t = self.0.clone(); return; } } visit_mut::visit_type_mut(self, t); } }
                    SelfIs(t).visit_signature_mut(&mut fs.sig);
                }
                // signature
                let mut sig = fs.sig.clone();
                for inp in sig.inputs.iter_mut() { if let FnArg::Typed(t) = inp { t.attrs.clear(); } }
                let mut sig_ts = { let mut s2 = sig.clone(); s2.output = ReturnType::Default; s2.unsafety = None;
                    if let Some(n) = f.opts.iter().find_map(|o| o.strip_prefix("as=")) { s2.ident = Ident::new(n, Span::call_site()); }
                    let wc = s2.generics.where_clause.take(); let _ = wc; s2.to_token_stream() };
                for (rs, r, _, cnt) in rules.iter_mut() { if *rs == f.src { sig_ts = r.apply(sig_ts, cnt); } }
                let mut s = String::new();
                for o in &f.opts { if o.starts_with("#[") { s.push_str(o); s.push('\n'); } if o.starts_with("assumed=") { s.push_str("#[verifier::external_body] /*assumed*/\n"); } }
                let is_trait = fs.trait_.is_some() && f.opts.iter().any(|o| o == "trait");
                s.push_str(if is_trait { "" } else { "pub " });
                s.push_str(&print_ts(sig_ts));
                if let ReturnType::Type(_, t) = &sig.output {
                    let mut tt = t.to_token_stream();
                    for (rs, r, _, cnt) in rules.iter_mut() { if *rs == f.src { tt = r.apply(tt, cnt); } }
                    s.push_str(&format!("-> ({}: {})", f.ret, print_ts(tt)));
                }
                if let Some(w) = &sig.generics.where_clause { let mut wt = w.to_token_stream(); for (rs, r, _, cnt) in rules.iter_mut() { if *rs == f.src { wt = r.apply(wt, cnt); } } s.push_str(&print_ts(wt)); }
                s.push('\n'); s.push_str(&f.spec);
                let mut p = Printer { out: String::new(), f };
                p.stream(fs.block.to_token_stream());
                let body = p.out;
                let pos = body.find('{').unwrap();
                s.push_str("{\n"); let (hides, rest): (Vec<&str>, Vec<&str>) = f.entry.lines().partition(|l| l.trim_start().starts_with("hide(")); for h in hides { s.push_str(h); s.push('\n'); } let f_entry = rest.join("\n") + "\n"; if std::env::var("VX_PROBE").is_ok() && !f.opts.iter().any(|o| o.starts_with("assumed=")) { s.push_str("proof { assert(false); } /*VXPROBE*/\n"); } if out.contains("vstd::string") { let mut ls = StrLits(vec![]); syn::visit::Visit::visit_block(&mut ls, &fs.block); for l in ls.0 { s.push_str(&format!("proof {{ reveal_strlit({}); }}\n", l)); } }
                s.push_str(&f_entry); s.push_str(&body[pos + 1..]);
                if let Some(t) = &fs.self_ty {
                    if !f.opts.iter().any(|o| o == "free") {
                        let (ig, _, w) = { let g = &fs.generics; (g.params.to_token_stream(), (), g.where_clause.to_token_stream()) };
                        let tr = if is_trait { format!("{} for ", print_ts(fs.trait_.to_token_stream())) } else { String::new() };
                        let mut tt = t.to_token_stream();
                        for (rs, r, _, cnt) in rules.iter_mut() { if *rs == f.src { tt = r.apply(tt, cnt); } }
                        let head = format!("impl {} {}{} {} {{\n", if ig.is_empty() { String::new() } else { format!("<{}>", print_ts(ig)) }, tr, print_ts(tt), print_ts(w));
                        // the functions of one trait implementation, when listed together
                        if is_trait && open_impl.as_ref().map_or(false, |(h, at)| *h == head && *at == out.len()) { out.truncate(out.len() - "\n}\n\n".len()); out.push('\n'); s = format!("{}\n}}\n", f.implx.clone() + &s); }
                        else { s = format!("{}{}\n}}\n", head, f.implx.clone() + &s); }
                        if is_trait { let mark = format!("// ---- {} :: {}\n", src.path, f.key); open_impl = Some((head, out.len() + mark.len() + s.len() + 1)); }
                    }
                }
                out.push_str(&format!("// ---- {} :: {}\n", src.path, f.key));
                out.push_str(&s); out.push('\n');
                meta_fns.push(serde_json::json!({"file": src.path, "fn": f.key, "loops": lp.n}));
            }
            _ => {}
        }
    }
    let out = out.replace("/*VX_AUTO_CONSTS*/", &auto_consts);
    std::fs::write(out_rs, out).map_err(|e| e.to_string())?;
    let mut dropped = vec![];
    for (n, s) in &sources { for k in s.fns.keys() { if !listed.get(n).map_or(false, |l| l.contains(k)) { dropped.push(format!("{}::{}", s.path, k)); } } }
    let rws: Vec<_> = rules.iter().filter(|r| r.3 > 0).map(|r| serde_json::json!({"pattern": r.2, "times": r.3})).collect();
    let j = serde_json::json!({"functions": meta_fns, "assumed": json_str(&assumed), "inlined": json_str(&inlined), "warnings": json_str(&warnings), "not_extracted": dropped,
        "rewrites": {"assert/panic macros": n_assert, "size_of": n_sizeof, "while_let": n_wl, "iterator_chains_to_loops": n_chain, "folds_zips_reference_patterns": n_more, "patterns": rws}});
    std::fs::write(out_json, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

// X.iter().enumerate().map(|p| e)...collect() becomes the loop it stands for
struct Chains { n: usize, map_ty: Option<String>, tuple_ty: Option<String> }
impl Chains {
    fn closure(e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = e {
            if c.inputs.len() != 1 { return None; }
            let mut h = HasEscape(false, Mode::Plain); syn::visit::Visit::visit_expr(&mut h, &c.body); if h.0 { return None; }
            let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
            return Some((p, (*c.body).clone()));
        }
        None
    }
    // the last stage is a map to a pair
    fn gives_pair(e: &Expr) -> bool {
        if let Expr::MethodCall(m) = e { if m.method == "map" && m.args.len() == 1 { if let Some((_, b)) = Self::closure(&m.args[0]) {
            let mut x = &b; loop { match x { Expr::Block(k) => match k.block.stmts.last() { Some(Stmt::Expr(y, None)) => x = y, _ => return false }, Expr::Paren(y) => x = &y.expr, Expr::Tuple(t) => return t.elems.len() == 2, _ => return false } } } } }
        false
    }
    // (source expression, stages outermost last)
    fn stages(e: &Expr) -> Option<Vec<(String, Option<Expr>, Expr)>> {
        // returns list of (method, arg, receiver) from the innermost
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match (name.as_str(), m.args.len()) {
                ("iter" | "into_iter" | "iter_mut" | "chars", 0) => return Some(vec![(name, None, e.clone())]),
                ("enumerate", 0) => { let mut v = Self::stages(&m.receiver)?; v.push((name, None, e.clone())); return Some(v); }
                ("map" | "filter_map" | "filter", 1) => { Self::closure(&m.args[0])?; let mut v = Self::stages(&m.receiver)?; v.push((name, Some(m.args[0].clone()), e.clone())); return Some(v); }
                ("chain", 1) => { Self::stages(&m.args[0])?; let mut v = Self::stages(&m.receiver)?; v.push((name, Some(m.args[0].clone()), e.clone())); return Some(v); }
                _ => {}
            }
        }
        None
    }
    // loops that feed every element through `sink`
    fn feed(&mut self, st: &[(String, Option<Expr>, Expr)], sink: &dyn Fn(Expr) -> Expr) -> Option<TokenStream> {
        if let Some(i) = st.iter().rposition(|x| x.0 == "chain") {
            let (rest, ch) = (&st[i + 1..], st[i].1.clone().unwrap());
            if !rest.is_empty() && rest.iter().any(|x| x.0 == "enumerate") { return None; }
            let mut a: Vec<_> = st[..i].to_vec(); a.extend_from_slice(rest);
            let mut b = Self::stages(&ch)?; b.extend_from_slice(rest);
            let x = self.feed(&a, sink)?; let y = self.feed(&b, sink)?;
            return Some(quote!(#x #y));
        }
        let k = self.n; self.n += 1;
        let mut cur = Ident::new(&format!("vx_x{}", k), Span::call_site());
        let src = if st[0].0 == "chars" { st[0].2.clone() } else { st[0].2.clone() };
        let item = cur.clone();
        let mut pre = quote!(); let mut open: Vec<(TokenStream, TokenStream, TokenStream)> = vec![]; let mut j = 0;
        let mut body = quote!();
        for (name, arg, _) in &st[1..] {
            j += 1;
            let nx = Ident::new(&format!("vx_x{}_{}", k, j), Span::call_site());
            match name.as_str() {
                "enumerate" => {
                    let c = Ident::new(&format!("vx_n{}", k), Span::call_site());
                    pre = quote!(#pre let mut #c: usize = 0;);
                    body = quote!(#body let #nx = (#c, #cur); #c = #c + 1;);
                }
                "map" => { let (p, b) = Self::closure(arg.as_ref().unwrap())?; body = quote!(#body let #p = #cur; let #nx = #b;); }
                "filter_map" => { let (p, b) = Self::closure(arg.as_ref().unwrap())?; open.push((quote!(#body let #p = #cur;), quote!(#b), quote!(Some(#nx)))); body = quote!(); }
                "filter" => { let (p, b) = Self::closure(arg.as_ref().unwrap())?; open.push((quote!(#body let #nx = #cur; let vx_keep = { let #p = &#nx; #b };), quote!(vx_keep), quote!(true))); body = quote!(); }
                _ => return None,
            }
            cur = nx;
        }
        let cure: Expr = parse_quote!(#cur); let s = sink(cure);
        let mut inner = quote!(#body #s;);
        for (a, b, c) in open.iter().rev() { inner = quote!(#a match #b { #c => { #inner } _ => {} }); }
        Some(quote!(#pre for #item in #src { #inner }))
    }
}
impl VisitMut for Chains {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let old = self.map_ty.take();
        if let Pat::Type(t) = &l.pat { let s = t.ty.to_token_stream().to_string().replace(' ', ""); if s.contains("Map<") || s.contains("VMap") || s.contains("VHash") { let b = s.split('<').next().unwrap().to_string(); self.map_ty = Some(b); } }
        visit_mut::visit_local_mut(self, l); self.map_ty = old;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.args.is_empty() {
                let mt = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "")).filter(|s| s.contains("Map")).map(|s| s.trim_start_matches("::<").split('<').next().unwrap().to_string()).or(self.map_ty.clone()).or_else(|| if Self::gives_pair(&m.receiver) { self.tuple_ty.clone() } else { None });
                if let Some(st) = Self::stages(&m.receiver) {
                    let c = Ident::new(&format!("vx_c{}", self.n), Span::call_site());
                    let is_map = mt.is_some();
                    let new: Expr = match &mt { Some(t) => parse_str(&format!("{}::new()", t)).unwrap(), None => parse_quote!(Vec::new()) };
                    let c2 = c.clone();
                    let sink = move |x: Expr| -> Expr { if is_map { parse_quote!({ let (vx_k, vx_v) = #x; let _ = #c2.insert(vx_k, vx_v); }) } else { parse_quote!(#c2.push(#x)) } };
                    if let Some(ts) = self.feed(&st, &sink) {
                        let b: Expr = parse2(quote!({ let mut #c = #new; #ts #c })).unwrap();
                        *e = b; let old = self.map_ty.take(); visit_mut::visit_expr_mut(self, e); self.map_ty = old; return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
// T::C as an argument is |x| T::C(x)
struct Eta { ty: String, n: usize }
impl Eta { fn arg(&mut self, a: &mut Expr) {
    if let Expr::Path(p) = a { let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if v.len() >= 2 && v[v.len() - 2] == self.ty { self.n += 1; let t = Ident::new(&self.ty, Span::call_site()); let q = p.clone();
            *a = Expr::Verbatim(quote!(|vx_e| -> (vx_r: #t) ensures vx_r == #q(vx_e) { #q(vx_e) })); } } } }
impl VisitMut for Eta { fn visit_expr_mut(&mut self, e: &mut Expr) {
    match e { Expr::Call(c) => for a in c.args.iter_mut() { self.arg(a) }, Expr::MethodCall(c) => for a in c.args.iter_mut() { self.arg(a) }, _ => {} }
    visit_mut::visit_expr_mut(self, e); } }
// short string literals of a body, whose characters the proof may need
struct StrLits(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for StrLits {
    fn visit_lit_str(&mut self, l: &'ast LitStr) { let t = l.token().to_string(); if l.value().chars().count() <= 12 && !self.0.contains(&t) { self.0.push(t); } }
}
// *b"..." is an array of bytes
struct ByteArrays;
impl VisitMut for ByteArrays {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e { if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &**expr { let v = b.value(); *e = parse2(quote!([ #(#v),* ])).unwrap(); } }
    }
}
struct PubAll;
impl VisitMut for PubAll {
    fn visit_item_mut(&mut self, i: &mut Item) {
        let v: Visibility = parse_quote!(pub);
        match i {
            Item::Struct(x) => { x.vis = v; x.attrs.clear(); for f in x.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); } if let Fields::Unnamed(u) = &mut x.fields { for f in u.unnamed.iter_mut() { f.vis = parse_quote!(pub); } } }
            Item::Enum(x) => { x.vis = v; x.attrs.clear(); for va in x.variants.iter_mut() { va.attrs.clear(); for f in va.fields.iter_mut() { f.attrs.clear(); } } }
            Item::Type(x) => { x.vis = v; x.attrs.clear(); }
            Item::Const(x) => { x.vis = v; x.attrs.clear(); }
            Item::Static(x) => { x.vis = v; x.attrs.clear(); }
            Item::Trait(x) => { x.vis = v; x.attrs.clear(); }
            _ => {}
        }
    }
}
