//! Token-level rewriting with metavariables (`$x` binds one or more token trees up to the next
//! pattern token, not crossing `;` or `,`; `$$x` may cross commas).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rule { pat: Vec<TokenTree>, rep: Vec<TokenTree> }
type Binds = BTreeMap<String, Vec<TokenTree>>;

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        (TokenTree::Group(x), TokenTree::Group(y)) => x.delimiter() == y.delimiter() && { let a: Vec<_> = x.stream().into_iter().collect(); let b: Vec<_> = y.stream().into_iter().collect(); a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| same(p, q)) },
        _ => false,
    }
}
fn is_p(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }

/// match pat fully against a prefix of inp; returns (consumed, binds)
fn matcher(pat: &[TokenTree], inp: &[TokenTree], full: bool, b: &Binds) -> Option<(usize, Binds)> {
    if pat.is_empty() { return if full && !inp.is_empty() { None } else { Some((0, b.clone())) }; }
    if is_p(pat.get(0), '$') {
        let (multi, k) = if is_p(pat.get(1), '$') { (true, 2) } else { (false, 1) };
        if let Some(TokenTree::Ident(n)) = pat.get(k) {
            let name = n.to_string();
            let rest = &pat[k + 1..];
            let single = name.starts_with("id");   // $idNAME: exactly one identifier
            let lits = name.starts_with("lit");
            if let Some(prev) = b.get(&name) {
                if inp.len() >= prev.len() && prev.iter().zip(inp).all(|(x, y)| same(x, y)) {
                    return matcher(rest, &inp[prev.len()..], full, b).map(|(c, bb)| (c + prev.len(), bb));
                }
                return None;
            }
            let mut len = if multi { 0 } else { 1 };
            loop {
                if len > inp.len() { return None; }
                if len > 0 {
                    let last = &inp[len - 1];
                    if is_p(Some(last), ';') || (!multi && is_p(Some(last), ',')) { return None; }
                    if single && !(len == 1 && matches!(last, TokenTree::Ident(_))) { return None; }
                    if lits && !(len == 1 && matches!(last, TokenTree::Literal(_))) { return None; }
                }
                let mut bb = b.clone();
                bb.insert(name.clone(), inp[..len].to_vec());
                if let Some((c, r)) = matcher(rest, &inp[len..], full, &bb) { return Some((c + len, r)); }
                len += 1;
            }
        }
        return None;
    }
    let f = inp.get(0)?;
    if let (TokenTree::Group(p), TokenTree::Group(i)) = (&pat[0], f) {
        if p.delimiter() != i.delimiter() { return None; }
        let pv: Vec<_> = p.stream().into_iter().collect(); let iv: Vec<_> = i.stream().into_iter().collect();
        let (_, bb) = matcher(&pv, &iv, true, b)?;
        return matcher(&pat[1..], &inp[1..], full, &bb).map(|(c, r)| (c + 1, r));
    }
    if !same(&pat[0], f) { return None; }
    matcher(&pat[1..], &inp[1..], full, b).map(|(c, r)| (c + 1, r))
}
fn subst(rep: &[TokenTree], b: &Binds, out: &mut Vec<TokenTree>) {
    let mut i = 0;
    while i < rep.len() {
        if is_p(rep.get(i), '$') {
            let k = if is_p(rep.get(i + 1), '$') { i + 2 } else { i + 1 };
            if let Some(TokenTree::Ident(n)) = rep.get(k) { if let Some(v) = b.get(&n.to_string()) { out.extend(v.iter().cloned()); i = k + 1; continue; } }
        }
        if let TokenTree::Group(g) = &rep[i] {
            let v: Vec<_> = g.stream().into_iter().collect(); let mut o = vec![]; subst(&v, b, &mut o);
            out.push(TokenTree::Group(Group::new(g.delimiter(), o.into_iter().collect())));
        } else { out.push(rep[i].clone()); }
        i += 1;
    }
}
impl Rule {
    pub fn new(p: &str, r: &str) -> std::result::Result<Rule, String> {
        let f = |s: &str| -> std::result::Result<Vec<TokenTree>, String> { Ok(s.parse::<TokenStream>().map_err(|e| format!("rule {}: {}", s, e))?.into_iter().collect()) };
        Ok(Rule { pat: f(p)?, rep: f(r)? })
    }
    pub fn apply(&self, ts: TokenStream, n: &mut usize) -> TokenStream {
        let inp: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < inp.len() {
            if let Some((c, b)) = matcher(&self.pat, &inp[i..], false, &BTreeMap::new()) {
                if c > 0 {
                    *n += 1;
                    // rewrite inside the bindings as well
                    let b2: Binds = b.into_iter().map(|(k, v)| { let t: Vec<TokenTree> = if v.len() < inp.len() { self.apply(v.into_iter().collect(), n).into_iter().collect() } else { v }; (k, t) }).collect();
                    subst(&self.rep, &b2, &mut out);
                    i += c;
                    continue;
                }
            }
            match &inp[i] {
                TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), self.apply(g.stream(), n)); ng.set_span(g.span()); out.push(TokenTree::Group(ng)); }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
}
pub fn idents(ts: &TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in ts.clone() { match t { TokenTree::Ident(i) => v.push(i.to_string()), TokenTree::Group(g) => v.extend(idents(&g.stream())), _ => {} } }
    v
}
/// matches!(e, p) -> match e { p => true, _ => false }
pub fn matches_macro(ts: &TokenStream) -> Option<Expr> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let k = v.iter().position(|t| is_p(Some(t), ','))?;
    let e: TokenStream = v[..k].iter().cloned().collect(); let p: TokenStream = v[k + 1..].iter().cloned().collect();
    parse2(quote::quote!(match #e { #p => true, _ => false })).ok()
}
/// statement-level clean-up: attributes on statements and expressions
struct Plain;
impl VisitMut for Plain {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e { let b = &u.block; *e = parse2(quote::quote!(#b)).unwrap(); }
    }
}
pub fn plain(b: &mut Block) { Plain.visit_block_mut(b); let _ = Delimiter::None; }
