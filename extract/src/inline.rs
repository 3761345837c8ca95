//! Helper functions without a contract of their own are inlined where they are called, so that a function split in
//! two is verified as before: arguments are bound in order, places passed by reference stand for the parameter, the
//! helper's own names are made distinct from the caller's. A helper with a return, a `?`, an item or a macro of its
//! own name handling is left alone (its callers are then outside the subset).
use proc_macro2::Span;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper { pub sig: Signature, pub block: Block }
/// free functions by module and name, inherent functions by type and name, constants by module and name
#[derive(Default)]
pub struct Helpers { pub free: BTreeMap<(String, String), Helper>, pub inherent: BTreeMap<(String, String), Helper>, pub consts: BTreeMap<(String, String), Expr> }

struct Names(BTreeSet<String>);
impl VisitMut for Names { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.0.insert(p.ident.to_string()); visit_mut::visit_pat_ident_mut(self, p) } }

struct Bad(bool);
impl VisitMut for Bad {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Return(_) | Expr::Try(_) | Expr::Async(_) | Expr::Unsafe(_)) { self.0 = true }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) { self.0 = true }
}

/// parameters and local names to expressions or new names
struct Subst<'a> { place: &'a BTreeMap<String, (Expr, Option<bool>)>, ren: &'a BTreeMap<String, String>, bad: bool }
impl Subst<'_> {
    fn get(&self, e: &Expr) -> Option<(Expr, Option<bool>)> { if let Expr::Path(p) = e { p.path.get_ident().and_then(|i| self.place.get(&i.to_string()).cloned()) } else { None } }
    fn tokens(&mut self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        t.into_iter().map(|x| match x {
            proc_macro2::TokenTree::Group(g) => { let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); n.into() }
            proc_macro2::TokenTree::Ident(i) => { if self.place.contains_key(&i.to_string()) { self.bad = true } match self.ren.get(&i.to_string()) { Some(n) => Ident::new(n, i.span()).into(), None => i.into() } }
            x => x,
        }).collect()
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // *p and p.m(), p[i], p.f of a place passed by reference: the place itself
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => if let Some((x, Some(_))) = self.get(expr) { *e = x; return },
            Expr::MethodCall(m) => if let Some((x, Some(_))) = self.get(&m.receiver) {
                *m.receiver = x;
                for a in m.args.iter_mut() { self.visit_expr_mut(a) }
                return;
            },
            Expr::Index(m) => if let Some((x, Some(_))) = self.get(&m.expr) { *m.expr = x; self.visit_expr_mut(&mut m.index); return },
            Expr::Field(m) => if let Some((x, Some(_))) = self.get(&m.base) { *m.base = x; return },
            Expr::Assign(a) => if let Some((_, None)) = self.get(&a.left) { self.bad = true },
            _ => {}
        }
        if let Some((x, r)) = self.get(e) {
            *e = match r { Some(true) => parse_quote!(&mut #x), Some(false) => parse_quote!(&#x), None => x };
            return;
        }
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some(n) = self.ren.get(&i.to_string()) { let n = Ident::new(n, i.span()); *e = parse_quote!(#n); return } } }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()) } visit_mut::visit_field_value_mut(self, f) }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if let Some(n) = self.ren.get(&p.ident.to_string()) { p.ident = Ident::new(n, Span::call_site()) } visit_mut::visit_pat_ident_mut(self, p) }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { if let Pat::Ident(i) = &*f.pat { if self.ren.contains_key(&i.ident.to_string()) { f.colon_token = Some(Default::default()) } } }
        visit_mut::visit_field_pat_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { let t = m.tokens.clone(); m.tokens = self.tokens(t) }
}

pub struct Inline<'a> { pub h: &'a Helpers, pub module: String, pub imports: BTreeMap<String, String>, pub ty: String, pub taken: BTreeSet<String>, pub depth: usize, pub n: usize }
impl Inline<'_> {
    pub fn body(&mut self, sig: &Signature, b: &mut Block) {
        let mut n = Names(BTreeSet::new());
        for a in &sig.inputs { if let FnArg::Typed(t) = a { let mut t = t.clone(); n.visit_pat_type_mut(&mut t) } }
        n.visit_block_mut(b);
        self.taken = n.0;
        self.visit_block_mut(b)
    }
    fn home(&self, name: &str) -> String { self.imports.get(name).cloned().unwrap_or(self.module.clone()) }
    fn find(&self, p: &Path) -> Option<Helper> {
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        match &s[..] {
            [f] if !self.taken.contains(f) => self.h.free.get(&(self.home(f), f.clone())).cloned(),
            [t, f] if t == "Self" => self.h.inherent.get(&(self.ty.clone(), f.clone())).cloned(),
            [.., m, f] => self.h.free.get(&(m.clone(), f.clone())).or_else(|| { let t: Vec<_> = self.h.inherent.iter().filter(|(k, _)| k.1 == *f && k.0.split('<').next() == Some(m.as_str())).collect(); if t.len() == 1 { Some(t[0].1) } else { None } }).cloned(),
            _ => None,
        }
    }
    /// a place whose evaluation has no effect and does not depend on anything the helper can change
    fn place(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().is_some(),
            Expr::Field(f) => Self::place(&f.base),
            Expr::Paren(p) => Self::place(&p.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => Self::place(expr),
            Expr::Index(i) => Self::place(&i.expr) && Self::index(&i.index),
            _ => false,
        }
    }
    fn index(e: &Expr) -> bool {
        match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Lit(_) => true, Expr::Range(r) => r.start.as_ref().map_or(true, |x| Self::index(x)) && r.end.as_ref().map_or(true, |x| Self::index(x)), _ => false }
    }
    fn inline(&mut self, h: &Helper, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 { return None }
        let mut b = h.block.clone();
        let mut bad = Bad(false);
        bad.visit_block_mut(&mut b);
        if bad.0 { return None }
        let params: Vec<(&PatIdent, &Type)> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).map(|t| if let Pat::Ident(i) = &*t.pat { Some((i, &*t.ty)) } else { None }).collect::<Option<_>>()?;
        if params.len() != args.len() { return None }
        // names of the helper
        let mut names = Names(BTreeSet::new());
        names.visit_block_mut(&mut b);
        let mut ren = BTreeMap::new();
        for n in &names.0 {
            let upper = n.chars().next().map_or(false, |c| c.is_uppercase());
            if !upper && (self.taken.contains(n) || params.iter().any(|p| p.0.ident == n)) { self.n += 1; ren.insert(n.clone(), format!("{}__h{}", n, self.n)); }
        }
        // a parameter shadowed by a local of the same name: too intricate
        if params.iter().any(|p| names.0.contains(&p.0.ident.to_string())) { return None }
        let (mut place, mut lets): (BTreeMap<String, (Expr, Option<bool>)>, Vec<Stmt>) = (BTreeMap::new(), vec![]);
        // what is passed by mutable reference appears in no other argument
        for (i, a) in args.iter().enumerate() {
            if let Expr::Reference(ExprReference { mutability: Some(_), expr, .. }) = a {
                let root = { let mut x: &Expr = expr; loop { match x { Expr::Field(f) => x = &f.base, Expr::Index(f) => x = &f.expr, Expr::Paren(f) => x = &f.expr, Expr::Unary(f) => x = &f.expr, _ => break x.to_token_stream().to_string() } } };
                if args.iter().enumerate().any(|(j, b)| j != i && format!(" {} ", b.to_token_stream()).contains(&format!(" {} ", root))) { return None }
            }
        }
        for ((p, t), a) in params.iter().zip(args) {
            let name = p.ident.to_string();
            match (&a, t) {
                (Expr::Reference(r), Type::Reference(_)) if Self::place(&r.expr) => { place.insert(name, ((*r.expr).clone(), Some(r.mutability.is_some()))); }
                // a variable that is a reference already
                (Expr::Path(_), _) if p.mutability.is_none() && Self::place(&a) => { place.insert(name, (a, None)); }
                (Expr::Lit(_), Type::Path(_)) if p.mutability.is_none() && !a.to_token_stream().to_string().starts_with('"') => {
                    let k = t.to_token_stream().to_string();
                    if ["usize", "bool", "char"].contains(&k.as_str()) { place.insert(name, (a, None)); } else { return None }
                }
                (_, Type::Reference(r)) if r.mutability.is_some() => return None,
                _ => {
                    self.n += 1;
                    let fresh = format!("{}__h{}", name, self.n);
                    let id = Ident::new(&fresh, Span::call_site());
                    ren.insert(name, fresh);
                    let k = t.to_token_stream().to_string();
                    let m = p.mutability;
                    lets.push(if ["usize", "bool", "char", "i32", "u32"].contains(&k.as_str()) { parse_quote!(let #m #id: #t = #a;) } else { parse_quote!(let #m #id = #a;) });
                }
            }
        }
        let mut s = Subst { place: &place, ren: &ren, bad: false };
        s.visit_block_mut(&mut b);
        if s.bad { return None }
        for n in ren.values() { self.taken.insert(n.clone()); }
        for n in &names.0 { self.taken.insert(n.clone()); }
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        lets.extend(b.stmts);
        if let [Stmt::Expr(e, None)] = &lets[..] { if matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_)) { return Some(e.clone()) } return Some(parse_quote!((#e))) }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: lets } }))
    }
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => if let Expr::Path(p) = &*c.func { self.find(&p.path).filter(|h| !h.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)))).and_then(|h| self.inline(&h, c.args.iter().cloned().collect())) } else { None },
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                let k = (self.ty.clone(), m.method.to_string());
                match self.h.inherent.get(&k).cloned() {
                    Some(h) if matches!(h.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some() || r.mutability.is_none()) => self.inline(&h, m.args.iter().cloned().collect()),
                    _ => None,
                }
            }
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|i| !self.taken.contains(i)).and_then(|i| self.h.consts.get(&(self.home(&i), i)).cloned()).map(|x| parse_quote!((#x))),
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { visit_mut::visit_expr_closure_mut(self, c) }
}
#[allow(unused)]
fn keep() { let _ = format_ident!("x"); }
