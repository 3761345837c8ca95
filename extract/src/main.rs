//! extract SRC_DIR CONTRACTS_DIR OUT.rs REPORT.json PROP [stub keys...]
//!
//! Reads the crate's source, lowers every function that has a contract, and writes one Verus file: the prelude, then one
//! module per source file with the crate's own types, traits and functions under their contracts. Functions that the
//! property does not list are emitted with their contract but without their body.
mod inline;
mod lower;
mod mac;
use lower::Low;
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone, Debug)]
struct Spec {
    key: String, props: Vec<String>, params: Vec<String>, requires: String, ensures: String, loops: BTreeMap<usize, String>, decr: BTreeMap<usize, String>,
    at: BTreeMap<String, String>, attr: String, decreases: String, trusted: bool, used: bool, generic: Option<String>, cut: String, types: Vec<(String, String)>,
}
#[derive(Default)]
struct Specs { fns: BTreeMap<String, Spec>, supers: BTreeMap<String, String>, textra: BTreeMap<String, String>, iextra: BTreeMap<String, String>, raw: BTreeMap<String, String>, clients: BTreeMap<String, String> }

fn parse_specs(dir: &str, prop: &str) -> std::result::Result<Specs, String> {
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "spec")).collect();
    files.sort();
    let mut out = Specs::default();
    for f in files {
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        let mut cur: Option<Spec> = None;
        // (section, argument, text)
        let mut sec: Option<(String, String, String)> = None;
        // [C22] TEXT is there for that property only
        let mut lines: Vec<String> = each(&text).into_iter().filter_map(|l| match l.strip_prefix('[').and_then(|r| r.split_once("] ")) {
            Some((p, t)) if p.starts_with('C') => if p == prop { Some(t.to_string()) } else { None },
            _ => Some(l),
        }).collect();
        lines.push("%end".into());
        for l in lines {
            if let Some(r) = l.strip_prefix('%') {
                if r.starts_with('#') { continue }
                if let Some((s, a, t)) = sec.take() {
                    match s.as_str() {
                        // %raw MODULE [only Cxx ...]: lemmas that only those properties need
                        "raw" => {
                            let w: Vec<&str> = a.split_whitespace().collect();
                            if w.len() < 3 || w[2..].contains(&prop) { out.raw.entry(w[0].to_string()).or_default().push_str(&t) }
                        }
                        "client" => out.clients.entry(a).or_default().push_str(&t),
                        "super" => { out.supers.insert(a, t.trim().to_string()); }
                        "traitextra" => out.textra.entry(a).or_default().push_str(&t),
                        "implextra" => out.iextra.entry(a).or_default().push_str(&t),
                        _ => {
                            let c = cur.as_mut().ok_or_else(|| format!("{}: section outside %fn: {}", f.display(), s))?;
                            match s.as_str() {
                                "requires" => c.requires.push_str(&t),
                                "ensures" => c.ensures.push_str(&t),
                                "loop" => c.loops.entry(a.parse().unwrap()).or_default().push_str(&t),
                                "decreases" => if a.is_empty() { c.decreases.push_str(&t) } else { c.decr.entry(a.parse().unwrap()).or_default().push_str(&t) },
                                "at" => c.at.entry(a).or_default().push_str(&t),
                                "attr" => c.attr.push_str(&t),
                                _ => return Err(format!("{}: unknown section %{}", f.display(), s)),
                            }
                        }
                    }
                }
                let (w, a) = match r.split_once(' ') { Some((w, a)) => (w.to_string(), a.trim().to_string()), None => (r.trim().to_string(), String::new()) };
                match w.as_str() {
                    "fn" | "end" | "raw" | "client" | "super" | "traitextra" | "implextra" => {
                        if let Some(c) = cur.take() { if out.fns.insert(c.key.clone(), c.clone()).is_some() { return Err(format!("two contracts for {}", c.key)) } }
                        if w == "fn" { cur = Some(Spec { key: a, ..Default::default() }) } else if w != "end" { sec = Some((w, a, String::new())) }
                    }
                    "props" => cur.as_mut().unwrap().props = a.split_whitespace().map(|s| s.to_string()).collect(),
                    "params" => cur.as_mut().unwrap().params = a.split_whitespace().map(|s| s.to_string()).collect(),
                    "type" => { let (n, t) = a.split_once(' ').ok_or("bad %type")?; cur.as_mut().unwrap().types.push((n.to_string(), t.to_string())) }
                    "generic" => cur.as_mut().unwrap().generic = Some(a),
                    "cutafter" => cur.as_mut().unwrap().cut = a,
                    "trusted" => cur.as_mut().unwrap().trusted = true,
                    _ => sec = Some((w, a, String::new())),
                }
            } else if let Some(s) = sec.as_mut() { s.2.push_str(&l); s.2.push('\n') }
            else if !l.trim().is_empty() && !l.starts_with("//") { return Err(format!("{}: text outside a section: {}", f.display(), l)) }
        }
    }
    Ok(out)
}

/// %each A,B u8,u16 u8,u32 ... up to %endeach: the text once per tuple, with $A and $B replaced
fn each(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Option<(Vec<String>, Vec<Vec<String>>, Vec<String>)> = None;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("%each ") {
            let mut w = r.split_whitespace();
            let names: Vec<String> = w.next().unwrap_or("").split(',').map(|x| format!("${}", x)).collect();
            let tuples: Vec<Vec<String>> = w.map(|t| t.split(',').map(|x| x.to_string()).collect()).collect();
            cur = Some((names, tuples, vec![]));
        } else if l.trim() == "%endeach" {
            if let Some((names, tuples, body)) = cur.take() {
                for t in tuples { for b in &body { let mut b = b.clone(); for (n, v) in names.iter().zip(&t) { b = b.replace(n.as_str(), v) } out.push(b) } }
            }
        } else if let Some(c) = cur.as_mut() { c.2.push(l.to_string()) } else { out.push(l.to_string()) }
    }
    out
}

const CRATE_TRAITS: &[&str] = &["SizedPolynomial", "MutablePolynomial", "FreeSizePolynomial", "Evaluable", "Derivable", "Integrable", "GenericPolynomial"];
fn op(t: &str) -> Option<(&'static str, bool)> {
    Some(match t {
        "Add" => ("add", false), "Sub" => ("sub", false), "Mul" => ("mul", false), "Div" => ("div", false), "Rem" => ("rem", false), "Neg" => ("neg", false),
        "Shl" => ("shl", false), "Shr" => ("shr", false),
        "AddAssign" => ("add_assign", true), "SubAssign" => ("sub_assign", true), "MulAssign" => ("mul_assign", true), "DivAssign" => ("div_assign", true),
        "RemAssign" => ("rem_assign", true), "ShlAssign" => ("shl_assign", true), "ShrAssign" => ("shr_assign", true),
        _ => return None,
    })
}

/// Type and path rewriting: crate traits lose their N, `impl Iterator<Item = X>` becomes It<X>, f64 becomes N where asked.
struct Ty { f64n: bool }
impl VisitMut for Ty {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if self.f64n && p.is_ident("f64") { *p = parse_quote!(N) }
        let last = p.segments.last_mut().unwrap();
        if last.ident == "From" { last.ident = Ident::new("VFrom", last.ident.span()) }
        if last.ident == "PartialEq" { last.ident = Ident::new("VPartialEq", last.ident.span()) }
        if last.ident == "Display" { last.ident = Ident::new("VDisplay", last.ident.span()) }
        if last.ident == "FromStr" { last.ident = Ident::new("VFromStr", last.ident.span()) }
        if last.ident == "Iterator" { last.ident = Ident::new("VIterator", last.ident.span()) }
        if last.ident == "String" { last.ident = Ident::new("VString", last.ident.span()) }
        if last.ident == "Formatter" { last.ident = Ident::new("Fmt", last.ident.span()); last.arguments = PathArguments::None }
        let n = p.segments.len();
        if n > 1 && p.segments[n - 2].ident == "fmt" {
            if p.segments[n - 1].ident == "Result" { *p = parse_quote!(FmtResult) } else { let s = p.segments[n - 1].clone(); *p = Path::from(s) }
        }
        let last = p.segments.last_mut().unwrap();
        if CRATE_TRAITS.contains(&last.ident.to_string().as_str()) {
            if let PathArguments::AngleBracketed(a) = &mut last.arguments {
                let rest: Vec<GenericArgument> = a.args.iter().skip(1).cloned().collect();
                if rest.is_empty() { last.arguments = PathArguments::None } else { a.args = rest.into_iter().collect() }
            }
        }
        if p.segments.len() > 1 && (p.segments[0].ident == "crate" || p.segments[0].ident == "core" || p.segments[0].ident == "alloc") {
            // keep the last one or two segments: everything is in scope
            let n = p.segments.len();
            let keep = if p.segments[n - 1].ident.to_string().chars().next().unwrap().is_lowercase() && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() { 2 } else { 1 };
            let s: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
            p.segments = s.into_iter().collect();
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = t {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args { if let GenericArgument::AssocType(x) = g { let mut y = x.ty.clone(); self.visit_type_mut(&mut y); *t = parse_quote!(It<#y>); return } }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
}
/// Renders a type for a key: without <N>.
fn tkey(t: &Type) -> String { t.to_token_stream().to_string().replace(' ', "").replace("<N>", "").replace("<'a>", "").replace("N,", "") }

fn gens(g: &Generics) -> String {
    let mut v = vec![];
    for p in &g.params {
        match p {
            GenericParam::Type(t) if t.ident != "N" => {
                let mut b: Vec<String> = vec![];
                let mut bounds = t.bounds.clone();
                for x in bounds.iter_mut() {
                    Ty { f64n: false }.visit_type_param_bound_mut(x);
                    let s = x.to_token_stream().to_string();
                    if s == "Clone" { b.push("VClone".into()) } else { b.push(s) }
                }
                v.push(if b.is_empty() { t.ident.to_string() } else { format!("{}: {}", t.ident, b.join(" + ")) });
            }
            GenericParam::Lifetime(l) => v.push(l.lifetime.to_string()),
            _ => {}
        }
    }
    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { *p = parse_quote!(self_) } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = sub(m.tokens.clone(), "self", "self_");
    }
}
fn sub(t: proc_macro2::TokenStream, a: &str, b: &str) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
        TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), sub(g.stream(), a, b))),
        x => x,
    }).collect()
}
struct RenameVar<'a>(&'a BTreeMap<String, String>);
impl VisitMut for RenameVar<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()) } }
    fn visit_macro_mut(&mut self, m: &mut Macro) { for (a, b) in self.0 { m.tokens = sub(m.tokens.clone(), a, b) } }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) { self.visit_expr_mut(&mut m.receiver); for a in m.args.iter_mut() { self.visit_expr_mut(a) } }
    fn visit_path_mut(&mut self, p: &mut Path) { if p.segments.len() == 1 && matches!(p.segments[0].arguments, PathArguments::None) { self.visit_ident_mut(&mut p.segments[0].ident) } else { for s in p.segments.iter_mut() { self.visit_path_arguments_mut(&mut s.arguments) } } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()) }
        self.visit_expr_mut(&mut f.expr)
    }
}

/// A do-nothing numeric statement, an unused let or the like needs no special care; comments are gone after parsing.
fn nl(s: &str) -> String { s.replace("; ", ";\n").replace("{ ", "{\n").replace("} ", "}\n").replace("}\n else", "} else").replace("}\n )", "})").replace("}\n ;", "};").replace("}\n ,", "},") }

struct Closures(usize);
impl VisitMut for Closures { fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) { self.0 += 1 } }

struct Out<'a> { specs: &'a mut Specs, prop: String, stubs: BTreeSet<String>, text: String, report: Vec<serde_json::Value>, module: String, f64n: bool, machine: bool }

impl Out<'_> {
    fn line(&self) -> usize { self.text.lines().count() + 1 }

    /// Emits one function under its contract. kind: 0 free or inherent, 1 trait impl of a crate trait, 2 operator impl,
    /// 3 trait declaration, 4 other trait impl, 5 private free function
    fn func(&mut self, key: &str, sig: &Signature, body: Option<&Block>, kind: u8, in_eq: bool) {
        let mut spec = match self.specs.fns.get_mut(key) { Some(s) => { s.used = true; s.clone() } None => Spec::default() };
        let mine = spec.props.iter().any(|p| *p == self.prop) && !spec.trusted;
        let stub = self.stubs.contains(key);
        let bare = self.stubs.contains(&format!("bare:{}", key));
        if bare { spec.loops.clear(); spec.decr.clear(); spec.at.retain(|k, _| k == "fn.start") }
        let mut sig = sig.clone();
        let mut pre: Vec<Stmt> = vec![];
        let mut body = body.cloned();
        let mut errs: Vec<String> = vec![];
        Ty { f64n: self.f64n }.visit_signature_mut(&mut sig);
        if let Some(b) = body.as_mut() {
            // what follows the named call is dropped: an unknown value stands for its result
            let (cut, not) = match spec.cut.split_once(" but ") { Some((c, p)) => (c.to_string(), p.to_string()), None => (spec.cut.clone(), String::new()) };
            if !cut.is_empty() && self.prop != not {
                match b.stmts.iter().position(|x| { let t = format!(" {} ", x.to_token_stream()); t.contains(&format!(" {} ", cut)) }) {
                    Some(i) => { b.stmts.truncate(i + 1); b.stmts.push(Stmt::Expr(parse_quote!(v_any()), None)) }
                    None => errs.push(format!("no call of {}", cut)),
                }
            }
            Ty { f64n: self.f64n }.visit_block_mut(b)
        }
        if key.contains(" as From") && !key.contains(" as FromStr") { sig.ident = Ident::new("v_from", sig.ident.span()) }
        // parameters
        let mut ren: BTreeMap<String, String> = BTreeMap::new();
        let mut k = 0;
        let mut self_ref = false;
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    self_ref = r.reference.is_some() && r.mutability.is_none();
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        pre.push(parse_quote!(let mut self_ = self;));
                        if let Some(b) = body.as_mut() { RenameSelf.visit_block_mut(b) }
                    }
                }
                FnArg::Typed(t) => {
                    if let Pat::Ident(i) = &mut *t.pat {
                        if let Some(n) = spec.params.get(k) { if i.ident != n { ren.insert(i.ident.to_string(), n.clone()); i.ident = Ident::new(n, i.ident.span()); } }
                        if i.mutability.take().is_some() {
                            let id = &i.ident;
                            let g = quote::format_ident!("{}__0", id);
                            pre.push(parse_quote!(__ghost!(#g = #id);));
                            pre.push(parse_quote!(let mut #id = #id;));
                        }
                    } else { errs.push("pattern parameter".into()) }
                    k += 1;
                }
            }
        }
        if !spec.params.is_empty() && spec.params.len() != k { errs.push(format!("{} parameters, the contract names {}", k, spec.params.len())) }
        if !ren.is_empty() { if let Some(b) = body.as_mut() { RenameVar(&ren).visit_block_mut(b) } }
        let mut low = Low::new(self_ref);
        low.in_eq = in_eq;
        low.floatlits = self.f64n;
        low.machine = self.machine;
        low.float = self.machine && (key.starts_with("<f32 as ") || key.starts_with("<f64 as ")) && !key.contains("TryFromUsize");
        for a in &sig.inputs { if let FnArg::Typed(t) = a { if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.elem.to_token_stream().to_string() == "str" { low.strs.insert(i.ident.to_string()); } } } }
        for a in &sig.inputs { if let FnArg::Typed(t) = a { let mut t = t.clone(); lower::Bound(&mut low.bound).visit_pat_type_mut(&mut t) } }
        if let Some(b) = body.as_mut() { lower::Bound(&mut low.bound).visit_block_mut(b) }
        let has_body = body.is_some();
        // a final return of a value is the value
        if let Some(b) = body.as_mut() {
            let e = match b.stmts.last() { Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _)) => Some((**e).clone()), _ => None };
            if let Some(e) = e { b.stmts.pop(); b.stmts.push(Stmt::Expr(e, None)) }
        }
        if let Some(b) = body.as_mut() { low.visit_block_mut(b) }
        errs.extend(low.errs.iter().cloned());
        let closures = { let mut c = Closures(0); if let Some(b) = body.as_mut() { c.visit_block_mut(b) } c.0 };
        let verify = has_body && mine && !stub && errs.is_empty();
        let start = self.line();
        // text
        let mut t = String::new();
        if has_body && !verify { t.push_str("#[verifier::external_body]\n") }
        if verify { t.push_str("#[verifier::loop_isolation(false)]\n"); t.push_str(&spec.attr) }
        if kind == 0 { t.push_str("pub ") }
        let inputs = &sig.inputs;
        let mut fg = gens(&sig.generics);
        if let (Some(b), true) = (&spec.generic, sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident == "N"))) { fg = format!("<N{}>", b) }
        let _ = write!(t, "fn {}{}({})", sig.ident, fg, inputs.to_token_stream());
        if let ReturnType::Type(_, ty) = &sig.output { let _ = write!(t, " -> (r: {})", ty.to_token_stream()); }
        t.push('\n');
        if kind != 2 && !spec.requires.trim().is_empty() && kind != 1 && kind != 4 { let _ = write!(t, "    requires\n{}", spec.requires); }
        if !spec.ensures.trim().is_empty() { let _ = write!(t, "    ensures\n{}", spec.ensures); }
        if verify && !spec.decreases.trim().is_empty() { let _ = write!(t, "    decreases {}", spec.decreases); }
        if !has_body { t.push_str(";\n") }
        else if !verify { t.push_str("{ unimplemented!() }\n") }
        else {
            let b = body.unwrap();
            let mut stmts = b.stmts.clone();
            let mut fend = spec.at.get("fn.end").cloned().unwrap_or_default();
            // the probe of vacuity: at the end of the body, or of the loop that the body ends with and never leaves but by return
            let vacuity = std::env::var("EXTRACT_VACUITY").is_ok();
            let endless = endless(&stmts);
            if vacuity && !endless { fend.push_str("\nproof { assert(false); /* __vacuity */ }\n") }
            let mut tail = String::new();
            if !fend.is_empty() {
                if let Some(Stmt::Expr(e, None)) = stmts.last().cloned() {
                    stmts.pop();
                    if matches!(sig.output, ReturnType::Default) { tail = format!("{};\n{}", e.to_token_stream(), fend) } else { tail = format!("let r = {};\n{}\nr", e.to_token_stream(), fend) }
                } else { tail = fend.clone() }
            }
            let mut s = String::new();
            for p in &pre { s.push_str(&p.to_token_stream().to_string()); s.push(' ') }
            s.push_str("__at ! (\"fn.start\") ; ");
            for l in &low.lits { let _ = write!(s, "proof {{ reveal_strlit({:?}) ; }} ", l); }
            for p in &stmts { s.push_str(&p.to_token_stream().to_string()); s.push(' ') }
            s.push_str(&tail);
            let mut s = nl(&s);
            for (n, ty) in &spec.types { s = s.replace(&format!("let mut {} =", n), &format!("let mut {}: {} =", n, ty)) }
            // ghost copies
            while let Some(i) = s.find("__ghost ! (") {
                let j = s[i..].find(')').unwrap() + i;
                let inner = s[i + 11..j].to_string();
                s = format!("{}let ghost {}{}", &s[..i], inner, &s[j + 1..]);
            }
            // a contract's collection __cN that the source does not have: the one vector its loop pushes to
            let mut ren: Vec<(String, String)> = vec![];
            for (k, x) in &spec.loops {
                for w in x.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| w.len() > 3 && w.starts_with("__c") && w[3..].chars().all(|c| c.is_ascii_digit())) {
                    if s.contains(w) || ren.iter().any(|(a, _)| a == w) { continue }
                    let (b, e) = (s.find(&format!("__at ! (\"loop.{}\")", k)), s.find(&format!("__at ! (\"loop.{}.end\")", k)));
                    if let (Some(b), Some(e)) = (b, e) {
                        let to: BTreeSet<&str> = s[b..e].match_indices(" . push (").map(|(i, _)| s[..b + i].rsplit(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("")).collect();
                        if to.len() == 1 { let v = to.into_iter().next().unwrap(); if !v.is_empty() { ren.push((w.to_string(), v.to_string())) } }
                    }
                }
            }
            for (a, b) in &ren {
                for x in spec.loops.values_mut().chain(spec.at.values_mut()) { *x = x.replace(a, b) }
            }
            // loops and proof texts
            for k in 0..low.loops {
                let m = format!("{{\n__at ! (\"loop.{}\") ;", k);
                if !s.contains(&m) { errs.push(format!("internal: marker of loop {}", k)); continue }
                let auto = low.auto.contains(&k);
                let mut inv = String::new();
                let own = if auto { format!("    __i{0} <= __s{0}.s().len(),\n", k) } else { String::new() };
                match spec.loops.get(&k) {
                    Some(x) if x.trim_start().starts_with("invariant") => inv.push_str(&x.replacen("    invariant\n", &format!("    invariant\n{}", own), 1)),
                    Some(x) => { inv.push_str(&own); inv.push_str(x) }
                    None => inv.push_str(&own),
                }
                let mut c = String::new();
                if !inv.trim().is_empty() { let _ = write!(c, "\n{}{}", if inv.trim_start().starts_with("invariant") { "" } else { "    invariant\n" }, inv); }
                if let Some(d) = spec.decr.get(&k) { let _ = write!(c, "    decreases {}", d); } else if auto { let _ = write!(c, "    decreases __s{0}.s().len() - __i{0},\n", k); }
                s = s.replacen(&m, &format!("{}{{", c), 1);
            }
            if vacuity && endless {
                if let Some(i) = s.rfind(".end\") ;") { s.insert_str(i + 8, "\nproof { assert(false); /* __vacuity */ }\n") }
            }
            let mut done = String::new();
            let mut rest = s.as_str();
            while let Some(i) = rest.find("__at ! (\"") {
                done.push_str(&rest[..i]);
                let j = i + 9;
                let e = rest[j..].find('"').unwrap() + j;
                let name = &rest[j..e];
                if let Some(x) = spec.at.get(name) { done.push('\n'); done.push_str(x) }
                rest = &rest[e + 1..];
                rest = rest.strip_prefix(") ;").unwrap_or(rest);
            }
            done.push_str(rest);
            let _ = write!(t, "{{\n{}\n}}\n", done);
        }
        self.text.push_str(&t);
        let end = self.line();
        self.report.push(json!({"key": key, "module": self.module, "start": start, "end": end, "mine": mine, "verified": verify, "stub": stub, "errs": errs, "loops": low.headers, "closures": closures, "has_contract": !spec.key.is_empty(), "trusted": spec.trusted && spec.props.iter().any(|p| *p == self.prop), "body": has_body}));
    }
}

/// Whether the statements end with a loop without a condition.
fn endless(stmts: &[Stmt]) -> bool {
    match stmts.iter().rev().find(|s| !matches!(s, Stmt::Macro(_)) && !matches!(s, Stmt::Expr(Expr::Macro(_), _))) {
        Some(Stmt::Expr(Expr::Loop(_), _)) => true,
        Some(Stmt::Expr(Expr::Block(b), _)) => endless(&b.block.stmts),
        _ => false,
    }
}

/// Inlines the functions, and the constants, that have no contract.
fn inline_helpers(srcs: &mut Vec<mac::Src>, keys: &BTreeSet<String>) {
    let mut h = inline::Helpers::default();
    for s in srcs.iter() {
        for i in &s.items {
            match i {
                Item::Fn(f) if !keys.contains(&format!("{}::{}", s.module, f.sig.ident)) => { h.free.insert((s.module.clone(), f.sig.ident.to_string()), inline::Helper { sig: f.sig.clone(), block: (*f.block).clone() }); }
                Item::Const(c) => { h.consts.insert((s.module.clone(), c.ident.to_string()), (*c.expr).clone()); }
                Item::Impl(x) if x.trait_.is_none() => for f in &x.items { if let ImplItem::Fn(f) = f {
                    let t = tkey(&x.self_ty);
                    if !keys.contains(&format!("{}::{}", t, f.sig.ident)) { h.inherent.insert((t, f.sig.ident.to_string()), inline::Helper { sig: f.sig.clone(), block: f.block.clone() }); }
                } },
                _ => {}
            }
        }
    }
    for s in srcs.iter_mut() {
        let mut imports = BTreeMap::new();
        for i in &s.items { if let Item::Use(u) = i { for (m, n) in uses(&u.tree, vec![]) { imports.insert(n, m); } } }
        let module = s.module.clone();
        let new = |ty: String| inline::Inline { h: &h, module: module.clone(), imports: imports.clone(), ty, taken: BTreeSet::new(), depth: 0, n: 0 };
        for i in s.items.iter_mut() {
            match i {
                Item::Fn(f) if keys.contains(&format!("{}::{}", module, f.sig.ident)) => new(String::new()).body(&f.sig.clone(), &mut f.block),
                Item::Impl(x) => { let t = tkey(&x.self_ty); for f in x.items.iter_mut() { if let ImplItem::Fn(f) = f { new(t.clone()).body(&f.sig.clone(), &mut f.block) } } }
                Item::Trait(x) => for f in x.items.iter_mut() { if let TraitItem::Fn(f) = f { if let Some(b) = f.default.as_mut() { new(String::new()).body(&f.sig.clone(), b) } } },
                _ => {}
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let fail = |m: String| -> ! { eprintln!("extract: {}", m); std::process::exit(4) };
    let (mut srcs, rules) = mac::load(std::path::Path::new(&a[1])).unwrap_or_else(|e| fail(e));
    let mut specs = parse_specs(&a[2], a.get(5).map_or("", |s| s.as_str())).unwrap_or_else(|e| fail(e));
    // Functions of our own that call the crate's macros: what is verified is the expansion.
    for s in srcs.iter_mut() {
        if let Some(t) = specs.clients.get(&s.module) {
            let f = syn::parse_file(t).unwrap_or_else(|e| fail(format!("client of {}: {}", s.module, e)));
            for mut i in f.items {
                let mut x = mac::Expand { rules: &rules, errs: vec![] };
                x.visit_item_mut(&mut i);
                // one that does not expand any more is lost, not the whole run
                if x.errs.is_empty() { s.items.push(i) }
            }
        }
    }
    inline_helpers(&mut srcs, &specs.fns.keys().cloned().collect());
    let prelude = std::fs::read_to_string(format!("{}/prelude.rs", a[2])).unwrap_or_else(|e| fail(e.to_string()));
    let machine = std::path::Path::new(&format!("{}/MACHINE", a[2])).exists();
    let stubs: BTreeSet<String> = a[6..].iter().cloned().collect();
    // Which methods of the crate's traits have a contract.
    let tm: BTreeSet<String> = specs.fns.keys().filter(|k| CRATE_TRAITS.iter().any(|t| k.starts_with(&format!("{}::", t)))).cloned().collect();
    let mods: Vec<String> = srcs.iter().map(|s| s.module.clone()).collect();
    let raw = specs.raw.clone();
    let (supers, textra, iextra) = (specs.supers.clone(), specs.textra.clone(), specs.iextra.clone());
    let skip = ["lib", "mod", "macros", "array_polynomial"];
    let mut o = Out { specs: &mut specs, prop: a[5].clone(), stubs, text: prelude, report: vec![], module: String::new(), f64n: false, machine };
    let all_keys: BTreeSet<String> = o.specs.fns.keys().cloned().collect();
    for s in &srcs {
        if skip.contains(&s.module.as_str()) { continue }
        o.module = s.module.clone();
        o.f64n = s.module == "find_roots" && !machine;
        let _ = write!(o.text, "pub mod {} {{\nuse vstd::prelude::*;\nuse crate::pre::*;\n", s.module);
        if !machine && !raw.get(&s.module).map_or(false, |r| r.contains("\nbroadcast use") || r.starts_with("broadcast use")) { o.text.push_str("broadcast use {vec_len_ax, slice_len_ax, slice2_len_ax};\n") }
        for m in &mods { if m != &s.module && !skip.contains(&m.as_str()) { let _ = write!(o.text, "use crate::{}::*;\n", m); } }
        // explicit imports of functions
        for i in &s.items { if let Item::Use(u) = i { for (m, n) in uses(&u.tree, vec![]) { if mods.contains(&m) && all_keys.contains(&format!("{}::{}", m, n)) { let _ = write!(o.text, "use crate::{}::{};\n", m, n); } } } }
        if let Some(r) = raw.get(&s.module) { o.text.push_str(r) }
        for i in &s.items {
            match i {
                Item::Struct(x) => {
                    if x.ident == "TermTokenizer" && machine { continue }
                    let ps: Vec<String> = x.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), GenericParam::Lifetime(l) => Some(l.lifetime.to_string()), _ => None }).collect();
                    let g = if ps.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) };
                    let mut f = vec![];
                    for y in &x.fields { let mut t = y.ty.clone(); Ty { f64n: false }.visit_type_mut(&mut t); f.push(format!("pub {}: {}", y.ident.as_ref().unwrap(), t.to_token_stream())) }
                    let rej: String = ps.iter().filter(|p| !p.starts_with('\'')).map(|p| format!("#[verifier::reject_recursive_types({})]\n", p)).collect();
                    let _ = write!(o.text, "{}pub struct {}{} {{ {} }}\n", rej, x.ident, g, f.join(", "));
                }
                Item::Enum(x) => {
                    let mut y = x.clone();
                    let copy = y.ident == "TryAddError" || y.ident == "Degree";
                    y.attrs.clear();
                    for v in y.variants.iter_mut() { v.attrs.clear() }
                    y.vis = parse_quote!(pub);
                    Ty { f64n: s.module == "find_roots" }.visit_item_enum_mut(&mut y);
                    if copy { o.text.push_str("#[derive(Clone, Copy)]\n") }
                    for p in &y.generics.params { if let GenericParam::Type(t) = p { let _ = write!(o.text, "#[verifier::reject_recursive_types({})]\n", t.ident); } }
                    let _ = write!(o.text, "{}\n", y.to_token_stream());
                    // the derived comparison
                    if copy { let n = &y.ident; let _ = write!(o.text, "impl PartialEq for {n} {{\n#[verifier::external_body]\nfn eq(&self, other: &Self) -> bool {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}\n"); }
                }
                Item::Trait(x) => {
                    let n = x.ident.to_string();
                    if !CRATE_TRAITS.contains(&n.as_str()) || n == "GenericPolynomial" { continue }
                    let g = gens(&x.generics);
                    let sup = supers.get(&n).cloned().unwrap_or("Sized".into());
                    let _ = write!(o.text, "pub trait {}{}: {} {{\n{}", n, g, sup, textra.get(&n).cloned().unwrap_or_default());
                    for m in &x.items { if let TraitItem::Fn(f) = m {
                        let key = format!("{}::{}", n, f.sig.ident);
                        if tm.contains(&key) { o.func(&key, &f.sig, f.default.as_ref(), 3, false) }
                    } }
                    o.text.push_str("}\n");
                }
                Item::Fn(x) => {
                    let key = format!("{}::{}", s.module, x.sig.ident);
                    if all_keys.contains(&key) { o.func(&key, &x.sig, Some(&x.block), if matches!(x.vis, Visibility::Inherited) { 5 } else { 0 }, false) }
                }
                Item::Impl(x) => imp(&mut o, x, &all_keys, &tm, &iextra),
                _ => {}
            }
        }
        o.text.push_str("}\n");
    }
    o.text.push_str("} // verus!\nfn main() {}\n");
    let missing: Vec<String> = o.specs.fns.values().filter(|s| !s.used && s.props.iter().any(|p| *p == a[5])).map(|s| s.key.clone()).collect();
    o.text = prune(&o.text);
    std::fs::write(&a[3], &o.text).unwrap_or_else(|e| fail(e.to_string()));
    std::fs::write(&a[4], json!({"functions": o.report, "missing": missing}).to_string()).unwrap_or_else(|e| fail(e.to_string()));
}

/// Lemmas no emitted text calls, directly or through other lemmas, are left out (blank lines keep the numbering).
fn prune(text: &str) -> String {
    let lines: Vec<&str> = text.lines().collect();
    let head = |l: &str| { let mut l = l; while l.starts_with("#[") { match l.find(']') { Some(i) => l = l[i + 1..].trim_start(), None => break } } l.strip_prefix("pub proof fn ").map(|r| r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>()) };
    let starts = |l: &str| l.is_empty() || l == "}" || ["pub ", "#[", "//", "proof ", "spec ", "impl", "broadcast", "use ", "} //"].iter().any(|p| l.starts_with(p));
    let words = |l: &str| { let l = l.split("//").next().unwrap(); l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect::<BTreeSet<String>>() };
    let (mut lemmas, mut rest): (Vec<(String, usize, usize, BTreeSet<String>)>, BTreeSet<String>) = (vec![], BTreeSet::new());
    let mut i = 0;
    while i < lines.len() {
        match head(lines[i]) {
            Some(n) => {
                let (mut d, mut j) = (0i64, i);
                let mut w = BTreeSet::new();
                loop {
                    let code = lines[j].split("//").next().unwrap();
                    d += code.chars().map(|c| match c { '{' | '(' => 1, '}' | ')' => -1, _ => 0 }).sum::<i64>();
                    w.extend(words(lines[j]));
                    if d == 0 && code.trim_end().ends_with('}') && lines.get(j + 1).map_or(true, |l| starts(l)) { break }
                    j += 1;
                    if j >= lines.len() { return text.to_string() }
                }
                let mut from = i;
                while from > 0 && lines[from - 1].starts_with("#[") { from -= 1 }
                lemmas.push((n, from, j, w));
                i = j + 1;
            }
            None => { rest.extend(words(lines[i])); i += 1 }
        }
    }
    let mut seen = rest;
    let mut keep = vec![false; lemmas.len()];
    loop {
        let mut more = false;
        for (k, l) in lemmas.iter().enumerate() { if !keep[k] && seen.contains(&l.0) { keep[k] = true; more = true; seen.extend(l.3.iter().cloned()) } }
        if !more { break }
    }
    let mut out: Vec<&str> = lines.clone();
    for (k, l) in lemmas.iter().enumerate() { if !keep[k] { for x in l.1..=l.2 { out[x] = "" } } }
    out.join("\n") + "\n"
}

fn uses(t: &UseTree, pre: Vec<String>) -> Vec<(String, String)> {
    match t {
        UseTree::Path(p) => { let mut v = pre; v.push(p.ident.to_string()); uses(&p.tree, v) }
        UseTree::Name(n) => pre.last().map(|m| (m.clone(), n.ident.to_string())).into_iter().collect(),
        UseTree::Group(g) => g.items.iter().flat_map(|x| uses(x, pre.clone())).collect(),
        _ => vec![],
    }
}

fn imp(o: &mut Out, x: &ItemImpl, keys: &BTreeSet<String>, tm: &BTreeSet<String>, iextra: &BTreeMap<String, String>) {
    let mut ty = (*x.self_ty).clone();
    let ts = tkey(&ty);
    o.f64n = !o.machine && (o.module == "find_roots" || ts.ends_with("<f64>"));
    Ty { f64n: o.f64n }.visit_type_mut(&mut ty);
    let fns: Vec<&ImplItemFn> = x.items.iter().filter_map(|i| if let ImplItem::Fn(f) = i { Some(f) } else { None }).collect();
    match &x.trait_ {
        None => {
            let sel: Vec<&&ImplItemFn> = fns.iter().filter(|f| keys.contains(&format!("{}::{}", ts, f.sig.ident))).collect();
            if sel.is_empty() { return }
            let _ = write!(o.text, "impl{} {} {{\n", gens(&x.generics), ty.to_token_stream());
            for f in &sel { if let Some(b) = o.specs.fns[&format!("{}::{}", ts, f.sig.ident)].generic.clone() { let k = o.text.rfind("impl").unwrap(); o.text.truncate(k); let _ = write!(o.text, "impl<N{}> {} {{\n", b, ty.to_token_stream()); } }
            for f in sel { o.func(&format!("{}::{}", ts, f.sig.ident), &f.sig, Some(&f.block), 0, false) }
            o.text.push_str("}\n");
        }
        Some((_, path, _)) => {
            let orig = path.segments.last().unwrap().ident.to_string();
            let mut p = path.clone();
            Ty { f64n: o.f64n && o.module == "find_roots" }.visit_path_mut(&mut p);
            let n = p.segments.len();
            let lastseg = p.segments[n - 1].clone();
            let tk = lastseg.to_token_stream().to_string().replace(' ', "").replace("<N>", "\u{1}").replace('\u{1}', if op(&orig).is_some() && lastseg.to_token_stream().to_string().replace(' ', "") == format!("{}<N>", orig) { "<N>" } else { "" }).replace("N,", "").replace("VFrom", "From").replace("VPartialEq", "PartialEq").replace("VDisplay", "Display").replace("VFromStr", "FromStr").replace("VIterator", "Iterator");
            let pre = format!("<{} as {}>", ts, tk);
            let crate_trait = CRATE_TRAITS.contains(&orig.as_str());
            let sel: Vec<&&ImplItemFn> = fns.iter().filter(|f| if crate_trait { tm.contains(&format!("{}::{}", orig, f.sig.ident)) } else { keys.contains(&format!("{}::{}", pre, f.sig.ident)) }).collect();
            if sel.is_empty() { return }
            let _ = write!(o.text, "impl{} {} for {} {{\n", gens(&x.generics), lastseg.to_token_stream(), ty.to_token_stream());
            for i in &x.items { if let ImplItem::Type(t) = i { let mut t = t.clone(); Ty { f64n: false }.visit_impl_item_type_mut(&mut t); let _ = write!(o.text, "{}\n", t.to_token_stream()); } }
            if let Some(e) = iextra.get(&pre) { o.text.push_str(e) }
            let opx = op(&orig);
            for f in &sel {
                o.func(&format!("{}::{}", pre, f.sig.ident), &f.sig, Some(&f.block), if crate_trait { 1 } else if opx.is_some() { 2 } else { 4 }, orig == "PartialEq");
            }
            o.text.push_str("}\n");
            if let Some((f, assign)) = opx {
                let key = format!("{}::{}", pre, f);
                let req = o.specs.fns.get(&key).map(|s| s.requires.trim().to_string()).unwrap_or_default();
                let req = if req.is_empty() { "true".to_string() } else { req.split(",\n").map(|l| format!("({})", l.trim().trim_end_matches(','))).collect::<Vec<_>>().join(" && ") };
                // fully qualified argument
                let rhs = match &lastseg.arguments { PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string(), _ => ty.to_token_stream().to_string() };
                let param = o.specs.fns.get(&key).and_then(|s| s.params.first().cloned()).unwrap_or("rhs".into());
                let t = ty.to_token_stream();
                let out = x.items.iter().find_map(|i| if let ImplItem::Type(t) = i { Some(t.ty.to_token_stream().to_string()) } else { None }).unwrap_or_default();
                let _ = if f == "neg" { write!(o.text, "impl NegSpecImpl for {t} {{ open spec fn obeys_neg_spec() -> bool {{ false }} open spec fn neg_req(self) -> bool {{ {req} }} uninterp spec fn neg_spec(self) -> {out}; }}\n") }
                else if assign { write!(o.text, "impl {orig}SpecImpl<{rhs}> for {t} {{ open spec fn obeys_{f}_spec() -> bool {{ false }} open spec fn {f}_req(&self, {param}: {rhs}) -> bool {{ {req} }} uninterp spec fn {f}_spec(&self, {param}: {rhs}) -> &Self; }}\n") }
                else { write!(o.text, "impl {orig}SpecImpl<{rhs}> for {t} {{ open spec fn obeys_{f}_spec() -> bool {{ false }} open spec fn {f}_req(self, {param}: {rhs}) -> bool {{ {req} }} uninterp spec fn {f}_spec(self, {param}: {rhs}) -> {out}; }}\n") };
            }
        }
    }
}
