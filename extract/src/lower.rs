//! Lowers a function body to the subset the verifier accepts. Every rule is a local, meaning-preserving
//! rewriting; the rules are listed in DESIGN.md ("what the extraction changes").
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Low {
    pub loops: usize,
    pub fresh: usize,
    /// collections and verdicts have a count of their own, so that the names in contracts do not depend on other temporaries
    pub accs: usize,
    pub errs: Vec<String>,
    pub self_ref: bool,
    pub calls: Vec<String>,
    /// loops that come from an iteration (they carry their own counter)
    pub auto: Vec<usize>,
    pub headers: Vec<String>,
    /// inside PartialEq::eq: == becomes v_eqv
    pub in_eq: bool,
    pub floatlits: bool,
    /// concrete machine types instead of N: casts and bit counts go through the contracts of the machine prelude
    pub machine: bool,
    /// the machine type is a float: its operators go through the contracts of the machine prelude
    pub float: bool,
    /// string literals of the body
    pub lits: std::collections::BTreeSet<String>,
    /// parameters of type &str
    pub strs: std::collections::BTreeSet<String>,
    /// local closures that only compute a value: inlined where they are called
    clos: std::collections::BTreeMap<String, ExprClosure>,
    /// how often a name is bound in the function
    pub bound: std::collections::BTreeMap<String, usize>,
    alias: std::collections::BTreeMap<String, (Expr, Expr, Option<Expr>)>,
}

fn ident(s: &str) -> Ident { format_ident!("{}", s) }
fn px(s: String) -> Expr { parse_str(&s).unwrap_or_else(|e| panic!("internal: {} in {}", e, s)) }

#[derive(Clone)]
pub struct MutAt { path: Vec<usize>, base: Expr }

/// Methods that only make sense on iterators.
const ITER_HEADS: &[&str] = &["iter", "iter_mut", "into_iter", "enumerate", "zip", "rev", "chunks_exact", "ordered_term_iter", "chars", "char_indices", "copied", "cloned", "skip", "take", "filter_map", "filter"];

fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) if is_opt(e) => { let _ = m; false }
        Expr::MethodCall(m) => ITER_HEADS.contains(&m.method.to_string().as_str()) || (m.method == "map" && is_iter(&m.receiver)),
        Expr::Call(c) => { let s = c.func.to_token_stream().to_string().replace(' ', ""); s.ends_with("iter::repeat") || s == "repeat" || s.ends_with("TermTokenizer::new") }
        Expr::Paren(p) => is_iter(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}
/// Calls that give an Option.
const OPT_HEADS: &[&str] = &["get", "get_mut", "first", "last", "first_mut", "last_mut", "pop", "next", "remove", "strip_prefix", "checked_add", "checked_sub", "checked_mul", "checked_neg", "checked_div"];
fn is_opt(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            OPT_HEADS.contains(&n.as_str()) || (matches!(n.as_str(), "copied" | "cloned" | "filter" | "map" | "and_then" | "or" | "or_else") && is_opt(&m.receiver))
        }
        Expr::Paren(p) => is_opt(&p.expr),
        _ => false,
    }
}
fn entry(e: &Expr) -> Option<(Expr, Expr, Expr)> {
    let d = match e { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => &*u.expr, _ => return None };
    let m = match d { Expr::MethodCall(m) if m.method == "or_insert" || m.method == "or_insert_with" => m, _ => return None };
    match &*m.receiver { Expr::MethodCall(q) if q.method == "entry" => Some(((*q.receiver).clone(), q.args[0].clone(), value(&m.method.to_string(), &m.args[0]))), _ => None }
}
/// the value or_insert or or_insert_with puts there
fn value(n: &str, a: &Expr) -> Expr {
    if n == "or_insert" { return a.clone() }
    match closure(a) { Some(c) if c.inputs.is_empty() => (*c.body).clone(), _ => parse_quote!(#a()) }
}
fn leaves(e: &Expr) -> bool { let t = e.to_token_stream(); t.to_string().contains('?') || idents(t).iter().any(|x| x == "return") }
/// a decimal literal as a fraction
fn ratio(t: &str) -> Option<(u64, u64)> {
    let t = t.replace('_', "").to_lowercase();
    let (m, e) = match t.split_once('e') { Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?), None => (t, 0) };
    let (i, f) = m.split_once('.').unwrap_or((&m, ""));
    let n: u64 = format!("{}{}", i, f).parse().ok()?;
    let e = e - f.len() as i32;
    if e >= 0 { Some((n.checked_mul(10u64.checked_pow(e as u32)?)?, 1)) } else { Some((n, 10u64.checked_pow((-e) as u32)?)) }
}
fn closure(e: &Expr) -> Option<&ExprClosure> { if let Expr::Closure(c) = e { Some(c) } else { None } }

fn pat_at<'a>(p: &'a mut Pat, path: &[usize]) -> Option<&'a mut Pat> {
    match path.split_first() {
        None => Some(p),
        Some((s, rest)) => match p {
            Pat::Paren(q) => pat_at(&mut q.pat, path),
            Pat::Tuple(t) if t.elems.len() == 2 => pat_at(&mut t.elems[*s], rest),
            _ => None,
        },
    }
}

impl Low {
    pub fn new(self_ref: bool) -> Self { Low { loops: 0, fresh: 0, accs: 0, errs: vec![], self_ref, calls: vec![], auto: vec![], headers: vec![], in_eq: false, floatlits: false, machine: false, float: false, lits: Default::default(), strs: Default::default(), clos: Default::default(), bound: Default::default(), alias: Default::default() } }
    fn err(&mut self, s: impl Into<String>) { self.errs.push(s.into()) }
    fn name(&mut self, p: &str) -> Ident {
        if p == "c" || p == "b" { self.accs += 1; return format_ident!("__{}{}", p, self.accs) }
        self.fresh += 1; format_ident!("__{}{}", p, self.fresh)
    }

    /// Removes reference patterns: `&x` becomes `x__r` and `let x = *x__r;`.
    pub fn pat(&mut self, p: &mut Pat, binds: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                match &*r.pat {
                    Pat::Wild(_) => { *p = parse_quote_pat(quote!(_)); }
                    Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                        let n = format_ident!("{}__r", i.ident);
                        let id = i.ident.clone();
                        let m = i.mutability;
                        binds.push(parse_quote!(let #m #id = *#n;));
                        *p = parse_quote_pat(quote!(#n));
                    }
                    inner => {
                        let n = self.name("p");
                        let mut inner = inner.clone();
                        let mut b2 = vec![];
                        self.pat(&mut inner, &mut b2);
                        binds.push(parse_quote!(let #inner = *#n;));
                        binds.extend(b2);
                        *p = parse_quote_pat(quote!(#n));
                    }
                }
            }
            Pat::Tuple(t) => for x in t.elems.iter_mut() { self.pat(x, binds) },
            Pat::TupleStruct(t) => for x in t.elems.iter_mut() { self.pat(x, binds) },
            Pat::Paren(t) => self.pat(&mut t.pat, binds),
            Pat::Struct(t) => for x in t.fields.iter_mut() { self.pat(&mut x.pat, binds) },
            Pat::Or(t) => { let n = binds.len(); for x in t.cases.iter_mut() { self.pat(x, binds) } if binds.len() > n { self.err("reference pattern inside an or-pattern") } }
            Pat::Type(t) => self.pat(&mut t.pat, binds),
            Pat::Ident(i) => { if i.by_ref.is_some() || i.subpat.is_some() { self.err("ref or @ pattern") } }
            _ => {}
        }
    }

    /// Splits `X`, `X[a..]`, `X[a..b]`, `X[..b]` into base and bounds.
    fn place(&mut self, e: &Expr) -> (Expr, Option<(Expr, Option<Expr>)>) {
        match e {
            Expr::Paren(p) => self.place(&p.expr),
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.alias.contains_key(&i.to_string())) => {
                let (b, lo, hi) = self.alias[&p.path.get_ident().unwrap().to_string()].clone();
                (b, Some((lo, hi)))
            }
            Expr::Index(i) => if let Expr::Range(r) = &*i.index {
                let lo = r.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| px("0usize".into()));
                if matches!(r.limits, RangeLimits::Closed(_)) { self.err("closed range in a slice") }
                ((*i.expr).clone(), Some((lo, r.end.as_ref().map(|x| (**x).clone()))))
            } else { (e.clone(), None) },
            _ => (e.clone(), None),
        }
    }
    fn simple(e: &Expr) -> bool {
        match e { Expr::Path(_) => true, Expr::Field(f) => Self::simple(&f.base), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && Self::simple(&u.expr), Expr::Paren(p) => Self::simple(&p.expr), _ => false }
    }

    /// Rewrites an iterator chain to the eager `It` library; a mutable source becomes the iteration over its
    /// positions, and the place it stands for is returned.
    fn chain(&mut self, e: &Expr, mutat: &mut Option<MutAt>) -> Expr {
        if let Expr::Paren(p) = e { return self.chain(&p.expr, mutat) }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            match n.as_str() {
                "iter_mut" if m.args.is_empty() => {
                    let (base, rng) = self.place(&m.receiver);
                    let mut base = base;
                    self.visit_expr_mut(&mut base);
                    if !Self::simple(&base) { self.err("iter_mut on a computed place") }
                    *mutat = Some(MutAt { path: vec![], base: base.clone() });
                    return match rng {
                        None => parse_quote!(#base.v_mut_keys()),
                        Some((mut lo, hi)) => {
                            self.visit_expr_mut(&mut lo);
                            match hi {
                                None => parse_quote!(v_idx(#lo, #base.len(), #base.len())),
                                Some(mut hi) => { self.visit_expr_mut(&mut hi); parse_quote!(v_idx(#lo, #hi, #base.len())) }
                            }
                        }
                    };
                }
                "zip" if m.args.len() == 1 => {
                    let (mut a, mut b) = (None, None);
                    let l = self.chain(&m.receiver, &mut a);
                    let r = self.chain(&m.args[0], &mut b);
                    if a.is_some() && b.is_some() { self.err("zip of two mutable iterators") }
                    if let Some(x) = a { *mutat = Some(MutAt { path: [vec![0], x.path].concat(), base: x.base }) }
                    if let Some(x) = b { *mutat = Some(MutAt { path: [vec![1], x.path].concat(), base: x.base }) }
                    return parse_quote!(#l.zip(v_into(#r)));
                }
                "enumerate" if m.args.is_empty() && is_iter(&m.receiver) => {
                    let mut a = None;
                    let l = self.chain(&m.receiver, &mut a);
                    if let Some(x) = a { *mutat = Some(MutAt { path: [vec![1], x.path].concat(), base: x.base }) }
                    return parse_quote!(#l.enumerate());
                }
                "rev" | "skip" | "take" | "step_by" if is_iter(&m.receiver) => {
                    if n == "take" { if let Expr::Call(c) = &*m.receiver { let f = c.func.to_token_stream().to_string().replace(' ', ""); if f.ends_with("iter::repeat") || f == "repeat" {
                        let (mut x, mut k) = (c.args[0].clone(), m.args[0].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut k);
                        return parse_quote!(v_repeat(#x, #k));
                    } } }
                    let l = self.chain(&m.receiver, mutat);
                    let mut args = m.args.clone();
                    for a in args.iter_mut() { self.visit_expr_mut(a) }
                    let id = &m.method;
                    return parse_quote!(#l.#id(#args));
                }
                _ => {}
            }
        }
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        e
    }

    /// for PAT in E { BODY }
    fn for_loop(&mut self, label: Option<Label>, pat: &Pat, e: &Expr, body: Vec<Stmt>) -> Expr {
        let k = self.loops;
        self.loops += 1;
        self.auto.push(k);
        self.headers.push(format!("for {} in {}", pat.to_token_stream(), e.to_token_stream()));
        let mut mutat = None;
        let it = self.chain(e, &mut mutat);
        let mut pat = pat.clone();
        let mut binds: Vec<Stmt> = vec![];
        if let Some(m) = mutat {
            if pat_at(&mut pat, &m.path).is_none() { self.err("pattern does not name the mutable component") }
            let path: &[usize] = if pat_at(&mut pat, &m.path).is_none() { &[] } else { &m.path };
            let cur = pat_at(&mut pat, path).unwrap().clone();
            let n = format_ident!("__m{}", k);
            let base = &m.base;
            match cur {
                Pat::Ident(i) => { let id = i.ident; binds.push(parse_quote!(let #id = &mut #base[#n];)) }
                Pat::Wild(_) => {}
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    if let Pat::Reference(r) = &t.elems[0] { let q = &r.pat; binds.push(parse_quote!(let #q = #n;)) }
                    else if let Pat::Ident(q) = &t.elems[0] { let q = &q.ident; binds.push(parse_quote!(let #q = &#n;)) }
                    if let Pat::Ident(q) = &t.elems[1] { let q = &q.ident; binds.push(parse_quote!(let #q = #base.get_mut(&#n).v_unwrap();)) }
                }
                _ => self.err("pattern of a mutable iteration"),
            }
            *pat_at(&mut pat, path).unwrap() = parse_quote_pat(quote!(#n));
        }
        let mut refs = vec![];
        self.pat(&mut pat, &mut refs);
        let (s, i) = (format_ident!("__s{}", k), format_ident!("__i{}", k));
        let mut body = Block { brace_token: Default::default(), stmts: body };
        self.visit_block_mut(&mut body);
        let stmts = body.stmts;
        let (inv, st, en, af, be) = (format!("loop.{}", k), format!("loop.{}.start", k), format!("loop.{}.end", k), format!("loop.{}.after", k), format!("loop.{}.before", k));
        parse_quote!({
            let #s = v_into(#it);
            let mut #i: usize = 0;
            __at!(#be);
            #label while #i < #s.len() {
                __at!(#inv);
                let #pat = #s.get(#i);
                #i = #i + 1;
                #(#refs)*
                #(#binds)*
                __at!(#st);
                #(#stmts)*
                __at!(#en);
            }
            __at!(#af);
        })
    }

    /// match S { [..] => .., } on a slice: a chain of comparisons of the length and the literal components
    fn slice_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) { return None }
        if !Self::simple(&m.expr) { self.err("match of a computed slice"); return None }
        let s = &m.expr;
        let mut out: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            if a.guard.is_some() { self.err("guard in a slice match") }
            let mut body = (*a.body).clone();
            self.visit_expr_mut(&mut body);
            match &a.pat {
                Pat::Wild(_) => { out = Some(parse_quote!({ #body })) }
                Pat::Slice(p) => {
                    let n = p.elems.len();
                    let mut conds: Vec<Expr> = vec![];
                    let mut binds: Vec<Stmt> = vec![];
                    let mut open = false;
                    for (i, e) in p.elems.iter().enumerate() {
                        match e {
                            Pat::Wild(_) => {}
                            Pat::Ident(id) if id.subpat.is_none() => { let id = &id.ident; binds.push(parse_quote!(let #id = &#s[#i];)) }
                            Pat::Rest(_) if i + 1 == n => open = true,
                            Pat::Ident(id) if i + 1 == n && matches!(id.subpat.as_ref().map(|x| &*x.1), Some(Pat::Rest(_))) => { open = true; let id = &id.ident; binds.push(parse_quote!(let #id = v_tail(#s, #i);)) }
                            Pat::Tuple(t) => for (k, f) in t.elems.iter().enumerate() {
                                let k = Index::from(k);
                                match f {
                                    Pat::Wild(_) => {}
                                    Pat::Ident(id) if id.subpat.is_none() => { let id = &id.ident; binds.push(parse_quote!(let #id = &#s[#i].#k;)) }
                                    Pat::Lit(l) => conds.push(parse_quote!(#s[#i].#k == #l)),
                                    _ => self.err("component pattern in a slice match"),
                                }
                            },
                            _ => self.err("element pattern in a slice match"),
                        }
                    }
                    let len: Expr = if open { let k = n - 1; parse_quote!(#s.len() >= #k) } else { parse_quote!(#s.len() == #n) };
                    let c: Expr = conds.into_iter().fold(len, |a, b| parse_quote!(#a && #b));
                    let els = out.take().unwrap_or_else(|| parse_quote!({ v_panic() }));
                    out = Some(parse_quote!({ if #c { #(#binds)* #body } else #els }));
                }
                _ => self.err("pattern in a slice match"),
            }
        }
        out
    }

    fn is_strvar(&self, e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.strs.contains(&i.to_string()))) }
    fn clos_body(c: &ExprClosure) -> Expr { (*c.body).clone() }
    fn clos_pat(&mut self, c: &ExprClosure, i: usize) -> Pat {
        match c.inputs.get(i) { Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone(), None => { self.err("closure without parameter"); parse_quote_pat(quote!(_)) } }
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &*m.receiver;
        let a0 = m.args.first();
        let it = is_iter(r);
        // the isolator's answers without the errors
        if n == "flatten" && self.floatlits && r.to_token_stream().to_string().contains("find_roots_sturm") {
            let x = self.name("x");
            let e: Expr = parse_quote!(#r.filter_map(|#x| #x.ok()));
            if let Expr::MethodCall(m) = e { return self.method(&m) }
        }
        // a path of a method in the place of a closure
        if let Some(Expr::Path(p)) = a0 {
            if n == "filter_map" && p.path.segments.len() == 2 && p.path.segments[0].ident == "Result" && p.path.segments[1].ident == "ok" {
                let mut m = m.clone();
                m.args = std::iter::once::<Expr>(parse_quote!(|__ok| __ok.ok())).collect();
                return self.method(&m);
            }
        }
        if n == "ok" && m.args.is_empty() {
            let x = self.name("x");
            let mut e: Expr = parse_quote!(match #r { Ok(#x) => Some(#x), Err(_) => None });
            self.visit_expr_mut(&mut e);
            return Some(e);
        }
        match (n.as_str(), a0.and_then(closure)) {
            ("for_each", Some(c)) => {
                let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                return Some(self.for_loop(None, &p, r, vec![Stmt::Expr(b, Some(Default::default()))]));
            }
            ("map", Some(c)) if it => {
                let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                let v = self.name("c");
                let l = self.for_loop(None, &p, r, vec![parse_quote!(#v.push(#b);)]);
                return Some(parse_quote!({ let mut #v = Vec::new(); #l; v_into(#v) }));
            }
            ("filter_map", Some(c)) => {
                let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                let v = self.name("c");
                let x = self.name("x");
                let l = self.for_loop(None, &p, r, vec![parse_quote!(match #b { Some(#x) => { #v.push(#x); } None => {} })]);
                return Some(parse_quote!({ let mut #v = Vec::new(); #l; v_into(#v) }));
            }
            ("filter", Some(c)) if it => {
                let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                let v = self.name("c");
                let x = self.name("x");
                let l = self.for_loop(None, &parse_quote_pat(quote!(#x)), r, vec![parse_quote!({ let #p = &#x; if #b { #v.push(#x); } })]);
                return Some(parse_quote!({ let mut #v = Vec::new(); #l; v_into(#v) }));
            }
            ("all", Some(c)) | ("any", Some(c)) => {
                let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                let v = self.name("b");
                let l = if n == "all" { self.for_loop(None, &p, r, vec![parse_quote!(if !(#b) { #v = false; break; })]) }
                    else { self.for_loop(None, &p, r, vec![parse_quote!(if #b { #v = true; break; })]) };
                let init = n == "all";
                return Some(parse_quote!({ let mut #v = #init; #l; #v }));
            }
            // M.retain(|k, v| C): the entries for which C holds, in a new map that takes the place of M
            ("retain", Some(c)) if c.inputs.len() == 2 && !leaves(&c.body) && Self::simple(r) => {
                let (p, q, b) = (self.clos_pat(c, 0), self.clos_pat(c, 1), Self::clos_body(c));
                let (v, x, y) = (self.name("c"), self.name("x"), self.name("y"));
                let l = self.for_loop(None, &parse_quote_pat(quote!((#x, #y))), &parse_quote!(#r.iter()), vec![parse_quote!({ let #p = #x; let #q = #y; if #b { #v.insert(*#x, *#y); } })]);
                return Some(parse_quote!({ let mut #v = BTreeMap::new(); #l; #r = #v; }));
            }
            ("map" | "and_then" | "is_some_and" | "filter", Some(c)) if !it && !leaves(&c.body) => {
                let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                let from = r.to_token_stream().to_string();
                let x = self.name("x");
                let mut e: Expr = match n.as_str() {
                    "map" if !is_opt(r) && (from.contains("from_str") || from.contains("parse") || from.contains("try_")) => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(#x) => Err(#x) }),
                    "map" => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
                    "and_then" => parse_quote!(match #r { Some(#p) => #b, None => None }),
                    "is_some_and" => parse_quote!(match #r { Some(#p) => #b, None => false }),
                    _ => parse_quote!(match #r { Some(#x) => { let #p = &#x; if #b { Some(#x) } else { None } } None => None }),
                };
                self.visit_expr_mut(&mut e);
                return Some(e);
            }
            ("unwrap_or_else" | "ok_or_else" | "or_else", Some(c)) if c.inputs.is_empty() && !leaves(&c.body) => {
                let b = Self::clos_body(c);
                let x = self.name("x");
                let mut e: Expr = match n.as_str() {
                    "unwrap_or_else" => parse_quote!(match #r { Some(#x) => #x, None => #b }),
                    "ok_or_else" => parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#b) }),
                    _ => parse_quote!(match #r { Some(#x) => Some(#x), None => #b }),
                };
                self.visit_expr_mut(&mut e);
                return Some(e);
            }
            ("unwrap_or" | "ok_or" | "copied" | "cloned", None) if is_opt(r) && n != "clone" && !r.to_token_stream().to_string().contains("strip_prefix") => {
                let x = self.name("x");
                let mut e: Expr = match n.as_str() {
                    "unwrap_or" => parse_quote!(match #r { Some(#x) => #x, None => #a0 }),
                    "ok_or" => parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#a0) }),
                    _ => parse_quote!(match #r { Some(#x) => Some(*#x), None => None }),
                };
                self.visit_expr_mut(&mut e);
                return Some(e);
            }
            ("or_insert" | "or_insert_with", _) => {
                // M.entry(K).and_modify(|p| B).or_insert(V), for its effect
                if let Expr::MethodCall(a) = r {
                    if let (true, Expr::MethodCall(q), Some(c)) = (a.method == "and_modify", &*a.receiver, a.args.first().and_then(closure)) {
                        if q.method == "entry" && !leaves(&c.body) {
                            let (map, key, p, b, v) = (&q.receiver, &q.args[0], self.clos_pat(c, 0), Self::clos_body(c), value(&n, &m.args[0]));
                            let k = self.name("k");
                            let mut e: Expr = parse_quote!({ let #k = #key; match #map.get_mut(&#k) { Some(#p) => { #b; } None => { #map.insert(#k, #v); } } });
                            self.visit_expr_mut(&mut e);
                            return Some(e);
                        }
                    }
                }
                self.err("map entry");
            }
            ("map_or", None) if m.args.len() == 2 => {
                if let Some(c) = closure(&m.args[1]) {
                    let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c));
                    let d = &m.args[0];
                    let mut e: Expr = parse_quote!(match #r { Some(#p) => #b, None => #d });
                    self.visit_expr_mut(&mut e);
                    return Some(e);
                }
            }
            ("fold", None) if m.args.len() == 2 => {
                if let Some(c) = closure(&m.args[1]) {
                    let (acc, p, b) = (self.clos_pat(c, 0), self.clos_pat(c, 1), Self::clos_body(c));
                    let mut init = m.args[0].clone();
                    self.visit_expr_mut(&mut init);
                    if let Pat::Ident(a) = &acc {
                        let a = &a.ident;
                        let l = self.for_loop(None, &p, r, vec![parse_quote!(#a = #b;)]);
                        return Some(parse_quote!({ let mut #a = #init; #l; #a }));
                    }
                    self.err("fold with a pattern accumulator");
                }
            }
            ("map_err", c) if m.args.len() == 1 => {
                let v = self.name("x");
                let mut x: Expr = match c {
                    Some(c) => { let (p, b) = (self.clos_pat(c, 0), Self::clos_body(c)); parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }) }
                    None => { let (w, f) = (self.name("x"), &m.args[0]); parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#w) => Err(#f(#w)) }) }
                };
                self.visit_expr_mut(&mut x);
                return Some(x);
            }
            _ => {}
        }
        if a0.and_then(closure).is_some() { return None }
        match n.as_str() {
            "zip" | "enumerate" | "rev" | "skip" | "take" | "step_by" if it => {
                let mut mu = None;
                let e = self.chain(&Expr::MethodCall(m.clone()), &mut mu);
                if mu.is_some() { self.err("mutable iterator used as a value") }
                return Some(e);
            }
            "iter_mut" => { self.err("mutable iterator used as a value"); }
            "drain" | "splice" => {
                let mut r = r.clone();
                self.visit_expr_mut(&mut r);
                if let Some(Expr::Range(g)) = a0 {
                    let mut lo = g.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| px("0usize".into()));
                    self.visit_expr_mut(&mut lo);
                    let mut hi: Expr = match &g.end { Some(x) => (**x).clone(), None => parse_quote!(#r.len()) };
                    self.visit_expr_mut(&mut hi);
                    if matches!(g.limits, RangeLimits::Closed(_)) { self.err("closed range") }
                    if n == "drain" { return Some(parse_quote!(#r.v_drain(#lo, #hi))) }
                    let mut mu = None;
                    let x = self.chain(&m.args[1], &mut mu);
                    return Some(parse_quote!(#r.v_splice(#lo, #hi, v_into(#x))));
                }
            }
            "extend" => {
                let mut r = r.clone();
                self.visit_expr_mut(&mut r);
                let mut mu = None;
                let x = self.chain(a0?, &mut mu);
                return Some(parse_quote!(#r.v_extend(v_into(#x))));
            }
            "into_iter" => { let mut r = r.clone(); self.visit_expr_mut(&mut r); return Some(parse_quote!(v_into(#r))) }
            "expect" | "unwrap" => { let mut r = r.clone(); self.visit_expr_mut(&mut r); return Some(parse_quote!(#r.v_unwrap())) }
            _ => {}
        }
        if n == "collect" && m.turbofish.as_ref().map_or(false, |t| t.args.to_token_stream().to_string() == "VString") {
            let mut q = m.clone();
            q.method = ident("v_collect_str");
            q.turbofish = None;
            visit_mut::visit_expr_method_call_mut(self, &mut q);
            return Some(Expr::MethodCall(q));
        }
        let to = match n.as_str() {
            "iter" => "v_iter", "to_vec" => "v_to_vec", "split_at" => "v_split_at", "split_last" => "v_split_last", "clone" => "v_clone", "collect" => "v_collect",
            "eq" => "v_eq", "chunks_exact" => "v_chunks_exact", "chars" => "v_chars", "char_indices" => "v_char_indices", "is_whitespace" => "v_is_whitespace",
            "strip_prefix" => "v_strip_prefix", "trim_start_matches" => "v_trim_start_matches", "to_string" => "v_to_string",
            "leading_zeros" if self.machine => "v_leading_zeros", "count_zeros" if self.machine => "v_count_zeros", "abs" if self.machine => "v_abs", "sqrt" if self.machine => "v_sqrt", "max" if self.float => "v_max", "min" if self.float => "v_min", "acos" if self.float => "v_acos", "cos" if self.float => "v_cos", "cbrt" if self.float => "v_cbrt", "powi" if self.machine => "v_powi",
            _ => { self.calls.push(n); return None }
        };
        let mut q = m.clone();
        q.method = ident(to);
        q.turbofish = None;
        visit_mut::visit_expr_method_call_mut(self, &mut q);
        Some(Expr::MethodCall(q))
    }

    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "__at" => None,
            "vec" => {
                let t = m.tokens.clone();
                if t.is_empty() { return Some(parse_quote!(Vec::new())) }
                if let Ok(r) = parse2::<ExprRepeatBody>(t.clone()) {
                    let (mut a, mut b) = (r.0, r.1);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    return Some(parse_quote!(v_vec_repeat(#a, #b)));
                }
                let l = parse2::<List>(t).ok()?.0;
                let v = self.name("v");
                let mut st: Vec<Stmt> = vec![];
                for mut e in l { self.visit_expr_mut(&mut e); st.push(parse_quote!(#v.push(#e);)) }
                Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }))
            }
            "write" | "format" => {
                let mut l = parse2::<List>(m.tokens.clone()).ok()?.0.into_iter();
                let sink = if n == "write" { l.next() } else { None };
                let fmt = match l.next() { Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), _ => { self.err("format string"); return None } };
                let args: Vec<Expr> = l.collect();
                let pieces = match pieces(&fmt, &args) { Some(p) => p, None => { self.err(format!("format string {:?}", fmt)); return None } };
                let mut st: Vec<Stmt> = vec![];
                let mut ops: Vec<(bool, Expr)> = vec![];
                for p in pieces {
                    match p {
                        Ok(s) => { self.lits.insert(s.clone()); ops.push((false, parse_quote!(#s))) }
                        Err(mut e) => {
                            self.visit_expr_mut(&mut e);
                            let a = self.name("a");
                            st.push(parse_quote!(let #a = &(#e);));
                            ops.push((true, parse_quote!(#a)));
                        }
                    }
                }
                if let Some(mut f) = sink {
                    self.visit_expr_mut(&mut f);
                    let mut e: Expr = parse_quote!(v_wrote(#f));
                    for (show, x) in ops.into_iter().rev() {
                        let w: Expr = if show { parse_quote!(v_write(#f, #x)) } else { parse_quote!(v_write_lit(#f, #x)) };
                        e = parse_quote!(match #w { Ok(_) => { #e } Err(__e) => { Err(__e) } });
                    }
                    return Some(parse_quote!({ #(#st)* #e }));
                }
                let mut e: Expr = parse_quote!(v_empty());
                for (show, x) in ops { e = if show { parse_quote!(v_cat(#e, #x)) } else { parse_quote!(v_cat_lit(#e, #x)) } }
                Some(parse_quote!({ #(#st)* #e }))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(v_panic())),
            "assert" | "debug_assert" => {
                let l = parse2::<List>(m.tokens.clone()).ok()?.0;
                let mut c = l.into_iter().next()?;
                self.visit_expr_mut(&mut c);
                Some(parse_quote!(if !(#c) { v_panic() }))
            }
            "matches" => {
                let t = parse2::<MatchesBody>(m.tokens.clone()).ok()?;
                let (x, p, g) = (t.0, t.1, t.2);
                let g = g.map(|g| quote!(if #g));
                let mut e: Expr = parse_quote!(match #x { #p #g => true, _ => false });
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            _ => { self.err(format!("macro {}!", n)); None }
        }
    }
}

/// the pieces of a format string with nothing but {} and {name}: literal text, or the argument to display
fn pieces(f: &str, args: &[Expr]) -> Option<Vec<std::result::Result<String, Expr>>> {
    let (mut out, mut cur, mut k) = (vec![], String::new(), 0);
    let c: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '{' | '}' if c.get(i + 1) == Some(&c[i]) => { cur.push(c[i]); i += 2 }
            '}' => return None,
            '{' => {
                let j = (i..c.len()).find(|j| c[*j] == '}')?;
                let name: String = c[i + 1..j].iter().collect();
                let e: Expr = if name.is_empty() { k += 1; args.get(k - 1)?.clone() } else if let Ok(n) = name.parse::<usize>() { args.get(n)?.clone() } else { let id: Ident = parse_str(&name).ok()?; parse_quote!(#id) };
                if !cur.is_empty() { out.push(Ok(std::mem::take(&mut cur))) }
                out.push(Err(e));
                i = j + 1;
            }
            x => { cur.push(x); i += 1 }
        }
    }
    if !cur.is_empty() { out.push(Ok(cur)) }
    if args.iter().any(|a| matches!(a, Expr::Assign(_))) { return None }
    Some(out)
}
fn is_str(e: &Expr) -> bool { match e { Expr::Lit(l) => matches!(l.lit, Lit::Str(_)), Expr::Paren(p) => is_str(&p.expr), _ => false } }

fn idents(t: proc_macro2::TokenStream) -> Vec<String> {
    t.into_iter().flat_map(|x| match x { proc_macro2::TokenTree::Ident(i) => vec![i.to_string()], proc_macro2::TokenTree::Group(g) => idents(g.stream()), _ => vec![] }).collect()
}
pub struct ExprRepeatBody(Expr, Expr);
impl parse::Parse for ExprRepeatBody {
    fn parse(i: parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; Ok(ExprRepeatBody(a, i.parse()?)) }
}
pub struct MatchesBody(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesBody {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesBody(e, p, g))
    }
}
/// counts the names bound in a body
pub struct Bound<'a>(pub &'a mut std::collections::BTreeMap<String, usize>);
impl<'a> VisitMut for Bound<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { *self.0.entry(p.ident.to_string()).or_default() += 1; visit_mut::visit_pat_ident_mut(self, p) }
}
pub struct List(Vec<Expr>);
impl parse::Parse for List {
    fn parse(i: parse::ParseStream) -> Result<Self> { Ok(List(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?.into_iter().collect())) }
}
pub fn parse_quote_pat(t: proc_macro2::TokenStream) -> Pat {
    parse::Parser::parse2(Pat::parse_single, t).unwrap()
}

fn is_poly_ref(e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident("self")) }

impl VisitMut for Low {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                if let Expr::Range(_) = &*f.expr {
                    // native ranges: v_range(lo, hi)
                    if let Expr::Range(r) = (*f.expr).clone() {
                        match (&r.start, &r.end, &r.limits) {
                            (Some(a), Some(b), RangeLimits::HalfOpen(_)) => { let c: Expr = parse_quote!(v_range(#a, #b)); let x = self.for_loop(f.label.clone(), &f.pat, &c, f.body.stmts.clone()); *e = x; return }
                            _ => self.err("open or closed range in for"),
                        }
                    }
                }
                let x = self.for_loop(f.label.clone(), &f.pat, &f.expr, f.body.stmts.clone());
                *e = x;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                let (inv, st, en) = (format!("loop.{}", k), format!("loop.{}.start", k), format!("loop.{}.end", k));
                self.headers.push(format!("while {}", w.cond.to_token_stream()));
                let mut binds = vec![];
                if let Expr::Let(l) = &mut *w.cond { self.pat(&mut l.pat, &mut binds) }
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.visit_block_mut(&mut w.body);
                semi(&mut w.body.stmts);
                let (c, b, l) = (&w.cond, &w.body.stmts, &w.label);
                let (be, af) = (format!("loop.{}.before", k), format!("loop.{}.after", k));
                *e = parse_quote!({ __at!(#be); #l while #c { __at!(#inv); #(#binds)* __at!(#st); #(#b)* __at!(#en); } __at!(#af); });
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                let (inv, st, en) = (format!("loop.{}", k), format!("loop.{}.start", k), format!("loop.{}.end", k));
                self.headers.push("loop".into());
                self.visit_block_mut(&mut w.body);
                semi(&mut w.body.stmts);
                let b = w.body.stmts.clone();
                w.body.stmts = parse_quote!(__at!(#inv); __at!(#st); #(#b)* __at!(#en););
                let (be, af) = (format!("loop.{}.before", k), format!("loop.{}.after", k));
                *e = parse_quote!({ __at!(#be); #e; __at!(#af); });
            }
            Expr::MethodCall(m) if m.method == "len" && self.is_strvar(&m.receiver) => { let r = &m.receiver; *e = parse_quote!(v_str_len(#r)) }
            // the tolerance of the isolator, which it does not change (roots: impl Convergency for f64): passed by value
            Expr::Call(c) if c.args.len() == 2 && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |x| x.ident == "find_roots_sturm")) && matches!(&c.args[1], Expr::Reference(r) if r.mutability.is_some()) => {
                if let Expr::Reference(r) = c.args[1].clone() { c.args[1] = *r.expr }
                self.visit_expr_mut(e)
            }
            // a temporary that only the callee sees: passed by value
            Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Lit(_)) => { *e = (*r.expr).clone(); self.visit_expr_mut(e) }
            Expr::Reference(r) if matches!(&*r.expr, Expr::Index(i) if self.is_strvar(&i.expr)) => {
                if let Expr::Index(i) = (*r.expr).clone() {
                    let mut x = (*i.index).clone();
                    self.visit_expr_mut(&mut x);
                    let b = &i.expr;
                    *e = parse_quote!(v_slice(#b, #x));
                }
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                match self.method(&m) { Some(x) => *e = x, None => visit_mut::visit_expr_mut(self, e) }
            }
            Expr::Macro(m) => {
                if let Some(x) = self.mac(&m.mac.clone()) { *e = x }
            }
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.clos.contains_key(&i.to_string()))) => {
                let k = self.clos[&c.func.to_token_stream().to_string()].clone();
                let mut st: Vec<Stmt> = vec![];
                let mut set: Vec<Stmt> = vec![];
                for (p, a) in k.inputs.iter().zip(c.args.iter()) {
                    let mut a = a.clone();
                    self.visit_expr_mut(&mut a);
                    if k.inputs.len() == 1 { st.push(parse_quote!(let #p = #a;)); continue }
                    let t = self.name("t");
                    st.push(parse_quote!(let #t = #a;));
                    set.push(parse_quote!(let #p = #t;));
                }
                st.extend(set);
                let b = &k.body;
                *e = parse_quote!({ #(#st)* #b });
            }
            Expr::Cast(c) if self.machine => {
                self.visit_expr_mut(&mut c.expr);
                let (x, t) = (&c.expr, &c.ty);
                *e = parse_quote!(v_cast::<_, #t>(#x));
            }
            // <u8>::MAX, <u8>::zero(), <u8>::one()
            Expr::Path(p) if self.machine && p.qself.is_some() && p.path.segments.len() == 1 && p.qself.as_ref().unwrap().position == 0 => {
                let (t, s) = (&p.qself.as_ref().unwrap().ty, &p.path.segments[0]);
                *e = parse_quote!(#t::#s);
            }
            Expr::Call(c) if self.machine && c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "zero" || s.ident == "one")) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let t = match (&p.qself, p.path.segments.len()) { (Some(q), 1) => q.ty.to_token_stream().to_string(), (None, 2) => p.path.segments[0].ident.to_string(), _ => String::new() };
                    if ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&t.as_str()) { *e = px(format!("{}{}", if last == "zero" { 0 } else { 1 }, t)) }
                    else if t == "f32" || t == "f64" { *e = px(format!("<{} as VFloat>::v_{}()", t, last)) } else { self.err("zero or one of another type") }
                }
            }
            Expr::Call(c) if self.machine && c.func.to_token_stream().to_string().replace(' ', "") == "num::pow" => {
                c.func = Box::new(parse_quote!(v_num_pow));
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                if s.ends_with("iter::from_fn") || s == "from_fn" {
                    // from_fn(move || core::mem::take(&mut ITEM)): the option, once
                    if let Some(k) = c.args.first().and_then(closure) {
                        let b = k.body.to_token_stream().to_string().replace(' ', "");
                        if let Some(x) = b.strip_prefix("core::mem::take(&mut").or(b.strip_prefix("take(&mut")).and_then(|x| x.strip_suffix(')')) {
                            let id = ident(x);
                            *e = parse_quote!(v_once(#id));
                            return;
                        }
                    }
                    self.err("iter::from_fn");
                }
                // X::from is X::v_from for the crate's types
                if let Expr::Path(p) = &mut *c.func { if p.path.segments.len() == 2 && p.path.segments[1].ident == "from" && p.path.segments[0].ident != "N" { p.path.segments[1].ident = ident("v_from") } }
                if let Expr::Path(p) = &*c.func { self.calls.push(p.path.segments.last().unwrap().ident.to_string()) }
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) => {
                let m = m.clone();
                if let Some(x) = self.slice_match(&m) { *e = x }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    let mut b = vec![];
                    self.pat(&mut a.pat, &mut b);
                    if !b.is_empty() {
                        if a.guard.is_some() { self.err("guard with a reference pattern") }
                        let body = &a.body;
                        *a.body = parse_quote!({ #(#b)* #body });
                        a.comma = Some(Default::default());
                    }
                }
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut b = vec![];
                    self.pat(&mut l.pat, &mut b);
                    let s = &i.then_branch.stmts;
                    i.then_branch.stmts = parse_quote!(#(#b)* #(#s)*);
                }
                visit_mut::visit_expr_mut(self, e)
            }
            // *M.entry(K).or_insert(V) += X
            Expr::Binary(b) if entry(&b.left).is_some() && matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) => {
                let (map, key, init) = entry(&b.left).unwrap();
                let (o, x) = (&b.op, &b.right);
                let (k, v, w) = (self.name("k"), self.name("x"), self.name("y"));
                let mut q: Expr = parse_quote!({ let #k = #key; let #w = #x; match #map.get_mut(&#k) { Some(#v) => { *#v #o #w; } None => { let mut #v = #init; #v #o #w; #map.insert(#k, #v); } } });
                self.visit_expr_mut(&mut q);
                *e = q;
            }
            Expr::Binary(b) if self.float && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                // inside upow the comparison is one of usize
                if !idents(b.to_token_stream()).iter().any(|x| x == "self") { visit_mut::visit_expr_mut(self, e); return }
                let f = match b.op { BinOp::Lt(_) => "v_lt", BinOp::Le(_) => "v_le", BinOp::Gt(_) => "v_gt", BinOp::Ge(_) => "v_ge", BinOp::Eq(_) => "v_feq", BinOp::Ne(_) => "v_fne", BinOp::Div(_) => "v_div", _ => { self.err("float arithmetic"); return } };
                let f = ident(f);
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                if let Expr::Reference(x) = &r { r = (*x.expr).clone(); l = parse_quote!(*(#l)) }
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(VFloat::#f(#l, #r));
            }
            Expr::Unary(u) if self.float && matches!(u.op, UnOp::Neg(_)) => {
                self.visit_expr_mut(&mut u.expr);
                let x = &u.expr;
                *e = parse_quote!(VFloat::v_neg(#x));
            }
            // a > &b on numbers compares the numbers
            Expr::Binary(b) if self.machine && matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_)) && matches!(&*b.right, Expr::Reference(_)) => {
                if let Expr::Reference(r) = &*b.right { let (l, o, r) = (&b.left, &b.op, &r.expr); let mut x: Expr = parse_quote!(*(#l) #o (#r)); visit_mut::visit_expr_mut(self, &mut x); *e = x }
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => { self.lits.insert(s.value()); }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str(&b.left) || is_str(&b.right)) => {
                let ne = matches!(b.op, BinOp::Ne(_));
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                *e = if ne { parse_quote!(!v_str_eq(#l, #r)) } else { parse_quote!(v_str_eq(#l, #r)) };
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if self.float => {
                match f.base10_parse::<f64>() { Ok(x) if x.fract() == 0.0 && x < 1e9 => { let n = x as i32; *e = parse_quote!(VFloat::v_lit(#n)) } _ => self.err("float literal") }
            }
            Expr::Lit(ExprLit { lit: Lit::Int(f), .. }) if self.floatlits && f.suffix() == "f64" => {
                match f.base10_parse::<u64>() { Ok(0) => *e = parse_quote!(N::zero()), Ok(1) => *e = parse_quote!(N::one()), Ok(n) => *e = parse_quote!(N::v_ratio(#n, 1u64)), _ => self.err("float literal") }
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if self.floatlits => {
                match f.base10_parse::<f64>() { Ok(x) if x == 0.0 => *e = parse_quote!(N::zero()), Ok(x) if x == 1.0 => *e = parse_quote!(N::one()),
                    _ => match ratio(f.base10_digits()) { Some((n, d)) => *e = parse_quote!(N::v_ratio(#n, #d)), None => self.err("float literal") } }
            }
            Expr::Binary(b) if self.in_eq && matches!(b.op, BinOp::Eq(_)) => {
                visit_mut::visit_expr_mut(self, &mut b.left);
                visit_mut::visit_expr_mut(self, &mut b.right);
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!((#l).v_eqv(&(#r)));
            }
            Expr::Binary(b) if self.self_ref && matches!(b.op, BinOp::Mul(_)) && is_poly_ref(&b.left) => {
                visit_mut::visit_expr_mut(self, &mut b.left);
                visit_mut::visit_expr_mut(self, &mut b.right);
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(#l.mul(#r));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("__at") { return }
            if let Some(x) = self.mac(&m.mac.clone()) { *s = Stmt::Expr(x, m.semi_token); }
            return;
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                // let [a, b] = E;
                if let Pat::Slice(p) = &l.pat {
                    if let Some(i) = &l.init {
                        let mut e = (*i.expr).clone();
                        self.visit_expr_mut(&mut e);
                        if !Self::simple(&e) { self.err("slice pattern on a computed value") }
                        for (k, x) in p.elems.iter().enumerate() { out.push(parse_quote!(let #x = #e[#k];)) }
                        continue;
                    }
                }
                // let f = |x| E; with an E that names nothing but the parameters
                if let (Pat::Ident(id), Some(i)) = (&l.pat, &l.init) {
                    if let Expr::Closure(k) = &*i.expr {
                        let ps: Vec<String> = k.inputs.iter().map(|p| match p { Pat::Type(t) => t.pat.to_token_stream().to_string(), p => p.to_token_stream().to_string() }).collect();
                        // what it names has to mean the same where it is called: nothing of it is bound twice in the function
                        let only = idents(k.body.to_token_stream()).iter().all(|x| x != "return" && (ps.contains(x) || *self.bound.get(x).unwrap_or(&0) <= 1)) && !k.body.to_token_stream().to_string().contains('?')
                            && *self.bound.get(&id.ident.to_string()).unwrap_or(&0) <= 1;
                        if !only { self.err("local closure") }
                        if only { let mut k = k.clone(); self.visit_expr_mut(&mut k.body); self.clos.insert(id.ident.to_string(), k); continue }
                    }
                }
                // let (a, b) = X.split_at_mut(k);  a and b stand for X[..k] and X[k..]
                if let (Pat::Tuple(t), Some(i)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = &*i.expr {
                        if m.method == "split_at_mut" && t.elems.len() == 2 && m.args.len() == 1 {
                            let k = m.args[0].clone();
                            if !Self::simple(&k) || !Self::simple(&m.receiver) { self.err("split_at_mut at a computed place") }
                            for (j, e) in t.elems.iter().enumerate() {
                                if let Pat::Ident(id) = e {
                                    let v = if j == 0 { ((*m.receiver).clone(), px("0usize".into()), Some(k.clone())) } else { ((*m.receiver).clone(), k.clone(), None) };
                                    self.alias.insert(id.ident.to_string(), v);
                                }
                            }
                            let x = &m.receiver;
                            out.push(parse_quote!(v_split_ok(#x.len(), #k);));
                            continue;
                        }
                    }
                }
                let mut l = l.clone();
                // let x: String = ITER.collect()
                if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
                    if t.ty.to_token_stream().to_string().starts_with("Result <") {
                        if let Expr::MethodCall(m) = &mut *i.expr { if m.method == "collect" { m.method = ident("v_collect_result") } }
                    }
                    if t.ty.to_token_stream().to_string() == "VString" {
                        if let Expr::MethodCall(m) = &mut *i.expr { if m.method == "collect" { m.method = ident("v_collect_str") } }
                    }
                }
                let mut binds = vec![];
                self.pat(&mut l.pat, &mut binds);
                let mut s = Stmt::Local(l);
                self.visit_stmt_mut(&mut s);
                out.push(s);
                out.extend(binds);
                continue;
            }
            // a use inside a function brings into scope what already is
            if matches!(&s, Stmt::Item(Item::Use(u)) if !u.to_token_stream().to_string().contains(" as ")) { continue }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_item_mut(&mut self, _: &mut Item) { self.err("item inside a function") }
}

/// the value of a loop body is (): end its last expression with a semicolon
fn semi(b: &mut Vec<Stmt>) {
    if let Some(Stmt::Expr(_, t @ None)) = b.last_mut() { *t = Some(Default::default()) }
}
