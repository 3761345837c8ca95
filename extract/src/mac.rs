//! Reads the crate's source files and expands its own item macros.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use std::path::Path;
use syn::Item;

pub struct Arm { params: Vec<(String, String)>, body: TokenStream }
pub type Macros = BTreeMap<String, Vec<Arm>>;

fn arms(ts: TokenStream) -> Option<Vec<Arm>> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < t.len() {
        let pat = match &t[i] { TokenTree::Group(g) => g.stream(), _ => return None };
        // => { body }
        let body = match t.get(i + 3) { Some(TokenTree::Group(g)) => g.stream(), _ => return None };
        i += 4;
        if let Some(TokenTree::Punct(p)) = t.get(i) { if p.as_char() == ';' { i += 1 } }
        // $name : kind , ...
        let p: Vec<TokenTree> = pat.into_iter().collect();
        let mut params = vec![];
        let mut j = 0;
        let mut simple = true;
        while j < p.len() {
            match (&p[j], p.get(j + 1), p.get(j + 2), p.get(j + 3)) {
                (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k))) if d.as_char() == '$' && c.as_char() == ':' => {
                    params.push((n.to_string(), k.to_string()));
                    j += 4;
                    if let Some(TokenTree::Punct(c)) = p.get(j) { if c.as_char() == ',' { j += 1 } }
                }
                _ => { simple = false; break }
            }
        }
        if simple { out.push(Arm { params, body }) }
    }
    Some(out)
}

fn subst(ts: TokenStream, env: &BTreeMap<String, TokenStream>) -> TokenStream {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < t.len() {
        match (&t[i], t.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '$' => {
                if let Some(r) = env.get(&n.to_string()) { out.extend(r.clone()) } else { out.push(t[i + 1].clone()) }
                i += 2;
            }
            (TokenTree::Group(g), _) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), env));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
            }
            _ => { out.push(t[i].clone()); i += 1 }
        }
    }
    out.into_iter().collect()
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { out.push(cur.drain(..).collect()); continue } }
        cur.push(t);
    }
    if !cur.is_empty() { out.push(cur.into_iter().collect()) }
    out
}

fn expand(m: &Macros, name: &str, args: TokenStream) -> Option<Vec<Item>> {
    let a = split_commas(args);
    let arm = m.get(name)?.iter().find(|x| x.params.len() == a.len())?;
    let mut env = BTreeMap::new();
    for ((n, k), v) in arm.params.iter().zip(a) {
        let v = if k == "expr" || k == "ty" && v.clone().into_iter().count() > 1 { let mut g: TokenStream = TokenStream::new(); g.extend([TokenTree::Group(Group::new(Delimiter::None, v))]); g } else { v };
        env.insert(n.clone(), v);
    }
    let f: syn::File = syn::parse2(subst(arm.body.clone(), &env)).ok()?;
    Some(f.items)
}

fn attrs(i: &Item) -> &[syn::Attribute] {
    match i {
        Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs, Item::Macro(x) => &x.attrs, Item::Trait(x) => &x.attrs, Item::Use(x) => &x.attrs, _ => &[],
    }
}
/// Items under a cfg (tests, the hook) are not part of the library; optional features are taken as on.
fn cfged(i: &Item) -> bool { attrs(i).iter().any(|a| a.path().is_ident("cfg") && !matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().starts_with("feature ="))) }

/// The rules of a macro whose arms are not all plain parameter lists: pattern and body of each arm.
pub type Rules = BTreeMap<String, Vec<(Vec<TokenTree>, TokenStream)>>;

fn rules(ts: TokenStream) -> Vec<(Vec<TokenTree>, TokenStream)> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if let (TokenTree::Group(p), Some(TokenTree::Group(b))) = (&t[i], t.get(i + 3)) { out.push((p.stream().into_iter().collect(), b.stream())) }
        i += 4;
        if let Some(TokenTree::Punct(p)) = t.get(i) { if p.as_char() == ';' { i += 1 } }
    }
    out
}

#[derive(Default, Clone)]
struct Bind { one: BTreeMap<String, TokenStream>, many: BTreeMap<String, Vec<Bind>> }

fn is(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
/// a repetition at pattern position j: its inner tokens, its separator, its operator, and what follows it
fn repeat(p: &[TokenTree], j: usize) -> Option<(Vec<TokenTree>, Option<char>, char, usize)> {
    if !is(p.get(j), '$') { return None }
    let g = match p.get(j + 1) { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => g.stream().into_iter().collect(), _ => return None };
    let c = |k: usize| match p.get(k) { Some(TokenTree::Punct(q)) => Some(q.as_char()), _ => None };
    match (c(j + 2), c(j + 3)) {
        (Some(o), _) if o == '*' || o == '+' || o == '?' => Some((g, None, o, j + 3)),
        (Some(s), Some(o)) if o == '*' || o == '+' => Some((g, Some(s), o, j + 4)),
        _ => None,
    }
}
fn matches(p: &[TokenTree], t: &[TokenTree], mut i: usize, b: &mut Bind) -> Option<usize> {
    let mut j = 0;
    while j < p.len() {
        if let Some((inner, sep, o, next)) = repeat(p, j) {
            let mut all: Vec<Bind> = vec![];
            loop {
                let mut k = i;
                if !all.is_empty() { if let Some(s) = sep { if !is(t.get(k), s) { break } k += 1 } }
                let mut nb = Bind::default();
                match matches(&inner, t, k, &mut nb) { Some(e) if e > k => { i = e; all.push(nb) } _ => break }
            }
            if o == '+' && all.is_empty() { return None }
            let mut names = vec![];
            vars(&inner, &mut names);
            for n in names { b.many.insert(n, all.clone()); }
            j = next;
            continue;
        }
        match (&p[j], p.get(j + 1), p.get(j + 2), p.get(j + 3)) {
            (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(_))) if d.as_char() == '$' && c.as_char() == ':' => {
                // an expression ends at the next comma or semicolon
                let k = i;
                while i < t.len() && !is(t.get(i), ',') && !is(t.get(i), ';') { i += 1 }
                if i == k { return None }
                let mut g = TokenStream::new();
                g.extend([TokenTree::Group(Group::new(Delimiter::None, t[k..i].iter().cloned().collect()))]);
                b.one.insert(n.to_string(), g);
                j += 4;
            }
            (x, ..) => {
                if t.get(i).map(|y| y.to_string()) != Some(x.to_string()) { return None }
                i += 1;
                j += 1;
            }
        }
    }
    Some(i)
}
fn vars(p: &[TokenTree], out: &mut Vec<String>) {
    for j in 0..p.len() {
        if is(p.get(j), '$') { if let Some(TokenTree::Ident(n)) = p.get(j + 1) { out.push(n.to_string()) } }
        if let TokenTree::Group(g) = &p[j] { vars(&g.stream().into_iter().collect::<Vec<_>>(), out) }
    }
}
fn fill(ts: TokenStream, b: &Bind) -> TokenStream {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < t.len() {
        if let Some((inner, sep, _, next)) = repeat(&t, i) {
            let mut names = vec![];
            vars(&inner, &mut names);
            if let Some(all) = names.iter().find_map(|n| b.many.get(n)) {
                for (k, x) in all.iter().enumerate() {
                    if k > 0 { if let Some(s) = sep { out.push(TokenTree::Punct(proc_macro2::Punct::new(s, proc_macro2::Spacing::Alone))) } }
                    let mut y = b.clone();
                    y.one.extend(x.one.clone());
                    y.many.extend(x.many.clone());
                    out.extend(fill(inner.iter().cloned().collect(), &y));
                }
            }
            i = next;
            continue;
        }
        match (&t[i], t.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(n))) if p.as_char() == '$' => {
                if let Some(r) = b.one.get(&n.to_string()) { out.extend(r.clone()) } else { out.push(t[i + 1].clone()) }
                i += 2;
            }
            (TokenTree::Group(g), _) => {
                out.push(TokenTree::Group(Group::new(g.delimiter(), fill(g.stream(), b))));
                i += 1;
            }
            _ => { out.push(t[i].clone()); i += 1 }
        }
    }
    out.into_iter().collect()
}

/// Expands the crate's own macros where they are used as expressions.
pub struct Expand<'a> { pub rules: &'a Rules, pub errs: Vec<String> }
impl syn::visit_mut::VisitMut for Expand<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "vec" {
                // the elements are expressions of their own
                return;
            }
            if let Some(rs) = self.rules.get(&n) {
                let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                for (p, body) in rs {
                    let mut b = Bind::default();
                    if matches(p, &t, 0, &mut b) == Some(t.len()) {
                        match syn::parse2::<syn::Expr>(fill(body.clone(), &b)) { Ok(x) => { *e = x; self.visit_expr_mut(e) } Err(x) => self.errs.push(format!("{}!: {}", n, x)) }
                        return;
                    }
                }
                self.errs.push(format!("{}!: no arm fits", n));
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e)
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s { if self.rules.contains_key(&m.mac.path.segments.last().unwrap().ident.to_string()) { *s = syn::Stmt::Expr(syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token) } }
        syn::visit_mut::visit_stmt_mut(self, s)
    }
}

pub struct Src { pub module: String, pub items: Vec<Item> }

pub fn load(root: &Path) -> Result<(Vec<Src>, Rules), String> {
    let mut files: Vec<(String, syn::File)> = vec![];
    for d in [root.to_path_buf(), root.join("polynomial")] {
        let mut v: Vec<_> = std::fs::read_dir(&d).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
        v.sort();
        for p in v {
            let s = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let f = syn::parse_file(&s).map_err(|e| format!("{}: {}", p.display(), e))?;
            files.push((p.file_stem().unwrap().to_string_lossy().into_owned(), f));
        }
    }
    let mut macros: Macros = BTreeMap::new();
    let mut rs: Rules = BTreeMap::new();
    for (_, f) in &files {
        for i in &f.items {
            if let Item::Macro(m) = i { if m.mac.path.is_ident("macro_rules") { if let Some(n) = &m.ident { rs.insert(n.to_string(), rules(m.mac.tokens.clone())); } if let (Some(n), Some(a)) = (&m.ident, arms(m.mac.tokens.clone())) { macros.insert(n.to_string(), a); } } }
        }
    }
    let mut out = vec![];
    for (module, f) in files {
        let mut items = vec![];
        let mut todo: Vec<Item> = f.items.into_iter().rev().collect();
        while let Some(i) = todo.pop() {
            if cfged(&i) { continue }
            if let Item::Macro(m) = &i {
                if m.mac.path.is_ident("macro_rules") { continue }
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(x) = expand(&macros, &n, m.mac.tokens.clone()) { todo.extend(x.into_iter().rev()) }
                continue;
            }
            items.push(i);
        }
        out.push(Src { module, items });
    }
    Ok((out, rs))
}
