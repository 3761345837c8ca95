//! C08-C14: evaluation, calculus, observers, equality, term updates and term streams, executed.
use crate::arith::*;
use crate::gen::*;
use crate::oracle::{self, Po};
use crate::ty::*;
use crate::{prim, ring};
use rustnomial::*;

pub const KINDS: &[&str] = &["de", "sp", "mo", "bi", "tr"];

/// The polynomial a case holds for a kind: dense vectors in p, maps in m.
pub fn po_of(kind: &str, c: &Case, i: usize) -> Option<Po> {
    match kind {
        "sp" | "mo" => oracle::of_terms(c.m.get(i)?),
        _ => Some(oracle::of_dense(c.p.get(i)?)),
    }
}
/// A random polynomial of a kind, as (p entry, m entry).
pub fn rand_poly(g: &mut Gen, kind: &str, ty: &str, mag: i128, maxlen: usize, maxdeg: usize) -> (Vec<i128>, Vec<(usize, i128)>) {
    match kind {
        "de" => (g.dense(ty, mag, maxlen), vec![]),
        "sp" => (vec![], g.sparse(ty, mag, maxdeg)),
        "mo" => (vec![], vec![(g.deg(maxdeg), g.val(ty, mag))]),
        "bi" => ((0..2).map(|_| g.val(ty, mag)).collect(), vec![]),
        _ => ((0..3).map(|_| g.val(ty, mag)).collect(), vec![]),
    }
}
pub fn ex_polys(kind: &str) -> Vec<(Vec<i128>, Vec<(usize, i128)>)> {
    match kind {
        "de" => all_vecs(&[0, 1, -1, 2], 4).into_iter().map(|v| (v, vec![])).collect(),
        "sp" => all_maps(&[0, 1, 2, 5], &[0, 1, -1, 2]).into_iter().map(|m| (vec![], m)).collect(),
        "mo" => (0..5).flat_map(|d| (-3..4).map(move |x| (vec![], vec![(d, x)]))).collect(),
        "bi" => all_vecs(&[0, 1, -1, 2, 3], 2).into_iter().filter(|v| v.len() == 2).map(|v| (v, vec![])).collect(),
        _ => all_vecs(&[0, 1, -1, 2, 3], 3).into_iter().filter(|v| v.len() == 3).map(|v| (v, vec![])).collect(),
    }
}
/// Exactly representable in N (floats: beyond the integer range too).
pub fn rep<N: Ty>(v: i128) -> bool {
    if N::modulus().is_some() { return true }
    if N::NAME.starts_with('f') { v.unsigned_abs() < 1 << 99 && N::of(v).to() == Some(v) } else { N::lo() <= v && v <= N::hi() }
}
fn kinded(op: &str) -> (&str, &str) {
    (&op[..2], &op[3..])
}

// ---------------------------------------------------------------- C08
/// Sum of |p_d| |x|^d, or None if a power or the sum leaves the exact range.
fn eval_oracle<N: Ty>(p: &Po, x: i128) -> Option<i128> {
    if N::modulus().is_some() {
        let m = N::modulus().unwrap();
        let mut s = 0i128;
        for (d, c) in p {
            let mut pw = 1i128;
            if *d > 100000 { return None }
            for _ in 0..*d { pw = pw * x.rem_euclid(m) % m }
            s = (s + c.rem_euclid(m) * pw) % m;
        }
        return Some(s);
    }
    let ax = x.checked_abs()?;
    let (mut s, mut a) = (0i128, 0i128);
    for (d, c) in p {
        let pw = ipow(x, *d)?;
        if ipow(ax, *d)? > N::hi() { return None }
        s = s.checked_add(c.checked_mul(pw)?)?;
        a = a.checked_add(c.checked_abs()?.checked_mul(pw.checked_abs()?)?)?;
    }
    if a > N::hi() { None } else { Some(s) }
}
fn val_eq<N: Ty>(what: &str, got: N, want: i128) -> R {
    match got.to() {
        Some(v) if N::norm(v) == N::norm(want) => Ok(true),
        _ => Err(format!("{}: got {:?}, want {}", what, got, want)),
    }
}
pub fn c08(c: &Case) -> R {
    let (kind, _) = kinded(&c.op);
    let x = c.n[0];
    let p = po_of(kind, c, 0).unwrap();
    match kind {
        "sp" | "mo" => prim!(c.ty.as_str(), N => {
            let want = match eval_oracle::<N>(&p, x) { Some(w) => w, None => return Ok(false) };
            let got = if kind == "sp" { sp::<N>(&c.m[0]).eval(N::of(x)) } else { mo::<N>(&c.m[0]).eval(N::of(x)) };
            val_eq(&c.op, got, want)
        }),
        _ => ring!(c.ty.as_str(), N => {
            let q = oracle::norm::<N>(&p);
            let want = match eval_oracle::<N>(&q, x) { Some(w) => w, None => return Ok(false) };
            let got = match kind { "de" => dp::<N>(&c.p[0]).eval(N::of(x)), "bi" => bi::<N>(&c.p[0]).eval(N::of(x)), _ => tr::<N>(&c.p[0]).eval(N::of(x)) };
            val_eq(&c.op, got, want)
        }),
    }
}
pub fn point(g: &mut Gen, ty: &str) -> i128 {
    let hi = lohi(ty).1;
    let x = match g.below(8) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 | 4 => g.below(7) as i128 - 3,
        5 => g.val(ty, (hi as f64).sqrt() as i128),
        6 => 2,
        _ => g.val(ty, 20),
    };
    if is_unsigned(ty) { x.abs() } else { x }
}
pub fn c08_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(if kind == "sp" || kind == "mo" { PRIM } else { RING });
    let hi = lohi(ty).1;
    let x = point(g, ty);
    let mag = match g.below(3) { 0 => 3, 1 => (hi as f64).sqrt() as i128, _ => hi };
    let small = x.abs() <= 1;
    let (mut p, m) = rand_poly(g, kind, ty, mag, if small { 300 } else { 40 }, if small { usize::MAX } else { 60 });
    if kind == "de" && !small && g.p(2, 3) && p.len() > 8 { let k = p.len() - g.below(8); p[..k].iter_mut().for_each(|v| *v = 0) }
    Case { op: format!("{}_eval", kind), ty: ty.into(), p: vec![p], m: vec![m], n: vec![x], ..Default::default() }
}
pub fn c08_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        for (p, m) in ex_polys(kind) {
            for x in -4..5 {
                if !f(Case { op: format!("{}_eval", kind), ty: "i64".into(), p: vec![p.clone()], m: vec![m.clone()], n: vec![x], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C09
pub fn derive(p: &Po) -> Option<Po> {
    let mut r = Po::new();
    for (d, c) in p {
        if *d > 0 && *c != 0 { r.insert(d - 1, c.checked_mul(*d as i128)?); }
    }
    Some(r)
}
pub fn c09(c: &Case) -> R {
    let (kind, _) = kinded(&c.op);
    let p = po_of(kind, c, 0).unwrap();
    crate::calc!(c.ty.as_str(), N => {
        let want = match derive(&p) { Some(w) if w.values().all(|v| rep::<N>(*v)) => w, _ => return Ok(false) };
        let deg = oracle::degree(&p).unwrap_or(0) as i128;
        if kind == "de" { if !N::fits(deg + 1) { return Ok(false) } }
        else if p.iter().any(|(d, _)| !rep::<N>(*d as i128)) { return Ok(false) }
        let got = match kind {
            "de" => rv(&dp::<N>(&c.p[0]).derivative().terms),
            "sp" => rm(&sp::<N>(&c.m[0]).derivative().terms),
            "mo" => ro(&mo::<N>(&c.m[0]).derivative()),
            "bi" => rv(&bi::<N>(&c.p[0]).derivative().coefficients),
            _ => rv(&tr::<N>(&c.p[0]).derivative().coefficients),
        };
        eq::<N>(&c.op, got, &want)
    })
}
pub fn c09_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(crate::ty::CALC);
    let hi = lohi(ty).1;
    let mag = match g.below(3) { 0 => 2, 1 => (hi as f64).sqrt() as i128, _ => hi };
    let maxdeg = if g.p(1, 2) { 60 } else { usize::MAX };
    let (p, mut m) = rand_poly(g, kind, ty, mag, 600, maxdeg);
    if g.p(1, 2) { for (d, c) in m.iter_mut() { if *c != 0 { *c = (*c).clamp(-(hi / (*d as i128).max(1)).max(1), (hi / (*d as i128).max(1)).max(1)) } } }
    Case { op: format!("{}_derivative", kind), ty: ty.into(), p: vec![p], m: vec![m], ..Default::default() }
}
pub fn c09_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        for (p, m) in ex_polys(kind) {
            for ty in ["i64", "f64", "u8"] {
                if ty == "u8" && (p.iter().any(|x| *x < 0) || m.iter().any(|x| x.1 < 0)) { continue }
                if !f(Case { op: format!("{}_derivative", kind), ty: ty.into(), p: vec![p.clone()], m: vec![m.clone()], ..Default::default() }) { return }
            }
        }
    }
    for n in 0..255 {
        if !f(Case { op: "de_derivative".into(), ty: "u8".into(), p: vec![{ let mut v = vec![0; n + 1]; v[0] = 1; if n > 0 { v[n - 1] = 3 } v }], ..Default::default() }) { return }
    }
}

// ---------------------------------------------------------------- C10
pub fn c10(c: &Case) -> R {
    let (kind, op) = kinded(&c.op);
    let p = po_of(kind, c, 0).unwrap();
    crate::calc!(c.ty.as_str(), N => {
        let mut want = Po::new();
        for (d, x) in &p {
            let e = match d.checked_add(1) { Some(e) => e, None => return Ok(false) };
            if !rep::<N>(e as i128) || x % e as i128 != 0 { return Ok(false) }
            want.insert(e, x / e as i128);
        }
        if kind == "de" && !N::fits(c.p[0].len() as i128) { return Ok(false) }
        if (kind == "tr" && !N::fits(3)) || !want.values().all(|v| rep::<N>(*v)) { return Ok(false) }
        let (s, e) = (N::of(c.n[0]), N::of(c.n[1]));
        let area = if op == "area" {
            match (eval_oracle::<N>(&want, c.n[0]), eval_oracle::<N>(&want, c.n[1])) {
                (Some(a), Some(b)) if N::fits(b - a) => b - a,
                _ => return Ok(false),
            }
        } else { 0 };
        if op == "replace_c" { want.insert(0, c.n[0]); }
        macro_rules! go { ($x:expr, $r:ident) => {{
            let i = $x.integral();
            match op {
                "integral" => eq::<N>(&c.op, $r(&i.inner().terms), &want),
                "replace_c" => { let q = i.replace_c(s); eq::<N>(&c.op, $r(&q.terms), &want)?; eq::<N>("integral after replace_c", $r(&i.inner().terms), &{ let mut w = want.clone(); w.remove(&0); w }) }
                _ => val_eq(&c.op, i.eval(s, e), area),
            }
        }}; }
        match kind {
            "de" => go!(dp::<N>(&c.p[0]), rv),
            "sp" => go!(sp::<N>(&c.m[0]), rm),
            "mo" => go!(mo::<N>(&c.m[0]), rm),
            "bi" => go!(bi::<N>(&c.p[0]), rv),
            _ => go!(tr::<N>(&c.p[0]), rv),
        }
    })
}
pub fn c10_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(crate::ty::CALC);
    let op = *g.pick(&["integral", "replace_c", "area"]);
    let hi = lohi(ty).1;
    let maxdeg = match g.below(3) { 0 => 6, 1 => 60, _ => usize::MAX - 1 };
    let mg = if op == "area" || g.p(1, 2) { 4 } else { hi };
    let (mut p, mut m) = rand_poly(g, kind, ty, mg, if op == "area" { 20 } else { 400 }, maxdeg);
    let n = p.len();
    for (i, x) in p.iter_mut().enumerate() { let k = (n - i) as i128; *x = if x.unsigned_abs() <= (hi / k) as u128 { *x * k } else { *x / k * k } }
    for (d, x) in m.iter_mut() { let k = *d as i128 + 1; *x = if x.unsigned_abs() <= (hi / k) as u128 { *x * k } else { *x / k * k } }
    let (s, e) = (point(g, ty), point(g, ty));
    let s = if op == "replace_c" { g.val(ty, hi) } else { s };
    Case { op: format!("{}_{}", kind, op), ty: ty.into(), p: vec![p], m: vec![m], n: vec![s, e], ..Default::default() }
}
pub fn c10_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        for (p, m) in ex_polys(kind) {
            let n = p.len();
            let p: Vec<i128> = p.iter().enumerate().map(|(i, x)| x * (n - i) as i128).collect();
            let m: Vec<(usize, i128)> = m.iter().map(|(d, x)| (*d, x * (*d as i128 + 1))).collect();
            for (op, s, e) in [("integral", 0, 0), ("replace_c", 7, 0), ("replace_c", -2, 0), ("replace_c", 0, 0), ("area", 0, 2), ("area", 3, -1), ("area", -2, -1)] {
                for ty in ["i64", "f64"] {
                    if !f(Case { op: format!("{}_{}", kind, op), ty: ty.into(), p: vec![p.clone()], m: vec![m.clone()], n: vec![s, e], ..Default::default() }) { return }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C11
fn observers<N: Ty, P: SizedPolynomial<N>>(what: &str, x: &P, iter: Vec<(N, usize)>, want: &Po, probes: &[usize]) -> R {
    let w: Po = oracle::norm::<N>(want);
    let deg = w.keys().last().copied();
    let got = match x.degree() { Degree::NegInf => None, Degree::Num(d) => Some(d) };
    if got != deg { return Err(format!("{} degree(): got {:?}, want {:?}", what, got, deg)) }
    if x.is_zero() != w.is_empty() { return Err(format!("{} is_zero(): got {}, want {}", what, x.is_zero(), w.is_empty())) }
    let wl: Vec<(i128, usize)> = w.iter().rev().map(|(d, c)| (*c, *d)).collect();
    for (name, v) in [("terms_as_vec", x.terms_as_vec()), ("ordered_term_iter", iter)] {
        let gl: Vec<(i128, usize)> = v.iter().map(|(c, d)| (c.to().map(N::norm).unwrap_or(i128::MAX), *d)).collect();
        if gl != wl { return Err(format!("{} {}: got {:?}, want {:?}", what, name, gl, wl)) }
    }
    for d in probes {
        let g = match x.term_with_degree(*d) { Term::ZeroTerm => None, Term::Term(c, e) => Some((c.to().map(N::norm).unwrap_or(i128::MAX), e)) };
        let e = w.get(d).map(|c| (*c, *d));
        if g != e { return Err(format!("{} term_with_degree({}): got {:?}, want {:?}", what, d, g, e)) }
    }
    Ok(true)
}
pub fn c11(c: &Case) -> R {
    let (kind, op) = kinded(&c.op);
    let p = po_of(kind, c, 0).unwrap();
    let mut probes: Vec<usize> = p.keys().copied().take(40).collect();
    probes.extend(0..6);
    probes.extend(c.n.iter().map(|x| *x as usize));
    if let Some(d) = p.keys().last() { probes.push(d.saturating_add(1)); probes.push(d.saturating_add(2)); }
    probes.push(usize::MAX);
    ring!(c.ty.as_str(), N => {
        macro_rules! go { ($x:expr, $t:ident) => {{
            let mut x = $x;
            match op {
                "observe" => { let it = x.ordered_term_iter().collect(); observers::<N, $t<N>>(kind, &x, it, &p, &probes) }
                "zero" => { let z: $t<N> = SizedPolynomial::zero(); let it = z.ordered_term_iter().collect(); observers::<N, $t<N>>("zero()", &z, it, &Po::new(), &probes) }
                _ => { x.set_to_zero(); let it = x.ordered_term_iter().collect(); observers::<N, $t<N>>("after set_to_zero", &x, it, &Po::new(), &probes) }
            }
        }}; }
        match kind {
            "de" if op == "trim" => {
                let mut x = dp::<N>(&c.p[0]);
                x.trim();
                let k = c.p[0].iter().position(|v| N::norm(*v) != 0).unwrap_or(c.p[0].len());
                let want: Vec<i128> = c.p[0][k..].iter().map(|v| N::norm(*v)).collect();
                let got: Vec<i128> = x.terms.iter().map(|v| v.to().map(N::norm).unwrap_or(i128::MAX)).collect();
                if got != want { return Err(format!("trim: terms {:?}, want {:?}", got, want)) }
                Ok(true)
            }
            #[cfg(feature = "trim")]
            "sp" if op == "trim" => {
                let mut x = sp::<N>(&c.m[0]);
                let want: Vec<(usize, N)> = x.terms.iter().filter(|e| !num::Zero::is_zero(e.1)).map(|(d, v)| (*d, *v)).collect();
                x.trim();
                let got: Vec<(usize, N)> = x.terms.iter().map(|(d, v)| (*d, *v)).collect();
                if got != want { return Err(format!("trim: terms {:?}, want {:?}", got, want)) }
                Ok(true)
            }
            #[cfg(not(feature = "trim"))]
            "sp" if op == "trim" => Ok(false),
            "de" => go!(dp::<N>(&c.p[0]), Polynomial),
            "sp" => go!(sp::<N>(&c.m[0]), SparsePolynomial),
            "mo" => go!(mo::<N>(&c.m[0]), Monomial),
            "bi" => go!(bi::<N>(&c.p[0]), LinearBinomial),
            _ => go!(tr::<N>(&c.p[0]), QuadraticTrinomial),
        }
    })
}
pub fn c11_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(RING);
    let op = match g.below(12) { 0 => "zero", 1 => "set_to_zero", 2 | 3 if kind == "de" || kind == "sp" => "trim", _ => "observe" };
    let hi = lohi(ty).1;
    let (p, m) = rand_poly(g, kind, ty, hi, 3000, usize::MAX);
    let n = (0..2).map(|_| g.deg(usize::MAX) as i128).collect();
    Case { op: format!("{}_{}", kind, op), ty: ty.into(), p: vec![p], m: vec![m], n, ..Default::default() }
}
pub fn c11_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        for (p, m) in ex_polys(kind) {
            for op in ["observe", "zero", "set_to_zero", "trim"] {
                if op == "trim" && *kind != "de" && *kind != "sp" { continue }
                if !f(Case { op: format!("{}_{}", kind, op), ty: "i32".into(), p: vec![p.clone()], m: vec![m.clone()], ..Default::default() }) { return }
            }
        }
    }
    for p in all_vecs(&[0, 1], 13) {
        for op in ["de_observe", "de_trim"] {
            if !f(Case { op: op.into(), ty: "u8".into(), p: vec![p.clone()], ..Default::default() }) { return }
        }
    }
}

// ---------------------------------------------------------------- C12
pub fn c12(c: &Case) -> R {
    let (kind, _) = kinded(&c.op);
    let (a, b) = (po_of(kind, c, 0).unwrap(), po_of(kind, c, 1).unwrap());
    ring!(c.ty.as_str(), N => {
        let want = oracle::norm::<N>(&a) == oracle::norm::<N>(&b);
        macro_rules! go { ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            if (x == y) != want || (y == x) != want || (x != y) == want { return Err(format!("{}: == gives {} / {}, != gives {}; want equal: {}", c.op, x == y, y == x, x != y, want)) }
            if x != x.clone() { return Err(format!("{}: not equal to its clone", c.op)) }
            Ok(true)
        }}; }
        match kind {
            "de" => go!(dp::<N>(&c.p[0]), dp::<N>(&c.p[1])),
            "sp" => go!(sp::<N>(&c.m[0]), sp::<N>(&c.m[1])),
            "mo" => go!(mo::<N>(&c.m[0]), mo::<N>(&c.m[1])),
            "bi" => go!(bi::<N>(&c.p[0]), bi::<N>(&c.p[1])),
            _ => go!(tr::<N>(&c.p[0]), tr::<N>(&c.p[1])),
        }
    })
}
pub fn c12_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(RING);
    let hi = lohi(ty).1;
    let (p, m) = rand_poly(g, kind, ty, hi, 600, usize::MAX);
    let (mut q, mut k) = if g.p(1, 5) { rand_poly(g, kind, ty, hi, 600, usize::MAX) } else { (p.clone(), m.clone()) };
    match kind {
        "de" => { let mut z = vec![0; g.below(9)]; if g.p(1, 3) { z.clear() } z.extend(&q); q = z }
        "sp" => { for _ in 0..g.below(4) { let d = g.deg(usize::MAX); if !k.iter().any(|e| e.0 == d) { k.push((d, 0)) } } k.sort(); if g.p(1, 2) { k.retain(|e| e.1 != 0) } }
        "mo" => if k[0].1 == 0 || g.p(1, 8) { k[0].0 = g.deg(usize::MAX) },
        _ => {}
    }
    if g.p(1, 2) {
        // one coefficient changed, added or removed
        if !q.is_empty() { let i = g.below(q.len()); q[i] = g.val(ty, hi) }
        if !k.is_empty() { let i = g.below(k.len()); k[i].1 = g.val(ty, hi) }
        if kind == "de" && g.p(1, 4) { q.pop(); }
        if kind == "de" && g.p(1, 4) { q.push(0); }
    }
    let (mut pp, mut mm) = (vec![p, q], vec![m, k]);
    if g.p(1, 2) { pp.swap(0, 1); mm.swap(0, 1) }
    Case { op: format!("{}_eq", kind), ty: ty.into(), p: pp, m: mm, ..Default::default() }
}
pub fn c12_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        let mut ps = ex_polys(kind);
        if *kind == "de" { ps.retain(|(p, _)| p.len() < 4 || p[0] == 0) }
        if *kind == "sp" { ps.retain(|(_, m)| m.len() < 4) }
        for a in &ps {
            for b in &ps {
                if !f(Case { op: format!("{}_eq", kind), ty: "i32".into(), p: vec![a.0.clone(), b.0.clone()], m: vec![a.1.clone(), b.1.clone()], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C13, C14
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Out { Ok, Err, Either, Skip }
/// What the contract allows for adding (sign 1) or subtracting (-1) a term; updates the state if applied.
/// `len`: stored length of a dense polynomial (zeros appear below it).
pub fn apply<N: Ty>(kind: &str, st: &mut Po, len: &mut usize, sign: i128, co: i128, d: usize) -> Out {
    let cur = *st.get(&d).unwrap_or(&0);
    let zero = st.values().all(|v| *v == 0);
    let room = match kind {
        "bi" => d <= 1,
        "tr" => d <= 2,
        "mo" => zero || st.iter().any(|(e, v)| *v != 0 && *e == d),
        _ => true,
    };
    if !room { return if co == 0 { Out::Either } else { Out::Err } }
    let unsigned = N::lo() == 0;
    if kind == "de" && d > 6000 { return Out::Skip }
    if sign < 0 && unsigned && (kind == "de" && d >= *len || kind == "sp" && !st.contains_key(&d)) {
        return if co == 0 { Out::Either } else { Out::Err };
    }
    let nv = match cur.checked_add(sign * co) { Some(v) if N::fits(v) => v, _ => return Out::Skip };
    if kind == "mo" { st.clear() }
    if kind == "de" && d >= *len { *len = d + 1 }
    if kind != "sp" || co != 0 || st.contains_key(&d) { st.insert(d, nv); }
    Out::Ok
}
pub fn c13(c: &Case) -> R {
    let (kind, op) = kinded(&c.op);
    match op {
        "build_terms" => {
            let l1 = c.m[0].iter().try_fold(0i128, |s, (_, x)| s.checked_add(x.checked_abs()?));
            return ring!(c.ty.as_str(), N => {
                match l1 { Some(v) if N::modulus().is_some() || v <= N::hi() => {} _ => return Ok(false) }
                let want = oracle::of_terms(&c.m[0]).unwrap();
                if kind == "de" && c.m[0].iter().any(|t| t.0 > 6000) { return Ok(false) }
                let t: Vec<(N, usize)> = c.m[0].iter().map(|(d, x)| (N::of(*x), *d)).collect();
                if kind == "de" { eq::<N>("Polynomial::from_terms", rv(&Polynomial::from_terms(&t).terms), &want) }
                else { eq::<N>("SparsePolynomial::from_terms", rm(&SparsePolynomial::from_terms(&t).terms), &want) }
            });
        }
        "build_vec" => {
            return ring!(c.ty.as_str(), N => {
                let want = oracle::of_dense(&c.p[0]);
                let v: Vec<N> = c.p[0].iter().map(|x| N::of(*x)).collect();
                eq::<N>("Polynomial::new", rv(&Polynomial::new(v.clone()).terms), &want)?;
                eq::<N>("Polynomial::from", rv(&Polynomial::from(v.clone()).terms), &want)?;
                eq::<N>("SparsePolynomial::from", rm(&SparsePolynomial::from(v).terms), &want)
            });
        }
        "build_map" => {
            return ring!(c.ty.as_str(), N => {
                let want = oracle::of_terms(&c.m[0]).unwrap();
                let m = sp::<N>(&c.m[0]).terms;
                eq::<N>("SparsePolynomial::new", rm(&SparsePolynomial::new(m).terms), &want)?;
                if let Some((d, x)) = c.m[0].first() {
                    let w: Po = [(*d, *x)].into_iter().collect();
                    eq::<N>("Monomial::new", ro(&Monomial::new(N::of(*x), *d)), &w)?;
                    let w: Po = [(0, *x)].into_iter().collect();
                    eq::<N>("Monomial::from", ro(&Monomial::from(N::of(*x))), &w)?;
                }
                Ok(true)
            });
        }
        _ => {}
    }
    // A history of updates: m[1] the terms, n[i] = 0 try_add, 1 try_sub, 2 add_term.
    let start = po_of(kind, c, 0).unwrap();
    prim!(c.ty.as_str(), N => {
        let mut st = start.clone();
        let mut len = if kind == "de" { c.p[0].len() } else { 0 };
        let mut done = false;
        macro_rules! add {
            ($x:ident, $c:expr, $d:expr, $how:expr, true) => { match $how { 0 => $x.try_add_term($c, $d).is_ok(), 1 => $x.try_sub_term($c, $d).is_ok(), _ => { $x.add_term($c, $d); true } } };
            ($x:ident, $c:expr, $d:expr, $how:expr, false) => { match $how { 0 => $x.try_add_term($c, $d).is_ok(), _ => $x.try_sub_term($c, $d).is_ok() } };
        }
        macro_rules! go { ($x:expr, $r:expr, $free:tt) => {{
            let mut x = $x;
            let read = $r;
            for (i, (d, co)) in c.m[1].iter().enumerate() {
                let how = if $free || c.n[i] < 2 { c.n[i] } else { 0 };
                let before = oracle::norm::<N>(&read(&x)?);
                let mut nst = st.clone();
                let mut nlen = len;
                let want = apply::<N>(kind, &mut nst, &mut nlen, if how == 1 { -1 } else { 1 }, *co, *d);
                if want == Out::Skip { break }
                let got = add!(x, N::of(*co), *d, how, $free);
                done = true;
                let what = format!("{} step {} ({} {} x^{})", c.op, i, ["try_add_term", "try_sub_term", "add_term"][how as usize], co, d);
                match (want, got) {
                    (Out::Ok, false) => return Err(format!("{}: refused", what)),
                    (Out::Err, true) => return Err(format!("{}: not refused", what)),
                    _ => {}
                }
                if want == Out::Ok { st = nst; len = nlen; eq::<N>(&what, read(&x), &st)?; }
                else { eq::<N>(&format!("{} (refused: unchanged)", what), read(&x), &before)?; if want == Out::Either { break } }
            }
        }}; }
        match kind {
            "de" => go!(dp::<N>(&c.p[0]), |x: &Polynomial<N>| rv(&x.terms), true),
            "sp" => go!(sp::<N>(&c.m[0]), |x: &SparsePolynomial<N>| rm(&x.terms), true),
            "mo" => go!(mo::<N>(&c.m[0]), |x: &Monomial<N>| ro(x), false),
            "bi" => go!(bi::<N>(&c.p[0]), |x: &LinearBinomial<N>| rv(&x.coefficients), false),
            _ => go!(tr::<N>(&c.p[0]), |x: &QuadraticTrinomial<N>| rv(&x.coefficients), false),
        }
        Ok(done)
    })
}
fn step_terms(g: &mut Gen, kind: &str, ty: &str, mag: i128, from: &[(usize, i128)]) -> Vec<(usize, i128)> {
    let n = 1 + g.below(5);
    (0..n).map(|_| {
        let d = match kind { "bi" => g.below(4), "tr" => g.below(5), "de" => if g.p(1, 4) { g.deg(3000) } else { g.below(8) },
            _ => if !from.is_empty() && g.p(1, 2) { from[g.below(from.len())].0 } else { g.deg(usize::MAX) } };
        let d = if (kind == "bi" || kind == "tr") && g.p(1, 12) { g.deg(usize::MAX) } else { d };
        let c = if !from.is_empty() && g.p(1, 4) { from[g.below(from.len())].1 } else { g.val(ty, mag) };
        (d, c)
    }).collect()
}
pub fn c13_rand(g: &mut Gen) -> Case {
    if g.p(1, 4) {
        let ty = *g.pick(RING);
        let hi = lohi(ty).1;
        return match g.below(3) {
            0 => Case { op: "de_build_vec".into(), ty: ty.into(), p: vec![g.dense(ty, hi, 900)], ..Default::default() },
            1 => Case { op: "sp_build_map".into(), ty: ty.into(), m: vec![g.sparse(ty, hi, usize::MAX)], ..Default::default() },
            _ => {
                let (k, md) = if g.p(1, 2) { ("de", 3000) } else { ("sp", usize::MAX) };
                let mag = if g.p(1, 2) { 9 } else { hi / 8 };
                Case { op: format!("{}_build_terms", k), ty: ty.into(), m: vec![g.terms(ty, mag, md)], ..Default::default() }
            }
        };
    }
    let kind = *g.pick(KINDS);
    let ty = *g.pick(PRIM);
    let mag = if g.p(1, 2) { 5 } else { lohi(ty).1 / 2 };
    let (p, m) = rand_poly(g, kind, ty, mag, 300, usize::MAX);
    let t = step_terms(g, kind, ty, mag, &m);
    let n = t.iter().map(|_| g.below(3) as i128).collect();
    Case { op: format!("{}_update", kind), ty: ty.into(), p: vec![p], m: vec![m, t], n, ..Default::default() }
}
pub fn c13_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        for (p, m) in ex_polys(kind) {
            for d in 0..6usize {
                for co in [0, 1, -1, 2] {
                    for how in 0..3 {
                        for ty in ["i32", "u8"] {
                            if ty == "u8" && (co < 0 || p.iter().any(|x| *x < 0) || m.iter().any(|x| x.1 < 0)) { continue }
                            if !f(Case { op: format!("{}_update", kind), ty: ty.into(), p: vec![p.clone()], m: vec![m.clone(), vec![(d, co)]], n: vec![how], ..Default::default() }) { return }
                        }
                    }
                }
            }
        }
    }
    for p in all_vecs(&[0, 1, -1], 5) {
        if !f(Case { op: "de_build_vec".into(), ty: "i32".into(), p: vec![p], ..Default::default() }) { return }
    }
    for m in all_maps(&[0, 1, 4], &[0, 1, -1, 2]) {
        let mut r = m.clone();
        r.extend(m.iter().copied());
        r.reverse();
        for (k, t) in [("de", &m), ("sp", &m), ("de", &r), ("sp", &r)] {
            if !f(Case { op: format!("{}_build_terms", k), ty: "i32".into(), m: vec![t.clone()], ..Default::default() }) { return }
        }
        if !f(Case { op: "sp_build_map".into(), ty: "i32".into(), m: vec![m], ..Default::default() }) { return }
    }
}

pub fn c14(c: &Case) -> R {
    use rustnomial::poly_math::*;
    let (kind, op) = kinded(&c.op);
    let start = po_of(kind, c, 0).unwrap();
    prim!(c.ty.as_str(), N => {
        let t: Vec<(N, usize)> = c.m[1].iter().map(|(d, x)| (N::of(*x), *d)).collect();
        // The stream of (sign, coefficient, degree) to be applied.
        let mut stream: Vec<(i128, i128, usize)> = vec![];
        match op {
            "mul" => for (rd, rc) in &c.m[1] { for (ld, lc) in &c.m[2] {
                match (rc.checked_mul(*lc), rd.checked_add(*ld)) { (Some(x), Some(d)) if N::fits(x) => stream.push((1, x, d)), _ => return Ok(false) }
            } },
            "sub" => stream.extend(c.m[1].iter().map(|(d, x)| (-1, *x, *d))),
            "add" => stream.extend(c.m[1].iter().map(|(d, x)| (1, *x, *d))),
            _ => {}
        }
        if op.starts_with("macro") {
            // Sink p[0]; operands: dense p[1] and sparse m[1].
            let (a, b, k) = (oracle::of_dense(&c.p[0]), oracle::of_dense(&c.p[1]), oracle::of_terms(&c.m[1]).unwrap());
            if k.keys().any(|d| *d > 6000) { return Ok(false) }
            let sum = oracle::add(&b, &k);
            let want = if op == "macro_sub" || op == "macro_sub_sink" { sum.clone().and_then(|s| oracle::sub(&a, &s)) } else { sum.clone().and_then(|s| oracle::add(&a, &s)) };
            let mags = [&a, &b, &k].iter().try_fold(Po::new(), |s, q| oracle::add(&s, &oracle::abs(q)?));
            let (want, mags) = match (want, mags) { (Some(w), Some(m)) => (w, m), _ => return Ok(false) };
            if !oracle::fits::<N>(&mags) { return Ok(false) }
            // Unsigned subtraction may be refused: only the signed contract is checked.
            if op.starts_with("macro_sub") && N::lo() == 0 { return Ok(false) }
            let (mut x, y, z) = (dp::<N>(&c.p[0]), dp::<N>(&c.p[1]), sp::<N>(&c.m[1]));
            let r: Polynomial<N> = match op {
                "macro_add" => poly_add!(x, y, z),
                "macro_sub" => poly_sub!(x, y, z),
                "macro_add_sink" => { let r: Result<(), TryAddError> = poly_add!(x; y, z); if r.is_err() { return Err(format!("poly_add!(sink; ..) returned {:?}", r)) } x }
                _ => { let r: Result<(), TryAddError> = poly_sub!(x; y, z); if r.is_err() { return Err(format!("poly_sub!(sink; ..) returned {:?}", r)) } x }
            };
            return eq::<N>(op, rv(&r.terms), &want);
        }
        if op == "feed_sub" && N::lo() == 0 { return Ok(false) }
        if op.starts_with("feed") {
            // The macros with a sink are add_poly (sub_poly) of each operand in turn; the first error is returned.
            let (y, z) = (sp::<N>(&c.m[1]), sp::<N>(&c.m[2]));
            macro_rules! feed { ($x:expr, $r:expr) => {{
                let (mut x, mut w) = ($x, $x);
                let read = $r;
                let (got, want): (Result<(), TryAddError>, Result<(), TryAddError>) = if op == "feed_add" {
                    let (a, b) = (add_poly(y.ordered_term_iter(), &mut w), add_poly(z.ordered_term_iter(), &mut w));
                    (poly_add!(x; y, z), a.and(b))
                } else {
                    let (a, b) = (sub_poly(y.ordered_term_iter(), &mut w), sub_poly(z.ordered_term_iter(), &mut w));
                    (poly_sub!(x; y, z), a.and(b))
                };
                if got != want { return Err(format!("{}: returned {:?}, the first refusal is {:?}", c.op, got, want)) }
                if read(&x) != read(&w) { return Err(format!("{}: the sink is {:?}, applying each operand in turn leaves {:?}", c.op, read(&x), read(&w))) }
                Ok(true)
            }}; }
            let mags = [oracle::of_terms(&c.m[1]), oracle::of_terms(&c.m[2])].iter().try_fold(oracle::abs(&start).unwrap_or_default(), |s, q| oracle::add(&s, &oracle::abs(q.as_ref()?)?));
            if !mags.map_or(false, |m| oracle::fits::<N>(&m)) { return Ok(false) }
            return match kind {
                "sp" => feed!(sp::<N>(&c.m[0]), |x: &SparsePolynomial<N>| rm(&x.terms)),
                "mo" => feed!(mo::<N>(&c.m[0]), |x: &Monomial<N>| ro(x)),
                "bi" => feed!(bi::<N>(&c.p[0]), |x: &LinearBinomial<N>| rv(&x.coefficients)),
                "tr" => feed!(tr::<N>(&c.p[0]), |x: &QuadraticTrinomial<N>| rv(&x.coefficients)),
                _ => Ok(false),
            };
        }
        let mut st = start.clone();
        let mut len = if kind == "de" { c.p[0].len() } else { 0 };
        let mut failed = None;
        for (i, (s, x, d)) in stream.iter().enumerate() {
            match apply::<N>(kind, &mut st, &mut len, *s, *x, *d) {
                Out::Ok => {}
                Out::Err => { failed = Some(i); break }
                _ => return Ok(false),
            }
        }
        let l: Vec<(N, usize)> = if op == "mul" { c.m[2].iter().map(|(d, x)| (N::of(*x), *d)).collect() } else { vec![] };
        macro_rules! go { ($x:expr, $r:expr) => {{
            let mut x = $x;
            let read = $r;
            let got = match op { "add" => add_poly(t.into_iter(), &mut x), "sub" => sub_poly(t.into_iter(), &mut x), _ => mul_poly_vec(t.into_iter(), &l, &mut x) };
            if got.is_err() != failed.is_some() { return Err(format!("{}: returned {:?}, expected {}", c.op, got, if failed.is_some() { "an error" } else { "Ok" })) }
            eq::<N>(&c.op, read(&x), &st)?;
            if let Some(i) = failed {
                let mut y = x.clone();
                let direct = if stream[i].0 < 0 { y.try_sub_term(N::of(stream[i].1), stream[i].2) } else { y.try_add_term(N::of(stream[i].1), stream[i].2) };
                if direct != got { return Err(format!("{}: returned {:?}, but the sink refuses the term with {:?}", c.op, got, direct)) }
            }
            Ok(true)
        }}; }
        match kind {
            "de" => go!(dp::<N>(&c.p[0]), |x: &Polynomial<N>| rv(&x.terms)),
            "sp" => go!(sp::<N>(&c.m[0]), |x: &SparsePolynomial<N>| rm(&x.terms)),
            "mo" => go!(mo::<N>(&c.m[0]), |x: &Monomial<N>| ro(x)),
            "bi" => go!(bi::<N>(&c.p[0]), |x: &LinearBinomial<N>| rv(&x.coefficients)),
            _ => go!(tr::<N>(&c.p[0]), |x: &QuadraticTrinomial<N>| rv(&x.coefficients)),
        }
    })
}
pub fn c14_rand(g: &mut Gen) -> Case {
    let ty = *g.pick(PRIM);
    let mag = match g.below(3) { 0 => 3, 1 => (lohi(ty).1 as f64).sqrt() as i128 / 4, _ => lohi(ty).1 / 4 };
    if g.p(1, 6) {
        let op = *g.pick(&["macro_add", "macro_sub", "macro_add_sink", "macro_sub_sink"]);
        let (a, b) = (g.dense(ty, mag, 60), g.dense(ty, mag, 60));
        let k = g.sparse(ty, mag, 300);
        return Case { op: format!("de_{}", op), ty: ty.into(), p: vec![a, b], m: vec![vec![], k], ..Default::default() };
    }
    if g.p(1, 8) {
        let kind = *g.pick(&["sp", "mo", "bi", "tr"]);
        let (p, m) = rand_poly(g, kind, ty, 9, 100, usize::MAX);
        let operand = |g: &mut Gen| -> Vec<(usize, i128)> {
            let mut o: Vec<(usize, i128)> = vec![];
            for _ in 0..g.below(4) {
                let d = if kind == "mo" && g.p(2, 3) { m[0].0 } else { g.below(4) };
                if !o.iter().any(|x| x.0 == d) { o.push((d, g.val(ty, 5))) }
            }
            o
        };
        let (a, b) = (operand(g), operand(g));
        return Case { op: format!("{}_feed_{}", kind, g.pick(&["add", "sub"])), ty: ty.into(), p: vec![p], m: vec![m.clone(), a, b], ..Default::default() };
    }
    let kind = *g.pick(KINDS);
    let op = *g.pick(&["add", "sub", "mul"]);
    let (p, mut m) = rand_poly(g, kind, ty, mag, 100, usize::MAX);
    if kind == "mo" && g.p(1, 2) { m[0].1 = 0 }
    let room = |g: &mut Gen, m: &[(usize, i128)]| match kind { "bi" => { let e = g.p(1, 4) as usize; g.below(2 + e) }, "tr" => { let e = g.p(1, 4) as usize; g.below(3 + e) }, "mo" if g.p(5, 6) => m[0].0 / if op == "mul" { 2 } else { 1 }, "de" => if g.p(1, 5) { g.deg(2000) } else { g.below(9) }, _ => g.deg(usize::MAX / 2) };
    let n = g.below(7);
    let t: Vec<(usize, i128)> = (0..n).map(|_| { let d = room(g, &m); (d, g.val(ty, mag)) }).collect();
    let n = g.below(6);
    let l: Vec<(usize, i128)> = (0..n).map(|_| { let d = room(g, &m); (d, g.val(ty, mag)) }).collect();
    Case { op: format!("{}_{}", kind, op), ty: ty.into(), p: vec![p], m: vec![m, t, l], ..Default::default() }
}
pub fn c14_ex(f: &mut dyn FnMut(Case) -> bool) {
    let ts: Vec<Vec<(usize, i128)>> = {
        let mut o = vec![vec![]];
        let one: Vec<(usize, i128)> = (0..4).flat_map(|d| [0i128, 1, -2].into_iter().map(move |x| (d, x))).collect();
        for a in &one { o.push(vec![*a]); for b in &one { o.push(vec![*a, *b]) } }
        o
    };
    for kind in KINDS {
        let mut ps = ex_polys(kind);
        ps.retain(|(p, m)| p.len() < 4 && m.len() < 3 && p.iter().all(|x| *x < 3 && *x > -1));
        for (p, m) in &ps {
            for t in &ts {
                for op in ["add", "sub"] {
                    if !f(Case { op: format!("{}_{}", kind, op), ty: "i32".into(), p: vec![p.clone()], m: vec![m.clone(), t.clone(), vec![]], ..Default::default() }) { return }
                }
            }
        }
    }
    for kind in KINDS {
        let (p, m) = match *kind { "sp" => (vec![], vec![]), "mo" => (vec![], vec![(0, 0)]), "de" => (vec![], vec![]), "bi" => (vec![1, 2], vec![]), _ => (vec![1, 2, 3], vec![]) };
        for t in &ts {
            for l in &ts {
                if !f(Case { op: format!("{}_mul", kind), ty: "i32".into(), p: vec![p.clone()], m: vec![m.clone(), t.clone(), l.clone()], ..Default::default() }) { return }
            }
        }
    }
    for a in all_vecs(&[0, 1, -1], 2) { for b in all_vecs(&[0, 2], 3) { for k in all_maps(&[0, 3], &[0, 5]) { for op in ["macro_add", "macro_sub", "macro_add_sink", "macro_sub_sink"] {
        if !f(Case { op: format!("de_{}", op), ty: "i32".into(), p: vec![a.clone(), b.clone()], m: vec![vec![], k.clone()], ..Default::default() }) { return }
    } } } }
}
