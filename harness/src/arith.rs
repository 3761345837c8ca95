//! C01-C07: arithmetic contracts, executed.
use crate::gen::*;
use crate::oracle::{self, Po};
use crate::ty::*;
use crate::{ring, signed};
use num::One;
use rustnomial::*;
use std::collections::BTreeMap;
use std::ops::*;

pub type R = Result<bool, String>;

pub fn dp<N: Ty>(v: &[i128]) -> Polynomial<N> {
    Polynomial { terms: v.iter().map(|x| N::of(*x)).collect() }
}
pub fn sp<N: Ty>(v: &[(usize, i128)]) -> SparsePolynomial<N> {
    SparsePolynomial { terms: v.iter().map(|(d, x)| (*d, N::of(*x))).collect() }
}
pub fn mo<N: Ty>(v: &[(usize, i128)]) -> Monomial<N> {
    Monomial { coefficient: N::of(v[0].1), deg: v[0].0 }
}
pub fn bi<N: Ty>(v: &[i128]) -> LinearBinomial<N> {
    LinearBinomial { coefficients: [N::of(v[0]), N::of(v[1])] }
}
pub fn tr<N: Ty>(v: &[i128]) -> QuadraticTrinomial<N> {
    QuadraticTrinomial { coefficients: [N::of(v[0]), N::of(v[1]), N::of(v[2])] }
}
pub fn rv<N: Ty>(t: &[N]) -> Result<Po, String> {
    let n = t.len();
    let mut p = Po::new();
    for (i, x) in t.iter().enumerate() {
        p.insert(n - 1 - i, x.to().ok_or_else(|| format!("coefficient {:?} at degree {}", x, n - 1 - i))?);
    }
    Ok(p)
}
pub fn rm<N: Ty>(t: &BTreeMap<usize, N>) -> Result<Po, String> {
    t.iter().map(|(d, x)| Ok((*d, x.to().ok_or_else(|| format!("coefficient {:?} at degree {}", x, d))?))).collect()
}
pub fn ro<N: Ty>(m: &Monomial<N>) -> Result<Po, String> {
    let mut p = Po::new();
    p.insert(m.deg, m.coefficient.to().ok_or_else(|| format!("coefficient {:?}", m.coefficient))?);
    Ok(p)
}
pub fn eq<N: Ty>(what: &str, got: Result<Po, String>, want: &Po) -> R {
    let got = oracle::norm::<N>(&got?);
    let want = oracle::norm::<N>(want);
    if got == want {
        Ok(true)
    } else {
        Err(format!("{}: got coefficients {} (degree:coefficient), want {}", what, show(&got), show(&want)))
    }
}
pub fn show(p: &Po) -> String {
    let s: Vec<String> = p.iter().rev().take(40).map(|(d, x)| format!("{}:{}", d, x)).collect();
    format!("{{{}}}", s.join(", "))
}

pub trait Ring: Ty + One + AddAssign + MulAssign + Mul<Output = Self> + Div<Output = Self> + DivAssign + Sub<Output = Self> + SubAssign {}
impl<T: Ty + One + AddAssign + MulAssign + Mul<Output = T> + Div<Output = T> + DivAssign + Sub<Output = T> + SubAssign> Ring for T {}
pub trait Signed: Ring + Neg<Output = Self> {}
impl<T: Ring + Neg<Output = T>> Signed for T {}

// ---------------------------------------------------------------- C01
pub const C01: &[&str] = &["add", "add_assign", "sub", "sub_assign", "sub_ref", "sub_assign_ref", "neg"];
fn c01_add<N: Ring>(c: &Case) -> R {
    let (a, b) = (oracle::of_dense(&c.p[0]), oracle::of_dense(&c.p[1]));
    let e = match oracle::add(&a, &b) { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
    let (x, y) = (dp::<N>(&c.p[0]), dp::<N>(&c.p[1]));
    let r = match c.op.as_str() {
        "add" => x + y,
        _ => { let mut x = x; x += y; x }
    };
    eq::<N>(&c.op, rv(&r.terms), &e)
}
fn c01_sub<N: Signed>(c: &Case) -> R {
    let (a, b) = (oracle::of_dense(&c.p[0]), oracle::of_dense(&c.p[1]));
    let e = match if c.op == "neg" { oracle::neg(&a) } else { oracle::sub(&a, &b) } { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
    let (mut x, y) = (dp::<N>(&c.p[0]), dp::<N>(&c.p[1]));
    let r = match c.op.as_str() {
        "sub" => x - y,
        "sub_assign" => { x -= y; x }
        "sub_ref" => x - &y,
        "sub_assign_ref" => { x -= &y; x }
        _ => -x,
    };
    eq::<N>(&c.op, rv(&r.terms), &e)
}
pub fn c01(c: &Case) -> R {
    if c.op.starts_with("add") { ring!(c.ty.as_str(), N => c01_add::<N>(c)) } else { signed!(c.ty.as_str(), N => c01_sub::<N>(c)) }
}
pub fn c01_rand(g: &mut Gen) -> Case {
    let op = *g.pick(C01);
    let ty = *g.pick(if op.starts_with("add") { RING } else { SIGNED });
    let mag = if g.p(1, 3) { i128::MAX } else { lohi(ty).1 / 2 };
    let a = g.dense(ty, mag, 5000);
    let b = match g.below(5) {
        0 => a.clone(),
        1 if !is_unsigned(ty) => a.iter().map(|x| x.checked_neg().unwrap_or(0)).collect(),
        2 => { let mut v = vec![0; g.below(6)]; v.extend(&a); if g.p(1, 2) && !v.is_empty() { let i = g.below(v.len()); v[i] = g.val(ty, mag); } v }
        _ => g.dense(ty, mag, 5000),
    };
    let mut p = vec![a, b];
    if g.p(1, 2) { p.swap(0, 1) }
    Case { op: op.into(), ty: ty.into(), p, ..Default::default() }
}
pub fn pairs(ops: &[&str], tys: &[&str], vs: &[Vec<i128>], f: &mut dyn FnMut(Case) -> bool) {
    for a in vs {
        for b in vs {
            for ty in tys {
                for op in ops {
                    if !f(Case { op: op.to_string(), ty: ty.to_string(), p: vec![a.clone(), b.clone()], ..Default::default() }) { return }
                }
            }
        }
    }
}
pub fn c01_ex(f: &mut dyn FnMut(Case) -> bool) {
    pairs(C01, &["i32", "gf3"], &all_vecs(&[0, 1, -1, 2], 3), f);
    pairs(C01, &["i8"], &all_vecs(&[0, 3], 5), f);
}

// ---------------------------------------------------------------- C02
pub const MULS: &[&str] = &["mul_vv", "mul_vr", "mul_rv", "mul_rr", "mul_assign_v", "mul_assign_r"];
pub const SCAL: &[&str] = &["smul", "smul_assign", "sdiv", "sdiv_assign"];
/// Oracle of a scalar operation: None if inexact.
fn scal<N: Ty>(op: &str, a: &Po, s: i128) -> Option<Po> {
    if op.starts_with("smul") {
        let e = oracle::scale(&if N::modulus().is_some() { oracle::norm::<N>(a) } else { a.clone() }, N::norm(s))?;
        if oracle::fits::<N>(&e) { Some(e) } else { None }
    } else {
        if N::norm(s) == 0 { return None }
        if let Some(m) = N::modulus() {
            let inv = (1..m).find(|k| (k * N::norm(s)) % m == 1)?;
            return oracle::scale(&oracle::norm::<N>(a), inv);
        }
        let e: Po = a.iter().map(|(d, x)| if x % s == 0 { Some((*d, x / s)) } else { None }).collect::<Option<_>>()?;
        if oracle::fits::<N>(&e) { Some(e) } else { None }
    }
}
fn pow_oracle<N: Ty>(a: &Po, n: usize) -> Option<Po> {
    let mut e: Po = [(0usize, 1i128)].into_iter().collect();
    let mut mag: i128 = 1;
    let l1: i128 = if N::modulus().is_some() { 1 } else { a.values().try_fold(0i128, |s, x| s.checked_add(x.checked_abs()?))? };
    for _ in 0..n {
        mag = mag.checked_mul(l1.max(1))?;
        if N::modulus().is_none() && mag > N::hi() { return None }
        e = if N::modulus().is_some() { oracle::mulmod::<N>(&e, a)? } else { oracle::norm::<N>(&oracle::mul(&e, a)?) };
        if e.len() > 3000 { return None }
    }
    if N::modulus().is_none() && n >= 1 && !oracle::fits::<N>(a) { return None }
    Some(e)
}
fn c02_run<N: Ring>(c: &Case) -> R {
    let a = oracle::of_dense(&c.p[0]);
    let mut x = dp::<N>(&c.p[0]);
    match c.op.as_str() {
        "pow" => {
            let n = c.n[0] as usize;
            let e = match pow_oracle::<N>(&a, n) { Some(e) => e, None => return Ok(false) };
            return eq::<N>("pow", rv(&x.pow(n).terms), &e);
        }
        op if SCAL.contains(&op) => {
            let s = N::of(c.n[0]);
            let e = match scal::<N>(op, &a, c.n[0]) { Some(e) => e, None => return Ok(false) };
            let r = match op { "smul" => x * s, "smul_assign" => { x *= s; x } "sdiv" => x / s, _ => { x /= s; x } };
            return eq::<N>(op, rv(&r.terms), &e);
        }
        _ => {}
    }
    let b = oracle::of_dense(&c.p[1]);
    if !oracle::mul_exact::<N>(&a, &b) { return Ok(false) }
    let e = if N::modulus().is_some() { oracle::mulmod::<N>(&a, &b).unwrap() } else { oracle::mul(&a, &b).unwrap() };
    let y = dp::<N>(&c.p[1]);
    let r = match c.op.as_str() {
        "mul_vv" => x * y,
        "mul_vr" => x * &y,
        "mul_rv" => &x * y,
        "mul_rr" => &x * &y,
        "mul_assign_v" => { x *= y; x }
        _ => { x *= &y; x }
    };
    eq::<N>(&c.op, rv(&r.terms), &e)
}
pub fn c02(c: &Case) -> R {
    ring!(c.ty.as_str(), N => c02_run::<N>(c))
}
fn mulmag(g: &mut Gen, ty: &str) -> i128 {
    let hi = lohi(ty).1;
    match g.below(4) {
        0 => 1,
        1 => 3,
        2 => (hi as f64).sqrt() as i128 / 8 + 1,
        _ => hi,
    }
}
pub fn scalar_case(g: &mut Gen, op: &str, ty: &str, mk: impl Fn(&mut Gen, i128) -> Case) -> Case {
    let (lo, hi) = lohi(ty);
    let s = if op.starts_with("smul") { let m = mulmag(g, ty); g.val(ty, m) } else { let m = if g.p(1, 2) { 9 } else { hi }; g.nz(ty, m) };
    let m = match s.checked_abs() { Some(a) if a > 0 && !is_field(ty) => hi / a, _ => hi };
    let mut c = mk(g, if op.starts_with("smul") { m } else { m });
    if op.starts_with("sdiv") && !is_field(ty) {
        let fix = |x: &mut i128| { *x = x.checked_mul(s).filter(|y| lo <= *y && *y <= hi).unwrap_or(s) };
        c.p.iter_mut().flatten().for_each(fix);
        c.m.iter_mut().flatten().for_each(|(_, x)| fix(x));
    }
    c.n = vec![s];
    c.op = op.into();
    c.ty = ty.into();
    c
}
trait ZeroP { fn zp(&mut self) -> bool; }
impl ZeroP for Gen { fn zp(&mut self) -> bool { self.p(1, 2) } }
pub fn c02_rand(g: &mut Gen) -> Case {
    let ty = *g.pick(RING);
    match g.below(10) {
        0 => {
            let n = match g.below(4) { 0 => g.below(4), 1 | 2 => g.below(12), _ => g.below(40) };
            let m = if g.zp() { 1 } else { 3 };
            let a = g.dense(ty, m, 6);
            Case { op: "pow".into(), ty: ty.into(), p: vec![a], n: vec![n as i128], ..Default::default() }
        }
        1 | 2 => {
            let op = *g.pick(SCAL);
            scalar_case(g, op, ty, |g, m| Case { p: vec![g.dense(ty, m, 3000)], ..Default::default() })
        }
        _ => {
            let op = *g.pick(MULS);
            let (m1, m2) = (mulmag(g, ty), mulmag(g, ty));
            let lim = if g.p(1, 60) { 1200 } else { 80 };
            let a = g.dense(ty, m1, lim);
            let b = if g.p(1, 6) { a.clone() } else { g.dense(ty, m2, lim) };
            Case { op: op.into(), ty: ty.into(), p: vec![a, b], ..Default::default() }
        }
    }
}
pub fn c02_ex(f: &mut dyn FnMut(Case) -> bool) {
    pairs(MULS, &["i64", "gf3"], &all_vecs(&[0, 1, -1, 2], 3), f);
    pairs(&["mul_vv", "mul_rr"], &["i64"], &all_vecs(&[0, 1], 6), f);
    for a in all_vecs(&[0, 1, -1, 2], 3) {
        for n in 0..7 {
            for ty in ["i64", "gf7"] {
                if !f(Case { op: "pow".into(), ty: ty.into(), p: vec![a.clone()], n: vec![n], ..Default::default() }) { return }
            }
        }
        for op in SCAL {
            for s in -3..4 {
                if !f(Case { op: op.to_string(), ty: "gf7".into(), p: vec![a.clone()], n: vec![s], ..Default::default() }) { return }
                if !f(Case { op: op.to_string(), ty: "i32".into(), p: vec![a.clone()], n: vec![s], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C03
pub const C03: &[&str] = &["add", "add_assign", "sub", "sub_assign", "sub_dense", "neg"];
fn c03_add<N: Ring>(c: &Case) -> R {
    let (a, b) = (oracle::of_terms(&c.m[0]).unwrap(), oracle::of_terms(&c.m[1]).unwrap());
    let e = match oracle::add(&a, &b) { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
    let (mut x, y) = (sp::<N>(&c.m[0]), sp::<N>(&c.m[1]));
    let r = match c.op.as_str() { "add" => x + y, _ => { x += y; x } };
    eq::<N>(&c.op, rm(&r.terms), &e)
}
fn c03_sub<N: Signed>(c: &Case) -> R {
    let a = oracle::of_terms(&c.m[0]).unwrap();
    let b = if c.op == "sub_dense" { oracle::of_dense(&c.p[0]) } else if c.op == "neg" { Po::new() } else { oracle::of_terms(&c.m[1]).unwrap() };
    let e = match if c.op == "neg" { oracle::neg(&a) } else { oracle::sub(&a, &b) } { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
    let mut x = sp::<N>(&c.m[0]);
    let r = match c.op.as_str() {
        "sub" => x - sp::<N>(&c.m[1]),
        "sub_assign" => { x -= sp::<N>(&c.m[1]); x }
        "sub_dense" => x - dp::<N>(&c.p[0]),
        _ => -x,
    };
    eq::<N>(&c.op, rm(&r.terms), &e)
}
pub fn c03(c: &Case) -> R {
    if c.op.starts_with("add") { ring!(c.ty.as_str(), N => c03_add::<N>(c)) } else { signed!(c.ty.as_str(), N => c03_sub::<N>(c)) }
}
pub fn c03_rand(g: &mut Gen) -> Case {
    let op = *g.pick(C03);
    let ty = *g.pick(if op.starts_with("add") { RING } else { SIGNED });
    let mag = if g.p(1, 3) { i128::MAX } else { lohi(ty).1 / 2 };
    let a = g.sparse(ty, mag, usize::MAX);
    if op == "sub_dense" {
        let p = g.dense(ty, mag, 400);
        return Case { op: op.into(), ty: ty.into(), m: vec![a], p: vec![p], ..Default::default() };
    }
    let b = match g.below(4) {
        0 => a.clone(),
        1 if !is_unsigned(ty) => a.iter().map(|(d, x)| (*d, x.checked_neg().unwrap_or(0))).collect(),
        _ => g.sparse(ty, mag, usize::MAX),
    };
    Case { op: op.into(), ty: ty.into(), m: vec![a, b], ..Default::default() }
}
pub fn mpairs(ops: &[&str], tys: &[&str], vs: &[Vec<(usize, i128)>], f: &mut dyn FnMut(Case) -> bool) {
    for a in vs {
        for b in vs {
            for ty in tys {
                for op in ops {
                    if !f(Case { op: op.to_string(), ty: ty.to_string(), m: vec![a.clone(), b.clone()], ..Default::default() }) { return }
                }
            }
        }
    }
}
pub fn c03_ex(f: &mut dyn FnMut(Case) -> bool) {
    let ms = all_maps(&[0, 1, 5], &[0, 1, -1, 2]);
    mpairs(&["add", "add_assign", "sub", "sub_assign", "neg"], &["i32"], &ms, f);
    for m in &ms {
        for p in all_vecs(&[0, 1, -1], 3) {
            if !f(Case { op: "sub_dense".into(), ty: "i32".into(), m: vec![m.clone()], p: vec![p], ..Default::default() }) { return }
        }
    }
}

// ---------------------------------------------------------------- C04
pub const C04M: &[&str] = &["mul_vv", "mul_vr", "mul_assign_v", "mul_assign_r", "borrow_mul"];
fn c04_run<N: Ring>(c: &Case) -> R {
    let a = oracle::of_terms(&c.m[0]).unwrap();
    let mut x = sp::<N>(&c.m[0]);
    match c.op.as_str() {
        "pow" => {
            let n = c.n[0] as usize;
            if oracle::degree(&a).unwrap_or(0).checked_mul(n).is_none() || a.keys().any(|d| d.checked_mul(n.max(1)).is_none()) { return Ok(false) }
            let e = match pow_oracle::<N>(&a, n) { Some(e) => e, None => return Ok(false) };
            return eq::<N>("pow", rm(&x.pow(n).terms), &e);
        }
        op if SCAL.contains(&op) => {
            let s = N::of(c.n[0]);
            let e = match scal::<N>(op, &a, c.n[0]) { Some(e) => e, None => return Ok(false) };
            let r = match op { "smul" => x * s, "smul_assign" => { x *= s; x } "sdiv" => x / s, _ => { x /= s; x } };
            return eq::<N>(op, rm(&r.terms), &e);
        }
        _ => {}
    }
    let b = oracle::of_terms(&c.m[1]).unwrap();
    // Degrees must be representable for every pair of stored entries.
    if let (Some(p), Some(q)) = (a.keys().last(), b.keys().last()) { if p.checked_add(*q).is_none() { return Ok(false) } }
    if !oracle::mul_exact::<N>(&a, &b) { return Ok(false) }
    let e = if N::modulus().is_some() { oracle::mulmod::<N>(&a, &b).unwrap() } else { oracle::mul(&a, &b).unwrap() };
    let y = sp::<N>(&c.m[1]);
    let r = match c.op.as_str() {
        "mul_vv" => x * y,
        "mul_vr" => x * &y,
        "mul_assign_v" => { x *= y; x }
        "mul_assign_r" => { x *= &y; x }
        _ => x.borrow_mul(&y),
    };
    eq::<N>(&c.op, rm(&r.terms), &e)
}
pub fn c04(c: &Case) -> R {
    ring!(c.ty.as_str(), N => c04_run::<N>(c))
}
pub fn c04_rand(g: &mut Gen) -> Case {
    let ty = *g.pick(RING);
    match g.below(10) {
        0 => {
            let n = match g.below(4) { 0 => g.below(4), 1 | 2 => g.below(12), _ => g.below(40) };
            let m = if g.zp() { 1 } else { 3 };
            let mut a = g.sparse(ty, m, 1 << 40);
            a.truncate(4);
            Case { op: "pow".into(), ty: ty.into(), m: vec![a], n: vec![n as i128], ..Default::default() }
        }
        1 | 2 => {
            let op = *g.pick(SCAL);
            scalar_case(g, op, ty, |g, m| Case { m: vec![g.sparse(ty, m, usize::MAX)], ..Default::default() })
        }
        _ => {
            let op = *g.pick(C04M);
            let (m1, m2) = (mulmag(g, ty), mulmag(g, ty));
            let a = g.sparse(ty, m1, usize::MAX / 2);
            let b = if g.p(1, 6) { a.clone() } else { g.sparse(ty, m2, usize::MAX / 2) };
            Case { op: op.into(), ty: ty.into(), m: vec![a, b], ..Default::default() }
        }
    }
}
pub fn c04_ex(f: &mut dyn FnMut(Case) -> bool) {
    let ms = all_maps(&[0, 1, 2], &[0, 1, -1, 2]);
    mpairs(C04M, &["i64"], &ms, f);
    for a in ms {
        for n in 0..7 {
            for ty in ["i64", "gf7"] {
                if !f(Case { op: "pow".into(), ty: ty.into(), m: vec![a.clone()], n: vec![n], ..Default::default() }) { return }
            }
        }
        for op in SCAL {
            for s in -3..4 {
                if !f(Case { op: op.to_string(), ty: "i32".into(), m: vec![a.clone()], n: vec![s], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C05
pub const C05MO: &[&str] = &["mo_mul_v", "mo_mul_r", "mo_mul_assign_v", "mo_mul_assign_r", "mo_smul", "mo_smul_assign", "mo_sdiv", "mo_sdiv_assign"];
pub const C05FX: &[&str] = &["add", "add_assign", "smul", "smul_assign", "sdiv", "sdiv_assign"];
pub const C05SG: &[&str] = &["mo_neg", "bi_neg", "bi_sub", "bi_sub_assign", "tr_neg", "tr_sub", "tr_sub_assign"];
fn c05_ring<N: Ring>(c: &Case) -> R {
    let op = &c.op[3..];
    if c.op.starts_with("mo_") {
        let a = oracle::of_terms(&c.m[0]).unwrap();
        let mut x = mo::<N>(&c.m[0]);
        if SCAL.contains(&op) {
            let s = N::of(c.n[0]);
            let e = match scal::<N>(op, &a, c.n[0]) { Some(e) => e, None => return Ok(false) };
            let r = match op { "smul" => x * s, "smul_assign" => { x *= s; x } "sdiv" => x / s, _ => { x /= s; x } };
            return eq::<N>(&c.op, ro(&r), &e);
        }
        let b = oracle::of_terms(&c.m[1]).unwrap();
        if c.m[0][0].0.checked_add(c.m[1][0].0).is_none() || !oracle::mul_exact::<N>(&a, &b) { return Ok(false) }
        let e = if N::modulus().is_some() { oracle::mulmod::<N>(&a, &b).unwrap() } else { oracle::mul(&a, &b).unwrap() };
        let y = mo::<N>(&c.m[1]);
        let r = match op { "mul_v" => x * y, "mul_r" => x * &y, "mul_assign_v" => { x *= y; x } _ => { x *= &y; x } };
        return eq::<N>(&c.op, ro(&r), &e);
    }
    let a = oracle::of_dense(&c.p[0]);
    macro_rules! go { ($mk:ident) => {{
        let mut x = $mk::<N>(&c.p[0]);
        if SCAL.contains(&op) {
            let s = N::of(c.n[0]);
            let e = match scal::<N>(op, &a, c.n[0]) { Some(e) => e, None => return Ok(false) };
            let r = match op { "smul" => x * s, "smul_assign" => { x *= s; x } "sdiv" => x / s, _ => { x /= s; x } };
            eq::<N>(&c.op, rv(&r.coefficients), &e)
        } else {
            let b = oracle::of_dense(&c.p[1]);
            let e = match oracle::add(&a, &b) { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
            let y = $mk::<N>(&c.p[1]);
            let r = match op { "add" => x + y, _ => { x += y; x } };
            eq::<N>(&c.op, rv(&r.coefficients), &e)
        }
    }}; }
    if c.op.starts_with("bi_") { go!(bi) } else { go!(tr) }
}
fn c05_signed<N: Signed>(c: &Case) -> R {
    let op = &c.op[3..];
    if c.op == "mo_neg" {
        let e = match oracle::neg(&oracle::of_terms(&c.m[0]).unwrap()) { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
        return eq::<N>(&c.op, ro(&-mo::<N>(&c.m[0])), &e);
    }
    let a = oracle::of_dense(&c.p[0]);
    macro_rules! go { ($mk:ident) => {{
        let mut x = $mk::<N>(&c.p[0]);
        if op == "neg" {
            let e = match oracle::neg(&a) { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
            eq::<N>(&c.op, rv(&(-x).coefficients), &e)
        } else {
            let b = oracle::of_dense(&c.p[1]);
            let e = match oracle::sub(&a, &b) { Some(e) if oracle::fits::<N>(&e) => e, _ => return Ok(false) };
            let y = $mk::<N>(&c.p[1]);
            let r = match op { "sub" => x - y, _ => { x -= y; x } };
            eq::<N>(&c.op, rv(&r.coefficients), &e)
        }
    }}; }
    if c.op.starts_with("bi_") { go!(bi) } else { go!(tr) }
}
pub fn c05(c: &Case) -> R {
    if c.op == "mo_pow" {
        return crate::prim!(c.ty.as_str(), N => {
            let (d, k) = c.m[0][0];
            let n = c.n[0] as usize;
            if d.checked_mul(n).is_none() { return Ok(false) }
            let e = match ipow(k, n) { Some(e) if N::fits(e) => e, _ => return Ok(false) };
            eq::<N>("mo_pow", ro(&mo::<N>(&c.m[0]).pow(n)), &[(d * n, e)].into_iter().collect())
        });
    }
    if C05SG.contains(&c.op.as_str()) { signed!(c.ty.as_str(), N => c05_signed::<N>(c)) } else { ring!(c.ty.as_str(), N => c05_ring::<N>(c)) }
}
pub fn ipow(k: i128, n: usize) -> Option<i128> {
    match k {
        0 => Some((n == 0) as i128),
        1 => Some(1),
        -1 => Some(if n % 2 == 0 { 1 } else { -1 }),
        _ => if n > 127 { None } else { k.checked_pow(n as u32) },
    }
}
pub fn c05_rand(g: &mut Gen) -> Case {
    match g.below(4) {
        0 => {
            let op = *g.pick(C05SG);
            let ty = *g.pick(SIGNED);
            let mag = lohi(ty).1;
            let k = if op.starts_with("bi") { 2 } else { 3 };
            let p = (0..2).map(|_| (0..k).map(|_| { let m = if g.zp() { mag } else { mag / 2 }; g.val(ty, m) }).collect()).collect();
            let m = vec![vec![(g.deg(usize::MAX), g.val(ty, mag))]];
            Case { op: op.into(), ty: ty.into(), p, m, ..Default::default() }
        }
        1 => {
            let ty = *g.pick(PRIM);
            let n = g.deg(usize::MAX);
            let k = if n > 127 { g.below(3) as i128 - 1 } else { let m = if g.zp() { 3 } else { lohi(ty).1 }; g.val(ty, m) };
            let k = if is_unsigned(ty) { k.abs() } else { k };
            let d = if g.zp() { g.deg(9) } else { g.deg(usize::MAX) };
            Case { op: "mo_pow".into(), ty: ty.into(), m: vec![vec![(d, k)]], n: vec![n as i128], ..Default::default() }
        }
        2 => {
            let op = *g.pick(C05MO);
            let ty = *g.pick(RING);
            if SCAL.contains(&&op[3..]) {
                let mut c = scalar_case(g, &op[3..], ty, |g, m| Case { m: vec![vec![(g.deg(usize::MAX), g.val(ty, m))]], ..Default::default() });
                c.op = op.into();
                return c;
            }
            let (m1, m2) = (mulmag(g, ty), mulmag(g, ty));
            let m = vec![vec![(g.deg(usize::MAX / 2), g.val(ty, m1))], vec![(g.deg(usize::MAX / 2), g.val(ty, m2))]];
            Case { op: op.into(), ty: ty.into(), m, ..Default::default() }
        }
        _ => {
            let op = *g.pick(C05FX);
            let ty = *g.pick(RING);
            let (pre, k) = if g.zp() { ("bi_", 2) } else { ("tr_", 3) };
            if SCAL.contains(&op) {
                let mut c = scalar_case(g, op, ty, |g, m| Case { p: vec![(0..k).map(|_| g.val(ty, m)).collect()], ..Default::default() });
                c.op = format!("{}{}", pre, op);
                return c;
            }
            let mag = if g.zp() { lohi(ty).1 } else { lohi(ty).1 / 2 };
            let p = (0..2).map(|_| (0..k).map(|_| g.val(ty, mag)).collect()).collect();
            Case { op: format!("{}{}", pre, op), ty: ty.into(), p, ..Default::default() }
        }
    }
}
pub fn c05_ex(f: &mut dyn FnMut(Case) -> bool) {
    for (pre, k) in [("bi_", 2), ("tr_", 3)] {
        let vs: Vec<Vec<i128>> = all_vecs(&[0, 1, -1, 2], k).into_iter().filter(|v| v.len() == k).collect();
        for a in &vs {
            for b in &vs {
                for op in ["add", "add_assign", "sub", "sub_assign", "neg"] {
                    if !f(Case { op: format!("{}{}", pre, op), ty: "i32".into(), p: vec![a.clone(), b.clone()], ..Default::default() }) { return }
                }
            }
            for s in -3..4 {
                for op in SCAL {
                    if !f(Case { op: format!("{}{}", pre, op), ty: "gf7".into(), p: vec![a.clone()], n: vec![s], ..Default::default() }) { return }
                }
            }
        }
    }
    for d in 0..5usize {
        for k in -3..4i128 {
            for n in 0..6 {
                if !f(Case { op: "mo_pow".into(), ty: "i64".into(), m: vec![vec![(d, k)]], n: vec![n], ..Default::default() }) { return }
            }
            if !f(Case { op: "mo_neg".into(), ty: "i64".into(), m: vec![vec![(d, k)]], ..Default::default() }) { return }
            for e in 0..5usize {
                for l in -3..4i128 {
                    for op in C05MO {
                        if !f(Case { op: op.to_string(), ty: "i64".into(), m: vec![vec![(d, k)], vec![(e, l)]], n: vec![l], ..Default::default() }) { return }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C06
pub const SH: &[&str] = &["shl", "shl_assign", "shr", "shr_assign"];
fn shift(a: &Po, k: i128) -> Option<Po> {
    let mut r = Po::new();
    for (d, x) in a {
        let e = *d as i128 + k;
        if e >= 0 { r.insert(usize::try_from(e).ok()?, *x); }
    }
    Some(r)
}
fn c06_run<N: Ring>(c: &Case) -> R {
    let k = c.n[0];
    let (kind, op) = c.op.split_at(3);
    let eff = if op.starts_with("shl") { k } else { -k };
    macro_rules! go { ($x:expr, $k:expr) => {{
        let mut x = $x;
        match op { "shl" => x << $k, "shl_assign" => { x <<= $k; x } "shr" => x >> $k, _ => { x >>= $k; x } }
    }}; }
    macro_rules! gor { ($x:expr, $k:expr) => {{
        let mut x = $x;
        match op { "shr" => x >> $k, _ => { x >>= $k; x } }
    }}; }
    match kind {
        "de_" => {
            if eff > 6000 { return Ok(false) }
            let e = shift(&oracle::of_dense(&c.p[0]), eff).unwrap();
            eq::<N>(&c.op, rv(&go!(dp::<N>(&c.p[0]), k as i32).terms), &e)
        }
        "sp_" => {
            let e = match shift(&oracle::of_terms(&c.m[0]).unwrap(), eff) { Some(e) => e, None => return Ok(false) };
            eq::<N>(&c.op, rm(&go!(sp::<N>(&c.m[0]), k as i32).terms), &e)
        }
        "mo_" => {
            let e = match shift(&oracle::of_terms(&c.m[0]).unwrap(), eff) { Some(e) => e, None => return Ok(false) };
            eq::<N>(&c.op, ro(&go!(mo::<N>(&c.m[0]), k as i32)), &e)
        }
        "bi_" => eq::<N>(&c.op, rv(&gor!(bi::<N>(&c.p[0]), k as u32).coefficients), &shift(&oracle::of_dense(&c.p[0]), -k).unwrap()),
        _ => eq::<N>(&c.op, rv(&gor!(tr::<N>(&c.p[0]), k as u32).coefficients), &shift(&oracle::of_dense(&c.p[0]), -k).unwrap()),
    }
}
pub fn c06(c: &Case) -> R {
    ring!(c.ty.as_str(), N => c06_run::<N>(c))
}
pub fn c06_rand(g: &mut Gen) -> Case {
    let ty = *g.pick(RING);
    let (_, hi) = lohi(ty);
    let op = *g.pick(SH);
    let big = match g.below(6) {
        0 => g.deg(i32::MAX as usize) as i128,
        1 => i32::MAX as i128,
        2 => g.below(100) as i128,
        _ => g.below(12) as i128,
    };
    let k = if g.zp() { big } else if big == i32::MAX as i128 && g.zp() { i32::MIN as i128 } else { -big };
    match g.below(5) {
        0 | 1 => {
            let a = g.dense(ty, hi, 400);
            let k = if g.p(1, 3) { let l = a.len() as i128; let d = g.below(5) as i128 - 2; (l + d) * if op.starts_with("shr") { 1 } else { -1 } } else { k };
            Case { op: format!("de_{}", op), ty: ty.into(), p: vec![a], n: vec![k], ..Default::default() }
        }
        2 => {
            let m = g.sparse(ty, hi, usize::MAX);
            let k = if k != i32::MIN as i128 && g.p(1, 3) && !m.is_empty() { let d = m[g.below(m.len())].0.min(1 << 30) as i128 + g.below(3) as i128 - 1; if op.starts_with("shr") { d } else { -d } } else { k };
            Case { op: format!("sp_{}", op), ty: ty.into(), m: vec![m], n: vec![k], ..Default::default() }
        }
        3 => {
            let d = g.deg(usize::MAX);
            let k = if g.p(1, 3) { let d = d.min(1 << 30) as i128 + g.below(3) as i128 - 1; if op.starts_with("shr") { d } else { -d } } else { k };
            Case { op: format!("mo_{}", op), ty: ty.into(), m: vec![vec![(d, g.val(ty, hi))]], n: vec![k], ..Default::default() }
        }
        _ => {
            let op = if g.zp() { "shr" } else { "shr_assign" };
            let k = match g.below(4) { 0 => u32::MAX as i128, 1 => g.u() as u32 as i128, _ => g.below(5) as i128 };
            let (pre, l) = if g.zp() { ("bi_", 2) } else { ("tr_", 3) };
            Case { op: format!("{}{}", pre, op), ty: ty.into(), p: vec![(0..l).map(|_| g.val(ty, hi)).collect()], n: vec![k], ..Default::default() }
        }
    }
}
pub fn c06_ex(f: &mut dyn FnMut(Case) -> bool) {
    for a in all_vecs(&[0, 1, -1], 5) {
        for k in (-8..9).chain([i32::MIN as i128, -(i32::MAX as i128), i32::MAX as i128]) {
            for op in SH {
                if !f(Case { op: format!("de_{}", op), ty: "i32".into(), p: vec![a.clone()], n: vec![k], ..Default::default() }) { return }
            }
        }
        if a.len() == 2 || a.len() == 3 {
            for k in 0..6 {
                for op in ["shr", "shr_assign"] {
                    if !f(Case { op: format!("{}{}", if a.len() == 2 { "bi_" } else { "tr_" }, op), ty: "i32".into(), p: vec![a.clone()], n: vec![k], ..Default::default() }) { return }
                }
            }
        }
    }
    for m in all_maps(&[0, 1, 2, 7], &[0, 1, 2]) {
        for k in (-10..11).chain([i32::MIN as i128, -(i32::MAX as i128), i32::MAX as i128]) {
            for op in SH {
                if !f(Case { op: format!("sp_{}", op), ty: "i32".into(), m: vec![m.clone()], n: vec![k], ..Default::default() }) { return }
                if m.len() == 1 && !f(Case { op: format!("mo_{}", op), ty: "i32".into(), m: vec![m.clone()], n: vec![k], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C07
pub const C07: &[&str] = &["de_div_mod", "de_floor_div", "de_rem", "de_rem_assign", "sp_div_mod", "sp_rem", "sp_rem_assign"];
/// Reference long division. Ok((q, r, exact)): with truncating steps exact is false. None: not representable.
fn divide<N: Ty>(a: &Po, b: &Po) -> Option<(Po, Po, bool)> {
    let bd = oracle::degree(b)?;
    let bl = b[&bd];
    let inv = match N::modulus() { Some(m) => Some((1..m).find(|k| (k * bl) % m == 1)?), None => None };
    let (mut q, mut r, mut exact) = (Po::new(), a.clone(), true);
    let mut steps = 0;
    loop {
        let rd = match oracle::degree(&r) { Some(d) if d >= bd => d, _ => break };
        steps += 1;
        if steps > 3000 { return None }
        let rl = r[&rd];
        let s = match inv { Some(i) => (rl * i) % N::modulus().unwrap(), None => { if bl == -1 && rl == N::lo() { return None } if rl % bl != 0 { exact = false } rl / bl } };
        if s == 0 { break }
        let t: Po = [(rd - bd, s)].into_iter().collect();
        let sb = if inv.is_some() { oracle::mulmod::<N>(&t, b)? } else { oracle::mul(&t, b)? };
        if !oracle::fits::<N>(&sb) { return None }
        if inv.is_none() && sb.values().any(|v| !N::fits(-v) || !N::fits(*v)) { return None }
        r = if inv.is_some() { oracle::norm::<N>(&oracle::sub(&r, &sb)?) } else { oracle::sub(&r, &sb)? };
        q = oracle::add(&q, &t)?;
        if !oracle::fits::<N>(&r) || !oracle::fits::<N>(&q) { return None }
    }
    Some((q, r, exact))
}
fn c07_run<N: Signed>(c: &Case) -> R {
    let de = c.op.starts_with("de_");
    let (a, b) = if de { (oracle::of_dense(&c.p[0]), oracle::of_dense(&c.p[1])) } else { (oracle::of_terms(&c.m[0]).unwrap(), oracle::of_terms(&c.m[1]).unwrap()) };
    let (a, b) = (oracle::norm::<N>(&a), oracle::norm::<N>(&b));
    let zero = b.is_empty();
    let want = if zero { None } else { match divide::<N>(&a, &b) { Some(x) => Some(x), None => return Ok(false) } };
    if let Some((_, _, false)) = want { if c.ty.starts_with('f') { return Ok(false) } }
    let op = &c.op[3..];
    let go = || -> Result<(Option<Po>, Option<Po>), String> {
        Ok(if de {
            let (mut x, y) = (dp::<N>(&c.p[0]), dp::<N>(&c.p[1]));
            match op {
                "div_mod" => { let (q, r) = x.div_mod(&y); (Some(rv(&q.terms)?), Some(rv(&r.terms)?)) }
                "floor_div" => (Some(rv(&x.floor_div(&y).terms)?), None),
                "rem" => (None, Some(rv(&(x % y).terms)?)),
                _ => { x %= y; (None, Some(rv(&x.terms)?)) }
            }
        } else {
            let (mut x, y) = (sp::<N>(&c.m[0]), sp::<N>(&c.m[1]));
            match op {
                "div_mod" => { let (q, r) = x.div_mod(&y); (Some(rm(&q.terms)?), Some(rm(&r.terms)?)) }
                "rem" => (None, Some(rm(&(x % y).terms)?)),
                _ => { x %= y; (None, Some(rm(&x.terms)?)) }
            }
        })
    };
    let (wq, wr, exact) = match want {
        None => {
            return match crate::quiet(go) {
                Err(_) => Ok(true),
                Ok(_) => Err(format!("{}: dividing by zero did not panic", c.op)),
            }
        }
        Some(w) => w,
    };
    let (q, r) = go()?;
    if exact {
        if let Some(q) = &q { eq::<N>(&format!("{} quotient", c.op), Ok(q.clone()), &wq)?; }
        if let Some(r) = &r { eq::<N>(&format!("{} remainder", c.op), Ok(r.clone()), &wr)?; }
        return Ok(true);
    }
    // Truncated steps: a = q*b + r must still hold.
    match (q, r) {
        (Some(q), Some(r)) => {
            let s = oracle::mul(&q, &b).and_then(|p| oracle::add(&p, &r));
            match s { Some(s) => eq::<N>(&format!("{} q*b+r", c.op), Ok(s), &a), None => Ok(false) }
        }
        (Some(q), None) => eq::<N>(&format!("{} quotient", c.op), Ok(q), &wq),
        (None, Some(r)) => eq::<N>(&format!("{} remainder", c.op), Ok(r), &wr),
        _ => Ok(true),
    }
}
pub fn c07(c: &Case) -> R {
    signed!(c.ty.as_str(), N => c07_run::<N>(c))
}
fn to_vec(m: &Po, pad: usize) -> Vec<i128> {
    let n = oracle::degree(m).map_or(0, |d| d + 1);
    let mut v = vec![0; pad];
    v.extend((0..n).rev().map(|d| *m.get(&d).unwrap_or(&0)));
    v
}
pub fn c07_rand(g: &mut Gen) -> Case {
    let op = *g.pick(C07);
    let ty = if g.p(2, 3) { *g.pick(&["gf3", "gf7", "gf10007", "gf10007"]) } else { *g.pick(&["i32", "i64", "i128", "i16", "f64", "f32"]) };
    let de = op.starts_with("de_");
    let mag = if is_field(ty) { 10006 } else { *g.pick(&[1, 3, 9, 100]) };
    let lim = if g.p(1, 20) { 150 } else { 14 };
    let (mut a, mut b) = (g.dense(ty, mag, lim), g.dense(ty, mag, lim / 2 + 1));
    if !is_field(ty) && g.p(3, 4) && !b.is_empty() {
        // Exact cases: a monic divisor, or a multiple of it plus a small remainder.
        if g.zp() { b[0] = if g.zp() { 1 } else { -1 }; }
        let q = g.dense(ty, mag, 6);
        let r = g.dense(ty, mag, b.len().saturating_sub(1));
        let s = oracle::mul(&oracle::of_dense(&q), &oracle::of_dense(&b)).and_then(|p| oracle::add(&p, &oracle::of_dense(&r)));
        if let Some(s) = s { let pad = g.below(3); a = to_vec(&s, pad); }
    }
    if g.p(1, 30) { b.iter_mut().for_each(|x| *x = 0) }
    if g.p(1, 3) { let mut v = vec![0; g.below(6)]; v.extend(&b); b = v }
    if de {
        Case { op: op.into(), ty: ty.into(), p: vec![a, b], ..Default::default() }
    } else {
        let st = if g.zp() { 1 } else { 1 + g.below(20) };
        let keep = g.p(1, 2);
        let f = |v: &Vec<i128>| -> Vec<(usize, i128)> { let n = v.len(); let mut o: Vec<(usize, i128)> = v.iter().enumerate().map(|(i, x)| ((n - 1 - i) * st, *x)).filter(|(_, x)| keep || *x != 0).collect(); o.reverse(); o };
        Case { op: op.into(), ty: ty.into(), m: vec![f(&a), f(&b)], ..Default::default() }
    }
}
pub fn c07_ex(f: &mut dyn FnMut(Case) -> bool) {
    pairs(&C07[..4], &["gf3"], &all_vecs(&[0, 1, 2], 4), f);
    pairs(&C07[..4], &["i32"], &all_vecs(&[0, 1, -1, 2], 3), f);
    mpairs(&C07[4..], &["gf3"], &all_maps(&[0, 1, 2, 3], &[0, 1, 2]), f);
    mpairs(&C07[4..], &["i32"], &all_maps(&[0, 1, 3], &[0, 1, -1, 2]), f);
}
