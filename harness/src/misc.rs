//! C15-C20: text, conversions, roots, executed.
use num::Zero;
use crate::arith::*;
use crate::gen::*;
use crate::obs::*;
use crate::oracle::{self, Po};
use crate::ty::*;
use crate::{prim, sprim};
use num::{Complex, One};
use rustnomial::*;
use std::collections::BTreeMap;
use std::fmt::Display;
use std::str::FromStr;

// ---------------------------------------------------------------- C15
#[derive(Debug, Clone, PartialEq)]
pub enum Want<N> { Fail, Unspecified, Terms(Vec<(N, usize)>) }
/// Reference reader, written from the statement.
pub fn read_poly<N: FromStr + One + Ty>(s: &str) -> Want<N> {
    if s.is_empty() { return Want::Fail }
    if s.chars().any(|c| !matches!(c, '+' | '-' | '.' | 'x' | '^' | '0'..='9' | ' ' | ',' | '_')) { return Want::Fail }
    let mut terms: Vec<String> = vec![];
    for c in s.chars() {
        let fresh = terms.is_empty() || ((c == '+' || c == '-') && !(terms.len() == 1 && terms[0].chars().all(|k| k == ' ')));
        if fresh { terms.push(String::new()) }
        terms.last_mut().unwrap().push(c);
    }
    let mut out = vec![];
    let mut unspecified = false;
    for t in terms {
        let had_sep = t.chars().any(|c| c == ',' || c == '_');
        let t: String = t.chars().filter(|c| !matches!(c, ' ' | ',' | '_')).collect();
        if t.is_empty() {
            if had_sep { unspecified = true; continue }
            return Want::Fail;
        }
        let xs = t.matches('x').count();
        let cs = t.matches('^').count();
        if xs > 1 || cs > 1 { return Want::Fail }
        if cs == 1 && (xs == 0 || t.find('^') < t.find('x')) { return Want::Fail }
        if xs == 0 {
            match N::from_str(&t) { Ok(v) => out.push((v, 0)), Err(_) => return Want::Fail }
            continue;
        }
        let (co, rest) = t.split_once('x').unwrap();
        let co = match co {
            "" | "+" | "-" => N::from_str(&format!("{}1", co)),
            _ => N::from_str(co),
        };
        let co = match co { Ok(v) => v, Err(_) => return Want::Fail };
        if rest.is_empty() { out.push((co, 1)); continue }
        match rest.strip_prefix('^') {
            None => {
                // digits directly after x are unspecified, unless something else already fails
                if rest.ends_with('^') && rest.len() == 1 { return Want::Fail }
                unspecified = true;
            }
            Some("") => return Want::Fail,
            Some(d) => match usize::from_str(d) { Ok(d) => out.push((co, d)), Err(_) => return Want::Fail },
        }
    }
    if unspecified { Want::Unspecified } else { Want::Terms(out) }
}
/// State after adding the terms in order; None: unspecified here (inexact, huge), Some(Err): refused.
fn build<N: Ty + std::ops::Add<Output = N> + std::ops::Sub<Output = N>>(kind: &str, t: &[(N, usize)]) -> Option<Result<BTreeMap<usize, N>, ()>> {
    let float = N::NAME.starts_with('f');
    let mut st: BTreeMap<usize, N> = BTreeMap::new();
    for (c, d) in t {
        let cz = c.is_zero();
        let room = match kind {
            "bi" => *d <= 1,
            "tr" => *d <= 2,
            "mo" => st.is_empty() || st.contains_key(d),
            _ => true,
        };
        if cz { continue }
        if !room { return Some(Err(())) }
        if kind == "de" && *d > 20000 { return None }
        let cur = st.get(d).copied().unwrap_or_else(N::zero);
        let s = if float {
            // only sums without rounding: their order does not matter
            let s = cur + *c;
            if s - cur != *c || s - *c != cur { return None }
            s
        } else {
            match (cur.to(), c.to()) { (Some(a), Some(b)) if N::fits(a.checked_add(b)?) => N::of(a + b), _ => { if cur.is_zero() { *c } else { return None } } }
        };
        if s.is_zero() { st.remove(d); } else { st.insert(*d, s); }
    }
    Some(Ok(st))
}
fn ask<P: FromStr, N: Ty>(s: &str, read: impl Fn(P) -> BTreeMap<usize, N>) -> Result<BTreeMap<usize, N>, ()> {
    P::from_str(s).map(read).map_err(|_| ())
}
fn mv<N: Ty>(t: &[N]) -> BTreeMap<usize, N> {
    let n = t.len();
    t.iter().enumerate().filter(|(_, x)| !x.is_zero()).map(|(i, x)| (n - 1 - i, *x)).collect()
}
pub fn c15(c: &Case) -> R {
    let s = c.t.as_str();
    let kind = &c.op[..2];
    prim!(c.ty.as_str(), N => {
        let want = read_poly::<N>(s);
        let built = match &want { Want::Terms(t) => build::<N>(kind, t), _ => None };
        // Text the reader leaves unspecified must still not panic, unless it asks for a huge allocation.
        if kind == "de" && built.is_none() && s.len() > 3 { if let Want::Fail = want {} else { return Ok(false) } }
        if let (Want::Terms(_), None) = (&want, &built) { return Ok(false) }
        if matches!(want, Want::Fail) && kind == "de" {
            // a failing text may contain a huge degree before the failing term
            if digits(s) > 4 { return Ok(false) }
        }
        if matches!(want, Want::Fail) && sum_overflow::<N>(s) { return Ok(false) }
        if matches!(want, Want::Unspecified) && (digits(s) > 4 || sum_overflow::<N>(s)) { return Ok(false) }
        let got = match kind {
            "de" => ask::<Polynomial<N>, N>(s, |p| mv(&p.terms)),
            "sp" => ask::<SparsePolynomial<N>, N>(s, |p| p.terms.into_iter().filter(|(_, x)| !x.is_zero()).collect()),
            "mo" => ask::<Monomial<N>, N>(s, |p| [(p.deg, p.coefficient)].into_iter().filter(|(_, x)| !x.is_zero()).collect()),
            "bi" => ask::<LinearBinomial<N>, N>(s, |p| mv(&p.coefficients)),
            _ => ask::<QuadraticTrinomial<N>, N>(s, |p| mv(&p.coefficients)),
        };
        match want {
            Want::Unspecified => Ok(false),
            Want::Fail => if got.is_err() { Ok(true) } else { Err(format!("parsing {:?} as {}<{}> succeeded with {:?}, must fail", s, kind, c.ty, got)) },
            Want::Terms(_) => {
                let w = built.unwrap();
                if w == got { Ok(true) } else { Err(format!("parsing {:?} as {}<{}>: got {:?}, want {:?}", s, kind, c.ty, got, w)) }
            }
        }
    })
}
fn digits(s: &str) -> usize {
    let (mut m, mut k) = (0, 0);
    for c in s.chars() { if c.is_ascii_digit() { k += 1; m = m.max(k) } else if !matches!(c, ' ' | ',' | '_' | '^') { k = 0 } }
    m
}
/// Integer sums may overflow before the failing term is met: count it as possible if magnitudes can add up.
fn sum_overflow<N: Ty>(s: &str) -> bool {
    if N::NAME.starts_with('f') { return false }
    let n = s.chars().filter(|c| *c == '+' || *c == '-').count() + 1;
    let d = digits(s).min(38) as u32;
    n > 1 && (10i128.checked_pow(d).and_then(|p| p.checked_mul(n as i128)).map_or(true, |v| v > N::hi()))
}
fn num_text(g: &mut Gen, ty: &str) -> String {
    match g.below(12) {
        0 => "1".into(),
        1 => "0".into(),
        2 => format!("{}", g.below(10)),
        3..=5 => format!("{}", g.below(400)),
        6 => { let (_, hi) = lohi(ty); format!("{}", (hi - g.below(2) as i128).unsigned_abs() + g.below(3) as u128) }
        7 => { let (lo, _) = lohi(ty); format!("{}", lo.unsigned_abs() + g.below(2) as u128) }
        8 if ty.starts_with('f') => format!("{}.{}", g.below(100), g.below(1000)),
        9 if ty.starts_with('f') => format!("{}", f64::from_bits(g.u()).abs()).replace("NaN", "7").replace("inf", "8"),
        10 => format!("{}{}", "0".repeat(g.below(4)), g.below(100)),
        11 => { let l = g.lit().unwrap_or(3).unsigned_abs(); format!("{}", l) }
        _ => format!("{}", g.val(ty, i128::MAX).unsigned_abs()),
    }
}
pub fn c15_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(PRIM);
    let mut s = String::new();
    if g.p(1, 12) {
        let n = g.below(14);
        for _ in 0..n { s.push(*g.pick(&['+', '-', '.', 'x', '^', ' ', '0', '1', '2', '9', ',', '_', '\t', 'X', 'e', 'é', '٣', '\u{a0}', '−', 'ｘ', '\0', '*', 'y', 'i', 'n', 'f', 'N', 'a'])) }
    } else {
        let n = 1 + g.below(5);
        for i in 0..n {
            if i == 0 && g.p(1, 6) { for _ in 0..g.below(3) { s.push(' ') } }
            if i > 0 || g.p(1, 3) { s.push(if g.p(1, 2) && (!is_unsigned(ty) || g.p(1, 6)) { '-' } else { '+' }) }
            let sep = |g: &mut Gen, s: &mut String| if g.p(1, 5) { s.push(*g.pick(&[' ', ',', '_', ' '])) };
            sep(g, &mut s);
            if g.p(3, 4) {
                let t = num_text(g, ty);
                if g.p(1, 6) { for ch in t.chars() { s.push(ch); sep(g, &mut s) } } else { s.push_str(&t) }
                sep(g, &mut s);
            }
            if g.p(3, 4) {
                s.push('x');
                sep(g, &mut s);
                if g.p(3, 4) {
                    s.push('^');
                    sep(g, &mut s);
                    let d = match kind { "bi" | "tr" if g.p(5, 6) => g.below(3), "de" => g.deg(300), "mo" if g.p(3, 4) => 3, _ => g.deg(usize::MAX) };
                    if g.p(20, 21) { s.push_str(&format!("{}", d)) }
                    if g.p(1, 30) { s.push_str("99999999999999999999") }
                    sep(g, &mut s);
                }
            }
            if g.p(1, 40) { s.push(*g.pick(&['x', '^', '.', '\n', 'e', 'é', '+', '-', '*', '３', 'z'])) }
        }
        if g.p(1, 25) && !s.is_empty() { let i = g.below(s.chars().count()); s = s.chars().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| c).collect() }
    }
    Case { op: format!("{}_parse", kind), ty: ty.into(), t: s, ..Default::default() }
}
pub fn c15_ex(f: &mut dyn FnMut(Case) -> bool) {
    let al: Vec<char> = "+-.x^ 12_".chars().collect();
    let mut cur = vec![String::new()];
    for l in 0..6 {
        let mut nx = vec![];
        for s in &cur {
            let kinds: &[&str] = if l < 5 { KINDS } else { &["sp"] };
            for k in kinds {
                if !f(Case { op: format!("{}_parse", k), ty: "i32".into(), t: s.clone(), ..Default::default() }) { return }
                if l < 4 && !f(Case { op: format!("{}_parse", k), ty: "f64".into(), t: s.clone(), ..Default::default() }) { return }
                if l < 4 && !f(Case { op: format!("{}_parse", k), ty: "u8".into(), t: s.clone(), ..Default::default() }) { return }
            }
            if l < 5 { for c in &al { nx.push(format!("{}{}", s, c)) } }
        }
        cur = nx;
    }
    for ch in (0..0x3000u32).filter_map(char::from_u32) {
        for t in [format!("{}", ch), format!("5x{}", ch), format!("{}5x^2", ch), format!("5{}5", ch), format!("x^{}3", ch)] {
            if !f(Case { op: "sp_parse".into(), ty: "i32".into(), t, ..Default::default() }) { return }
        }
    }
}

// ---------------------------------------------------------------- C16
fn write_ref<N: Ty + Display>(t: &BTreeMap<usize, N>, mag: impl Fn(N) -> (bool, String)) -> String {
    let mut s = String::new();
    for (i, (d, c)) in t.iter().rev().enumerate() {
        let (neg, m) = mag(*c);
        if i > 0 { s.push_str(if neg { " - " } else { " + " }) } else if neg { s.push('-') }
        if *d == 0 || m != "1" { s.push_str(&m) }
        match d { 0 => {} 1 => s.push('x'), _ => s.push_str(&format!("x^{}", d)) }
    }
    if s.is_empty() { "0".into() } else { s }
}
/// Decodes n[i] as a coefficient: integers directly, floats from bits.
fn coef<N: Ty>(v: i128, bits: bool) -> N {
    if bits && N::NAME == "f64" { let x: Box<dyn std::any::Any> = Box::new(f64::from_bits(v as u64)); return *x.downcast::<N>().unwrap() }
    if bits && N::NAME == "f32" { let x: Box<dyn std::any::Any> = Box::new(f32::from_bits(v as u32)); return *x.downcast::<N>().unwrap() }
    N::of(v)
}
pub fn c16(c: &Case) -> R {
    let kind = &c.op[..2];
    let integral = c.op.ends_with("_integral");
    let bits = c.t == "bits";
    prim!(c.ty.as_str(), N => {
        let co: Vec<(usize, N)> = match kind {
            "sp" | "mo" => c.m[0].iter().map(|(d, x)| (*d, coef::<N>(*x, bits))).collect(),
            _ => { let n = c.p[0].len(); c.p[0].iter().enumerate().map(|(i, x)| (n - 1 - i, coef::<N>(*x, bits))).collect() }
        };
        let t: BTreeMap<usize, N> = co.iter().copied().filter(|(_, x)| !x.is_zero()).collect();
        let mag = |x: N| { let s = format!("{}", x); match s.strip_prefix('-') { Some(r) => (true, r.to_string()), None => (false, s) } };
        if t.values().any(|x| { let (_, m) = mag(*x); m == "NaN" || m == "inf" }) { return Ok(false) }
        let want = write_ref(&t, mag);
        macro_rules! go { ($x:expr, $t:ident) => {{
            let x: $t<N> = $x;
            let got = format!("{}", x);
            if got != want { return Err(format!("{} displays as {:?}, want {:?}", c.op, got, want)) }
            match <$t<N> as FromStr>::from_str(&got) {
                Ok(y) if y == x => Ok(true),
                Ok(y) => Err(format!("{:?} parses back to {:?}, displayed from {:?}", got, y, x)),
                Err(e) => Err(format!("{:?} (displayed from {:?}) does not parse: {:?}", got, x, e)),
            }
        }}; }
        macro_rules! int { ($x:expr, $t:ident) => {{
            let x: $t<N> = $x;
            let w = if t.is_empty() { "C".to_string() } else { format!("{} + C", want) };
            let got = format!("{}", Integral::<N, $t<N>>::new(x));
            if got == w { Ok(true) } else { Err(format!("integral displays as {:?}, want {:?}", got, w)) }
        }}; }
        let v: Vec<N> = co.iter().map(|x| x.1).collect();
        match kind {
            "de" if integral => int!(Polynomial { terms: v.clone() }, Polynomial),
            "sp" if integral => int!(SparsePolynomial { terms: co.iter().copied().collect() }, SparsePolynomial),
            "de" => go!(Polynomial { terms: v.clone() }, Polynomial),
            "sp" => go!(SparsePolynomial { terms: co.iter().copied().collect() }, SparsePolynomial),
            "mo" => go!(Monomial { coefficient: v[0], deg: co[0].0 }, Monomial),
            "bi" => go!(LinearBinomial { coefficients: [v[0], v[1]] }, LinearBinomial),
            _ => go!(QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] }, QuadraticTrinomial),
        }
    })
}
pub fn c16_rand(g: &mut Gen) -> Case {
    let kind = *g.pick(KINDS);
    let ty = *g.pick(PRIM);
    let hi = lohi(ty).1;
    let mg = if g.p(1, 3) { 2 } else { hi };
    let (mut p, mut m) = rand_poly(g, kind, ty, mg, 60, usize::MAX);
    let (lo, _) = lohi(ty);
    let minor = |g: &mut Gen, x: &mut i128| if g.p(1, 12) { *x = lo } else if g.p(1, 8) { *x = if lo < 0 { -1 } else { 1 } };
    p.iter_mut().for_each(|x| minor(g, x));
    m.iter_mut().for_each(|x| minor(g, &mut x.1));
    let mut bits = false;
    if ty.starts_with('f') && g.p(1, 2) {
        bits = true;
        let fl = |g: &mut Gen, x: &mut i128| {
            let v = match g.below(6) { 0 => *x as f64, 1 => *x as f64 / 8.0, 2 => g.below(100000) as f64 / 1000.0, 3 => if g.p(1, 2) { -1.0 } else { 1.0 }, 4 => -0.0, _ => f64::from_bits(g.u()) };
            *x = if ty == "f64" { v.to_bits() as i128 } else { (v as f32).to_bits() as i128 }
        };
        p.iter_mut().for_each(|x| fl(g, x));
        m.iter_mut().for_each(|x| fl(g, &mut x.1));
    }
    let what = if (kind == "de" || kind == "sp") && g.p(1, 5) { "integral" } else { "display" };
    Case { op: format!("{}_{}", kind, what), ty: ty.into(), p: vec![p], m: vec![m], t: if bits { "bits".into() } else { String::new() }, ..Default::default() }
}
pub fn c16_ex(f: &mut dyn FnMut(Case) -> bool) {
    for kind in KINDS {
        for (p, m) in ex_polys(kind) {
            for ty in ["i32", "f64", "u8"] {
                if ty == "u8" && (p.iter().any(|x| *x < 0) || m.iter().any(|x| x.1 < 0)) { continue }
                for what in ["display", "integral"] {
                    if what == "integral" && *kind != "de" && *kind != "sp" { continue }
                    if !f(Case { op: format!("{}_{}", kind, what), ty: ty.into(), p: vec![p.clone()], m: vec![m.clone()], ..Default::default() }) { return }
                }
            }
        }
    }
    for x in -128..128i128 {
        for y in [-128i128, -1, 0, 1, 127] {
            if !f(Case { op: "bi_display".into(), ty: "i8".into(), p: vec![vec![y, x]], m: vec![vec![]], ..Default::default() }) { return }
            if !f(Case { op: "tr_display".into(), ty: "i8".into(), p: vec![vec![3, x, y]], m: vec![vec![]], ..Default::default() }) { return }
        }
    }
}

// ---------------------------------------------------------------- C17
macro_rules! pairs_up {
    ($m:ident) => {
        $m! {
            u8>u16, u8>u32, u8>u64, u8>u128, u16>u32, u16>u64, u16>u128, u32>u64, u32>u128, u64>u128,
            u8>i16, u8>i32, u8>i64, u8>i128, u16>i32, u16>i64, u16>i128, u32>i64, u32>i128, u64>i128,
            i8>i16, i8>i32, i8>i64, i8>i128, i16>i32, i16>i64, i16>i128, i32>i64, i32>i128, i64>i128,
            u8>f32, u16>f32, i8>f32, i16>f32, u8>f64, u16>f64, u32>f64, i8>f64, i16>f64, i32>f64, f32>f64
        }
    };
}
macro_rules! pair_names { ($($a:ident > $b:ident),*) => { &[$((stringify!($a), stringify!($b))),*] }; }
pub const PAIRS: &[(&str, &str)] = pairs_up!(pair_names);
fn c17_f32(c: &Case) -> R {
    let kind = &c.op[..2];
    let get = |v: &i128| f32::from_bits(*v as u32);
    let w: BTreeMap<usize, f64> = match kind {
        "sp" | "mo" => c.m[0].iter().map(|(d, x)| (*d, get(x) as f64)).filter(|e| e.1 != 0.0).collect(),
        _ => { let n = c.p[0].len(); c.p[0].iter().enumerate().map(|(i, x)| (n - 1 - i, get(x) as f64)).filter(|e| e.1 != 0.0).collect() }
    };
    if w.values().any(|x| x.is_nan()) { return Ok(false) }
    let v: Vec<f32> = c.p[0].iter().map(get).collect();
    let got: BTreeMap<usize, f64> = match kind {
        "de" => mv(&Polynomial::<f64>::from(Polynomial { terms: v }).terms),
        "sp" => SparsePolynomial::<f64>::from(SparsePolynomial { terms: c.m[0].iter().map(|(d, x)| (*d, get(x))).collect::<BTreeMap<usize, f32>>() }).terms.into_iter().filter(|e| e.1 != 0.0).collect(),
        "mo" => { let m = Monomial::<f64>::from(Monomial { coefficient: get(&c.m[0][0].1), deg: c.m[0][0].0 }); [(m.deg, m.coefficient)].into_iter().filter(|e| e.1 != 0.0).collect() }
        "bi" => mv(&LinearBinomial::<f64>::from(LinearBinomial { coefficients: [v[0], v[1]] }).coefficients),
        _ => mv(&QuadraticTrinomial::<f64>::from(QuadraticTrinomial { coefficients: [v[0], v[1], v[2]] }).coefficients),
    };
    if got == w { Ok(true) } else { Err(format!("{} {}: got {:?}, want {:?}", c.op, c.ty, got, w)) }
}
pub fn c17(c: &Case) -> R {
    if c.ty == "f32>f64" { return c17_f32(c) }
    let kind = &c.op[..2];
    let want = po_of(kind, c, 0).unwrap();
    macro_rules! arms { ($($a:ident > $b:ident),*) => { match c.ty.as_str() {
        "f32>f64" => unreachable!(),
        $(concat!(stringify!($a), ">", stringify!($b)) => {
            let got = match kind {
                "de" => rv(&Polynomial::<$b>::from(dp::<$a>(&c.p[0])).terms),
                "sp" => rm(&SparsePolynomial::<$b>::from(sp::<$a>(&c.m[0])).terms),
                "mo" => ro(&Monomial::<$b>::from(mo::<$a>(&c.m[0]))),
                "bi" => rv(&LinearBinomial::<$b>::from(bi::<$a>(&c.p[0])).coefficients),
                _ => rv(&QuadraticTrinomial::<$b>::from(tr::<$a>(&c.p[0])).coefficients),
            };
            eq::<$b>(&format!("{} {}", c.op, c.ty), got, &want)
        })*
        o => panic!("HARNESS: no such pair {}", o),
    } }; }
    pairs_up!(arms)
}
pub fn c17_rand(g: &mut Gen) -> Case {
    let (a, b) = *g.pick(PAIRS);
    let kind = *g.pick(KINDS);
    let hi = lohi(a).1;
    let hi = if a.starts_with('f') { hi } else { i128::MAX };
    let (mut p, mut m) = rand_poly(g, kind, a, hi, 60, usize::MAX);
    if a == "f32" {
        let mut fl = |x: &mut i128| *x = match g.below(4) { 0 => (*x as f32).to_bits(), 1 => g.u() as u32, 2 => 0, _ => (*x as f32 / 16.0).to_bits() } as i128;
        p.iter_mut().for_each(&mut fl);
        m.iter_mut().for_each(|x| fl(&mut x.1));
    }
    Case { op: format!("{}_from", kind), ty: format!("{}>{}", a, b), p: vec![p], m: vec![m], ..Default::default() }
}
pub fn c17_ex(f: &mut dyn FnMut(Case) -> bool) {
    for (a, b) in PAIRS {
        if *a == "f32" { continue }
        let (lo, hi) = lohi(a);
        let vals: Vec<i128> = if hi < 70000 { (lo..=hi).collect() } else { vec![lo, lo + 1, -1, 0, 1, 2, hi / 2, hi / 2 + 1, hi - 1, hi].into_iter().filter(|v| *v >= lo).collect() };
        for x in vals {
            let kinds: &[&str] = if hi > 300 && hi < 70000 { &["mo"] } else { KINDS };
            for kind in kinds {
                let p = match *kind { "de" => vec![x, 0, 1, x], "bi" => vec![x, 1], _ => vec![1, x, 0] };
                if !f(Case { op: format!("{}_from", kind), ty: format!("{}>{}", a, b), p: vec![p], m: vec![vec![((x & 7) as usize, x)]], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C18
/// Largest n such that 0..=n are all exactly representable.
fn cont_max<N: Ty>() -> i128 { N::hi() }
#[cfg(feature = "hooks")]
mod direct {
    use super::*;
    use rustnomial::verif_hooks::*;
    pub const ON: bool = true;
    pub fn exact<N: Ty + TryFromUsizeExact>(n: usize) -> Option<N> { N::try_from_usize_exact(n).ok() }
    pub fn cont<N: Ty + TryFromUsizeContinuous>(n: usize) -> Option<N> { N::try_from_usize_cont(n).ok() }
    pub fn root<N: AbsSqrt>(n: N) -> N { n.abs_sqrt() }
}
#[cfg(not(feature = "hooks"))]
mod direct {
    pub const ON: bool = false;
    pub fn exact<N>(_: usize) -> Option<N> { None }
    pub fn cont<N>(_: usize) -> Option<N> { None }
    pub fn root<N>(n: N) -> N { n }
}
fn is_exactly<N: Ty>(v: N, n: usize) -> bool {
    v.to() == Some(n as i128)
}
pub fn c18(c: &Case) -> R {
    let n = c.n[0] as usize;
    crate::calc!(c.ty.as_str(), N => {
        let can = rep::<N>(n as i128);
        match c.op.as_str() {
            "exact" | "cont" => {
                if !direct::ON { return Ok(false) }
                let cont = c.op == "cont";
                let want = if cont { n as i128 <= cont_max::<N>() } else { can };
                let got: Option<N> = if cont { direct::cont::<N>(n) } else { direct::exact::<N>(n) };
                match got {
                    Some(v) if !is_exactly(v, n) => Err(format!("{}({}) in {} gave {:?}", c.op, n, c.ty, v)),
                    Some(_) if cont && !want => Err(format!("cont({}) accepted in {}: smaller degrees are not all exact", n, c.ty)),
                    None if want && !(cont && n > 1 << 45) => Err(format!("{}({}) refused in {}, though exact", c.op, n, c.ty)),
                    _ => Ok(true),
                }
            }
            // Derivative of x^n: coefficient n at n-1, or a panic if n is not exact.
            "mo_derivative" | "sp_derivative" => {
                if n == 0 { return Ok(false) }
                let r = crate::quiet(|| if c.op == "mo_derivative" { ro(&Monomial::new(N::of(1), n).derivative()) } else {
                    rm(&sp::<N>(&[(0, 1), (n, 1)]).derivative().terms)
                });
                judge::<N>(&c.op, n, r, &[(n - 1, n as i128)].into_iter().collect(), can)
            }
            // Integral of (n+1) x^n: coefficient 1 at n+1.
            "mo_integral" | "sp_integral" => {
                if n == usize::MAX { return Ok(false) }
                let can = rep::<N>(n as i128 + 1);
                if !can {
                    let r = crate::quiet(|| if c.op == "mo_integral" { rm(&Monomial::new(N::of(1), n).integral().inner().terms) } else { rm(&sp::<N>(&[(n, 1)]).integral().inner().terms) });
                    return match r { Err(_) => Ok(true), Ok(x) => Err(format!("{}: integral of x^{} over {} did not panic though {} is not exact; gave {:?}", c.op, n, c.ty, n as u128 + 1, x)) };
                }
                let k = N::of(n as i128 + 1);
                let r = crate::quiet(|| if c.op == "mo_integral" { rm(&Monomial::new(k, n).integral().inner().terms) } else { rm(&SparsePolynomial { terms: [(n, k)].into_iter().collect::<BTreeMap<usize, N>>() }.integral().inner().terms) });
                judge::<N>(&c.op, n, r, &[(n + 1, 1)].into_iter().collect(), true)
            }
            "de_derivative" => {
                if n > 70000 || n == 0 { return Ok(false) }
                let mut v = vec![0i128; n + 1];
                v[0] = 1;
                if n >= 2 { v[n - 1] = 1 }
                if n >= 3 && n - 1 < 127 { v[1] = 1 }
                let want = derive(&oracle::of_dense(&v)).unwrap();
                let r = crate::quiet(|| rv(&dp::<N>(&v).derivative().terms));
                judge_opt::<N>(&c.op, n, r, &want, n as i128 + 1 <= cont_max::<N>(), !can)
            }
            "de_integral" => {
                if n > 70000 { return Ok(false) }
                let e = n as i128 + 1;
                let can = e <= cont_max::<N>();
                let mut v = vec![0i128; n + 1];
                v[0] = if can { e } else { 1 };
                let want: Po = [(n + 1, 1)].into_iter().collect();
                let r = crate::quiet(|| rv(&dp::<N>(&v).integral().inner().terms));
                judge_opt::<N>(&c.op, n, r, &want, can, !can)
            }
            o => panic!("HARNESS: {}", o),
        }
    })
}
fn judge<N: Ty>(op: &str, n: usize, r: Result<Result<Po, String>, String>, want: &Po, can: bool) -> R {
    judge_opt::<N>(op, n, r, want, can, !can)
}
fn judge_opt<N: Ty>(op: &str, n: usize, r: Result<Result<Po, String>, String>, want: &Po, must: bool, must_not: bool) -> R {
    match r {
        Err(e) if must => Err(format!("{} degree {} over {}: panicked ({}) though every degree is exact", op, n, N::NAME, e)),
        Err(_) => Ok(true),
        Ok(_) if must_not => Err(format!("{} degree {} over {}: did not panic though the degree is not exact", op, n, N::NAME)),
        Ok(got) => eq::<N>(&format!("{} degree {} over {}", op, n, N::NAME), got, want),
    }
}
const C18: &[&str] = &["exact", "cont", "mo_derivative", "sp_derivative", "mo_integral", "sp_integral", "de_derivative", "de_integral"];
pub fn c18_rand(g: &mut Gen) -> Case {
    let op = *g.pick(C18);
    let ty = *g.pick(crate::ty::CALC);
    let n = if op.starts_with("de") {
        match g.below(4) { 0 => g.below(300), 1 => 120 + g.below(20), 2 => 250 + g.below(10), _ => if g.p(1, 20) { 32760 + g.below(20) } else if g.p(1, 20) { 65530 + g.below(10) } else { g.below(1000) } }
    } else {
        match g.below(4) { 0 => g.deg(usize::MAX), 1 => g.u() as usize >> g.below(64), 2 => usize::MAX - g.below(5), _ => { let b = g.below(63) as u32; let k = g.below(40); (1usize << b).wrapping_add(g.below(5) << k) } }
    };
    Case { op: op.into(), ty: ty.into(), n: vec![n as i128], ..Default::default() }
}
pub fn c18_ex(f: &mut dyn FnMut(Case) -> bool) {
    let mut ns: Vec<usize> = (0..600).collect();
    for b in 6..64u32 {
        for d in -3i64..4 { ns.push((1usize << b).wrapping_add(d as usize)) }
        for k in 0..b { ns.push((1usize << b) + (1usize << k)); ns.push((1usize << b).wrapping_mul(2).wrapping_sub(1usize << k)) }
    }
    ns.push(usize::MAX);
    ns.push(usize::MAX - 1);
    for n in ns {
        for ty in crate::ty::CALC {
            for op in C18 {
                if op.starts_with("de") && n > 260 && !(n > 32764 && n < 32771) && !(n > 65532 && n < 65539) { continue }
                if !f(Case { op: op.to_string(), ty: ty.to_string(), n: vec![n as i128], ..Default::default() }) { return }
            }
        }
    }
}

// ---------------------------------------------------------------- C19
fn isqrt(v: i128) -> i128 {
    if v < 0 { return -1 }
    let (mut lo, mut hi) = (0i128, 1i128 << 64);
    while hi - lo > 1 { let m = (lo + hi) / 2; if m.checked_mul(m).map_or(false, |q| q <= v) { lo = m } else { hi = m } }
    lo
}
/// num/den as a value of the type, if exact.
fn ratio<N: Ty>(n: i128, d: i128) -> Option<N>
where N: std::ops::Div<Output = N> {
    if !rep::<N>(n) || !rep::<N>(d) || d == 0 { return None }
    if N::NAME.starts_with('f') {
        // exact if the reduced denominator is a power of two (both sides well inside the mantissa)
        let mut g = (n.abs(), d.abs());
        while g.1 != 0 { g = (g.1, g.0 % g.1) }
        let q = d.abs() / g.0.max(1);
        if q.count_ones() != 1 { return None }
        Some(N::of(n) / N::of(d))
    } else if n % d == 0 && rep::<N>(n / d) { Some(N::of(n / d)) } else { None }
}
pub fn c19(c: &Case) -> R {
    match c.op.as_str() {
        "linear" => return crate::signed!(c.ty.as_str(), N => {
            let (a, b) = (c.p[0][0], c.p[0][1]);
            let x = bi::<N>(&c.p[0]);
            let (az, bz) = (N::norm(a) == 0, N::norm(b) == 0);
            let want = if az { if bz { Roots::InfiniteRoots } else { Roots::NoRoots } } else {
                if !N::fits(-b) { return Ok(false) }
                let r = match N::modulus() {
                    Some(m) => { let i = (1..m).find(|k| (k * N::norm(a)) % m == 1).unwrap(); N::of((m - N::norm(b)) * i % m) }
                    None => match ratio::<N>(-b, a) { Some(r) => r, None => return Ok(false) },
                };
                Roots::OneRealRoot(r)
            };
            let got = x.root();
            if got == want { Ok(true) } else { Err(format!("root of {}x + {}: got {:?}, want {:?}", a, b, got, want)) }
        }),
        "monomial" => return crate::ring!(c.ty.as_str(), N => {
            let (d, k) = c.m[0][0];
            let want: Roots<N> = if N::norm(k) == 0 { Roots::InfiniteRoots } else if d == 0 { Roots::NoRoots } else { Roots::OneRealRoot(N::of(0)) };
            let got = mo::<N>(&c.m[0]).root();
            if got == want { Ok(true) } else { Err(format!("root of monomial {}x^{}: got {:?}, want {:?}", k, d, got, want)) }
        }),
        "dense" | "sparse" | "explicit" => return c19_poly(c),
        _ => {}
    }
    let (a, b, k) = (c.p[0][0], c.p[0][1], c.p[0][2]);
    if a == 0 { return Ok(false) }
    crate::dispatch!(c.ty.as_str(); "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "f32" => f32, "f64" => f64; N => {
        let x = tr::<N>(&c.p[0]);
        let parts = (b.checked_mul(b), a.checked_mul(k), a.checked_mul(k).and_then(|v| v.checked_mul(4)), a.checked_mul(2), b.checked_neg());
        let (bb, ac, ac4, a2, nb) = match parts { (Some(p), Some(q), Some(r), Some(s), Some(t)) => (p, q, r, s, t), _ => return Ok(false) };
        let d = match bb.checked_sub(ac4) { Some(d) => d, None => return Ok(false) };
        if ![bb, ac, ac4, a2, nb, d].iter().all(|v| N::fits(*v)) || d == i128::MIN || !N::fits(-d) { return Ok(false) }
        let got_d = x.discriminant();
        if got_d.to() != Some(d) { return Err(format!("discriminant of {:?}: got {:?}, want {}", c.p[0], got_d, d)) }
        if c.op == "discriminant" { return Ok(true) }
        let s = isqrt(d.abs());
        // The kind of the roots follows from the sign of the discriminant, exact or not.
        let roots = x.roots();
        match (&roots, d >= 0) {
            (Roots::TwoRealRoots(p, q), true) => { if p < q && N::NAME.starts_with('f') { return Err(format!("roots of {:?}: {:?} not largest first", c.p[0], roots)) } }
            (Roots::TwoComplexRoots(p, q), false) => { if !(p.re == q.re && p.im == -q.im) { return Err(format!("roots of {:?}: {:?} not conjugate", c.p[0], roots)) } }
            _ => return Err(format!("roots of {:?} with discriminant {}: {:?}", c.p[0], d, roots)),
        }
        if x.real_factors().is_some() != (d >= 0) { return Err(format!("real_factors of {:?} with discriminant {}: {:?}", c.p[0], d, x.real_factors())) }
        if s * s != d.abs() { return Ok(true) }
        let (mid, half) = match (ratio::<N>(-b, a2), ratio::<N>(s, a2.abs())) { (Some(m), Some(h)) => (m, h), _ => return Ok(true) };
        let ex = |n: i128| ratio::<N>(n, a2);
        if d >= 0 {
            let (r0, r1) = if a > 0 { (ex(-b + s), ex(-b - s)) } else { (ex(-b - s), ex(-b + s)) };
            let (r0, r1) = match (r0, r1) { (Some(x), Some(y)) => (x, y), _ => return Ok(true) };
            if roots != Roots::TwoRealRoots(r0, r1) { return Err(format!("roots of {:?}: got {:?}, want {:?} then {:?}", c.p[0], roots, r0, r1)) }
            let (k0, f, g) = x.real_factors().unwrap();
            if [k0, f.coefficients[0], g.coefficients[0]] != [N::of(a), N::of(1), N::of(1)] || !((f.coefficients[1] == -r0 && g.coefficients[1] == -r1) || (f.coefficients[1] == -r1 && g.coefficients[1] == -r0)) {
                return Err(format!("real_factors of {:?}: got {:?}, roots {:?} {:?}", c.p[0], (k0, f, g), r0, r1));
            }
            let (k0, f, g) = x.complex_factors();
            cfac::<N>(c, k0, &f, &g, Complex::new(r0, N::of(0)), Complex::new(r1, N::of(0)))
        } else {
            let (z, w) = (Complex::new(mid, half), Complex::new(mid, -half));
            if roots != Roots::TwoComplexRoots(z, w) && roots != Roots::TwoComplexRoots(w, z) { return Err(format!("roots of {:?}: got {:?}, want {:?} {:?}", c.p[0], roots, z, w)) }
            let (k0, f, g) = x.complex_factors();
            cfac::<N>(c, k0, &f, &g, z, w)
        }
    })
}
fn cfac<N: Ty + std::ops::Neg<Output = N>>(c: &Case, k: N, f: &LinearBinomial<Complex<N>>, g: &LinearBinomial<Complex<N>>, z: Complex<N>, w: Complex<N>) -> R {
    let one = Complex::new(N::of(1), N::of(0));
    let neg = |z: Complex<N>| Complex::new(-z.re, -z.im);
    let ok = k == N::of(c.p[0][0]) && f.coefficients[0] == one && g.coefficients[0] == one
        && ((f.coefficients[1] == neg(z) && g.coefficients[1] == neg(w)) || (f.coefficients[1] == neg(w) && g.coefficients[1] == neg(z)));
    if ok { Ok(true) } else { Err(format!("complex_factors of {:?}: got {:?} {:?} {:?}, roots {:?} {:?}", c.p[0], k, f, g, z, w)) }
}
/// Dense and sparse f64 polynomials of degree at most two.
fn c19_poly(c: &Case) -> R {
    let p = oracle::norm::<f64>(&oracle::of_dense(&c.p[0]));
    let v = c.p[0].iter().map(|x| *x as f64).collect::<Vec<_>>();
    let deg = p.keys().last().copied();
    if deg.unwrap_or(0) > 2 && p.len() > 1 { return Ok(false) }
    let got = if c.op == "dense" { Polynomial { terms: v }.roots() } else {
        let mut terms = p.iter().map(|(d, x)| (*d, *x)).collect::<Vec<_>>();
        if c.op == "explicit" { for d in 0..deg.unwrap_or(0) + 3 { if !p.contains_key(&d) { terms.push((d, 0)) } } }
        sp::<f64>(&terms).roots()
    };
    let (a, b, k) = (*p.get(&2).unwrap_or(&0), *p.get(&1).unwrap_or(&0), *p.get(&0).unwrap_or(&0));
    let (mut re, mut cx): (Option<Vec<f64>>, Option<Vec<(f64, f64)>>) = (None, None);
    match &got {
        Roots::OneRealRoot(x) => re = Some(vec![*x]),
        Roots::TwoRealRoots(x, y) => re = Some(vec![*x, *y]),
        Roots::ManyRealRoots(v) | Roots::OnlyRealRoots(v) => re = Some(v.clone()),
        Roots::TwoComplexRoots(x, y) => cx = Some(vec![(x.re, x.im), (y.re, y.im)]),
        Roots::ManyComplexRoots(v) => cx = Some(v.iter().map(|z| (z.re, z.im)).collect()),
        _ => {}
    }
    let bad = |w: &str| Err(format!("roots of {}x^2 + {}x + {} ({}): got {:?}, want {}", a, b, k, c.op, got, w));
    match deg {
        None => return if got == Roots::InfiniteRoots { Ok(true) } else { bad("InfiniteRoots") },
        Some(0) => return if got == Roots::NoRoots { Ok(true) } else { bad("NoRoots") },
        _ => {}
    }
    let set = |v: &[f64]| { let mut s: Vec<f64> = vec![]; for x in v { if !s.contains(x) { s.push(*x) } } s.sort_by(|x, y| x.partial_cmp(y).unwrap()); s };
    if deg > Some(2) {
        return match re { Some(v) if set(&v) == [0.] => Ok(true), _ => Err(format!("roots of {:?} x^{:?} ({}): got {:?}, want only zero", p.values().next(), deg, c.op, got)) };
    }
    if deg == Some(1) {
        let r = match ratio::<f64>(-b * 0 - k, b) { Some(r) => r, None => return Ok(false) };
        return match re { Some(v) if set(&v) == set(&[r]) => Ok(true), _ => bad(&format!("{}", r)) };
    }
    let d = b * b - 4 * a * k;
    if [b * b, a * k * 4, d].iter().any(|v| v.abs() > 1 << 52) { return Ok(false) }
    let s = isqrt(d.abs());
    if (d >= 0) != re.is_some() || (d < 0) != cx.is_some() { return bad(if d >= 0 { "real roots" } else { "complex roots" }) }
    if s * s != d.abs() { return Ok(true) }
    if d >= 0 {
        let (r0, r1) = match (ratio::<f64>(-b + s, 2 * a), ratio::<f64>(-b - s, 2 * a), ratio::<f64>(-b, 2 * a), ratio::<f64>(s, 2 * a)) { (Some(x), Some(y), Some(_), Some(_)) => (x, y), _ => return Ok(true) };
        if set(&re.unwrap()) == set(&[r0, r1]) { Ok(true) } else { bad(&format!("{} {}", r0, r1)) }
    } else {
        let (m, h) = match (ratio::<f64>(-b, 2 * a), ratio::<f64>(s, 2 * a)) { (Some(x), Some(y)) => (x, y.abs()), _ => return Ok(true) };
        let v = cx.unwrap();
        if v.len() == 2 && (v == vec![(m, h), (m, -h)] || v == vec![(m, -h), (m, h)]) { Ok(true) } else { bad(&format!("{} +- {}i", m, h)) }
    }
}
pub fn c19_rand(g: &mut Gen) -> Case {
    let qt = ["i16", "i32", "i64", "i128", "f32", "f64"];
    match g.below(10) {
        0 | 1 => {
            let ty = *g.pick(SIGNED);
            let hi = lohi(ty).1;
            let a = g.val(ty, hi);
            let r = g.val(ty, 50);
            let b = if g.p(1, 2) && !is_field(ty) { a.checked_mul(r).filter(|v| v.abs() <= hi).unwrap_or(a) } else { g.val(ty, hi) };
            Case { op: "linear".into(), ty: ty.into(), p: vec![vec![a, b]], ..Default::default() }
        }
        2 => { let ty = *g.pick(RING); let hi = lohi(ty).1; Case { op: "monomial".into(), ty: ty.into(), m: vec![vec![(g.deg(usize::MAX), g.val(ty, hi))]], ..Default::default() } }
        3 | 4 => {
            let op = *g.pick(C22OPS);
            let mut q = quad(g, 1 << 12);
            if g.p(1, 8) { let m = if g.p(1, 2) { 6 } else { 40 }; q = vec![0; 1 + g.below(m)]; q[0] = g.nz("f64", 1 << 30) }
            if g.p(1, 4) { q[0] = 0 }
            if q.len() > 1 && g.p(1, 8) { q[1] = 0 }
            let mut v = vec![0; if g.p(1, 3) { g.below(20) } else { 0 }];
            v.extend(q);
            Case { op: op.into(), ty: "f64".into(), p: vec![v], ..Default::default() }
        }
        5 => { let ty = *g.pick(&qt); let m = (lohi(ty).1 as f64).sqrt() as i128 / 2; let p = (0..3).map(|_| g.val(ty, m)).collect(); Case { op: "roots".into(), ty: ty.into(), p: vec![p], ..Default::default() } }
        _ => { let ty = *g.pick(&qt); let m = (lohi(ty).1 as f64).powf(0.25) as i128; let q = quad(g, m.max(4)); Case { op: "roots".into(), ty: ty.into(), p: vec![q], ..Default::default() } }
    }
}
/// Coefficients of a quadratic with integer real roots, or integer real and imaginary parts.
fn quad(g: &mut Gen, m: i128) -> Vec<i128> {
    let r = |g: &mut Gen| { let k = 1 + g.below(m.min(1 << 30) as usize) as i128; if g.p(1, 2) { k.min(12) - 6 } else { k - m / 2 } };
    let a = { let x = r(g); let x = if g.p(2, 3) { x.clamp(-3, 3) } else { x }; if x == 0 { 1 } else { x } };
    let (p, q) = (r(g), if g.p(1, 6) { 0 } else { r(g) });
    let ck = |x: Option<i128>| x.unwrap_or(1);
    if g.p(1, 2) {
        let s = if g.p(2, 3) { p + 2 * q } else { q };
        vec![a, ck(a.checked_mul(-(p + s))), ck(a.checked_mul(p).and_then(|v| v.checked_mul(s)))]
    } else {
        vec![a, ck(a.checked_mul(-2 * p)), ck(a.checked_mul(p * p + q * q))]
    }
}
pub fn c19_ex(f: &mut dyn FnMut(Case) -> bool) {
    for a in -6..7i128 { for b in -12..13i128 {
        for ty in ["i32", "f64", "gf7", "i8"] { if !f(Case { op: "linear".into(), ty: ty.into(), p: vec![vec![a, b]], ..Default::default() }) { return } }
        for k in -12..13i128 {
            for ty in ["i32", "f64"] { if !f(Case { op: "roots".into(), ty: ty.into(), p: vec![vec![a, b, k]], ..Default::default() }) { return } }
            for op in C22OPS { if !f(Case { op: op.to_string(), ty: "f64".into(), p: vec![vec![a, b, k]], ..Default::default() }) { return } }
        }
    } }
    for d in 0..4 { for k in -2..3 { if !f(Case { op: "monomial".into(), ty: "i32".into(), m: vec![vec![(d, k)]], ..Default::default() }) { return } } }
}

// ---------------------------------------------------------------- C20
pub fn c20(c: &Case) -> R {
    if c.op == "quad" {
        // k (x - r)(x - s) with integer roots r >= s
        let (r, s) = (c.n[0].max(c.n[1]), c.n[0].min(c.n[1]));
        let k = c.n.get(2).copied().unwrap_or(1);
        if k == 0 { return Ok(false) }
        return crate::dispatch!(c.ty.as_str(); "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128; N => {
            // every operation on the way is representable
            let all = || -> Option<(i128, i128)> {
                let b = k.checked_mul(r.checked_add(s)?)?.checked_neg()?;
                let q = k.checked_mul(r.checked_mul(s)?)?;
                let ac = k.checked_mul(q)?;
                let (b2, ac4) = (b.checked_mul(b)?, ac.checked_mul(4)?);
                let d = b2.checked_sub(ac4)?;
                let w = k.checked_mul(r.checked_sub(s)?)?;
                for x in [b, q, ac, b2, ac4, d, w, k.checked_mul(2)?, b.checked_neg()?, w.checked_neg()?, w.checked_sub(b)?, w.checked_neg()?.checked_sub(b)?] { if !N::fits(x) { return None } }
                Some((b, q))
            };
            let (b, q) = match all() { Some(x) => x, None => return Ok(false) };
            let got = tr::<N>(&[k, b, q]).roots();
            if got == Roots::TwoRealRoots(N::of(r), N::of(s)) { Ok(true) } else { Err(format!("roots of {}x^2 + {}x + {} over {}: got {:?}, want {} {}", k, b, q, c.ty, got, r, s)) }
        });
    }
    if !direct::ON { return Ok(false) }
    let v = c.n[0];
    crate::dispatch!(c.ty.as_str(); "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize, "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128, "usize" => usize; N => {
        let x = if c.ty == "u128" && v < 0 { N::of(v) } else { if !N::fits(v) { return Ok(false) } N::of(v) };
        let m = if c.ty == "u128" { v as u128 } else { v.unsigned_abs() };
        if N::lo() < 0 && v == N::lo() { return Ok(false) }
        let got = match direct::root::<N>(x).to() { Some(g) if g >= 0 => g as u128, _ => return Err(format!("square root of {} in {} is negative or huge", m, c.ty)) };
        let ok = got.checked_mul(got).map_or(false, |q| q <= m) && (got + 1).checked_mul(got + 1).map_or(true, |q| q > m);
        if ok { Ok(true) } else { Err(format!("square root of {} in {}: got {}", m, c.ty, got)) }
    })
}
const C20T: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];
fn bits_of(ty: &str) -> u32 {
    match ty { "i8" => 7, "u8" => 8, "i16" => 15, "u16" => 16, "i32" => 31, "u32" => 32, "i64" | "isize" => 63, "u64" | "usize" => 64, "i128" => 127, _ => 128 }
}
pub fn c20_rand(g: &mut Gen) -> Case {
    if g.p(1, 6) {
        let ty = *g.pick(&["i16", "i32", "i64", "i128"]);
        let m = (lohi(ty).1 as f64).sqrt() as i128 / 2;
        let b = g.below(64) as u32;
        let mut r = || { let k = (g.u() >> b) as i128 % m.max(1); if g.p(1, 2) { k } else { -k } };
        let (x, y) = (r(), r());
        return Case { op: "quad".into(), ty: ty.into(), n: vec![x, y, *g.pick(&[1, 1, 1, -1, 2, 3, -3, 6, -100])], ..Default::default() };
    }
    let ty = *g.pick(C20T);
    let bits = bits_of(ty);
    let all = ((g.u() as u128) << 64) | g.u() as u128;
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v: u128 = match g.below(6) {
        0 | 1 => { let k = all >> (128 - bits / 2) >> g.below(bits as usize / 2); let q = k.wrapping_mul(k); match g.below(3) { 0 => q.wrapping_sub(1), 1 => q, _ => q.wrapping_add(1) } }
        2 => max.wrapping_sub(g.below(3) as u128),
        3 => { let b = g.below(bits as usize) as u32; (1u128 << b).wrapping_add(g.below(3) as u128).wrapping_sub(1) }
        4 => { let k = (1u128 << (bits / 2)) - 1 - g.below(3) as u128; let q = k.wrapping_mul(k); q.wrapping_add(g.below(5) as u128).wrapping_sub(2) }
        _ => all >> g.below(128) as u32,
    } & max;
    let mut n = v as i128;
    if ty.starts_with('i') && g.p(1, 2) { n = -n }
    Case { op: "sqrt".into(), ty: ty.into(), n: vec![n], ..Default::default() }
}
pub fn c20_ex(f: &mut dyn FnMut(Case) -> bool) {
    for ty in ["i8", "u8", "i16", "u16"] {
        let (lo, hi) = lohi(ty);
        for v in lo + (lo < 0) as i128..=hi {
            if !f(Case { op: "sqrt".into(), ty: ty.into(), n: vec![v], ..Default::default() }) { return }
        }
    }
    for r in -40..41 { for s in -40..41 {
        for k in [1, -1, 2, 3, -5] { if !f(Case { op: "quad".into(), ty: "i32".into(), n: vec![r, s, k], ..Default::default() }) { return } }
    } }
    for ty in C20T {
        let bits = bits_of(ty);
        let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let top = (1u128 << (bits / 2)) - 1;
        for k in (0..2000u128.min(top)).chain((0..2000u128.min(top)).map(|d| top - d)) {
            let q = k * k;
            for v in [q.wrapping_sub(1), q, q + 1] {
                if v <= max && !f(Case { op: "sqrt".into(), ty: ty.to_string(), n: vec![v as i128], ..Default::default() }) { return }
            }
        }
        for d in 0..200u128.min(max) { if !f(Case { op: "sqrt".into(), ty: ty.to_string(), n: vec![(max - d) as i128], ..Default::default() }) { return } }
    }
}
// ---------------------------------------------------------------- C22
/// Dense and sparse f64 polynomials of degree three. The contract is over exact arithmetic, so the
/// coefficients rebuilt from the reported roots are compared within a thousandth of the scale of the roots.
pub fn c22(c: &Case) -> R {
    let p = oracle::norm::<f64>(&oracle::of_dense(&c.p[0]));
    if p.keys().last().copied() != Some(3) || p.values().any(|v| v.abs() > 1 << 40) { return Ok(false) }
    let got = if c.op == "dense" { Polynomial { terms: c.p[0].iter().map(|x| *x as f64).collect::<Vec<_>>() }.roots() } else {
        let mut terms = p.iter().map(|(d, x)| (*d, *x)).collect::<Vec<_>>();
        if c.op == "explicit" { for d in 0..=5 { if !p.contains_key(&d) { terms.push((d, 0)) } } }
        sp::<f64>(&terms).roots()
    };
    let k = |d: usize| *p.get(&d).unwrap_or(&0) as f64;
    let (a, b, cc, d) = (k(3), k(2) / k(3), k(1) / k(3), k(0) / k(3));
    let bad = |w: &str| Err(format!("roots of {}x^3 + {}x^2 + {}x + {} ({}): got {:?}, {}", a, k(2), k(1), k(0), c.op, got, w));
    if p.len() == 1 {
        return match &got { Roots::ManyRealRoots(v) if v.iter().all(|x| *x == 0.) && !v.is_empty() => Ok(true), _ => bad("want only zero") };
    }
    let scale = b.abs().max(cc.abs().sqrt()).max(d.abs().cbrt());
    let (v, real): (Vec<(f64, f64)>, bool) = match &got {
        Roots::ManyRealRoots(v) => (v.iter().map(|x| (*x, 0.)).collect(), true),
        Roots::ManyComplexRoots(v) => (v.iter().map(|z| (z.re, z.im)).collect(), false),
        _ => return bad("want three roots"),
    };
    if v.len() != 3 { return bad("want three roots") }
    if !real {
        let conj = |i: usize, j: usize, k: usize| v[i].1 == 0. && v[j].0 == v[k].0 && v[j].1 == -v[k].1;
        if !(conj(0, 1, 2) || conj(1, 0, 2) || conj(2, 0, 1)) { return bad("want one real root and a conjugate pair") }
    }
    let disc = 18. * b * cc * d - 4. * b * b * b * d + b * b * cc * cc - 4. * cc * cc * cc - 27. * d * d;
    if disc.abs() > 1e-4 * scale.powi(6) && (disc > 0.) != real { return bad(if disc > 0. { "want three real roots" } else { "want a conjugate pair" }) }
    let m = |x: (f64, f64), y: (f64, f64)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
    let e1 = v[0].0 + v[1].0 + v[2].0;
    let e2 = m(v[0], v[1]).0 + m(v[0], v[2]).0 + m(v[1], v[2]).0;
    let e3 = m(m(v[0], v[1]), v[2]).0;
    let near = |x: f64, y: f64, i: i32| (x - y).abs() <= 1e-3 * scale.powi(i);
    if near(-e1, b, 1) && near(e2, cc, 2) && near(-e3, d, 3) { Ok(true) } else { bad(&format!("which multiply to x^3 + {}x^2 + {}x + {}", -e1, e2, -e3)) }
}
const C22OPS: &[&str] = &["dense", "sparse", "explicit"];
pub fn c22_rand(g: &mut Gen) -> Case {
    let m = *g.pick(&[6usize, 6, 40, 1000]);
    let r = |g: &mut Gen| g.below(2 * m + 1) as i128 - m as i128;
    let a = match r(g).clamp(-4, 4) { 0 => 1, x => x };
    let mut q = match g.below(4) {
        0 => vec![a, r(g), r(g), r(g)],
        1 => { let (x, y, z) = (r(g), r(g), r(g)); vec![a, -a * (x + y + z), a * (x * y + x * z + y * z), -a * x * y * z] }
        2 => { let (x, y) = (r(g), r(g)); vec![a, -a * (x + 2 * y), a * (2 * x * y + y * y), -a * x * y * y] }
        _ => { let (x, s, t) = (r(g), r(g), r(g)); let n = s * s + t * t; vec![a, -a * (x + 2 * s), a * (2 * x * s + n), -a * x * n] }
    };
    for i in 1..4 { if g.p(1, 8) { q[i] = 0 } }
    let mut v = vec![0; if g.p(1, 3) { g.below(20) } else { 0 }];
    v.extend(q);
    Case { op: g.pick(C22OPS).to_string(), ty: "f64".into(), p: vec![v], ..Default::default() }
}
pub fn c22_ex(f: &mut dyn FnMut(Case) -> bool) {
    for a in [1, -1, 2, -3] { for b in -6..7i128 { for c in -6..7i128 { for d in -6..7i128 {
        for op in C22OPS { if !f(Case { op: op.to_string(), ty: "f64".into(), p: vec![vec![a, b, c, d]], ..Default::default() }) { return } }
    } } } }
    for a in [1, -2, 3] { for x in -8..9i128 { for y in -8..=x { for z in -8..=y {
        if !f(Case { op: "dense".into(), ty: "f64".into(), p: vec![vec![0, a, -a * (x + y + z), a * (x * y + x * z + y * z), -a * x * y * z]], ..Default::default() }) { return }
    } } } }
}
// ---------------------------------------------------------------- C21
/// Dense and sparse f64 polynomials of degree four and more, built from their factors: m[0] linear factors
/// (denominator, numerator of the root), m[1] quadratic factors (x - u)^2 + v as (v, u), n the leading coefficient as a
/// fraction. The contract assumes of the external isolator that it finds every real root: a case is judged only when the
/// isolator itself does (asked here, on the polynomial, on what remains of it, and on slight perturbations of both).
fn mulf(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut r = vec![0.; a.len() + b.len() - 1];
    for i in 0..a.len() { for j in 0..b.len() { r[i + j] += a[i] * b[j] } }
    r
}
fn isolates(monic: &[f64], want: &[f64]) -> bool {
    (0..9u64).all(|k| {
        let mut h = k.wrapping_mul(0x9E3779B97F4A7C15);
        let size = [0., 3e-16, 1e-14, 1e-12][(k % 4) as usize];
        let v: Vec<f64> = monic[1..].iter().map(|x| { h = h.rotate_left(7).wrapping_mul(0x2545F4914F6CDD1D) ^ k; x * (1. + size * ((h >> 40) as f64 / (1u64 << 23) as f64 - 1.)) }).collect();
        let mut got: Vec<f64> = roots::find_roots_sturm(&v, &mut 1e-8f64).into_iter().filter_map(Result::ok).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).abs() < 1e-6)
    })
}
pub fn c21(c: &Case) -> R {
    let (lin, quad) = (&c.m[0], &c.m[1]);
    let degree = lin.len() + 2 * quad.len();
    if degree < 4 || degree > 11 || c.n[0] == 0 || c.n[1] == 0 || lin.iter().any(|(d, x)| *d == 0 || x.unsigned_abs() > 1000) { return Ok(false) }
    if quad.iter().any(|(v, u)| *v == 0 || *v > 100 || u.unsigned_abs() > 100) { return Ok(false) }
    let lead = c.n[0] as f64 / c.n[1] as f64;
    let mut want: Vec<f64> = lin.iter().map(|(d, x)| *x as f64 / *d as f64).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // a repeated root is only found again when nothing is rounded
    let exact = want.iter().all(|x| x.fract() == 0.) && c.n[1].count_ones() == 1;
    for w in want.windows(2) { if !(w[0] == w[1] && exact) && w[1] - w[0] < 0.02 { return Ok(false) } }
    for w in want.windows(3) { if w[0] == w[2] { return Ok(false) } }
    // the rounds of the search: every distinct real root, those that are left, nothing
    let rest = quad.iter().fold(vec![1.], |a, (v, u)| mulf(&a, &[1., -2. * *u as f64, (u * u) as f64 + *v as f64]));
    let times = |v: &[f64]| v.iter().fold(rest.clone(), |a, x| mulf(&a, &[1., -x]));
    let mut left = want.clone();
    loop {
        let mut now = left.clone();
        now.dedup();
        let monic = times(&left);
        if monic.len() > 1 && !isolates(&monic, &now) { return Ok(false) }
        if now.is_empty() { break }
        left = (1..left.len()).filter(|i| left[*i] == left[i - 1]).map(|i| left[i]).collect();
    }
    let p: Vec<f64> = times(&want).iter().map(|x| x * lead).collect();
    let mut now = want.clone();
    now.dedup();
    if !isolates(&p.iter().map(|x| x / p[0]).collect::<Vec<_>>(), &now) { return Ok(false) }
    if p.iter().filter(|x| **x != 0.).count() < 2 { return Ok(false) }
    let zeros = c.n[2].clamp(0, 40) as usize;
    let got = if c.op == "dense" {
        let mut t = vec![0.; zeros];
        t.extend(&p);
        Polynomial { terms: t }.roots()
    } else {
        let mut t: std::collections::BTreeMap<usize, f64> = p.iter().rev().copied().enumerate().collect();
        if c.op == "explicit" { for d in 0..zeros { t.insert(degree + 1 + d, 0.); } } else { t.retain(|_, x| *x != 0.) }
        SparsePolynomial { terms: t }.roots()
    };
    let bad = |w: &str| Err(format!("roots of {:?} (coefficients from degree {}, {}): got {:?}, want {}", p, degree, c.op, got, w));
    let near = |v: &Vec<f64>| {
        let mut v = v.clone();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| (a - b).abs() < 2e-3)
    };
    match &got {
        Roots::ManyRealRoots(v) if quad.is_empty() && near(v) => Ok(true),
        Roots::OnlyRealRoots(v) if !quad.is_empty() && !want.is_empty() && near(v) => Ok(true),
        Roots::NoRoots if want.is_empty() => Ok(true),
        _ => bad(&if want.is_empty() { "no roots".into() } else { format!("{} {:?}", if quad.is_empty() { "as many real roots as the degree:" } else { "only the real roots" }, want) }),
    }
}
const C21OPS: &[&str] = &["dense", "sparse", "explicit"];
pub fn c21_rand(g: &mut Gen) -> Case {
    let den = *g.pick(&[1usize, 1, 2, 4, 100, 0]);
    let quads = *g.pick(&[0usize, 0, 1, 1, 2, 3]);
    let lins = if quads == 0 { let m = *g.pick(&[4usize, 4, 4, 4, 8]); 4 + g.below(m) } else { g.below(5) };
    let mut lin: Vec<(usize, i128)> = vec![];
    for _ in 0..lins {
        let d = if den == 0 { *g.pick(&[1usize, 1, 2, 4, 100]) } else { den };
        let m = if d == 1 { *g.pick(&[7, 7, 7, 30, 900]) } else { *g.pick(&[1, 3]) * d as i128 };
        let mut e = (d, g.below(2 * m as usize + 1) as i128 - m);
        if g.p(1, 12) { if let Some(x) = g.lit() { e.1 = x } }
        if !lin.contains(&e) || g.p(1, 6) { lin.push(e) }
    }
    let quad = (0..quads).map(|_| (1 + g.below(9), g.below(9) as i128 - 4)).collect();
    let (mut a, b) = *g.pick(&[(1i128, 1i128), (1, 1), (2, 1), (-1, 1), (-3, 1), (1, 2), (10, 1), (100, 1), (1, 100), (7, 3), (1, 1 << 36), (-1 << 36, 1)]);
    if g.p(1, 12) { if let Some(x) = g.lit() { if x != 0 && x.unsigned_abs() < 1 << 20 { a = x } } }
    let zeros = if g.p(1, 4) { 1 + g.below(6) as i128 } else { 0 };
    Case { op: g.pick(C21OPS).to_string(), ty: "f64".into(), m: vec![lin, quad], n: vec![a, b, zeros], ..Default::default() }
}
pub fn c21_ex(f: &mut dyn FnMut(Case) -> bool) {
    let mut at = |lin: Vec<(usize, i128)>, quad: Vec<(usize, i128)>| {
        for (a, b) in [(1, 1), (-2, 1), (1, 4)] { for op in C21OPS {
            if !f(Case { op: op.to_string(), ty: "f64".into(), m: vec![lin.clone(), quad.clone()], n: vec![a, b, 0], ..Default::default() }) { return false }
        } }
        true
    };
    let sets = |k: usize, lo: i128, hi: i128| -> Vec<Vec<i128>> {
        let mut r: Vec<Vec<i128>> = vec![vec![]];
        for _ in 0..k { r = r.into_iter().flat_map(|v| { let s = v.last().map_or(lo, |x| x + 1); (s..=hi).map(move |x| { let mut w = v.clone(); w.push(x); w }) }).collect() }
        r
    };
    for k in 4..7 { for v in sets(k, -4, 4) { if !at(v.iter().map(|x| (1, *x)).collect(), vec![]) { return } } }
    for v in sets(4, -5, 5) { if !at(v.iter().map(|x| (4, *x)).collect(), vec![]) { return } }
    for k in 0..4 { for v in sets(k, -3, 3) { for q in [(1, 0), (2, 1), (4, -2)] { for two in [None, Some((3, 1)), Some((1, 0))] {
        let mut quad = vec![q];
        quad.extend(two);
        if !at(v.iter().map(|x| (1, *x)).collect(), quad) { return }
    } } } }
}
#[allow(unused)]
fn keep() { let _ = sprim!("i8", N => N::of(1).to()); }
