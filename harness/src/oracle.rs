//! Exact reference arithmetic on coefficient functions (degree -> i128), independent of the crate.
use crate::ty::Ty;
use std::collections::BTreeMap;

pub type Po = BTreeMap<usize, i128>;

pub fn of_dense(v: &[i128]) -> Po {
    let n = v.len();
    let mut p = Po::new();
    for (i, x) in v.iter().enumerate() {
        p.insert(n - 1 - i, *x);
    }
    p
}
pub fn of_terms(v: &[(usize, i128)]) -> Option<Po> {
    let mut p = Po::new();
    for (d, x) in v {
        let e = p.entry(*d).or_insert(0);
        *e = e.checked_add(*x)?;
    }
    Some(p)
}
pub fn norm<N: Ty>(p: &Po) -> Po {
    p.iter().map(|(d, x)| (*d, N::norm(*x))).filter(|(_, x)| *x != 0).collect()
}
pub fn zip(a: &Po, b: &Po, f: impl Fn(i128, i128) -> Option<i128>) -> Option<Po> {
    let mut r = Po::new();
    for d in a.keys().chain(b.keys()) {
        r.insert(*d, f(*a.get(d).unwrap_or(&0), *b.get(d).unwrap_or(&0))?);
    }
    Some(r)
}
pub fn add(a: &Po, b: &Po) -> Option<Po> {
    zip(a, b, |x, y| x.checked_add(y))
}
pub fn sub(a: &Po, b: &Po) -> Option<Po> {
    zip(a, b, |x, y| x.checked_sub(y))
}
pub fn neg(a: &Po) -> Option<Po> {
    a.iter().map(|(d, x)| Some((*d, x.checked_neg()?))).collect()
}
pub fn scale(a: &Po, s: i128) -> Option<Po> {
    a.iter().map(|(d, x)| Some((*d, x.checked_mul(s)?))).collect()
}
pub fn mul(a: &Po, b: &Po) -> Option<Po> {
    let mut r = Po::new();
    for (d, x) in a {
        for (e, y) in b {
            let k = d.checked_add(*e)?;
            let z = x.checked_mul(*y)?;
            let t = r.entry(k).or_insert(0i128);
            *t = t.checked_add(z)?;
        }
    }
    Some(r)
}
pub fn mulmod<N: Ty>(a: &Po, b: &Po) -> Option<Po> {
    Some(norm::<N>(&mul(&norm::<N>(a), &norm::<N>(b))?))
}
pub fn abs(a: &Po) -> Option<Po> {
    a.iter().map(|(d, x)| Some((*d, x.checked_abs()?))).collect()
}
/// Every coefficient representable in N (always true modulo m).
pub fn fits<N: Ty>(a: &Po) -> bool {
    a.values().all(|x| N::fits(*x))
}
/// Sum of magnitudes at every degree representable, so that every partial sum is.
pub fn mul_exact<N: Ty>(a: &Po, b: &Po) -> bool {
    N::modulus().is_some()
        || match (abs(a), abs(b)) {
            (Some(x), Some(y)) => mul(&x, &y).map_or(false, |p| p.values().all(|v| *v <= N::hi())),
            _ => false,
        }
}
pub fn degree(a: &Po) -> Option<usize> {
    a.iter().rev().find(|(_, x)| **x != 0).map(|(d, _)| *d)
}
