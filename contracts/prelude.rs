#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unused_must_use, unused_assignments, unreachable_code, non_camel_case_types, unused_labels)]
// Prelude of the generated file: the coefficient type, the eager iterator library, and the mathematics.
extern crate alloc;
use vstd::prelude::*;
verus! {
pub mod pre {
use vstd::prelude::*;
pub use core::ops::*;
pub use vstd::std_specs::ops::*;
pub use alloc::collections::BTreeMap;
pub use alloc::vec::Vec;
pub use core::marker::PhantomData;

// ---------------------------------------------------------------------------------------------------- coefficients
/// A coefficient with exact arithmetic. The generic parameter N of the crate is read as this type, and nothing but
/// the operations below is known of it.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Z { x: i128 }
pub type N = Z;

impl Z {
    pub uninterp spec fn v(&self) -> real;
    #[verifier::external_body]
    pub fn zero() -> (r: Z) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Z) ensures r.v() == 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1real) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Z) ensures r == *self { unimplemented!() }
    /// num::pow and powi
    #[verifier::external_body]
    pub fn upow(self, exp: usize) -> (r: Z) ensures r.v() == rpow(self.v(), exp as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(x: u8) -> (r: Z) ensures r.v() == (x as int) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn is_positive(&self) -> (r: bool) ensures r == (self.v() > 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_negative_one(&self) -> (r: bool) ensures r == (self.v() == -1real) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs_sqrt(self) -> (r: Z) ensures r.v() >= 0real, is_sqrt(r.v()), exact_div() ==> sq(r.v()) == rabs(self.v()), !exact_div() ==> r.v() == fsq(rabs(self.v())) { unimplemented!() }
    #[verifier::external_body]
    pub fn cbrt(self) -> (r: Z) ensures exact_div() ==> is_cbrt(r.v(), self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn cos_third(self) -> (r: Z) requires rabs(self.v()) <= 1real ensures exact_div() ==> is_third(r.v(), self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: Z) ensures r.v() == rabs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn round(self) -> (r: Z) ensures whole(r.v()), rabs(r.v() - self.v()) <= 0.5real { unimplemented!() }
    /// a literal of the source, n / d
    #[verifier::external_body]
    pub fn v_ratio(n: u64, d: u64) -> (r: Z) requires d > 0 ensures r.v() * ((d as int) as real) == (n as int) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn can_negate() -> (r: bool) ensures r == can_neg() { unimplemented!() }
    /// Err where the type has no exact value for the number (see C18 for the conversions themselves).
    #[verifier::external_body]
    pub fn try_from_usize_exact(num: usize) -> (r: Result<Z, ConvErr>) ensures (r is Ok) == exact_in(num as int), r is Ok ==> r->Ok_0.v() == (num as int) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from_usize_cont(num: usize) -> (r: Result<Z, ConvErr>) ensures (r is Ok) == cont_in(num as int), r is Ok ==> r->Ok_0.v() == (num as int) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn v_eqv(&self, o: &Z) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() }
}
pub struct ConvErr { }
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn cube(x: real) -> real { x * x * x }
pub open spec fn is_sqrt(x: real) -> bool { true }
pub open spec fn is_cbrt(x: real, y: real) -> bool { cube(x) == y }
/// x = cos(t / 3) where y = cos t
pub open spec fn is_third(x: real, y: real) -> bool { 4real * cube(x) - 3real * x == y }
pub uninterp spec fn can_neg() -> bool;
pub uninterp spec fn exact_in(n: int) -> bool;
pub uninterp spec fn cont_in(n: int) -> bool;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
/// The quotient of two coefficients: exact, or truncated towards zero.
pub uninterp spec fn quo(a: real, b: real) -> real;
pub uninterp spec fn exact_div() -> bool;
#[verifier::external_body]
pub broadcast proof fn quo_exact(a: real, b: real)
    requires b != 0real, exact_div()
    ensures (#[trigger] quo(a, b)) * b == a
{ }
#[verifier::external_body]
pub broadcast proof fn quo_trunc(a: real, b: real)
    requires b != 0real, !exact_div()
    ensures rabs(a - (#[trigger] quo(a, b)) * b) < rabs(b), rabs(a - quo(a, b) * b) <= rabs(a), rabs(a) < rabs(b) ==> quo(a, b) == 0real, b == 1real ==> quo(a, b) == a
{ }
/// a truncated quotient of a multiple is exact
#[verifier::external_body]
pub proof fn quo_multiple(k: int, b: real)
    requires b != 0real, !exact_div()
    ensures quo(k as real * b, b) == k as real
{ }
pub open spec fn is_int(x: real, n: int) -> bool { x == n as real }
pub open spec fn whole(x: real) -> bool { exists|n: int| #[trigger] is_int(x, n) }
/// The square root of integer types, the floor (its contract is proved for each of the twelve types, see C20).
pub uninterp spec fn fsq(x: real) -> real;
#[verifier::external_body]
pub proof fn fsq_floor(x: real)
    requires x >= 0real, whole(x)
    ensures whole(fsq(x)), fsq(x) >= 0real, sq(fsq(x)) <= x, x < sq(fsq(x) + 1real)
{ }
pub proof fn mul0(x: real, y: real)
    requires x == 0real || y == 0real
    ensures x * y == 0real, y * x == 0real
{ if x == 0real { assert(0real * y == 0real && y * 0real == 0real) by (nonlinear_arith); } else { assert(x * 0real == 0real && 0real * x == 0real) by (nonlinear_arith); } }
pub proof fn quo_zero(b: real)
    requires b != 0real
    ensures quo(0real, b) == 0real
{ if exact_div() { quo_exact(0real, b); let q = quo(0real, b); assert(q == 0real) by (nonlinear_arith) requires q * b == 0real, b != 0real; } else { quo_trunc(0real, b); } }
pub proof fn quo_one(a: real)
    ensures quo(a, 1real) == a
{ if exact_div() { quo_exact(a, 1real); let q = quo(a, 1real); assert(q == a) by (nonlinear_arith) requires q * 1real == a; } else { quo_trunc(a, 1real); } }

macro_rules! zop {
    ($T:ident, $S:ident, $f:ident, $ob:ident, $req:ident, $sp:ident, |$a:ident, $b:ident| $e:expr, $e2:expr, $r:expr) => { verus! {
        impl $T for Z { type Output = Z;
            #[verifier::external_body]
            fn $f(self, rhs: Z) -> (r: Z) ensures ({ let $a = self.v(); let $b = rhs.v(); r.v() == $e && r.v() == $e2 }) { unimplemented!() } }
        impl $S for Z {
            open spec fn $ob() -> bool { false }
            open spec fn $req(self, rhs: Z) -> bool { let $b = rhs.v(); $r }
            uninterp spec fn $sp(self, rhs: Z) -> Z;
        }
    } };
}
macro_rules! zopa {
    ($T:ident, $S:ident, $f:ident, $ob:ident, $req:ident, $sp:ident, |$a:ident, $b:ident| $e:expr, $e2:expr, $r:expr) => { verus! {
        impl $T for Z {
            #[verifier::external_body]
            fn $f(&mut self, rhs: Z) ensures ({ let $a = old(self).v(); let $b = rhs.v(); final(self).v() == $e && final(self).v() == $e2 }) { unimplemented!() } }
        impl $S for Z {
            open spec fn $ob() -> bool { false }
            open spec fn $req(&self, rhs: Z) -> bool { let $b = rhs.v(); $r }
            uninterp spec fn $sp(&self, rhs: Z) -> &Z;
        }
    } };
}
zop!(Add, AddSpecImpl, add, obeys_add_spec, add_req, add_spec, |a, b| a + b, a + b, true);
zop!(Sub, SubSpecImpl, sub, obeys_sub_spec, sub_req, sub_spec, |a, b| a - b, a - b, true);
zop!(Mul, MulSpecImpl, mul, obeys_mul_spec, mul_req, mul_spec, |a, b| a * b, b * a, true);
zop!(Div, DivSpecImpl, div, obeys_div_spec, div_req, div_spec, |a, b| quo(a, b), quo(a, b), b != 0real);
zopa!(AddAssign, AddAssignSpecImpl, add_assign, obeys_add_assign_spec, add_assign_req, add_assign_spec, |a, b| a + b, a + b, true);
zopa!(SubAssign, SubAssignSpecImpl, sub_assign, obeys_sub_assign_spec, sub_assign_req, sub_assign_spec, |a, b| a - b, a - b, true);
zopa!(MulAssign, MulAssignSpecImpl, mul_assign, obeys_mul_assign_spec, mul_assign_req, mul_assign_spec, |a, b| a * b, b * a, true);
zopa!(DivAssign, DivAssignSpecImpl, div_assign, obeys_div_assign_spec, div_assign_req, div_assign_spec, |a, b| quo(a, b), quo(a, b), b != 0real);
impl Neg for Z { type Output = Z;
    #[verifier::external_body]
    fn neg(self) -> (r: Z) ensures r.v() == -self.v() { unimplemented!() } }
impl NegSpecImpl for Z {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> Z;
}

use core::cmp::Ordering;
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl};
impl PartialEq for Z {
    #[verifier::external_body]
    fn eq(&self, o: &Z) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Z {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Z) -> bool { self.v() == o.v() }
}
impl PartialOrd for Z {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for Z {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Z) -> Option<Ordering> { if self.v() < o.v() { Some(Ordering::Less) } else if self.v() > o.v() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
}

#[verifier::reject_recursive_types(T)]
pub struct Complex<T> { pub re: T, pub im: T }
impl<T> Complex<T> { pub fn new(re: T, im: T) -> (r: Self) ensures r.re == re, r.im == im { Complex { re, im } } }

// ---------------------------------------------------------------------------------------------------- iterators
/// Every iterator of the crate, as the sequence of items it would still yield. The crate's iterators are pure, so
/// computing the items at once yields the same items.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> It<T> {
    pub uninterp spec fn s(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).s().len() == 0 ==> r is None && final(self).s() == old(self).s(),
            old(self).s().len() > 0 ==> r == Some(old(self).s()[0]) && final(self).s() == old(self).s().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r.s().len() == if self.s().len() < o.s().len() { self.s().len() } else { o.s().len() },
            forall|i: int| 0 <= i < r.s().len() ==> #[trigger] r.s()[i] == (self.s()[i], o.s()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r.s().len() == self.s().len(), self.s().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.s().len() ==> #[trigger] r.s()[i] == (i as usize, self.s()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r.s() == self.s().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r.s() == self.s().skip(if n <= self.s().len() { n as int } else { self.s().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r.s() == self.s().take(if n <= self.s().len() { n as int } else { self.s().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self.s() { unimplemented!() }
}
impl<T, E> It<Result<T, E>> {
    /// collect into a Result: all of the values, or the first error
    #[verifier::external_body]
    pub fn v_collect_result(self) -> (r: Result<Vec<T>, E>)
        ensures r is Ok ==> r->Ok_0@.len() == self.s().len() && forall|i: int| 0 <= i < self.s().len() ==> #[trigger] self.s()[i] == Ok::<T, E>(r->Ok_0@[i]),
            r is Ok ==> oks(self.s()), r is Err ==> first_err(self.s(), r->Err_0)
    { unimplemented!() }
}
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn first_err<T, E>(s: Seq<Result<T, E>>, e: E) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok }
impl<T> It<T> {
    /// the item that a loop takes in its i-th turn, and takes only there
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: T) requires i < self.s().len() ensures r == self.s()[i as int] { unimplemented!() }
}
pub trait VInto: Sized {
    type Item;
    spec fn iv(&self) -> Seq<Self::Item>;
    spec fn ireq(&self) -> bool;
    fn v_into_(self) -> (r: It<Self::Item>) requires self.ireq() ensures r.s() == self.iv();
}
pub fn v_into<A: VInto>(a: A) -> (r: It<A::Item>) requires a.ireq() ensures r.s() == a.iv() { a.v_into_() }
impl<T> VInto for It<T> {
    type Item = T;
    open spec fn iv(&self) -> Seq<T> { self.s() }
    open spec fn ireq(&self) -> bool { true }
    fn v_into_(self) -> (r: It<T>) { self }
}
impl<T> VInto for Vec<T> {
    type Item = T;
    open spec fn iv(&self) -> Seq<T> { self@ }
    open spec fn ireq(&self) -> bool { true }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> VInto for &'a Vec<T> {
    type Item = &'a T;
    open spec fn iv(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn ireq(&self) -> bool { true }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T> VInto for &'a [T] {
    type Item = &'a T;
    open spec fn iv(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn ireq(&self) -> bool { true }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<&'a T>) { unimplemented!() }
}
/// The entries of a map in ascending key order.
pub open spec fn sorted_keys(k: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> k[i] < k[j] }
pub uninterp spec fn keys_of(m: Map<usize, Z>) -> Seq<usize>;
#[verifier::external_body]
pub broadcast proof fn keys_of_ax(m: Map<usize, Z>)
    ensures sorted_keys(#[trigger] keys_of(m)), forall|k: usize| keys_of(m).contains(k) <==> #[trigger] m.dom().contains(k)
{ }
impl VInto for BTreeMap<usize, Z> {
    type Item = (usize, Z);
    open spec fn iv(&self) -> Seq<(usize, Z)> { Seq::new(keys_of(self@).len(), |i: int| (keys_of(self@)[i], self@[keys_of(self@)[i]])) }
    open spec fn ireq(&self) -> bool { true }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<(usize, Z)>) { unimplemented!() }
}
impl<'a> VInto for &'a BTreeMap<usize, Z> {
    type Item = (&'a usize, &'a Z);
    open spec fn iv(&self) -> Seq<(&'a usize, &'a Z)> { Seq::new(keys_of(self@).len(), |i: int| (&keys_of(self@)[i], &self@[keys_of(self@)[i]])) }
    open spec fn ireq(&self) -> bool { true }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<(&'a usize, &'a Z)>) { unimplemented!() }
}
pub trait VMapIt {
    spec fn mq(&self) -> Map<usize, Z>;
    fn v_iter<'a>(&'a self) -> (r: It<(&'a usize, &'a Z)>)
        ensures r.s().len() == keys_of(self.mq()).len(), forall|i: int| 0 <= i < r.s().len() ==> #[trigger] r.s()[i] == (&keys_of(self.mq())[i], &self.mq()[keys_of(self.mq())[i]]);
    fn v_mut_keys(&self) -> (r: It<usize>) ensures r.s() == keys_of(self.mq());
}
impl VMapIt for BTreeMap<usize, Z> {
    open spec fn mq(&self) -> Map<usize, Z> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<(&'a usize, &'a Z)>) { unimplemented!() }
    #[verifier::external_body]
    fn v_mut_keys(&self) -> (r: It<usize>) { unimplemented!() }
}

// ---------------------------------------------------------------------------------------------------- panics
/// An explicit panic is reached only where the contract of the function says so.
pub uninterp spec fn panic_allowed() -> bool;
#[verifier::external_body]
pub fn v_panic() -> ! requires panic_allowed() ensures false { unimplemented!() }
pub trait VUnwrap: Sized {
    type T;
    spec fn ok(&self) -> bool;
    spec fn val(&self) -> Self::T;
    fn v_unwrap(self) -> (r: Self::T) requires self.ok() || panic_allowed() ensures self.ok(), r == self.val();
}
impl<A> VUnwrap for Option<A> {
    type T = A;
    open spec fn ok(&self) -> bool { self is Some }
    open spec fn val(&self) -> A { self->Some_0 }
    #[verifier::external_body]
    fn v_unwrap(self) -> (r: A) { unimplemented!() }
}
impl<A, E> VUnwrap for Result<A, E> {
    type T = A;
    open spec fn ok(&self) -> bool { self is Ok }
    open spec fn val(&self) -> A { self->Ok_0 }
    #[verifier::external_body]
    fn v_unwrap(self) -> (r: A) { unimplemented!() }
}

// ---------------------------------------------------------------------------------------------------- slices, vectors
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn upto(lo: int, hi: int) -> Seq<usize> { Seq::new((if lo < hi { hi - lo } else { 0 }) as nat, |i: int| (lo + i) as usize) }
pub open spec fn rep<T>(x: T, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| x) }
/// A vector of coefficients holds at most isize::MAX elements (the size of a coefficient is not zero).
#[verifier::external_body]
pub broadcast proof fn vec_len_ax(v: Vec<Z>) ensures #[trigger] v@.len() <= isize::MAX { }
#[verifier::external_body]
pub broadcast proof fn slice_len_ax(v: &[Z]) ensures #[trigger] v@.len() <= isize::MAX { }
#[verifier::external_body]
pub broadcast proof fn slice2_len_ax(v: &[(Z, usize)]) ensures #[trigger] v@.len() <= isize::MAX { }

pub trait VSeq<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) ensures r.s() == refs::<T>(self.sq());
    fn v_mut_keys(&self) -> (r: It<usize>) ensures r.s() == upto(0, self.sq().len() as int), self.sq().len() <= usize::MAX;
    fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.sq();
    fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>)
        ensures (r is None) == (self.sq().len() == 0),
            r is Some ==> *(r->Some_0).0 == self.sq().last() && (r->Some_0).1@ == self.sq().drop_last();
    fn v_split_at<'a>(&'a self, k: usize) -> (r: (&'a [T], &'a [T]))
        requires k <= self.sq().len()
        ensures r.0@ == self.sq().take(k as int), r.1@ == self.sq().skip(k as int);
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>)
        requires n > 0
        ensures r.all() == self.sq(), r.n() == n, self.sq().len() <= usize::MAX;
}
impl<T> VSeq<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_mut_keys(&self) -> (r: It<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_at<'a>(&'a self, k: usize) -> (r: (&'a [T], &'a [T])) { unimplemented!() }
    #[verifier::external_body]
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>) { unimplemented!() }
}
impl<T> VSeq<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_mut_keys(&self) -> (r: It<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_at<'a>(&'a self, k: usize) -> (r: (&'a [T], &'a [T])) { unimplemented!() }
    #[verifier::external_body]
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>) { unimplemented!() }
}
impl<T, const K: usize> VSeq<T> for [T; K] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_mut_keys(&self) -> (r: It<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_last<'a>(&'a self) -> (r: Option<(&'a T, &'a [T])>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_at<'a>(&'a self, k: usize) -> (r: (&'a [T], &'a [T])) { unimplemented!() }
    #[verifier::external_body]
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>) { unimplemented!() }
}
impl<'a, T, const K: usize> VInto for &'a [T; K] {
    type Item = &'a T;
    open spec fn iv(&self) -> Seq<&'a T> { refs::<T>(self@) }
    open spec fn ireq(&self) -> bool { true }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<&'a T>) { unimplemented!() }
}
/// chunks_exact: the whole chunks, then the remainder
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ch<'a, T> { v: &'a [T] }
impl<'a, T> Ch<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn n(&self) -> int;
    pub open spec fn q(&self) -> int { self.all().len() as int / self.n() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.q() { unimplemented!() }
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: &'a [T]) ensures r@ == self.all().skip(self.q() * self.n()) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, &'a [T])>)
        ensures r.s().len() == self.q(),
            forall|i: int| 0 <= i < r.s().len() ==> (#[trigger] r.s()[i]).0 == i && r.s()[i].1@ == self.all().subrange(i * self.n(), i * self.n() + self.n())
    { unimplemented!() }
}
pub trait VVec<T> {
    spec fn vq(&self) -> Seq<T>;
    fn v_drain(&mut self, lo: usize, hi: usize)
        requires lo <= hi <= old(self).vq().len()
        ensures final(self).vq() == old(self).vq().take(lo as int) + old(self).vq().skip(hi as int);
    fn v_splice(&mut self, lo: usize, hi: usize, x: It<T>)
        requires lo <= hi <= old(self).vq().len()
        ensures final(self).vq() == old(self).vq().take(lo as int) + x.s() + old(self).vq().skip(hi as int);
    fn v_extend(&mut self, x: It<T>) ensures final(self).vq() == old(self).vq() + x.s();
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_drain(&mut self, lo: usize, hi: usize) { unimplemented!() }
    #[verifier::external_body]
    fn v_splice(&mut self, lo: usize, hi: usize, x: It<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_extend(&mut self, x: It<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == rep(x, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_repeat<T: Copy>(x: T, n: usize) -> (r: It<T>) ensures r.s() == rep(x, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_range(lo: usize, hi: usize) -> (r: It<usize>) ensures r.s() == upto(lo as int, hi as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_idx(lo: usize, hi: usize, len: usize) -> (r: It<usize>) requires lo <= hi <= len ensures r.s() == upto(lo as int, hi as int) { unimplemented!() }
pub fn v_split_ok(len: usize, k: usize) requires k <= len { }
#[verifier::external_body]
pub fn v_once<T>(x: Option<T>) -> (r: It<T>) ensures r.s() == if x is Some { seq![x->Some_0] } else { Seq::empty() } { unimplemented!() }
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Copy> VClone for Vec<T> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VClone for BTreeMap<usize, Z> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}
pub trait VFrom<A>: Sized { fn v_from(a: A) -> Self; }
pub trait VPartialEq<R = Self> { fn eq(&self, other: &R) -> bool; }
impl It<(Z, usize)> {
    /// Iterator::eq: the same items in the same order
    #[verifier::external_body]
    pub fn v_eq(self, o: It<(Z, usize)>) -> (r: bool) ensures r == same_terms(self.s(), o.s()) { unimplemented!() }
}
pub open spec fn same_terms(a: Seq<(Z, usize)>, b: Seq<(Z, usize)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0.v() == b[i].0.v() && a[i].1 == b[i].1
}
pub trait VEqv<R = Self> { spec fn eqv(&self, o: &R) -> bool; fn v_eqv(&self, o: &R) -> (r: bool) ensures r == self.eqv(o); }
impl VEqv for usize { open spec fn eqv(&self, o: &usize) -> bool { *self == *o } fn v_eqv(&self, o: &usize) -> (r: bool) { *self == *o } }
impl<const K: usize> VEqv for [Z; K] {
    open spec fn eqv(&self, o: &[Z; K]) -> bool { forall|i: int| 0 <= i < K ==> (#[trigger] self@[i]).v() == o@[i].v() }
    #[verifier::external_body]
    fn v_eqv(&self, o: &[Z; K]) -> (r: bool) { unimplemented!() }
}
impl<const K: usize> VEqv for [usize; K] {
    open spec fn eqv(&self, o: &[usize; K]) -> bool { forall|i: int| 0 <= i < K ==> (#[trigger] self@[i]) == o@[i] }
    #[verifier::external_body]
    fn v_eqv(&self, o: &[usize; K]) -> (r: bool) { unimplemented!() }
}

#[verifier::external_body]
pub fn v_tail<'a, T>(s: &'a [T], k: usize) -> (r: &'a [T]) requires k <= s@.len() ensures r@ == s@.skip(k as int) { unimplemented!() }
/// the result of code that was cut off: nothing is known of it
#[verifier::external_body]
pub fn v_any<T>() -> (r: T) { unimplemented!() }

// ---------------------------------------------------------------------------------------------------- text
/// Strings are read as the sequence of their characters; an owned String is an immutable text here.
pub type VString = &'static str;
/// A formatter: the text written so far, and whether its sink accepts everything.
#[verifier::external_body]
pub struct Fmt { x: u8 }
pub struct FmtErr { }
pub type FmtResult = Result<(), FmtErr>;
impl Fmt {
    pub uninterp spec fn t(&self) -> Seq<char>;
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, seq![c]) { unimplemented!() }
}
/// exactly x was written, unless the sink failed
pub open spec fn wrote(a: Fmt, b: Fmt, r: FmtResult, x: Seq<char>) -> bool {
    a.sound() == b.sound() && (a.sound() ==> r is Ok) && (r is Ok ==> b.t() =~= a.t() + x)
}
pub trait VDisplay {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Fmt) -> (r: FmtResult) ensures wrote(*old(f), *final(f), r, self.shown());
}
impl VDisplay for Z {
    open spec fn shown(&self) -> Seq<char> { zt(self.v()) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VDisplay for usize {
    open spec fn shown(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VDisplay for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl VDisplay for char {
    open spec fn shown(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl<'a, T: VDisplay + ?Sized> VDisplay for &'a T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
/// write!(f, "..{}..", x) writes its pieces in order
pub fn v_write<T: VDisplay>(f: &mut Fmt, x: &T) -> (r: FmtResult) ensures wrote(*old(f), *final(f), r, x.shown()) { x.fmt(f) }
pub fn v_write_lit(f: &mut Fmt, x: &str) -> (r: FmtResult) ensures wrote(*old(f), *final(f), r, x@) { f.write_str(x) }
pub fn v_wrote(f: &mut Fmt) -> (r: FmtResult) ensures r is Ok, *final(f) == *old(f) { Ok(()) }
#[verifier::external_body]
pub fn v_empty() -> (r: VString) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_cat<T: VDisplay>(a: VString, x: &T) -> (r: VString) ensures r@ == a@ + x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn v_cat_lit(a: VString, x: &str) -> (r: VString) ensures r@ == a@ + x@ { unimplemented!() }
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
pub trait VStr {
    spec fn tx(&self) -> Seq<char>;
    fn v_strip_prefix<'a>(&'a self, c: char) -> (r: Option<&'a str>)
        ensures (r is Some) == (self.tx().len() > 0 && self.tx()[0] == c), r is Some ==> (r->Some_0)@ == self.tx().skip(1);
    fn v_chars(&self) -> (r: It<char>) ensures r.s() == self.tx();
    fn v_char_indices<'a>(&'a self) -> (r: CharIndices<'a>) ensures r.all() == self.tx(), r.i() == 0;
}
impl VStr for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_strip_prefix<'a>(&'a self, c: char) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: It<char>) { unimplemented!() }
    #[verifier::external_body]
    fn v_char_indices<'a>(&'a self) -> (r: CharIndices<'a>) { unimplemented!() }
}
/// FromStr of the number types: uninterpreted, a partial function of the text.
pub uninterp spec fn np(t: Seq<char>) -> Option<real>;
pub uninterp spec fn up(t: Seq<char>) -> Option<int>;
pub trait VFromStr: Sized {
    type Err;
    spec fn can_parse(t: Seq<char>) -> bool;
    spec fn parsed(t: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) requires Self::can_parse(s@) ensures Self::parsed(s@, r);
}
pub struct NumErr { }
impl VFromStr for Z {
    type Err = NumErr;
    open spec fn can_parse(t: Seq<char>) -> bool { true }
    open spec fn parsed(t: Seq<char>, r: Result<Z, NumErr>) -> bool { match r { Ok(z) => np(t) == Some(z.v()), Err(_) => np(t) is None } }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<Z, NumErr>) { unimplemented!() }
}
impl VFromStr for usize {
    type Err = NumErr;
    open spec fn can_parse(t: Seq<char>) -> bool { true }
    open spec fn parsed(t: Seq<char>, r: Result<usize, NumErr>) -> bool { match r { Ok(n) => up(t) == Some(n as int), Err(_) => up(t) is None } }
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<usize, NumErr>) { unimplemented!() }
}
pub trait VIterator: Sized { type Item; spec fn nreq(&self) -> bool; fn next(&mut self) -> Option<Self::Item> requires old(self).nreq(); }
/// the length of a character in UTF-8, and the place of the i-th character in a text
pub uninterp spec fn ulen(c: char) -> int;
#[verifier::external_body]
pub broadcast proof fn ulen_ax(c: char) ensures 1 <= #[trigger] ulen(c) <= 4 { }
pub open spec fn off(t: Seq<char>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(t, i - 1) + ulen(t[i - 1]) } }
pub proof fn off_mono(t: Seq<char>, i: int, j: int)
    requires 0 <= i < j
    ensures off(t, i) < off(t, j)
    decreases j
{ broadcast use ulen_ax; if i < j - 1 { off_mono(t, i, j - 1); } else if j > 1 { } assert(ulen(t[j - 1]) >= 1); }
/// the character at a place
pub open spec fn pos(t: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == b }
pub open spec fn bound(t: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == b }
pub proof fn pos_off(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures pos(t, off(t, i)) == i, bound(t, off(t, i))
{
    let j = pos(t, off(t, i));
    assert(0 <= j <= t.len() && off(t, j) == off(t, i));
    if i < j { off_mono(t, i, j); } else if j < i { off_mono(t, j, i); }
}
#[verifier::external_body]
pub fn v_str_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len() as int) { unimplemented!() }
/// &s[range]: panics off the boundaries of characters
#[verifier::external_body]
pub fn v_slice<'a>(s: &'a str, r: Range<usize>) -> (o: &'a str)
    requires bound(s@, r.start as int), bound(s@, r.end as int), r.start <= r.end
    ensures o@ == s@.subrange(pos(s@, r.start as int), pos(s@, r.end as int))
{ unimplemented!() }
#[verifier::external_body]
pub struct CharIndices<'a> { x: &'a str }
impl<'a> CharIndices<'a> {
    pub uninterp spec fn all(&self) -> Seq<char>;
    pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).i() <= old(self).all().len(),
            old(self).i() < old(self).all().len() ==> r is Some && (r->Some_0).0 == off(old(self).all(), old(self).i()) && (r->Some_0).1 == old(self).all()[old(self).i()] && final(self).i() == old(self).i() + 1,
            old(self).i() >= old(self).all().len() ==> r is None && final(self).i() == old(self).i()
    { unimplemented!() }
}
pub uninterp spec fn white(c: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn white_ax(c: char) ensures ('!' <= c <= '~') ==> !#[trigger] white(c), c == ' ' ==> white(c) { }
pub trait VChar { fn v_is_whitespace(self) -> bool; }
impl VChar for char {
    #[verifier::external_body]
    fn v_is_whitespace(self) -> (r: bool) ensures r == white(self) { unimplemented!() }
}
pub open spec fn unref<'b>(s: Seq<&'b char>) -> Seq<char> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn unref_refs<'b>(t: Seq<char>) ensures #[trigger] unref(refs::<'b, char>(t)) == t { assert(unref(refs::<'b, char>(t)) =~= t); }
impl<'b> It<&'b char> {
    #[verifier::external_body]
    pub fn v_collect_str(self) -> (r: VString) ensures r@ == unref(self.s()) { unimplemented!() }
}
impl It<char> {
    #[verifier::external_body]
    pub fn v_collect_str(self) -> (r: VString) ensures r@ == self.s() { unimplemented!() }
}
/// The text of a number, as its Display writes it.
/// how the number types read what they wrote: with its sign, and a plus in front of a positive number is allowed
#[verifier::external_body]
pub proof fn rt_ax(z: Z)
    requires z.v() != 0real
    ensures np(zt(z.v())) == Some(z.v()), z.v() > 0real ==> np(seq!['+'] + zmag(z.v())) == Some(z.v())
{ }
#[verifier::external_body]
pub proof fn rt_zero() ensures np(seq!['0']) == Some(0real) { }
#[verifier::external_body]
pub proof fn rt_up(n: usize) ensures up(dec(n as int)) == Some(n as int) { }
pub uninterp spec fn zt(x: real) -> Seq<char>;
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
/// without the sign
pub open spec fn zmag(x: real) -> Seq<char> { if x < 0real { zt(x).skip(1) } else { zt(x) } }
/// how the number types are displayed: digits and at most a point, a minus in front of negative numbers only, 1 as "1"
#[verifier::external_body]
pub broadcast proof fn zt_ax(x: real)
    requires x != 0real
    ensures (#[trigger] zt(x)).len() > 0, x < 0real ==> zt(x)[0] == '-', zmag(x).len() > 0, forall|i: int| 0 <= i < zmag(x).len() ==> digit(#[trigger] zmag(x)[i]) || zmag(x)[i] == '.',
        (zmag(x) =~= seq!['1']) <==> (x == 1real || x == -1real)
{ }
#[verifier::external_body]
pub broadcast proof fn dec_ax(n: int)
    requires n >= 0
    ensures (#[trigger] dec(n)).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> digit(#[trigger] dec(n)[i])
{ }

// ---------------------------------------------------------------------------------------------------- mathematics
pub type F = spec_fn(int) -> real;
pub open spec fn dc(t: Seq<Z>, d: int) -> real { if 0 <= d < t.len() { t[t.len() - 1 - d].v() } else { 0real } }
pub open spec fn mc(m: Map<usize, Z>, d: int) -> real { if 0 <= d <= usize::MAX && m.dom().contains(d as usize) { m[d as usize].v() } else { 0real } }
/// The polynomial a value stands for: the coefficient of every degree, all zero from bd() on.
pub trait HasC: Sized {
    spec fn c(&self, d: int) -> real;
    spec fn bd(&self) -> int;
    /// a term of this degree can be stored at all: the length of a vector is a usize
    spec fn fit(d: int) -> bool;
    /// there is nothing outside the bound
    proof fn bd_law(&self) ensures self.bd() >= 0, forall|d: int| d < 0 || d >= self.bd() ==> #[trigger] self.c(d) == 0real;
}
pub open spec fn is0<P: HasC>(p: &P) -> bool { forall|d: int| p.c(d) == 0real }
pub open spec fn same<P: HasC, Q: HasC>(p: &P, q: &Q) -> bool { forall|d: int| p.c(d) == q.c(d) }
/// n is the largest degree with a coefficient that is not zero
pub open spec fn top(c: F, n: int) -> bool { c(n) != 0real && forall|d: int| d > n ==> #[trigger] c(d) == 0real }
pub open spec fn sum(f: F, lo: int, hi: int) -> real decreases hi - lo { if lo >= hi { 0real } else { sum(f, lo, hi - 1) + f(hi - 1) } }
pub open spec fn conv(f: F, g: F, d: int) -> real { sum(|i: int| f(i) * g(d - i), 0, d + 1) }
pub open spec fn evald(c: F, bd: int, x: real) -> real { sum(|d: int| c(d) * rpow(x, d as nat), 0, bd) }
pub proof fn sum_ext(f: F, g: F, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] f(i) == g(i)
    ensures sum(f, lo, hi) == sum(g, lo, hi)
    decreases hi - lo
{ if lo < hi { sum_ext(f, g, lo, hi - 1) } }
pub proof fn sum_zero(f: F, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] f(i) == 0real
    ensures sum(f, lo, hi) == 0real
    decreases hi - lo
{ if lo < hi { sum_zero(f, lo, hi - 1) } }
pub proof fn sum_split(f: F, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi
    ensures sum(f, lo, hi) == sum(f, lo, mid) + sum(f, mid, hi)
    decreases hi - mid
{ if mid < hi { sum_split(f, lo, mid, hi - 1) } }
pub proof fn sum_one(f: F, lo: int, k: int, hi: int)
    requires lo <= k < hi, forall|i: int| lo <= i < hi && i != k ==> #[trigger] f(i) == 0real
    ensures sum(f, lo, hi) == f(k)
{ sum_split(f, lo, k, hi); sum_split(f, k, k + 1, hi); sum_zero(f, lo, k); sum_zero(f, k + 1, hi); assert(sum(f, k, k) == 0real); }
pub proof fn sum_add(f: F, g: F, h: F, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] h(i) == f(i) + g(i)
    ensures sum(h, lo, hi) == sum(f, lo, hi) + sum(g, lo, hi)
    decreases hi - lo
{ if lo < hi { sum_add(f, g, h, lo, hi - 1) } }
pub proof fn sum_scale(f: F, k: real, h: F, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] h(i) == k * f(i)
    ensures sum(h, lo, hi) == k * sum(f, lo, hi)
    decreases hi - lo
{ if lo < hi { sum_scale(f, k, h, lo, hi - 1); assert(k * (sum(f, lo, hi - 1) + f(hi - 1)) == k * sum(f, lo, hi - 1) + k * f(hi - 1)) by (nonlinear_arith); } else { assert(k * 0real == 0real) by (nonlinear_arith); } }
/// summing in the opposite order, shifted: f(i) == g(k - i)
pub proof fn sum_rev(f: F, g: F, lo: int, hi: int, k: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] f(i) == g(k - i)
    ensures sum(f, lo, hi) == sum(g, k - hi + 1, k - lo + 1)
    decreases hi - lo
{ if lo < hi { sum_rev(f, g, lo, hi - 1, k); sum_split(g, k - hi + 1, k - hi + 2, k - lo + 1); assert(sum(g, k - hi + 1, k - hi + 1) == 0real); assert(sum(g, k - hi + 1, k - hi + 2) == g(k - hi + 1)); assert(f(hi - 1) == g(k - (hi - 1))); } }
/// zero outside [lo, hi): the range may be enlarged
pub proof fn sum_widen(f: F, a: int, lo: int, hi: int, b: int)
    requires a <= lo <= hi <= b, forall|i: int| a <= i < b && !(lo <= i < hi) ==> #[trigger] f(i) == 0real
    ensures sum(f, a, b) == sum(f, lo, hi)
{ sum_split(f, a, lo, b); sum_split(f, lo, hi, b); sum_zero(f, a, lo); sum_zero(f, hi, b); }
pub proof fn sum_shift(f: F, g: F, lo: int, hi: int, k: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] f(i) == g(i + k)
    ensures sum(f, lo, hi) == sum(g, lo + k, hi + k)
    decreases hi - lo
{ if lo < hi { sum_shift(f, g, lo, hi - 1, k); assert(f(hi - 1) == g(hi - 1 + k)); } }
pub proof fn evald_ext(f: F, n: int, g: F, m: int, x: real)
    requires 0 <= n, 0 <= m, forall|d: int| 0 <= d ==> #[trigger] f(d) == g(d), forall|d: int| d >= m || d >= n ==> #[trigger] f(d) == 0real
    ensures evald(f, n, x) == evald(g, m, x)
{
    let a = |d: int| f(d) * rpow(x, d as nat);
    let b = |d: int| g(d) * rpow(x, d as nat);
    let lo = if n < m { n } else { m };
    assert forall|i: int| 0 <= i && i >= lo implies #[trigger] a(i) == 0real by { assert(f(i) == 0real); assert(0real * rpow(x, i as nat) == 0real) by (nonlinear_arith); }
    assert forall|i: int| 0 <= i && i >= lo implies #[trigger] b(i) == 0real by { assert(f(i) == g(i)); assert(f(i) == 0real); assert(0real * rpow(x, i as nat) == 0real) by (nonlinear_arith); }
    assert forall|i: int| 0 <= i < lo implies #[trigger] a(i) == b(i) by { assert(f(i) == g(i)); }
    sum_widen(a, 0, 0, lo, n); sum_widen(b, 0, 0, lo, m); sum_ext(a, b, 0, lo);
}
/// Horner's scheme
pub open spec fn hor(t: Seq<Z>, k: int, x: real) -> real decreases k { if k <= 0 { 0real } else { hor(t, k - 1, x) * x + t[k - 1].v() } }
pub proof fn hor_eval(t: Seq<Z>, k: int, x: real)
    requires 0 <= k <= t.len()
    ensures hor(t, k, x) == evald(|d: int| dc(t.take(k), d), k, x)
    decreases k
{
    let c = |d: int| dc(t.take(k), d);
    let f = |d: int| c(d) * rpow(x, d as nat);
    if k > 0 {
        hor_eval(t, k - 1, x);
        let c1 = |d: int| dc(t.take(k - 1), d);
        let g = |d: int| c1(d) * rpow(x, d as nat);
        let h = |d: int| x * g(d);
        sum_split(f, 0, 1, k);
        assert(sum(f, 0, 0) == 0real);
        assert(rpow(x, 0) == 1real);
        assert(f(0) == c(0) * 1real);
        assert(c(0) == t[k - 1].v());
        assert(sum(f, 0, 1) == t[k - 1].v());
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] h(i) == f(i + 1) by {
            assert(c1(i) == c(i + 1));
            assert(rpow(x, (i + 1) as nat) == x * rpow(x, i as nat));
            assert(x * (c1(i) * rpow(x, i as nat)) == c1(i) * (x * rpow(x, i as nat))) by (nonlinear_arith);
        }
        sum_shift(h, f, 0, k - 1, 1);
        sum_scale(g, x, h, 0, k - 1);
        assert(x * sum(g, 0, k - 1) == sum(g, 0, k - 1) * x) by (nonlinear_arith);
    }
}
// ---------------------------------------------------------------------------------------------------- products
pub open spec fn van(f: F) -> bool { forall|d: int| d < 0 ==> #[trigger] f(d) == 0real }
pub proof fn conv_ext(f: F, g: F, f1: F, g1: F, d: int)
    requires forall|i: int| #[trigger] f(i) == f1(i), forall|i: int| #[trigger] g(i) == g1(i)
    ensures conv(f, g, d) == conv(f1, g1, d)
{
    let a = |i: int| f(i) * g(d - i); let b = |i: int| f1(i) * g1(d - i);
    assert forall|i: int| 0 <= i < d + 1 implies #[trigger] a(i) == b(i) by { assert(f(i) == f1(i) && g(d - i) == g1(d - i)); }
    sum_ext(a, b, 0, d + 1);
}
pub proof fn conv_comm(f: F, g: F, d: int)
    ensures conv(f, g, d) == conv(g, f, d)
{
    let a = |i: int| f(i) * g(d - i); let b = |i: int| g(i) * f(d - i);
    assert forall|i: int| 0 <= i < d + 1 implies #[trigger] a(i) == b(d - i) by { assert(d - (d - i) == i); assert(f(i) * g(d - i) == g(d - i) * f(i)) by (nonlinear_arith); }
    sum_rev(a, b, 0, d + 1, d);
    if d < 0 { } 
}
pub open spec fn row(h: spec_fn(int, int) -> real, k: int, n: int) -> real { sum(|i: int| h(k, i), 0, n) }
pub open spec fn col(h: spec_fn(int, int) -> real, i: int, m: int) -> real { sum(|k: int| h(k, i), 0, m) }
pub proof fn sum_swap(h: spec_fn(int, int) -> real, m: int, n: int)
    requires 0 <= m
    ensures sum(|k: int| row(h, k, n), 0, m) == sum(|i: int| col(h, i, m), 0, n)
    decreases m
{
    let rows = |k: int| row(h, k, n);
    let cols = |i: int| col(h, i, m);
    if m == 0 { sum_zero(cols, 0, n); }
    else {
        sum_swap(h, m - 1, n);
        let cols1 = |i: int| col(h, i, m - 1);
        let last = |i: int| h(m - 1, i);
        assert forall|i: int| 0 <= i < n implies #[trigger] cols(i) == cols1(i) + last(i) by {
            let ck = |k: int| h(k, i);
            assert(sum(ck, 0, m) == sum(ck, 0, m - 1) + ck(m - 1));
        }
        sum_add(cols1, last, cols, 0, n);
        assert(sum(rows, 0, m) == sum(rows, 0, m - 1) + rows(m - 1));
    }
}
pub open spec fn convf(f: F, g: F) -> F { |d: int| conv(f, g, d) }
pub proof fn conv_assoc(f: F, g: F, h: F, d: int)
    requires van(f), van(g), van(h)
    ensures conv(convf(f, g), h, d) == conv(f, convf(g, h), d)
{
    let n = if d >= 0 { d + 1 } else { 0 };
    let t = |k: int, i: int| f(i) * g(k - i) * h(d - k);
    let lhs = |k: int| convf(f, g)(k) * h(d - k);
    let rows = |k: int| row(t, k, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] lhs(k) == rows(k) by {
        let a = |i: int| f(i) * g(k - i);
        let b = |i: int| t(k, i);
        assert forall|i: int| 0 <= i < n implies #[trigger] b(i) == h(d - k) * a(i) by { assert(f(i) * g(k - i) * h(d - k) == h(d - k) * (f(i) * g(k - i))) by (nonlinear_arith); }
        sum_scale(a, h(d - k), b, 0, n);
        assert forall|i: int| 0 <= i < n && !(0 <= i < k + 1) implies #[trigger] a(i) == 0real by { assert(g(k - i) == 0real); assert(f(i) * 0real == 0real) by (nonlinear_arith); }
        sum_widen(a, 0, 0, k + 1, n);
        assert(conv(f, g, k) * h(d - k) == h(d - k) * conv(f, g, k)) by (nonlinear_arith);
    }
    sum_ext(lhs, rows, 0, n);
    sum_swap(t, n, n);
    let cols = |i: int| col(t, i, n);
    let rhs = |i: int| f(i) * convf(g, h)(d - i);
    assert forall|i: int| 0 <= i < n implies #[trigger] rhs(i) == cols(i) by {
        let e = d - i;
        let a = |j: int| g(j) * h(e - j);
        let b = |k: int| t(k, i);
        let a1 = |k: int| a(k - i);
        assert forall|k: int| 0 <= k < n implies #[trigger] b(k) == f(i) * a1(k) by { assert(e - (k - i) == d - k); assert(f(i) * g(k - i) * h(d - k) == f(i) * (g(k - i) * h(d - k))) by (nonlinear_arith); }
        sum_scale(a1, f(i), b, 0, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] a1(k) == a(k + (-i)) by { }
        sum_shift(a1, a, 0, n, -i);
        assert forall|j: int| -i <= j < n - i && !(0 <= j < e + 1) implies #[trigger] a(j) == 0real by { assert(g(j) == 0real); assert(0real * h(e - j) == 0real) by (nonlinear_arith); }
        sum_widen(a, -i, 0, e + 1, n - i);
    }
    sum_ext(rhs, cols, 0, n);
}
pub open spec fn one_f() -> F { |d: int| if d == 0 { 1real } else { 0real } }
pub open spec fn ppow(f: F, n: nat) -> F decreases n { if n == 0 { one_f() } else { convf(f, ppow(f, (n - 1) as nat)) } }
pub proof fn conv_one(f: F, d: int)
    requires van(f)
    ensures conv(f, one_f(), d) == f(d), conv(one_f(), f, d) == f(d)
{
    let a = |i: int| f(i) * one_f()(d - i);
    assert forall|i: int| 0 <= i < d + 1 && i != d implies #[trigger] a(i) == 0real by { assert(f(i) * 0real == 0real) by (nonlinear_arith); }
    if d >= 0 { sum_one(a, 0, d, d + 1); assert(f(d) * 1real == f(d)) by (nonlinear_arith); }
    conv_comm(f, one_f(), d);
}
pub proof fn van_conv(f: F, g: F) ensures van(convf(f, g)) { }
pub proof fn van_ppow(f: F, n: nat) ensures van(ppow(f, n)) { }
pub proof fn ppow_ext(f: F, g: F, n: nat)
    requires forall|d: int| #[trigger] f(d) == g(d)
    ensures forall|d: int| #[trigger] ppow(f, n)(d) == ppow(g, n)(d)
    decreases n
{
    if n > 0 {
        ppow_ext(f, g, (n - 1) as nat);
        assert forall|d: int| #[trigger] ppow(f, n)(d) == ppow(g, n)(d) by { conv_ext(f, ppow(f, (n - 1) as nat), g, ppow(g, (n - 1) as nat), d); }
    }
}
pub proof fn ppow_add(f: F, a: nat, b: nat)
    requires van(f)
    ensures forall|d: int| #[trigger] ppow(f, a + b)(d) == conv(ppow(f, a), ppow(f, b), d)
    decreases a
{
    van_ppow(f, a); van_ppow(f, b);
    if a == 0 { assert forall|d: int| #[trigger] ppow(f, a + b)(d) == conv(ppow(f, a), ppow(f, b), d) by { conv_one(ppow(f, b), d); } }
    else {
        let a1 = (a - 1) as nat;
        ppow_add(f, a1, b);
        van_ppow(f, a1);
        assert forall|d: int| #[trigger] ppow(f, a + b)(d) == conv(ppow(f, a), ppow(f, b), d) by {
            assert((a + b - 1) as nat == a1 + b);
            assert(ppow(f, a + b)(d) == conv(f, ppow(f, a1 + b), d));
            conv_ext(f, ppow(f, a1 + b), f, convf(ppow(f, a1), ppow(f, b)), d);
            conv_assoc(f, ppow(f, a1), ppow(f, b), d);
        }
    }
}
/// what the powers computed by squaring come to
pub proof fn ppow_facts(f: F, n: nat)
    requires van(f)
    ensures forall|d: int| #[trigger] ppow(f, 1)(d) == f(d), forall|d: int| #[trigger] ppow(f, 2)(d) == conv(f, f, d),
        n > 0 ==> forall|d: int| #[trigger] ppow(f, n)(d) == conv(f, ppow(f, (n - 1) as nat), d),
        n % 2 == 0 ==> forall|d: int| #[trigger] ppow(f, n)(d) == conv(ppow(f, n / 2), ppow(f, n / 2), d)
{
    assert forall|d: int| #[trigger] ppow(f, 1)(d) == f(d) by { conv_one(f, d); assert(ppow(f, 0) == one_f()); assert(ppow(f, 1)(d) == conv(f, ppow(f, 0), d)); }
    assert forall|d: int| #[trigger] ppow(f, 2)(d) == conv(f, f, d) by { assert(ppow(f, 2)(d) == conv(f, ppow(f, 1), d)); conv_ext(f, ppow(f, 1), f, f, d); }
    if n % 2 == 0 { ppow_add(f, n / 2, n / 2); assert(n / 2 + n / 2 == n); }
}
/// the partial sums of the schoolbook product, at position p of the result
pub open spec fn at_or0(l: Seq<Z>, j: int) -> real { if 0 <= j < l.len() { l[j].v() } else { 0real } }
pub open spec fn cs(r: Seq<Z>, l: Seq<Z>, k: int, p: int) -> real { sum(|i: int| at_or0(r, i) * at_or0(l, p - i), 0, k) }
pub proof fn cs_step(r: Seq<Z>, l: Seq<Z>, k: int, p: int)
    requires 0 <= k
    ensures cs(r, l, k + 1, p) == cs(r, l, k, p) + at_or0(r, k) * at_or0(l, p - k), cs(r, l, 0, p) == 0real,
        at_or0(r, k) == 0real || at_or0(l, p - k) == 0real ==> at_or0(r, k) * at_or0(l, p - k) == 0real
{ if at_or0(r, k) == 0real { assert(0real * at_or0(l, p - k) == 0real) by (nonlinear_arith); } if at_or0(l, p - k) == 0real { assert(at_or0(r, k) * 0real == 0real) by (nonlinear_arith); } }
pub proof fn mul_done(r: Seq<Z>, l: Seq<Z>, t: Seq<Z>, f: F, g: F)
    requires t.len() == if r.len() + l.len() > 0 { r.len() + l.len() - 1 } else { 0 },
        forall|p: int| 0 <= p < t.len() ==> (#[trigger] t[p]).v() == cs(r, l, r.len() as int, p),
        forall|d: int| #[trigger] f(d) == dc(l, d), forall|d: int| #[trigger] g(d) == dc(r, d)
    ensures forall|d: int| #[trigger] dc(t, d) == conv(f, g, d)
{
    assert forall|d: int| #[trigger] dc(t, d) == conv(f, g, d) by {
        let h = |j: int| g(j) * f(d - j);
        conv_comm(f, g, d);
        let n = r.len() as int;
        assert forall|j: int| (j < 0 || j >= n || j > d || d - j >= l.len()) implies #[trigger] h(j) == 0real by {
            if j < 0 || j >= n { assert(g(j) == 0real); assert(0real * f(d - j) == 0real) by (nonlinear_arith); } else { assert(f(d - j) == 0real); assert(g(j) * 0real == 0real) by (nonlinear_arith); }
        }
        if d < 0 { }
        else {
            let m = if n > d + 1 { n } else { d + 1 };
            sum_widen(h, 0, 0, d + 1, m);
            sum_widen(h, 0, 0, n, m);
            if d < t.len() {
                let p = t.len() - 1 - d;
                assert(t[p].v() == cs(r, l, n, p));
                if r.len() > 0 && l.len() > 0 {
                    let a = |i: int| at_or0(r, i) * at_or0(l, p - i);
                    assert forall|i: int| 0 <= i < n implies #[trigger] a(i) == h(n - 1 - i) by { let j = n - 1 - i; assert(g(j) == dc(r, j)); assert(f(d - j) == dc(l, d - j)); assert(at_or0(r, i) == dc(r, j)); assert(at_or0(l, p - i) == dc(l, d - j)); }
                    sum_rev(a, h, 0, n, n - 1);
                } else {
                    let a = |i: int| at_or0(r, i) * at_or0(l, p - i);
                    assert forall|i: int| 0 <= i < n implies #[trigger] a(i) == 0real by { assert(at_or0(l, p - i) == 0real); assert(at_or0(r, i) * 0real == 0real) by (nonlinear_arith); }
                    sum_zero(a, 0, n);
                    sum_zero(h, 0, n);
                }
            } else { sum_zero(h, 0, n); }
        }
    }
}
}
