#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unused_must_use, unused_assignments, unreachable_code, non_camel_case_types, unused_labels)]
// Prelude of the generated file for machine numbers: what casts and bit counts of the language do, and the iterations
// the conversions use.
extern crate alloc;
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod pre {
use vstd::prelude::*;
pub use vstd::arithmetic::power2::*;
pub use vstd::bits::*;
pub use vstd::layout::layout_of_primitives;
pub use core::mem::size_of;
pub use alloc::collections::BTreeMap;
pub use alloc::vec::Vec;
pub use core::marker::PhantomData;

// ---------------------------------------------------------------------------------------------------- numbers
/// The number a machine value stands for.
pub trait Num: Sized { spec fn num(self) -> real; fn is_zero(&self) -> (r: bool) ensures r == (self.num() == 0real); }
pub uninterp spec fn f32v(x: f32) -> real;
pub uninterp spec fn f64v(x: f64) -> real;
impl Num for f32 {
    open spec fn num(self) -> real { f32v(self) }
    #[verifier::external_body]
    fn is_zero(&self) -> (r: bool) { *self == 0.0 }
}
impl Num for f64 {
    open spec fn num(self) -> real { f64v(self) }
    #[verifier::external_body]
    fn is_zero(&self) -> (r: bool) { *self == 0.0 }
}
/// the integers an f32 or f64 holds exactly
pub uninterp spec fn in_f32(n: int) -> bool;
pub uninterp spec fn in_f64(n: int) -> bool;
#[verifier::external_body]
pub broadcast proof fn in_f32_ax(n: int) ensures -16777216 <= n <= 16777216 ==> #[trigger] in_f32(n) { }
#[verifier::external_body]
pub broadcast proof fn in_f64_ax(n: int) ensures -9007199254740992 <= n <= 9007199254740992 ==> #[trigger] in_f64(n) { }

/// `a as B`
pub trait VCast<B>: Sized { spec fn cast_ok(self, b: B) -> bool; fn v_cast2(self) -> (r: B) ensures self.cast_ok(r); }
pub fn v_cast<A: VCast<B>, B>(a: A) -> (r: B) ensures a.cast_ok(r) { a.v_cast2() }
macro_rules! ints { ($($T:ident $bits:literal)*) => { $( verus! {
    impl Num for $T {
        open spec fn num(self) -> real { (self as int) as real }
        fn is_zero(&self) -> (r: bool) { *self == 0 }
    }
    impl VInt for $T {
        open spec fn vn(self) -> int { self as int }
        open spec fn vbits() -> int { $bits }
        #[verifier::external_body]
        fn v_leading_zeros(self) -> (r: u32) { self.leading_zeros() }
        #[verifier::external_body]
        fn v_count_zeros(self) -> (r: u32) { self.count_zeros() }
    }
    cast!($T: u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    impl VCast<f32> for $T {
        open spec fn cast_ok(self, r: f32) -> bool { rounded(f32v(r), self as int) && (in_f32(self as int) <==> f32v(r) == (self as int) as real) }
        #[verifier::external_body]
        fn v_cast2(self) -> (r: f32) { self as f32 }
    }
    impl VCast<f64> for $T {
        open spec fn cast_ok(self, r: f64) -> bool { rounded(f64v(r), self as int) && (in_f64(self as int) <==> f64v(r) == (self as int) as real) }
        #[verifier::external_body]
        fn v_cast2(self) -> (r: f64) { self as f64 }
    }
    impl VCast<$T> for f32 {
        open spec fn cast_ok(self, r: $T) -> bool { forall|n: int| #[trigger] is_num(f32v(self), n) && $T::MIN <= n <= $T::MAX ==> r == n }
        #[verifier::external_body]
        fn v_cast2(self) -> (r: $T) { self as $T }
    }
    impl VCast<$T> for f64 {
        open spec fn cast_ok(self, r: $T) -> bool { forall|n: int| #[trigger] is_num(f64v(self), n) && $T::MIN <= n <= $T::MAX ==> r == n }
        #[verifier::external_body]
        fn v_cast2(self) -> (r: $T) { self as $T }
    }
} )* } }
macro_rules! cast { ($A:ident: $($B:ident)*) => { $( verus! {
    impl VCast<$B> for $A {
        open spec fn cast_ok(self, r: $B) -> bool { r == self as $B }
        fn v_cast2(self) -> (r: $B) { #[verifier::truncate] (self as $B) }
    }
} )* } }
pub open spec fn is_num(x: real, n: int) -> bool { x == n as real }
/// an integer turned into a float: an integer again (whole numbers are only ever rounded to whole numbers), and never far off
pub open spec fn rounded(x: real, n: int) -> bool { exists|m: int| #[trigger] is_num(x, m) && (n >= 0 ==> 0 <= m <= 2 * n) && (n <= 0 ==> 2 * n <= m <= 0) }
pub open spec fn digits(n: int, k: int) -> bool { pow2((k - 1) as nat) <= n < pow2(k as nat) }
/// Bit counts. n has vbits() - leading_zeros binary digits.
pub trait VInt: Sized {
    spec fn vn(self) -> int;
    spec fn vbits() -> int;
    fn v_leading_zeros(self) -> (r: u32)
        ensures r <= Self::vbits(), self.vn() > 0 ==> r < Self::vbits() && digits(self.vn(), Self::vbits() - r);
    fn v_count_zeros(self) -> (r: u32) ensures self.vn() == 0 ==> r == Self::vbits();
}
ints!(u8 8 u16 16 u32 32 u64 64 u128 128 usize 64 i8 8 i16 16 i32 32 i64 64 i128 128 isize 64);
impl VCast<f64> for f32 {
    open spec fn cast_ok(self, r: f64) -> bool { f64v(r) == f32v(self) }
    #[verifier::external_body]
    fn v_cast2(self) -> (r: f64) { self as f64 }
}
/// abs of a signed integer: its magnitude, unless that does not fit
pub trait VAbs: Sized { spec fn abs_ok(self) -> bool; spec fn mag(self) -> int; spec fn me(self) -> int; fn v_abs(self) -> (r: Self) requires self.abs_ok() ensures r.me() == self.mag(); }
macro_rules! abss { ($($T:ident)*) => { $( verus! { impl VAbs for $T {
    open spec fn abs_ok(self) -> bool { self != $T::MIN }
    open spec fn mag(self) -> int { if self < 0 { -(self as int) } else { self as int } }
    open spec fn me(self) -> int { self as int }
    #[verifier::external_body]
    fn v_abs(self) -> (r: $T) { self.abs() }
} } )* } }
abss!(i8 i16 i32 i64 i128 isize);

/// num::pow: the power, if it is representable (no intermediate value is larger)
pub open spec fn ipow(n: int, e: int) -> int decreases e { if e <= 0 { 1 } else { n * ipow(n, e - 1) } }
pub trait VPow: Sized { spec fn num_pow_ok(self, e: int) -> bool; spec fn num_pow_is(self, e: int, r: Self) -> bool; fn v_num_pow_(self, e: usize) -> (r: Self) requires self.num_pow_ok(e as int) ensures self.num_pow_is(e as int, r); }
pub fn v_num_pow<A: VPow>(a: A, e: usize) -> (r: A) requires a.num_pow_ok(e as int) ensures a.num_pow_is(e as int, r) { a.v_num_pow_(e) }
macro_rules! pows { ($($T:ident)*) => { $( verus! { impl VPow for $T {
    open spec fn num_pow_ok(self, e: int) -> bool { $T::MIN <= ipow(self as int, e) <= $T::MAX }
    open spec fn num_pow_is(self, e: int, r: $T) -> bool { r == ipow(self as int, e) }
    #[verifier::external_body]
    fn v_num_pow_(self, e: usize) -> (r: $T) { unimplemented!() }
} } )* } }
pows!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
/// Floats. What they compute is left open (rounding); which of their operations is applied to what is not.
/// powered(x, e, r): r is one of the results of raising x to e; rooted(x, r): r is the rounded root of x >= 0.
pub uninterp spec fn powered(x: real, e: int, r: real) -> bool;
pub uninterp spec fn rooted(x: real, r: real) -> bool;
/// the same for quotients, cube roots, arc cosines and cosines
pub uninterp spec fn divided(x: real, y: real, r: real) -> bool;
pub uninterp spec fn cube_rooted(x: real, r: real) -> bool;
pub uninterp spec fn angle_of(x: real, t: real) -> bool;
pub uninterp spec fn cosine(t: real, r: real) -> bool;
/// the cosine of a third of the angle whose cosine is x
pub open spec fn third_of(x: real, r: real) -> bool { exists|t: real, u: real| #[trigger] angle_of(x, t) && #[trigger] divided(t, 3real, u) && cosine(u, r) }
pub open spec fn mag_of(x: real) -> real { if x < 0real { -x } else { x } }
pub trait VFloat: Num + Copy {
    /// neither an infinity nor a NaN
    spec fn fin(self) -> bool;
    fn v_zero() -> (r: Self) ensures r.fin(), r.num() == 0real;
    fn v_one() -> (r: Self) ensures r.fin(), r.num() == 1real;
    fn v_neg(self) -> (r: Self) ensures self.fin() == r.fin(), self.fin() ==> r.num() == -self.num();
    fn v_lt(self, o: Self) -> (r: bool) ensures self.fin() && o.fin() ==> r == (self.num() < o.num());
    fn v_le(self, o: Self) -> (r: bool) ensures self.fin() && o.fin() ==> r == (self.num() <= o.num());
    fn v_gt(self, o: Self) -> (r: bool) ensures self.fin() && o.fin() ==> r == (self.num() > o.num());
    fn v_ge(self, o: Self) -> (r: bool) ensures self.fin() && o.fin() ==> r == (self.num() >= o.num());
    fn v_feq(self, o: Self) -> (r: bool) ensures self.fin() && o.fin() ==> r == (self.num() == o.num());
    fn v_fne(self, o: Self) -> (r: bool) ensures self.fin() && o.fin() ==> r == (self.num() != o.num());
    fn v_abs(self) -> (r: Self) ensures self.fin() == r.fin(), self.fin() ==> r.num() == mag_of(self.num());
    fn v_sqrt(self) -> (r: Self) ensures self.fin() && self.num() >= 0real ==> r.fin() && rooted(self.num(), r.num());
    fn v_powi(self, e: i32) -> (r: Self) ensures powered(self.num(), e as int, r.num());
    fn v_lit(n: i32) -> (r: Self) ensures r.fin(), r.num() == (n as int) as real;
    fn v_max(self, o: Self) -> (r: Self) ensures self.fin() && o.fin() ==> r.fin() && r.num() == if self.num() >= o.num() { self.num() } else { o.num() };
    fn v_min(self, o: Self) -> (r: Self) ensures self.fin() && o.fin() ==> r.fin() && r.num() == if self.num() <= o.num() { self.num() } else { o.num() };
    fn v_div(self, o: Self) -> (r: Self) ensures self.fin() && o.fin() && mag_of(o.num()) >= 1real ==> r.fin() && divided(self.num(), o.num(), r.num());
    fn v_cbrt(self) -> (r: Self) ensures self.fin() ==> r.fin() && cube_rooted(self.num(), r.num());
    fn v_acos(self) -> (r: Self) ensures self.fin() && -1real <= self.num() <= 1real ==> r.fin() && angle_of(self.num(), r.num());
    fn v_cos(self) -> (r: Self) ensures self.fin() ==> r.fin() && cosine(self.num(), r.num());
}
macro_rules! floats { ($($T:ident $F:ident)*) => { $( verus! {
    pub uninterp spec fn $F(x: $T) -> bool;
    impl VPow for $T {
        open spec fn num_pow_ok(self, e: int) -> bool { true }
        open spec fn num_pow_is(self, e: int, r: $T) -> bool { powered(self.num(), e, r.num()) }
        #[verifier::external_body]
        fn v_num_pow_(self, e: usize) -> (r: $T) { unimplemented!() }
    }
    impl VFloat for $T {
        open spec fn fin(self) -> bool { $F(self) }
        #[verifier::external_body] fn v_zero() -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_one() -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_neg(self) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_lt(self, o: $T) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_le(self, o: $T) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_gt(self, o: $T) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_ge(self, o: $T) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_feq(self, o: $T) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_fne(self, o: $T) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_abs(self) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_sqrt(self) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_powi(self, e: i32) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_lit(n: i32) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_max(self, o: $T) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_min(self, o: $T) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_div(self, o: $T) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_cbrt(self) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_acos(self) -> (r: $T) { unimplemented!() }
        #[verifier::external_body] fn v_cos(self) -> (r: $T) { unimplemented!() }
    }
} )* } }
floats!(f32 fin32 f64 fin64);

// ---------------------------------------------------------------------------------------------------- iterations
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> It<T> {
    pub uninterp spec fn s(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r.s().len() == self.s().len(), self.s().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.s().len() ==> #[trigger] r.s()[i] == (i as usize, self.s()[i])
    { unimplemented!() }
}
impl<T: Copy> It<T> {
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: T) requires i < self.s().len() ensures r == self.s()[i as int] { unimplemented!() }
}
pub trait VInto: Sized {
    type Item;
    spec fn iv(&self) -> Seq<Self::Item>;
    fn v_into_(self) -> (r: It<Self::Item>) ensures r.s() == self.iv();
}
pub fn v_into<A: VInto>(a: A) -> (r: It<A::Item>) ensures r.s() == a.iv() { a.v_into_() }
impl<T> VInto for It<T> {
    type Item = T;
    open spec fn iv(&self) -> Seq<T> { self.s() }
    fn v_into_(self) -> (r: It<T>) { self }
}
impl<T> VInto for Vec<T> {
    type Item = T;
    open spec fn iv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> VInto for &'a Vec<T> {
    type Item = &'a T;
    open spec fn iv(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<&'a T>) { unimplemented!() }
}
pub open spec fn sorted_keys(k: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> k[i] < k[j] }
pub uninterp spec fn keys_of<T>(m: Map<usize, T>) -> Seq<usize>;
#[verifier::external_body]
pub broadcast proof fn keys_of_ax<T>(m: Map<usize, T>)
    ensures sorted_keys(#[trigger] keys_of(m)), forall|k: usize| keys_of(m).contains(k) <==> #[trigger] m.dom().contains(k)
{ }
impl<T> VInto for BTreeMap<usize, T> {
    type Item = (usize, T);
    open spec fn iv(&self) -> Seq<(usize, T)> { Seq::new(keys_of(self@).len(), |i: int| (keys_of(self@)[i], self@[keys_of(self@)[i]])) }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<(usize, T)>) { unimplemented!() }
}
impl<'a, T> VInto for &'a BTreeMap<usize, T> {
    type Item = (&'a usize, &'a T);
    open spec fn iv(&self) -> Seq<(&'a usize, &'a T)> { Seq::new(keys_of(self@).len(), |i: int| (&keys_of(self@)[i], &self@[keys_of(self@)[i]])) }
    #[verifier::external_body]
    fn v_into_(self) -> (r: It<(&'a usize, &'a T)>) { unimplemented!() }
}
pub trait VMapIt<T> {
    spec fn mq(&self) -> Map<usize, T>;
    fn v_iter<'a>(&'a self) -> (r: It<(&'a usize, &'a T)>)
        ensures r.s().len() == keys_of(self.mq()).len(), forall|i: int| 0 <= i < r.s().len() ==> #[trigger] r.s()[i] == (&keys_of(self.mq())[i], &self.mq()[keys_of(self.mq())[i]]);
}
impl<T> VMapIt<T> for BTreeMap<usize, T> {
    open spec fn mq(&self) -> Map<usize, T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<(&'a usize, &'a T)>) { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VSeq<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) ensures r.s() == refs::<T>(self.sq());
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>)
        requires n > 0
        ensures r.all() == self.sq(), r.n() == n, self.sq().len() <= usize::MAX;
}
impl<T> VSeq<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>) { unimplemented!() }
}
impl<T> VSeq<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: Ch<'a, T>) { unimplemented!() }
}
/// chunks_exact: the whole chunks, then the remainder
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ch<'a, T> { v: &'a [T] }
impl<'a, T> Ch<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn n(&self) -> int;
    pub open spec fn q(&self) -> int { self.all().len() as int / self.n() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.q() { unimplemented!() }
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: &'a [T]) ensures r@ == self.all().skip(self.q() * self.n()) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, &'a [T])>)
        ensures r.s().len() == self.q(),
            forall|i: int| 0 <= i < r.s().len() ==> (#[trigger] r.s()[i]).0 == i && r.s()[i].1@ == self.all().subrange(i * self.n(), i * self.n() + self.n())
    { unimplemented!() }
}
pub trait VVec<T> {
    spec fn vq(&self) -> Seq<T>;
    fn v_drain(&mut self, lo: usize, hi: usize)
        requires lo <= hi <= old(self).vq().len()
        ensures final(self).vq() == old(self).vq().take(lo as int) + old(self).vq().skip(hi as int);
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_drain(&mut self, lo: usize, hi: usize) { unimplemented!() }
}
/// A slice of coefficients holds at most isize::MAX elements (the size of a coefficient is not zero).
#[verifier::external_body]
pub broadcast proof fn slice_len_ax<N: Num>(v: &[N]) ensures #[trigger] v@.len() <= isize::MAX { }
impl<T> It<T> {
    pub fn v_collect<C: VCollect<T>>(self) -> (r: C) ensures C::collected(self.s(), r) { C::v_from_it(self) }
}
/// collect: into a vector the items in order; into a map the entries, the last one of each key
pub trait VCollect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; fn v_from_it(i: It<T>) -> (r: Self) ensures Self::collected(i.s(), r); }
impl<T> VCollect<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn v_from_it(i: It<T>) -> (r: Self) { unimplemented!() }
}
impl<T> VCollect<(usize, T)> for BTreeMap<usize, T> {
    open spec fn collected(s: Seq<(usize, T)>, r: Self) -> bool {
        &&& forall|k: usize| #[trigger] r@.dom().contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
        &&& forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) ==> r@[(#[trigger] s[i]).0] == s[i].1
    }
    #[verifier::external_body]
    fn v_from_it(i: It<(usize, T)>) -> (r: Self) { unimplemented!() }
}
pub struct Complex<T> { pub re: T, pub im: T }
pub trait VFrom<A>: Sized { fn v_from(a: A) -> Self; }

// ---------------------------------------------------------------------------------------------------- mathematics
pub open spec fn dcn<T: Num>(t: Seq<T>, d: int) -> real { if 0 <= d < t.len() { t[t.len() - 1 - d].num() } else { 0real } }
pub open spec fn mcn<T: Num>(m: Map<usize, T>, d: int) -> real { if 0 <= d <= usize::MAX && m.dom().contains(d as usize) { m[d as usize].num() } else { 0real } }
}
