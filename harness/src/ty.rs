//! Coefficient types the contracts are executed over, and the exact i128 oracle domain.
use num::{One, Zero};
use std::fmt::Debug;
use std::ops::*;

/// A coefficient type: exact on [lo, hi] (machine types) or modulo m (finite fields).
pub trait Ty: Copy + PartialEq + Debug + Zero + 'static {
    const NAME: &'static str;
    fn of(v: i128) -> Self;
    fn to(self) -> Option<i128>;
    fn lo() -> i128;
    fn hi() -> i128;
    fn modulus() -> Option<i128> {
        None
    }
    fn fits(v: i128) -> bool {
        Self::modulus().is_some() || (Self::lo() <= v && v <= Self::hi())
    }
    fn norm(v: i128) -> i128 {
        match Self::modulus() {
            Some(m) => v.rem_euclid(m),
            None => v,
        }
    }
}

macro_rules! ity {
    ($($t:ident),*) => {$(
        impl Ty for $t {
            const NAME: &'static str = stringify!($t);
            fn of(v: i128) -> Self { v as $t }
            fn to(self) -> Option<i128> { i128::try_from(self).ok() }
            fn lo() -> i128 { i128::try_from($t::MIN).unwrap() }
            fn hi() -> i128 { i128::try_from($t::MAX).unwrap_or(i128::MAX) }
        }
    )*};
}
ity!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, usize, isize);

macro_rules! fty {
    ($t:ident, $b:expr) => {
        impl Ty for $t {
            const NAME: &'static str = stringify!($t);
            fn of(v: i128) -> Self { v as $t }
            fn to(self) -> Option<i128> {
                if self.is_finite() && self.fract() == 0.0 && self.abs() < 1e30 { Some(self as i128) } else { None }
            }
            fn lo() -> i128 { -(1i128 << $b) }
            fn hi() -> i128 { 1i128 << $b }
        }
    };
}
fty!(f32, 24);
fty!(f64, 53);

/// A prime field: every operation exact, division by nonzero exact.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct G<const P: u64>(pub u64);
impl<const P: u64> G<P> {
    fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero in GF(p)");
        let (mut b, mut e, mut r) = (self.0 as u128, P - 2, 1u128);
        while e > 0 {
            if e & 1 == 1 { r = r * b % P as u128; }
            b = b * b % P as u128;
            e >>= 1;
        }
        G(r as u64)
    }
}
impl<const P: u64> Add for G<P> { type Output = Self; fn add(self, o: Self) -> Self { G((self.0 + o.0) % P) } }
impl<const P: u64> Sub for G<P> { type Output = Self; fn sub(self, o: Self) -> Self { G((self.0 + P - o.0) % P) } }
impl<const P: u64> Mul for G<P> { type Output = Self; fn mul(self, o: Self) -> Self { G((self.0 as u128 * o.0 as u128 % P as u128) as u64) } }
impl<const P: u64> Div for G<P> { type Output = Self; fn div(self, o: Self) -> Self { self * o.inv() } }
impl<const P: u64> Neg for G<P> { type Output = Self; fn neg(self) -> Self { G((P - self.0) % P) } }
impl<const P: u64> AddAssign for G<P> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<const P: u64> SubAssign for G<P> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<const P: u64> MulAssign for G<P> { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl<const P: u64> DivAssign for G<P> { fn div_assign(&mut self, o: Self) { *self = *self / o } }
impl<const P: u64> Zero for G<P> { fn zero() -> Self { G(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u64> One for G<P> { fn one() -> Self { G(1 % P) } }
macro_rules! gty {
    ($n:literal, $p:literal) => {
        impl Ty for G<$p> {
            const NAME: &'static str = $n;
            fn of(v: i128) -> Self { G(v.rem_euclid($p) as u64) }
            fn to(self) -> Option<i128> { Some(self.0 as i128) }
            fn lo() -> i128 { 0 }
            fn hi() -> i128 { $p - 1 }
            fn modulus() -> Option<i128> { Some($p) }
        }
    };
}
gty!("gf3", 3);
gty!("gf7", 7);
gty!("gf10007", 10007);
pub type G3 = G<3>;
pub type G7 = G<7>;
pub type G10007 = G<10007>;

#[macro_export]
macro_rules! dispatch {
    ($ty:expr; $($name:literal => $t:ty),*; $n:ident => $e:expr) => {
        match $ty {
            $($name => { type $n = $t; $e })*
            other => panic!("HARNESS: no such type {}", other),
        }
    };
}
/// Types with the ring operations and negation.
#[macro_export]
macro_rules! signed {
    ($ty:expr, $n:ident => $e:expr) => {
        $crate::dispatch!($ty; "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize, "f32" => f32, "f64" => f64,
            "gf3" => $crate::ty::G3, "gf7" => $crate::ty::G7, "gf10007" => $crate::ty::G10007; $n => $e)
    };
}
pub const SIGNED: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "gf3", "gf7", "gf10007"];
/// Types with the semiring operations.
#[macro_export]
macro_rules! ring {
    ($ty:expr, $n:ident => $e:expr) => {
        $crate::dispatch!($ty; "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize, "f32" => f32, "f64" => f64,
            "gf3" => $crate::ty::G3, "gf7" => $crate::ty::G7, "gf10007" => $crate::ty::G10007,
            "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128, "usize" => usize; $n => $e)
    };
}
pub const RING: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "gf3", "gf7", "gf10007", "u8", "u16", "u32", "u64", "u128", "usize"];
/// Primitive types (the ones that implement the crate's own numeric traits).
#[macro_export]
macro_rules! prim {
    ($ty:expr, $n:ident => $e:expr) => {
        $crate::dispatch!($ty; "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize, "f32" => f32, "f64" => f64,
            "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128, "usize" => usize; $n => $e)
    };
}
pub const PRIM: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "u8", "u16", "u32", "u64", "u128", "usize"];
/// Primitive types a degree can be converted to.
#[macro_export]
macro_rules! calc {
    ($ty:expr, $n:ident => $e:expr) => {
        $crate::dispatch!($ty; "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "f32" => f32, "f64" => f64,
            "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128; $n => $e)
    };
}
pub const CALC: &[&str] = &["i8", "i16", "i32", "i64", "i128", "f32", "f64", "u8", "u16", "u32", "u64", "u128"];
/// Primitive signed types.
#[macro_export]
macro_rules! sprim {
    ($ty:expr, $n:ident => $e:expr) => {
        $crate::dispatch!($ty; "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize, "f32" => f32, "f64" => f64; $n => $e)
    };
}
pub const SPRIM: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"];

pub fn lohi(ty: &str) -> (i128, i128) {
    ring!(ty, N => (<N as Ty>::lo(), <N as Ty>::hi()))
}
pub fn is_unsigned(ty: &str) -> bool {
    ty.starts_with('u')
}
pub fn is_field(ty: &str) -> bool {
    ty.starts_with('g')
}
