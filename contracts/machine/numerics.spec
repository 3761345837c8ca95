%raw numerics
pub open spec fn isq(n: int, r: int) -> bool { 0 <= r && r * r <= n && n < (r + 1) * (r + 1) }
pub trait AbsSqrt: Sized {
    spec fn sqrt_ok(self) -> bool;
    fn abs_sqrt(self) -> (r: Self) requires self.sqrt_ok();
}
pub trait IsPositive { fn is_positive(&self) -> bool; }
pub trait IsNegativeOne { fn is_negative_one(&self) -> bool; }
pub trait PowUsize: Sized { spec fn upow_ok(self, e: int) -> bool; fn upow(self, exp: usize) -> (r: Self) requires self.upow_ok(exp as int); }
pub trait Cbrt: Sized { fn cbrt(self) -> Self; fn cos_third(self) -> Self; }
pub trait CanNegate { fn can_negate() -> bool; }
pub trait TryFromUsizeContinuous: Sized { fn try_from_usize_cont(num: usize) -> Result<Self, ConversionError>; }
pub trait TryFromUsizeExact: Sized { fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError>; }
/// a Newton step from any positive guess is not below the root
pub proof fn step_low(n: int, g: int, s: int)
    requires g > 0, n >= 0, isq(n, s)
    ensures (g + n / g) / 2 >= s
{
    let q = n / g;
    assert(n < g * (q + 1)) by (nonlinear_arith) requires q == n / g, g > 0;
    assert((g + q + 1) * (g + q + 1) >= 4 * (g * (q + 1))) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires q == n / g, g > 0, n >= 0;
    assert(g + q + 1 > 2 * s) by (nonlinear_arith) requires (g + q + 1) * (g + q + 1) > 4 * (s * s), g + q + 1 > 0, s >= 0;
}
/// above the root it falls
pub proof fn step_down(n: int, g: int, s: int)
    requires g > s, n >= 0, isq(n, s)
    ensures (g + n / g) / 2 < g, n / g <= s
{
    let q = n / g;
    assert(q * g <= n) by (nonlinear_arith) requires q == n / g, g > 0;
    assert(q <= s) by (nonlinear_arith) requires q * g <= n, n < (s + 1) * (s + 1), g >= s + 1, s >= 0;
}
/// at or above the root, the quotient is not much above
pub proof fn step_q(n: int, g: int, s: int)
    requires g >= s, s >= 1, isq(n, s)
    ensures 0 <= n / g <= s + 2
{
    let q = n / g;
    assert(q * g <= n) by (nonlinear_arith) requires q == n / g, g > 0;
    assert(q >= 0) by (nonlinear_arith) requires q == n / g, g > 0, n >= 0;
    assert(q <= s + 2) by (nonlinear_arith) requires q * g <= n, n < (s + 1) * (s + 1), g >= s, s >= 1;
}
/// where the steps stop, the result is at most one above
pub proof fn step_stop(n: int, g: int, s: int)
    requires g > 0, n >= 1, isq(n, s), -1 <= (g + n / g) / 2 - g <= 1
    ensures ({ let r = (g + n / g) / 2; r <= s + 1 && (r * r <= n || r * r == n + 1) })
{
    let q = n / g;
    let r = (g + q) / 2;
    step_low(n, g, s);
    assert(q * g <= n) by (nonlinear_arith) requires q == n / g, g > 0;
    if g > s {
        step_down(n, g, s);
        assert(r == g - 1);
        assert(q >= g - 2);
        assert(r * r <= n + 1) by (nonlinear_arith) requires r == g - 1, q >= g - 2, q * g <= n, g > 0;
        assert(r <= s + 1) by (nonlinear_arith) requires r * r <= n + 1, n < (s + 1) * (s + 1), r >= 0, s >= 0;
    } else {
        assert(r <= s + 1);
        if r == s + 1 {
            assert(g == s);
            assert(q >= s + 2);
            assert(r * r <= n + 1) by (nonlinear_arith) requires q >= s + 2, q * s <= n, r == s + 1, s >= 0;
        } else { assert(r * r <= n) by (nonlinear_arith) requires 0 <= r <= s, s * s <= n; }
    }
}
pub proof fn isq_ex(n: int) -> (s: int)
    requires n >= 0
    ensures isq(n, s), n >= 1 ==> s >= 1, s <= n
    decreases n
{
    if n == 0 { assert(isq(0, 0)) by (nonlinear_arith); 0 } else {
        let t = isq_ex(n - 1);
        if (t + 1) * (t + 1) <= n { assert(isq(n, t + 1)) by (nonlinear_arith) requires (t + 1) * (t + 1) <= n, n - 1 < (t + 1) * (t + 1), t >= 0; t + 1 }
        else { if t == 0 { assert(false) by (nonlinear_arith) requires (t + 1) * (t + 1) > n, t == 0, n >= 1; } t }
    }
}
/// facts of the first guess
pub proof fn first_guess(n: int, bits: int, shift: int, g: int, s: int)
    requires n >= 2, 0 < shift <= bits, bits % 2 == 0, digits(n, shift), g == n / (pow2((shift / 2) as nat) as int) + 1, isq(n, s)
    ensures 1 <= g <= pow2((bits / 2) as nat), n / g <= pow2((bits / 2) as nat), s < pow2((bits / 2) as nat),
        n == pow2(bits as nat) - 1 ==> g == pow2((bits / 2) as nat) && s == g - 1 && n / g == g - 1
{
    let h = (shift / 2) as nat; let k = (bits / 2) as nat;
    let (ph, pk) = (pow2(h) as int, pow2(k) as int);
    lemma_pow2_pos(h); lemma_pow2_pos(k);
    lemma_pow2_adds(k, k); assert(k + k == bits);
    let c = (shift - shift / 2) as nat;
    let pc = pow2(c) as int;
    lemma_pow2_pos(c);
    lemma_pow2_adds(c, h); assert(c + h == shift);
    if c < k { lemma_pow2_strictly_increases(c, k); }
    if h < k { lemma_pow2_strictly_increases(h, k); }
    if shift < bits { lemma_pow2_strictly_increases(shift as nat, bits as nat); }
    let d = n / ph;
    assert(d * ph <= n && n < (d + 1) * ph && d >= 0) by (nonlinear_arith) requires d == n / ph, ph > 0, n >= 0;
    assert(d < pc) by (nonlinear_arith) requires d * ph <= n, n < pc * ph, ph > 0;
    let q = n / g;
    assert(q * g <= n && n < (q + 1) * g) by (nonlinear_arith) requires q == n / g, g > 0;
    assert(q < ph) by (nonlinear_arith) requires q * g <= n, n < g * ph, g > 0, ph > 0;
    assert(s < pk) by (nonlinear_arith) requires s * s <= n, n < pk * pk, s >= 0, pk > 0;
    if n == pow2(bits as nat) - 1 {
        if shift < bits { lemma_pow2_strictly_increases(shift as nat, bits as nat); assert(false); }
        assert(n == pk * pk - 1);
        assert(d == pk - 1) by (nonlinear_arith) requires d * pk <= n, n < (d + 1) * pk, n == pk * pk - 1, pk > 0;
        assert(q == pk - 1) by (nonlinear_arith) requires q * pk <= n, n < (q + 1) * pk, n == pk * pk - 1, pk > 0;
        assert(s == pk - 1) by (nonlinear_arith) requires s * s <= n, n < (s + 1) * (s + 1), n == pk * pk - 1, pk > 0, s >= 0, s < pk;
    }
}
pub proof fn tiny_roots() ensures isq(0, 0), isq(1, 1) { assert(isq(0, 0) && isq(1, 1)) by (nonlinear_arith); }
pub proof fn half_words()
    ensures pow2(4) == 0x10, pow2(8) == 0x100, pow2(16) == 0x1_0000, pow2(32) == 0x1_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000,
        pow2(128) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{ lemma2_to64(); lemma_pow2_adds(64, 64); lemma_pow2_adds(32, 32); }
/// what the loop needs to know at a guess g and the next one, r
pub proof fn steps(n: int, s: int, g: int, r: int)
    requires n >= 2, isq(n, s), s >= 1, g > 0, r == (g + n / g) / 2
    ensures r >= s, r > 0, g > s ==> r < g, g == s ==> r <= s + 1, -1 <= r - g <= 1 ==> near(n, s, r), 0 <= n / r <= s + 2, (r + n / r) / 2 >= s
{
    step_low(n, g, s);
    if g == s { step_q(n, g, s); }
    if g > s { step_down(n, g, s); }
    if -1 <= r - g <= 1 { step_stop(n, g, s); }
    step_q(n, r, s); step_low(n, r, s);
}
pub open spec fn near(n: int, s: int, r: int) -> bool { r <= s + 1 && (r * r <= n || r * r == n + 1) }
%each T,K u8,0x10 u16,0x100 u32,0x1_0000 u64,0x1_0000_0000 usize,0x1_0000_0000 u128,0x1_0000_0000_0000_0000
%implextra <$T as AbsSqrt>
    open spec fn sqrt_ok(self) -> bool { true }
%fn <$T as AbsSqrt>::abs_sqrt
%props C20
%ensures
    isq(self as int, r as int),
%at fn.start
    proof { tiny_roots(); half_words(); }
    let ghost n = self as int;
    let ghost s = isq_ex(n);
    proof {
        if n >= 2 {
            assert forall|h: $T| h < <$T as VInt>::vbits() implies #[trigger] (self >> h) == n / (pow2(h as nat) as int) by { lemma_$T_shr_is_div(self, h); }
            assert forall|sh: int| 0 < sh <= <$T as VInt>::vbits() && #[trigger] digits(n, sh) implies ({
                let g = n / (pow2((sh / 2) as nat) as int) + 1;
                1 <= g <= $K && n / g <= $K && s < $K && (n == $T::MAX ==> g == $K && s == g - 1 && n / g == g - 1)
            }) by { first_guess(n, <$T as VInt>::vbits(), sh, n / (pow2((sh / 2) as nat) as int) + 1, s); }
        }
    }
%at loop.0.before
    proof { step_low(n, guess as int, s); }
    #[verifier::allow_complex_invariants]
%loop 0
    invariant
    guess > 0, res as int == (guess as int + n / (guess as int)) / 2, res >= s, s < $K, res <= $K + 1, n == $T::MAX ==> guess == $K && s == guess - 1 && res == s,
    ensures res == s || res == s + 1, (res as int) * (res as int) <= $T::MAX,
%decreases 0
    (if guess < s { 1int } else { 0int }), guess,
%at loop.0.start
    proof { steps(n, s, guess as int, res as int); }
%loop 1
    res == s || res == s + 1, (res as int) * (res as int) <= $T::MAX,
%decreases 1
    res,
%endeach
%each T,U i8,u8 i16,u16 i32,u32 i64,u64 isize,usize i128,u128
%implextra <$T as AbsSqrt>
    open spec fn sqrt_ok(self) -> bool { self != $T::MIN }
%fn <$T as AbsSqrt>::abs_sqrt
%props C20
%ensures
    isq(if self < 0 { -(self as int) } else { self as int }, r as int),
%at fn.start
    proof { assert forall|x: int, r: int| isq(x, r) && x <= $T::MAX implies #[trigger] isq(x, r) && r <= $T::MAX by { assert(r <= x) by (nonlinear_arith) requires r * r <= x, r >= 0, x >= 0; } }
%endeach
%each T u8 u16 u32 u64 u128 i8 i16 i32 i64 i128
%fn <$T as TryFromUsizeContinuous>::try_from_usize_cont
%props C18
%ensures
    (r is Ok) == (num <= $T::MAX),
    r is Ok ==> r->Ok_0 as int == num,
%at fn.start
    proof { broadcast use layout_of_primitives; }
%fn <$T as TryFromUsizeExact>::try_from_usize_exact
%props C18
%ensures
    (r is Ok) == (num <= $T::MAX),
    r is Ok ==> r->Ok_0 as int == num,
%at fn.start
    proof { broadcast use layout_of_primitives; }
%endeach
%each T,M f32,0x100_0000 f64,0x10_0000_0000_0000
%fn <$T as TryFromUsizeContinuous>::try_from_usize_cont
%props C18
%ensures
    r is Ok ==> is_num($Tv(r->Ok_0), num as int) && forall|k: int| 0 <= k <= num ==> #[trigger] in_$T(k),
    num <= $M ==> r is Ok,
%at fn.start
    proof { broadcast use in_$T_ax; assert(2usize << 23 == 0x100_0000usize) by (compute); assert(2usize << 51 == 0x10_0000_0000_0000usize) by (compute); }
%fn <$T as TryFromUsizeExact>::try_from_usize_exact
%props C18
%ensures
    (r is Ok) == in_$T(num as int),
    r is Ok ==> is_num($Tv(r->Ok_0), num as int),
%endeach
%each T u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
%fn <$T as IsPositive>::is_positive
%props C16
%ensures
    r == (*self > 0),
%fn <$T as IsNegativeOne>::is_negative_one
%props C16
%ensures
    r == (*self == -1),
%endeach
%each T,B u8,false u16,false u32,false u64,false u128,false usize,false i8,true i16,true i32,true i64,true i128,true isize,true f32,true f64,true
%fn <$T as CanNegate>::can_negate
%props C13 C14
%ensures
    r == $B,
%endeach
%each T u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
%implextra <$T as PowUsize>
    open spec fn upow_ok(self, e: int) -> bool { $T::MIN <= ipow(self as int, e) <= $T::MAX }
%fn <$T as PowUsize>::upow
%props C05 C08 C10
%params exp
%ensures
    r == ipow(self as int, exp as int),
%endeach
%each T f32 f64
%implextra <$T as PowUsize>
    open spec fn upow_ok(self, e: int) -> bool { true }
%fn <$T as PowUsize>::upow
%props C05 C08 C10
%params exp
%ensures
    powered(self.num(), exp as int, r.num()),
%fn <$T as IsPositive>::is_positive
%props C16 C19 C22
%ensures
    (*self).fin() ==> r == ((*self).num() > 0real),
%fn <$T as IsNegativeOne>::is_negative_one
%props C16
%ensures
    (*self).fin() ==> r == ((*self).num() == -1real),
%implextra <$T as AbsSqrt>
    open spec fn sqrt_ok(self) -> bool { true }
%fn <$T as Cbrt>::cbrt
%props C22
%ensures
    self.fin() ==> r.fin() && cube_rooted(self.num(), r.num()),
%fn <$T as Cbrt>::cos_third
%props C22
%ensures
    self.fin() && -1real <= self.num() <= 1real ==> third_of(self.num(), r.num()),
%fn <$T as AbsSqrt>::abs_sqrt
%props C19 C22
%ensures
    self.fin() ==> rooted(mag_of(self.num()), r.num()),
%endeach
