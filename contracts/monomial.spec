%raw monomial
impl HasC for Monomial<Z> {
    open spec fn c(&self, d: int) -> real { if d == self.deg { self.coefficient.v() } else { 0real } }
    open spec fn bd(&self) -> int { self.deg + 1 }
    open spec fn fit(d: int) -> bool { true }
    proof fn bd_law(&self) { }
}
%implextra <Monomial as MutablePolynomial>
    open spec fn room(&self, d: int) -> bool { is0(self) || d == self.deg }
    open spec fn refused(&self, c: Z, d: usize, e: TryAddError) -> bool { true }
%implextra <Monomial as Derivable>
    open spec fn dok(&self) -> bool { degs_ok(cf(self)) }
%implextra <Monomial as Integrable<SparsePolynomial>>
    open spec fn iok(&self) -> bool { degs_ok(cf(self)) }
    open spec fn iroom(&self) -> bool { self.deg < usize::MAX }
%raw monomial
/// a * x^k as a coefficient function
pub open spec fn mono(a: real, k: int) -> F { |d: int| if d == k { a } else { 0real } }
pub proof fn mono_conv(a: real, k: int, f: F, d: int)
    requires van(f), k >= 0
    ensures conv(mono(a, k), f, d) == a * f(d - k)
{
    let h = |i: int| mono(a, k)(i) * f(d - i);
    assert forall|i: int| 0 <= i < d + 1 && i != k implies #[trigger] h(i) == 0real by { mul0(0real, f(d - i)); }
    if k <= d { sum_one(h, 0, k, d + 1); } else { sum_zero(h, 0, d + 1); assert(f(d - k) == 0real); mul0(a, 0real); }
}
pub proof fn mono_pow(a: real, k: int, n: nat, d: int)
    requires k >= 0
    ensures ppow(mono(a, k), n)(d) == mono(rpow(a, n), k * n)(d)
    decreases n
{
    if n == 0 { assert(k * 0 == 0) by (nonlinear_arith); }
    else {
        let m = (n - 1) as nat;
        van_ppow(mono(a, k), m);
        mono_conv(a, k, ppow(mono(a, k), m), d);
        mono_pow(a, k, m, d - k);
        assert(k * n == k * m + k) by (nonlinear_arith) requires n == m + 1;
        mul0(a, 0real);
    }
}
pub proof fn mono_mul(a: &Monomial<Z>, b: &Monomial<Z>)
    ensures forall|d: int| #[trigger] conv(cf(a), cf(b), d) == if d == a.deg + b.deg { a.coefficient.v() * b.coefficient.v() } else { 0real }
{
    assert(cf(a) =~= mono(a.coefficient.v(), a.deg as int));
    assert forall|d: int| #[trigger] conv(cf(a), cf(b), d) == if d == a.deg + b.deg { a.coefficient.v() * b.coefficient.v() } else { 0real } by {
        mono_conv(a.coefficient.v(), a.deg as int, cf(b), d);
        mul0(a.coefficient.v(), 0real);
    }
}
impl VEqv for Term<Z> {
    open spec fn eqv(&self, o: &Term<Z>) -> bool { match (*self, *o) { (Term::ZeroTerm, Term::ZeroTerm) => true, (Term::Term(a, d), Term::Term(b, e)) => a.v() == b.v() && d == e, _ => false } }
    #[verifier::external_body]
    fn v_eqv(&self, o: &Term<Z>) -> (r: bool) { unimplemented!() }
}
%fn Monomial::new
%props C05 C06 C09 C11 C13 C15 C16 C18
%params coefficient degree
%ensures
    r.coefficient == coefficient,
    r.deg == degree,
%fn Monomial::ordered_term_iter
%props C11 C16 C19
%ensures
    is_terms(r.s(), cf(self)),
%at fn.end
    proof { assert forall|d: int| #[trigger] cf(self)(d) != 0real implies exists|i: int| 0 <= i < r.s().len() && (#[trigger] r.s()[i]).1 == d by { assert(r.s()[0].1 == d); } }
%fn Monomial::as_term
%props C11 C12 C16
%ensures
    term_ok(self.coefficient.v(), self.deg as int, r),
%fn <Monomial as SizedPolynomial>::term_with_degree
%props C11
%params degree
%fn <Monomial as SizedPolynomial>::terms_as_vec
%props C11 C19 C16
%fn <Monomial as SizedPolynomial>::degree
%props C09 C10 C11 C13 C14 C15 C16 C18 C19
%fn <Monomial as SizedPolynomial>::zero
%props C06 C09 C11 C15 C16 C18
%fn <Monomial as SizedPolynomial>::set_to_zero
%props C11
%fn <Monomial as MutablePolynomial>::try_add_term
%props C13 C14 C15 C16
%params coeff degree
%at fn.start
    proof { assert(self.c(self.deg as int) == self.coefficient.v()); }
%fn <Monomial as MutablePolynomial>::try_sub_term
%props C13 C14
%params coeff degree
%at fn.start
    proof { assert(self.c(self.deg as int) == self.coefficient.v()); }
%fn <Monomial as Evaluable>::eval
%props C08 C10
%params point
%at fn.start
    proof {
        let x = point.v(); let k = self.deg as int; let f = |d: int| cf(self)(d) * rpow(x, d as nat);
        assert forall|i: int| 0 <= i < k + 1 && i != k implies #[trigger] f(i) == 0real by { mul0(0real, rpow(x, i as nat)); }
        sum_one(f, 0, k, k + 1);
        let c = self.coefficient.v(); let y = rpow(x, k as nat); assert(c * y == y * c) by (nonlinear_arith);
    }
%fn <Monomial as Derivable>::derivative
%props C09 C18
%at fn.start
    proof { let k = self.deg as int; let a = self.coefficient.v(); if a != 0real { assert(cf(self)(k) != 0real); if degs_ok(cf(self)) { assert(cont_in(k)); assert(exact_in(k)); } }
        let y = k as real; assert(a * y == y * a) by (nonlinear_arith); }
%at fn.end
    proof { assert forall|d: int| #[trigger] r.c(d) == if d >= 0 { ((d + 1) as real) * self.c(d + 1) } else { 0real } by { mul0((d + 1) as real, 0real); } }
%fn <Monomial as Integrable<SparsePolynomial>>::integral
%props C10 C18
%at fn.start
    proof { let k = self.deg as int; let a = self.coefficient.v(); if a != 0real { assert(cf(self)(k) != 0real); if degs_ok(cf(self)) { assert(cont_in(k + 1)); assert(exact_in(k + 1)); } }
        assert forall|d: int| d >= 1 implies #[trigger] quo(0real, d as real) == 0real by { quo_zero(d as real); }
        reveal_with_fuel(tsum, 3); }
%fn Monomial::pow
%props C05
%params exp
%requires
    self.deg * exp <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == ppow(cf(self), exp as nat)(d),
%at fn.start
    proof {
        assert(self.deg * exp == exp * self.deg) by (nonlinear_arith);
        assert(cf(self) =~= mono(self.coefficient.v(), self.deg as int));
        assert forall|d: int| #[trigger] ppow(cf(self), exp as nat)(d) == mono(rpow(self.coefficient.v(), exp as nat), self.deg * exp)(d) by { mono_pow(self.coefficient.v(), self.deg as int, exp as nat, d); }
    }
%fn <Monomial as PartialEq>::eq
%props C12
%params other
%ensures
    r == same(self, other),
%at fn.start
    proof { if same(self, other) { assert(self.c(self.deg as int) == other.c(self.deg as int)); assert(self.c(other.deg as int) == other.c(other.deg as int)); } }
%fn <Monomial as From>::from
%props C13
%params item
%ensures
    forall|d: int| #[trigger] r.c(d) == bump(0real, d, 0, item.v()),
%fn <Monomial as Neg>::neg
%props C05
%ensures
    forall|d: int| #[trigger] r.c(d) == -self.c(d),
%fn <Monomial as Mul<Monomial>>::mul
%props C05
%params rhs
%requires
    self.deg + rhs.deg <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(&self), cf(&rhs), d),
%at fn.start
    proof { mono_mul(&self, &rhs); }
%fn <Monomial as MulAssign<Monomial>>::mul_assign
%props C05
%params rhs
%requires
    self.deg + rhs.deg <= usize::MAX,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == conv(cf(old(self)), cf(&rhs), d),
%at fn.start
    proof { mono_mul(old(self), &rhs); }
%fn <Monomial as Mul<&Monomial>>::mul
%props C05
%params rhs
%requires
    self.deg + rhs.deg <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(&self), cf(rhs), d),
%at fn.start
    proof { mono_mul(&self, rhs); }
%fn <Monomial as MulAssign<&Monomial>>::mul_assign
%props C05
%params rhs
%requires
    self.deg + rhs.deg <= usize::MAX,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == conv(cf(old(self)), cf(rhs), d),
%at fn.start
    proof { mono_mul(old(self), rhs); }
%fn <Monomial as Mul<N>>::mul
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) * rhs.v(),
%at fn.start
    proof { mul0(0real, rhs.v()); }
%fn <Monomial as MulAssign<N>>::mul_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) * rhs.v(),
%at fn.start
    proof { mul0(0real, rhs.v()); }
%fn <Monomial as Div<N>>::div
%props C05
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] r.c(d) == quo(self.c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%fn <Monomial as DivAssign<N>>::div_assign
%props C05
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == quo(old(self).c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%fn <Monomial as Shl<i32>>::shl
%props C06
%params rhs
%requires
    self.deg + (rhs as int) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == sh(&self, d, rhs as int),
    rhs >= 0 ==> r.deg <= self.deg + rhs,
%decreases
    if rhs < 0 { 1int } else { 0int },
%fn <Monomial as ShlAssign<i32>>::shl_assign
%props C06
%params rhs
%requires
    self.deg + (rhs as int) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == sh(old(self), d, rhs as int),
    rhs >= 0 ==> final(self).deg <= old(self).deg + rhs,
%decreases
    if rhs < 0 { 1int } else { 0int },
%fn <Monomial as Shr<i32>>::shr
%props C06
%params rhs
%requires
    self.deg + (-(rhs as int)) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == sh(&self, d, -(rhs as int)),
%decreases
    if rhs < 0 { 1int } else { 0int },
%fn <Monomial as ShrAssign<i32>>::shr_assign
%props C06
%params rhs
%requires
    self.deg + (-(rhs as int)) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == sh(old(self), d, -(rhs as int)),
%decreases
    if rhs < 0 { 1int } else { 0int },
