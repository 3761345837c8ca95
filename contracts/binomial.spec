%raw binomial
impl HasC for LinearBinomial<Z> {
    open spec fn c(&self, d: int) -> real { dc(self.coefficients@, d) }
    open spec fn bd(&self) -> int { 2 }
    open spec fn fit(d: int) -> bool { true }
    proof fn bd_law(&self) { }
}
%implextra <LinearBinomial as MutablePolynomial>
    open spec fn room(&self, d: int) -> bool { d <= 1 }
    open spec fn refused(&self, c: Z, d: usize, e: TryAddError) -> bool { true }
%implextra <LinearBinomial as Derivable>
    open spec fn dok(&self) -> bool { degs_ok(cf(self)) }
%implextra <LinearBinomial as Integrable<Polynomial>>
    open spec fn iok(&self) -> bool { degs_ok(cf(self)) }
    open spec fn iroom(&self) -> bool { true }
%fn LinearBinomial::new
%generic 
%props C05 C06 C09 C11 C12 C15 C16 C18 C19
%params coefficients
%ensures
    r.coefficients == coefficients,
%fn <LinearBinomial as Neg>::neg
%props C05
%ensures
    forall|d: int| #[trigger] r.c(d) == -self.c(d),
%fn <LinearBinomial as Add<LinearBinomial>>::add
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) + rhs.c(d),
%fn <LinearBinomial as AddAssign<LinearBinomial>>::add_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) + rhs.c(d),
%fn <LinearBinomial as Sub<LinearBinomial>>::sub
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) - rhs.c(d),
%fn <LinearBinomial as SubAssign<LinearBinomial>>::sub_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) - rhs.c(d),
%fn <LinearBinomial as Mul<N>>::mul
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) * rhs.v(),
%at fn.start
    proof { mul0(0real, rhs.v()); }
%fn <LinearBinomial as MulAssign<N>>::mul_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) * rhs.v(),
%at fn.start
    proof { mul0(0real, rhs.v()); }
%fn <LinearBinomial as Div<N>>::div
%props C05
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] r.c(d) == quo(self.c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%fn <LinearBinomial as DivAssign<N>>::div_assign
%props C05
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == quo(old(self).c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%fn <LinearBinomial as Shr<u32>>::shr
%props C06
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == if d >= 0 { self.c(d + rhs) } else { 0real },
%fn <LinearBinomial as ShrAssign<u32>>::shr_assign
%props C06
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == if d >= 0 { old(self).c(d + rhs) } else { 0real },
%fn LinearBinomial::ordered_term_iter
%props C11 C16 C19
%type __c1 Vec<(Z, usize)>
%ensures
    is_terms(r.s(), cf(self)),
%loop 0
    part(__c1@, self.coefficients@, __i0 as int),
%at loop.0.start
    let ghost c0 = __c1@;
%at loop.0.end
    proof { part_step(c0, __c1@, self.coefficients@, __i0 - 1); }
%at loop.0.after
    proof { part_done(__c1@, self.coefficients@, cf(self)); }
%fn <LinearBinomial as SizedPolynomial>::term_with_degree
%props C11
%fn <LinearBinomial as SizedPolynomial>::terms_as_vec
%props C11 C19 C16
%fn <LinearBinomial as SizedPolynomial>::degree
%props C11 C13 C14 C15 C16
%fn <LinearBinomial as SizedPolynomial>::zero
%props C06 C11 C15 C16
%at fn.end
    proof { assert forall|d: int| r.c(d) == 0real by { } }
%fn <LinearBinomial as SizedPolynomial>::set_to_zero
%props C11
%fn <LinearBinomial as MutablePolynomial>::try_add_term
%props C13 C14 C15 C16
%fn <LinearBinomial as MutablePolynomial>::try_sub_term
%props C13 C14
%raw binomial
pub proof fn eval_2(p: &LinearBinomial<Z>, x: real)
    ensures evald(cf(p), p.bd(), x) == hor(p.coefficients@, 2, x)
{
    let t = p.coefficients@;
    hor_eval(t, 2, x);
    assert(t.take(2) =~= t);
    evald_ext(|d: int| dc(t.take(2), d), 2, cf(p), 2, x);
}
pub proof fn eval_2x(p: &LinearBinomial<Z>, x: real)
    ensures ({ let a = p.coefficients@[0].v(); let b = p.coefficients@[1].v(); evald(cf(p), p.bd(), x) == a * x + b })
{
    eval_2(p, x);
    let t = p.coefficients@;
    assert(hor(t, 0, x) == 0real);
    assert(hor(t, 1, x) == hor(t, 0, x) * x + t[0].v());
    assert(0real * x == 0real) by (nonlinear_arith);
    assert(hor(t, 2, x) == hor(t, 1, x) * x + t[1].v());

}
%fn <LinearBinomial as Evaluable>::eval
%props C08 C10
%params point
%attr
#[verifier::nonlinear]
%at fn.start
    proof { eval_2x(self, point.v()); }
%fn <LinearBinomial as Derivable>::derivative
%props C09 C18
%at fn.start
    proof { if small_ok() { assert(cont_in(2)); }
        let a = self.coefficients@[0].v(); let b = self.coefficients@[1].v();
        assert(1real * a == a && 1real * b == b && 2real * a == a * 2real) by (nonlinear_arith); assert((0 + 1) as real == 1real && (1 + 1) as real == 2real); }
%at fn.end
    proof { assert forall|d: int| #[trigger] r.c(d) == if d >= 0 { ((d + 1) as real) * self.c(d + 1) } else { 0real } by {
        if d == 0 { assert((d + 1) as real == 1real); } else if d == 1 { assert((d + 1) as real == 2real); mul0(0real, 2real); } else if d > 1 { mul0(0real, (d + 1) as real); } } }
%fn <LinearBinomial as Integrable<Polynomial>>::integral
%props C10 C18
%at fn.start
    proof { if small_ok() { assert(cont_in(2)); assert(cont_in(3)); }
        assert forall|d: int| d >= 1 implies #[trigger] quo(0real, d as real) == 0real by { quo_zero(d as real); }
        quo_one(self.coefficients@[1].v()); assert(1int as real == 1real && 2int as real == 2real && 3int as real == 3real); }
%fn <LinearBinomial as PartialEq>::eq
%props C12
%params other
%ensures
    r == same(self, other),
%at fn.end
    proof { if same(self, other) { assert forall|i: int| 0 <= i < 2 implies (#[trigger] self.coefficients@[i]).v() == other.coefficients@[i].v() by { assert(self.c(1 - i) == other.c(1 - i)); } }
        else { let d = choose|d: int| self.c(d) != other.c(d); assert(self.coefficients@[1 - d].v() != other.coefficients@[1 - d].v()); } }
