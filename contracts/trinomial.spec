%raw trinomial
impl HasC for QuadraticTrinomial<Z> {
    open spec fn c(&self, d: int) -> real { dc(self.coefficients@, d) }
    open spec fn bd(&self) -> int { 3 }
    open spec fn fit(d: int) -> bool { true }
    proof fn bd_law(&self) { }
}
%implextra <QuadraticTrinomial as MutablePolynomial>
    open spec fn room(&self, d: int) -> bool { d <= 2 }
    open spec fn refused(&self, c: Z, d: usize, e: TryAddError) -> bool { true }
%implextra <QuadraticTrinomial as Derivable>
    open spec fn dok(&self) -> bool { degs_ok(cf(self)) }
%implextra <QuadraticTrinomial as Integrable<Polynomial>>
    open spec fn iok(&self) -> bool { degs_ok(cf(self)) }
    open spec fn iroom(&self) -> bool { true }
%fn QuadraticTrinomial::new
%props C05 C06 C09 C11 C12 C15 C16 C18
%params coefficients
%ensures
    r.coefficients == coefficients,
%fn <QuadraticTrinomial as Neg>::neg
%props C05
%ensures
    forall|d: int| #[trigger] r.c(d) == -self.c(d),
%fn <QuadraticTrinomial as Add<QuadraticTrinomial>>::add
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) + rhs.c(d),
%fn <QuadraticTrinomial as AddAssign<QuadraticTrinomial>>::add_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) + rhs.c(d),
%fn <QuadraticTrinomial as Sub<QuadraticTrinomial>>::sub
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) - rhs.c(d),
%fn <QuadraticTrinomial as SubAssign<QuadraticTrinomial>>::sub_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) - rhs.c(d),
%fn <QuadraticTrinomial as Mul<N>>::mul
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) * rhs.v(),
%at fn.start
    proof { mul0(0real, rhs.v()); }
%fn <QuadraticTrinomial as MulAssign<N>>::mul_assign
%props C05
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) * rhs.v(),
%at fn.start
    proof { mul0(0real, rhs.v()); }
%fn <QuadraticTrinomial as Div<N>>::div
%props C05
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] r.c(d) == quo(self.c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%fn <QuadraticTrinomial as DivAssign<N>>::div_assign
%props C05
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == quo(old(self).c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%fn <QuadraticTrinomial as Shr<u32>>::shr
%props C06
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == if d >= 0 { self.c(d + rhs) } else { 0real },
%fn <QuadraticTrinomial as ShrAssign<u32>>::shr_assign
%props C06
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == if d >= 0 { old(self).c(d + rhs) } else { 0real },
%fn QuadraticTrinomial::ordered_term_iter
%props C11 C16 C19
%type __c1 Vec<(Z, usize)>
%ensures
    is_terms(r.s(), cf(self)),
%loop 0
    part(__c1@, self.coefficients@, __i0 as int),
%at loop.0.start
    let ghost c0 = __c1@;
%at loop.0.end
    proof { part_step(c0, __c1@, self.coefficients@, __i0 - 1); }
%at loop.0.after
    proof { part_done(__c1@, self.coefficients@, cf(self)); }
%fn <QuadraticTrinomial as SizedPolynomial>::term_with_degree
%props C11
%fn <QuadraticTrinomial as SizedPolynomial>::terms_as_vec
%props C11 C19 C16
%fn <QuadraticTrinomial as SizedPolynomial>::degree
%props C11 C13 C14 C15 C16
%fn <QuadraticTrinomial as SizedPolynomial>::zero
%props C06 C11 C15 C16
%at fn.end
    proof { assert forall|d: int| r.c(d) == 0real by { } }
%fn <QuadraticTrinomial as SizedPolynomial>::set_to_zero
%props C11
%fn <QuadraticTrinomial as MutablePolynomial>::try_add_term
%props C13 C14 C15 C16
%fn <QuadraticTrinomial as MutablePolynomial>::try_sub_term
%props C13 C14
%raw trinomial
pub proof fn eval_3(p: &QuadraticTrinomial<Z>, x: real)
    ensures evald(cf(p), p.bd(), x) == hor(p.coefficients@, 3, x)
{
    let t = p.coefficients@;
    hor_eval(t, 3, x);
    assert(t.take(3) =~= t);
    evald_ext(|d: int| dc(t.take(3), d), 3, cf(p), 3, x);
}
pub proof fn eval_3x(p: &QuadraticTrinomial<Z>, x: real)
    ensures ({ let a = p.coefficients@[0].v(); let b = p.coefficients@[1].v(); let c = p.coefficients@[2].v(); evald(cf(p), p.bd(), x) == (a * x + b) * x + c })
{
    eval_3(p, x);
    let t = p.coefficients@;
    assert(hor(t, 0, x) == 0real);
    assert(hor(t, 1, x) == hor(t, 0, x) * x + t[0].v());
    assert(0real * x == 0real) by (nonlinear_arith);
    assert(hor(t, 2, x) == hor(t, 1, x) * x + t[1].v());
    assert(hor(t, 3, x) == hor(t, 2, x) * x + t[2].v());
}
%fn <QuadraticTrinomial as Evaluable>::eval
%props C08 C10
%params point
%attr
#[verifier::nonlinear]
%at fn.start
    proof { eval_3x(self, point.v()); }
%fn <QuadraticTrinomial as Derivable>::derivative
%props C09 C18
%at fn.start
    proof { if small_ok() { assert(cont_in(2)); }
        let a = self.coefficients@[0].v(); let b = self.coefficients@[1].v();
        assert(1real * a == a && 1real * b == b && 2real * a == a * 2real) by (nonlinear_arith); assert((0 + 1) as real == 1real && (1 + 1) as real == 2real); }
%at fn.end
    proof { assert forall|d: int| #[trigger] r.c(d) == if d >= 0 { ((d + 1) as real) * self.c(d + 1) } else { 0real } by {
        if d == 0 { assert((d + 1) as real == 1real); } else if d == 1 { assert((d + 1) as real == 2real); mul0(0real, 2real); } else if d > 1 { mul0(0real, (d + 1) as real); } } }
%fn <QuadraticTrinomial as Integrable<Polynomial>>::integral
%props C10 C18
%at fn.start
    proof { if small_ok() { assert(cont_in(2)); assert(cont_in(3)); }
        assert forall|d: int| d >= 1 implies #[trigger] quo(0real, d as real) == 0real by { quo_zero(d as real); }
        quo_one(self.coefficients@[2].v()); assert(1int as real == 1real && 2int as real == 2real && 3int as real == 3real); }
%fn <QuadraticTrinomial as PartialEq>::eq
%props C12
%params other
%ensures
    r == same(self, other),
%at fn.end
    proof { if same(self, other) { assert forall|i: int| 0 <= i < 3 implies (#[trigger] self.coefficients@[i]).v() == other.coefficients@[i].v() by { assert(self.c(2 - i) == other.c(2 - i)); } }
        else { let d = choose|d: int| self.c(d) != other.c(d); assert(self.coefficients@[2 - d].v() != other.coefficients@[2 - d].v()); } }
