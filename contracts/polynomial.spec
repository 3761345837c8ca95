%raw polynomial
impl HasC for Polynomial<Z> {
    open spec fn c(&self, d: int) -> real { dc(self.terms@, d) }
    open spec fn bd(&self) -> int { self.terms@.len() as int }
    open spec fn fit(d: int) -> bool { d < usize::MAX }
    proof fn bd_law(&self) { }
}
impl VClone for Polynomial<Z> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}
pub open spec fn lead(s: Seq<Z>, k: int) -> bool {
    0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == 0real) && (k < s.len() ==> s[k].v() != 0real)
}
pub open spec fn trimmed(s: Seq<Z>) -> bool { s.len() > 0 ==> s[0].v() != 0real }
/// dropping leading zeros changes no coefficient
pub proof fn skip_same(s: Seq<Z>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == 0real
    ensures forall|d: int| #[trigger] dc(s.skip(k), d) == dc(s, d)
{ assert forall|d: int| #[trigger] dc(s.skip(k), d) == dc(s, d) by { if 0 <= d < s.len() && !(d < s.len() - k) { assert(s[s.len() - 1 - d].v() == 0real); } } }
pub proof fn lead_ok(p: &Polynomial<Z>)
    ensures degs_ok(cf(p)) ==> forall|k: int| #[trigger] lead(p.terms@, k) ==> cont_in(p.terms@.len() - k)
{
    if degs_ok(cf(p)) { assert forall|k: int| #[trigger] lead(p.terms@, k) implies cont_in(p.terms@.len() - k) by {
        let n = p.terms@.len() as int;
        if k < n { assert(cf(p)(n - k - 1) != 0real); } } }
}
pub proof fn dense_facts()
    ensures forall|t: Seq<Z>, n: int| #[trigger] top(dcf(t), n) ==> 0 <= n < t.len(), forall|t: Seq<Z>, d: int| #[trigger] dcf(t)(d) == dc(t, d),
        forall|p: &Polynomial<Z>| #[trigger] cf(p) == dcf(p.terms@),
        forall|p: &Polynomial<Z>| #[trigger] is0(p) == (forall|d: int| #[trigger] dcf(p.terms@)(d) == 0real)
{
    assert forall|t: Seq<Z>, n: int| #[trigger] top(dcf(t), n) implies 0 <= n < t.len() by { assert(dcf(t)(n) != 0real); }
    assert forall|p: &Polynomial<Z>| #[trigger] cf(p) == dcf(p.terms@) by { assert(cf(p) =~= dcf(p.terms@)); }
    assert forall|p: &Polynomial<Z>| #[trigger] is0(p) == (forall|d: int| #[trigger] dcf(p.terms@)(d) == 0real) by {
        if forall|d: int| #[trigger] dcf(p.terms@)(d) == 0real { assert forall|d: int| p.c(d) == 0real by { assert(dcf(p.terms@)(d) == 0real); } }
        if is0(p) { assert forall|d: int| #[trigger] dcf(p.terms@)(d) == 0real by { assert(p.c(d) == 0real); } } }
}
pub proof fn eval_dense(p: &Polynomial<Z>, x: real)
    ensures evald(cf(p), p.bd(), x) == hor(p.terms@, p.terms@.len() as int, x), p.terms@.len() == 0 ==> evald(cf(p), p.bd(), x) == 0real,
        p.terms@.len() > 0 ==> evald(cf(p), p.bd(), x) == hor(p.terms@, p.terms@.len() - 1, x) * x + p.terms@.last().v(),
        x == 0real && p.terms@.len() > 0 ==> evald(cf(p), p.bd(), x) == p.terms@.last().v()
{
    let n = p.terms@.len() as int;
    hor_eval(p.terms@, n, x);
    assert(p.terms@.take(n) =~= p.terms@);
    evald_ext(|d: int| dc(p.terms@.take(n), d), n, cf(p), n, x);
    if n > 0 { assert(hor(p.terms@, n - 1, x) * 0real == 0real) by (nonlinear_arith); }
}
%fn polynomial::first_nonzero_index
%props C01 C02 C03 C06 C07 C09 C10 C11 C12 C13 C15 C16 C18 C19 C22 C21
%params coeffs
%ensures
    lead(coeffs@, r as int),
%loop 0
    forall|i: int| 0 <= i < __i0 * 4 ==> (#[trigger] coeffs@[i]).v() == 0real,
%loop 1
    forall|i: int| 0 <= i < degree * 4 + __i1 ==> (#[trigger] coeffs@[i]).v() == 0real,
%loop 2
    len == (coeffs@.len() / 4) * 4 + __i2,
    forall|i: int| 0 <= i < len ==> (#[trigger] coeffs@[i]).v() == 0real,
%at fn.start
    proof { broadcast use slice_len_ax; }
%fn polynomial::degree
%props C11 C13 C14 C15 C16 C21
%params coeffs
%ensures
    deg_ok(dcf(coeffs@), r),
%fn polynomial::first_term
%props C07 C11 C21
%params poly_vec
%ensures
    first_ok(dcf(poly_vec@), r),
%at fn.start
    proof { broadcast use slice_len_ax; }
%loop 0
    forall|i: int| 0 <= i < __i0 * 4 ==> (#[trigger] poly_vec@[i]).v() == 0real,
%loop 1
    forall|i: int| 0 <= i < degree * 4 + __i1 ==> (#[trigger] poly_vec@[i]).v() == 0real,
%loop 2
    index == (poly_vec@.len() / 4) * 4 + __i2,
    forall|i: int| 0 <= i < index ==> (#[trigger] poly_vec@[i]).v() == 0real,
%fn polynomial::term_with_deg
%props C11
%params terms degree
%ensures
    term_ok(dc(terms@, degree as int), degree as int, r),
%fn Polynomial::new
%props C01 C02 C07 C10 C11 C13 C18
%params terms
%ensures
    forall|d: int| #[trigger] r.c(d) == dc(terms@, d),
    trimmed(r.terms@),
%fn Polynomial::trim
%props C01 C02 C07 C10 C11 C13 C18
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d),
    trimmed(final(self).terms@),
%at fn.start
    let ghost t0 = self.terms@;
%at fn.end
    proof { skip_same(t0, ind as int); assert(self.terms@ =~= t0.skip(ind as int)); }
%fn Polynomial::ordered_term_iter
%props C03 C11 C12 C16 C19 C22 C21
%type __c1 Vec<(Z, usize)>
%ensures
    is_terms(r.s(), cf(self)),
%at fn.start
    proof { broadcast use vec_len_ax; }
%loop 0
    part(__c1@, terms@, __i0 as int),
%at loop.0.start
    let ghost c0 = __c1@;
%at loop.0.end
    proof { part_step(c0, __c1@, terms@, __i0 - 1); }
%at loop.0.after
    proof { skip_same(self.terms@, start as int); part_done(__c1@, terms@, cf(self)); }
%fn <Polynomial as Add<Polynomial>>::add
%props C01
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) + rhs.c(d),
%at loop.0.before
    let ghost t0 = terms@;
%loop 0
    terms@.len() == t0.len(),
    forall|j: int| 0 <= j < t0.len() ==> (#[trigger] terms@[j]).v() == t0[j].v() + (if offset <= j < offset + __i0 { small@[j - offset].v() } else { 0real }),
%implextra <Polynomial as MutablePolynomial>
    open spec fn room(&self, d: int) -> bool { true }
    open spec fn refused(&self, c: Z, d: usize, e: TryAddError) -> bool { true }
%fn <Polynomial as AddAssign<Polynomial>>::add_assign
%props C01
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) + rhs.c(d),
%at loop.0.before
    let ghost t0 = rhs@;
%loop 0
    rhs@.len() == t0.len(),
    forall|j: int| 0 <= j < t0.len() ==> (#[trigger] rhs@[j]).v() == t0[j].v() + (if offset <= j < offset + __i0 { lhs@[j - offset].v() } else { 0real }),
%at loop.1.before
    let ghost t0 = self.terms@;
%loop 1
    self.terms@.len() == t0.len(),
    forall|j: int| 0 <= j < t0.len() ==> (#[trigger] self.terms@[j]).v() == t0[j].v() + (if offset <= j < offset + __i1 { rhs@[j - offset].v() } else { 0real }),
%fn <Polynomial as SubAssign<Polynomial>>::sub_assign
%props C01
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) - rhs.c(d),
%at fn.start
    let ghost s0 = self.terms@;
    let ghost r0 = rhs.terms@;
%loop 0
    rhs.terms@.len() == r0.len(),
    forall|j: int| 0 <= j < r0.len() ==> (#[trigger] rhs.terms@[j]).v() == if j < __i0 { -r0[j].v() } else { r0[j].v() },
%loop 1
    rhs.terms@.len() == r0.len(),
    forall|j: int| 0 <= j < r0.len() ==> (#[trigger] rhs.terms@[j]).v() == if j < offset { -r0[j].v() } else if j < offset + __i1 { s0[j - offset].v() - r0[j].v() } else { r0[j].v() },
%loop 2
    self.terms@.len() == s0.len(),
    forall|j: int| 0 <= j < s0.len() ==> (#[trigger] self.terms@[j]).v() == s0[j].v() - (if offset <= j < offset + __i2 { r0[j - offset].v() } else { 0real }),
%fn <Polynomial as SubAssign<&Polynomial>>::sub_assign
%props C01
%params rhs
%type __c1 Vec<Z>
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) - rhs.c(d),
%at fn.start
    let ghost s0 = self.terms@;
    let ghost r0 = rhs.terms@;
%loop 0
    self.terms@.len() == s0.len(),
    forall|j: int| 0 <= j < s0.len() ==> (#[trigger] self.terms@[j]).v() == s0[j].v() - (if j < __i0 { r0[j + offset].v() } else { 0real }),
%loop 1
    __c1@.len() == __i1,
    forall|j: int| 0 <= j < __i1 ==> (#[trigger] __c1@[j]).v() == -r0[j].v(),
%loop 2
    self.terms@.len() == s0.len(),
    forall|j: int| 0 <= j < s0.len() ==> (#[trigger] self.terms@[j]).v() == s0[j].v() - (if offset <= j < offset + __i2 { r0[j - offset].v() } else { 0real }),
%fn <Polynomial as Sub<Polynomial>>::sub
%props C01
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) - rhs.c(d),
%fn <Polynomial as Sub<&Polynomial>>::sub
%props C01
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) - rhs.c(d),
%fn <Polynomial as Neg>::neg
%props C01
%ensures
    forall|d: int| #[trigger] r.c(d) == -self.c(d),
%loop 0
    self_.terms@.len() == self.terms@.len(),
    forall|j: int| 0 <= j < self.terms@.len() ==> (#[trigger] self_.terms@[j]).v() == if j < __i0 { -self.terms@[j].v() } else { self.terms@[j].v() },
%fn <Polynomial as SizedPolynomial>::term_with_degree
%props C11
%params degree
%fn <Polynomial as SizedPolynomial>::terms_as_vec
%props C11 C19 C22 C16 C21
%fn <Polynomial as SizedPolynomial>::degree
%props C11 C13 C14 C15 C16 C21
%at fn.end
    proof { deg_ext(dcf(self.terms@), cf(self), r); }
%fn <Polynomial as SizedPolynomial>::zero
%props C07 C09 C11 C13 C15 C16 C18
%fn <Polynomial as SizedPolynomial>::set_to_zero
%props C11
%fn <Polynomial as MutablePolynomial>::try_add_term
%props C13 C14 C15 C16
%params coeff degree
%fn <Polynomial as MutablePolynomial>::try_sub_term
%props C13 C14
%params coeff degree
%fn <Polynomial as FreeSizePolynomial>::from_terms
%props C13
%params terms
%loop 0
    forall|d: int| #[trigger] a.c(d) == tsum(terms@, __i0 as int, d),
%fn <Polynomial as FreeSizePolynomial>::add_term
%props C10 C13 C14 C15 C16
%params coeff degree
%fn <Polynomial as From<Vec>>::from
%props C13
%params term_vec
%ensures
    forall|d: int| #[trigger] r.c(d) == dc(term_vec@, d),
%fn <Polynomial as PartialEq>::eq
%props C12
%params other
%ensures
    r == same(self, other),
%at fn.end
    proof { terms_same_all(self, other); }
%fn <Polynomial as Evaluable>::eval
%props C08 C10 C21
%params point
%at fn.start
    proof { eval_dense(self, point.v()); }
%loop 0
    sum.v() == hor(self.terms@, __i0 as int, point.v()) * point.v(),
%at loop.0.start
    proof { let n = __i0 as int; let x = point.v(); assert(hor(self.terms@, n, x) == hor(self.terms@, n - 1, x) * x + self.terms@[n - 1].v()); }
%fn polynomial::slice_mul
%props C02
%params lhs rhs
%ensures
    forall|d: int| #[trigger] dc(r@, d) == conv(dcf(lhs@), dcf(rhs@), d),
%at fn.start
    proof { broadcast use slice_len_ax; }
    let ghost l0 = lhs@;
    let ghost r0 = rhs@;
%at loop.0.before
    let ghost n = terms@.len();
    proof { assert forall|p: int| cs(rhs@, lhs@, 0, p) == 0real by { cs_step(rhs@, lhs@, 0, p); } }
%loop 0
    terms@.len() == n,
    forall|p: int| 0 <= p < n ==> (#[trigger] terms@[p]).v() == cs(rhs@, lhs@, __i0 as int, p),
%at loop.0.start
    proof { assert forall|p: int| #[trigger] cs(rhs@, lhs@, __i0 as int, p) == cs(rhs@, lhs@, __i0 - 1, p) + (if __i0 - 1 <= p < __i0 - 1 + lhs@.len() { rhs@[__i0 - 1].v() * lhs@[p - (__i0 - 1)].v() } else { 0real }) by { cs_step(rhs@, lhs@, __i0 - 1, p); }
        assert forall|j: int| 0 <= j < lhs@.len() && rhs@[__i0 - 1].v() == 0real implies rhs@[__i0 - 1].v() * (#[trigger] lhs@[j]).v() == 0real by { mul0(rhs@[__i0 - 1].v(), lhs@[j].v()); } }
%loop 1
    terms@.len() == n,
    forall|p: int| 0 <= p < n ==> (#[trigger] terms@[p]).v() == cs(rhs@, lhs@, __i0 - 1, p) + (if __i0 - 1 <= p < __i0 - 1 + __i1 { rhs@[__i0 - 1].v() * lhs@[p - (__i0 - 1)].v() } else { 0real }),
%at fn.end
    proof { skip_same(r0, r0.len() - rhs@.len()); skip_same(l0, l0.len() - lhs@.len()); mul_done(rhs@, lhs@, terms@, dcf(l0), dcf(r0)); }
%fn <Polynomial as Mul<Polynomial>>::mul
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(&self), cf(&rhs), d),
%at fn.start
    proof { conv_all(&self, &rhs); }
%fn <Polynomial as Mul<&Polynomial>>::mul
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(&self), cf(rhs), d),
%at fn.start
    proof { conv_all(&self, rhs); }
%fn <&Polynomial as Mul<Polynomial>>::mul
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(self), cf(&rhs), d),
%at fn.start
    proof { conv_all(self, &rhs); }
%fn <&Polynomial as Mul<&Polynomial>>::mul
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(self), cf(rhs), d),
%at fn.start
    proof { conv_all(self, rhs); }
%fn <Polynomial as MulAssign<Polynomial>>::mul_assign
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == conv(cf(old(self)), cf(&rhs), d),
%at fn.start
    proof { conv_all(self, &rhs); }
%fn <Polynomial as MulAssign<&Polynomial>>::mul_assign
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == conv(cf(old(self)), cf(rhs), d),
%at fn.start
    proof { conv_all(self, rhs); }
%fn <Polynomial as Mul<N>>::mul
%props C02
%params rhs
%type __c1 Vec<Z>
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) * rhs.v(),
%at fn.start
    proof { assert(0real * rhs.v() == 0real) by (nonlinear_arith); }
%loop 0
    __c1@.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> (#[trigger] __c1@[j]).v() == self.terms@[j].v() * rhs.v(),
%fn <Polynomial as MulAssign<N>>::mul_assign
%props C02
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) * rhs.v(),
%at fn.start
    let ghost t0 = self.terms@;
    proof { assert(0real * rhs.v() == 0real) by (nonlinear_arith); }
%loop 0
    self.terms@.len() == t0.len(),
    forall|j: int| 0 <= j < t0.len() ==> (#[trigger] self.terms@[j]).v() == if j < __i0 { t0[j].v() * rhs.v() } else { t0[j].v() },
%fn <Polynomial as Div<N>>::div
%props C02
%params rhs
%type __c1 Vec<Z>
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] r.c(d) == quo(self.c(d), rhs.v()),
%at fn.start
    proof { quo_zero(rhs.v()); }
%loop 0
    __c1@.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> (#[trigger] __c1@[j]).v() == quo(self.terms@[j].v(), rhs.v()),
%fn <Polynomial as DivAssign<N>>::div_assign
%props C02
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == quo(old(self).c(d), rhs.v()),
%at fn.start
    let ghost t0 = self.terms@;
    proof { quo_zero(rhs.v()); }
%loop 0
    self.terms@.len() == t0.len(),
    forall|j: int| 0 <= j < t0.len() ==> (#[trigger] self.terms@[j]).v() == if j < __i0 { quo(t0[j].v(), rhs.v()) } else { t0[j].v() },
%fn Polynomial::pow
%props C02
%params exp
%ensures
    forall|d: int| #[trigger] r.c(d) == ppow(cf(self), exp as nat)(d),
%decreases
    exp,
%at fn.start
    proof { pow_all(self, exp as nat); }
%fn <Polynomial as Shl<i32>>::shl
%props C06
%params rhs
%requires
%ensures
    forall|d: int| #[trigger] r.c(d) == sh(&self, d, rhs as int),
%decreases
    if rhs < 0 { 1int } else { 0int },
%at fn.end
    proof { if rhs >= 0 { let k = self.terms@.len() - (r.terms@.len() - rhs); skip_same(self.terms@, k); let s = self.terms@.skip(k);
        assert forall|d: int| #[trigger] r.c(d) == sh(&self, d, rhs as int) by { assert(dc(s, d - rhs) == dc(self.terms@, d - rhs)); } } }
%fn <Polynomial as ShlAssign<i32>>::shl_assign
%props C06
%params rhs
%requires
%ensures
    forall|d: int| #[trigger] final(self).c(d) == sh(old(self), d, rhs as int),
%decreases
    if rhs < 0 { 1int } else { 0int },
%fn <Polynomial as Shr<i32>>::shr
%props C06
%params rhs
%requires
%ensures
    forall|d: int| #[trigger] r.c(d) == sh(&self, d, -(rhs as int)),
%decreases
    if rhs < 0 { 1int } else { 0int },
%fn <Polynomial as ShrAssign<i32>>::shr_assign
%props C06
%params rhs
%requires
%ensures
    forall|d: int| #[trigger] final(self).c(d) == sh(old(self), d, -(rhs as int)),
%decreases
    if rhs < 0 { 1int } else { 0int },
%implextra <Polynomial as Derivable>
    open spec fn dok(&self) -> bool { degs_ok(cf(self)) }
%implextra <Polynomial as Integrable<Polynomial>>
    open spec fn iok(&self) -> bool { degs_ok(cf(self)) }
    open spec fn iroom(&self) -> bool { true }
%fn <Polynomial as Derivable>::derivative
%props C09 C18
%at fn.start
    proof { broadcast use vec_len_ax; lead_ok(self); }
%at loop.0.before
    let ghost t1 = terms@;
    proof { skip_same(self.terms@, index as int); }
%loop 0
    terms@.len() == t1.len(),
    degree.v() == (t1.len() + 1 - __i0) as real,
    forall|j: int| 0 <= j < t1.len() ==> (#[trigger] terms@[j]).v() == if j < __i0 { t1[j].v() * ((t1.len() - j) as real) } else { t1[j].v() },
%at loop.0.after
    proof { assert forall|d: int| #[trigger] dc(terms@, d) == if d >= 0 { ((d + 1) as real) * self.c(d + 1) } else { 0real } by {
        assert(self.c(d + 1) == dc(self.terms@.skip(index as int), d + 1));
        mul0((d + 1) as real, 0real);
        if 0 <= d < t1.len() { let j = t1.len() - 1 - d; let x = t1[j].v(); let y = (d + 1) as real; assert(x * y == y * x) by (nonlinear_arith); } } }
%fn <Polynomial as Integrable<Polynomial>>::integral
%props C10 C18
%at fn.start
    proof { broadcast use vec_len_ax; lead_ok(self); }
%at loop.0.before
    let ghost t1 = terms@;
    proof { skip_same(self.terms@, index as int); }
%loop 0
    terms@.len() == t1.len(),
    degree.v() == (t1.len() - __i0) as real,
    forall|j: int| 0 <= j < t1.len() ==> (#[trigger] terms@[j]).v() == if j < __i0 { quo(t1[j].v(), (t1.len() - j) as real) } else { t1[j].v() },
%at loop.0.after
    proof { let n = terms@.len() as int;
        assert forall|j: int| 0 <= j < n implies (#[trigger] terms@[j]).v() == quo(self.c(n - 1 - j), (n - j) as real) by { assert(self.c(n - 1 - j) == dc(self.terms@.skip(index as int), n - 1 - j)); }
        assert forall|d: int| d >= n implies #[trigger] self.c(d) == 0real by { assert(self.c(d) == dc(self.terms@.skip(index as int), d)); } }
%at fn.end
    proof { assert forall|d: int| #[trigger] r.polynomial.c(d) == if d >= 1 { quo(self.c(d - 1), d as real) } else { 0real } by {
        if d >= 1 { quo_zero(d as real); } } }
%fn polynomial::vec_sub_w_scale
%props C07
%params lhs lhs_degree rhs rhs_deg rhs_scale
%requires
    lhs_degree < old(lhs)@.len(),
    rhs_deg < rhs@.len(),
    rhs_deg <= lhs_degree,
    forall|d: int| d > rhs_deg ==> #[trigger] dcf(rhs@)(d) == 0real,
%ensures
    final(lhs)@.len() == old(lhs)@.len(),
    forall|d: int| #[trigger] dc(final(lhs)@, d) == dc(old(lhs)@, d) - dc(rhs@, d - (lhs_degree - rhs_deg)) * rhs_scale.v(),
%loop 0
    forall|j: int| 0 <= j < lhs@.len() ==> (#[trigger] lhs@[j]).v() == l0[j].v() - (if loc <= j < loc + __i0 { rhs@[rhs@.len() - rhs_deg - 1 + (j - loc)].v() * rhs_scale.v() } else { 0real }),
    lhs@.len() == l0.len(),
%at fn.start
    let ghost l0 = lhs@;
%at fn.end
    proof { assert forall|d: int| #[trigger] dc(lhs@, d) == dc(l0, d) - dc(rhs@, d - (lhs_degree - rhs_deg)) * rhs_scale.v() by {
        let e = d - (lhs_degree - rhs_deg); mul0(0real, rhs_scale.v());
        if e > rhs_deg { assert(dcf(rhs@)(e) == 0real); }
    } }
%fn Polynomial::div_mod
%props C07
%params rhs
%attr
#[verifier::allow_complex_invariants]
%requires
    !is0(rhs) || panic_allowed(),
%ensures
    !is0(rhs),
    divided(cf(self), cf(rhs), cf(&r.0), cf(&r.1)),
%at fn.start
    proof { broadcast use vec_len_ax; dense_facts(); assert forall|d: int| d < 0 implies #[trigger] cf(rhs)(d) == 0real by { }
        assert forall|q: F, d: int| (forall|i: int| #[trigger] q(i) == 0real) implies #[trigger] conv(q, cf(rhs), d) == 0real by { conv_zero(q, cf(rhs), d); } }
    let ghost a = cf(self);
    let ghost b = cf(rhs);
%at loop.0.before
    let ghost dv = div@.len();
%loop 0
    invariant_except_break
        top(dcf(remainder@), self_degree as int),
        coeff.v() == dcf(remainder@)(self_degree as int),
    invariant
        van(b), top(b, rhs_deg as int), rhs_first.v() == b(rhs_deg as int), a == cf(self), b == cf(rhs), rhs_deg < rhs.terms@.len(),
        remainder@.len() == self.terms@.len(), div@.len() == dv, dv == offset - rhs_deg + 1, self_degree <= offset,
        isdiv(a, b, dcf(div@), dcf(remainder@)),
    ensures
        exact_div() ==> forall|d: int| d >= rhs_deg ==> #[trigger] dcf(remainder@)(d) == 0real,
%decreases 0
    self_degree, (if quo(coeff.v(), rhs_first.v()) == 0real { 0int } else { 1int }),
%at loop.0.start
    proof { div_next(a, b, dcf(div@), dcf(remainder@), rhs_deg as int, self_degree as int); }
%at fn.end
    proof { assert(cf(&r.0) =~= dcf(div@)); assert(cf(&r.1) =~= dcf(remainder@)); }
%fn Polynomial::floor_div
%props C07
%params rhs
%requires
    !is0(rhs) || panic_allowed(),
%ensures
    !is0(rhs),
    exists|m: F| #[trigger] divided(cf(self), cf(rhs), cf(&r), m),
%fn <Polynomial as Rem<Polynomial>>::rem
%props C07
%params rhs
%attr
#[verifier::allow_complex_invariants]
%requires
    !is0(&rhs) || panic_allowed(),
%ensures
    !is0(&rhs),
    remainder_of(cf(&self), cf(&rhs), cf(&r)),
%at fn.start
    proof { broadcast use vec_len_ax; dense_facts(); assert forall|d: int| d < 0 implies #[trigger] cf(&rhs)(d) == 0real by { } rem_start(cf(&self), cf(&rhs)); }
    let ghost a = cf(&self);
    let ghost b = cf(&rhs);
    let ghost len = self.terms@.len();
%loop 0
    invariant_except_break
        top(dcf(remainder@), self_degree as int),
        scale.v() == quo(dcf(remainder@)(self_degree as int), rhs_first.v()),
        exact_div() ==> scale.v() != 0real,
    invariant
        van(b), top(b, rhs_deg as int), rhs_first.v() == b(rhs_deg as int), b == cf(&rhs), rhs_deg < rhs.terms@.len(),
        remainder@.len() == len,
        rem_ok(a, b, dcf(remainder@)),
    ensures
        exact_div() ==> forall|d: int| d >= rhs_deg ==> #[trigger] dcf(remainder@)(d) == 0real,
%decreases 0
    self_degree, (if scale.v() == 0real { 0int } else { 1int }),
%at loop.0.before
    proof { if exact_div() { exact_quo_nz(dcf(remainder@)(self_degree as int), rhs_first.v()); } }
%at loop.0.start
    proof { rem_next(a, b, dcf(remainder@), rhs_deg as int, self_degree as int); }
%at fn.end
    proof { assert(cf(&r) =~= dcf(remainder@)); }
%fn <Polynomial as RemAssign<Polynomial>>::rem_assign
%props C07
%params rhs
%attr
#[verifier::allow_complex_invariants]
%requires
    !is0(&rhs) || panic_allowed(),
%ensures
    !is0(&rhs),
    remainder_of(cf(old(self)), cf(&rhs), cf(final(self))),
%at fn.start
    proof { broadcast use vec_len_ax; dense_facts(); assert forall|d: int| d < 0 implies #[trigger] cf(&rhs)(d) == 0real by { } rem_start(cf(self), cf(&rhs)); }
    let ghost a = cf(self);
    let ghost b = cf(&rhs);
    let ghost len = self.terms@.len();
%loop 0
    invariant_except_break
        top(dcf(self.terms@), self_degree as int),
        scale.v() == quo(dcf(self.terms@)(self_degree as int), rhs_first.v()),
        exact_div() ==> scale.v() != 0real,
    invariant
        van(b), top(b, rhs_deg as int), rhs_first.v() == b(rhs_deg as int), b == cf(&rhs), rhs_deg < rhs.terms@.len(),
        self.terms@.len() == len,
        rem_ok(a, b, dcf(self.terms@)),
    ensures
        exact_div() ==> forall|d: int| d >= rhs_deg ==> #[trigger] dcf(self.terms@)(d) == 0real,
%decreases 0
    self_degree, (if scale.v() == 0real { 0int } else { 1int }),
%at loop.0.before
    proof { if exact_div() { exact_quo_nz(dcf(self.terms@)(self_degree as int), rhs_first.v()); } }
%at loop.0.start
    proof { rem_next(a, b, dcf(self.terms@), rhs_deg as int, self_degree as int); }
%raw polynomial
pub open spec fn abc(a: Z, b: Z, c: Z, d: int) -> real { if d == 0 { c.v() } else if d == 1 { b.v() } else if d == 2 { a.v() } else { 0real } }
pub open spec fn ab(a: Z, b: Z, d: int) -> real { if d == 0 { b.v() } else if d == 1 { a.v() } else { 0real } }
%client polynomial
pub fn client_polynomial0() -> Polynomial<N> { polynomial!() }
pub fn client_polynomial3(a: N, b: N, c: N) -> Polynomial<N> { polynomial!(a, b, c) }
pub fn client_derivative3(a: N, b: N, c: N) -> Polynomial<N> { derivative!(a, b, c) }
pub fn client_integral2(a: N, b: N) -> Integral<N, Polynomial<N>> { integral!(a, b) }
%fn polynomial::client_polynomial0
%props C13
%ensures
    forall|d: int| #[trigger] r.c(d) == 0real,
%fn polynomial::client_polynomial3
%props C13
%params a b c
%ensures
    forall|d: int| #[trigger] r.c(d) == abc(a, b, c, d),
%fn polynomial::client_derivative3
%props C09
%params a b c
%requires
    panic_allowed(),
%ensures
    forall|d: int| #[trigger] r.c(d) == if d >= 0 { ((d + 1) as real) * abc(a, b, c, d + 1) } else { 0real },
%fn polynomial::client_integral2
%props C10
%params a b
%requires
    panic_allowed(),
%ensures
    forall|d: int| #[trigger] r.polynomial.c(d) == if d >= 1 { quo(ab(a, b, d - 1), d as real) } else { 0real },
