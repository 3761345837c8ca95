%raw poly_math
/// the polynomial that the first k terms of a list stand for
pub open spec fn tf(s: Seq<(Z, usize)>, k: int) -> F { |d: int| tsum(s, k, d) }
pub open spec fn added<S: HasC>(a: &S, b: &S, s: Seq<(Z, usize)>, k: int) -> bool { forall|d: int| #[trigger] b.c(d) == a.c(d) + tsum(s, k, d) }
pub open spec fn taken<S: HasC>(a: &S, b: &S, s: Seq<(Z, usize)>, k: int) -> bool { forall|d: int| #[trigger] b.c(d) == a.c(d) - tsum(s, k, d) }
/// the sink after the products of the first i terms of r with all of l, and of the i-th with the first j
pub open spec fn timed<S: HasC>(a: &S, b: &S, r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, i: int, j: int) -> bool {
    forall|d: int| #[trigger] b.c(d) == a.c(d) + conv(tf(r, i), tf(l, l.len() as int), d) + part_row(r, l, i, j, d)
}
pub open spec fn part_row(r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, i: int, j: int, d: int) -> real { if j <= 0 { 0real } else { r[i].0.v() * tsum(l, j, d - r[i].1) } }
pub open spec fn product<S: HasC>(a: &S, b: &S, r: Seq<(Z, usize)>, l: Seq<(Z, usize)>) -> bool {
    forall|d: int| #[trigger] b.c(d) == a.c(d) + conv(tf(r, r.len() as int), tf(l, l.len() as int), d)
}
pub proof fn tsum_neg(s: Seq<(Z, usize)>, k: int, d: int)
    requires 0 <= k <= s.len(), d < 0
    ensures tsum(s, k, d) == 0real
    decreases k
{ if k > 0 { tsum_neg(s, k - 1, d); } }
pub proof fn timed_start<S: HasC>(r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, a: &S)
    ensures timed(a, a, r, l, 0, 0)
{ assert forall|d: int| #[trigger] a.c(d) == a.c(d) + conv(tf(r, 0), tf(l, l.len() as int), d) + part_row(r, l, 0, 0, d) by { conv_zero(tf(r, 0), tf(l, l.len() as int), d); } }
pub proof fn timed_row<S: HasC>(r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, a: &S, b: &S, i: int)
    requires 0 <= i < r.len(), timed(a, b, r, l, i, l.len() as int)
    ensures timed(a, b, r, l, i + 1, 0)
{
    let g = tf(l, l.len() as int);
    assert(van(g)) by { assert forall|d: int| d < 0 implies #[trigger] g(d) == 0real by { tsum_neg(l, l.len() as int, d); } }
    assert forall|d: int| #[trigger] b.c(d) == a.c(d) + conv(tf(r, i + 1), g, d) + part_row(r, l, i + 1, 0, d) by {
        conv_bump(tf(r, i), tf(r, i + 1), g, r[i].1 as int, r[i].0.v(), d);
        if l.len() == 0 { mul0(r[i].0.v(), 0real); }
    }
}
pub proof fn timed_term<S: HasC>(r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, a: &S, b: &S, i: int, j: int)
    requires 0 <= i < r.len(), 0 <= j < l.len(), timed(a, b, r, l, i, j)
    ensures forall|c: &S| (forall|d: int| #[trigger] c.c(d) == bump(b.c(d), d, r[i].1 + l[j].1, r[i].0.v() * l[j].0.v())) ==> #[trigger] timed(a, c, r, l, i, j + 1)
{
    assert forall|c: &S| (forall|d: int| #[trigger] c.c(d) == bump(b.c(d), d, r[i].1 + l[j].1, r[i].0.v() * l[j].0.v())) implies #[trigger] timed(a, c, r, l, i, j + 1) by {
        assert forall|d: int| #[trigger] c.c(d) == a.c(d) + conv(tf(r, i), tf(l, l.len() as int), d) + part_row(r, l, i, j + 1, d) by {
            let x = r[i].0.v(); let y = tsum(l, j, d - r[i].1); let z = l[j].0.v();
            assert(x * (y + z) == x * y + x * z) by (nonlinear_arith);
            if j == 0 { assert(y == 0real); mul0(x, 0real); }
        }
    }
}
/// exactly the terms before some term of the list, to which the sink answered e; a nonzero one it has no room for
pub open spec fn added_until<S: MutablePolynomial>(a: &S, m: &S, b: &S, s: Seq<(Z, usize)>, k: int, e: TryAddError) -> bool {
    0 <= k < s.len() && added(a, m, s, k) && (forall|d: int| #[trigger] b.c(d) == m.c(d)) && m.refused(s[k].0, s[k].1, e) && (s[k].0.v() != 0real ==> !m.room(s[k].1 as int))
}
pub open spec fn added_part<S: MutablePolynomial>(a: &S, b: &S, s: Seq<(Z, usize)>, e: TryAddError) -> bool { exists|m: S, k: int| #[trigger] added_until(a, &m, b, s, k, e) }
pub open spec fn taken_until<S: MutablePolynomial>(a: &S, m: &S, b: &S, s: Seq<(Z, usize)>, k: int, e: TryAddError) -> bool {
    0 <= k < s.len() && taken(a, m, s, k) && (forall|d: int| #[trigger] b.c(d) == m.c(d)) && m.refused(s[k].0, s[k].1, e)
        && (s[k].0.v() != 0real ==> !m.room(s[k].1 as int) || (!can_neg() && m.c(s[k].1 as int) == 0real))
}
pub open spec fn taken_part<S: MutablePolynomial>(a: &S, b: &S, s: Seq<(Z, usize)>, e: TryAddError) -> bool { exists|m: S, k: int| #[trigger] taken_until(a, &m, b, s, k, e) }
pub open spec fn timed_until<S: MutablePolynomial>(a: &S, m: &S, b: &S, r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, i: int, j: int, e: TryAddError) -> bool {
    0 <= i < r.len() && 0 <= j < l.len() && timed(a, m, r, l, i, j) && (forall|d: int| #[trigger] b.c(d) == m.c(d))
        && (exists|x: Z| x.v() == r[i].0.v() * l[j].0.v() && #[trigger] m.refused(x, (r[i].1 + l[j].1) as usize, e)) && (r[i].0.v() * l[j].0.v() != 0real ==> !m.room(r[i].1 + l[j].1))
}
pub open spec fn timed_part<S: MutablePolynomial>(a: &S, b: &S, r: Seq<(Z, usize)>, l: Seq<(Z, usize)>, e: TryAddError) -> bool { exists|m: S, i: int, j: int| #[trigger] timed_until(a, &m, b, r, l, i, j, e) }
%fn poly_math::add_poly
%props C14
%params poly sink
%requires
    forall|i: int| 0 <= i < poly.s().len() ==> S::fit((#[trigger] poly.s()[i]).1 as int),
%ensures
    r is Ok ==> added(old(sink), final(sink), poly.s(), poly.s().len() as int),
    r is Err ==> added_part(old(sink), final(sink), poly.s(), r->Err_0),
%loop 0
    added(old(sink), sink, poly.s(), __i0 as int),
%at loop.0.start
    proof { assert(__s0.s()[__i0 - 1] == (coeff, deg));
        assert forall|b: &S, e: TryAddError| (forall|d: int| #[trigger] b.c(d) == sink.c(d)) && sink.refused(coeff, deg, e) && (coeff.v() != 0real ==> !sink.room(deg as int)) implies #[trigger] added_part(old(sink), b, poly.s(), e) by { assert(added_until(old(sink), sink, b, poly.s(), __i0 - 1, e)); } }
    let ghost s0 = *sink;
%at loop.0.end
    proof { assert forall|d: int| #[trigger] sink.c(d) == old(sink).c(d) + tsum(poly.s(), __i0 as int, d) by { assert(s0.c(d) == old(sink).c(d) + tsum(poly.s(), __i0 - 1, d)); } }
%fn poly_math::sub_poly
%props C14
%params poly sink
%requires
    forall|i: int| 0 <= i < poly.s().len() ==> S::fit((#[trigger] poly.s()[i]).1 as int),
%ensures
    r is Ok ==> taken(old(sink), final(sink), poly.s(), poly.s().len() as int),
    r is Err ==> taken_part(old(sink), final(sink), poly.s(), r->Err_0),
%loop 0
    taken(old(sink), sink, poly.s(), __i0 as int),
%at loop.0.start
    proof { assert(__s0.s()[__i0 - 1] == (coeff, deg));
        assert forall|b: &S, e: TryAddError| (forall|d: int| #[trigger] b.c(d) == sink.c(d)) && sink.refused(coeff, deg, e) && (coeff.v() != 0real ==> !sink.room(deg as int) || (!can_neg() && sink.c(deg as int) == 0real)) implies #[trigger] taken_part(old(sink), b, poly.s(), e) by { assert(taken_until(old(sink), sink, b, poly.s(), __i0 - 1, e)); } }
    let ghost s0 = *sink;
%at loop.0.end
    proof { assert forall|d: int| #[trigger] sink.c(d) == old(sink).c(d) - tsum(poly.s(), __i0 as int, d) by { assert(s0.c(d) == old(sink).c(d) - tsum(poly.s(), __i0 - 1, d)); } }
%fn poly_math::mul_poly_vec
%props C14
%params rhs lhs sink
%requires
    forall|i: int, j: int| 0 <= i < rhs.s().len() && 0 <= j < lhs@.len() ==> (#[trigger] rhs.s()[i]).1 + (#[trigger] lhs@[j]).1 <= usize::MAX && S::fit(rhs.s()[i].1 + lhs@[j].1),
%ensures
    r is Ok ==> product(old(sink), final(sink), rhs.s(), lhs@),
    r is Err ==> timed_part(old(sink), final(sink), rhs.s(), lhs@, r->Err_0),
%at fn.start
    proof { timed_start(rhs.s(), lhs@, sink); }
    let ghost rs = rhs.s();
%loop 0
    timed(old(sink), sink, rs, lhs@, __i0 as int, 0),
%at loop.0.start
    proof { assert(rs[__i0 - 1] == (rcoeff, rdeg)); assert forall|d: int| #[trigger] part_row(rs, lhs@, __i0 - 1, 0, d) == 0real by { } }
%loop 1
    timed(old(sink), sink, rs, lhs@, __i0 - 1, __i1 as int), 0 < __i0 <= rs.len(), (rcoeff, rdeg) == rs[__i0 - 1],
%at loop.1.start
    proof { assert(lhs@[__i1 - 1] == (lcoeff, ldeg)); timed_term(rs, lhs@, old(sink), sink, __i0 - 1, __i1 - 1);
        let ghost x = rcoeff.v() * lcoeff.v();
        assert forall|b: &S, e: TryAddError, y: Z| (forall|d: int| #[trigger] b.c(d) == sink.c(d)) && y.v() == x && #[trigger] sink.refused(y, (rdeg + ldeg) as usize, e) && (x != 0real ==> !sink.room(rdeg + ldeg)) implies #[trigger] timed_part(old(sink), b, rs, lhs@, e) by { assert(timed_until(old(sink), sink, b, rs, lhs@, __i0 - 1, __i1 - 1, e)); } }
%at loop.1.after
    proof { timed_row(rs, lhs@, old(sink), sink, __i0 - 1); }
%raw poly_math
/// what one operand of a macro does to the sink: all of it, or all before the term that was refused with that error
pub open spec fn fed<S: MutablePolynomial>(a: &S, b: &S, c: F, e: Option<TryAddError>) -> bool {
    match e { None => forall|d: int| #[trigger] b.c(d) == a.c(d) + c(d), Some(x) => exists|s: Seq<(Z, usize)>| is_terms(s, c) && #[trigger] added_part(a, b, s, x) }
}
pub open spec fn drained<S: MutablePolynomial>(a: &S, b: &S, c: F, e: Option<TryAddError>) -> bool {
    match e { None => forall|d: int| #[trigger] b.c(d) == a.c(d) - c(d), Some(x) => exists|s: Seq<(Z, usize)>| is_terms(s, c) && #[trigger] taken_part(a, b, s, x) }
}
pub open spec fn err_of(r: Result<(), TryAddError>) -> Option<TryAddError> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub open spec fn res_of(e: Option<TryAddError>, f: Option<TryAddError>) -> Result<(), TryAddError> { match e { Some(x) => Err(x), None => match f { Some(y) => Err(y), None => Ok(()) } } }
pub open spec fn fed2<S: MutablePolynomial>(a: &S, b: &S, c: F, g: F, r: Result<(), TryAddError>) -> bool {
    exists|m: S, e: Option<TryAddError>, f: Option<TryAddError>| #[trigger] fed(a, &m, c, e) && #[trigger] fed(&m, b, g, f) && r == res_of(e, f)
}
pub open spec fn drained2<S: MutablePolynomial>(a: &S, b: &S, c: F, g: F, r: Result<(), TryAddError>) -> bool {
    exists|m: S, e: Option<TryAddError>, f: Option<TryAddError>| #[trigger] drained(a, &m, c, e) && #[trigger] drained(&m, b, g, f) && r == res_of(e, f)
}
pub proof fn feed_terms()
    ensures forall|s: Seq<(Z, usize)>, c: F, d: int| #[trigger] is_terms(s, c) ==> #[trigger] tsum(s, s.len() as int, d) == c(d),
{
    assert forall|s: Seq<(Z, usize)>, c: F, d: int| #[trigger] is_terms(s, c) implies #[trigger] tsum(s, s.len() as int, d) == c(d) by { tsum_terms(s, c); }
}
/// a dense sink refuses no nonzero term, nor the subtraction of one where coefficients can be negated
pub proof fn feed_dense()
    ensures forall|a: &Polynomial<Z>, b: &Polynomial<Z>, s: Seq<(Z, usize)>, c: F, e: TryAddError| #[trigger] is_terms(s, c) ==> !#[trigger] added_part(a, b, s, e),
        can_neg() ==> forall|a: &Polynomial<Z>, b: &Polynomial<Z>, s: Seq<(Z, usize)>, c: F, e: TryAddError| #[trigger] is_terms(s, c) ==> !#[trigger] taken_part(a, b, s, e),
{ }
pub proof fn feed_any<S: MutablePolynomial>()
    ensures forall|a: &S, b: &S, s: Seq<(Z, usize)>, c: F| #[trigger] is_terms(s, c) && #[trigger] added(a, b, s, s.len() as int) ==> fed(a, b, c, None),
        forall|a: &S, b: &S, s: Seq<(Z, usize)>, c: F, e: TryAddError| #[trigger] is_terms(s, c) && #[trigger] added_part(a, b, s, e) ==> fed(a, b, c, Some(e)),
        forall|a: &S, b: &S, s: Seq<(Z, usize)>, c: F| #[trigger] is_terms(s, c) && #[trigger] taken(a, b, s, s.len() as int) ==> drained(a, b, c, None),
        forall|a: &S, b: &S, s: Seq<(Z, usize)>, c: F, e: TryAddError| #[trigger] is_terms(s, c) && #[trigger] taken_part(a, b, s, e) ==> drained(a, b, c, Some(e)),
{ feed_terms(); }
pub proof fn one_or_two()
    ensures forall|s: Seq<Result<(), TryAddError>>| #[trigger] oks(s) ==> (s.len() > 0 ==> s[0] is Ok) && (s.len() > 1 ==> s[1] is Ok),
        forall|s: Seq<Result<(), TryAddError>>, e: TryAddError| #[trigger] first_err(s, e) && s.len() == 1 ==> s[0] == Err::<(), TryAddError>(e),
        forall|s: Seq<Result<(), TryAddError>>, e: TryAddError| #[trigger] first_err(s, e) && s.len() == 2 ==> s[0] == Err::<(), TryAddError>(e) || (s[0] is Ok && s[1] == Err::<(), TryAddError>(e)),
{ }
%client poly_math
pub fn client_add1(a: &SparsePolynomial<N>) -> Polynomial<N> { poly_add!(a) }
pub fn client_add2(a: &Polynomial<N>, b: &SparsePolynomial<N>) -> Polynomial<N> { poly_add!(a, b) }
pub fn client_add3(a: &Polynomial<N>, b: &SparsePolynomial<N>, c: &LinearBinomial<N>) -> Polynomial<N> { poly_add!(a, b, c) }
pub fn client_sub2(a: &Polynomial<N>, b: &SparsePolynomial<N>) -> Polynomial<N> { poly_sub!(a, b) }
pub fn client_sub3(a: &Polynomial<N>, b: &SparsePolynomial<N>, c: &LinearBinomial<N>) -> Polynomial<N> { poly_sub!(a, b, c) }
pub fn client_add_sink1<S: MutablePolynomial<N>>(sink: &mut S, a: &Polynomial<N>) -> Result<(), TryAddError> { poly_add!(*sink; a) }
pub fn client_add_sink2<S: MutablePolynomial<N>>(sink: &mut S, a: &Polynomial<N>, b: &SparsePolynomial<N>) -> Result<(), TryAddError> { poly_add!(*sink; a, b) }
pub fn client_sub_sink1<S: MutablePolynomial<N>>(sink: &mut S, a: &Polynomial<N>) -> Result<(), TryAddError> { poly_sub!(*sink; a) }
pub fn client_sub_sink2<S: MutablePolynomial<N>>(sink: &mut S, a: &Polynomial<N>, b: &SparsePolynomial<N>) -> Result<(), TryAddError> { poly_sub!(*sink; a, b) }
%fn poly_math::client_add1
%props C14
%params a
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> Polynomial::<Z>::fit(d),
%ensures
    forall|d: int| #[trigger] r.c(d) == a.c(d),
%at fn.start
    proof { feed_terms(); feed_dense(); }
%fn poly_math::client_add2
%props C14
%params a b
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> Polynomial::<Z>::fit(d), forall|d: int| #[trigger] b.c(d) != 0real ==> Polynomial::<Z>::fit(d),
%ensures
    forall|d: int| #[trigger] r.c(d) == a.c(d) + b.c(d),
%at fn.start
    proof { feed_terms(); feed_dense(); }
%fn poly_math::client_add3
%props C14
%params a b c
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> Polynomial::<Z>::fit(d), forall|d: int| #[trigger] b.c(d) != 0real ==> Polynomial::<Z>::fit(d),
%ensures
    forall|d: int| #[trigger] r.c(d) == a.c(d) + b.c(d) + c.c(d),
%at fn.start
    proof { feed_terms(); feed_dense(); }
%fn poly_math::client_sub2
%props C14
%params a b
%requires
    can_neg(), forall|d: int| #[trigger] a.c(d) != 0real ==> Polynomial::<Z>::fit(d), forall|d: int| #[trigger] b.c(d) != 0real ==> Polynomial::<Z>::fit(d),
%ensures
    forall|d: int| #[trigger] r.c(d) == a.c(d) - b.c(d),
%at fn.start
    proof { feed_terms(); feed_dense(); }
%fn poly_math::client_sub3
%props C14
%params a b c
%requires
    can_neg(), forall|d: int| #[trigger] a.c(d) != 0real ==> Polynomial::<Z>::fit(d), forall|d: int| #[trigger] b.c(d) != 0real ==> Polynomial::<Z>::fit(d),
%ensures
    forall|d: int| #[trigger] r.c(d) == a.c(d) - b.c(d) - c.c(d),
%at fn.start
    proof { feed_terms(); feed_dense(); }
%fn poly_math::client_add_sink1
%props C14
%params sink a
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> S::fit(d),
%ensures
    fed(old(sink), final(sink), cf(a), err_of(r)),
%at fn.start
    proof { feed_any::<S>(); one_or_two(); }
%fn poly_math::client_add_sink2
%props C14
%params sink a b
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> S::fit(d), forall|d: int| #[trigger] b.c(d) != 0real ==> S::fit(d),
%ensures
    fed2(old(sink), final(sink), cf(a), cf(b), r),
%at fn.start
    proof { feed_any::<S>(); one_or_two(); }
%fn poly_math::client_sub_sink1
%props C14
%params sink a
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> S::fit(d),
%ensures
    drained(old(sink), final(sink), cf(a), err_of(r)),
%at fn.start
    proof { feed_any::<S>(); one_or_two(); }
%fn poly_math::client_sub_sink2
%props C14
%params sink a b
%requires
    forall|d: int| #[trigger] a.c(d) != 0real ==> S::fit(d), forall|d: int| #[trigger] b.c(d) != 0real ==> S::fit(d),
%ensures
    drained2(old(sink), final(sink), cf(a), cf(b), r),
%at fn.start
    proof { feed_any::<S>(); one_or_two(); }
