%# Contracts of the crate's traits: every implementation is checked against them.
%super SizedPolynomial
HasC
%super MutablePolynomial
HasC
%super FreeSizePolynomial
HasC
%super Evaluable
HasC
%super Derivable
HasC
%super Integrable
HasC
%raw terms
/// degree() as the property states it
pub open spec fn deg_ok(c: F, r: Degree) -> bool {
    match r { Degree::NegInf => forall|d: int| #[trigger] c(d) == 0real, Degree::Num(n) => top(c, n as int) }
}
pub open spec fn term_ok(x: real, d: int, r: Term<Z>) -> bool {
    match r { Term::ZeroTerm => x == 0real, Term::Term(y, e) => x != 0real && y.v() == x && e == d }
}
pub open spec fn first_ok(c: F, r: Term<Z>) -> bool {
    match r { Term::ZeroTerm => forall|d: int| #[trigger] c(d) == 0real, Term::Term(y, e) => top(c, e as int) && y.v() == c(e as int) }
}
/// exactly the nonzero terms, once each, in strictly descending degree
pub open spec fn is_terms(s: Seq<(Z, usize)>, c: F) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 > (#[trigger] s[j]).1
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.v() == c(s[i].1 as int) && s[i].0.v() != 0real
    &&& forall|d: int| #[trigger] c(d) != 0real ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d
}
pub open spec fn cf<P: HasC>(p: &P) -> F { |d: int| p.c(d) }
pub open spec fn dcf(t: Seq<Z>) -> F { |d: int| dc(t, d) }
pub open spec fn mcf(m: Map<usize, Z>) -> F { |d: int| mc(m, d) }
pub proof fn deg_ext(f: F, g: F, r: Degree)
    requires deg_ok(f, r), forall|d: int| #[trigger] g(d) == f(d)
    ensures deg_ok(g, r)
{ }
/// s lists the nonzero entries among the first k of t
pub open spec fn part(s: Seq<(Z, usize)>, t: Seq<Z>, k: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 > (#[trigger] s[j]).1
    &&& forall|i: int| 0 <= i < s.len() ==> t.len() - k <= (#[trigger] s[i]).1 < t.len() && s[i].0.v() == dc(t, s[i].1 as int) && s[i].0.v() != 0real
    &&& forall|d: int| t.len() - k <= d < t.len() && #[trigger] dc(t, d) != 0real ==> has_deg(s, d)
}
pub open spec fn has_deg(s: Seq<(Z, usize)>, d: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d }
pub proof fn part_step(s0: Seq<(Z, usize)>, s1: Seq<(Z, usize)>, t: Seq<Z>, k: int)
    requires part(s0, t, k), 0 <= k < t.len(), t[k].v() == 0real ==> s1 == s0,
        t[k].v() != 0real ==> s1.len() == s0.len() + 1 && s1.drop_last() =~= s0 && s1.last().0.v() == t[k].v() && s1.last().1 == t.len() - 1 - k
    ensures part(s1, t, k + 1)
{
    assert forall|d: int| t.len() - (k + 1) <= d < t.len() && #[trigger] dc(t, d) != 0real implies has_deg(s1, d) by {
        if d == t.len() - 1 - k { assert(s1[s1.len() - 1].1 == d); }
        else { assert(has_deg(s0, d)); let i = choose|i: int| 0 <= i < s0.len() && (#[trigger] s0[i]).1 == d; if t[k].v() != 0real { assert(s1.drop_last()[i] == s1[i]); } assert(s1[i].1 == d); }
    }
    if t[k].v() != 0real {
        assert forall|i: int| 0 <= i < s0.len() implies s1[i] == #[trigger] s0[i] by { assert(s1.drop_last()[i] == s1[i]); }
        assert forall|i: int| 0 <= i < s1.len() implies t.len() - (k + 1) <= (#[trigger] s1[i]).1 < t.len() && s1[i].0.v() == dc(t, s1[i].1 as int) && s1[i].0.v() != 0real by { if i < s0.len() { assert(s1[i] == s0[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (#[trigger] s1[i]).1 > (#[trigger] s1[j]).1 by { assert(s1[i] == s0[i]); if j < s0.len() { assert(s1[j] == s0[j]); } }
    }
}
pub proof fn part_done(s: Seq<(Z, usize)>, t: Seq<Z>, c: F)
    requires part(s, t, t.len() as int), forall|d: int| #[trigger] c(d) == dc(t, d)
    ensures is_terms(s, c)
{
    assert forall|d: int| #[trigger] c(d) != 0real implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d by { assert(dc(t, d) != 0real); assert(has_deg(s, d)); }
}
/// two lists of nonzero terms in descending order are the same exactly when they stand for the same coefficients
pub proof fn terms_same(a: Seq<(Z, usize)>, b: Seq<(Z, usize)>, f: F, g: F)
    requires is_terms(a, f), is_terms(b, g)
    ensures same_terms(a, b) <==> forall|d: int| #[trigger] f(d) == g(d)
{
    if same_terms(a, b) {
        assert forall|d: int| #[trigger] f(d) == g(d) by {
            if f(d) != 0real { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == d; assert(b[i].1 == d); }
            else if g(d) != 0real { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 == d; assert(a[i].1 == d); }
        }
    }
    if forall|d: int| #[trigger] f(d) == g(d) { terms_eq(a, b, f, g, 0); }
}
pub proof fn terms_same_all<P: HasC, Q: HasC>(p: &P, q: &Q)
    ensures forall|a: Seq<(Z, usize)>, b: Seq<(Z, usize)>| #[trigger] is_terms(a, cf(p)) && #[trigger] is_terms(b, cf(q)) ==> same_terms(a, b) == same(p, q)
{
    assert forall|a: Seq<(Z, usize)>, b: Seq<(Z, usize)>| #[trigger] is_terms(a, cf(p)) && #[trigger] is_terms(b, cf(q)) implies same_terms(a, b) == same(p, q) by {
        terms_same(a, b, cf(p), cf(q));
        if forall|d: int| #[trigger] cf(p)(d) == cf(q)(d) { assert forall|d: int| p.c(d) == q.c(d) by { assert(cf(p)(d) == cf(q)(d)); } }
    }
}
/// the k-th terms agree, and so on from there
pub proof fn terms_eq(a: Seq<(Z, usize)>, b: Seq<(Z, usize)>, f: F, g: F, k: int)
    requires is_terms(a, f), is_terms(b, g), forall|d: int| #[trigger] f(d) == g(d), 0 <= k <= a.len(), k <= b.len(),
        forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).0.v() == b[i].0.v() && a[i].1 == b[i].1
    ensures same_terms(a, b)
    decreases a.len() - k
{
    if k < a.len() && k < b.len() {
        let d = a[k].1 as int; let e = b[k].1 as int;
        assert(f(d) != 0real && g(d) != 0real && g(e) != 0real && f(e) != 0real);
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 == d;
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).1 == e;
        if i < k { assert(a[i].1 == d); assert(a[i].1 > a[k].1); }
        if j < k { assert(b[j].1 == e); assert(b[j].1 > b[k].1); }
        if d < e { if j > k { assert(a[k].1 > a[j].1); } assert(false); }
        if e < d { if i > k { assert(b[k].1 > b[i].1); } assert(false); }
        terms_eq(a, b, f, g, k + 1);
    } else if k < a.len() {
        let d = a[k].1 as int; assert(f(d) != 0real); assert(g(d) != 0real);
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 == d; assert(a[i].1 == d); assert(a[i].1 > a[k].1);
    } else if k < b.len() {
        let d = b[k].1 as int; assert(g(d) != 0real); assert(f(d) != 0real);
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == d; assert(b[i].1 == d); assert(b[i].1 > b[k].1);
    }
}
pub open spec fn bump(p: real, d: int, k: int, x: real) -> real { if d == k { p + x } else { p } }
/// products in terms of the coefficients, however they are written down
pub proof fn conv_all<P: HasC, Q: HasC>(p: &P, q: &Q)
    ensures forall|f: F, g: F, d: int| (forall|i: int| #[trigger] f(i) == p.c(i)) && (forall|i: int| #[trigger] g(i) == q.c(i)) ==> #[trigger] conv(f, g, d) == conv(cf(p), cf(q), d)
{
    assert forall|f: F, g: F, d: int| (forall|i: int| #[trigger] f(i) == p.c(i)) && (forall|i: int| #[trigger] g(i) == q.c(i)) implies #[trigger] conv(f, g, d) == conv(cf(p), cf(q), d) by { conv_ext(f, g, cf(p), cf(q), d); }
}
/// powers of p: whatever stands for p^a and p^b, their product stands for p^(a+b)
pub proof fn pow_all<P: HasC>(p: &P, n: nat)
    requires forall|d: int| d < 0 ==> #[trigger] p.c(d) == 0real
    ensures forall|d: int| #[trigger] ppow(cf(p), 0)(d) == (if d == 0 { 1real } else { 0real }),
        forall|d: int| #[trigger] ppow(cf(p), 1)(d) == p.c(d),
        forall|d: int| #[trigger] ppow(cf(p), 2)(d) == conv(cf(p), cf(p), d),
        n > 0 ==> forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), (n - 1) as nat)(e)) ==> #[trigger] conv(cf(p), cf(q), d) == ppow(cf(p), n)(d),
        n % 2 == 0 ==> forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), n / 2)(e)) ==> #[trigger] ppow(cf(q), 2)(d) == ppow(cf(p), n)(d),
        n > 0 ==> forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), (n - 1) as nat)(e)) ==> #[trigger] conv(cf(q), cf(p), d) == ppow(cf(p), n)(d),
        n % 2 == 0 ==> forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), n / 2)(e)) ==> #[trigger] conv(cf(q), cf(q), d) == ppow(cf(p), n)(d),
{
    ppow_facts(cf(p), n);
    if n > 0 {
        assert forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), (n - 1) as nat)(e)) implies #[trigger] conv(cf(q), cf(p), d) == ppow(cf(p), n)(d) by {
            conv_ext(cf(q), cf(p), ppow(cf(p), (n - 1) as nat), ppow(cf(p), 1), d);
            ppow_add(cf(p), (n - 1) as nat, 1);
            assert((n - 1) as nat + 1 == n);
        }
    }
    if n % 2 == 0 {
        assert forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), n / 2)(e)) implies #[trigger] conv(cf(q), cf(q), d) == ppow(cf(p), n)(d) by {
            conv_ext(cf(q), cf(q), ppow(cf(p), n / 2), ppow(cf(p), n / 2), d);
        }
    }
    if n > 0 {
        assert forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), (n - 1) as nat)(e)) implies #[trigger] conv(cf(p), cf(q), d) == ppow(cf(p), n)(d) by {
            conv_ext(cf(p), cf(q), cf(p), ppow(cf(p), (n - 1) as nat), d);
        }
    }
    if n % 2 == 0 {
        assert forall|q: &P, d: int| (forall|e: int| #[trigger] q.c(e) == ppow(cf(p), n / 2)(e)) implies #[trigger] ppow(cf(q), 2)(d) == ppow(cf(p), n)(d) by {
            van_ppow(cf(p), n / 2);
            assert forall|e: int| #[trigger] cf(q)(e) == ppow(cf(p), n / 2)(e) by { assert(q.c(e) == ppow(cf(p), n / 2)(e)); }
            ppow_facts(cf(q), 2);
            conv_ext(cf(q), cf(q), ppow(cf(p), n / 2), ppow(cf(p), n / 2), d);
        }
    }
}
/// the coefficients of x^k * p, for any sign of k
pub open spec fn sh<P: HasC>(p: &P, d: int, k: int) -> real { if d >= 0 { p.c(d - k) } else { 0real } }
/// every degree up to one above the largest has an exact representation as a coefficient
pub open spec fn degs_ok(c: F) -> bool { small_ok() && forall|d: int, e: int| #[trigger] c(d) != 0real && 0 <= e <= d + 1 ==> #[trigger] cont_in(e) && exact_in(e) }
pub open spec fn small_ok() -> bool { forall|n: int| 0 <= n <= 127 ==> #[trigger] cont_in(n) && exact_in(n) }
pub open spec fn isdiv(a: F, b: F, q: F, r: F) -> bool { forall|d: int| #[trigger] a(d) == conv(q, b, d) + r(d) }
pub open spec fn fin(q: F) -> bool { van(q) && exists|n: int| #[trigger] above(q, n) }
pub open spec fn above(q: F, n: int) -> bool { forall|d: int| d >= n ==> #[trigger] q(d) == 0real }
/// r is what some polynomial q leaves of a
pub open spec fn rem_ok(a: F, b: F, r: F) -> bool { exists|q: F| fin(q) && #[trigger] isdiv(a, b, q, r) }
pub open spec fn remainder_of(a: F, b: F, r: F) -> bool { rem_ok(a, b, r) && rem_low(b, r) }
/// r is zero or of lower degree than b
pub open spec fn rem_low(b: F, r: F) -> bool { exact_div() ==> forall|n: int| #[trigger] top(b, n) ==> forall|d: int| d >= n ==> #[trigger] r(d) == 0real }
/// a = q*b + r, and r is of lower degree than b where the quotients are exact
pub open spec fn divided(a: F, b: F, q: F, r: F) -> bool {
    &&& isdiv(a, b, q, r)
    &&& rem_low(b, r)
}
pub proof fn conv_bump(f: F, f1: F, g: F, k: int, s: real, d: int)
    requires van(g), k >= 0, forall|i: int| #[trigger] f1(i) == bump(f(i), i, k, s)
    ensures conv(f1, g, d) == conv(f, g, d) + s * g(d - k)
{
    let a = |i: int| f(i) * g(d - i);
    let b = |i: int| if i == k { s * g(d - i) } else { 0real };
    let h = |i: int| f1(i) * g(d - i);
    assert forall|i: int| 0 <= i < d + 1 implies #[trigger] h(i) == a(i) + b(i) by {
        assert(f1(i) == bump(f(i), i, k, s));
        if i == k { assert((f(i) + s) * g(d - i) == f(i) * g(d - i) + s * g(d - i)) by (nonlinear_arith); }
    }
    sum_add(a, b, h, 0, d + 1);
    if 0 <= k < d + 1 { sum_one(b, 0, k, d + 1); assert(b(k) == s * g(d - k)); }
    else { sum_zero(b, 0, d + 1); assert(g(d - k) == 0real); mul0(s, g(d - k)); }
}
pub proof fn conv_zero(f: F, g: F, d: int)
    requires forall|i: int| #[trigger] f(i) == 0real
    ensures conv(f, g, d) == 0real
{ let a = |i: int| f(i) * g(d - i); assert forall|i: int| 0 <= i < d + 1 implies #[trigger] a(i) == 0real by { mul0(f(i), g(d - i)); } sum_zero(a, 0, d + 1); }
/// one step of the division: r1 = r - s * x^k * b, q1 = q + s * x^k
pub proof fn div_step(a: F, b: F, q: F, r: F, q1: F, r1: F, k: int, s: real)
    requires van(b), k >= 0, forall|d: int| #[trigger] a(d) == conv(q, b, d) + r(d), forall|i: int| #[trigger] q1(i) == bump(q(i), i, k, s),
        forall|d: int| #[trigger] r1(d) == r(d) - b(d - k) * s
    ensures forall|d: int| #[trigger] a(d) == conv(q1, b, d) + r1(d)
{
    assert forall|d: int| #[trigger] a(d) == conv(q1, b, d) + r1(d) by {
        conv_bump(q, q1, b, k, s, d);
        assert(s * b(d - k) == b(d - k) * s) by (nonlinear_arith);
    }
}
/// the leading term of the remainder after one step: lower degree, or smaller than the divisor's
pub proof fn div_lead(b: F, r: F, r1: F, n: int, m: int)
    requires top(b, n), top(r, m), m >= n, quo(r(m), b(n)) != 0real, forall|d: int| #[trigger] r1(d) == r(d) - b(d - (m - n)) * quo(r(m), b(n))
    ensures forall|d: int| d > m ==> #[trigger] r1(d) == 0real, r1(m) == 0real || (!exact_div() && quo(r1(m), b(n)) == 0real)
{
    let s = quo(r(m), b(n));
    assert forall|d: int| d > m implies #[trigger] r1(d) == 0real by { assert(r(d) == 0real && b(d - (m - n)) == 0real); mul0(0real, s); }
    assert(m - (m - n) == n);
    assert(r1(m) == r(m) - b(n) * s);
    assert(b(n) * s == s * b(n)) by (nonlinear_arith);
    if exact_div() { quo_exact(r(m), b(n)); } else { quo_trunc(r(m), b(n)); quo_trunc(r1(m), b(n)); }
}
pub proof fn exact_quo_nz(a: real, b: real)
    requires b != 0real, a != 0real, exact_div()
    ensures quo(a, b) != 0real
{ quo_exact(a, b); mul0(0real, b); }
/// one step of the division, whatever the quotient and the remainder are afterwards
pub open spec fn stepped(b: F, r: F, r1: F, n: int, m: int) -> bool { forall|d: int| #[trigger] r1(d) == r(d) - b(d - (m - n)) * quo(r(m), b(n)) }
pub proof fn div_next(a: F, b: F, q: F, r: F, n: int, m: int)
    requires van(b), top(b, n), top(r, m), isdiv(a, b, q, r), m >= n
    ensures forall|q1: F, r1: F| (forall|i: int| #[trigger] q1(i) == bump(q(i), i, m - n, quo(r(m), b(n)))) && stepped(b, r, r1, n, m) ==> #[trigger] isdiv(a, b, q1, r1),
        forall|r1: F, k: int| quo(r(m), b(n)) != 0real && stepped(b, r, r1, n, m) && #[trigger] top(r1, k) ==> k < m || (k == m && !exact_div() && quo(r1(m), b(n)) == 0real),
        exact_div() ==> quo(r(m), b(n)) != 0real
{
    let s = quo(r(m), b(n));
    assert forall|q1: F, r1: F| (forall|i: int| #[trigger] q1(i) == bump(q(i), i, m - n, s)) && stepped(b, r, r1, n, m) implies #[trigger] isdiv(a, b, q1, r1) by { div_step(a, b, q, r, q1, r1, m - n, s); }
    step_lead(b, r, n, m);
}
pub proof fn step_lead(b: F, r: F, n: int, m: int)
    requires top(b, n), top(r, m), m >= n
    ensures
        forall|r1: F, k: int| quo(r(m), b(n)) != 0real && stepped(b, r, r1, n, m) && #[trigger] top(r1, k) ==> k < m || (k == m && !exact_div() && quo(r1(m), b(n)) == 0real),
        exact_div() ==> quo(r(m), b(n)) != 0real
{
    assert forall|r1: F, k: int| quo(r(m), b(n)) != 0real && stepped(b, r, r1, n, m) && #[trigger] top(r1, k) implies k < m || (k == m && !exact_div() && quo(r1(m), b(n)) == 0real) by { div_lead(b, r, r1, n, m); assert(r1(k) != 0real); }
    if exact_div() { exact_quo_nz(r(m), b(n)); }
}
pub open spec fn bumpf(q: F, k: int, s: real) -> F { |i: int| bump(q(i), i, k, s) }
pub proof fn rem_next(a: F, b: F, r: F, n: int, m: int)
    requires van(b), top(b, n), top(r, m), rem_ok(a, b, r), m >= n
    ensures forall|r1: F| stepped(b, r, r1, n, m) ==> #[trigger] rem_ok(a, b, r1),
        forall|r1: F, k: int| quo(r(m), b(n)) != 0real && stepped(b, r, r1, n, m) && #[trigger] top(r1, k) ==> k < m || (k == m && !exact_div() && quo(r1(m), b(n)) == 0real),
        exact_div() ==> quo(r(m), b(n)) != 0real, exact_div() ==> forall|x: real| x != 0real ==> #[trigger] quo(x, b(n)) != 0real
{
    assert forall|r1: F| stepped(b, r, r1, n, m) implies #[trigger] rem_ok(a, b, r1) by {
        let q = choose|q: F| fin(q) && #[trigger] isdiv(a, b, q, r);
        let s = quo(r(m), b(n));
        let q1 = bumpf(q, m - n, s);
        div_step(a, b, q, r, q1, r1, m - n, s);
        let h = choose|h: int| #[trigger] above(q, h);
        assert(above(q1, if h > m - n { h } else { m - n + 1 }));
        assert(isdiv(a, b, q1, r1));
    }
    step_lead(b, r, n, m);
    if exact_div() { assert forall|x: real| x != 0real implies #[trigger] quo(x, b(n)) != 0real by { exact_quo_nz(x, b(n)); } }
}
pub proof fn rem_start(a: F, b: F)
    ensures rem_ok(a, b, a)
{
    let q = |d: int| 0real;
    assert(above(q, 0));
    assert(isdiv(a, b, q, a)) by { assert forall|d: int| #[trigger] a(d) == conv(q, b, d) + a(d) by { conv_zero(q, b, d); } }
}
%fn Term::new
%props C07 C11 C12 C13 C15 C16
%params coeff deg
%ensures
    term_ok(coeff.v(), deg as int, r),
%fn SizedPolynomial::term_with_degree
%props C11
%params degree
%ensures
    term_ok(self.c(degree as int), degree as int, r),
%fn SizedPolynomial::terms_as_vec
%props C11 C16
%ensures
    is_terms(r@, cf(self)),
%fn SizedPolynomial::degree
%props C11
%ensures
    deg_ok(cf(self), r),
%fn SizedPolynomial::zero
%props C11
%ensures
    is0(&r),
%fn SizedPolynomial::is_zero
%props C11 C13 C14 C15 C16
%ensures
    r == is0(self),
%at fn.end
    proof { assert(deg_ok(cf(self), Degree::NegInf) <==> is0(self)) by { assert forall|d: int| cf(self)(d) == #[trigger] self.c(d) by { } }; if !r { } }
%fn SizedPolynomial::set_to_zero
%props C11
%ensures
    is0(final(self)),
%fn MutablePolynomial::try_add_term
%props C13
%params coeff degree
%requires
    Self::fit(degree as int),
%ensures
    r is Ok ==> forall|d: int| #[trigger] final(self).c(d) == bump(old(self).c(d), d, degree as int, coeff.v()),
    r is Err ==> (forall|d: int| #[trigger] final(self).c(d) == old(self).c(d)) && (coeff.v() != 0real ==> !old(self).room(degree as int)),
    r is Err ==> old(self).refused(coeff, degree, r->Err_0),
%fn MutablePolynomial::try_sub_term
%props C13
%params coeff degree
%requires
    Self::fit(degree as int),
%ensures
    r is Ok ==> forall|d: int| #[trigger] final(self).c(d) == bump(old(self).c(d), d, degree as int, -coeff.v()),
    r is Err ==> (forall|d: int| #[trigger] final(self).c(d) == old(self).c(d)) && (coeff.v() != 0real ==> !old(self).room(degree as int) || (!can_neg() && old(self).c(degree as int) == 0real)),
    r is Err ==> old(self).refused(coeff, degree, r->Err_0),
%traitextra MutablePolynomial
    /// a term of this degree can be held
    spec fn room(&self, d: int) -> bool;
    /// the sink answers this error to this term; any error will do for the sinks of this crate
    spec fn refused(&self, c: Z, d: usize, e: TryAddError) -> bool;
%fn FreeSizePolynomial::from_terms
%props C13
%params terms
%requires
    forall|i: int| 0 <= i < terms@.len() ==> Self::fit((#[trigger] terms@[i]).1 as int),
%ensures
    forall|d: int| #[trigger] r.c(d) == tsum(terms@, terms@.len() as int, d),
%fn FreeSizePolynomial::add_term
%props C13
%params coeff degree
%requires
    Self::fit(degree as int),
%ensures
    forall|d: int| #[trigger] final(self).c(d) == bump(old(self).c(d), d, degree as int, coeff.v()),
%fn Evaluable::eval
%props C08
%params point
%ensures
    r.v() == evald(cf(self), self.bd(), point.v()),
%traitextra Derivable
    /// the degrees can be written as coefficients
    spec fn dok(&self) -> bool;
%fn Derivable::derivative
%props C09 C18
%requires
    self.dok() || panic_allowed(),
%ensures
    forall|d: int| #[trigger] r.c(d) == if d >= 0 { ((d + 1) as real) * self.c(d + 1) } else { 0real },
%traitextra Integrable
    spec fn iok(&self) -> bool;
    /// the degree of the integral is a usize
    spec fn iroom(&self) -> bool;
%fn Integrable::integral
%props C10 C18
%requires
    self.iok() || panic_allowed(),
    self.iroom(),
%ensures
    forall|d: int| #[trigger] r.polynomial.c(d) == if d >= 1 { quo(self.c(d - 1), d as real) } else { 0real },
%fn Integral<P>::new
%props C10 C18
%params polynomial
%ensures
    r.polynomial == polynomial,
%fn Integral<P>::inner
%props C10
%ensures
    *r == self.polynomial,
%fn Integral<P>::replace_c
%props C10
%params c
%requires
    P::fit(0),
%ensures
    forall|d: int| #[trigger] r.c(d) == bump(self.polynomial.c(d), d, 0, c.v()),
%fn Integral<P>::eval
%props C10
%params start end
%ensures
    r.v() == evald(cf(&self.polynomial), self.polynomial.bd(), end.v()) - evald(cf(&self.polynomial), self.polynomial.bd(), start.v()),
%raw traits
/// the coefficient at d of the first k terms of a list
pub open spec fn tsum(s: Seq<(Z, usize)>, k: int, d: int) -> real decreases k {
    if k <= 0 { 0real } else { bump(tsum(s, k - 1, d), d, s[k - 1].1 as int, s[k - 1].0.v()) }
}

/// a list of the nonzero terms sums up to the coefficients
pub proof fn tsum_terms(s: Seq<(Z, usize)>, c: F)
    requires is_terms(s, c)
    ensures forall|d: int| #[trigger] tsum(s, s.len() as int, d) == c(d)
{
    assert forall|d: int| #[trigger] tsum(s, s.len() as int, d) == c(d) by {
        tsum_at(s, c, s.len() as int, d);
        if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; }
    }
}
pub proof fn tsum_at(s: Seq<(Z, usize)>, c: F, k: int, d: int)
    requires is_terms(s, c), 0 <= k <= s.len()
    ensures (exists|i: int| 0 <= i < k && (#[trigger] s[i]).1 == d) ==> tsum(s, k, d) == c(d),
        (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).1 != d) ==> tsum(s, k, d) == 0real
    decreases k
{
    if k > 0 {
        tsum_at(s, c, k - 1, d);
        if s[k - 1].1 == d { assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] s[i]).1 != d by { assert(s[i].1 > s[k - 1].1); } }
        else if exists|i: int| 0 <= i < k && (#[trigger] s[i]).1 == d { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).1 == d; assert(i < k - 1); }
    }
}
