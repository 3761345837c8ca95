%raw find_roots
pub proof fn sq_neg()
    ensures forall|x: real, y: real| x == -y ==> #[trigger] sq(x) == #[trigger] sq(y)
{ assert forall|x: real, y: real| x == -y implies #[trigger] sq(x) == #[trigger] sq(y) by { assert(x * x == y * y) by (nonlinear_arith) requires x == -y; } }
pub open spec fn disc(a: real, b: real, c: real) -> real { b * b - a * c * 4real }
pub open spec fn root_at(a: real, b: real, c: real, x: real) -> bool { a * (x * x) + b * x + c == 0real }
/// a * (x - s) * (x - t) is the quadratic
pub open spec fn vieta(a: real, b: real, c: real, s: real, t: real) -> bool { a * (s + t) == -b && a * (s * t) == c }
/// the same for complex s and t; and both are roots
pub open spec fn vieta_c(a: real, b: real, c: real, sr: real, si: real, tr: real, ti: real) -> bool {
    a * (sr + tr) == -b && si + ti == 0real && a * (sr * tr - si * ti) == c && sr * ti + si * tr == 0real
}
pub open spec fn croot_at(a: real, b: real, c: real, re: real, im: real) -> bool { a * (re * re - im * im) + b * re + c == 0real && 2real * (a * (re * im)) + b * im == 0real }
/// what roots() promises of a quadratic with a != 0
pub open spec fn roots_ok(a: real, b: real, c: real, r: Roots<Z>) -> bool {
    match r {
        Roots::TwoRealRoots(x, y) => disc(a, b, c) >= 0real && (exact_div() ==> x.v() >= y.v() && root_at(a, b, c, x.v()) && root_at(a, b, c, y.v()) && vieta(a, b, c, x.v(), y.v())),
        Roots::TwoComplexRoots(x, y) => disc(a, b, c) < 0real && x.re.v() == y.re.v() && x.im.v() == -y.im.v() && (exact_div() ==> x.im.v() != 0real
            && croot_at(a, b, c, x.re.v(), x.im.v()) && croot_at(a, b, c, y.re.v(), y.im.v()) && vieta_c(a, b, c, x.re.v(), x.im.v(), y.re.v(), y.im.v())),
        _ => false,
    }
}
pub open spec fn same_sign(s: real, a: real) -> bool { (s >= 0real && a > 0real) || (s <= 0real && a < 0real) }
/// the formula: what the computed values are, before anything is concluded from it
pub open spec fn formula(a: real, b: real, c: real, r: Roots<Z>) -> bool {
    match r {
        Roots::TwoRealRoots(x, y) => disc(a, b, c) >= 0real && (exact_div() ==> ({ let s = x.v() * (a * 2real) + b; sq(s) == disc(a, b, c) && same_sign(s, a) && y.v() * (a * 2real) == -b - s })),
        Roots::TwoComplexRoots(x, y) => disc(a, b, c) < 0real && x.re.v() == y.re.v() && x.im.v() == -y.im.v()
            && (exact_div() ==> x.re.v() * (a * 2real) == -b && sq(x.im.v() * (a * 2real)) == -disc(a, b, c)),
        _ => false,
    }
}
pub proof fn real_root(a: real, b: real, c: real, s: real, x: real)
    requires a != 0real, s * s == b * b - a * c * 4real, x * (a * 2real) == -b + s
    ensures a * (x * x) + b * x + c == 0real
{
    let t = x * (a * 2real);
    assert(4real * (a * (a * (x * x) + b * x + c)) == t * t + 2real * (b * t) + 4real * (a * c)) by (nonlinear_arith) requires t == x * (a * 2real);
    assert(t * t == b * b - 2real * (b * s) + s * s) by (nonlinear_arith) requires t == -b + s;
    assert(b * t == -(b * b) + b * s) by (nonlinear_arith) requires t == -b + s;
    assert(a * c * 4real == 4real * (a * c)) by (nonlinear_arith);
    let q = a * (x * x) + b * x + c;
    assert(a * q == 0real);
    assert(q == 0real) by (nonlinear_arith) requires a * q == 0real, a != 0real;
}
pub proof fn real_pair(a: real, b: real, c: real, s: real, x: real, y: real)
    requires a != 0real, s * s == b * b - a * c * 4real, x * (a * 2real) == -b + s, y * (a * 2real) == -b - s, same_sign(s, a)
    ensures vieta(a, b, c, x, y), x >= y
{
    assert(a * (x + y) == -b) by (nonlinear_arith) requires x * (a * 2real) == -b + s, y * (a * 2real) == -b - s;
    let t = x * (a * 2real); let u = y * (a * 2real);
    assert(4real * (a * (a * (x * y))) == t * u) by (nonlinear_arith) requires t == x * (a * 2real), u == y * (a * 2real);
    assert(t * u == b * b - s * s) by (nonlinear_arith) requires t == -b + s, u == -b - s;
    assert(a * c * 4real == 4real * (a * c)) by (nonlinear_arith);
    let q = a * (x * y);
    assert(a * q == a * c);
    assert(q == c) by (nonlinear_arith) requires a * q == a * c, a != 0real;
    assert((x - y) * a == s) by (nonlinear_arith) requires x * (a * 2real) == -b + s, y * (a * 2real) == -b - s;
    let d = x - y;
    assert(d >= 0real) by (nonlinear_arith) requires d * a == s, (s >= 0real && a > 0real) || (s <= 0real && a < 0real);
}
pub proof fn complex_pair(a: real, b: real, c: real, x: real, y: real)
    requires a != 0real, x * (a * 2real) == -b, (y * (a * 2real)) * (y * (a * 2real)) == -disc(a, b, c), disc(a, b, c) < 0real
    ensures croot_at(a, b, c, x, y), croot_at(a, b, c, x, -y), vieta_c(a, b, c, x, y, x, -y), y != 0real
{
    let t = x * (a * 2real); let u = y * (a * 2real);
    if y == 0real { mul0(y, a * 2real); mul0(u, u); assert(false); }
    let (xx, yy) = (x * x, y * y);
    // everything in units of a
    let ax = a * x;
    assert(2real * ax == -b) by (nonlinear_arith) requires x * (a * 2real) == -b, ax == a * x;
    let ay = a * y;
    assert(u == 2real * ay) by (nonlinear_arith) requires u == y * (a * 2real), ay == a * y;
    assert(u * u == 4real * (ay * ay)) by (nonlinear_arith) requires u == 2real * ay;
    assert(4real * (ax * ax) == b * b) by (nonlinear_arith) requires 2real * ax == -b;
    assert(a * (a * xx) == ax * ax) by (nonlinear_arith) requires ax == a * x, xx == x * x;
    assert(a * (a * yy) == ay * ay) by (nonlinear_arith) requires ay == a * y, yy == y * y;
    assert(a * c * 4real == 4real * (a * c)) by (nonlinear_arith);
    // a * (xx + yy) == c
    let w = a * (xx + yy);
    assert(a * w == a * (a * xx) + a * (a * yy)) by (nonlinear_arith) requires w == a * (xx + yy);
    assert(a * w == a * c);
    assert(w == c) by (nonlinear_arith) requires a * w == a * c, a != 0real;
    assert((-y) * (-y) == yy) by (nonlinear_arith) requires yy == y * y;
    assert(y * -y == -yy) by (nonlinear_arith) requires yy == y * y;
    assert(x * x - y * -y == xx + yy);
    // b * x == -2 a xx
    assert(b * x == -2real * (a * xx)) by (nonlinear_arith) requires 2real * ax == -b, ax == a * x, xx == x * x;
    assert(a * (xx + yy) == a * xx + a * yy && a * (xx - yy) == a * xx - a * yy) by (nonlinear_arith);
    assert(a * (x * x - y * y) + b * x + c == 0real);
    assert(2real * (a * (x * y)) + b * y == 0real) by (nonlinear_arith) requires x * (a * 2real) == -b;
    assert(2real * (a * (x * -y)) + b * -y == 0real) by (nonlinear_arith) requires x * (a * 2real) == -b;
    assert(a * (x + x) == -b) by (nonlinear_arith) requires x * (a * 2real) == -b;
    assert(x * -y + y * x == 0real) by (nonlinear_arith);
}
pub proof fn solved(a: real, b: real, c: real)
    requires a != 0real
    ensures forall|r: Roots<Z>| formula(a, b, c, r) ==> #[trigger] roots_ok(a, b, c, r)
{
    assert forall|r: Roots<Z>| formula(a, b, c, r) implies #[trigger] roots_ok(a, b, c, r) by {
        if exact_div() {
            match r {
                Roots::TwoRealRoots(x, y) => {
                    let s = x.v() * (a * 2real) + b;
                    real_root(a, b, c, s, x.v());
                    assert((-s) * (-s) == s * s) by (nonlinear_arith);
                    real_root(a, b, c, -s, y.v());
                    real_pair(a, b, c, s, x.v(), y.v());
                },
                Roots::TwoComplexRoots(x, y) => { complex_pair(a, b, c, x.re.v(), x.im.v()); },
                _ => { },
            }
        }
    }
}
/// an integer quadratic a * (x - p) * (x - q) gets p and q, although the quotients are truncated
pub open spec fn int_roots(a: real, b: real, c: real, r: Roots<Z>) -> bool {
    !exact_div() && whole(a) ==> forall|p: int, q: int| p >= q && #[trigger] vieta(a, b, c, p as real, q as real) ==> r is TwoRealRoots && r->TwoRealRoots_0.v() == p as real && r->TwoRealRoots_1.v() == q as real
}
pub open spec fn sgn(a: real, s: real) -> real { if a > 0real { s } else { -s } }
pub open spec fn tformula(a: real, b: real, c: real, r: Roots<Z>) -> bool {
    let d = disc(a, b, c);
    match r {
        Roots::TwoRealRoots(x, y) => !exact_div() ==> ({ let s = if d == 0real { 0real } else { sgn(a, fsq(rabs(d))) }; x.v() == quo(-b + s, a * 2real) && y.v() == quo(-b - s, a * 2real) }),
        _ => d < 0real,
    }
}
pub proof fn int_solved(a: real, b: real, c: real)
    requires a != 0real
    ensures forall|r: Roots<Z>| tformula(a, b, c, r) ==> #[trigger] int_roots(a, b, c, r)
{
    assert forall|r: Roots<Z>| tformula(a, b, c, r) implies #[trigger] int_roots(a, b, c, r) by {
        if !exact_div() && whole(a) {
            assert forall|p: int, q: int| p >= q && #[trigger] vieta(a, b, c, p as real, q as real) implies r is TwoRealRoots && r->TwoRealRoots_0.v() == p as real && r->TwoRealRoots_1.v() == q as real by {
                int_pair(a, b, c, p, q);
            }
        }
    }
}
pub proof fn disc_sq(a: real, b: real, c: real, x: real, y: real)
    requires vieta(a, b, c, x, y)
    ensures disc(a, b, c) == sq(a * (x - y))
{
    let m = a * (x - y); let u = a * (x + y); let w = a * (x * y);
    assert(b * b == u * u) by (nonlinear_arith) requires u == -b;
    let (h, k) = (a * x, a * y);
    assert(u == h + k) by (nonlinear_arith) requires u == a * (x + y), h == a * x, k == a * y;
    assert(m == h - k) by (nonlinear_arith) requires m == a * (x - y), h == a * x, k == a * y;
    assert(a * w == h * k) by (nonlinear_arith) requires w == a * (x * y), h == a * x, k == a * y;
    let hk = h * k; let ac = a * c;
    assert(ac * 4real == 4real * hk);
    assert(u * u - 4real * (h * k) == m * m) by (nonlinear_arith) requires u == h + k, m == h - k;
}
pub proof fn fsq_sq(e: int)
    ensures fsq(sq(e as real)) == rabs(e as real), sq(e as real) >= 0real
{
    let z = rabs(e as real); let d = sq(e as real);
    assert((e as real) * (e as real) == (e * e) as real) by (nonlinear_arith);
    assert(is_int(d, e * e));
    assert(d >= 0real && z * z == d) by (nonlinear_arith) requires z == e as real || z == -(e as real), d == (e as real) * (e as real);
    fsq_floor(d);
    let f = fsq(d);
    let g = choose|g: int| #[trigger] is_int(f, g);
    assert(f <= z) by (nonlinear_arith) requires f * f <= z * z, z >= 0real;
    let f1 = f + 1real;
    assert(z < f1) by (nonlinear_arith) requires z * z < f1 * f1, f1 >= 0real;
    let n = if e >= 0 { e } else { -e };
    assert(z == n as real);
    assert(g <= n && n < g + 1);
}
pub proof fn int_pair(a: real, b: real, c: real, p: int, q: int)
    requires a != 0real, !exact_div(), whole(a), p >= q, vieta(a, b, c, p as real, q as real)
    ensures ({ let d = disc(a, b, c); let s = if d == 0real { 0real } else { sgn(a, fsq(rabs(d))) };
        d >= 0real && quo(-b + s, a * 2real) == p as real && quo(-b - s, a * 2real) == q as real })
{
    let (x, y) = (p as real, q as real);
    let d = disc(a, b, c);
    let m = a * (x - y);
    disc_sq(a, b, c, x, y);
    let n = choose|n: int| #[trigger] is_int(a, n);
    let e = n * (p - q);
    assert((n as real) * ((p - q) as real) == (n * (p - q)) as real) by (nonlinear_arith);
    assert((p - q) as real == x - y);
    let ar = e as real;
    assert(a == n as real);
    assert(m == ar) by (nonlinear_arith) requires m == a * (x - y), a == n as real, (p - q) as real == x - y, ar == (n as real) * ((p - q) as real);
    assert(d == sq(m));
    assert(d == sq(ar));
    fsq_sq(e);
    assert(ar * ar >= 0real) by (nonlinear_arith);
    assert(sq(ar) == ar * ar);
    assert(d >= 0real);
    assert(rabs(d) == d);
    let f = fsq(rabs(d));
    assert(f == rabs(ar));
    let t = if d == 0real { 0real } else { sgn(a, fsq(rabs(d))) };
    if d == 0real { assert(m * m == 0real); assert(m == 0real) by (nonlinear_arith) requires m * m == 0real; assert(t == m); }
    else if a > 0real { assert(m >= 0real) by (nonlinear_arith) requires m == a * (x - y), a > 0real, x >= y; assert(t == f); assert(t == m); }
    else { assert(m <= 0real) by (nonlinear_arith) requires m == a * (x - y), a <= 0real, x >= y; assert(t == -f); assert(t == m); }
    assert(t == m);
    let a2 = a * 2real;
    quo_multiple(p, a2); quo_multiple(q, a2);
    let (u, v) = (a * (x + y), a * 2real);
    assert(u + m == x * v) by (nonlinear_arith) requires u == a * (x + y), m == a * (x - y), v == a * 2real;
    assert(u - m == y * v) by (nonlinear_arith) requires u == a * (x + y), m == a * (x - y), v == a * 2real;
}
/// the value at d among at most four terms
pub open spec fn lk(s: Seq<(Z, usize)>, d: int) -> real {
    if s.len() > 0 && s[0].1 == d { s[0].0.v() } else if s.len() > 1 && s[1].1 == d { s[1].0.v() } else if s.len() > 2 && s[2].1 == d { s[2].0.v() } else if s.len() > 3 && s[3].1 == d { s[3].0.v() } else { 0real }
}
pub proof fn lk_all(s: Seq<(Z, usize)>)
    ensures forall|c: F| #[trigger] is_terms(s, c) && s.len() > 0 && s[0].1 <= 2 ==> c(0) == lk(s, 0) && c(1) == lk(s, 1) && c(2) == lk(s, 2) && s.len() <= s[0].1 + 1,
        forall|c: F| #[trigger] is_terms(s, c) && s.len() > 0 && s[0].1 <= 3 ==> s.len() <= s[0].1 + 1 && c(0) == lk(s, 0) && c(1) == lk(s, 1) && c(2) == lk(s, 2) && c(3) == lk(s, 3),
        forall|c: F| #[trigger] is_terms(s, c) && s.len() > 0 ==> top(c, s[0].1 as int),
        forall|c: F| #[trigger] is_terms(s, c) && s.len() == 0 ==> forall|d: int| #[trigger] c(d) == 0real,
        forall|c: F| #[trigger] is_terms(s, c) ==> (s.len() > 1 ==> s[0].1 > s[1].1) && (s.len() > 2 ==> s[1].1 > s[2].1) && (s.len() > 3 ==> s[2].1 > s[3].1),
{
    assert forall|c: F| #[trigger] is_terms(s, c) && s.len() > 0 implies top(c, s[0].1 as int) by {
        assert(s[0].0.v() == c(s[0].1 as int));
        assert forall|d: int| d > s[0].1 implies #[trigger] c(d) == 0real by { if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; if i > 0 { assert(s[0].1 > s[i].1); } } }
    }
    assert forall|c: F| #[trigger] is_terms(s, c) && s.len() > 0 && s[0].1 <= 3 implies s.len() <= s[0].1 + 1 && c(0) == lk(s, 0) && c(1) == lk(s, 1) && c(2) == lk(s, 2) && c(3) == lk(s, 3) by {
        if s.len() > 4 { assert(s[0].1 > s[1].1 && s[1].1 > s[2].1 && s[2].1 > s[3].1 && s[3].1 > s[4].1); }
        if s.len() > 1 { assert(s[0].1 > s[1].1); }
        if s.len() > 2 { assert(s[1].1 > s[2].1); }
        if s.len() > 3 { assert(s[2].1 > s[3].1); }
        lk_one(s, c, 0); lk_one(s, c, 1); lk_one(s, c, 2); lk_one(s, c, 3);
    }
    assert forall|c: F| #[trigger] is_terms(s, c) && s.len() > 0 && s[0].1 <= 2 implies c(0) == lk(s, 0) && c(1) == lk(s, 1) && c(2) == lk(s, 2) by {
        lk_one(s, c, 0); lk_one(s, c, 1); lk_one(s, c, 2);
    }
}
pub proof fn lk_one(s: Seq<(Z, usize)>, c: F, d: int)
    requires is_terms(s, c), s.len() <= 4
    ensures c(d) == lk(s, d)
{
    if s.len() > 0 { assert(s[0].0.v() == c(s[0].1 as int)); }
    if s.len() > 1 { assert(s[1].0.v() == c(s[1].1 as int)); }
    if s.len() > 2 { assert(s[2].0.v() == c(s[2].1 as int)); }
    if s.len() > 3 { assert(s[3].0.v() == c(s[3].1 as int)); }
    if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; }
}
/// the roots reported for a polynomial of degree n <= 2
pub open spec fn low_roots(c: F, n: int, r: Roots<Z>) -> bool {
    if n == 0 { r is NoRoots }
    else if n == 1 { r is ManyRealRoots && r->ManyRealRoots_0@.len() == 1 && (exact_div() ==> r->ManyRealRoots_0@[0].v() * c(1) + c(0) == 0real) }
    else {
        let (p, q, s) = (c(2), c(1), c(0));
        match r {
            Roots::ManyRealRoots(v) => disc(p, q, s) >= 0real && ((v@.len() == 1 && v@[0].v() == 0real && q == 0real && s == 0real) || (v@.len() == 2 && roots_ok(p, q, s, Roots::TwoRealRoots(v@[0], v@[1])))),
            Roots::ManyComplexRoots(v) => v@.len() == 2 && roots_ok(p, q, s, Roots::TwoComplexRoots(v@[0], v@[1])),
            _ => false,
        }
    }
}
%fn find_roots::discriminant_trinomial
%props C19 C20 C22
%params a b c
%ensures
    r.v() == disc(a.v(), b.v(), c.v()),
%at fn.start
    proof { let (p, q, s) = (a.v(), b.v(), c.v()); assert(p * s * 4real == p * c.v() * 4real); }
%fn find_roots::trinomial_roots
%props C19 C20 C22
%params a b c
%requires
    a.v() != 0real,
%ensures
    roots_ok(a.v(), b.v(), c.v(), r),
    int_roots(a.v(), b.v(), c.v(), r),
%at fn.start
    proof { broadcast use quo_exact; solved(a.v(), b.v(), c.v()); int_solved(a.v(), b.v(), c.v()); mul0(0real, 0real); sq_neg(); }
    let ghost (a0, b0, c0) = (a.v(), b.v(), c.v());
%at fn.end
    proof { assert(formula(a0, b0, c0, r)); assert(tformula(a0, b0, c0, r)); }
%raw find_roots
/// a * (t - x) * (t - y) * (t - z) is the cubic
pub open spec fn vieta3(a: real, b: real, c: real, d: real, x: real, y: real, z: real) -> bool {
    a * (x + y + z) == -b && a * (x * (y + z) + y * z) == c && a * (x * (y * z)) == -d
}
/// the same for complex roots
pub open spec fn vieta3_c(a: real, b: real, c: real, d: real, x: Complex<Z>, y: Complex<Z>, z: Complex<Z>) -> bool {
    let (sr, si) = (y.re.v() + z.re.v(), y.im.v() + z.im.v());
    let (pr, pi) = (y.re.v() * z.re.v() - y.im.v() * z.im.v(), y.re.v() * z.im.v() + y.im.v() * z.re.v());
    let (xr, xi) = (x.re.v(), x.im.v());
    &&& a * (xr + sr) == -b && xi + si == 0real
    &&& a * (xr * sr - xi * si + pr) == c && xr * si + xi * sr + pi == 0real
    &&& a * (xr * pr - xi * pi) == -d && xr * pi + xi * pr == 0real
}
/// three real roots, or one real root and a conjugate pair
pub open spec fn cubic_ok(a: real, b: real, c: real, d: real, r: Roots<Z>) -> bool {
    match r {
        Roots::ThreeRealRoots(x, y, z) => exact_div() ==> vieta3(a, b, c, d, x.v(), y.v(), z.v()),
        Roots::ThreeComplexRoots(x, y, z) => exact_div() ==> x.im.v() == 0real && y.im.v() != 0real && y.re.v() == z.re.v() && y.im.v() == -z.im.v() && vieta3_c(a, b, c, d, x, y, z),
        _ => false,
    }
}
pub proof fn cube_inj(x: real, y: real)
    requires cube(x) == cube(y)
    ensures x == y
{
    let (u, w) = (x - y, x * x + x * y + y * y);
    assert(u * w == x * x * x - y * y * y) by (nonlinear_arith) requires u == x - y, w == x * x + x * y + y * y;
    if x != y {
        assert(w == 0real) by (nonlinear_arith) requires u * w == 0real, u != 0real;
        let h = x + y;
        assert(2real * w == h * h + x * x + y * y) by (nonlinear_arith) requires w == x * x + x * y + y * y, h == x + y;
        assert(h * h >= 0real && x * x >= 0real && y * y >= 0real) by (nonlinear_arith);
        assert(x == 0real) by (nonlinear_arith) requires x * x == 0real;
        assert(y == 0real) by (nonlinear_arith) requires y * y == 0real;
    }
}
/// t solves t^3 + 3 m t - 2 q = 0: the two cube roots
pub proof fn cardano(m: real, q: real, k: real, u: real, v: real)
    requires k * k == q * q + cube(m), cube(u) == q + k, cube(v) == q - k
    ensures cube(u + v) + 3real * (m * (u + v)) - 2real * q == 0real
{
    let w = u * v;
    assert(cube(w) == cube(u) * cube(v)) by (nonlinear_arith) requires w == u * v;
    let (g, h) = (cube(u), cube(v));
    assert(g * h == q * q - k * k) by (nonlinear_arith) requires g == q + k, h == q - k;
    let n = -m;
    assert(cube(n) == -cube(m)) by (nonlinear_arith) requires n == -m;
    cube_inj(w, n);
    let t = u + v;
    assert(cube(t) == cube(u) + cube(v) + 3real * (w * t)) by (nonlinear_arith) requires t == u + v, w == u * v;
    assert(w * t == -(m * t)) by (nonlinear_arith) requires w == -m;
}
/// the same with the angle
pub proof fn angle(m: real, q: real, s: real, y: real, t: real)
    requires s * s == -m, s > 0real, cube(s) * (4real * cube(y) - 3real * y) == q, t == 2real * s * y
    ensures cube(t) + 3real * (m * t) - 2real * q == 0real
{
    let c = s * s * s; let yy = y * y * y;
    assert(t * t * t == 8real * (c * yy)) by (nonlinear_arith) requires t == 2real * s * y, c == s * s * s, yy == y * y * y;
    assert(m * t == -2real * (c * y)) by (nonlinear_arith) requires t == 2real * s * y, c == s * s * s, s * s == -m;
    assert(c * (4real * yy - 3real * y) == 4real * (c * yy) - 3real * (c * y)) by (nonlinear_arith);
}
/// x = t + p solves the cubic
pub proof fn unshift(a: real, b: real, c: real, d: real, p: real, q: real, r: real, x: real)
    requires a != 0real, p * (3real * a) == -b, r * (3real * a) == c, (q - cube(p)) * (6real * (a * a)) == b * c - 3real * a * d,
        ({ let t = x - p; cube(t) + 3real * ((r - p * p) * t) - 2real * q == 0real })
    ensures a * cube(x) + b * (x * x) + c * x + d == 0real
{
    let t = x - p; let pp = p * p; let ppp = cube(p); let xx = x * x;
    assert(cube(t) == cube(x) - 3real * (p * xx) + 3real * (pp * x) - ppp) by (nonlinear_arith) requires t == x - p, pp == p * p, ppp == p * p * p, xx == x * x;
    let m = r - pp; let pr = p * r;
    assert(m * t == r * x - pr - pp * x + ppp) by (nonlinear_arith) requires m == r - pp, t == x - p, pp == p * p, ppp == p * p * p, pr == p * r;
    // cube(x) - 3 p xx + 3 r x - 3 pr + 2 ppp - 2 q == 0
    let e = cube(x) - 3real * (p * xx) + 3real * (r * x) - 3real * pr + 2real * ppp - 2real * q;
    assert(e == 0real);
    // d == -3 a pr - 2 a (q - ppp)
    let g = q - ppp; let apr = a * pr; let aa = a * a;
    assert(b * c == -9real * (a * apr)) by (nonlinear_arith) requires p * (3real * a) == -b, r * (3real * a) == c, pr == p * r, apr == a * pr;
    let ad = a * d; let ag = a * g;
    assert(3real * a * d == 3real * ad) by (nonlinear_arith) requires ad == a * d;
    assert(g * (6real * aa) == 6real * (a * ag)) by (nonlinear_arith) requires aa == a * a, ag == a * g;
    let h = d + 3real * apr + 2real * ag;
    assert(a * h == ad + 3real * (a * apr) + 2real * (a * ag)) by (nonlinear_arith) requires h == d + 3real * apr + 2real * ag, ad == a * d;
    assert(h == 0real) by (nonlinear_arith) requires a * h == 0real, a != 0real;
    // a e, term by term
    let (x3, pxx, rx) = (cube(x), p * xx, r * x);
    assert(a * e == a * x3 - 3real * (a * pxx) + 3real * (a * rx) - 3real * apr - 2real * ag) by (nonlinear_arith)
        requires e == x3 - 3real * pxx + 3real * rx - 3real * pr + 2real * ppp - 2real * q, apr == a * pr, ag == a * g, g == q - ppp;
    mul0(a, e);
    assert(b * xx == -3real * (a * pxx)) by (nonlinear_arith) requires p * (3real * a) == -b, pxx == p * xx;
    assert(c * x == 3real * (a * rx)) by (nonlinear_arith) requires r * (3real * a) == c, rx == r * x;
}
/// a root and the roots of the quotient by it
pub proof fn deflate(a: real, b: real, c: real, d: real, x: real, ba: real, ca: real, s: real, p: real)
    requires a != 0real, a * cube(x) + b * (x * x) + c * x + d == 0real, ba * a == b, ca * a == c, s == -(ba + x), p == ca + (ba + x) * x
    ensures a * (x + s) == -b, a * (x * s + p) == c, a * (x * p) == -d
{
    assert(a * (x + s) == -b) by (nonlinear_arith) requires s == -(ba + x), ba * a == b;
    let e = ba + x;
    assert(x * s == -(e * x)) by (nonlinear_arith) requires s == -e;
    assert(x * s + p == ca);
    assert(a * ca == c) by (nonlinear_arith) requires ca * a == c;
    let (xx, x3) = (x * x, cube(x));
    assert(x * p == ca * x + ba * xx + x3) by (nonlinear_arith) requires p == ca + (ba + x) * x, xx == x * x, x3 == x * x * x;
    let (cx, bx) = (ca * x, ba * xx);
    assert(a * (cx + bx + x3) == a * cx + a * bx + a * x3) by (nonlinear_arith);
    assert(a * cx == c * x) by (nonlinear_arith) requires cx == ca * x, ca * a == c;
    assert(a * bx == b * xx) by (nonlinear_arith) requires bx == ba * xx, ba * a == b;
}
/// the only coefficient that is not zero is that of degree n
pub open spec fn alone(c: F, n: int) -> bool { c(n) != 0real && forall|d: int| d != n ==> #[trigger] c(d) == 0real }
pub proof fn alone_one(c: F)
    ensures forall|s: Seq<(Z, usize)>, n: int| #[trigger] is_terms(s, c) && #[trigger] alone(c, n) ==> s.len() == 1 && s[0].1 == n
{
    assert forall|s: Seq<(Z, usize)>, n: int| #[trigger] is_terms(s, c) && #[trigger] alone(c, n) implies s.len() == 1 && s[0].1 == n by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == n;
        if s.len() > 1 { let j = if i == 0 { 1int } else { 0int }; assert(s[j].0.v() == c(s[j].1 as int)); assert(s[0].1 > s[1].1); if i > 1 { assert(s[0].1 > s[i].1); } }
    }
}
pub open spec fn only_zero(r: Roots<Z>) -> bool { r is ManyRealRoots && r->ManyRealRoots_0@.len() == 1 && r->ManyRealRoots_0@[0].v() == 0real }
/// the roots reported for a polynomial of degree 3
pub open spec fn three_of(c: F, r: Roots<Z>) -> bool {
    match r {
        Roots::ManyRealRoots(v) => (v@.len() == 1 && v@[0].v() == 0real && c(2) == 0real && c(1) == 0real && c(0) == 0real) || (v@.len() == 3 && cubic_ok(c(3), c(2), c(1), c(0), Roots::ThreeRealRoots(v@[0], v@[1], v@[2]))),
        Roots::ManyComplexRoots(v) => v@.len() == 3 && cubic_ok(c(3), c(2), c(1), c(0), Roots::ThreeComplexRoots(v@[0], v@[1], v@[2])),
        _ => false,
    }
}
pub open spec fn root3(a: real, b: real, c: real, d: real, x: real) -> bool { a * cube(x) + b * (x * x) + c * x + d == 0real }
pub proof fn deflated(a: real, b: real, c: real, d: real)
    requires a != 0real, exact_div()
    ensures forall|x: real, l: real, e: real, f: real, y: real, z: real| #[trigger] root3(a, b, c, d, x) && l == 1real && e == quo(b, a) + x && f == quo(c, a) + e * x && #[trigger] vieta(l, e, f, y, z) ==> vieta3(a, b, c, d, x, y, z),
        forall|w: Complex<Z>, l: real, e: real, f: real, y: Complex<Z>, z: Complex<Z>| root3(a, b, c, d, w.re.v()) && w.im.v() == 0real && l == 1real && e == quo(b, a) + w.re.v() && f == quo(c, a) + e * w.re.v()
            && #[trigger] vieta_c(l, e, f, y.re.v(), y.im.v(), z.re.v(), z.im.v()) ==> #[trigger] vieta3_c(a, b, c, d, w, y, z),
{
    quo_exact(b, a); quo_exact(c, a);
    let (ba, ca) = (quo(b, a), quo(c, a));
    assert forall|x: real, l: real, e: real, f: real, y: real, z: real| #[trigger] root3(a, b, c, d, x) && l == 1real && e == quo(b, a) + x && f == quo(c, a) + e * x && #[trigger] vieta(l, e, f, y, z) implies vieta3(a, b, c, d, x, y, z) by {
        let (s, p) = (y + z, y * z);
        assert(s == -e && p == f) by (nonlinear_arith) requires 1real * s == -e, 1real * p == f;
        deflate(a, b, c, d, x, ba, ca, s, p);
    }
    assert forall|w: Complex<Z>, l: real, e: real, f: real, y: Complex<Z>, z: Complex<Z>| root3(a, b, c, d, w.re.v()) && w.im.v() == 0real && l == 1real && e == quo(b, a) + w.re.v() && f == quo(c, a) + e * w.re.v()
            && #[trigger] vieta_c(l, e, f, y.re.v(), y.im.v(), z.re.v(), z.im.v()) implies #[trigger] vieta3_c(a, b, c, d, w, y, z) by {
        let x = w.re.v();
        let (s, p) = (y.re.v() + z.re.v(), y.re.v() * z.re.v() - y.im.v() * z.im.v());
        assert(s == -e && p == f) by (nonlinear_arith) requires 1real * s == -e, 1real * p == f;
        deflate(a, b, c, d, x, ba, ca, s, p);
        let (si, pi) = (y.im.v() + z.im.v(), y.re.v() * z.im.v() + y.im.v() * z.re.v());
        mul0(0real, si); mul0(0real, s); mul0(x, si); mul0(0real, pi); mul0(x, pi); mul0(0real, p);
    }
}
/// the depressed cubic t^3 + 3 m t - 2 q, shifted by p; its discriminant
pub open spec fn dp_p(a: real, b: real) -> real { quo(-b, 3real * a) }
pub open spec fn dp_q(a: real, b: real, c: real, d: real) -> real { cube(dp_p(a, b)) + quo(b * c - 3real * a * d, 6real * (a * a)) }
pub open spec fn dp_m(a: real, b: real, c: real) -> real { quo(c, 3real * a) - dp_p(a, b) * dp_p(a, b) }
pub open spec fn dp_k(a: real, b: real, c: real, d: real) -> real { dp_q(a, b, c, d) * dp_q(a, b, c, d) + cube(dp_m(a, b, c)) }
pub proof fn shifted(a: real, b: real, c: real, d: real, t: real)
    requires a != 0real, exact_div(), cube(t) + 3real * (dp_m(a, b, c) * t) - 2real * dp_q(a, b, c, d) == 0real
    ensures root3(a, b, c, d, t + dp_p(a, b))
{
    let (p, q, r) = (dp_p(a, b), dp_q(a, b, c, d), quo(c, 3real * a));
    let aa = a * a;
    assert(aa != 0real) by (nonlinear_arith) requires aa == a * a, a != 0real;
    quo_exact(-b, 3real * a); quo_exact(c, 3real * a); quo_exact(b * c - 3real * a * d, 6real * aa);
    unshift(a, b, c, d, p, q, r, t + p);
}
pub proof fn one_root(a: real, b: real, c: real, d: real)
    requires a != 0real, exact_div(), dp_k(a, b, c, d) >= 0real
    ensures forall|k: real, u: real, v: real, g: real, h: real| sq(k) == dp_k(a, b, c, d) && g == dp_q(a, b, c, d) + k && h == dp_q(a, b, c, d) - k && #[trigger] is_cbrt(u, g) && #[trigger] is_cbrt(v, h) && #[trigger] is_sqrt(k) ==> root3(a, b, c, d, u + v + dp_p(a, b))
{
    assert forall|k: real, u: real, v: real, g: real, h: real| sq(k) == dp_k(a, b, c, d) && g == dp_q(a, b, c, d) + k && h == dp_q(a, b, c, d) - k && #[trigger] is_cbrt(u, g) && #[trigger] is_cbrt(v, h) && #[trigger] is_sqrt(k) implies root3(a, b, c, d, u + v + dp_p(a, b)) by {
        cardano(dp_m(a, b, c), dp_q(a, b, c, d), k, u, v);
        shifted(a, b, c, d, u + v);
    }
}
pub proof fn three_roots(a: real, b: real, c: real, d: real)
    requires a != 0real, exact_div(), dp_k(a, b, c, d) < 0real
    ensures forall|s: real| #[trigger] is_sqrt(s) && sq(s) == rabs(dp_m(a, b, c)) && s >= 0real ==> cube(s) != 0real && rabs(quo(dp_q(a, b, c, d), cube(s))) <= 1real,
        forall|s: real, y: real, g: real| #[trigger] is_sqrt(s) && sq(s) == rabs(dp_m(a, b, c)) && s >= 0real && g == quo(dp_q(a, b, c, d), cube(s)) && #[trigger] is_third(y, g) ==> root3(a, b, c, d, 2real * s * y + dp_p(a, b))
{
    let (m, q) = (dp_m(a, b, c), dp_q(a, b, c, d));
    assert(m < 0real) by (nonlinear_arith) requires q * q + m * m * m < 0real;
    assert forall|s: real| #[trigger] is_sqrt(s) && sq(s) == rabs(m) && s >= 0real implies cube(s) != 0real && rabs(quo(q, cube(s))) <= 1real by { in_range(m, q, s); }
    assert forall|s: real, y: real, g: real| #[trigger] is_sqrt(s) && sq(s) == rabs(m) && s >= 0real && g == quo(q, cube(s)) && #[trigger] is_third(y, g) implies root3(a, b, c, d, 2real * s * y + dp_p(a, b)) by {
        in_range(m, q, s);
        quo_exact(q, cube(s));
        let z = cube(s);
        assert(z * g == g * z) by (nonlinear_arith);
        angle(m, q, s, y, 2real * s * y);
        shifted(a, b, c, d, 2real * s * y);
    }
}
pub proof fn in_range(m: real, q: real, s: real)
    requires m < 0real, q * q + cube(m) < 0real, sq(s) == rabs(m), s >= 0real, exact_div()
    ensures cube(s) != 0real, s > 0real, rabs(quo(q, cube(s))) <= 1real
{
    if s == 0real { mul0(s, s); }
    let z = cube(s);
    assert(z > 0real) by (nonlinear_arith) requires z == s * s * s, s > 0real;
    quo_exact(q, z);
    let g = quo(q, z); let w = s * s;
    assert(z * z == w * w * w) by (nonlinear_arith) requires z == s * s * s, w == s * s;
    assert(w * w * w == -(m * m * m)) by (nonlinear_arith) requires w == -m;
    assert(q * q < z * z);
    assert(q < z && q > -z) by (nonlinear_arith) requires q * q < z * z, z > 0real;
    assert(g <= 1real) by (nonlinear_arith) requires g * z < z, z > 0real;
    assert(g >= -1real) by (nonlinear_arith) requires g * z > -z, z > 0real;
}
%fn find_roots::cubic_roots
%props C22
%params a b c d
%requires
    a.v() != 0real,
    exact_div(),
%ensures
    cubic_ok(a.v(), b.v(), c.v(), d.v(), r),
%at fn.start
    proof {
        let (p, q, s, t) = (a.v(), b.v(), c.v(), d.v());
        assert(p * p != 0real) by (nonlinear_arith) requires p != 0real;
        deflated(p, q, s, t);
        if dp_k(p, q, s, t) >= 0real { one_root(p, q, s, t); } else { three_roots(p, q, s, t); }
    }
%fn find_roots::find_roots_special
%props C19 C21 C22
%params poly
%requires
    exists|c: F| #[trigger] is_terms(poly@, c),
    exact_div(),
%ensures
    poly@.len() == 0 ==> r is Some && r->Some_0 is InfiniteRoots,
[C19]     poly@.len() == 1 && poly@[0].1 > 0 ==> r is Some && only_zero(r->Some_0),
[C19]     forall|c: F| #[trigger] is_terms(poly@, c) && poly@.len() > 0 && poly@[0].1 <= 2 ==> r is Some && low_roots(c, poly@[0].1 as int, r->Some_0),
[C21]     (r is None) == (poly@.len() > 1 && poly@[0].1 >= 4),
[C22]     forall|c: F| #[trigger] is_terms(poly@, c) && poly@.len() > 0 && poly@[0].1 == 3 ==> r is Some && three_of(c, r->Some_0),
%at fn.start
    proof { broadcast use quo_exact; lk_all(poly@); mul0(0real, 0real); assert forall|x: real| #[trigger] sq(x) >= 0real by { assert(x * x >= 0real) by (nonlinear_arith); }
        if poly@.len() > 0 { let p = poly@[0].0.v(); mul0(p, 0real); mul0(p * 0real, 4real); } }
%raw find_roots
// ---------------------------------------------------------------------------------------------------- degree four and more
pub struct SearchError { }
/// the roots among the answers
pub open spec fn found(s: Seq<Result<Z, SearchError>>, k: int) -> Seq<Z> decreases k {
    if k <= 0 { Seq::empty() } else { match s[k - 1] { Ok(x) => found(s, k - 1).push(x), Err(_) => found(s, k - 1) } }
}
/// the value of a dense polynomial
pub open spec fn ev(t: Seq<Z>, x: real) -> real { evald(dcf(t), t.len() as int, x) }
/// x^n + a[0] x^(n-1) + ... + a[n-1]
pub open spec fn monic(a: Seq<Z>, x: real) -> real { rpow(x, a.len()) + ev(a, x) }
pub open spec fn distinct(s: Seq<Z>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).v() != (#[trigger] s[j]).v() }
pub open spec fn holds_v(s: Seq<Z>, x: real) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == x }
/// all real roots of the polynomial, each once
pub open spec fn isolated(a: Seq<Z>, s: Seq<Z>) -> bool {
    &&& distinct(s)
    &&& forall|i: int| 0 <= i < s.len() ==> monic(a, (#[trigger] s[i]).v()) == 0real
    &&& forall|x: real| #[trigger] monic(a, x) == 0real ==> holds_v(s, x)
}
/// The dependency `roots`: assumed to find the real roots of the monic polynomial it is given, each once.
#[verifier::external_body]
pub fn find_roots_sturm(a: &[Z], convergency: Z) -> (r: Vec<Result<Z, SearchError>>)
    requires 0real < convergency.v() <= 0.00000001real
    ensures isolated(a@, found(r@, r@.len() as int))
{ unimplemented!() }
/// (x - s[0]) ... (x - s[k - 1])
pub open spec fn prodx(s: Seq<Z>, k: int, x: real) -> real decreases k { if k <= 0 { 1real } else { prodx(s, k - 1, x) * (x - s[k - 1].v()) } }
pub open spec fn pr(s: Seq<Z>, x: real) -> real { prodx(s, s.len() as int, x) }
/// the polynomial c of degree n is k times the linear factors of the roots times q
pub open spec fn split(c: F, n: int, roots: Seq<Z>, q: Seq<Z>, k: real) -> bool {
    forall|x: real| #[trigger] evald(c, n + 1, x) == k * (pr(roots, x) * ev(q, x))
}
pub open spec fn full(c: F, n: int, roots: Seq<Z>) -> bool { forall|x: real| #[trigger] evald(c, n + 1, x) == c(n) * pr(roots, x) }
pub open spec fn rest_ok(c: F, n: int, roots: Seq<Z>, q: Seq<Z>, k: real) -> bool {
    q.len() + roots.len() == n + 1 && split(c, n, roots, q, k) && forall|x: real| #[trigger] ev(q, x) != 0real
}
/// what roots() promises of a polynomial of degree n, four or more: all its linear factors, or those there are and a
/// rest that is never zero
pub open spec fn many_ok(c: F, n: int, r: Roots<Z>) -> bool {
    match r {
        Roots::ManyRealRoots(v) => v@.len() == n && full(c, n, v@),
        Roots::OnlyRealRoots(v) => v@.len() > 0 && exists|q: Seq<Z>, k: real| k != 0real && #[trigger] rest_ok(c, n, v@, q, k),
        Roots::NoRoots => forall|x: real| #[trigger] evald(c, n + 1, x) != 0real,
        _ => false,
    }
}
pub open spec fn two_terms(c: F, n: int) -> bool { exists|d: int| d < n && #[trigger] c(d) != 0real }
/// the quotient so far
pub open spec fn partial(v0: Seq<Z>, root: real, q: Seq<Z>, v: Seq<Z>) -> bool {
    forall|x: real| #[trigger] ev(v0, x) == (x - root) * ev(q, x) + ev(v, x)
}
pub open spec fn deflates(v: Seq<Z>, root: real, q: Seq<Z>) -> bool {
    forall|x: real| #[trigger] ev(v, x) == (x - root) * ev(q, x) + ev(v, root)
}
pub open spec fn moved(w: Seq<Z>, v: Seq<Z>, k: int, s: real, t: real) -> bool {
    w.len() == v.len() && forall|d: int| #[trigger] dc(w, d) == dc(v, d) + (if d == k { -s } else if d == k - 1 { t } else { 0real })
}
pub open spec fn setq(e: Seq<Z>, q: Seq<Z>, k: int, s: real) -> bool {
    e.len() == q.len() && forall|d: int| #[trigger] dc(e, d) == dc(q, d) + (if d == k - 1 { s } else { 0real })
}
pub open spec fn all0(q: Seq<Z>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).v() == 0real }
%raw find_roots only C21
pub proof fn prodx_push(s: Seq<Z>, z: Z, k: int, x: real)
    requires 0 <= k <= s.len()
    ensures prodx(s.push(z), k, x) == prodx(s, k, x)
    decreases k
{ if k > 0 { prodx_push(s, z, k - 1, x); } }
/// one coefficient changes
pub proof fn evald_bump(f: F, g: F, l: int, k: int, m: real, x: real)
    requires 0 <= k < l, forall|d: int| 0 <= d < l ==> #[trigger] g(d) == f(d) + (if d == k { m } else { 0real })
    ensures evald(g, l, x) == evald(f, l, x) + m * rpow(x, k as nat)
{
    let a = |d: int| f(d) * rpow(x, d as nat);
    let b = |d: int| if d == k { m * rpow(x, d as nat) } else { 0real };
    let c = |d: int| g(d) * rpow(x, d as nat);
    assert forall|i: int| 0 <= i < l implies #[trigger] c(i) == a(i) + b(i) by {
        let p = rpow(x, i as nat); let u = f(i);
        assert(g(i) == f(i) + (if i == k { m } else { 0real }));
        assert((u + m) * p == u * p + m * p) by (nonlinear_arith);
    }
    sum_add(a, b, c, 0, l);
    sum_one(b, 0, k, l);
}
pub proof fn evald_scale(f: F, g: F, l: int, k: real, x: real)
    requires 0 <= l, forall|d: int| 0 <= d < l ==> #[trigger] f(d) == g(d) * k
    ensures evald(f, l, x) == k * evald(g, l, x)
{
    let a = |d: int| f(d) * rpow(x, d as nat);
    let b = |d: int| g(d) * rpow(x, d as nat);
    assert forall|i: int| 0 <= i < l implies #[trigger] a(i) == k * b(i) by { let p = rpow(x, i as nat); let u = g(i); assert(f(i) == g(i) * k); assert((u * k) * p == k * (u * p)) by (nonlinear_arith); }
    sum_scale(b, k, a, 0, l);
}
pub proof fn div_arith(x: real, root: real, s: real, t: real, p: real, a: real, b: real, e: real, v: real, w: real)
    requires b == (x - root) * a + v, e == a + s * p, w == v + (-s) * (x * p) + t * p, t == root * s
    ensures b == (x - root) * e + w
{
    assert((x - root) * (a + s * p) + (-s) * (x * p) + (root * s) * p == (x - root) * a) by (nonlinear_arith);
}
pub proof fn div_one(v0: Seq<Z>, root: real, q: Seq<Z>, v: Seq<Z>, k: int, s: real, t: real, e: Seq<Z>, w: Seq<Z>)
    requires partial(v0, root, q, v), 1 <= k <= q.len(), k < v.len(), moved(w, v, k, s, t), setq(e, q, k, s), t == root * s
    ensures partial(v0, root, e, w)
{
    assert forall|x: real| #[trigger] ev(v0, x) == (x - root) * ev(e, x) + ev(w, x) by {
        let mid = |d: int| dc(v, d) + (if d == k { -s } else { 0real });
        evald_bump(dcf(v), mid, v.len() as int, k, -s, x);
        evald_bump(mid, dcf(w), v.len() as int, k - 1, t, x);
        evald_bump(dcf(q), dcf(e), q.len() as int, k - 1, s, x);
        let p = rpow(x, (k - 1) as nat);
        assert(rpow(x, k as nat) == x * p);
        assert(ev(v0, x) == (x - root) * ev(q, x) + ev(v, x));
        div_arith(x, root, s, t, p, ev(q, x), ev(v0, x), ev(e, x), ev(v, x), ev(w, x));
    }
}
pub proof fn div_step(v0: Seq<Z>, root: real, q: Seq<Z>, v: Seq<Z>, k: int, s: real)
    requires partial(v0, root, q, v), 1 <= k <= q.len(), k < v.len()
    ensures forall|e: Seq<Z>, w: Seq<Z>| moved(w, v, k, s, root * s) && setq(e, q, k, s) ==> #[trigger] partial(v0, root, e, w),
        top(dcf(v), k) && s == dc(v, k) ==> forall|w: Seq<Z>, n: int| #[trigger] top(dcf(w), n) && moved(w, v, k, s, root * s) ==> n < k
{
    assert(top(dcf(v), k) && s == dc(v, k) ==> forall|w: Seq<Z>, n: int| #[trigger] top(dcf(w), n) && moved(w, v, k, s, root * s) ==> n < k) by {
        if top(dcf(v), k) && s == dc(v, k) {
            assert forall|w: Seq<Z>, n: int| #[trigger] top(dcf(w), n) && moved(w, v, k, s, root * s) implies n < k by { assert(dcf(w)(n) == dc(w, n)); if n >= k { assert(n > k ==> dcf(v)(n) == 0real); } }
        }
    }
    assert forall|e: Seq<Z>, w: Seq<Z>| moved(w, v, k, s, root * s) && setq(e, q, k, s) implies #[trigger] partial(v0, root, e, w) by { div_one(v0, root, q, v, k, s, root * s, e, w); }
}
/// what is left is a constant, the value at the root
pub proof fn div_last(v0: Seq<Z>, root: real, q: Seq<Z>, v: Seq<Z>)
    requires partial(v0, root, q, v), forall|d: int| d >= 1 ==> #[trigger] dcf(v)(d) == 0real
    ensures deflates(v0, root, q)
{
    assert forall|x: real| #[trigger] ev(v, x) == dc(v, 0) by {
        let f = |d: int| dcf(v)(d) * rpow(x, d as nat);
        assert forall|d: int| d >= 1 implies #[trigger] f(d) == 0real by { assert(dcf(v)(d) == 0real); mul0(0real, rpow(x, d as nat)); }
        if v.len() > 0 { sum_one(f, 0, 0, v.len() as int); assert(rpow(x, 0) == 1real); assert(f(0) == dc(v, 0) * 1real); }
    }
    assert forall|x: real| #[trigger] ev(v0, x) == (x - root) * ev(q, x) + ev(v0, root) by {
        assert(ev(v0, root) == (root - root) * ev(q, root) + ev(v, root)); mul0(root - root, ev(q, root));
        assert(ev(v, x) == ev(v, root));
    }
}
pub proof fn part_start(v: Seq<Z>, root: real)
    ensures forall|q: Seq<Z>| all0(q) ==> #[trigger] partial(v, root, q, v)
{
    assert forall|q: Seq<Z>| all0(q) implies #[trigger] partial(v, root, q, v) by {
        assert forall|x: real| #[trigger] ev(v, x) == (x - root) * ev(q, x) + ev(v, x) by {
            let n = q.len() as int;
            let f = |d: int| dcf(q)(d) * rpow(x, d as nat);
            assert forall|d: int| 0 <= d < n implies #[trigger] f(d) == 0real by { assert(q[n - 1 - d].v() == 0real); mul0(0real, rpow(x, d as nat)); }
            sum_zero(f, 0, n); mul0(x - root, 0real);
        }
    }
}
%fn find_roots::div
%props C21
%params values root
%attr
#[verifier::allow_complex_invariants]
%ensures
    forall|n: int| #[trigger] top(dcf(old(values)@), n) ==> r@.len() == (if n == 1 { 0 } else { n }) && (n > 1 ==> r@[0].v() == dc(old(values)@, n) && deflates(old(values)@, root.v(), r@)),
    (forall|d: int| #[trigger] dcf(old(values)@)(d) == 0real) ==> r@.len() == 0,
%at fn.start
    let ghost v0 = values@;
    let ghost rt = root.v();
    proof { broadcast use slice_len_ax; dense_facts(); assert forall|a: real| #[trigger] quo(a, 1real) == a by { quo_one(a); } 
        part_start(v0, rt); }
%loop 0
    invariant_except_break
        top(dcf(values@), self_degree as int),
        coeff.v() == dcf(values@)(self_degree as int),
        forall|i: int| offset - self_degree <= i < offset ==> (#[trigger] div@[i]).v() == 0real,
    invariant
        rt == root.v(), values@.len() == v0.len(), div@.len() == offset, self_degree <= offset, offset < v0.len(),
        partial(v0, rt, div@, values@), top(dcf(v0), offset as int), offset != 1,
        self_degree < offset ==> div@[0].v() == dc(v0, offset as int),
        self_degree == offset ==> coeff.v() == dc(v0, offset as int),
    ensures
        offset > 0 ==> div@[0].v() == dc(v0, offset as int),
        forall|d: int| d >= 1 ==> #[trigger] dcf(values@)(d) == 0real,
%decreases 0
    self_degree,
%at loop.0.start
    proof { div_step(v0, rt, div@, values@, self_degree as int, coeff.v()); }
%at fn.end
    proof { div_last(v0, rt, div@, values@); }
%raw find_roots only C21
pub proof fn norm_done(v: Seq<Z>, w: Seq<Z>, f: int)
    requires exact_div(), lead(v, f), f < v.len(), w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).v() == (if f <= i { quo(v[i].v(), v[f].v()) } else { v[i].v() })
    ensures forall|k: int| #[trigger] lead(v, k) && k < v.len() ==> normed(v, w, v[k].v())
{
    assert forall|k: int| #[trigger] lead(v, k) && k < v.len() implies normed(v, w, v[k].v()) by {
        assert(k == f) by { if k < f { assert(v[k].v() == 0real); } if f < k { assert(v[f].v() == 0real); } }
        let x = v[f].v();
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] w[i]).v() * x == v[i].v() by {
            if f <= i { quo_exact(v[i].v(), x); } else { mul0(0real, x); }
        }
    }
}
%raw find_roots
pub open spec fn normed(v: Seq<Z>, w: Seq<Z>, x: real) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).v() * x == v[i].v() }
%fn find_roots::normalize
%props C21
%params values
%requires
    exact_div(),
%ensures
    final(values)@.len() == old(values)@.len(),
    forall|k: int| #[trigger] lead(old(values)@, k) && k < old(values)@.len() ==> normed(old(values)@, final(values)@, old(values)@[k].v()),
%at fn.start
    let ghost v0 = values@;
    proof { broadcast use slice_len_ax; }
%at loop.0.after
    proof { norm_done(v0, values@, f_i as int); }
%loop 0
    values@.len() == v0.len(), lead(v0, f_i as int), f_i < v0.len(), first.v() == v0[f_i as int].v(),
    forall|i: int| 0 <= i < v0.len() ==> (#[trigger] values@[i]).v() == (if f_i <= i < f_i + __i0 { quo(v0[i].v(), first.v()) } else { v0[i].v() }),
%raw find_roots
pub open spec fn stage(c: F, n: int, roots: Seq<Z>, nv: Seq<Z>, k: real) -> bool {
    k != 0real && nv.len() >= 2 && nv[0].v() != 0real && k * nv[0].v() == c(n) && nv.len() + roots.len() == n + 1 && split(c, n, roots, nv, k)
}
/// values, but for its first, are those of nv over the leading one
pub open spec fn scaled(values: Seq<Z>, nv: Seq<Z>) -> bool {
    values.len() == nv.len() && forall|i: int| 1 <= i < nv.len() ==> (#[trigger] values[i]).v() * nv[0].v() == nv[i].v()
}
pub open spec fn quots(s: Seq<Z>, t: Seq<Z>, l: real, k: int) -> bool { s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).v() == quo(t[i].v(), l) }
pub open spec fn zeros_from(nv: Seq<Z>, t: Seq<Z>, i: int) -> bool { forall|j: int| i <= j < t.len() ==> ev(nv, (#[trigger] t[j]).v()) == 0real }
pub open spec fn under_way(c: F, n: int, roots: Seq<Z>, nv: Seq<Z>, k: real, t: Seq<Z>, i: int, l: int) -> bool {
    if nv.len() == 0 { i == t.len() && roots.len() == n && full(c, n, roots) } else { stage(c, n, roots, nv, k) && nv.len() + i == l && zeros_from(nv, t, i) }
}
%raw find_roots only C21
pub proof fn terms_step(s: Seq<(Z, usize)>, c: F, j: int)
    requires is_terms(s, c), 0 <= j < s.len() - 1
    ensures s[j + 1].1 < s[j].1 <= s[0].1, c(s[j + 1].1 as int) == s[j + 1].0.v(), forall|d: int| s[j + 1].1 < d < s[j].1 ==> #[trigger] c(d) == 0real
{
    if j > 0 { assert(s[0].1 > s[j].1); }
    assert(s[j].1 > s[j + 1].1);
    assert forall|d: int| s[j + 1].1 < d < s[j].1 implies #[trigger] c(d) == 0real by {
        if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; if i < j { assert(s[i].1 > s[j].1); } if i > j + 1 { assert(s[j + 1].1 > s[i].1); } }
    }
}
pub proof fn terms_ends(s: Seq<(Z, usize)>, c: F)
    requires is_terms(s, c), s.len() > 0
    ensures top(c, s[0].1 as int), c(s[0].1 as int) == s[0].0.v(), forall|d: int| d < s[s.len() - 1].1 ==> #[trigger] c(d) == 0real
{
    assert(s[0].0.v() == c(s[0].1 as int));
    assert forall|d: int| d < s[s.len() - 1].1 implies #[trigger] c(d) == 0real by {
        if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; if i < s.len() - 1 { assert(s[i].1 > s[s.len() - 1].1); } }
    }
    assert forall|d: int| d > s[0].1 implies #[trigger] c(d) == 0real by {
        if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; if i > 0 { assert(s[0].1 > s[i].1); } }
    }
}
pub proof fn monic_scaled(values: Seq<Z>, nv: Seq<Z>, a: Seq<Z>, x: real)
    requires scaled(values, nv), nv.len() >= 1, a.len() == values.len() - 1, forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == values[i + 1]
    ensures ev(nv, x) == nv[0].v() * monic(a, x)
{
    let l = nv[0].v();
    let m = a.len() as int;
    let g = |d: int| if d == m { 1real } else { dc(a, d) };
    assert forall|d: int| 0 <= d < m + 1 implies #[trigger] dcf(nv)(d) == g(d) * l by {
        if d == m { assert(1real * l == l); } else { assert(a[m - 1 - d] == values[m - d]); assert(values[m - d].v() * nv[0].v() == nv[m - d].v()); }
    }
    evald_scale(dcf(nv), g, m + 1, l, x);
    let h = |d: int| g(d) * rpow(x, d as nat);
    let h2 = |d: int| dcf(a)(d) * rpow(x, d as nat);
    assert(sum(h, 0, m + 1) == sum(h, 0, m) + h(m));
    sum_ext(h, h2, 0, m);
    assert(1real * rpow(x, m as nat) == rpow(x, m as nat));
}
/// what the isolated roots mean at one stage
pub proof fn stage_roots(c: F, n: int, roots: Seq<Z>, nv: Seq<Z>, k: real, values: Seq<Z>)
    requires stage(c, n, roots, nv, k), scaled(values, nv)
    ensures forall|a: Seq<Z>, s: Seq<Z>| #[trigger] isolated(a, s) && a =~= values.subrange(1, values.len() as int) ==> distinct(s) && zeros_from(nv, s, 0)
        && (s.len() == 0 ==> rest_ok(c, n, roots, nv, k) && (roots.len() == 0 ==> forall|x: real| #[trigger] evald(c, n + 1, x) != 0real))
{
    assert forall|a: Seq<Z>, s: Seq<Z>| #[trigger] isolated(a, s) && a =~= values.subrange(1, values.len() as int) implies distinct(s) && zeros_from(nv, s, 0)
        && (s.len() == 0 ==> rest_ok(c, n, roots, nv, k) && (roots.len() == 0 ==> forall|x: real| #[trigger] evald(c, n + 1, x) != 0real)) by {
        let l = nv[0].v();
        assert forall|j: int| 0 <= j < s.len() implies ev(nv, (#[trigger] s[j]).v()) == 0real by { let x = s[j].v(); monic_scaled(values, nv, a, x); mul0(l, monic(a, x)); }
        if s.len() == 0 {
            assert forall|x: real| #[trigger] ev(nv, x) != 0real by {
                monic_scaled(values, nv, a, x);
                let m = monic(a, x);
                if m == 0real { assert(holds_v(s, x)); }
                assert(l * m != 0real) by (nonlinear_arith) requires l != 0real, m != 0real;
            }
            if roots.len() == 0 {
                assert forall|x: real| #[trigger] evald(c, n + 1, x) != 0real by {
                    let e = ev(nv, x);
                    assert(evald(c, n + 1, x) == k * (pr(roots, x) * ev(nv, x)));
                    assert(k * (1real * e) != 0real) by (nonlinear_arith) requires k != 0real, e != 0real;
                }
            }
        }
    }
}
pub proof fn line(nv: Seq<Z>, x: real)
    requires nv.len() == 2
    ensures ev(nv, x) == nv[0].v() * x + nv[1].v()
{
    let f = |d: int| dcf(nv)(d) * rpow(x, d as nat);
    assert(sum(f, 0, 2) == sum(f, 0, 1) + f(1));
    assert(sum(f, 0, 1) == sum(f, 0, 0) + f(0));
    assert(sum(f, 0, 0) == 0real);
    assert(rpow(x, 0) == 1real && rpow(x, 1) == x * rpow(x, 0));
    assert(x * 1real == x && nv[1].v() * 1real == nv[1].v()) by (nonlinear_arith);
}
/// one root is taken out
pub proof fn next_root(c: F, n: int, roots: Seq<Z>, nv: Seq<Z>, k: real, root: Z, q: Seq<Z>, t: Seq<Z>, i: int, l: int)
    requires under_way(c, n, roots, nv, k, t, i, l), distinct(t), 0 <= i < t.len(), t[i].v() == root.v(), nv.len() > 0,
        q.len() == (if nv.len() == 2 { 0 } else { nv.len() - 1 }), nv.len() > 2 ==> q[0].v() == nv[0].v() && deflates(nv, root.v(), q)
    ensures under_way(c, n, roots.push(root), q, k, t, i + 1, l)
{
    let rs = roots.push(root);
    let r = root.v();
    assert(ev(nv, t[i].v()) == 0real);
    assert forall|x: real| #[trigger] pr(rs, x) == pr(roots, x) * (x - r) by { prodx_push(roots, root, roots.len() as int, x); }
    if nv.len() == 2 {
        let (a, b) = (nv[0].v(), nv[1].v());
        line(nv, r);
        if i + 1 < t.len() {
            let y = t[i + 1].v();
            assert(ev(nv, y) == 0real); line(nv, y);
            assert(t[i].v() != t[i + 1].v());
            assert(a * (r - y) == 0real) by (nonlinear_arith) requires a * r + b == 0real, a * y + b == 0real;
            assert(r == y) by (nonlinear_arith) requires a * (r - y) == 0real, a != 0real;
        }
        assert forall|x: real| #[trigger] evald(c, n + 1, x) == c(n) * pr(rs, x) by {
            let p = pr(roots, x);
            assert(evald(c, n + 1, x) == k * (pr(roots, x) * ev(nv, x)));
            line(nv, x);
            let e = ev(nv, x); let u = x - r; let m = k * a;
            assert(pr(rs, x) == p * u);
            assert(e == a * u) by (nonlinear_arith) requires e == a * x + b, a * r + b == 0real, u == x - r;
            assert(k * (p * e) == m * (p * u)) by (nonlinear_arith) requires e == a * u, m == k * a;
        }
    } else {
        assert forall|x: real| #[trigger] evald(c, n + 1, x) == k * (pr(rs, x) * ev(q, x)) by {
            assert(evald(c, n + 1, x) == k * (pr(roots, x) * ev(nv, x)));
            assert(ev(nv, x) == (x - r) * ev(q, x) + ev(nv, r));
            let (p, u, e, w) = (pr(roots, x), x - r, ev(q, x), ev(nv, x));
            assert(pr(rs, x) == p * u);
            assert(k * (p * w) == k * ((p * u) * e)) by (nonlinear_arith) requires w == u * e;
        }
        assert forall|j: int| i + 1 <= j < t.len() implies ev(q, (#[trigger] t[j]).v()) == 0real by {
            let y = t[j].v();
            assert(ev(nv, y) == 0real);
            assert(t[i].v() != t[j].v());
            assert(ev(nv, y) == (y - r) * ev(q, y) + ev(nv, r));
            let (u, e) = (y - r, ev(q, y));
            assert(e == 0real) by (nonlinear_arith) requires u * e == 0real, u != 0real;
        }
    }
}
/// the rest is made monic
pub proof fn stage_scale(c: F, n: int, roots: Seq<Z>, nv: Seq<Z>, mv: Seq<Z>, k: real)
    requires stage(c, n, roots, nv, k), mv.len() == nv.len(), forall|i: int| 0 <= i < nv.len() ==> (#[trigger] mv[i]).v() * nv[0].v() == nv[i].v()
    ensures stage(c, n, roots, mv, k * nv[0].v()), mv[0].v() == 1real
{
    let l = nv[0].v();
    let u = mv[0].v();
    assert(u * l == l);
    assert(u == 1real) by (nonlinear_arith) requires u * l == l, l != 0real;
    assert(k * l != 0real) by (nonlinear_arith) requires k != 0real, l != 0real;
    assert((k * l) * 1real == k * l) by (nonlinear_arith);
    assert forall|x: real| #[trigger] evald(c, n + 1, x) == (k * l) * (pr(roots, x) * ev(mv, x)) by {
        assert(evald(c, n + 1, x) == k * (pr(roots, x) * ev(nv, x)));
        assert forall|d: int| 0 <= d < nv.len() implies #[trigger] dcf(nv)(d) == dcf(mv)(d) * l by { assert(mv[nv.len() - 1 - d].v() * nv[0].v() == nv[nv.len() - 1 - d].v()); }
        evald_scale(dcf(nv), dcf(mv), nv.len() as int, l, x);
        let (p, e, w) = (pr(roots, x), ev(mv, x), ev(nv, x));
        assert(k * (p * w) == (k * l) * (p * e)) by (nonlinear_arith) requires w == l * e;
    }
}
pub proof fn same_value(c: F, n: int, bd: int, nv: Seq<Z>, x: real)
    requires top(c, n), 0 <= n, 0 <= bd, nv.len() == n + 1, forall|d: int| d >= bd ==> #[trigger] c(d) == 0real, forall|d: int| 0 <= d <= n ==> #[trigger] dcf(nv)(d) == c(d)
    ensures ev(nv, x) == evald(c, n + 1, x), evald(c, bd, x) == evald(c, n + 1, x)
{ evald_ext(c, n + 1, dcf(nv), n + 1, x); evald_ext(c, n + 1, c, bd, x); }
%fn find_roots::find_roots
%props C19 C21 C22
%cutafter find_roots_special but C21
%params poly
%requires
    exact_div(),
[C21]     forall|d: int| d >= usize::MAX ==> #[trigger] cf(poly)(d) == 0real,
%ensures
    is0(poly) ==> r is InfiniteRoots,
[C19]     forall|n: int| #[trigger] top(cf(poly), n) && n <= 2 ==> low_roots(cf(poly), n, r),
[C19]     forall|n: int| n > 0 && #[trigger] alone(cf(poly), n) ==> only_zero(r),
[C21]     forall|n: int| #[trigger] top(cf(poly), n) && n >= 4 && two_terms(cf(poly), n) ==> many_ok(cf(poly), n, r),
[C22]     top(cf(poly), 3) ==> three_of(cf(poly), r),
%at fn.start
    proof { alone_one(cf(poly)); }
[C21]    proof { broadcast use quo_exact; broadcast use vec_len_ax; poly.bd_law();
[C21]        assert forall|s: Seq<(Z, usize)>| #[trigger] is_terms(s, cf(poly)) && is0(poly) implies s.len() == 0 by { if s.len() > 0 { assert(cf(poly)(s[0].1 as int) == s[0].0.v()); assert(poly.c(s[0].1 as int) == 0real); } } }
[C21]    let ghost c = cf(poly);
[C21]    let ghost mut n = 0int;
[C21]    let ghost mut kk = 1real;
[C21]    let ghost mut nv2 = Seq::<Z>::empty();
%at loop.0.before
[C21]    proof { n = degree as int; terms_ends(vals@, c); }
%loop 0
[C21]    nvalues@.len() == n + 1, values@.len() == n + 1, leading.v() == c(n), nvalues@[0].v() == c(n),
[C21]    forall|i: int| 1 <= i <= n ==> (#[trigger] values@[i]).v() * leading.v() == nvalues@[i].v(),
[C21]    forall|i: int| 0 <= i <= n ==> (#[trigger] nvalues@[i]).v() == (if n - i >= vals@[__i0 as int].1 { c(n - i) } else { 0real }),
%at loop.0.start
[C21]    proof { terms_step(vals@, c, __i0 - 1); }
%at loop.1.before
[C21]    proof {
[C21]        assert forall|d: int| 0 <= d <= n implies #[trigger] dcf(nvalues@)(d) == c(d) by { assert(nvalues@[n - d].v() == (if d >= vals@[vals@.len() - 1].1 { c(d) } else { 0real })); }
[C21]        assert forall|x: real| #[trigger] evald(c, n + 1, x) == 1real * (pr(roots@, x) * ev(nvalues@, x)) by { same_value(c, n, poly.bd(), nvalues@, x); assert(1real * (1real * ev(nvalues@, x)) == ev(nvalues@, x)); }
[C21]        assert(stage(c, n, roots@, nvalues@, kk));
[C21]    }
%loop 1
[C21]    stage(c, n, roots@, nvalues@, kk), scaled(values@, nvalues@), n >= 4, top(c, n),
%decreases 1
[C21]    nvalues@.len(),
%at loop.1.start
[C21]    let ghost l = nvalues@.len() as int;
[C21]    proof { stage_roots(c, n, roots@, nvalues@, kk, values@); }
%loop 2
[C21]    __c1@ == found(__s2.s(), __i2 as int),
%at loop.3.before
[C21]    let ghost t = __s3.s();
%loop 3
[C21]    t == __s3.s(), distinct(t), under_way(c, n, roots@, nvalues@, kk, t, __i3 as int, l),
%at loop.3.start
[C21]    let ghost (rs1, nv1) = (roots@, nvalues@);
[C21]    proof {
[C21]        assert(ev(nv1, t[__i3 - 1].v()) == 0real);
[C21]        let x = root.v(); evald_ext(c, n + 1, c, poly.bd(), x);
[C21]        assert(evald(c, n + 1, x) == kk * (pr(rs1, x) * ev(nv1, x))); mul0(pr(rs1, x), 0real); mul0(kk, 0real);
[C21]        assert(top(dcf(nv1), nv1.len() - 1)) by { assert(dcf(nv1)(nv1.len() - 1) == nv1[0].v()); }
[C21]    }
%at loop.3.end
[C21]    proof { next_root(c, n, rs1, nv1, kk, root, nvalues@, t, __i3 - 1, l); }
%at loop.3.after
[C21]    proof { nv2 = nvalues@; }
%at loop.4.before
[C21]    proof { if nvalues@ != nv2 { assert(lead(nv2, 0)); stage_scale(c, n, roots@, nv2, nvalues@, kk); kk = kk * nv2[0].v(); } }
%loop 4
[C21]    quots(__c2@, nvalues@, leading.v(), __i4 as int),
%fn Polynomial<f64>::roots
%props C19 C21 C22
%requires
    exact_div(),
[C21]     forall|d: int| d >= usize::MAX ==> #[trigger] cf(&self)(d) == 0real,
%ensures
    is0(&self) ==> r is InfiniteRoots,
[C19]     forall|n: int| #[trigger] top(cf(&self), n) && n <= 2 ==> low_roots(cf(&self), n, r),
[C19]     forall|n: int| n > 0 && #[trigger] alone(cf(&self), n) ==> only_zero(r),
[C21]     forall|n: int| #[trigger] top(cf(&self), n) && n >= 4 && two_terms(cf(&self), n) ==> many_ok(cf(&self), n, r),
[C22]     top(cf(&self), 3) ==> three_of(cf(&self), r),
%fn SparsePolynomial<f64>::roots
%props C19 C21 C22
%requires
    exact_div(),
[C21]     forall|d: int| d >= usize::MAX ==> #[trigger] cf(&self)(d) == 0real,
%ensures
    is0(&self) ==> r is InfiniteRoots,
[C19]     forall|n: int| #[trigger] top(cf(&self), n) && n <= 2 ==> low_roots(cf(&self), n, r),
[C19]     forall|n: int| n > 0 && #[trigger] alone(cf(&self), n) ==> only_zero(r),
[C21]     forall|n: int| #[trigger] top(cf(&self), n) && n >= 4 && two_terms(cf(&self), n) ==> many_ok(cf(&self), n, r),
[C22]     top(cf(&self), 3) ==> three_of(cf(&self), r),
%fn Monomial::root
%props C19
%ensures
    is0(self) ==> r is InfiniteRoots,
    self.coefficient.v() != 0real && self.deg == 0 ==> r is NoRoots,
    self.coefficient.v() != 0real && self.deg > 0 ==> r is OneRealRoot && r->OneRealRoot_0.v() == 0real,
%at fn.start
    proof { assert(self.c(self.deg as int) == self.coefficient.v()); assert(cf(self)(self.deg as int) == self.coefficient.v()); }
%fn LinearBinomial::root
%props C19
%ensures
    ({ let a = self.coefficients@[0].v(); let b = self.coefficients@[1].v();
    match r { Roots::InfiniteRoots => a == 0real && b == 0real, Roots::NoRoots => a == 0real && b != 0real, Roots::OneRealRoot(x) => a != 0real && x.v() == quo(-b, a) && (exact_div() ==> x.v() * a + b == 0real), _ => false } }),
%at fn.start
    proof { broadcast use quo_exact; }
%raw trinomial
pub open spec fn q0<T>(t: &QuadraticTrinomial<T>) -> T { t.coefficients@[0] }
pub open spec fn q1<T>(t: &QuadraticTrinomial<T>) -> T { t.coefficients@[1] }
pub open spec fn q2<T>(t: &QuadraticTrinomial<T>) -> T { t.coefficients@[2] }
/// the product of two linear factors
pub proof fn bin_conv(p: &LinearBinomial<Z>, q: &LinearBinomial<Z>)
    ensures ({ let (a, b, c, e) = (p.coefficients@[0].v(), p.coefficients@[1].v(), q.coefficients@[0].v(), q.coefficients@[1].v());
        forall|d: int| #[trigger] conv(cf(p), cf(q), d) == if d == 0 { b * e } else if d == 1 { b * c + a * e } else if d == 2 { a * c } else { 0real } })
{
    let (a, b, c, e) = (p.coefficients@[0].v(), p.coefficients@[1].v(), q.coefficients@[0].v(), q.coefficients@[1].v());
    assert forall|d: int| #[trigger] conv(cf(p), cf(q), d) == if d == 0 { b * e } else if d == 1 { b * c + a * e } else if d == 2 { a * c } else { 0real } by {
        let h = |i: int| cf(p)(i) * cf(q)(d - i);
        if d > 2 {
            assert forall|i: int| 0 <= i < d + 1 implies #[trigger] h(i) == 0real by { if i > 1 { mul0(0real, cf(q)(d - i)); } else { mul0(cf(p)(i), 0real); } }
            sum_zero(h, 0, d + 1);
        } else if d >= 0 {
            reveal_with_fuel(sum, 4);
            assert(sum(h, 0, d + 1) == sum(h, 0, d) + h(d));
            if d >= 1 { assert(sum(h, 0, d) == sum(h, 0, d - 1) + h(d - 1)); }
            if d >= 2 { assert(sum(h, 0, d - 1) == sum(h, 0, d - 2) + h(d - 2)); mul0(0real, e); mul0(b, 0real); }
        }
    }
}
pub open spec fn cre(p: Complex<Z>, q: Complex<Z>) -> real { p.re.v() * q.re.v() - p.im.v() * q.im.v() }
pub open spec fn cim(p: Complex<Z>, q: Complex<Z>) -> real { p.re.v() * q.im.v() + p.im.v() * q.re.v() }
/// l * p * q is the quadratic with coefficients a, b, c
pub open spec fn cfactors(a: real, b: real, c: real, p: &LinearBinomial<Complex<Z>>, q: &LinearBinomial<Complex<Z>>) -> bool {
    let (p1, p0, q1, q0) = (p.coefficients@[0], p.coefficients@[1], q.coefficients@[0], q.coefficients@[1]);
    &&& a * cre(p1, q1) == a && cim(p1, q1) == 0real
    &&& a * (cre(p1, q0) + cre(p0, q1)) == b && cim(p1, q0) + cim(p0, q1) == 0real
    &&& a * cre(p0, q0) == c && cim(p0, q0) == 0real
}
pub open spec fn mon(p: &LinearBinomial<Complex<Z>>) -> bool { p.coefficients@[0].re.v() == 1real && p.coefficients@[0].im.v() == 0real }
pub proof fn cfac(a: real, b: real, c: real, p: &LinearBinomial<Complex<Z>>, q: &LinearBinomial<Complex<Z>>)
    requires mon(p), mon(q), vieta_c(a, b, c, -p.coefficients@[1].re.v(), -p.coefficients@[1].im.v(), -q.coefficients@[1].re.v(), -q.coefficients@[1].im.v())
    ensures cfactors(a, b, c, p, q)
{
    let (sr, si, tr, ti) = (p.coefficients@[1].re.v(), p.coefficients@[1].im.v(), q.coefficients@[1].re.v(), q.coefficients@[1].im.v());
    assert(1real * 1real - 0real * 0real == 1real && 1real * 0real + 0real * 1real == 0real) by (nonlinear_arith);
    assert(a * 1real == a) by (nonlinear_arith);
    assert(1real * tr - 0real * ti == tr && sr * 1real - si * 0real == sr && 1real * ti + 0real * tr == ti && sr * 0real + si * 1real == si) by (nonlinear_arith);
    assert(a * (tr + sr) == b) by (nonlinear_arith) requires a * (-sr + -tr) == -b;
    assert((-sr) * (-tr) == sr * tr && (-si) * (-ti) == si * ti && (-sr) * (-ti) == sr * ti && (-si) * (-tr) == si * tr) by (nonlinear_arith);
}
pub proof fn real_as_complex(a: real, b: real, c: real, s: real, t: real)
    requires vieta(a, b, c, s, t)
    ensures vieta_c(a, b, c, s, 0real, t, 0real)
{ mul0(0real, 0real); mul0(s, 0real); mul0(0real, t); }
pub proof fn rfac(a: real, b: real, c: real, p: &LinearBinomial<Z>, q: &LinearBinomial<Z>)
    requires p.coefficients@[0].v() == 1real, q.coefficients@[0].v() == 1real, vieta(a, b, c, -p.coefficients@[1].v(), -q.coefficients@[1].v())
    ensures forall|d: int| a * #[trigger] conv(cf(p), cf(q), d) == if d == 0 { c } else if d == 1 { b } else if d == 2 { a } else { 0real }
{
    bin_conv(p, q);
    let (s, t) = (p.coefficients@[1].v(), q.coefficients@[1].v());
    assert(s * 1real + 1real * t == s + t && 1real * 1real == 1real && a * 1real == a) by (nonlinear_arith);
    assert(a * (s + t) == b) by (nonlinear_arith) requires a * (-s + -t) == -b;
    assert((-s) * (-t) == s * t) by (nonlinear_arith);
    mul0(a, 0real);
}
%fn QuadraticTrinomial::discriminant
%props C19 C20
%ensures
    r.v() == disc(self.c(2), self.c(1), self.c(0)),
%fn QuadraticTrinomial::roots
%props C19 C20
%requires
    self.c(2) != 0real,
%ensures
    roots_ok(self.c(2), self.c(1), self.c(0), r),
    int_roots(self.c(2), self.c(1), self.c(0), r),
%fn QuadraticTrinomial::complex_factors
%props C19
%requires
    self.c(2) != 0real,
%ensures
    r.0.v() == self.c(2),
    exact_div() ==> cfactors(self.c(2), self.c(1), self.c(0), &r.1, &r.2),
%at fn.start
    proof { assert forall|s: real, t: real| vieta(self.c(2), self.c(1), self.c(0), s, t) implies #[trigger] vieta_c(self.c(2), self.c(1), self.c(0), s, 0real, t, 0real) by { real_as_complex(self.c(2), self.c(1), self.c(0), s, t); } }
%at fn.end
    proof { if exact_div() { cfac(self.c(2), self.c(1), self.c(0), &r.1, &r.2); } }
%fn QuadraticTrinomial::real_factors
%props C19
%requires
    self.c(2) != 0real,
%ensures
    (r is Some) == (disc(self.c(2), self.c(1), self.c(0)) >= 0real),
    r is Some ==> (r->Some_0).0.v() == self.c(2),
    r is Some && exact_div() ==> forall|d: int| self.c(2) * #[trigger] conv(cf(&(r->Some_0).1), cf(&(r->Some_0).2), d) == self.c(d),
%at fn.end
    proof { if exact_div() && r is Some { rfac(self.c(2), self.c(1), self.c(0), &(r->Some_0).1, &(r->Some_0).2); } }
