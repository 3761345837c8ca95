%raw sparsepolynomial
broadcast use {vstd::std_specs::btree::group_btree_axioms, vec_len_ax, slice_len_ax, slice2_len_ax};
impl HasC for SparsePolynomial<Z> {
    open spec fn c(&self, d: int) -> real { mc(self.terms@, d) }
    open spec fn bd(&self) -> int { usize::MAX + 1 }
    open spec fn fit(d: int) -> bool { true }
    proof fn bd_law(&self) { }
}
impl VClone for SparsePolynomial<Z> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}
/// the coefficient at d among the entries with the k smallest keys
pub open spec fn mcp(m: Map<usize, Z>, k: int, d: int) -> real decreases k {
    if k <= 0 { 0real } else { bump(mcp(m, k - 1, d), d, keys_of(m)[k - 1] as int, m[keys_of(m)[k - 1]].v()) }
}
pub open spec fn mcpf(m: Map<usize, Z>, k: int) -> F { |d: int| mcp(m, k, d) }
pub open spec fn klen(m: Map<usize, Z>) -> int { keys_of(m).len() as int }
pub proof fn mcp_at(m: Map<usize, Z>, k: int, d: int)
    requires 0 <= k <= klen(m)
    ensures (k == klen(m) || d >= keys_of(m)[k]) ==> (forall|j: int| 0 <= j < k ==> (#[trigger] keys_of(m)[j]) != d) ==> mcp(m, k, d) == 0real,
        (exists|j: int| 0 <= j < k && #[trigger] keys_of(m)[j] == d) ==> mcp(m, k, d) == mc(m, d),
        (forall|j: int| 0 <= j < k ==> (#[trigger] keys_of(m)[j]) != d) ==> mcp(m, k, d) == 0real,
    decreases k
{
    broadcast use keys_of_ax;
    if k > 0 {
        mcp_at(m, k - 1, d);
        let key = keys_of(m)[k - 1];
        assert(keys_of(m).contains(key));
        if key == d { assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] keys_of(m)[j]) != d by { } }
        else if exists|j: int| 0 <= j < k && #[trigger] keys_of(m)[j] == d { let j = choose|j: int| 0 <= j < k && #[trigger] keys_of(m)[j] == d; assert(j < k - 1); }
    }
}
/// what is known of the entries of a map in the order of their keys
pub proof fn map_facts(m: Map<usize, Z>)
    ensures forall|d: int| #[trigger] mcp(m, klen(m), d) == mc(m, d), forall|d: int| #[trigger] mcf(m)(d) == mc(m, d),
        forall|k: int, d: int| 0 <= k < klen(m) && d >= keys_of(m)[k] ==> #[trigger] mcp(m, k, d) == 0real,
        forall|n: Map<usize, Z>, k: usize, z: Z, d: int| #[trigger] mc(n.insert(k, z), d) == (if d == k { z.v() } else { mc(n, d) }),
        forall|d: int| #[trigger] mc(Map::<usize, Z>::empty(), d) == 0real,
        sorted_keys(keys_of(m)), forall|k: usize| keys_of(m).contains(k) <==> #[trigger] m.dom().contains(k),
        forall|j: int| 0 <= j < klen(m) ==> m.dom().contains(#[trigger] keys_of(m)[j]),
        forall|j: int| 0 <= j < klen(m) ==> mc(m, (#[trigger] keys_of(m)[j]) as int) == m[keys_of(m)[j]].v(),
        forall|d: int| #[trigger] mc(m, d) != 0real ==> exists|j: int| 0 <= j < klen(m) && #[trigger] keys_of(m)[j] == d,
{
    broadcast use keys_of_ax;
    assert forall|d: int| #[trigger] mcp(m, klen(m), d) == mc(m, d) by {
        mcp_at(m, klen(m), d);
        if 0 <= d <= usize::MAX && m.dom().contains(d as usize) { assert(keys_of(m).contains(d as usize)); let j = choose|j: int| 0 <= j < klen(m) && keys_of(m)[j] == d as usize; assert(keys_of(m)[j] == d); }
        else { assert forall|j: int| 0 <= j < klen(m) implies (#[trigger] keys_of(m)[j]) != d by { assert(keys_of(m).contains(keys_of(m)[j])); } }
    }
    assert forall|k: int, d: int| 0 <= k < klen(m) && d >= keys_of(m)[k] implies #[trigger] mcp(m, k, d) == 0real by {
        mcp_at(m, k, d);
        assert forall|j: int| 0 <= j < k implies (#[trigger] keys_of(m)[j]) != d by { }
    }
    assert forall|j: int| 0 <= j < klen(m) implies m.dom().contains(#[trigger] keys_of(m)[j]) by { assert(keys_of(m).contains(keys_of(m)[j])); }
    assert forall|d: int| #[trigger] mc(m, d) != 0real implies exists|j: int| 0 <= j < klen(m) && #[trigger] keys_of(m)[j] == d by {
        assert(keys_of(m).contains(d as usize)); let j = choose|j: int| 0 <= j < klen(m) && keys_of(m)[j] == d as usize; assert(keys_of(m)[j] == d); }
}
pub proof fn map_step(m: Map<usize, Z>, i: int)
    requires 0 < i <= klen(m)
    ensures forall|d: int| #[trigger] mcp(m, i, d) == bump(mcp(m, i - 1, d), d, keys_of(m)[i - 1] as int, m[keys_of(m)[i - 1]].v()), mcp(m, i - 1, keys_of(m)[i - 1] as int) == 0real
{ map_facts(m); }
/// every degree of a product is a usize
pub open spec fn fits(l: Map<usize, Z>, r: Map<usize, Z>) -> bool { forall|a: usize, b: usize| #[trigger] l.dom().contains(a) && #[trigger] r.dom().contains(b) && r[b].v() != 0real ==> a + b <= usize::MAX }
pub open spec fn keys_le(m: Map<usize, Z>, n: int) -> bool { forall|a: usize| #[trigger] m.dom().contains(a) ==> a <= n }
pub proof fn mul_start(l: Map<usize, Z>, r: Map<usize, Z>)
    ensures forall|d: int| #[trigger] conv(mcpf(r, 0), mcf(l), d) == 0real, forall|d: int| #[trigger] conv(mcpf(r, klen(r)), mcf(l), d) == conv(mcf(l), mcf(r), d)
{
    map_facts(r);
    assert forall|d: int| #[trigger] conv(mcpf(r, 0), mcf(l), d) == 0real by { conv_zero(mcpf(r, 0), mcf(l), d); }
    assert forall|d: int| #[trigger] conv(mcpf(r, klen(r)), mcf(l), d) == conv(mcf(l), mcf(r), d) by { conv_ext(mcpf(r, klen(r)), mcf(l), mcf(r), mcf(l), d); conv_comm(mcf(r), mcf(l), d); }
}
pub proof fn mul_step(l: Map<usize, Z>, r: Map<usize, Z>, i: int)
    requires 0 < i <= klen(r)
    ensures forall|d: int| #[trigger] conv(mcpf(r, i), mcf(l), d) == conv(mcpf(r, i - 1), mcf(l), d) + r[keys_of(r)[i - 1]].v() * mc(l, d - keys_of(r)[i - 1]),
        r[keys_of(r)[i - 1]].v() == 0real ==> forall|d: int| #[trigger] conv(mcpf(r, i), mcf(l), d) == conv(mcpf(r, i - 1), mcf(l), d),
        forall|d: int| r[keys_of(r)[i - 1]].v() * #[trigger] mcp(l, klen(l), d) == r[keys_of(r)[i - 1]].v() * mc(l, d),
{
    map_facts(l);
    let k = keys_of(r)[i - 1] as int; let s = r[keys_of(r)[i - 1]].v();
    assert forall|d: int| #[trigger] conv(mcpf(r, i), mcf(l), d) == conv(mcpf(r, i - 1), mcf(l), d) + s * mc(l, d - k) by {
        assert forall|j: int| #[trigger] mcpf(r, i)(j) == bump(mcpf(r, i - 1)(j), j, k, s) by { map_step(r, i); assert(mcp(r, i, j) == bump(mcp(r, i - 1, j), j, k, s)); }
        assert(van(mcf(l)));
        conv_bump(mcpf(r, i - 1), mcpf(r, i), mcf(l), k, s, d);
        assert(mcf(l)(d - k) == mc(l, d - k));
    }
    if s == 0real { assert forall|d: int| #[trigger] conv(mcpf(r, i), mcf(l), d) == conv(mcpf(r, i - 1), mcf(l), d) by { mul0(s, mc(l, d - k)); } }
}
/// one entry of the inner product: the value at p of s * (l restricted to its i smallest keys), shifted by k
pub proof fn mul_inner(l: Map<usize, Z>, i: int, k: int, s: real)
    requires 0 < i <= klen(l)
    ensures forall|d: int| s * #[trigger] mcp(l, i, d - k) == bump(s * mcp(l, i - 1, d - k), d, k + keys_of(l)[i - 1], s * l[keys_of(l)[i - 1]].v())
{
    map_step(l, i);
    let x = l[keys_of(l)[i - 1]].v();
    assert forall|d: int| s * #[trigger] mcp(l, i, d - k) == bump(s * mcp(l, i - 1, d - k), d, k + keys_of(l)[i - 1], s * x) by {
        let p = mcp(l, i - 1, d - k);
        assert(s * (p + x) == s * p + s * x) by (nonlinear_arith);
    }
}
/// the largest key
pub open spec fn mk(m: Map<usize, Z>) -> int { if klen(m) == 0 { 0 } else { keys_of(m).last() as int } }
pub proof fn mk_bound()
    ensures forall|m: Map<usize, Z>| keys_le(m, #[trigger] mk(m)) && 0 <= mk(m), forall|m: Map<usize, Z>, n: int| #[trigger] keys_le(m, n) && 0 <= n ==> mk(m) <= n
{ mk_facts(); }
pub proof fn mk_facts()
    ensures forall|m: Map<usize, Z>| keys_le(m, #[trigger] mk(m)) && 0 <= mk(m), forall|m: Map<usize, Z>, n: int| #[trigger] keys_le(m, n) && 0 <= n ==> mk(m) <= n,
        forall|l: Map<usize, Z>, r: Map<usize, Z>| mk(l) + mk(r) <= usize::MAX ==> #[trigger] fits(l, r), mk(Map::<usize, Z>::empty()) == 0, forall|z: Z| mk(#[trigger] Map::<usize, Z>::empty().insert(0usize, z)) == 0,
        forall|l: Map<usize, Z>, r: Map<usize, Z>, p: Map<usize, Z>| #![trigger mk(l), mk(r), mk(p)] (forall|n: int, k: int| #[trigger] keys_le(l, n) && #[trigger] keys_le(r, k) ==> keys_le(p, n + k)) ==> mk(p) <= mk(l) + mk(r)
{
    broadcast use keys_of_ax;
    assert forall|m: Map<usize, Z>| keys_le(m, #[trigger] mk(m)) && 0 <= mk(m) by {
        assert forall|a: usize| #[trigger] m.dom().contains(a) implies a <= mk(m) by { assert(keys_of(m).contains(a)); let j = choose|j: int| 0 <= j < klen(m) && keys_of(m)[j] == a; if j < klen(m) - 1 { assert(keys_of(m)[j] < keys_of(m)[klen(m) - 1]); } }
    }
    assert forall|m: Map<usize, Z>, n: int| #[trigger] keys_le(m, n) && 0 <= n implies mk(m) <= n by { if klen(m) > 0 { let a = keys_of(m).last(); assert(keys_of(m).contains(a)); assert(m.dom().contains(a)); } }
    assert forall|l: Map<usize, Z>, r: Map<usize, Z>| mk(l) + mk(r) <= usize::MAX implies #[trigger] fits(l, r) by {
        assert(keys_le(l, mk(l)) && keys_le(r, mk(r)));
        assert forall|a: usize, b: usize| #[trigger] l.dom().contains(a) && #[trigger] r.dom().contains(b) && r[b].v() != 0real implies a + b <= usize::MAX by { assert(a <= mk(l) && b <= mk(r)); }
    }
    assert(keys_le(Map::<usize, Z>::empty(), 0));
    assert forall|z: Z| mk(#[trigger] Map::<usize, Z>::empty().insert(0usize, z)) == 0 by { assert(keys_le(Map::<usize, Z>::empty().insert(0usize, z), 0)); }
    assert forall|l: Map<usize, Z>, r: Map<usize, Z>, p: Map<usize, Z>| #![trigger mk(l), mk(r), mk(p)] (forall|n: int, k: int| #[trigger] keys_le(l, n) && #[trigger] keys_le(r, k) ==> keys_le(p, n + k)) implies mk(p) <= mk(l) + mk(r) by {
        assert(keys_le(l, mk(l)) && keys_le(r, mk(r))); assert(keys_le(p, mk(l) + mk(r))); }
}
pub proof fn pow_bound(p: &SparsePolynomial<Z>, e: int)
    requires e >= 0
    ensures e % 2 == 0 ==> mk(p.terms@) * (e / 2) * 2 == mk(p.terms@) * e, e > 0 ==> mk(p.terms@) * (e - 1) + mk(p.terms@) == mk(p.terms@) * e, 0 <= mk(p.terms@) * e, e > 0 ==> mk(p.terms@) * (e / 2) <= mk(p.terms@) * e && mk(p.terms@) * (e - 1) <= mk(p.terms@) * e && 0 <= mk(p.terms@) * (e - 1), 0 <= mk(p.terms@) * (e / 2)
{
    mk_facts();
    let k = mk(p.terms@);
    if e % 2 == 0 { let h = e / 2; assert(e == h * 2); assert(k * h * 2 == k * (h * 2)) by (nonlinear_arith); }
    assert(k * (e - 1) + k == k * e) by (nonlinear_arith);
    assert(0 <= k * e) by (nonlinear_arith) requires 0 <= k, 0 <= e;
    let h = e / 2;
    assert(0 <= h <= e);
    assert(0 <= k * h) by (nonlinear_arith) requires 0 <= k, 0 <= h;
    assert(k * h <= k * e) by (nonlinear_arith) requires 0 <= k, h <= e;
    if e > 0 { let g = e - 1; assert(0 <= k * g) by (nonlinear_arith) requires 0 <= k, 0 <= g; }
}
pub proof fn mk_top(p: &SparsePolynomial<Z>)
    ensures forall|n: int| #[trigger] top(cf(p), n) ==> 0 <= n <= mk(p.terms@)
{ mk_facts(); assert forall|n: int| #[trigger] top(cf(p), n) implies 0 <= n <= mk(p.terms@) by { assert(cf(p)(n) != 0real); assert(keys_le(p.terms@, mk(p.terms@))); assert(p.terms@.dom().contains(n as usize)); } }
pub open spec fn shift_fits(a: F, b: F, m: Map<usize, Z>) -> bool { forall|i: int, j: int| #[trigger] top(a, i) && #[trigger] top(b, j) ==> mk(m) + (i - j) <= usize::MAX }
pub proof fn sparse_facts()
    ensures forall|m: Map<usize, Z>, n: int| #[trigger] top(mcf(m), n) ==> 0 <= n <= usize::MAX, forall|t: Map<usize, Z>, d: int| #[trigger] mcf(t)(d) == mc(t, d),
        forall|p: &SparsePolynomial<Z>| #[trigger] cf(p) == mcf(p.terms@),
        forall|p: &SparsePolynomial<Z>| #[trigger] is0(p) == (forall|d: int| #[trigger] mcf(p.terms@)(d) == 0real)
{
    assert forall|t: Map<usize, Z>, n: int| #[trigger] top(mcf(t), n) implies 0 <= n <= usize::MAX by { assert(mcf(t)(n) != 0real); }
    assert forall|p: &SparsePolynomial<Z>| #[trigger] cf(p) == mcf(p.terms@) by { assert(cf(p) =~= mcf(p.terms@)); }
    assert forall|p: &SparsePolynomial<Z>| #[trigger] is0(p) == (forall|d: int| #[trigger] mcf(p.terms@)(d) == 0real) by {
        if forall|d: int| #[trigger] mcf(p.terms@)(d) == 0real { assert forall|d: int| p.c(d) == 0real by { assert(mcf(p.terms@)(d) == 0real); } }
        if is0(p) { assert forall|d: int| #[trigger] mcf(p.terms@)(d) == 0real by { assert(p.c(d) == 0real); } } }
}
pub open spec fn evf(m: Map<usize, Z>, k: int, x: real) -> real { evald(mcpf(m, k), usize::MAX + 1, x) }
pub proof fn eval_start(m: Map<usize, Z>, p: &SparsePolynomial<Z>, x: real)
    requires m == p.terms@
    ensures evf(m, 0, x) == 0real, evf(m, klen(m), x) == evald(cf(p), p.bd(), x)
{
    map_facts(m);
    let f = |d: int| mcpf(m, 0)(d) * rpow(x, d as nat);
    assert forall|i: int| 0 <= i < usize::MAX + 1 implies #[trigger] f(i) == 0real by { mul0(0real, rpow(x, i as nat)); }
    sum_zero(f, 0, usize::MAX + 1);
    let g = |d: int| mcpf(m, klen(m))(d) * rpow(x, d as nat);
    let h = |d: int| cf(p)(d) * rpow(x, d as nat);
    assert forall|i: int| 0 <= i < usize::MAX + 1 implies #[trigger] g(i) == h(i) by { assert(mcp(m, klen(m), i) == mc(m, i)); }
    sum_ext(g, h, 0, usize::MAX + 1);
}
pub proof fn eval_step(m: Map<usize, Z>, i: int, x: real)
    requires 0 < i <= klen(m)
    ensures evf(m, i, x) == evf(m, i - 1, x) + m[keys_of(m)[i - 1]].v() * rpow(x, keys_of(m)[i - 1] as nat)
{
    map_step(m, i);
    let k = keys_of(m)[i - 1] as int; let s = m[keys_of(m)[i - 1]].v();
    let f = |d: int| mcpf(m, i - 1)(d) * rpow(x, d as nat);
    let g = |d: int| mcpf(m, i)(d) * rpow(x, d as nat);
    let h = |d: int| if d == k { s * rpow(x, d as nat) } else { 0real };
    assert forall|d: int| 0 <= d < usize::MAX + 1 implies #[trigger] g(d) == f(d) + h(d) by {
        assert(mcp(m, i, d) == bump(mcp(m, i - 1, d), d, k, s));
        if d == k { let p = mcp(m, i - 1, d); let y = rpow(x, d as nat); assert((p + s) * y == p * y + s * y) by (nonlinear_arith); }
    }
    sum_add(f, h, g, 0, usize::MAX + 1);
    sum_one(h, 0, k, usize::MAX + 1);
    assert(h(k) == s * rpow(x, k as nat));
}
/// the entries listed from the largest key down, as far as the k-th
pub open spec fn mpart(s: Seq<(Z, usize)>, m: Map<usize, Z>, k: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 > (#[trigger] s[j]).1
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.v() == mc(m, s[i].1 as int) && s[i].0.v() != 0real && (0 < k <= klen(m) && s[i].1 >= keys_of(m)[klen(m) - k])
    &&& forall|j: int| klen(m) - k <= j < klen(m) && m[#[trigger] keys_of(m)[j]].v() != 0real ==> has_deg(s, keys_of(m)[j] as int)
}
pub proof fn mpart_step(s0: Seq<(Z, usize)>, s1: Seq<(Z, usize)>, m: Map<usize, Z>, k: int)
    requires mpart(s0, m, k), 0 <= k < klen(m),
        ({ let key = keys_of(m)[klen(m) - 1 - k]; if m[key].v() == 0real { s1 == s0 } else { s1.len() == s0.len() + 1 && s1.drop_last() =~= s0 && s1.last().0.v() == m[key].v() && s1.last().1 == key } })
    ensures mpart(s1, m, k + 1)
{
    map_facts(m);
    let key = keys_of(m)[klen(m) - 1 - k];
    if k > 0 { assert(keys_of(m)[klen(m) - 1 - k] < keys_of(m)[klen(m) - k]); }
    if m[key].v() != 0real {
        assert forall|i: int| 0 <= i < s0.len() implies s1[i] == #[trigger] s0[i] by { assert(s1.drop_last()[i] == s1[i]); }
        assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).0.v() == mc(m, s1[i].1 as int) && s1[i].0.v() != 0real && s1[i].1 >= key by { if i < s0.len() { assert(s1[i] == s0[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (#[trigger] s1[i]).1 > (#[trigger] s1[j]).1 by { assert(s1[i] == s0[i]); if j < s0.len() { assert(s1[j] == s0[j]); } }
    }
    assert forall|j: int| klen(m) - (k + 1) <= j < klen(m) && m[#[trigger] keys_of(m)[j]].v() != 0real implies has_deg(s1, keys_of(m)[j] as int) by {
        if j == klen(m) - 1 - k { assert(s1[s1.len() - 1].1 == key); }
        else { assert(has_deg(s0, keys_of(m)[j] as int)); let i = choose|i: int| 0 <= i < s0.len() && (#[trigger] s0[i]).1 == keys_of(m)[j]; if m[key].v() != 0real { assert(s1.drop_last()[i] == s1[i]); } assert(s1[i].1 == keys_of(m)[j]); }
    }
}
pub proof fn mpart_done(s: Seq<(Z, usize)>, m: Map<usize, Z>, c: F)
    requires mpart(s, m, klen(m)), forall|d: int| #[trigger] c(d) == mc(m, d)
    ensures is_terms(s, c)
{
    map_facts(m);
    assert forall|d: int| #[trigger] c(d) != 0real implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d by {
        assert(mc(m, d) != 0real); let j = choose|j: int| 0 <= j < klen(m) && #[trigger] keys_of(m)[j] == d; assert(has_deg(s, keys_of(m)[j] as int)); }
}
pub proof fn map_cf(p: &SparsePolynomial<Z>)
    ensures cf(p) == mcf(p.terms@)
{ assert(cf(p) =~= mcf(p.terms@)); }
%implextra <SparsePolynomial as MutablePolynomial>
    open spec fn room(&self, d: int) -> bool { true }
    open spec fn refused(&self, c: Z, d: usize, e: TryAddError) -> bool { true }
%implextra <SparsePolynomial as Derivable>
    open spec fn dok(&self) -> bool { degs_ok(cf(self)) }
%implextra <SparsePolynomial as Integrable<SparsePolynomial>>
    open spec fn iok(&self) -> bool { forall|k: usize| #[trigger] self.terms@.dom().contains(k) ==> exact_in(k + 1) }
    open spec fn iroom(&self) -> bool { forall|k: usize| #[trigger] self.terms@.dom().contains(k) ==> k < usize::MAX }
%fn SparsePolynomial::new
%props C03 C04 C06 C07 C10 C13 C18
%params terms
%ensures
    r.terms == terms,
%fn <SparsePolynomial as Neg>::neg
%props C03
%ensures
    forall|d: int| #[trigger] r.c(d) == -self.c(d),
%at fn.start
    proof { map_facts(self.terms@); }
%at loop.0.start
    proof { map_step(self.terms@, __i0 as int); }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == -mcp(self.terms@, __i0 as int, d),
%fn <SparsePolynomial as Add<SparsePolynomial>>::add
%props C03
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) + rhs.c(d),
%at fn.start
    proof { map_facts(self.terms@); map_facts(rhs.terms@); }
    let ghost m = rhs.terms@;
%at loop.0.start
    proof { map_step(m, __i0 as int); }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == mcp(m, __i0 as int, d),
%at loop.1.start
    let ghost t0 = terms@;
    proof { map_step(self.terms@, __i1 as int); }
%loop 1
    forall|d: int| #[trigger] mc(terms@, d) == mc(m, d) + mcp(self.terms@, __i1 as int, d),
%at loop.1.end
    proof { assert forall|d: int| #[trigger] mc(terms@, d) == bump(mc(t0, d), d, deg as int, coeff.v()) by { } }
%fn <SparsePolynomial as AddAssign<SparsePolynomial>>::add_assign
%props C03
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) + rhs.c(d),
%at fn.start
    proof { map_facts(rhs.terms@); }
    let ghost m = self.terms@;
%at loop.0.start
    let ghost t0 = self.terms@;
    proof { map_step(rhs.terms@, __i0 as int); }
%loop 0
    forall|d: int| #[trigger] mc(self.terms@, d) == mc(m, d) + mcp(rhs.terms@, __i0 as int, d),
%at loop.0.end
    proof { assert forall|d: int| #[trigger] mc(self.terms@, d) == bump(mc(t0, d), d, deg as int, coeff.v()) by { } }
%fn <SparsePolynomial as Sub<SparsePolynomial>>::sub
%props C03
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) - rhs.c(d),
%at fn.start
    proof { map_facts(rhs.terms@); }
    let ghost m = self.terms@;
    let ghost n = rhs.terms@;
%at loop.0.start
    let ghost t0 = self_.terms@;
    proof { map_step(n, __i0 as int); }
%loop 0
    forall|d: int| #[trigger] mc(self_.terms@, d) == mc(m, d) - mcp(n, __i0 as int, d),
%at loop.0.end
    proof { assert forall|d: int| #[trigger] mc(self_.terms@, d) == bump(mc(t0, d), d, deg as int, -coeff.v()) by { } }
%fn <SparsePolynomial as SubAssign<SparsePolynomial>>::sub_assign
%props C03
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) - rhs.c(d),
%at fn.start
    proof { map_facts(rhs.terms@); }
    let ghost m = self.terms@;
    let ghost n = rhs.terms@;
%at loop.0.start
    let ghost t0 = self.terms@;
    proof { map_step(n, __i0 as int); }
%loop 0
    forall|d: int| #[trigger] mc(self.terms@, d) == mc(m, d) - mcp(n, __i0 as int, d),
%at loop.0.end
    proof { assert forall|d: int| #[trigger] mc(self.terms@, d) == bump(mc(t0, d), d, deg as int, -coeff.v()) by { } }
%fn <SparsePolynomial as Sub<Polynomial>>::sub
%props C03
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) - rhs.c(d),
%at loop.0.before
    proof { map_facts(self.terms@); tsum_terms(__s0.s(), cf(&rhs)); }
    let ghost m = self.terms@;
%loop 0
    forall|d: int| #[trigger] mc(self_.terms@, d) == mc(m, d) - tsum(__s0.s(), __i0 as int, d),
%at loop.0.start
    let ghost t0 = self_.terms@;
    proof { assert forall|d: int| #[trigger] tsum(__s0.s(), __i0 as int, d) == bump(tsum(__s0.s(), __i0 - 1, d), d, deg as int, coeff.v()) by { } }
%at loop.0.end
    proof { assert forall|d: int| #[trigger] mc(self_.terms@, d) == bump(mc(t0, d), d, deg as int, -coeff.v()) by { } }
%fn sparsepolynomial::map_mul
%props C04
%params lhs rhs
%requires
    fits(lhs@, rhs@),
%ensures
    forall|d: int| #[trigger] mc(r@, d) == conv(mcf(lhs@), mcf(rhs@), d),
    forall|n: int, k: int| #[trigger] keys_le(lhs@, n) && #[trigger] keys_le(rhs@, k) ==> keys_le(r@, n + k),
%at fn.start
    proof { map_facts(lhs@); map_facts(rhs@); mul_start(lhs@, rhs@); }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == conv(mcpf(rhs@, __i0 as int), mcf(lhs@), d),
    forall|n: int, k: int| #[trigger] keys_le(lhs@, n) && #[trigger] keys_le(rhs@, k) ==> keys_le(terms@, n + k),
%at loop.0.start
    proof { mul_step(lhs@, rhs@, __i0 as int); assert forall|d: int| rterm.v() * #[trigger] mcp(lhs@, 0, d) == 0real by { mul0(rterm.v(), 0real); } }
    let ghost base = |d: int| conv(mcpf(rhs@, __i0 - 1), mcf(lhs@), d);
%loop 1
    forall|d: int| #[trigger] mc(terms@, d) == base(d) + rterm.v() * mcp(lhs@, __i1 as int, d - rhs_deg),
    forall|n: int, k: int| #[trigger] keys_le(lhs@, n) && #[trigger] keys_le(rhs@, k) ==> keys_le(terms@, n + k),
%at loop.1.start
    let ghost t0 = terms@;
    proof { mul_inner(lhs@, __i1 as int, rhs_deg as int, rterm.v()); assert(lhs@.dom().contains(lhs_deg)); assert(rhs@.dom().contains(rhs_deg)); }
%at loop.1.end
    proof { assert forall|d: int| #[trigger] mc(terms@, d) == bump(mc(t0, d), d, rhs_deg + lhs_deg, rterm.v() * lterm.v()) by { } }
%fn <SparsePolynomial as Mul<SparsePolynomial>>::mul
%props C04
%params rhs
%requires
    fits(self.terms@, rhs.terms@),
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(&self), cf(&rhs), d),
%at fn.start
    proof { map_cf(&self); map_cf(&rhs); }
%fn <SparsePolynomial as Mul<&SparsePolynomial>>::mul
%props C04
%params rhs
%requires
    fits(self.terms@, rhs.terms@),
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(&self), cf(rhs), d),
%at fn.start
    proof { map_cf(&self); map_cf(rhs); }
%fn <SparsePolynomial as MulAssign<SparsePolynomial>>::mul_assign
%props C04
%params rhs
%requires
    fits(self.terms@, rhs.terms@),
%ensures
    forall|d: int| #[trigger] final(self).c(d) == conv(cf(old(self)), cf(&rhs), d),
%at fn.start
    proof { map_cf(self); map_cf(&rhs); }
%fn <SparsePolynomial as MulAssign<&SparsePolynomial>>::mul_assign
%props C04
%params rhs
%requires
    fits(self.terms@, rhs.terms@),
%ensures
    forall|d: int| #[trigger] final(self).c(d) == conv(cf(old(self)), cf(rhs), d),
%at fn.start
    proof { map_cf(self); map_cf(rhs); }
%fn SparsePolynomial::borrow_mul
%props C04
%params rhs
%requires
    fits(self.terms@, rhs.terms@),
%ensures
    forall|d: int| #[trigger] r.c(d) == conv(cf(self), cf(rhs), d),
    mk(r.terms@) <= mk(self.terms@) + mk(rhs.terms@),
%at fn.start
    proof { map_cf(self); map_cf(rhs); mk_facts(); }
%fn SparsePolynomial::pow
%props C04
%params exp
%requires
    mk(self.terms@) * exp <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == ppow(cf(self), exp as nat)(d),
    mk(r.terms@) <= mk(self.terms@) * exp,
%decreases
    exp,
%at fn.start
    proof { pow_all(self, exp as nat); map_facts(self.terms@); mk_facts(); pow_bound(self, exp as int); }
%fn <SparsePolynomial as Mul<N>>::mul
%props C04
%params rhs
%ensures
    forall|d: int| #[trigger] r.c(d) == self.c(d) * rhs.v(),
%at fn.start
    proof { map_facts(self.terms@); mul0(0real, rhs.v()); }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == mcp(self.terms@, __i0 as int, d) * rhs.v(),
%at loop.0.start
    proof { map_step(self.terms@, __i0 as int); }
%fn <SparsePolynomial as Div<N>>::div
%props C04
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] r.c(d) == quo(self.c(d), rhs.v()),
%at fn.start
    proof { map_facts(self.terms@); quo_zero(rhs.v()); }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == quo(mcp(self.terms@, __i0 as int, d), rhs.v()),
%at loop.0.start
    proof { map_step(self.terms@, __i0 as int); }
%fn <SparsePolynomial as MulAssign<N>>::mul_assign
%props C04
%params rhs
%ensures
    forall|d: int| #[trigger] final(self).c(d) == old(self).c(d) * rhs.v(),
%at fn.start
    proof { map_facts(self.terms@); mul0(0real, rhs.v());  }
    let ghost m = self.terms@;
%loop 0
    self.terms@.dom() =~= m.dom(),
    forall|j: int| 0 <= j < klen(m) ==> self.terms@[#[trigger] keys_of(m)[j]].v() == (if j < __i0 { m[keys_of(m)[j]].v() * rhs.v() } else { m[keys_of(m)[j]].v() }),
%at fn.end
    proof { assert forall|d: int| #[trigger] self.c(d) == mc(m, d) * rhs.v() by { if 0 <= d <= usize::MAX && m.dom().contains(d as usize) { assert(keys_of(m).contains(d as usize)); let j = choose|j: int| 0 <= j < klen(m) && keys_of(m)[j] == d as usize; assert(keys_of(m)[j] == d as usize); } } }
%fn <SparsePolynomial as DivAssign<N>>::div_assign
%props C04
%params rhs
%requires
    rhs.v() != 0real,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == quo(old(self).c(d), rhs.v()),
%at fn.start
    proof { map_facts(self.terms@); mul0(0real, rhs.v()); quo_zero(rhs.v()); }
    let ghost m = self.terms@;
%loop 0
    self.terms@.dom() =~= m.dom(),
    forall|j: int| 0 <= j < klen(m) ==> self.terms@[#[trigger] keys_of(m)[j]].v() == (if j < __i0 { quo(m[keys_of(m)[j]].v(), rhs.v()) } else { m[keys_of(m)[j]].v() }),
%at fn.end
    proof { assert forall|d: int| #[trigger] self.c(d) == quo(mc(m, d), rhs.v()) by { if 0 <= d <= usize::MAX && m.dom().contains(d as usize) { assert(keys_of(m).contains(d as usize)); let j = choose|j: int| 0 <= j < klen(m) && keys_of(m)[j] == d as usize; assert(keys_of(m)[j] == d as usize); } } }
%fn <SparsePolynomial as Shl<i32>>::shl
%props C06
%params rhs
%requires
    mk(self.terms@) + (rhs as int) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == sh(&self, d, rhs as int),
    rhs >= 0 ==> mk(r.terms@) <= mk(self.terms@) + rhs,
%decreases
    if rhs < 0 { 1int } else { 0int },
%at fn.start
    proof { map_facts(self.terms@); mk_bound(); }
    let ghost m = self.terms@;
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == mcp(m, __i0 as int, d - rhs),
    keys_le(terms@, mk(m) + rhs),
%at loop.0.start
    proof { map_step(m, __i0 as int); assert(m.dom().contains(deg)); assert(keys_le(m, mk(m))); }
%fn <SparsePolynomial as ShlAssign<i32>>::shl_assign
%props C06
%params rhs
%requires
    mk(self.terms@) + (rhs as int) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == sh(old(self), d, rhs as int),
    rhs >= 0 ==> mk(final(self).terms@) <= mk(old(self).terms@) + rhs,
%decreases
    if rhs < 0 { 1int } else { 0int },
%at fn.start
    proof { map_facts(self.terms@); mk_bound(); }
    let ghost m = self.terms@;
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == mcp(m, __i0 as int, d - rhs),
    keys_le(terms@, mk(m) + rhs),
%at loop.0.start
    proof { map_step(m, __i0 as int); assert(m.dom().contains(deg)); assert(keys_le(m, mk(m))); }
%fn <SparsePolynomial as Shr<i32>>::shr
%props C06
%params rhs
%requires
    mk(self.terms@) + (-(rhs as int)) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] r.c(d) == sh(&self, d, -(rhs as int)),
%decreases
    if rhs < 0 { 1int } else { 0int },
%at fn.start
    proof { map_facts(self.terms@); mk_bound(); }
    let ghost m = self.terms@;
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == (if d >= 0 { mcp(m, __i0 as int, d + rhs) } else { 0real }),
%at loop.0.start
    proof { map_step(m, __i0 as int); assert(m.dom().contains(deg)); assert(keys_le(m, mk(m))); }
%fn <SparsePolynomial as ShrAssign<i32>>::shr_assign
%props C06
%params rhs
%requires
    mk(self.terms@) + (-(rhs as int)) <= usize::MAX,
%ensures
    forall|d: int| #[trigger] final(self).c(d) == sh(old(self), d, -(rhs as int)),
%decreases
    if rhs < 0 { 1int } else { 0int },
%at fn.start
    proof { map_facts(self.terms@); mk_bound(); }
    let ghost m = self.terms@;
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == (if d >= 0 { mcp(m, __i0 as int, d + rhs) } else { 0real }),
%at loop.0.start
    proof { map_step(m, __i0 as int); assert(m.dom().contains(deg)); assert(keys_le(m, mk(m))); }
%fn sparsepolynomial::degree
%props C07 C11 C13 C14 C15 C16 C21
%params terms
%ensures
    deg_ok(mcf(terms@), r),
%at fn.start
    proof { map_facts(terms@); if klen(terms@) > 0 { map_step(terms@, 1); } }
%loop 0
    __s0.s().len() == klen(terms@) - 1,
    forall|j: int| 0 <= j < __s0.s().len() ==> #[trigger] __s0.s()[j] == (&keys_of(terms@)[j + 1], &terms@[keys_of(terms@)[j + 1]]),
    mcp(terms@, __i0 + 1, max_degree as int) == max_term.v(),
    max_degree <= keys_of(terms@)[__i0 as int],
    forall|d: int| d > max_degree ==> #[trigger] mcp(terms@, __i0 + 1, d) == 0real,
    max_term.v() == 0real ==> max_degree == keys_of(terms@)[0] && forall|d: int| #[trigger] mcp(terms@, __i0 + 1, d) == 0real,
%at loop.0.start
    proof { map_step(terms@, __i0 + 1); }
%at loop.0.after
    proof { assert forall|d: int| #[trigger] mcf(terms@)(d) == mcp(terms@, __i0 + 1, d) by { assert(__i0 + 1 == klen(terms@)); } }
%fn sparsepolynomial::first_term
%props C07 C11
%params terms
%ensures
    first_ok(mcf(terms@), r),
%at fn.start
    proof { sparse_facts(); }
%fn sparsepolynomial::map_sub_w_scale
%props C07
%params lhs rhs rhs_shift rhs_scale
%requires
    mk(rhs@) + rhs_shift <= usize::MAX,
%ensures
    forall|d: int| #[trigger] mc(final(lhs)@, d) == mc(old(lhs)@, d) - mc(rhs@, d - rhs_shift) * rhs_scale.v(),
%at fn.start
    proof { map_facts(rhs@); mk_facts(); mul0(0real, rhs_scale.v()); }
    let ghost l0 = lhs@;
%loop 0
    forall|d: int| #[trigger] mc(lhs@, d) == mc(l0, d) - mcp(rhs@, __i0 as int, d - rhs_shift) * rhs_scale.v(),
%at loop.0.start
    let ghost t0 = lhs@;
    proof { map_step(rhs@, __i0 as int); assert(rhs@.dom().contains(*rdeg)); assert(keys_le(rhs@, mk(rhs@)));
        let x = rcoeff.v(); let y = rhs_scale.v(); assert((-x) * y == -(x * y)) by (nonlinear_arith); }
%at loop.0.end
    proof { assert forall|d: int| #[trigger] mc(lhs@, d) == bump(mc(t0, d), d, rdeg + rhs_shift, -(rcoeff.v() * rhs_scale.v())) by { } }
%fn SparsePolynomial::div_mod
%props C07
%params rhs
%attr
#[verifier::allow_complex_invariants]
%requires
    !is0(rhs) || panic_allowed(),
    shift_fits(cf(self), cf(rhs), rhs.terms@),
%ensures
    !is0(rhs),
    divided(cf(self), cf(rhs), cf(&r.0), cf(&r.1)),
%at fn.start
    proof { sparse_facts(); map_facts(self.terms@); mk_top(rhs); assert forall|d: int| d < 0 implies #[trigger] cf(rhs)(d) == 0real by { } rem_start(cf(self), cf(rhs));
        assert forall|q: F, d: int| (forall|i: int| #[trigger] q(i) == 0real) implies #[trigger] conv(q, cf(rhs), d) == 0real by { conv_zero(q, cf(rhs), d); } }
    let ghost a = cf(self);
    let ghost b = cf(rhs);
%loop 0
    invariant_except_break
        top(mcf(remainder@), self_degree as int),
        scale.v() == quo(mcf(remainder@)(self_degree as int), rhs_first.v()),
        exact_div() ==> scale.v() != 0real,
    invariant
        van(b), top(b, rhs_deg as int), rhs_first.v() == b(rhs_deg as int), b == cf(rhs), self_degree <= top0,
        isdiv(a, b, cf(&div), mcf(remainder@)),
    ensures
        exact_div() ==> forall|d: int| d >= rhs_deg ==> #[trigger] mcf(remainder@)(d) == 0real,
%decreases 0
    self_degree, (if scale.v() == 0real { 0int } else { 1int }),
%at loop.0.before
    let ghost top0 = self_degree;
    proof { assert(top(a, self_degree as int)); if exact_div() { exact_quo_nz(mcf(remainder@)(self_degree as int), rhs_first.v()); } }
%at loop.0.start
    proof { div_next(a, b, cf(&div), mcf(remainder@), rhs_deg as int, self_degree as int); if exact_div() { assert forall|x: real| x != 0real implies #[trigger] quo(x, rhs_first.v()) != 0real by { exact_quo_nz(x, rhs_first.v()); } } }
%fn <SparsePolynomial as Rem<SparsePolynomial>>::rem
%props C07
%params rhs
%attr
#[verifier::allow_complex_invariants]
%requires
    !is0(&rhs) || panic_allowed(),
    shift_fits(cf(&self), cf(&rhs), rhs.terms@),
%ensures
    !is0(&rhs),
    remainder_of(cf(&self), cf(&rhs), cf(&r)),
%at fn.start
    proof { sparse_facts(); map_facts(self.terms@); mk_top(&rhs); assert forall|d: int| d < 0 implies #[trigger] cf(&rhs)(d) == 0real by { } rem_start(cf(&self), cf(&rhs));
        assert forall|q: F, d: int| (forall|i: int| #[trigger] q(i) == 0real) implies #[trigger] conv(q, cf(&rhs), d) == 0real by { conv_zero(q, cf(&rhs), d); } }
    let ghost a = cf(&self);
    let ghost b = cf(&rhs);
%loop 0
    invariant_except_break
        top(mcf(remainder@), self_degree as int),
        scale.v() == quo(mcf(remainder@)(self_degree as int), rhs_first.v()),
        exact_div() ==> scale.v() != 0real,
    invariant
        van(b), top(b, rhs_deg as int), rhs_first.v() == b(rhs_deg as int), b == cf(&rhs), self_degree <= top0,
        rem_ok(a, b, mcf(remainder@)),
    ensures
        exact_div() ==> forall|d: int| d >= rhs_deg ==> #[trigger] mcf(remainder@)(d) == 0real,
%decreases 0
    self_degree, (if scale.v() == 0real { 0int } else { 1int }),
%at loop.0.before
    let ghost top0 = self_degree;
    proof { assert(top(a, self_degree as int)); if exact_div() { exact_quo_nz(mcf(remainder@)(self_degree as int), rhs_first.v()); } }
%at loop.0.start
    proof { rem_next(a, b, mcf(remainder@), rhs_deg as int, self_degree as int); if exact_div() { assert forall|x: real| x != 0real implies #[trigger] quo(x, rhs_first.v()) != 0real by { exact_quo_nz(x, rhs_first.v()); } } }
%fn <SparsePolynomial as RemAssign<SparsePolynomial>>::rem_assign
%props C07
%params rhs
%attr
#[verifier::allow_complex_invariants]
%requires
    !is0(&rhs) || panic_allowed(),
    shift_fits(cf(self), cf(&rhs), rhs.terms@),
%ensures
    !is0(&rhs),
    remainder_of(cf(old(self)), cf(&rhs), cf(final(self))),
%at fn.start
    proof { sparse_facts(); map_facts(self.terms@); mk_top(&rhs); assert forall|d: int| d < 0 implies #[trigger] cf(&rhs)(d) == 0real by { } rem_start(cf(self), cf(&rhs));
        assert forall|q: F, d: int| (forall|i: int| #[trigger] q(i) == 0real) implies #[trigger] conv(q, cf(&rhs), d) == 0real by { conv_zero(q, cf(&rhs), d); } }
    let ghost a = cf(self);
    let ghost b = cf(&rhs);
%loop 0
    invariant_except_break
        top(mcf(self.terms@), self_degree as int),
        scale.v() == quo(mcf(self.terms@)(self_degree as int), rhs_first.v()),
        exact_div() ==> scale.v() != 0real,
    invariant
        van(b), top(b, rhs_deg as int), rhs_first.v() == b(rhs_deg as int), b == cf(&rhs), self_degree <= top0,
        rem_ok(a, b, mcf(self.terms@)),
    ensures
        exact_div() ==> forall|d: int| d >= rhs_deg ==> #[trigger] mcf(self.terms@)(d) == 0real,
%decreases 0
    self_degree, (if scale.v() == 0real { 0int } else { 1int }),
%at loop.0.before
    let ghost top0 = self_degree;
    proof { assert(top(a, self_degree as int)); if exact_div() { exact_quo_nz(mcf(self.terms@)(self_degree as int), rhs_first.v()); } }
%at loop.0.start
    proof { rem_next(a, b, mcf(self.terms@), rhs_deg as int, self_degree as int); if exact_div() { assert forall|x: real| x != 0real implies #[trigger] quo(x, rhs_first.v()) != 0real by { exact_quo_nz(x, rhs_first.v()); } } }
%fn <SparsePolynomial as From<Vec>>::from
%props C13 C07
%params term_vec
%ensures
    forall|d: int| #[trigger] r.c(d) == dc(term_vec@, d),
%at fn.start
    proof { map_facts(Map::<usize, Z>::empty()); broadcast use vec_len_ax; }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == if d > degree - __i0 { dc(term_vec@, d) } else { 0real },
%fn <SparsePolynomial as SizedPolynomial>::zero
%props C07 C11 C15 C16
%fn <SparsePolynomial as Evaluable>::eval
%props C08 C10 C21
%params point
%at fn.start
    proof { map_facts(self.terms@); eval_start(self.terms@, self, point.v()); }
%loop 0
    sum.v() == evf(self.terms@, __i0 as int, point.v()),
%at loop.0.start
    proof { eval_step(self.terms@, __i0 as int, point.v()); }
%fn <SparsePolynomial as Derivable>::derivative
%props C09 C18
%at fn.start
    proof { map_facts(self.terms@); }
    let ghost m = self.terms@;
    proof { assert forall|d: int| d >= 0 implies ((d + 1) as real) * #[trigger] mcp(m, 0, d + 1) == 0real by { mul0((d + 1) as real, 0real); } }
%loop 0
    forall|d: int| #[trigger] mc(terms@, d) == if d >= 0 { ((d + 1) as real) * mcp(m, __i0 as int, d + 1) } else { 0real },
%at loop.0.start
    proof { map_step(m, __i0 as int); if coeff.v() != 0real { assert(cf(self)(degree as int) != 0real); if degs_ok(cf(self)) { assert(degree >= 0); assert(cont_in(degree as int)); assert(exact_in(degree as int)); } }
        assert forall|d: int| d >= 0 && (coeff.v() == 0real || d + 1 != degree) implies ((d + 1) as real) * #[trigger] mcp(m, __i0 as int, d + 1) == ((d + 1) as real) * mcp(m, __i0 - 1, d + 1) by { }
        let x = coeff.v(); let y = (degree as int) as real; assert(x * y == y * x) by (nonlinear_arith); }
%fn <SparsePolynomial as Integrable<SparsePolynomial>>::integral
%props C10 C18
%at fn.start
    proof { map_facts(self.terms@); assert forall|d: int| d >= 1 implies #[trigger] quo(0real, d as real) == 0real by { quo_zero(d as real); } }
    let ghost m = self.terms@;
%loop 0
    forall|d: int| #[trigger] mc(new_terms@, d) == if d >= 1 { quo(mcp(m, __i0 as int, d - 1), d as real) } else { 0real },
%at loop.0.start
    proof { map_step(m, __i0 as int); assert(m.dom().contains(deg)); }
%fn SparsePolynomial::trim
%props C11
%ensures
    forall|k: usize| #[trigger] final(self).terms@.dom().contains(k) ==> old(self).terms@.dom().contains(k) && old(self).terms@[k].v() != 0real && final(self).terms@[k] == old(self).terms@[k],
    forall|k: usize| #[trigger] old(self).terms@.dom().contains(k) && old(self).terms@[k].v() != 0real ==> final(self).terms@.dom().contains(k),
%at fn.start
    proof { map_facts(self.terms@); }
    let ghost m = self.terms@;
%loop 0
    forall|k: usize| #[trigger] __c1@.dom().contains(k) ==> m.dom().contains(k) && m[k].v() != 0real && __c1@[k] == m[k],
    forall|j: int| 0 <= j < __i0 && m[#[trigger] keys_of(m)[j]].v() != 0real ==> __c1@.dom().contains(keys_of(m)[j]),
%fn SparsePolynomial::ordered_term_iter
%props C03 C11 C12 C16 C19 C22 C21
%type __c1 Vec<(Z, usize)>
%ensures
    is_terms(r.s(), cf(self)),
%at fn.start
    proof { map_facts(self.terms@); }
%loop 0
    mpart(__c1@, self.terms@, __i0 as int),
%at loop.0.start
    let ghost c0 = __c1@;
%at loop.0.end
    proof { mpart_step(c0, __c1@, self.terms@, __i0 - 1); }
%at loop.0.after
    proof { mpart_done(__c1@, self.terms@, cf(self)); }
%fn <SparsePolynomial as SizedPolynomial>::term_with_degree
%props C11
%params degree
%fn <SparsePolynomial as SizedPolynomial>::terms_as_vec
%props C11 C19 C22 C16 C21
%fn <SparsePolynomial as SizedPolynomial>::degree
%props C11 C13 C14 C15 C16 C21
%at fn.start
    proof { sparse_facts(); }
%fn <SparsePolynomial as SizedPolynomial>::set_to_zero
%props C11
%fn <SparsePolynomial as MutablePolynomial>::try_add_term
%props C13 C14 C15 C16
%params coeff degree
%fn <SparsePolynomial as MutablePolynomial>::try_sub_term
%props C13 C14
%params coeff degree
%fn <SparsePolynomial as FreeSizePolynomial>::from_terms
%props C13
%params terms
%loop 0
    forall|d: int| #[trigger] a.c(d) == tsum(terms@, __i0 as int, d),
%fn <SparsePolynomial as FreeSizePolynomial>::add_term
%props C07 C10 C13 C14 C15 C16
%params coeff degree
%fn <SparsePolynomial as PartialEq>::eq
%props C12
%params other
%attr
#[verifier::allow_complex_invariants]
%ensures
    r == same(self, other),
%at fn.start
    proof { map_facts(self.terms@); map_facts(other.terms@); }
%loop 0
    invariant_except_break
        __b1,
    invariant
        __b1 ==> forall|j: int| 0 <= j < __i0 ==> mc(other.terms@, (#[trigger] keys_of(self.terms@)[j]) as int) == self.terms@[keys_of(self.terms@)[j]].v(),
        !__b1 ==> !same(self, other),
    ensures
        __b1 ==> __i0 == klen(self.terms@),
%at loop.0.start
    proof { if same(self, other) { assert(self.c(*key as int) == other.c(*key as int)); } }
%loop 1
    invariant_except_break
        __b2,
    invariant
        __b2 ==> forall|j: int| 0 <= j < __i1 ==> mc(self.terms@, (#[trigger] keys_of(other.terms@)[j]) as int) == other.terms@[keys_of(other.terms@)[j]].v(),
        !__b2 ==> !same(self, other),
    ensures
        __b2 ==> __i1 == klen(other.terms@),
%at loop.1.start
    proof { if same(self, other) { assert(self.c(*key as int) == other.c(*key as int)); } }
%at fn.end
    proof { if r { assert forall|d: int| self.c(d) == other.c(d) by {
        if mc(self.terms@, d) != 0real { let j = choose|j: int| 0 <= j < klen(self.terms@) && #[trigger] keys_of(self.terms@)[j] == d; }
        else if mc(other.terms@, d) != 0real { let j = choose|j: int| 0 <= j < klen(other.terms@) && #[trigger] keys_of(other.terms@)[j] == d; } } } }
