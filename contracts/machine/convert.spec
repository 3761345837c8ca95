%raw sparsepolynomial
/// a map collected from the entries of another, key by key, has the numbers of that one
pub proof fn same_entries<A: Num, B: Num>(m: Map<usize, A>, s: Seq<(usize, B)>)
    requires s.len() == keys_of(m).len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == keys_of(m)[i] && s[i].1.num() == m[keys_of(m)[i]].num()
    ensures forall|q: BTreeMap<usize, B>| #[trigger] <BTreeMap<usize, B> as VCollect<(usize, B)>>::collected(s, q) ==> forall|d: int| #[trigger] mcn(q@, d) == mcn(m, d)
{
    broadcast use keys_of_ax;
    let k = keys_of(m);
    assert forall|q: BTreeMap<usize, B>, d: int| #[trigger] <BTreeMap<usize, B> as VCollect<(usize, B)>>::collected(s, q) implies #[trigger] mcn(q@, d) == mcn(m, d) by {
        if 0 <= d <= usize::MAX {
            let u = d as usize;
            if m.dom().contains(u) {
                assert(k.contains(u));
                let i = choose|i: int| 0 <= i < k.len() && k[i] == u;
                assert(s[i].0 == u);
                assert(q@.dom().contains(u));
                assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).0 != s[i].0 by { assert(k[i] < k[j]); }
                assert(q@[s[i].0] == s[i].1);
            } else if q@.dom().contains(u) {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == u;
                assert(k[i] == u); assert(k.contains(u));
            }
        }
    }
}
%raw polynomial
pub open spec fn lead<N: Num>(s: Seq<N>, k: int) -> bool {
    0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).num() == 0real) && (k < s.len() ==> s[k].num() != 0real)
}
/// dropping leading zeros changes no coefficient
pub proof fn skip_same<N: Num>(s: Seq<N>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).num() == 0real
    ensures forall|d: int| #[trigger] dcn(s.skip(k), d) == dcn(s, d)
{ assert forall|d: int| #[trigger] dcn(s.skip(k), d) == dcn(s, d) by { if 0 <= d < s.len() && !(d < s.len() - k) { assert(s[s.len() - 1 - d].num() == 0real); } } }
%fn polynomial::first_nonzero_index
%props C17
%generic : Num + Copy
%params coeffs
%ensures
    lead(coeffs@, r as int),
%loop 0
    forall|i: int| 0 <= i < __i0 * 4 ==> (#[trigger] coeffs@[i]).num() == 0real,
%loop 1
    forall|i: int| 0 <= i < degree * 4 + __i1 ==> (#[trigger] coeffs@[i]).num() == 0real,
%loop 2
    len == (coeffs@.len() / 4) * 4 + __i2,
    forall|i: int| 0 <= i < len ==> (#[trigger] coeffs@[i]).num() == 0real,
%at fn.start
    proof { broadcast use slice_len_ax; }
%fn Polynomial::new
%props C17
%generic : Num + Copy
%params terms
%ensures
    forall|d: int| #[trigger] dcn(r.terms@, d) == dcn(terms@, d),
%fn Polynomial::trim
%props C17
%generic : Num + Copy
%ensures
    forall|d: int| #[trigger] dcn(final(self).terms@, d) == dcn(old(self).terms@, d),
%at fn.start
    let ghost t0 = self.terms@;
%at fn.end
    proof { skip_same(t0, ind as int); assert(self.terms@ =~= t0.skip(ind as int)); }
%fn SparsePolynomial::new
%props C17
%generic : Copy
%params terms
%ensures
    r.terms@ == terms@,
%fn Monomial::new
%props C17
%generic  
%params coefficient degree
%ensures
    r.coefficient == coefficient && r.deg == degree,
%fn LinearBinomial::new
%props C17
%generic  
%params coefficients
%ensures
    r.coefficients == coefficients,
%fn QuadraticTrinomial::new
%props C17
%generic  
%params coefficients
%ensures
    r.coefficients == coefficients,
%each A,B u8,u16 u8,u32 u8,u64 u8,u128 u16,u32 u16,u64 u16,u128 u32,u64 u32,u128 u64,u128 u8,i16 u8,i32 u8,i64 u8,i128 u16,i32 u16,i64 u16,i128 u32,i64 u32,i128 u64,i128 i8,i16 i8,i32 i8,i64 i8,i128 i16,i32 i16,i64 i16,i128 i32,i64 i32,i128 i64,i128 u8,f32 u16,f32 i8,f32 i16,f32 u8,f64 u16,f64 u32,f64 i8,f64 i16,f64 i32,f64 f32,f64
%fn <Polynomial<$B> as From<Polynomial<$A>>>::from
%props C17
%params item
%ensures
    forall|d: int| #[trigger] dcn(r.terms@, d) == dcn(item.terms@, d),
%at fn.start
    proof { broadcast use in_f32_ax, in_f64_ax; }
%type __c1 Vec<$B>
%loop 0
    __c1@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __c1@[i]).num() == __s0.s()[i].num(),
%fn <SparsePolynomial<$B> as From<SparsePolynomial<$A>>>::from
%props C17
%params item
%ensures
    forall|d: int| #[trigger] mcn(r.terms@, d) == mcn(item.terms@, d),
%at fn.start
    proof { broadcast use in_f32_ax, in_f64_ax; }
%type __c1 Vec<(usize, $B)>
%loop 0
    __c1@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __c1@[i]).0 == *(__s0.s()[i].0) && __c1@[i].1.num() == __s0.s()[i].1.num(),
%at loop.0.after
    proof { same_entries(item.terms@, __c1@); }
%fn <Monomial<$B> as From<Monomial<$A>>>::from
%props C17
%params item
%ensures
    r.coefficient.num() == item.coefficient.num() && r.deg == item.deg,
%at fn.start
    proof { broadcast use in_f32_ax, in_f64_ax; }
%fn <LinearBinomial<$B> as From<LinearBinomial<$A>>>::from
%props C17
%params item
%ensures
    forall|i: int| 0 <= i < 2 ==> (#[trigger] r.coefficients@[i]).num() == item.coefficients@[i].num(),
%at fn.start
    proof { broadcast use in_f32_ax, in_f64_ax; }
%fn <QuadraticTrinomial<$B> as From<QuadraticTrinomial<$A>>>::from
%props C17
%params item
%ensures
    forall|i: int| 0 <= i < 3 ==> (#[trigger] r.coefficients@[i]).num() == item.coefficients@[i].num(),
%at fn.start
    proof { broadcast use in_f32_ax, in_f64_ax; }
%endeach
