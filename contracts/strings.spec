%# Display (C16)
%raw strings
/// x, with the exponent unless it is 1; nothing for degree 0
pub open spec fn xs(d: int) -> Seq<char> { if d == 0 { Seq::empty() } else if d == 1 { seq!['x'] } else { seq!['x', '^'] + dec(d) } }
/// the first term: a coefficient of 1 or -1 only shows its sign, unless the degree is 0
pub open spec fn lead_text(x: real, d: int) -> Seq<char> {
    (if d != 0 && x == 1real { Seq::empty() } else if d != 0 && x == -1real { seq!['-'] } else { zt(x) }) + xs(d)
}
/// a further term: " + " or " - " by its sign, then its magnitude
pub open spec fn trail(x: real, d: int) -> Seq<char> {
    seq![' ', if x > 0real { '+' } else { '-' }, ' '] + (if d != 0 && (x == 1real || x == -1real) { Seq::empty() } else { zmag(x) }) + xs(d)
}
/// the text of the first k terms
pub open spec fn text_to(s: Seq<(Z, usize)>, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() } else if k == 1 { lead_text(s[0].0.v(), s[0].1 as int) } else { text_to(s, k - 1) + trail(s[k - 1].0.v(), s[k - 1].1 as int) }
}
pub open spec fn text_of(s: Seq<(Z, usize)>) -> Seq<char> { if s.len() == 0 { seq!['0'] } else { text_to(s, s.len() as int) } }
/// the text of a polynomial: its nonzero terms in descending degree
pub open spec fn terms_of(c: F) -> Seq<(Z, usize)> { choose|s: Seq<(Z, usize)>| is_terms(s, c) }
pub open spec fn ptext(c: F) -> Seq<char> { text_of(terms_of(c)) }
pub proof fn text_same(a: Seq<(Z, usize)>, b: Seq<(Z, usize)>, k: int)
    requires same_terms(a, b), k <= a.len()
    ensures text_to(a, k) == text_to(b, k)
    decreases k
{ if k > 1 { text_same(a, b, k - 1); } if k >= 1 { assert(a[k - 1].0.v() == b[k - 1].0.v() && a[k - 1].1 == b[k - 1].1); } }
/// whichever list of the terms the body walks through, it is the list of the specification
pub proof fn the_terms(c: F)
    ensures forall|s: Seq<(Z, usize)>| #[trigger] is_terms(s, c) ==> same_terms(s, terms_of(c)) && ptext(c) == text_of(s)
{
    assert forall|s: Seq<(Z, usize)>| #[trigger] is_terms(s, c) implies same_terms(s, terms_of(c)) && ptext(c) == text_of(s) by {
        terms_same(s, terms_of(c), c, c); text_same(s, terms_of(c), s.len() as int);
    }
}
pub proof fn one_term<P: HasC>(p: &P, x: real, d: int)
    requires forall|e: int| #[trigger] cf(p)(e) == if e == d { x } else { 0real }, 0 <= d <= usize::MAX
    ensures x != 0real ==> (exists|z: Z| z.v() == x) ==> ptext(cf(p)) == lead_text(x, d), x == 0real ==> ptext(cf(p)) == seq!['0']
{
    the_terms(cf(p));
    if x == 0real { assert(is_terms(Seq::<(Z, usize)>::empty(), cf(p))); }
    else if exists|z: Z| z.v() == x {
        let z = choose|z: Z| z.v() == x;
        let s = seq![(z, d as usize)];
        assert forall|e: int| #[trigger] cf(p)(e) != 0real implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == e by { assert(s[0].1 == e); }
        assert(is_terms(s, cf(p)));
        assert(text_of(s) == lead_text(x, d));
    }
}
%fn strings::write_leading_term
%props C16
%params f coeff degree
%requires
    coeff.v() != 0real,
%ensures
    wrote(*old(f), *final(f), r, lead_text(coeff.v(), degree as int)),
%fn strings::write_trailing_term
%props C16
%params f coeff degree
%requires
    coeff.v() != 0real,
%ensures
    wrote(*old(f), *final(f), r, trail(coeff.v(), degree as int)),
%at fn.start
    proof { zt_ax(coeff.v()); }
%each T Polynomial SparsePolynomial LinearBinomial QuadraticTrinomial
%implextra <$T as Display>
open spec fn shown(&self) -> Seq<char> { ptext(cf(self)) }
%fn <$T as Display>::fmt
%props C16
%params f
%at fn.start
    proof { the_terms(cf(self)); }
%loop 0
    f.sound() == old(f).sound(), f.t() =~= old(f).t() + text_to(terms_of(cf(self)), __i0 + 1),
    __s0.s().len() + 1 == terms_of(cf(self)).len(),
    forall|i: int| 0 <= i < __s0.s().len() ==> (#[trigger] __s0.s()[i]).0.v() == terms_of(cf(self))[i + 1].0.v() && __s0.s()[i].1 == terms_of(cf(self))[i + 1].1 && __s0.s()[i].0.v() != 0real,
%endeach
%implextra <Monomial as Display>
open spec fn shown(&self) -> Seq<char> { ptext(cf(self)) }
%fn <Monomial as Display>::fmt
%props C16
%params f
%at fn.start
    proof { one_term(self, self.coefficient.v(), self.deg as int); }
%implextra <Integral<P> as Display>
open spec fn shown(&self) -> Seq<char> { if is0(&self.polynomial) { seq!['C'] } else { self.polynomial.shown() + seq![' ', '+', ' ', 'C'] } }
%fn <Integral<P> as Display>::fmt
%props C16
%params f
%end
