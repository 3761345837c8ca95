%# Parsing (C15)
%raw terms
// ---- one term
pub open spec fn blank(c: char) -> bool { c == ' ' || c == ',' || c == '_' }
pub open spec fn numch(c: char) -> bool { c == '+' || c == '-' || c == '.' || digit(c) }
pub open spec fn num_ok(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> numch(#[trigger] t[i]) }
/// the text without blanks, commas and underscores
pub open spec fn strip(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { t } else if blank(t.last()) { strip(t.drop_last()) } else { strip(t.drop_last()).push(t.last()) }
}
/// the first place of a character, or the length
pub open spec fn find(t: Seq<char>, c: char) -> int decreases t.len() {
    if t.len() == 0 { 0 } else if t[0] == c { 0 } else { 1 + find(t.skip(1), c) }
}
/// the coefficient written in front of x
pub open spec fn cval(a: Seq<char>) -> Option<real> {
    if a.len() == 0 { Some(1real) } else if a.len() == 1 && (a[0] == '+' || a[0] == '-') { np(a.push('1')) } else { np(a) }
}
/// what a term means: nothing, a coefficient and a degree, or one of the texts that are left open
pub enum TT { Bad, Is(real, int), Open(int) }
pub open spec fn tt(u: Seq<char>) -> TT {
    let k = find(u, 'x');
    if k >= u.len() {
        if num_ok(u) && np(u) is Some { TT::Is(np(u)->Some_0, 0) } else { TT::Bad }
    } else {
        let a = u.take(k);
        let w = u.skip(k + 1);
        if !num_ok(a) || cval(a) is None { TT::Bad }
        else if w.len() == 0 { TT::Is(cval(a)->Some_0, 1) }
        else if w[0] == '^' {
            let e = w.skip(1);
            if e.len() == 0 || !num_ok(e) || up(e) is None { TT::Bad } else { TT::Is(cval(a)->Some_0, up(e)->Some_0) }
        } else {
            // characters between x and ^, or no ^ at all
            let j = find(w, '^');
            let e = if j < w.len() { w.take(j) + w.skip(j + 1) } else { w };
            if !num_ok(e) || up(e) is None { TT::Bad } else { TT::Open(up(e)->Some_0) }
        }
    }
}
pub proof fn find_is(t: Seq<char>, c: char)
    ensures 0 <= find(t, c) <= t.len(), find(t, c) < t.len() ==> t[find(t, c)] == c, forall|i: int| 0 <= i < find(t, c) ==> #[trigger] t[i] != c
    decreases t.len()
{
    if t.len() > 0 && t[0] != c {
        find_is(t.skip(1), c);
        assert forall|i: int| 0 <= i < find(t, c) implies #[trigger] t[i] != c by { if i > 0 { assert(t.skip(1)[i - 1] == t[i]); } }
    }
}
/// a place with c and none before it is the first
pub proof fn find_at(t: Seq<char>, c: char, k: int)
    requires 0 <= k <= t.len(), k < t.len() ==> t[k] == c, forall|i: int| 0 <= i < k ==> #[trigger] t[i] != c
    ensures find(t, c) == k
{ find_is(t, c); let f = find(t, c); if f < k { assert(t[f] != c); } else if k < f { assert(t[k] == c); } }
pub proof fn strip_step(t: Seq<char>, i: int)
    requires 0 <= i < t.len()
    ensures strip(t.take(i + 1)) == if blank(t[i]) { strip(t.take(i)) } else { strip(t.take(i)).push(t[i]) }
{ assert(t.take(i + 1).drop_last() =~= t.take(i)); }
/// what was read stays in front of the whole
pub proof fn strip_front(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures strip(t.take(i)).len() <= strip(t).len(), forall|j: int| 0 <= j < strip(t.take(i)).len() ==> #[trigger] strip(t.take(i))[j] == strip(t)[j]
    decreases t.len() - i
{
    if i < t.len() {
        strip_step(t, i); strip_front(t, i + 1);
        let (p, q) = (strip(t.take(i)), strip(t.take(i + 1)));
        assert forall|j: int| 0 <= j < p.len() implies #[trigger] p[j] == strip(t)[j] by { assert(p[j] == q[j]); }
    } else { assert(t.take(i) =~= t); }
}
pub open spec fn legal(c: char) -> bool { numch(c) || c == 'x' || c == '^' }
/// whatever makes the scanner stop early makes the term meaningless
pub proof fn tt_good(u: Seq<char>)
    requires !(tt(u) is Bad)
    ensures forall|i: int| 0 <= i < u.len() ==> legal(#[trigger] u[i]),
        forall|i: int, j: int| 0 <= i < j < u.len() && #[trigger] u[i] == 'x' ==> #[trigger] u[j] != 'x',
        forall|i: int, j: int| 0 <= i < j < u.len() && #[trigger] u[i] == '^' ==> #[trigger] u[j] != '^',
        forall|j: int| 0 <= j < u.len() && #[trigger] u[j] == '^' ==> find(u, 'x') < j,
        forall|k: int| 0 <= k < u.len() && #[trigger] u[k] == 'x' ==> cval(u.take(k)) is Some,
{
    find_is(u, 'x');
    let k = find(u, 'x');
    if k < u.len() {
        let a = u.take(k);
        let w = u.skip(k + 1);
        assert forall|i: int| 0 <= i < k implies numch(#[trigger] u[i]) by { assert(a[i] == u[i]); }
        if w.len() == 0 { }
        else {
            find_is(w, '^');
            let j = find(w, '^');
            if w[0] == '^' { assert(j == 0); }
            let e = if j < w.len() { w.take(j) + w.skip(j + 1) } else { w };
            if w[0] == '^' { assert(e =~= w.skip(1)); }
            assert forall|i: int| k < i < u.len() implies if i - k - 1 == j { #[trigger] u[i] == '^' } else { numch(u[i]) } by {
                let m = i - k - 1;
                assert(w[m] == u[i]);
                if m < j { assert(e[m] == w[m]); } else if m > j { assert(e[m - 1] == w[m]); }
            }
        }
        assert forall|i: int| 0 <= i < u.len() implies legal(#[trigger] u[i]) && (u[i] == 'x' ==> i == k) by { if i < k { assert(numch(u[i])); } else if i > k { assert(u[i] == '^' || numch(u[i])); } }
    }
}
/// what the scanner knows after reading p
pub open spec fn scan(p: Seq<char>, num: Seq<char>, cv: real, sx: bool, sc: bool) -> bool {
    let k = find(p, 'x');
    if !sx { !sc && num == p && num_ok(p) && k == p.len() && cv == 1real }
    else {
        &&& 0 <= k < p.len()
        &&& num_ok(p.take(k)) && cval(p.take(k)) == Some(cv)
        &&& ({ let w = p.skip(k + 1); let j = find(w, '^'); if sc { 0 <= j < w.len() && num_ok(num) && num =~= w.take(j) + w.skip(j + 1) } else { j == w.len() && num == w && num_ok(w) } })
    }
}
pub proof fn find_push(t: Seq<char>, d: char, c: char)
    ensures find(t.push(d), c) == if find(t, c) < t.len() { find(t, c) } else if d == c { t.len() as int } else { t.len() as int + 1 }
{
    find_is(t, c);
    let f = find(t, c);
    let u = t.push(d);
    if f < t.len() { assert forall|i: int| 0 <= i < f implies #[trigger] u[i] != c by { assert(t[i] == u[i]); } find_at(u, c, f); }
    else if d == c { assert forall|i: int| 0 <= i < t.len() implies #[trigger] u[i] != c by { assert(t[i] == u[i]); } find_at(u, c, t.len() as int); }
    else { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != c by { if i < t.len() { assert(t[i] == u[i]); } } find_at(u, c, u.len() as int); }
}
pub proof fn scan_num(p: Seq<char>, num: Seq<char>, cv: real, sx: bool, sc: bool, c: char)
    requires scan(p, num, cv, sx, sc), numch(c)
    ensures scan(p.push(c), num.push(c), cv, sx, sc)
{
    find_push(p, c, 'x');
    find_is(p, 'x');
    let k = find(p, 'x');
    let q = p.push(c);
    if sx {
        let w = p.skip(k + 1);
        assert(q.take(k) =~= p.take(k));
        assert(q.skip(k + 1) =~= w.push(c));
        find_push(w, c, '^'); find_is(w, '^');
        let j = find(w, '^');
        if sc { assert(num.push(c) =~= w.push(c).take(j) + w.push(c).skip(j + 1)); }
    }
}
pub proof fn scan_x(p: Seq<char>, num: Seq<char>, cv: real, cv1: real)
    requires scan(p, num, cv, false, false), cval(p) == Some(cv1)
    ensures scan(p.push('x'), Seq::empty(), cv1, true, false)
{
    find_push(p, 'x', 'x');
    let q = p.push('x');
    assert(q.take(p.len() as int) =~= p);
    assert(q.skip(p.len() as int + 1) =~= Seq::empty());
}
pub proof fn scan_caret(p: Seq<char>, num: Seq<char>, cv: real)
    requires scan(p, num, cv, true, false)
    ensures scan(p.push('^'), num, cv, true, true)
{
    find_push(p, '^', 'x'); find_is(p, 'x');
    let k = find(p, 'x');
    let q = p.push('^');
    let w = p.skip(k + 1);
    assert(q.take(k) =~= p.take(k));
    assert(q.skip(k + 1) =~= w.push('^'));
    find_push(w, '^', '^');
    assert(num =~= w.push('^').take(w.len() as int) + w.push('^').skip(w.len() as int + 1));
}
/// the end of the text
pub proof fn scan_end(u: Seq<char>, num: Seq<char>, cv: real, sx: bool, sc: bool)
    requires scan(u, num, cv, sx, sc)
    ensures !sx ==> tt(u) == (if np(num) is Some { TT::Is(np(num)->Some_0, 0) } else { TT::Bad }),
        sx && num.len() == 0 && sc ==> tt(u) is Bad,
        sx && num.len() == 0 && !sc ==> tt(u) == TT::Is(cv, 1),
        sx && num.len() > 0 && up(num) is None ==> tt(u) is Bad,
        sx && num.len() > 0 && up(num) is Some ==> tt(u) == TT::Open(up(num)->Some_0) || tt(u) == TT::Is(cv, up(num)->Some_0),
{
    if sx {
        let k = find(u, 'x');
        let w = u.skip(k + 1);
        find_is(w, '^');
        let j = find(w, '^');
        if sc {
            if w[0] == '^' { assert(j == 0); assert(num =~= w.skip(1)); }
            else { if w.len() == 1 { assert(j == 0); } assert(num =~= w.take(j) + w.skip(j + 1)); assert(num.len() == w.len() - 1); }
        } else if w.len() > 0 { assert(w[0] != '^'); }
    }
}
// ---- the terms of a text
pub open spec fn sign(c: char) -> bool { c == '+' || c == '-' }
/// something else than white space before i
pub open spec fn begun(t: Seq<char>, i: int) -> bool { exists|j: int| 0 <= j < i && !white(#[trigger] t[j]) }
/// a term starts at each sign that is not the first thing
pub open spec fn cut(t: Seq<char>, i: int) -> bool { 0 <= i < t.len() && sign(t[i]) && begun(t, i) }
/// the next start after i, or the end
pub open spec fn nextcut(t: Seq<char>, i: int) -> int decreases t.len() - i {
    if i + 1 >= t.len() { t.len() as int } else if cut(t, i + 1) { i + 1 } else { nextcut(t, i + 1) }
}
/// the starts and ends of the terms, from the term that starts at i
pub open spec fn toks(t: Seq<char>, i: int) -> Seq<(int, int)> decreases t.len() - i via toks_dec {
    if i >= t.len() { Seq::empty() } else { seq![(i, nextcut(t, i))] + toks(t, nextcut(t, i)) }
}
#[via_fn]
proof fn toks_dec(t: Seq<char>, i: int) { if i < t.len() { nextcut_is(t, i); } }
pub proof fn nextcut_is(t: Seq<char>, i: int)
    requires i < t.len()
    ensures i < nextcut(t, i) <= t.len(), nextcut(t, i) < t.len() ==> cut(t, nextcut(t, i)), forall|j: int| i < j < nextcut(t, i) ==> !#[trigger] cut(t, j)
    decreases t.len() - i
{ if i + 1 < t.len() && !cut(t, i + 1) { nextcut_is(t, i + 1); } }
pub proof fn nextcut_at(t: Seq<char>, i: int, k: int)
    requires i < k <= t.len(), k < t.len() ==> cut(t, k), forall|j: int| i < j < k ==> !#[trigger] cut(t, j)
    ensures nextcut(t, i) == k
{ nextcut_is(t, i); let n = nextcut(t, i); if n < k { assert(!cut(t, n)); } else if k < n { assert(!cut(t, k)); } }
pub proof fn begun_step(t: Seq<char>, i: int)
    requires 0 <= i < t.len()
    ensures begun(t, i + 1) == (begun(t, i) || !white(t[i])), i == 0 ==> !begun(t, i)
{ if begun(t, i) { let j = choose|j: int| 0 <= j < i && !white(#[trigger] t[j]); assert(!white(t[j])); } }
impl<'a> TermTokenizer<'a> {
    pub open spec fn text(&self) -> Seq<char> { self.char_indices.all() }
    /// where the next term starts
    pub open spec fn at(&self) -> int { pos(self.text(), self.start_index as int) }
    pub open spec fn wf(&self) -> bool {
        let t = self.text();
        &&& 0 <= self.at() <= t.len() && self.start_index == off(t, self.at())
        &&& self.len == off(t, t.len() as int)
        &&& 0 <= self.char_indices.i() <= t.len()
        &&& self.seen_start == begun(t, self.char_indices.i())
        &&& if self.at() == t.len() { self.char_indices.i() == t.len() } else { self.at() <= self.char_indices.i() && (self.at() > 0 ==> self.at() < self.char_indices.i()) && forall|j: int| self.at() < j < self.char_indices.i() ==> !#[trigger] cut(t, j) }
    }
}
pub open spec fn rng(t: Seq<char>, k: Seq<(int, int)>) -> Seq<Range<usize>> { Seq::new(k.len(), |i: int| Range { start: off(t, k[i].0) as usize, end: off(t, k[i].1) as usize }) }
impl<'a> VInto for TermTokenizer<'a> {
    type Item = Range<usize>;
    open spec fn iv(&self) -> Seq<Range<usize>> { rng(self.text(), toks(self.text(), self.at())) }
    open spec fn ireq(&self) -> bool { self.wf() }
    /// a for loop takes the items of next() until it says None
    fn v_into_(self) -> (r: It<Range<usize>>) {
        let mut t = self;
        let mut v: Vec<Range<usize>> = Vec::new();
        #[verifier::loop_isolation(false)]
        #[verifier::allow_complex_invariants]
        loop
            invariant t.wf(), t.text() == self.text(), v@ + rng(self.text(), toks(self.text(), t.at())) =~= rng(self.text(), toks(self.text(), self.at())),
            ensures t.at() >= self.text().len(),
            decreases self.text().len() - t.at(),
        {
            let ghost a = t.at();
            proof { if a < t.text().len() { nextcut_is(t.text(), a); } }
            match t.next() { Some(x) => { v.push(x); } None => { break; } }
        }
        v_into(v)
    }
}
// ---- the polynomial written
pub open spec fn piece(t: Seq<char>, k: int) -> Seq<char> { t.subrange(toks(t, 0)[k].0, toks(t, 0)[k].1) }
pub open spec fn tk(t: Seq<char>) -> Seq<TT> { Seq::new(toks(t, 0).len(), |k: int| tt(strip(piece(t, k)))) }
pub proof fn toks_in(t: Seq<char>, i: int)
    requires 0 <= i
    ensures forall|k: int| 0 <= k < toks(t, i).len() ==> i <= (#[trigger] toks(t, i)[k]).0 < toks(t, i)[k].1 <= t.len()
    decreases t.len() - i
{
    if i < t.len() {
        nextcut_is(t, i); toks_in(t, nextcut(t, i));
        let (q, p) = (toks(t, i), toks(t, nextcut(t, i)));
        assert forall|k: int| 0 <= k < q.len() implies i <= (#[trigger] q[k]).0 < q[k].1 <= t.len() by { if k > 0 { assert(q[k] == p[k - 1]); } }
    }
}
/// the slice of the k-th range is the k-th piece
pub proof fn cut_piece(t: Seq<char>, k: int)
    requires 0 <= k < toks(t, 0).len(), off(t, t.len() as int) <= usize::MAX
    ensures ({ let r = rng(t, toks(t, 0))[k]; bound(t, r.start as int) && bound(t, r.end as int) && r.start <= r.end && t.subrange(pos(t, r.start as int), pos(t, r.end as int)) == piece(t, k) })
{
    toks_in(t, 0);
    let (a, b) = toks(t, 0)[k];
    assert(0 <= a < b <= t.len());
    pos_off(t, a); pos_off(t, b); off_mono(t, a, b);
    if b < t.len() { off_mono(t, b, t.len() as int); }
    assert(0 <= off(t, a)) by { if a > 0 { off_mono(t, 0, a); } }
}
/// a nonzero sum has a nonzero term
pub proof fn some_term(q: Seq<TT>, n: int)
    requires 0 <= n <= q.len()
    ensures forall|d: int| #[trigger] ksum(q, n, d) != 0real ==> has_term(q, n, d)
    decreases n
{
    if n > 0 {
        some_term(q, n - 1);
        assert forall|d: int| #[trigger] ksum(q, n, d) != 0real implies has_term(q, n, d) by {
            if ksum(q, n - 1, d) != 0real { assert(has_term(q, n - 1, d)); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] q[i] is Is && q[i]->Is_1 == d && q[i]->Is_0 != 0real; assert(q[i] is Is); }
            else { assert(q[n - 1] is Is); }
        }
    }
}
pub open spec fn has_term(q: Seq<TT>, n: int, d: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] q[i] is Is && q[i]->Is_1 == d && q[i]->Is_0 != 0real }
pub open spec fn all_is(q: Seq<TT>) -> bool { forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] is Is }
pub open spec fn ksum(q: Seq<TT>, n: int, d: int) -> real decreases n {
    if n <= 0 { 0real } else { ksum(q, n - 1, d) + match q[n - 1] { TT::Is(v, e) => if e == d { v } else { 0real }, _ => 0real } }
}
/// what a linear or quadratic holds: no nonzero term of a higher degree
pub open spec fn yes(q: Seq<TT>) -> bool { true }
pub open spec fn to1(q: Seq<TT>) -> bool { to_deg(q, 1) }
pub open spec fn to2(q: Seq<TT>) -> bool { to_deg(q, 2) }
pub open spec fn to_deg(q: Seq<TT>, n: int) -> bool { forall|i: int| 0 <= i < q.len() ==> match #[trigger] q[i] { TT::Is(v, e) => v == 0real || e <= n, _ => true } }
/// what a monomial holds: nonzero terms of one degree
pub open spec fn one_deg(q: Seq<TT>) -> bool {
    forall|i: int, j: int| 0 <= i < j < q.len() && q[i] is Is && q[j] is Is && (#[trigger] q[i])->Is_0 != 0real && (#[trigger] q[j])->Is_0 != 0real ==> q[i]->Is_1 == q[j]->Is_1
}
// ---- reading back what Display writes
pub open spec fn mag(x: real, d: int) -> Seq<char> { if d != 0 && (x == 1real || x == -1real) { Seq::empty() } else { zmag(x) } }
pub open spec fn head(x: real, d: int) -> Seq<char> { if d != 0 && x == 1real { Seq::empty() } else if d != 0 && x == -1real { seq!['-'] } else { zt(x) } }
pub open spec fn solid(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> !blank(#[trigger] t[i]) && !white(t[i]) }
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> !sign(#[trigger] t[i]) }
pub proof fn strip_solid(t: Seq<char>)
    requires solid(t)
    ensures strip(t) == t
    decreases t.len()
{ if t.len() > 0 { assert forall|i: int| 0 <= i < t.drop_last().len() implies !blank(#[trigger] t.drop_last()[i]) && !white(t.drop_last()[i]) by { assert(t[i] == t.drop_last()[i]); } strip_solid(t.drop_last()); assert(t.drop_last().push(t.last()) =~= t); } }
pub proof fn strip_cat(a: Seq<char>, b: Seq<char>)
    ensures strip(a + b) == strip(a) + strip(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(strip(a) + strip(b) =~= strip(a)); }
    else {
        strip_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((strip(a) + strip(b.drop_last())).push(b.last()) =~= strip(a) + strip(b.drop_last()).push(b.last()));
    }
}
pub proof fn xs_is(d: int)
    requires 0 <= d <= usize::MAX
    ensures solid(xs(d)), plain(xs(d)), d > 1 ==> num_ok(dec(d)) && dec(d).len() > 0 && up(dec(d)) == Some(d)
{
    dec_ax(d); rt_up(d as usize); white_ax('x'); white_ax('^');
    assert forall|i: int| 0 <= i < xs(d).len() implies !blank(#[trigger] xs(d)[i]) && !white(xs(d)[i]) && !sign(xs(d)[i]) by { if i >= 2 { let c = dec(d)[i - 2]; assert(xs(d)[i] == c); assert(digit(c)); white_ax(c); } }
}
/// a coefficient text and x^d mean that coefficient at d
pub proof fn tt_of(a: Seq<char>, x: real, d: int)
    requires 0 <= d <= usize::MAX, num_ok(a), d == 0 ==> np(a) == Some(x), d != 0 ==> cval(a) == Some(x)
    ensures tt(a + xs(d)) == TT::Is(x, d)
{
    xs_is(d);
    let u = a + xs(d);
    let k = a.len() as int;
    assert forall|i: int| 0 <= i < k implies #[trigger] u[i] != 'x' by { assert(numch(a[i])); }
    find_at(u, 'x', k);
    assert(u.take(k) =~= a);
    if d == 0 { assert(u =~= a); }
    else if d == 1 { assert(u.skip(k + 1) =~= Seq::empty()); }
    else { let w = u.skip(k + 1); assert(w =~= seq!['^'] + dec(d)); assert(w.skip(1) =~= dec(d)); assert(w[0] == '^'); }
}
pub proof fn zt_is(z: Z)
    requires z.v() != 0real
    ensures num_ok(zmag(z.v())), solid(zmag(z.v())), plain(zmag(z.v())), num_ok(zt(z.v())), solid(zt(z.v())),
        zt(z.v()) == (if z.v() < 0real { seq!['-'] + zmag(z.v()) } else { zmag(z.v()) })
{
    let x = z.v();
    zt_ax(x); white_ax('-'); white_ax('.');
    if x < 0real { assert(zt(x) =~= seq!['-'] + zmag(x)); }
    assert forall|i: int| 0 <= i < zmag(x).len() implies numch(#[trigger] zmag(x)[i]) && !blank(zmag(x)[i]) && !white(zmag(x)[i]) && !sign(zmag(x)[i]) by { white_ax(zmag(x)[i]); assert(digit(zmag(x)[i]) || zmag(x)[i] == '.'); }
    assert forall|i: int| 0 <= i < zt(x).len() implies numch(#[trigger] zt(x)[i]) && !blank(zt(x)[i]) && !white(zt(x)[i]) by { if x < 0real { if i > 0 { assert(zt(x)[i] == zmag(x)[i - 1]); } } else { assert(zt(x)[i] == zmag(x)[i]); } }
}
/// the first term
pub proof fn lead_is(z: Z, d: int)
    requires z.v() != 0real, 0 <= d <= usize::MAX
    ensures ({ let t = lead_text(z.v(), d); solid(t) && t.len() > 0 && plain(t.skip(1)) && tt(t) == TT::Is(z.v(), d) })
{
    let x = z.v();
    zt_is(z); rt_ax(z); xs_is(d); zt_ax(x); white_ax('-');
    let h = head(x, d);
    let t = lead_text(x, d);
    assert(t =~= h + xs(d));
    if d != 0 && x == -1real { assert(h.push('1') =~= seq!['-'] + zmag(x)); }
    if h.len() == 1 && x != -1real && x < 0real { assert(zmag(x).len() == 0); }
    if h.len() == 1 && x > 0real { assert(h[0] == zmag(x)[0]); assert(numch(zmag(x)[0])); assert(!sign(zmag(x)[0])); }
    assert(num_ok(h));
    tt_of(h, x, d);
    assert forall|i: int| 0 <= i < t.len() implies !blank(#[trigger] t[i]) && !white(t[i]) by { if i < h.len() { assert(t[i] == h[i]); } else { assert(t[i] == xs(d)[i - h.len()]); } }
    assert forall|i: int| 0 <= i < t.skip(1).len() implies !sign(#[trigger] t.skip(1)[i]) by {
        let j = i + 1;
        if j < h.len() { assert(t[j] == h[j]); if x < 0real { assert(h[j] == zmag(x)[j - 1]); } else { assert(h[j] == zmag(x)[j]); } } else { assert(t[j] == xs(d)[j - h.len()]); }
    }
}
/// a further term, without its blanks
pub open spec fn tail(x: real, d: int) -> Seq<char> { seq![if x > 0real { '+' } else { '-' }] + mag(x, d) + xs(d) }
pub proof fn tail_is(z: Z, d: int)
    requires z.v() != 0real, 0 <= d <= usize::MAX
    ensures tt(tail(z.v(), d)) == TT::Is(z.v(), d), solid(mag(z.v(), d) + xs(d)), plain(mag(z.v(), d) + xs(d))
{
    let x = z.v();
    zt_is(z); rt_ax(z); xs_is(d); zt_ax(x);
    let g = seq![if x > 0real { '+' } else { '-' }];
    let m = mag(x, d);
    let h = g + m;
    assert(tail(x, d) =~= h + xs(d));
    assert forall|i: int| 0 <= i < h.len() implies numch(#[trigger] h[i]) by { if i > 0 { assert(h[i] == m[i - 1]); } }
    if d != 0 && (x == 1real || x == -1real) { assert(h =~= g); assert(h.push('1') =~= g + zmag(x)); }
    else { assert(m.len() > 0); }
    tt_of(h, x, d);
    let t = m + xs(d);
    assert forall|i: int| 0 <= i < t.len() implies !blank(#[trigger] t[i]) && !white(t[i]) && !sign(t[i]) by { if i < m.len() { assert(t[i] == m[i]); } else { assert(t[i] == xs(d)[i - m.len()]); } }
}
pub open spec fn nz(s: Seq<(Z, usize)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.v() != 0real }
/// the k-th term starts here in the text
pub open spec fn st(s: Seq<(Z, usize)>, k: int) -> int { if k <= 0 { 0 } else { text_to(s, k).len() as int + 1 } }
pub open spec fn en(s: Seq<(Z, usize)>, k: int) -> int { if k + 1 >= s.len() { text_to(s, s.len() as int).len() as int } else { st(s, k + 1) } }
/// what was written stays in front
pub proof fn text_front(s: Seq<(Z, usize)>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures text_to(s, k).len() <= text_to(s, n).len(), text_to(s, n).take(text_to(s, k).len() as int) == text_to(s, k)
    decreases n - k
{
    if k < n { text_front(s, k, n - 1); let a = text_to(s, n - 1); let b = text_to(s, n);
        if n > 1 { assert(b.take(a.len() as int) =~= a); assert(b.take(text_to(s, k).len() as int) =~= a.take(text_to(s, k).len() as int)); } else { assert(b.take(0) =~= Seq::empty()); } }
    else { assert(text_to(s, n).take(text_to(s, n).len() as int) =~= text_to(s, n)); }
}
/// the text between the ends of two terms
pub proof fn seg(s: Seq<(Z, usize)>, k: int)
    requires 1 <= k < s.len(), nz(s)
    ensures ({
        let t = text_to(s, s.len() as int); let a = text_to(s, k).len() as int; let b = text_to(s, k + 1).len() as int; let tr = trail(s[k].0.v(), s[k].1 as int);
        0 <= a && b == a + tr.len() && b <= t.len() && tr.len() >= 3 && t.subrange(a, b) == tr
    })
{
    text_front(s, k, s.len() as int); text_front(s, k + 1, s.len() as int); text_front(s, k, k + 1);
    let t = text_to(s, s.len() as int); let a = text_to(s, k); let b = text_to(s, k + 1); let tr = trail(s[k].0.v(), s[k].1 as int);
    assert(b =~= a + tr);
    assert(t.subrange(a.len() as int, b.len() as int) =~= b.skip(a.len() as int)) by { assert(t.take(b.len() as int) =~= b); assert forall|i: int| 0 <= i < tr.len() implies t[a.len() + i] == #[trigger] b[a.len() + i] by { assert(t.take(b.len() as int)[a.len() + i] == b[a.len() + i]); } }
    assert(b.skip(a.len() as int) =~= tr);
}
pub proof fn strip_mid(g: Seq<char>, b: Seq<char>)
    requires solid(g), solid(b)
    ensures strip(g + (seq![' '] + b)) == g + b
{
    let e = seq![' '];
    strip_cat(g, e + b); strip_cat(e, b); strip_solid(b); strip_solid(g);
    assert(e.drop_last() =~= Seq::empty());
    assert(e.last() == ' ');
    assert(strip(e.drop_last()) =~= Seq::empty());
    assert(strip(e) =~= Seq::empty());
    assert(Seq::<char>::empty() + b =~= b);
}
/// where the signs are within a further term
pub proof fn trail_signs(z: Z, d: int)
    requires z.v() != 0real, 0 <= d <= usize::MAX
    ensures ({ let tr = trail(z.v(), d); tr.len() >= 3 && tr[0] == ' ' && sign(tr[1]) && tr[2] == ' ' && (forall|i: int| 2 <= i < tr.len() ==> !sign(#[trigger] tr[i])) && strip(tr.skip(1)) == tail(z.v(), d) })
{
    tail_is(z, d); white_ax('+'); white_ax('-');
    let x = z.v();
    let tr = trail(x, d); let b = mag(x, d) + xs(d); let g = seq![if x > 0real { '+' } else { '-' }];
    assert(tr =~= seq![' ', g[0], ' '] + b);
    assert forall|i: int| 2 <= i < tr.len() implies !sign(#[trigger] tr[i]) by { if i > 2 { assert(tr[i] == b[i - 3]); } }
    assert(tr.skip(1) =~= g + (seq![' '] + b));
    strip_mid(g, b);
    assert(tail(x, d) =~= g + b);
}
/// the term that starts at st(k) ends at en(k)
pub proof fn cut_at(s: Seq<(Z, usize)>, k: int)
    requires 0 <= k < s.len(), nz(s)
    ensures ({ let t = text_to(s, s.len() as int); 0 <= st(s, k) < en(s, k) <= t.len() && nextcut(t, st(s, k)) == en(s, k) })
{
    let n = s.len() as int;
    let t = text_to(s, n);
    let x0 = lead_text(s[0].0.v(), s[0].1 as int);
    lead_is(s[0].0, s[0].1 as int);
    text_front(s, 1, n);
    assert(text_to(s, 1) == x0);
    assert(t[0] == x0[0]) by { assert(t.take(x0.len() as int)[0] == x0[0]); }
    assert(!white(t[0]));
    let a = st(s, k); let e = en(s, k);
    let lk1 = text_to(s, k + 1).len() as int;
    // the term itself
    if k == 0 {
        assert forall|j: int| 0 < j < lk1 implies !#[trigger] cut(t, j) by { assert(t.take(lk1)[j] == t[j]); assert(x0.skip(1)[j - 1] == t[j]); }
    } else {
        seg(s, k); trail_signs(s[k].0, s[k].1 as int);
        let l = text_to(s, k).len() as int;
        let tr = trail(s[k].0.v(), s[k].1 as int);
        assert forall|j: int| a < j < lk1 implies !#[trigger] cut(t, j) by { assert(t.subrange(l, lk1)[j - l] == t[j]); assert(!sign(tr[j - l])); }
    }
    // the blank and the sign of the next
    if k + 1 < n {
        seg(s, k + 1); trail_signs(s[k + 1].0, s[k + 1].1 as int);
        let tr = trail(s[k + 1].0.v(), s[k + 1].1 as int);
        let b = text_to(s, k + 2).len() as int;
        assert(t.subrange(lk1, b)[0] == t[lk1]); assert(t.subrange(lk1, b)[1] == t[lk1 + 1]);
        assert(!cut(t, lk1));
        assert(begun(t, lk1 + 1)) by { assert(!white(t[0])); }
        assert(cut(t, e));
    }
    assert forall|j: int| a < j < e implies !#[trigger] cut(t, j) by { if j < lk1 { } else { assert(j == lk1); } }
    nextcut_at(t, a, e);
}
/// the terms of the text from the k-th on
pub proof fn toks_at(s: Seq<(Z, usize)>, k: int)
    requires 0 <= k < s.len(), nz(s)
    ensures ({ let q = toks(text_to(s, s.len() as int), st(s, k)); q.len() == s.len() - k && forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == (st(s, k + i), en(s, k + i)) })
    decreases s.len() - k
{
    let t = text_to(s, s.len() as int);
    cut_at(s, k);
    let q = toks(t, st(s, k));
    if k + 1 < s.len() {
        toks_at(s, k + 1);
        let p = toks(t, st(s, k + 1));
        assert(q =~= seq![(st(s, k), en(s, k))] + p);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == (st(s, k + i), en(s, k + i)) by { if i > 0 { assert(q[i] == p[i - 1]); assert(p[i - 1] == (st(s, k + 1 + (i - 1)), en(s, k + 1 + (i - 1)))); } }
    } else {
        assert(toks(t, en(s, k)) =~= Seq::empty());
        assert(q =~= seq![(st(s, k), en(s, k))]);
    }
}
/// what is cut out is the term, but for blanks
pub proof fn piece_is(s: Seq<(Z, usize)>, k: int)
    requires 0 <= k < s.len(), nz(s)
    ensures tt(strip(text_to(s, s.len() as int).subrange(st(s, k), en(s, k)))) == TT::Is(s[k].0.v(), s[k].1 as int)
{
    let n = s.len() as int;
    let t = text_to(s, n);
    let lk1 = text_to(s, k + 1).len() as int;
    let z = s[k].0; let d = s[k].1 as int;
    cut_at(s, k);
    text_front(s, k + 1, n);
    let own = if k == 0 { lead_text(z.v(), d) } else { trail(z.v(), d).skip(1) };
    let core = if k == 0 { lead_text(z.v(), d) } else { tail(z.v(), d) };
    if k == 0 { lead_is(z, d); strip_solid(own); assert(t.take(lk1) =~= own); }
    else { tail_is(z, d); trail_signs(z, d); seg(s, k); let l = text_to(s, k).len() as int; assert(t.subrange(l, lk1).skip(1) =~= t.subrange(st(s, k), lk1)); }
    assert(t.subrange(st(s, k), lk1) =~= own);
    assert(strip(own) == core);
    let p = t.subrange(st(s, k), en(s, k));
    if k + 1 < n {
        seg(s, k + 1); trail_signs(s[k + 1].0, s[k + 1].1 as int);
        let b = text_to(s, k + 2).len() as int;
        assert(t.subrange(lk1, b)[0] == t[lk1]);
        assert(p =~= own.push(' '));
        assert(p.drop_last() =~= own);
        assert(strip(p) == strip(own));
    } else { assert(p =~= own); }
}
/// the text of a list of terms is read as that list
pub proof fn read_back(s: Seq<(Z, usize)>)
    requires nz(s), s.len() > 0
    ensures ({ let q = tk(text_of(s)); q.len() == s.len() && all_is(q) && forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == TT::Is(s[i].0.v(), s[i].1 as int) })
{
    let t = text_of(s);
    let q = tk(t);
    toks_at(s, 0);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == TT::Is(s[i].0.v(), s[i].1 as int) by { piece_is(s, i); assert(toks(t, 0)[i] == (st(s, i), en(s, i))); }
}
pub proof fn read_zero()
    ensures ({ let q = tk(seq!['0']); q.len() == 1 && q[0] == TT::Is(0real, 0) && all_is(q) })
{
    let t = seq!['0'];
    let q = tk(t);
    reveal_with_fuel(toks, 3); reveal_with_fuel(nextcut, 3);
    assert(toks(t, 0) =~= seq![(0int, 1int)]);
    assert(t.subrange(0, 1) =~= t);
    white_ax('0');
    strip_solid(t);
    rt_zero();
    tt_of(t, 0real, 0);
    assert(t + xs(0) =~= t);
}
pub proof fn ksum_list(q: Seq<TT>, s: Seq<(Z, usize)>, n: int, d: int)
    requires 0 <= n <= q.len(), q.len() == s.len(), forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == TT::Is(s[i].0.v(), s[i].1 as int)
    ensures ksum(q, n, d) == tsum(s, n, d)
    decreases n
{ if n > 0 { ksum_list(q, s, n - 1, d); assert(q[n - 1] == TT::Is(s[n - 1].0.v(), s[n - 1].1 as int)); } }
/// the text of a polynomial is read as its coefficients
pub proof fn round_trip(c: F, s: Seq<(Z, usize)>)
    requires is_terms(s, c)
    ensures ({
        let q = tk(ptext(c));
        &&& q.len() > 0 && all_is(q)
        &&& forall|d: int| #[trigger] ksum(q, q.len() as int, d) == c(d)
        &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i])->Is_0 == 0real && q[i]->Is_1 == 0 || q[i]->Is_0 != 0real && q[i]->Is_0 == c(q[i]->Is_1) && 0 <= q[i]->Is_1 <= usize::MAX
    })
{
    the_terms(c); tsum_terms(s, c);
    let q = tk(ptext(c));
    if s.len() == 0 {
        read_zero();
        assert forall|d: int| #[trigger] ksum(q, q.len() as int, d) == c(d) by { reveal_with_fuel(ksum, 2); if c(d) != 0real { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == d; } }
    } else {
        read_back(s);
        assert forall|d: int| #[trigger] ksum(q, q.len() as int, d) == c(d) by { ksum_list(q, s, q.len() as int, d); }
    }
}
%implextra <Term as FromStr>
    open spec fn can_parse(t: Seq<char>) -> bool { true }
    open spec fn parsed(t: Seq<char>, r: Result<Self, TermFromStringError>) -> bool {
        match tt(strip(t)) {
            TT::Bad => r is Err,
            TT::Is(v, d) => r is Ok && term_ok(v, d, r->Ok_0),
            TT::Open(d) => r is Ok ==> (r->Ok_0 is ZeroTerm || r->Ok_0->Term_1 == d && r->Ok_0->Term_0.v() != 0real),
        }
    }
%fn <Term as FromStr>::from_str
%props C15 C16
%params s
%type num_vec Vec<char>
%at fn.start
    proof { broadcast use unref_refs; assert(s@.take(0) =~= Seq::empty()); assert(find(Seq::<char>::empty(), 'x') == 0); }
%loop 0
    __s0.s() == s@, scan(strip(s@.take(__i0 as int)), num_vec@, coeff.v(), seen_x, seen_caret),
%at loop.0.start
    let ghost n0 = num_vec@; let ghost cv0 = coeff.v(); let ghost sx0 = seen_x; let ghost sc0 = seen_caret;
    let ghost p0 = strip(s@.take(__i0 - 1)); let ghost c0 = s@[__i0 - 1]; let ghost u = strip(s@);
    proof {
        strip_step(s@, __i0 - 1); strip_front(s@, __i0 as int); strip_front(s@, __i0 - 1);
        find_is(p0, 'x'); find_is(u, 'x');
        if !(tt(u) is Bad) { tt_good(u); }
        if !blank(c0) {
            assert(strip(s@.take(__i0 as int))[p0.len() as int] == c0);
            assert(u[p0.len() as int] == c0);
            assert(u.take(p0.len() as int) =~= p0);
            if sx0 { let k = find(p0, 'x'); assert(p0[k] == u[k]); let w = p0.skip(k + 1); find_is(w, '^'); if sc0 { let j = find(w, '^'); assert(w[j] == p0[k + 1 + j]); assert(u[k + 1 + j] == '^'); } }
            if !sx0 { assert forall|i: int| 0 <= i < p0.len() implies #[trigger] u[i] != 'x' by { assert(p0[i] == u[i]); } }
        }
        assert(n0.len() == 1 ==> n0.push('1') =~= seq![n0[0], '1']);
    }
%at loop.0.end
    proof {
        if blank(c0) { }
        else if numch(c0) { scan_num(p0, n0, cv0, sx0, sc0, c0); }
        else if c0 == 'x' { scan_x(p0, n0, cv0, coeff.v()); assert(num_vec@ =~= Seq::empty()); }
        else if c0 == '^' { scan_caret(p0, n0, cv0); }
    }
%at loop.0.after
    proof { assert(s@.take(s@.len() as int) =~= s@); scan_end(strip(s@), num_vec@, coeff.v(), seen_x, seen_caret); }
%fn TermTokenizer::new
%props C15 C16
%params s
%ensures
    r.wf(), r.text() == s@, r.at() == 0,
%at fn.start
    proof { pos_off(s@, 0); }
%implextra <TermTokenizer as Iterator>
    open spec fn nreq(&self) -> bool { self.wf() }
%fn <TermTokenizer as Iterator>::next
%props C15 C16
%ensures
    final(self).wf(), final(self).text() == old(self).text(),
    old(self).at() == old(self).text().len() ==> r is None && final(self).at() == old(self).at(),
    old(self).at() < old(self).text().len() ==> r is Some && (r->Some_0).start == off(old(self).text(), old(self).at()) && (r->Some_0).end == off(old(self).text(), nextcut(old(self).text(), old(self).at())) && final(self).at() == nextcut(old(self).text(), old(self).at()),
%at fn.start
    let ghost t = self.text();
    let ghost a = self.at();
    proof { white_ax('+'); white_ax('-'); pos_off(t, t.len() as int); if a < t.len() { pos_off(t, a); } }
%at loop.0.before
    #[verifier::allow_complex_invariants]
%loop 0
    invariant
    self.wf(), self.text() == old(self).text(), self.start_index == old(self).start_index,
    ensures
    self.char_indices.i() == self.text().len(),
%decreases 0
    self.text().len() - self.char_indices.i(),
%at loop.0.start
    let ghost i = self.char_indices.i() - 1;
    proof { pos_off(t, i); begun_step(t, i); if cut(t, i) { if i == 0 { } else { nextcut_at(t, a, i); } } }
%at loop.0.after
    proof { if a < t.len() { nextcut_at(t, a, t.len() as int); off_mono(t, a, t.len() as int); } }
%each T,H,G Polynomial,yes,p.terms.len() SparsePolynomial,yes,0 LinearBinomial,to1,0 QuadraticTrinomial,to2,0 Monomial,one_deg,0
%implextra <$T as FromStr>
    open spec fn can_parse(t: Seq<char>) -> bool { forall|i: int| 0 <= i < tk(t).len() ==> match #[trigger] tk(t)[i] { TT::Bad => true, TT::Is(_, d) => Self::fit(d), TT::Open(d) => Self::fit(d) } }
    open spec fn parsed(t: Seq<char>, r: Result<Self, PolynomialFromStringError>) -> bool {
        &&& tk(t).len() == 0 ==> r is Err
        &&& (exists|i: int| 0 <= i < tk(t).len() && #[trigger] tk(t)[i] is Bad) ==> r is Err
        &&& all_is(tk(t)) && r is Ok ==> forall|d: int| #[trigger] (r->Ok_0).c(d) == ksum(tk(t), tk(t).len() as int, d)
        &&& all_is(tk(t)) && tk(t).len() > 0 && $H(tk(t)) ==> r is Ok
    }
%fn <$T as FromStr>::from_str
%props C15 C16
%params s
%type __c1 Vec<Result<Term<N>, TermFromStringError>>
%at fn.start
    proof { toks_in(s@, 0); assert forall|i: int| 0 <= i <= s@.len() implies pos(s@, #[trigger] off(s@, i)) == i && bound(s@, off(s@, i)) by { pos_off(s@, i); } }
%loop 1
    __s1.s() == rng(s@, toks(s@, 0)), __c1@.len() == __i1,
    forall|k: int| 0 <= k < __i1 ==> Term::<N>::parsed(piece(s@, k), #[trigger] __c1@[k]),
%at loop.1.start
    proof { cut_piece(s@, __i1 - 1); }
%loop 0
    has_iterated == (__i0 > 0), __s0.s().len() == tk(s@).len(),
    forall|k: int| 0 <= k < __s0.s().len() ==> Term::<N>::parsed(piece(s@, k), #[trigger] __s0.s()[k]),
    forall|k: int| 0 <= k < __i0 ==> !(#[trigger] tk(s@)[k] is Bad),
    (forall|k: int| 0 <= k < __i0 ==> #[trigger] tk(s@)[k] is Is) ==> forall|d: int| #[trigger] polynomial.c(d) == ksum(tk(s@), __i0 as int, d),
%at loop.0.start
    proof { assert(Term::<N>::parsed(piece(s@, __i0 - 1), __s0.s()[__i0 - 1])); some_term(tk(s@), __i0 - 1); assert(tk(s@)[__i0 - 1] == tt(strip(piece(s@, __i0 - 1)))); }
    let ghost p0 = polynomial;
%at loop.0.end
    proof { assert forall|d: int| (forall|k: int| 0 <= k < __i0 ==> #[trigger] tk(s@)[k] is Is) implies #[trigger] polynomial.c(d) == ksum(tk(s@), __i0 as int, d) by { assert(p0.c(d) == ksum(tk(s@), __i0 - 1, d)); } }
%raw terms
/// displaying and parsing again gives the same polynomial: a client of the contracts of Display and FromStr
#[verifier::loop_isolation(false)]
fn reads_back_$T(p: &$T<N>) -> (r: Result<$T<N>, PolynomialFromStringError>)
    ensures r is Ok, forall|d: int| #[trigger] (r->Ok_0).c(d) == p.c(d)
{
    let v = p.terms_as_vec();
    let _n = $G;
    let t = v_cat(v_empty(), p); // p.to_string()
    proof {
        assert(t@ =~= p.shown()); round_trip(cf(p), v@);
        let q = tk(t@);
        assert forall|d: int| cf(p)(d) == #[trigger] p.c(d) by { }
        assert($H(q));
    }
    $T::from_str(t)
}
%endeach
%end
