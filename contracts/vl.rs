// Verification library: the vocabulary the extracted code is expressed in.
// Everything marked `external_body` / `assume_specification` here is an ASSUMED contract on
// the Rust standard library (counted in the evidence as trusted base); everything else is
// verified together with the extracted code.

// ---------------------------------------------------------------- text
pub open spec fn spec_contains(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p
}
pub open spec fn spec_starts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}
pub open spec fn spec_ends(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.skip(s.len() - p.len()) == p
}
/// Leftmost non-overlapping replacement of `p` by `q` (the documented meaning of str::replace).
pub open spec fn spec_replace(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() == 0 || s.len() < p.len() { s }
    else if s.take(p.len() as int) == p { q + spec_replace(s.skip(p.len() as int), p, q) }
    else { seq![s[0]] + spec_replace(s.skip(1), p, q) }
}

/// Without an occurrence there is nothing to replace.
pub broadcast proof fn vlemma_replace_none(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires !spec_contains(s, p) ensures #[trigger] spec_replace(s, p, q) == s decreases s.len()
{
    if p.len() == 0 || s.len() < p.len() {}
    else {
        assert(s.subrange(0, p.len() as int) =~= s.take(p.len() as int)); assert(0int + p.len() == p.len());
        let t = s.skip(1);
        assert forall|i: int| 0 <= i && i + p.len() <= t.len() implies #[trigger] t.subrange(i, i + p.len()) != p by {
            assert(t.subrange(i, i + p.len()) =~= s.subrange(i + 1, i + 1 + p.len()));
        }
        vlemma_replace_none(t, p, q);
        assert(seq![s[0]] + t =~= s);
    }
}

/// The pattern arguments of the `str` functions used by the code.
pub trait VPat: Sized {
    spec fn pat(&self) -> Seq<char>;
}
impl VPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> VPat for &'a str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
impl<'a> VPat for &'a String { open spec fn pat(&self) -> Seq<char> { (*self)@ } }

/// std's trimming and case folding, of which nothing but determinism is used
pub uninterp spec fn spec_trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn spec_trim_start(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn spec_trim_end(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn spec_trim_start_m(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn spec_trim_end_m(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn spec_lower(s: Seq<char>) -> Seq<char>;
pub trait VStrExt {
    spec fn sv(&self) -> Seq<char>;
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) ensures r == spec_contains(self.sv(), p.pat());
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == spec_starts(self.sv(), p.pat());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == spec_ends(self.sv(), p.pat());
    fn v_replace<P: VPat>(&self, p: P, q: &str) -> (r: String) ensures r@ == spec_replace(self.sv(), p.pat(), q@);
    fn v_trim(&self) -> (r: &str) ensures r@ == spec_trim(self.sv());
    fn v_trim_start(&self) -> (r: &str) ensures r@ == spec_trim_start(self.sv());
    fn v_trim_end(&self) -> (r: &str) ensures r@ == spec_trim_end(self.sv());
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) ensures r@ == spec_trim_start_m(self.sv(), p.pat());
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) ensures r@ == spec_trim_end_m(self.sv(), p.pat());
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures (r is Some) == spec_starts(self.sv(), p.pat()), r matches Some(x) ==> self.sv() == p.pat() + x@;
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures (r is Some) == spec_ends(self.sv(), p.pat()), r matches Some(x) ==> self.sv() == x@ + p.pat();
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (spec_lower(self.sv()) == spec_lower(o@));
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == spec_lower(self.sv());
}
impl VStrExt for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, q: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
}
impl VStrExt for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, q: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
}

pub trait VAsStr { fn v_as_ref(&self) -> (r: &str) ensures r@ == self.asv(); spec fn asv(&self) -> Seq<char>; }
impl VAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ } fn v_as_ref(&self) -> (r: &str) { self.as_str() } }
impl<'a> VAsStr for &'a String { open spec fn asv(&self) -> Seq<char> { (**self)@ } fn v_as_ref(&self) -> (r: &str) { self.as_str() } }
impl<'a> VAsStr for &'a str { open spec fn asv(&self) -> Seq<char> { (*self)@ } fn v_as_ref(&self) -> (r: &str) { *self } }

/// Display of the values the code formats.
pub trait VDisp { spec fn disp(&self) -> Seq<char>; fn vdisp_(&self) -> (r: String) ensures r@ == self.disp(); }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } fn vdisp_(&self) -> (r: String) { self.to_string() } }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } fn vdisp_(&self) -> (r: String) { self.clone() } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vdisp_(&self) -> (r: String) { (**self).vdisp_() } }
pub fn vdisp<T: VDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { x.vdisp_() }
pub fn vstr(x: &str) -> (r: String) ensures r@ == x@ { x.to_string() }
/// A character of the text and the string literal that holds just it (both emitted by the extraction from one character literal).
#[verifier::external_body] pub fn vstrc<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == s@, s@ == seq![c], forall|a: Seq<char>| #[trigger] a.push(c) == a + s@ { s }
pub fn vcat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { let mut a = a; a.push_str(b.as_str()); a }

/// Equality.
/// `Cow::Borrowed(x)`: the owned value.
pub trait VOwned { type O; spec fn owned_is(&self, r: &Self::O) -> bool; fn v_owned(&self) -> (r: Self::O) ensures self.owned_is(&r); }
impl VOwned for str { type O = String; open spec fn owned_is(&self, r: &String) -> bool { r@ == self@ } fn v_owned(&self) -> (r: String) { self.to_string() } }
impl VOwned for String { type O = String; open spec fn owned_is(&self, r: &String) -> bool { r@ == self@ } fn v_owned(&self) -> (r: String) { self.clone() } }
impl<T, const N: usize> VOwned for [T; N] { type O = Vec<T>; open spec fn owned_is(&self, r: &Vec<T>) -> bool { r@ == self@ } #[verifier::external_body] fn v_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
pub fn vowned<A: VOwned + ?Sized>(a: &A) -> (r: A::O) ensures a.owned_is(&r) { a.v_owned() }
pub trait VEq<R: ?Sized> { spec fn eqs(&self, r: &R) -> bool; fn veq_(&self, r: &R) -> (b: bool) ensures b == self.eqs(r); }
impl VEq<str> for str { open spec fn eqs(&self, r: &str) -> bool { self@ == r@ } fn veq_(&self, r: &str) -> (b: bool) { *self == *r } }
impl VEq<String> for String { open spec fn eqs(&self, r: &String) -> bool { self@ == r@ } fn veq_(&self, r: &String) -> (b: bool) { *self.as_str() == *r.as_str() } }
impl VEq<str> for String { open spec fn eqs(&self, r: &str) -> bool { self@ == r@ } fn veq_(&self, r: &str) -> (b: bool) { *self.as_str() == *r } }
impl<'a> VEq<&'a str> for String { open spec fn eqs(&self, r: &&'a str) -> bool { self@ == r@ } fn veq_(&self, r: &&'a str) -> (b: bool) { *self.as_str() == **r } }
impl<'a> VEq<String> for &'a str { open spec fn eqs(&self, r: &String) -> bool { self@ == r@ } fn veq_(&self, r: &String) -> (b: bool) { **self == *r.as_str() } }
impl<'a, 'b> VEq<&'b str> for &'a str { open spec fn eqs(&self, r: &&'b str) -> bool { self@ == r@ } fn veq_(&self, r: &&'b str) -> (b: bool) { **self == **r } }
impl VEq<usize> for usize { open spec fn eqs(&self, r: &usize) -> bool { *self == *r } fn veq_(&self, r: &usize) -> (b: bool) { *self == *r } }
impl VEq<char> for char { open spec fn eqs(&self, r: &char) -> bool { *self == *r } fn veq_(&self, r: &char) -> (b: bool) { *self == *r } }
impl VEq<bool> for bool { open spec fn eqs(&self, r: &bool) -> bool { *self == *r } fn veq_(&self, r: &bool) -> (b: bool) { *self == *r } }
impl<'a, 'b, T: VEq<U>, U> VEq<Option<U>> for Option<T> {
    open spec fn eqs(&self, r: &Option<U>) -> bool { match (self, r) { (Some(a), Some(b)) => a.eqs(b), (None, None) => true, _ => false } }
    fn veq_(&self, r: &Option<U>) -> (b: bool) { match (self, r) { (Some(a), Some(b)) => a.veq_(b), (None, None) => true, _ => false } }
}
pub fn veq<L: ?Sized + VEq<R>, R: ?Sized>(l: &L, r: &R) -> (b: bool) ensures b == l.eqs(r) { l.veq_(r) }

/// Conversions (`Into`).
pub trait VInto<T>: Sized { spec fn into_is(&self, r: &T) -> bool; fn vinto(self) -> (r: T) ensures self.into_is(&r); }
impl<'a> VInto<String> for &'a str { open spec fn into_is(&self, r: &String) -> bool { r@ == (*self)@ } fn vinto(self) -> (r: String) { self.to_string() } }
impl<'a> VInto<String> for &'a String { open spec fn into_is(&self, r: &String) -> bool { r@ == (*self)@ } fn vinto(self) -> (r: String) { self.clone() } }
impl VInto<String> for String { open spec fn into_is(&self, r: &String) -> bool { r@ == self@ } fn vinto(self) -> (r: String) { self } }
/// `a + b` on strings.
#[verifier::external_body] pub fn vstring_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
pub fn vstring_from<T: VInto<String>>(t: T) -> (r: String) ensures t.into_is(&r) { t.vinto() }
impl<T> VInto<Vec<T>> for Vec<T> { open spec fn into_is(&self, r: &Vec<T>) -> bool { *r == *self } fn vinto(self) -> (r: Vec<T>) { self } }

/// `Default::default()`.
pub trait VDefault: Sized { spec fn is_def(&self) -> bool; fn vdefault() -> (r: Self) ensures r.is_def(); }
impl<T> VDefault for Vec<T> { open spec fn is_def(&self) -> bool { self@ == Seq::<T>::empty() } fn vdefault() -> (r: Self) { Vec::new() } }
impl<T> VDefault for Option<T> { open spec fn is_def(&self) -> bool { *self is None } fn vdefault() -> (r: Self) { None } }
impl VDefault for bool { open spec fn is_def(&self) -> bool { !*self } fn vdefault() -> (r: Self) { false } }

#[verifier::external_body]
pub fn vunreachable<T>() -> (r: T) requires false { unimplemented!() }
/// A documented panic: execution does not continue.
#[verifier::external_body]
pub fn vmaypanic<T>() -> (r: T) ensures false { unimplemented!() }
/// proc_macro_error::abort!: compilation of the user's crate stops (never returns).
#[verifier::external_body]
pub fn vabort<T>() -> (r: T) ensures false { unimplemented!() }

// ---------------------------------------------------------------- iterators
/// An iterator, as the sequence of items it still has to yield.
pub struct VIter<T> { pub v: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> VIter<T> {
    pub fn vempty() -> (r: VIter<T>) ensures r@ == Seq::<T>::empty() { VIter { v: Vec::new() } }
    pub fn vdone(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn vtake_next(&mut self) -> (r: T)
        requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1)
    {
        let x = self.v.remove(0);
        proof { assert(self.v@ =~= old(self).v@.skip(1)); }
        x
    }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    {
        if self.vdone() { None } else { Some(self.vtake_next()) }
    }
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn chain(self, o: VIter<T>) -> (r: VIter<T>) ensures r@ == self@ + o@ {
        let mut a = self; let mut b = o;
        let ghost a0 = a@; let ghost b0 = b@;
        proof { assert(a@ + b@ =~= a0 + b0); }
        while !b.vdone() invariant a@ + b@ == a0 + b0 decreases b@.len() {
            let ghost (a1, b1) = (a@, b@);
            let x = b.vtake_next();
            a.v.push(x);
            proof { assert(a@ + b@ =~= a1 + b1); }
        }
        proof { assert(a@ =~= a@ + b@); }
        a
    }
    pub fn zip<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
                forall|i: int| #![trigger r@[i]] #![trigger self@[i]] #![trigger o@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o@[i])
    {
        let mut a = self; let mut b = o;
        let mut out: Vec<(T, U)> = Vec::new();
        let ghost a0 = a@; let ghost b0 = b@;
        while !a.vdone() && !b.vdone()
            invariant out@.len() <= a0.len(), out@.len() <= b0.len(),
                a@ == a0.skip(out@.len() as int), b@ == b0.skip(out@.len() as int),
                forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == (a0[i], b0[i])
            decreases a@.len()
        {
            let x = a.vtake_next(); let y = b.vtake_next();
            proof {
                assert(a@ =~= a0.skip(out@.len() as int + 1)); assert(b@ =~= b0.skip(out@.len() as int + 1));
            }
            out.push((x, y));
        }
        VIter { v: out }
    }
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::<T>::empty() })
    {
        let mut a = self; let ghost a0 = a@; let mut i = 0usize;
        proof { assert(a@ =~= a0.skip(0)); }
        while i < n && !a.vdone() invariant i <= n, i <= a0.len(), a@ == a0.skip(i as int) decreases n - i {
            let _x = a.vtake_next();
            proof { assert(a@ =~= a0.skip(i as int + 1)); }
            i = i + 1;
        }
        proof { if n > a0.len() { assert(a@ =~= Seq::<T>::empty()); } }
        a
    }
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
            r@.len() <= usize::MAX,
    {
        let mut a = self; let ghost a0 = a@; let mut out: Vec<(usize, T)> = Vec::new();
        proof { assert(a@ =~= a0.skip(0)); }
        while !a.vdone()
            invariant out@.len() <= a0.len(), a@ == a0.skip(out@.len() as int),
                forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == (i as usize, a0[i])
            decreases a@.len()
        {
            let x = a.vtake_next(); let n = out.len();
            proof { assert(a@ =~= a0.skip(out@.len() as int + 1)); }
            out.push((n, x));
        }
        let _n = out.len();
        VIter { v: out }
    }
    pub fn rev(self) -> (r: VIter<T>)
        ensures r@ == self@.reverse(),
    {
        let mut v = self.v; let ghost v0 = v@; let mut out: Vec<T> = Vec::new();
        while v.len() > 0
            invariant out@.len() + v@.len() == v0.len(), v@ == v0.take(v@.len() as int),
                forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == v0[v0.len() - 1 - i]
            decreases v@.len()
        {
            let ghost k = v@.len();
            let x = v.pop().unwrap();
            proof { assert(v@ =~= v0.take(k - 1)); }
            out.push(x);
        }
        proof { assert(out@ =~= v0.reverse()); }
        VIter { v: out }
    }
    #[verifier::external_body]
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
    { unimplemented!() }
    /// `filter_map`: there is a strictly increasing selection of the positions mapped to Some.
    #[verifier::external_body]
    pub fn filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<Option<U>>| #[trigger] fm_outputs(f, self@, o) && r@ == keep_some(o)
    { unimplemented!() }
    pub fn collect<C: VFromIter<T>>(self) -> (r: C) ensures C::from_is(self@, r) { C::vfrom_iter(self) }
}
pub trait VFromIter<T>: Sized { spec fn from_is(s: Seq<T>, r: Self) -> bool; fn vfrom_iter(i: VIter<T>) -> (r: Self) ensures Self::from_is(i@, r); }
impl<T> VFromIter<T> for Vec<T> { open spec fn from_is(s: Seq<T>, r: Self) -> bool { r@ == s } fn vfrom_iter(i: VIter<T>) -> (r: Self) { i.v } }
pub open spec fn fm_outputs<T, U, F: FnMut(T) -> Option<U>>(f: F, s: Seq<T>, o: Seq<Option<U>>) -> bool {
    o.len() == s.len() && forall|i: int| #![trigger o[i]] #![trigger s[i]] 0 <= i < s.len() ==> call_ensures(f, (s[i],), o[i])
}
pub open spec fn keep_some<U>(o: Seq<Option<U>>) -> Seq<U> decreases o.len() {
    if o.len() == 0 { Seq::empty() }
    else { match o.last() { Some(x) => keep_some(o.drop_last()).push(x), None => keep_some(o.drop_last()) } }
}
pub broadcast proof fn lemma_keep_some_len<U>(o: Seq<Option<U>>) ensures #[trigger] keep_some(o).len() <= o.len() decreases o.len() {
    if o.len() > 0 { lemma_keep_some_len(o.drop_last()); }
}
pub broadcast proof fn lemma_keep_some_all<U>(o: Seq<Option<U>>)
    ensures #[trigger] keep_some(o).len() == o.len() <==> (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] is Some)
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last();
        lemma_keep_some_all(d); lemma_keep_some_len(d);
        if forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] is Some {
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] is Some by { assert(o[i] is Some); }
        }
        if keep_some(o).len() == o.len() {
            assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] is Some by { if i < d.len() { assert(d[i] is Some); } }
        }
    }
}
impl VIter<usize> {
    pub fn vrange(a: usize, b: usize) -> (r: VIter<usize>)
        ensures r@.len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i
    {
        let mut v: Vec<usize> = Vec::new(); let mut i = a;
        while i < b invariant a <= b ==> a <= i <= b, a > b ==> i == a, v@.len() == i - a, forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == a + k decreases b - i {
            v.push(i); i = i + 1;
        }
        VIter { v }
    }
}
pub trait VIterVec<T> { spec fn vsq(&self) -> Seq<T>;
    fn viter(&self) -> (r: VIter<&T>) ensures r@.len() == self.vsq().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.vsq()[i]; }
impl<T> VIterVec<T> for Vec<T> { open spec fn vsq(&self) -> Seq<T> { self@ }
    fn viter(&self) -> (r: VIter<&T>) {
        let mut out: Vec<&T> = Vec::new(); let mut i = 0usize;
        while i < self.len() invariant i <= self@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> *#[trigger] out@[k] == self@[k] decreases self@.len() - i {
            out.push(&self[i]); i = i + 1;
        }
        VIter { v: out }
    }
}
impl<T> VIterVec<T> for [T] { open spec fn vsq(&self) -> Seq<T> { self@ }
    fn viter(&self) -> (r: VIter<&T>) {
        let mut out: Vec<&T> = Vec::new(); let mut i = 0usize;
        while i < self.len() invariant i <= self@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> *#[trigger] out@[k] == self@[k] decreases self@.len() - i {
            out.push(&self[i]); i = i + 1;
        }
        VIter { v: out }
    }
}
pub trait VIterOpt<T> { spec fn vsq(&self) -> Seq<T>;
    fn viter(&self) -> (r: VIter<&T>) ensures r@.len() == self.vsq().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.vsq()[i]; }
impl<T> VIterOpt<T> for Option<T> { open spec fn vsq(&self) -> Seq<T> { match self { Some(x) => seq![*x], None => seq![] } }
    fn viter(&self) -> (r: VIter<&T>) {
        let mut out: Vec<&T> = Vec::new();
        match self { Some(x) => { out.push(x); } None => {} }
        VIter { v: out }
    }
}
/// The `i`-th item of a loop over texts, numbered or not.
pub trait VItemText { spec fn item_at(&self, i: int, t: Seq<char>) -> bool; }
impl<'a> VItemText for &'a str { open spec fn item_at(&self, i: int, t: Seq<char>) -> bool { (*self)@ == t } }
impl VItemText for String { open spec fn item_at(&self, i: int, t: Seq<char>) -> bool { self@ == t } }
impl<'a> VItemText for &'a String { open spec fn item_at(&self, i: int, t: Seq<char>) -> bool { (*self)@ == t } }
impl<T: VItemText> VItemText for (usize, T) { open spec fn item_at(&self, i: int, t: Seq<char>) -> bool { self.0 == i && self.1.item_at(i, t) } }
pub trait VIntoIter<T>: Sized { spec fn vis(&self) -> Seq<T>; fn vinto_iter(self) -> (r: VIter<T>) ensures r@ == self.vis(); }
impl<T> VIntoIter<T> for Vec<T> { open spec fn vis(&self) -> Seq<T> { self@ } fn vinto_iter(self) -> (r: VIter<T>) { VIter { v: self } } }
impl<'a, T> VIntoIter<&'a T> for &'a Vec<T> { open spec fn vis(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vinto_iter(self) -> (r: VIter<&'a T>) { let r = self.viter(); proof { assert(r@ =~= Seq::new(self@.len(), |i: int| &self@[i])); } r } }
impl<'a, T> VIntoIter<&'a T> for &'a [T] { open spec fn vis(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vinto_iter(self) -> (r: VIter<&'a T>) { let r = (*self).viter(); proof { assert(r@ =~= Seq::new(self@.len(), |i: int| &self@[i])); } r } }
impl<T> VIntoIter<T> for VIter<T> { open spec fn vis(&self) -> Seq<T> { self@ } fn vinto_iter(self) -> (r: VIter<T>) { self } }

pub proof fn vlemma_skip0<T>(s: Seq<T>) ensures s.skip(0) == s { assert(s.skip(0) =~= s); }
pub proof fn vlemma_skip_step<T>(s: Seq<T>, k: int)
    ensures 0 <= k < s.len() ==> s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1) && s.take(k + 1) == s.take(k).push(s[k])
{
    if 0 <= k < s.len() {
        assert(s.skip(k).skip(1) =~= s.skip(k + 1));
        assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    }
}

// ---------------------------------------------------------------- shared cells
/// AtomicBool reached through shared references: a cell id into an explicit heap.
/// (Sequential semantics: contexts are created and used by one thread.)
pub struct VHeap { pub open: Vec<bool> }
pub struct VBool { pub id: usize }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl VBool {
    pub fn new(v: bool, h: &mut VHeap) -> (r: VBool)
        ensures r.id == old(h).open@.len(), final(h).open@ == old(h).open@.push(v)
    { let id = h.open.len(); h.open.push(v); VBool { id } }
    pub fn load(&self, o: Ordering, h: &VHeap) -> (r: bool) requires self.id < h.open@.len() ensures r == h.open@[self.id as int] { h.open[self.id] }
    pub fn store(&self, v: bool, o: Ordering, h: &mut VHeap) requires self.id < old(h).open@.len()
        ensures final(h).open@ == old(h).open@.update(self.id as int, v)
    { h.open.set(self.id, v); }
}
