@prelude
mod ax {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus!{
// Contracts of std that vstd does not have.
pub broadcast axiom fn ax1(a: String, b: String) ensures #[trigger] PartialEqSpec::<String>::eq_spec(&a,&b) == (a@==b@);
pub broadcast axiom fn ax2() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax3(a: String, b: &str) ensures #[trigger] PartialEqSpec::<str>::eq_spec(&a,b) == (a@==b@);
pub broadcast axiom fn ax4() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax5(a: String, b: &str) ensures #[trigger] PartialEqSpec::<&str>::eq_spec(&a,&b) == (a@==b@);
pub broadcast axiom fn ax6() ensures #[trigger] <String as PartialEqSpec<&'static str>>::obeys_eq_spec();
pub assume_specification<'a> [<String as core::convert::From<&'a str>>::from] (s: &str) -> (r: String) ensures r@ == s@;
}
}
verus! {
broadcast use {ax::ax1, ax::ax2, ax::ax3, ax::ax4, ax::ax5, ax::ax6};

// ---------------------------------------------------------------- stand-ins (trusted)
/// Diverges; what a declaration must be like for it to be rejected here is the contract's business.
#[verifier::external_body]
pub fn reject(Ghost(b): Ghost<bool>) -> ! requires b { panic!() }

pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// length in UTF-8
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
#[verifier::external_body]
pub fn str_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] blen(s@.take(i)) == a && #[trigger] blen(s@.take(j)) == b,
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] blen(s@.take(i)) == a && #[trigger] blen(s@.take(j)) == b ==> r@ == s@.subrange(i, j),
{ &s[a..b] }
#[verifier::external_body]
pub fn str_starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn str_ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body]
pub fn str_ends_with_str(s: &str, c: &str) -> (r: bool) ensures r == (s@.len() >= c@.len() && s@.skip(s@.len() - c@.len()) == c@) { s.ends_with(c) }
#[verifier::external_body]
pub fn str_starts_with_str(s: &str, c: &str) -> (r: bool) ensures r == (s@.len() >= c@.len() && s@.take(c@.len() as int) == c@) { s.starts_with(c) }

pub trait VLen { spec fn vlen_spec(&self) -> nat; fn vlen(&self) -> (r: usize) ensures r == self.vlen_spec(); }
impl<T> VLen for Vec<T> { open spec fn vlen_spec(&self) -> nat { self@.len() } fn vlen(&self) -> (r: usize) { self.len() } }
impl<T> VLen for [T] { open spec fn vlen_spec(&self) -> nat { self@.len() } fn vlen(&self) -> (r: usize) { self.len() } }
impl VLen for str { open spec fn vlen_spec(&self) -> nat { blen(self@) } #[verifier::external_body] fn vlen(&self) -> (r: usize) { self.len() } }
impl VLen for String { open spec fn vlen_spec(&self) -> nat { blen(self@) } #[verifier::external_body] fn vlen(&self) -> (r: usize) { self.len() } }

// the items an iterator yields, in order
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub trait VItems { type E; spec fn items(self) -> Seq<Self::E>; fn v_items_(self) -> (r: Vec<Self::E>) ensures r@ == self.items(), r@.len() <= usize::MAX; }
impl<'a, T> VItems for &'a [T] { type E = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_items_(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<'a, T> VItems for &'a Vec<T> { type E = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_items_(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<T> VItems for Vec<T> { type E = T; open spec fn items(self) -> Seq<T> { self@ } fn v_items_(self) -> (r: Vec<T>) { let n = self.len(); self } }
pub fn v_items<C: VItems>(c: C) -> (r: Vec<C::E>) ensures r@ == c.items(), r@.len() <= usize::MAX { c.v_items_() }
pub trait VIter<T> { spec fn viter_spec(&self) -> Seq<T>; fn v_iter(&self) -> (r: Vec<&T>) ensures r@ == refs(self.viter_spec()), r@.len() <= usize::MAX; }
impl<T> VIter<T> for Vec<T> { open spec fn viter_spec(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { self.iter().collect() } }
impl<T> VIter<T> for [T] { open spec fn viter_spec(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { self.iter().collect() } }
pub trait VStr { 
    spec fn vs(&self) -> Seq<char>;
    fn v_chars(&self) -> (r: Vec<char>) ensures r@ == self.vs(), r@.len() <= usize::MAX;
    fn v_split(&self, c: char) -> (r: Vec<&str>) requires c == '/' ensures 0 < r@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> no_slash((#[trigger] r@[i])@), self.vs() == r@[0]@ + joins(texts(r@).skip(1));
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
impl VStr for str { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn v_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() } }
impl VStr for String { open spec fn vs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn v_split(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() } }

pub trait VUnwrap<T>: Sized { spec fn good(&self) -> bool; spec fn val(&self) -> T;
    /// diverges where there's nothing inside, which the contract must allow
    fn v_unwrap(self, Ghost(b): Ghost<bool>) -> (r: T) requires self.good() || b ensures self.good(), r == self.val(); }
impl<T> VUnwrap<T> for Option<T> { open spec fn good(&self) -> bool { self is Some } open spec fn val(&self) -> T { self->Some_0 }
    fn v_unwrap(self, Ghost(b): Ghost<bool>) -> (r: T) { match self { Some(x) => x, None => reject(Ghost(b)) } } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn good(&self) -> bool { self is Ok } open spec fn val(&self) -> T { self->Ok_0 }
    fn v_unwrap(self, Ghost(b): Ghost<bool>) -> (r: T) { match self { Ok(x) => x, Err(_) => reject(Ghost(b)) } } }
pub fn v_only<'a, T>(x: &[&'a T]) -> (r: Option<&'a T>) ensures r is Some == (x@.len() == 1), r matches Some(y) ==> y == x@[0] { if x.len() == 1 { Some(x[0]) } else { None } }
#[verifier::external_body]
pub fn v_empty<'a, T>() -> (r: &'a [T]) ensures r@.len() == 0 { &[] }
impl<'a, T, const N: usize> VItems for &'a [T; N] { type E = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_items_(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
impl<T> VItems for Option<T> { type E = T; open spec fn items(self) -> Seq<T> { opt_seq(self) } fn v_items_(self) -> (r: Vec<T>) { let mut v = Vec::new(); match self { Some(x) => v.push(x), None => {} } v } }
pub trait VSlice<T> { spec fn sl(&self) -> Seq<T>; 
    fn v_first(&self) -> (r: Option<&T>) ensures r is Some == (self.sl().len() > 0), r matches Some(x) ==> *x == self.sl()[0];
    fn v_split_first(&self) -> (r: Option<(&T, &[T])>) ensures r is Some == (self.sl().len() > 0), r matches Some((x, y)) ==> *x == self.sl()[0] && y@ == self.sl().skip(1); }
impl<T> VSlice<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ } fn v_first(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
    #[verifier::external_body] fn v_split_first(&self) -> (r: Option<(&T, &[T])>) { self.split_first() } }
impl<T> VSlice<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } fn v_first(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
    #[verifier::external_body] fn v_split_first(&self) -> (r: Option<(&T, &[T])>) { self.split_first() } }
/// message texts
pub trait VJoin { fn v_join(&self, s: &str) -> String; }
impl VJoin for Vec<String> { #[verifier::external_body] fn v_join(&self, s: &str) -> String { self.join(s) } }
/// a text in lower case (Unicode's, by std)
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn is1(s: Seq<char>, a: Seq<char>) -> bool { s == a }
/// the names of the route attributes, and the constants of `http::Method` they stand for
pub open spec fn method_word(s: Seq<char>) -> bool { s == "get"@ || s == "head"@ || s == "post"@ || s == "put"@ || s == "delete"@ || s == "connect"@ || s == "options"@ || s == "trace"@ || s == "patch"@ }
pub open spec fn method_const(s: Seq<char>) -> Seq<char> { if s == "get"@ { "GET"@ } else if s == "head"@ { "HEAD"@ } else if s == "post"@ { "POST"@ } else if s == "put"@ { "PUT"@ } else if s == "delete"@ { "DELETE"@ } else if s == "connect"@ { "CONNECT"@ } else if s == "options"@ { "OPTIONS"@ } else if s == "trace"@ { "TRACE"@ } else { "PATCH"@ } }
pub open spec fn known_word(s: Seq<char>) -> bool { method_word(s) || s == "context"@ || s == "body"@ || s == "forward"@ || s == "query_params"@ }
pub trait VCase { spec fn cv(&self) -> Seq<char>; fn v_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.cv());
    fn v_to_uppercase(&self) -> (r: String) ensures method_word(lower(self.cv())) ==> r@ == method_const(lower(self.cv())) && ident_text(r@); }
impl VCase for String { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { self.to_lowercase() } #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { self.to_uppercase() } }
pub trait VContains<T> { spec fn has(&self, x: &T) -> bool; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.has(x); }
impl VContains<Ident> for [Ident] { open spec fn has(&self, x: &Ident) -> bool { id_views(self@).contains(x@) } #[verifier::external_body] fn v_contains(&self, x: &Ident) -> (r: bool) { unimplemented!() } }

#[verifier::external_body]
pub struct Ident { s: String }
pub struct Span;
impl Span { pub fn call_site() -> Span { Span } }
impl Ident {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &str, sp: Span) -> (r: Ident) requires ident_text(s@) ensures r@ == s@ { unimplemented!() }
}
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Ident) { unimplemented!() } }
/// Clones can't be told from the originals: `Ident`, `Regex`, `String`, `Vec`s of them, and what derives `Clone`.
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: T) { self.clone() } }
pub trait VText { spec fn tv(&self) -> Seq<char>; fn text(&self) -> (r: String) ensures r@ == self.tv(); }
impl VText for Ident { open spec fn tv(&self) -> Seq<char> { self@ } fn text(&self) -> (r: String) { self.to_string() } }
impl VText for String { open spec fn tv(&self) -> Seq<char> { self@ } fn text(&self) -> (r: String) { self.v_clone() } }
impl VText for str { open spec fn tv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn text(&self) -> (r: String) { self.into() } }
impl<T: VText + ?Sized> VText for &T { open spec fn tv(&self) -> Seq<char> { (**self).tv() } fn text(&self) -> (r: String) { (**self).text() } }
/// what `{}` prints
pub fn text_of<T: VText + ?Sized>(t: &T) -> (r: String) ensures r@ == t.tv() { t.text() }

pub open spec fn id_views(s: Seq<Ident>) -> Seq<Seq<char>> { s.map_values(|x: Ident| x@) }
/// equal ones are next to each other
pub open spec fn grouped(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int, k: int| 0 <= i < j < k < s.len() && #[trigger] s[i] == #[trigger] s[k] ==> #[trigger] s[j] == s[i] }
pub open spec fn adjacent(s: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i && i + 1 < s.len() && #[trigger] s[i] == s[i + 1] }
pub open spec fn distinct(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub trait VSort { spec fn ids(&self) -> Seq<Seq<char>>;
    /// sorting keeps all elements, and puts equal ones next to each other
    fn v_sort_(&mut self) ensures grouped(final(self).ids()), final(self).ids().to_multiset() == old(self).ids().to_multiset();
    fn v_sort(&mut self) ensures distinct(old(self).ids()) == !adjacent(final(self).ids()), final(self).ids().len() == old(self).ids().len();
    fn v_dedup(&mut self) ensures adjacent(old(self).ids()) ==> final(self).ids().len() < old(self).ids().len(), !adjacent(old(self).ids()) ==> final(self).ids() == old(self).ids(); }
impl VSort for Vec<Ident> { open spec fn ids(&self) -> Seq<Seq<char>> { id_views(self@) }
    #[verifier::external_body] fn v_sort_(&mut self) { unimplemented!() }
    fn v_sort(&mut self) { let ghost a = self.ids(); self.v_sort_(); proof { lemma_distinct(a, self.ids()); } }
    #[verifier::external_body] fn v_dedup(&mut self) { unimplemented!() } }

#[verifier::external_body]
pub struct Regex { s: String }
impl Regex {
    /// the text
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn compiled(s: &str) -> (r: Regex) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl Clone for Regex { #[verifier::external_body] fn clone(&self) -> (r: Regex) { unimplemented!() } }
pub open spec fn meta(c: char) -> bool {
    c == '\\' || c == '.' || c == '+' || c == '*' || c == '?' || c == '(' || c == ')' || c == '|' || c == '[' || c == ']' || c == '{' || c == '}' || c == '^' || c == '$' || c == '#' || c == '&' || c == '-' || c == '~'
}
pub open spec fn esc1(c: char) -> Seq<char> { if meta(c) { seq!['\\', c] } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc1(s[0]) + esc(s.drop_first()) } }
#[verifier::external_body]
pub fn escape_into(s: &str, out: &mut String) ensures final(out)@ == old(out)@ + esc(s@) { unimplemented!() }

// ---------------------------------------------------------------- what patterns mean
pub enum Seg { Lit(Seq<char>), Ph, Rest }

pub open spec fn no_slash(p: Seq<char>) -> bool { forall|i: int| 0 <= i < p.len() ==> p[i] != '/' }

pub open spec fn joins(ps: Seq<Seq<char>>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { seq!['/'] + ps[0] + joins(ps.drop_first()) }
}
pub open spec fn seg_ok(s: Seg, p: Seq<char>) -> bool {
    match s { Seg::Lit(l) => p == l, Seg::Ph => p.len() > 0 && no_slash(p), Seg::Rest => true }
}
pub open spec fn pieces_ok(pat: Seq<Seg>, ps: Seq<Seq<char>>) -> bool {
    ps.len() == pat.len() && forall|i: int| 0 <= i < pat.len() ==> seg_ok(#[trigger] pat[i], ps[i])
}
pub open spec fn matches(pat: Seq<Seg>, path: Seq<char>) -> bool {
    if pat.len() == 0 { path == seq!['*'] }
    else { exists|ps: Seq<Seq<char>>| #[trigger] pieces_ok(pat, ps) && path == joins(ps) }
}
pub open spec fn wf(pat: Seq<Seg>) -> bool {
    forall|i: int| 0 <= i < pat.len() ==> match #[trigger] pat[i] {
        Seg::Lit(l) => no_slash(l), Seg::Ph => true, Seg::Rest => i == pat.len() - 1 }
}
pub open spec fn is_rest(s: Seg) -> bool { s matches Seg::Rest }
pub open spec fn ends_rest(pat: Seq<Seg>) -> bool { pat.len() > 0 && is_rest(pat.last()) }
pub open spec fn fz(pat: Seq<Seg>, i: int) -> Seg { if i < pat.len() { pat[i] } else { Seg::Rest } }

// ---------- lemmas ----------
proof fn lemma_first(x: Seq<char>, r: Seq<char>, y: Seq<char>, s: Seq<char>)
    requires no_slash(x), no_slash(y), seq!['/'] + x + r == seq!['/'] + y + s,
        r.len() == 0 || r[0] == '/', s.len() == 0 || s[0] == '/',
    ensures x == y, r == s,
{
    let a = seq!['/'] + x + r; let b = seq!['/'] + y + s;
    assert(a.len() == b.len());
    if x.len() < y.len() {
        assert(b[1 + x.len() as int] == y[x.len() as int]);
        if r.len() > 0 { assert(a[1 + x.len() as int] == r[0]); }
        assert(false);
    }
    if y.len() < x.len() {
        assert(a[1 + y.len() as int] == x[y.len() as int]);
        if s.len() > 0 { assert(b[1 + y.len() as int] == s[0]); }
        assert(false);
    }
    assert(x =~= y) by { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(a[i+1] == x[i]); assert(b[i+1] == y[i]); } }
    assert(r =~= s) by { assert forall|i: int| 0 <= i < r.len() implies r[i] == s[i] by { assert(a[i+1+x.len()] == r[i]); assert(b[i+1+y.len()] == s[i]); } }
}
proof fn lemma_starts(ps: Seq<Seq<char>>) ensures joins(ps).len() == 0 || joins(ps)[0] == '/', joins(ps).len() == 0 <==> ps.len() == 0 {}

/// splitting at '/' is unique as long as the pieces contain none
proof fn lemma_unique(qa: Seq<Seq<char>>, qb: Seq<Seq<char>>, k: int)
    requires 0 <= k <= qa.len(), k <= qb.len(), joins(qa) == joins(qb),
        forall|i: int| 0 <= i < k ==> no_slash(#[trigger] qa[i]) && no_slash(qb[i]),
    ensures forall|i: int| 0 <= i < k ==> #[trigger] qa[i] == qb[i], joins(qa.skip(k)) == joins(qb.skip(k)),
    decreases k
{
    if k == 0 { assert(qa.skip(0) =~= qa); assert(qb.skip(0) =~= qb); }
    else {
        let ra = qa.drop_first(); let rb = qb.drop_first();
        lemma_starts(ra); lemma_starts(rb);
        lemma_first(qa[0], joins(ra), qb[0], joins(rb));
        assert forall|i: int| 0 <= i < k - 1 implies no_slash(#[trigger] ra[i]) && no_slash(rb[i]) by { assert(ra[i] == qa[i + 1]); assert(rb[i] == qb[i + 1]); }
        lemma_unique(ra, rb, k - 1);
        assert(ra.skip(k-1) =~= qa.skip(k)); assert(rb.skip(k-1) =~= qb.skip(k));
        assert forall|i: int| 0 <= i < k implies #[trigger] qa[i] == qb[i] by { if i > 0 { assert(ra[i-1] == qa[i]); assert(rb[i-1] == qb[i]); } }
    }
}
proof fn lemma_push(ps: Seq<Seq<char>>, x: Seq<char>)
    ensures joins(ps.push(x)) == joins(ps) + seq!['/'] + x
    decreases ps.len()
{
    let q = ps.push(x);
    if ps.len() == 0 {
        assert(q.drop_first() =~= Seq::<Seq<char>>::empty());
        assert(joins(q.drop_first()) =~= Seq::<char>::empty());
        assert(joins(q) =~= joins(ps) + seq!['/'] + x);
    } else {
        lemma_push(ps.drop_first(), x);
        assert(q.drop_first() =~= ps.drop_first().push(x));
        assert(joins(q) =~= joins(ps) + seq!['/'] + x);
    }
}
proof fn lemma_append(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures joins(a + b) == joins(a) + joins(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(joins(a+b) =~= joins(a) + joins(b)); }
    else { lemma_append(a.drop_first(), b); assert((a+b).drop_first() =~= a.drop_first() + b); assert(joins(a+b) =~= joins(a) + joins(b)); }
}
/// pieces matching the fused pattern, at least as many as segments: the pattern matches
proof fn lemma_match(pat: Seq<Seg>, ov: Seq<Seq<char>>)
    requires pat.len() > 0, wf(pat), forall|i: int| 0 <= i < ov.len() ==> seg_ok(#[trigger] fz(pat, i), ov[i]),
        ov.len() == pat.len() || (ov.len() >= pat.len() && ends_rest(pat)),
    ensures matches(pat, joins(ov))
{
    if ov.len() == pat.len() {
        assert forall|i: int| 0 <= i < pat.len() implies seg_ok(#[trigger] pat[i], ov[i]) by { assert(fz(pat, i) == pat[i]); }
        assert(pieces_ok(pat, ov));
    } else {
        let j = pat.len() - 1;
        let tail = ov.skip(j);
        let rest = joins(tail).drop_first();
        let ps = ov.take(j).push(rest);
        lemma_push(ov.take(j), rest);
        lemma_append(ov.take(j), tail);
        assert(ov.take(j) + tail =~= ov);
        lemma_starts(tail);
        assert(seq!['/'] + rest =~= joins(tail));
        assert(joins(ps) =~= joins(ov));
        assert forall|i: int| 0 <= i < pat.len() implies seg_ok(#[trigger] pat[i], ps[i]) by {
            if i < j { assert(fz(pat, i) == pat[i]); assert(ps[i] == ov[i]); } }
        assert(pieces_ok(pat, ps));
    }
}
/// no common path: definite conflict at position k, before any rest placeholder
pub open spec fn conflict(a: Seg, b: Seg) -> bool {
    match (a, b) {
        (Seg::Lit(x), Seg::Lit(y)) => x != y,
        (Seg::Lit(x), Seg::Ph) => x.len() == 0,
        (Seg::Ph, Seg::Lit(x)) => x.len() == 0,
        _ => false,
    }
}
proof fn lemma_conflict(pa: Seq<Seg>, pb: Seq<Seg>, k: int)
    requires wf(pa), wf(pb), 0 <= k < pa.len(), k < pb.len(), conflict(pa[k], pb[k]),
    ensures forall|p: Seq<char>| !(matches(pa, p) && matches(pb, p)),
{
    assert forall|p: Seq<char>| !(matches(pa, p) && matches(pb, p)) by {
        if matches(pa, p) && matches(pb, p) {
            let qa = choose|ps: Seq<Seq<char>>| #[trigger] pieces_ok(pa, ps) && p == joins(ps);
            let qb = choose|ps: Seq<Seq<char>>| #[trigger] pieces_ok(pb, ps) && p == joins(ps);
            assert forall|i: int| 0 <= i < k + 1 implies no_slash(#[trigger] qa[i]) && no_slash(qb[i]) by {
                assert(seg_ok(pa[i], qa[i])); assert(seg_ok(pb[i], qb[i])); }
            lemma_unique(qa, qb, k + 1);
            assert(seg_ok(pa[k], qa[k])); assert(seg_ok(pb[k], qb[k]));
        }
    }
}
/// no common path: `pa` ends after k segments, `pb` doesn't, and no rest placeholder among the first k
proof fn lemma_len(pa: Seq<Seg>, pb: Seq<Seg>)
    requires wf(pa), wf(pb), 0 < pa.len() < pb.len(), !ends_rest(pa),
    ensures forall|p: Seq<char>| !(matches(pa, p) && matches(pb, p)),
{
    let k = pa.len() as int;
    assert forall|p: Seq<char>| !(matches(pa, p) && matches(pb, p)) by {
        if matches(pa, p) && matches(pb, p) {
            let qa = choose|ps: Seq<Seq<char>>| #[trigger] pieces_ok(pa, ps) && p == joins(ps);
            let qb = choose|ps: Seq<Seq<char>>| #[trigger] pieces_ok(pb, ps) && p == joins(ps);
            assert forall|i: int| 0 <= i < k implies no_slash(#[trigger] qa[i]) && no_slash(qb[i]) by {
                assert(seg_ok(pa[i], qa[i])); assert(seg_ok(pb[i], qb[i])); }
            lemma_unique(qa, qb, k);
            lemma_starts(qa.skip(k)); lemma_starts(qb.skip(k));
        }
    }
}


pub open spec fn piece(o0: Seq<char>, o1: Seq<char>) -> Seq<char> { o1.subrange(o0.len() as int + 1, o1.len() as int) }
pub open spec fn both(pa: Seq<Seg>, pb: Seq<Seg>, p: Seq<char>) -> bool { matches(pa, p) && matches(pb, p) }
pub open spec fn none_both(pa: Seq<Seg>, pb: Seq<Seg>) -> bool { forall|p: Seq<char>| !(matches(pa, p) && matches(pb, p)) }
proof fn lemma_star(pa: Seq<Seg>, pb: Seq<Seg>)
    ensures (pa.len() == 0) != (pb.len() == 0) ==> none_both(pa, pb)
{
    assert forall|ps: Seq<Seq<char>>| ps.len() > 0 implies #[trigger] joins(ps) != seq!['*'] by { assert(joins(ps)[0] == '/'); assert(seq!['*'][0] == '*'); }
}
proof fn lemma_return(pa: Seq<Seg>, pb: Seq<Seg>, ov: Seq<Seq<char>>, o0: Seq<char>, o1: Seq<char>)
    requires wf(pa), wf(pb), pa.len() > 0, pb.len() > 0, o0 == joins(ov),
        forall|i: int| 0 <= i < ov.len() ==> seg_ok(#[trigger] fz(pa, i), ov[i]),
        forall|i: int| 0 <= i < ov.len() ==> seg_ok(#[trigger] fz(pb, i), ov[i]),
        ov.len() > pa.len() ==> ends_rest(pa), ov.len() > pb.len() ==> ends_rest(pb),
    ensures
        ov.len() < pa.len() && ov.len() < pb.len() && conflict(pa[ov.len() as int], pb[ov.len() as int]) ==> none_both(pa, pb),
        ({ let k = ov.len() as int; let x = piece(o0, o1); is_rest(fz(pa, k)) && is_rest(fz(pb, k)) && (k >= pa.len() ==> ends_rest(pa)) && (k >= pb.len() ==> ends_rest(pb)) && o1 == o0.push('/') + x ==> both(pa, pb, o1) })
{
    let k = ov.len() as int; let x = piece(o0, o1);
    if k < pa.len() && k < pb.len() && conflict(pa[k], pb[k]) { lemma_conflict(pa, pb, k); }
    if is_rest(fz(pa, k)) && is_rest(fz(pb, k)) && (k >= pa.len() ==> ends_rest(pa)) && (k >= pb.len() ==> ends_rest(pb)) && o1 == o0.push('/') + x {
        lemma_push(ov, x);
        assert(o0.push('/') + x =~= o0 + seq!['/'] + x);
        if k < pa.len() { assert(is_rest(pa[k])); }
        if k < pb.len() { assert(is_rest(pb[k])); }
        lemma_match(pa, ov.push(x)); lemma_match(pb, ov.push(x));
    }
}
proof fn lemma_end(pa: Seq<Seg>, pb: Seq<Seg>, ov: Seq<Seq<char>>)
    requires wf(pa), wf(pb), pa.len() > 0, pb.len() > 0,
        forall|i: int| 0 <= i < ov.len() ==> seg_ok(#[trigger] fz(pa, i), ov[i]),
        forall|i: int| 0 <= i < ov.len() ==> seg_ok(#[trigger] fz(pb, i), ov[i]),
        ov.len() > pa.len() ==> ends_rest(pa), ov.len() > pb.len() ==> ends_rest(pb),
        ov.len() == pa.len() && !ends_rest(pa) || ov.len() == pb.len() && !ends_rest(pb),
    ensures
        ({ let k = ov.len() as int; let rest = ends_rest(pa) && k >= pa.len() || ends_rest(pb) && k >= pb.len();
           if pa.len() == pb.len() || rest { both(pa, pb, joins(ov)) } else { none_both(pa, pb) } })
{
    let k = ov.len() as int; let rest = ends_rest(pa) && k >= pa.len() || ends_rest(pb) && k >= pb.len();
    if pa.len() == pb.len() || rest {
        lemma_match(pa, ov); lemma_match(pb, ov);
    } else if k == pa.len() && !ends_rest(pa) {
        if pa.len() < pb.len() { lemma_len(pa, pb); } 
    } else {
        if pb.len() < pa.len() { lemma_len(pb, pa); }
    }
}

// ---------------------------------------------------------------- what the text of a pattern means
pub open spec fn ident_start(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }
pub open spec fn ident_cont(c: char) -> bool { ident_start(c) || '0' <= c <= '9' }
pub open spec fn ident_text(s: Seq<char>) -> bool {
    s.len() > 0 && s != seq!['_'] && ident_start(s[0]) && forall|i: int| 1 <= i < s.len() ==> ident_cont(#[trigger] s[i])
}
pub open spec fn braced(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '{' && s.last() == '}' }
pub open spec fn inner(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }
pub open spec fn dots(s: Seq<char>) -> bool { s.len() >= 3 && s.skip(s.len() - 3) == seq!['.', '.', '.'] }
pub open spec fn undot(s: Seq<char>) -> Seq<char> { s.take(s.len() - 3) }
/// the placeholder a segment's text declares
pub open spec fn name_of(s: Seq<char>) -> Seq<char> { if dots(inner(s)) { undot(inner(s)) } else { inner(s) } }
pub open spec fn seg_text_ok(s: Seq<char>) -> bool { braced(s) ==> ident_text(name_of(s)) }
pub open spec fn seg_spec(s: Seq<char>, r: PathSegment) -> bool {
    if braced(s) { if dots(inner(s)) { r matches PathSegment::Rest(i) && i@ == name_of(s) } else { r matches PathSegment::Placeholder(i) && i@ == name_of(s) } }
    else { r matches PathSegment::Literal(l) && l@ == s }
}
pub open spec fn seg_of(s: Seq<char>) -> Seg { if braced(s) { if dots(inner(s)) { Seg::Rest } else { Seg::Ph } } else { Seg::Lit(s) } }
pub proof fn lemma_blen(s: Seq<char>)
    ensures blen(s) >= s.len(),
    s.len() > 0 ==> blen(s.take(s.len() - 1)) + clen(s.last()) == blen(s),
    s.len() > 0 ==> blen(s.take(1)) == clen(s[0]),
    s.len() >= 3 ==> blen(s.take(s.len() - 3)) + clen(s[s.len() - 3]) + clen(s[s.len() - 2]) + clen(s[s.len() - 1]) == blen(s),
    blen(s.take(0)) == 0, blen(s.take(s.len() as int)) == blen(s),
    decreases s.len()
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 {
        lemma_blen(s.drop_last());
        assert(s.drop_last() =~= s.take(s.len() - 1));
        let t1 = s.take(1); assert(t1.drop_last() =~= Seq::<char>::empty()); assert(blen(t1.drop_last()) == 0); assert(blen(t1) == blen(t1.drop_last()) + clen(t1.last())); assert(t1.last() == s[0]);
        if s.len() >= 3 {
            let t = s.drop_last(); let u = t.drop_last();
            assert(u.drop_last() =~= s.take(s.len() - 3));
        }
    }
}

impl PathSegment {
    pub open spec fn view(self) -> Seg { match self {
        PathSegment::Placeholder(_) => Seg::Ph, PathSegment::Rest(_) => Seg::Rest, PathSegment::Literal(l) => Seg::Lit(l@) } }
    pub open spec fn ok(self) -> bool { match self {
        PathSegment::Placeholder(i) => i@.len() > 0 && no_slash(i@), PathSegment::Rest(i) => no_slash(i@), PathSegment::Literal(l) => no_slash(l@) } }
}
pub open spec fn pat_of(s: Seq<PathSegment>) -> Seq<Seg> { s.map_values(|x: PathSegment| x@) }
impl<'a> SegmentsFused<'a> {
    /// the segments still to come before the sequence repeats (`rep`) or ends
    #[verifier::prophetic]
    pub open spec fn todo(&self) -> Seq<PathSegment> { match self {
        SegmentsFused::Unfused(it) => it.remaining().map_values(|x: &PathSegment| *x), SegmentsFused::Fused(_) => Seq::empty() } }
    pub open spec fn rep(&self) -> Option<PathSegment> { match self { SegmentsFused::Unfused(_) => None, SegmentsFused::Fused(s) => Some(**s) } }
}
pub open spec fn segs_ok(s: Seq<PathSegment>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
/// iterator state after k calls of next() that returned Some, on the segments `s`
#[verifier::prophetic]
pub open spec fn at(it: SegmentsFused<'_>, s: Seq<PathSegment>, k: int) -> bool {
    &&& s.len() > 0 && 0 <= k
    &&& it.rep() matches Some(r) ==> is_rest(s.last()@) && r == s.last() && k >= s.len()
    &&& it.rep() is None ==> k <= s.len() && it.todo() == s.skip(k) && (k == s.len() ==> !is_rest(s.last()@))
}
impl RoutePath {
    pub open spec fn pat(&self) -> Seq<Seg> { pat_of(self.segments@) }
    pub open spec fn wf(&self) -> bool { wf(self.pat()) && segs_ok(self.segments@) }
}

// ---------------------------------------------------------------- paths of route attributes
/// The parts of a path between slashes.
pub open spec fn splits(p: Seq<char>, ps: Seq<Seq<char>>) -> bool { p == joins(ps) && ps.len() > 0 && forall|i: int| 0 <= i < ps.len() ==> no_slash(#[trigger] ps[i]) }
pub open spec fn parts(p: Seq<char>) -> Seq<Seq<char>> { choose|ps: Seq<Seq<char>>| splits(p, ps) }
pub open spec fn rest_last(ps: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ps.len() && is_rest(seg_of(#[trigger] ps[i])) ==> i == ps.len() - 1 }
/// names of the placeholders, in order
pub open spec fn names(ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if braced(ps.last()) { names(ps.drop_last()).push(name_of(ps.last())) } else { names(ps.drop_last()) }
}
pub open spec fn parts_ok(ps: Seq<Seq<char>>) -> bool { (forall|i: int| 0 <= i < ps.len() ==> seg_text_ok(#[trigger] ps[i])) && rest_last(ps) && distinct(names(ps)) }
/// the path of a route attribute is well-formed
pub open spec fn path_ok(p: Seq<char>) -> bool { p == seq!['*'] || p.len() > 0 && p[0] == '/' && parts_ok(parts(p)) }
pub open spec fn pat_of_path(p: Seq<char>) -> Seq<Seg> { if p == seq!['*'] { Seq::empty() } else { parts(p).map_values(|s: Seq<char>| seg_of(s)) } }
pub open spec fn names_of_path(p: Seq<char>) -> Seq<Seq<char>> { if p == seq!['*'] { Seq::empty() } else { names(parts(p)) } }

pub proof fn lemma_joins_len(ps: Seq<Seq<char>>) ensures joins(ps).len() >= ps.len() decreases ps.len() { if ps.len() > 0 { lemma_joins_len(ps.drop_first()); } }
pub proof fn lemma_parts(p: Seq<char>, ps: Seq<Seq<char>>)
    requires splits(p, ps)
    ensures parts(p) == ps
{
    let q = parts(p);
    assert(splits(p, q));
    if q.len() <= ps.len() {
        lemma_unique(q, ps, q.len() as int);
        assert(q.skip(q.len() as int) =~= Seq::<Seq<char>>::empty());
        lemma_starts(ps.skip(q.len() as int));
        assert(joins(q.skip(q.len() as int)).len() == 0);
        assert(q =~= ps);
    } else {
        lemma_unique(q, ps, ps.len() as int);
        assert(ps.skip(ps.len() as int) =~= Seq::<Seq<char>>::empty());
        lemma_starts(q.skip(ps.len() as int));
        assert(joins(ps.skip(ps.len() as int)).len() == 0);
    }
}
pub proof fn lemma_split(p: Seq<char>, rs: Seq<Seq<char>>)
    requires p.len() > 0, p[0] == '/', rs.len() > 0, forall|i: int| 0 <= i < rs.len() ==> no_slash(#[trigger] rs[i]), p == rs[0] + joins(rs.skip(1)),
    ensures splits(p, rs.skip(1)), parts(p) == rs.skip(1), no_slash(rs[0])
{
    if rs[0].len() > 0 { assert(p[0] == rs[0][0]); }
    assert(p =~= joins(rs.skip(1)));
    assert forall|i: int| 0 <= i < rs.skip(1).len() implies no_slash(#[trigger] rs.skip(1)[i]) by { assert(rs.skip(1)[i] == rs[i + 1]); }
    lemma_parts(p, rs.skip(1));
}
pub proof fn lemma_distinct(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.to_multiset() == b.to_multiset(), grouped(b),
    ensures distinct(a) == !adjacent(b), a.len() == b.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if adjacent(b) {
        let i = choose|i: int| 0 <= i && i + 1 < b.len() && #[trigger] b[i] == b[i + 1];
        assert(!distinct(b)) by { assert(b[i] == b[i + 1]); }
    } else {
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by {
            if b[i] == b[j] { if i + 1 < j { assert(b[i + 1] == b[i]); } assert(b[i] == b[i + 1]); }
        }
    }
    assert(distinct(a) == distinct(b)) by { lemma_dup(a); lemma_dup(b); }
}
pub proof fn lemma_dup(a: Seq<Seq<char>>)
    ensures distinct(a) == forall|x: Seq<char>| #[trigger] a.to_multiset().count(x) <= 1
    decreases a.len()
{
    a.to_multiset_ensures();
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    broadcast use vstd::multiset::group_multiset_axioms;
    if a.len() > 0 {
        let b = a.drop_last(); let l = a.last();
        assert(a =~= b.push(l));
        lemma_dup(b);
        b.to_multiset_ensures();
        assert(a.to_multiset() =~= b.to_multiset().insert(l));
        assert(b.to_multiset().count(l) > 0 <==> b.contains(l));
        if distinct(a) {
            assert(distinct(b)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(a[i] != a[j]); } }
            assert(!b.contains(l)) by { if b.contains(l) { let i = choose|i: int| 0 <= i < b.len() && b[i] == l; assert(a[i] == a[a.len() - 1]); } }
            assert forall|x: Seq<char>| #[trigger] a.to_multiset().count(x) <= 1 by { assert(b.to_multiset().count(x) <= 1); if x == l { } }
        }
        if (forall|x: Seq<char>| #[trigger] a.to_multiset().count(x) <= 1) {
            assert forall|x: Seq<char>| #[trigger] b.to_multiset().count(x) <= 1 by { assert(a.to_multiset().count(x) <= 1); }
            assert(a.to_multiset().count(l) <= 1);
            assert(!b.contains(l));
            assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by {
                if j < b.len() { assert(b[i] != b[j]); } else { assert(b[i] == a[i]); assert(b.contains(b[i])); }
            }
        }
    }
}
// ---------------------------------------------------------------- the regex emitted for a pattern
pub open spec fn ph_text() -> Seq<char> { seq!['/', '(', '[', '^', '/', ']', '+', ')'] }
pub open spec fn rest_text() -> Seq<char> { seq!['/', '(', '.', '*', ')'] }
pub open spec fn seg_re(s: Seg) -> Seq<char> { match s { Seg::Lit(l) => seq!['/'] + esc(l), Seg::Ph => ph_text(), Seg::Rest => rest_text() } }
pub open spec fn re_of(pat: Seq<Seg>) -> Seq<char> decreases pat.len() { if pat.len() == 0 { Seq::empty() } else { re_of(pat.drop_last()) + seg_re(pat.last()) } }
pub open spec fn full_re(pat: Seq<Seg>) -> Seq<char> { if pat.len() == 0 { seq!['^', '\\', '*', '$'] } else { seq!['^'] + re_of(pat) + seq!['$'] } }
/// Which texts a regex matches, by the regex crate.
pub uninterp spec fn re_matches(re: Seq<char>, text: Seq<char>) -> bool;
/// The contract of the regex crate (trusted): an emitted regex matches what it says. (`.` leaves out
/// line feeds, which no URI contains.)
pub axiom fn ax_regex(pat: Seq<Seg>, p: Seq<char>)
    requires wf(pat), !p.contains('\n')
    ensures re_matches(full_re(pat), p) == matches(pat, p);

pub open spec fn stops(r: Seq<char>) -> bool { r.len() > 0 && (r[0] == '/' || r[0] == '$') }
pub proof fn lemma_esc(a: Seq<char>, b: Seq<char>, ra: Seq<char>, rb: Seq<char>)
    requires no_slash(a), no_slash(b), stops(ra), stops(rb), esc(a) + ra == esc(b) + rb
    ensures a == b, ra == rb
    decreases a.len()
{
    let x = esc(a) + ra; let y = esc(b) + rb;
    if a.len() == 0 && b.len() == 0 { assert(x =~= ra); assert(y =~= rb); assert(a =~= b); }
    else if a.len() == 0 { assert(x =~= ra); lemma_esc_head(b, rb); }
    else if b.len() == 0 { assert(y =~= rb); lemma_esc_head(a, ra); }
    else {
        let a1 = a.drop_first(); let b1 = b.drop_first();
        assert(x =~= esc1(a[0]) + (esc(a1) + ra));
        assert(y =~= esc1(b[0]) + (esc(b1) + rb));
        assert(x[0] == esc1(a[0])[0]); assert(y[0] == esc1(b[0])[0]);
        if meta(a[0]) { assert(x[1] == a[0]); }
        if meta(b[0]) { assert(y[1] == b[0]); }
        assert(a[0] == b[0]);
        let n = esc1(a[0]).len() as int;
        assert(x.skip(n) =~= esc(a1) + ra); assert(y.skip(n) =~= esc(b1) + rb);
        assert forall|i: int| 0 <= i < a1.len() implies a1[i] != '/' by { assert(a1[i] == a[i + 1]); }
        assert forall|i: int| 0 <= i < b1.len() implies b1[i] != '/' by { assert(b1[i] == b[i + 1]); }
        lemma_esc(a1, b1, ra, rb);
        assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1);
    }
}
pub proof fn lemma_esc_head(a: Seq<char>, ra: Seq<char>)
    requires a.len() > 0, no_slash(a)
    ensures (esc(a) + ra).len() > 0, ({ let c = (esc(a) + ra)[0]; c != '/' && c != '$' && c != '(' })
{
    assert((esc(a) + ra)[0] == esc1(a[0])[0]); assert(a[0] != '/');
}
/// the same from the front
pub proof fn lemma_re_front(pat: Seq<Seg>)
    requires pat.len() > 0
    ensures re_of(pat) == seg_re(pat[0]) + re_of(pat.drop_first())
    decreases pat.len()
{
    if pat.len() == 1 { assert(pat.drop_first() =~= Seq::<Seg>::empty()); assert(pat.drop_last() =~= Seq::<Seg>::empty()); assert(re_of(pat) =~= seg_re(pat[0]) + re_of(pat.drop_first())); }
    else {
        lemma_re_front(pat.drop_last());
        assert(pat.drop_last().drop_first() =~= pat.drop_first().drop_last());
        assert(pat.drop_first().last() == pat.last());
        assert(re_of(pat) =~= seg_re(pat[0]) + re_of(pat.drop_first()));
    }
}
pub open spec fn lits_ok(pat: Seq<Seg>) -> bool { forall|i: int| 0 <= i < pat.len() ==> match #[trigger] pat[i] { Seg::Lit(l) => no_slash(l), _ => true } }
pub open spec fn no_slash_seg(s: Seg) -> bool { match s { Seg::Lit(l) => no_slash(l), _ => true } }
/// the character after the slash tells the kinds apart
pub proof fn lemma_seg_head(s: Seg, r: Seq<char>)
    requires no_slash_seg(s), stops(r)
    ensures ({ let t = seg_re(s) + r; t.len() > 1 && t[0] == '/' && (t[1] == '(') == !(s matches Seg::Lit(_)) })
{
    if let Seg::Lit(l) = s { assert((seg_re(s) + r).drop_first() =~= esc(l) + r); if l.len() > 0 { lemma_esc_head(l, r); } else { assert(esc(l) + r =~= r); } assert((seg_re(s) + r)[1] == (seg_re(s) + r).drop_first()[0]); }
}
pub proof fn lemma_seg_inj(s: Seg, t: Seg, ra: Seq<char>, rb: Seq<char>)
    requires no_slash_seg(s), no_slash_seg(t), stops(ra), stops(rb), seg_re(s) + ra == seg_re(t) + rb
    ensures s == t, ra == rb
{
    let x = seg_re(s) + ra; let y = seg_re(t) + rb;
    lemma_seg_head(s, ra); lemma_seg_head(t, rb);
    match (s, t) {
        (Seg::Lit(l), Seg::Lit(m)) => { assert(x.drop_first() =~= esc(l) + ra); assert(y.drop_first() =~= esc(m) + rb); lemma_esc(l, m, ra, rb); }
        (Seg::Lit(l), _) => {}
        (_, Seg::Lit(l)) => {}
        (Seg::Ph, Seg::Ph) => { assert(x.skip(8) =~= ra); assert(y.skip(8) =~= rb); }
        (Seg::Rest, Seg::Rest) => { assert(x.skip(5) =~= ra); assert(y.skip(5) =~= rb); }
        (Seg::Ph, Seg::Rest) => { assert(x[2] == '['); assert(y[2] == '.'); }
        (Seg::Rest, Seg::Ph) => { assert(y[2] == '['); assert(x[2] == '.'); }
    }
}
pub proof fn lemma_re_inj(a: Seq<Seg>, b: Seq<Seg>)
    requires lits_ok(a), lits_ok(b), re_of(a).push('$') == re_of(b).push('$')
    ensures a == b
    decreases a.len()
{
    let x = re_of(a).push('$'); let y = re_of(b).push('$');
    if a.len() > 0 { lemma_re_front(a); assert(x[0] == '/'); }
    if b.len() > 0 { lemma_re_front(b); assert(y[0] == '/'); }
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
    else {
        let a1 = a.drop_first(); let b1 = b.drop_first();
        let ra = re_of(a1).push('$'); let rb = re_of(b1).push('$');
        if a1.len() > 0 { lemma_re_front(a1); } if b1.len() > 0 { lemma_re_front(b1); }
        assert(stops(ra)); assert(stops(rb));
        assert(x =~= seg_re(a[0]) + ra); assert(y =~= seg_re(b[0]) + rb);
        lemma_seg_inj(a[0], b[0], ra, rb);
        assert(lits_ok(a1)) by { assert forall|i: int| 0 <= i < a1.len() implies match #[trigger] a1[i] { Seg::Lit(l) => no_slash(l), _ => true } by { assert(a1[i] == a[i + 1]); } }
        assert(lits_ok(b1)) by { assert forall|i: int| 0 <= i < b1.len() implies match #[trigger] b1[i] { Seg::Lit(l) => no_slash(l), _ => true } by { assert(b1[i] == b[i + 1]); } }
        lemma_re_inj(a1, b1);
        assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1);
    }
}
/// Two patterns have the same regex only if they are the same (up to placeholder names).
pub proof fn lemma_full_re(a: Seq<Seg>, b: Seq<Seg>)
    requires wf(a), wf(b)
    ensures (full_re(a) == full_re(b)) == (a == b)
{
    if full_re(a) == full_re(b) {
        if a.len() > 0 { lemma_re_front(a); assert(full_re(a)[1] == '/'); }
        if b.len() > 0 { lemma_re_front(b); assert(full_re(b)[1] == '/'); }
        if a.len() > 0 && b.len() > 0 {
            assert(full_re(a).drop_first() =~= re_of(a).push('$')); assert(full_re(b).drop_first() =~= re_of(b).push('$'));
            lemma_re_inj(a, b);
        } else { assert(a =~= b); }
    }
}
impl RoutePath {
    /// what `parse` establishes
    pub open spec fn reads(&self, p: Seq<char>) -> bool {
        &&& self.raw@ == p && path_ok(p)
        &&& self.pat() == pat_of_path(p) && self.wf()
        &&& self.regex@ == full_re(self.pat())
        &&& id_views(self.placeholders@) == names_of_path(p)
    }
}
}

@prelude
verus! {
// ---------------------------------------------------------------- maps (trusted: indexmap)
pub trait VKey { spec fn key(&self) -> Seq<char>; }
impl VKey for Ident { open spec fn key(&self) -> Seq<char> { self@ } }
/// A value compared by what it is mapped to (here: a regex by its text).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(P)]
pub struct ByProxy<T, P: ?Sized> { t: T, p: core::marker::PhantomData<P> }
impl VKey for ByProxy<Regex, str> { uninterp spec fn key(&self) -> Seq<char>; }
impl ByProxy<Regex, str> { #[verifier::external_body] pub fn by_text(r: Regex) -> (x: Self) ensures x.key() == r@ { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &Regex) ensures r@ == self.key() { unimplemented!() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { v: Vec<(K, V)> }
impl<K: VKey, V> IndexMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    /// the keys in order
    pub uninterp spec fn ks(&self) -> Seq<Seq<char>>;
    pub open spec fn has(&self, k: Seq<char>) -> bool { self.m().contains_key(k) }
    pub axiom fn ax_keys(&self) ensures distinct(self.ks()), forall|k: Seq<char>| self.ks().contains(k) <==> #[trigger] self.m().contains_key(k);
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty(), r.ks() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, k: K, v: V) requires !old(self).m().contains_key(k.key()) ensures final(self).m() == old(self).m().insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    fn at<'a>(&'a self, k: &K) -> (r: &'a V) requires self.m().contains_key(k.key()) ensures *r == self.m()[k.key()] { unimplemented!() }
    #[verifier::external_body]
    fn last_mut<'a>(&'a mut self, Ghost(k): Ghost<Seq<char>>) -> (r: &'a mut V) requires old(self).m().contains_key(k) ensures *r == old(self).m()[k], final(self).m() == old(self).m().insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    fn at_mut<'a>(&'a mut self, k: &K) -> (r: &'a mut V) requires old(self).m().contains_key(k.key()) ensures *r == old(self).m()[k.key()], final(self).m() == old(self).m().insert(k.key(), *final(r)) { unimplemented!() }
    pub fn entry<'a>(&'a mut self, key: K) -> (r: Entry<'a, K, V>)
        ensures
            r matches Entry::Vacant(e) ==> *e.map == *old(self) && *final(e.map) == *final(self) && e.key == key && !old(self).m().contains_key(key.key()),
            r matches Entry::Occupied(e) ==> *e.map == *old(self) && *final(e.map) == *final(self) && e.key == key && old(self).m().contains_key(key.key()),
    { if self.contains(&key) { Entry::Occupied(OccupiedEntry { map: self, key }) } else { Entry::Vacant(VacantEntry { map: self, key }) } }
    #[verifier::external_body]
    pub fn v_values(&self) -> (r: Vec<&V>) ensures r@.len() == self.ks().len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.m()[self.ks()[i]] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: Vec<(&K, &V)>) ensures r@.len() == self.ks().len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.key() == self.ks()[i] && *r@[i].1 == self.m()[self.ks()[i]] { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut IndexMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut IndexMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K: VKey, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> (r: &'a mut V)
        requires !self.map.m().contains_key(self.key.key())
        ensures *r == v, final(self.map).m() == old(self.map).m().insert(self.key.key(), *final(r))
    { let ghost k = self.key.key(); self.map.push(self.key, v); let r = self.map.last_mut(Ghost(k)); r }
}
impl<'a, K: VKey, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> (r: &V)
        requires self.map.m().contains_key(self.key.key())
        ensures *r == old(self.map).m()[self.key.key()]
    { self.map.at(&self.key) }
}
impl<'a, K: VKey, V> Entry<'a, K, V> {
    pub open spec fn now(&self) -> Map<Seq<char>, V> { match self { Entry::Occupied(e) => e.map.m(), Entry::Vacant(e) => e.map.m() } }
    #[verifier::prophetic]
    pub open spec fn later(&self) -> Map<Seq<char>, V> { match self { Entry::Occupied(e) => final(e.map).m(), Entry::Vacant(e) => final(e.map).m() } }
    pub open spec fn k(&self) -> Seq<char> { match self { Entry::Occupied(e) => e.key.key(), Entry::Vacant(e) => e.key.key() } }
    pub open spec fn ok(&self) -> bool { self.now().contains_key(self.k()) == (self matches Entry::Occupied(_)) }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()), self.ok()
        ensures self.later() == self.now().insert(self.k(), *final(r)), self.now().contains_key(self.k()) ==> *r == self.now()[self.k()], !self.now().contains_key(self.k()) ==> f.ensures((), *r)
    { match self { Entry::Occupied(e) => { let ghost k = e.key.key(); let r = e.map.last_mut(Ghost(k)); r } Entry::Vacant(e) => e.insert(f()) } }
}
}

verus! {
// ---------------------------------------------------------------- declarations
// what syn hands to the derive macro (trusted: its fields and functions as they are used here)
pub struct Colon2;
pub struct PathSeg { pub ident: Ident }
pub struct APath { pub leading_colon: Option<Colon2>, pub segments: Vec<PathSeg> }
#[verifier::external_body]
pub struct Tokens { t: u8 }
impl Clone for Tokens { #[verifier::external_body] fn clone(&self) -> (r: Tokens) { unimplemented!() } }
pub struct Attribute { pub path: APath, pub tts: Tokens }
#[verifier::external_body]
pub struct SynError { e: u8 }
#[verifier::external_body]
pub struct LitStr { s: String }
impl LitStr { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub enum Lit { Str(LitStr), Other }
pub enum NestedMeta { Literal(Lit), Meta(Ident) }
pub struct MetaList { pub ident: Ident, pub nested: Vec<NestedMeta> }
pub enum Meta { Word(Ident), List(MetaList), NameValue(Ident) }
impl Meta {
    pub open spec fn nm(&self) -> Seq<char> { match self { Meta::Word(i) => i@, Meta::List(l) => l.ident@, Meta::NameValue(i) => i@ } }
    pub fn name(&self) -> (r: Ident) ensures r@ == self.nm() { match self { Meta::Word(i) => i.v_clone(), Meta::List(l) => l.ident.v_clone(), Meta::NameValue(i) => i.v_clone() } }
}
/// what an attribute says, if it has the form of a word, a list or a value
pub uninterp spec fn meta_of(a: Attribute) -> Option<Meta>;
impl Attribute {
    #[verifier::external_body]
    pub fn parse_meta(&self) -> (r: Result<Meta, SynError>)
        ensures match r { Ok(m) => meta_of(*self) == Some(m), Err(_) => meta_of(*self) is None },
            self.path.segments@.len() == 1 ==> (meta_of(*self) matches Some(m) ==> m.nm() == self.path.segments@[0].ident@)
    { unimplemented!() }
}
pub struct Field { pub ident: Option<Ident>, pub attrs: Vec<Attribute>, pub ty: syn::Type }
impl Clone for Field { #[verifier::external_body] fn clone(&self) -> (r: Field) { unimplemented!() } }
pub mod syn {
    use vstd::prelude::*;
    verus! {
    pub struct Type { pub t: u8 }
    /// the type between an attribute's parentheses
    pub uninterp spec fn type_of(t: super::Tokens) -> Option<Type>;
    #[verifier::external_body]
    pub fn parse2(t: super::Tokens) -> (r: Result<Type, super::SynError>) ensures match r { Ok(x) => type_of(t) == Some(x), Err(_) => type_of(t) is None } { unimplemented!() }
    }
}
pub struct Fields { pub f: Vec<Field> }
impl VIter<Field> for Fields { open spec fn viter_spec(&self) -> Seq<Field> { self.f@ } fn v_iter(&self) -> (r: Vec<&Field>) { self.f.v_iter() } }
pub struct VariantAst<'a> { pub attrs: &'a Vec<Attribute>, pub ident: &'a Ident, pub fields: &'a Fields }

// comparisons of identifiers (trusted: by their text)
impl PartialEq for Ident { #[verifier::external_body] fn eq(&self, o: &Ident) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Ident) -> bool { self@ == o@ } }
impl PartialEq<str> for Ident { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl<str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ } }
impl<'a> PartialEq<&'a str> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == o@ } }
impl Clone for VariantData { #[verifier::external_body] fn clone(&self) -> (r: VariantData) { unimplemented!() } }
impl Clone for Route { #[verifier::external_body] fn clone(&self) -> (r: Route) { unimplemented!() } }
impl Clone for RoutePath { #[verifier::external_body] fn clone(&self) -> (r: RoutePath) { unimplemented!() } }

impl RoutePath { pub open spec fn sound(&self) -> bool { self.wf() && self.regex@ == full_re(self.pat()) } }
pub open spec fn s_head() -> Seq<char> { seq!['H', 'E', 'A', 'D'] }
pub open spec fn s_get() -> Seq<char> { seq!['G', 'E', 'T'] }
/// a declared route and the variant it is on
pub type Decl = (VariantData, Route);
pub open spec fn pt(d: Decl) -> Seq<Seg> { d.1.path.pat() }
pub open spec fn pkey(d: Decl) -> Seq<char> { full_re(pt(d)) }
pub open spec fn meth(d: Decl) -> Seq<char> { d.1.method@ }
pub open spec fn sound(d: Seq<Decl>) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).1.path.sound() }
/// the routes on a variant, and on all
pub open spec fn row(v: VariantData, n: int) -> Seq<Decl> { Seq::new(n as nat, |i: int| (v, v.routes@[i])) }
pub open spec fn decls(vs: Seq<VariantData>, n: int) -> Seq<Decl> decreases n { if n <= 0 { Seq::empty() } else { decls(vs, n - 1) + row(vs[n - 1], vs[n - 1].routes@.len() as int) } }
/// two routes no request fits both of, when it has the method of one
pub open spec fn apart(a: Decl, b: Decl) -> bool { if pt(a) == pt(b) { meth(a) != meth(b) } else { none_both(pt(a), pt(b)) } }
pub open spec fn unambiguous(d: Seq<Decl>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> apart(#[trigger] d[i], #[trigger] d[j]) }
pub open spec fn is_fallback(v: VariantData) -> bool { v.routes@.len() == 0 && v.forward_field is Some }
pub open spec fn one_fallback(vs: Seq<VariantData>) -> bool { forall|i: int, j: int| 0 <= i < j < vs.len() && is_fallback(#[trigger] vs[i]) ==> !is_fallback(#[trigger] vs[j]) }
/// declarations that don't say what to do for each request
pub open spec fn bad(vs: Seq<VariantData>) -> bool { !unambiguous(decls(vs, vs.len() as int)) || !one_fallback(vs) }
pub open spec fn is_the_fallback(vs: Seq<VariantData>, n: int, f: Option<VariantData>) -> bool {
    match f { None => forall|i: int| 0 <= i < n ==> !is_fallback(#[trigger] vs[i]), Some(v) => exists|i: int| 0 <= i < n && is_fallback(#[trigger] vs[i]) && vs[i] == v }
}
pub type Inner = IndexMap<Ident, Decl>;
pub type Outer = IndexMap<ByProxy<Regex, str>, Inner>;
pub open spec fn hasr(m: Outer, k: Seq<char>, h: Seq<char>) -> bool { m.m().contains_key(k) && m.m()[k].m().contains_key(h) }
pub open spec fn at_(m: Outer, k: Seq<char>, h: Seq<char>) -> Decl { m.m()[k].m()[h] }
/// the map holds just these
pub open spec fn holds(m: Outer, d: Seq<Decl>) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> hasr(m, pkey(#[trigger] d[i]), meth(d[i])) && at_(m, pkey(d[i]), meth(d[i])) == d[i]
    &&& forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m, k, h) ==> exists|i: int| 0 <= i < d.len() && pkey(#[trigger] d[i]) == k && meth(d[i]) == h
}
pub open spec fn overlaps(a: Seq<Seg>, b: Seq<Seg>) -> bool { exists|p: Seq<char>| #[trigger] both(a, b, p) }
/// whether the declared GET route `g` stands for HEAD as well
pub open spec fn implied(d: Seq<Decl>, g: Decl) -> bool { meth(g) == s_get() && forall|i: int| 0 <= i < d.len() && meth(#[trigger] d[i]) == s_head() ==> none_both(pt(d[i]), pt(g)) }
/// `e` is the HEAD route that `g` implies
pub open spec fn head_of(g: Decl, e: Decl) -> bool { e.0 == g.0 && e.1.method@ == s_head() && e.1.path == g.1.path }
pub open spec fn heads_of(d: Seq<Decl>, m: Outer) -> bool {
    // declared routes, as they are
    &&& forall|i: int| 0 <= i < d.len() ==> hasr(m, pkey(#[trigger] d[i]), meth(d[i])) && at_(m, pkey(d[i]), meth(d[i])) == d[i]
    // HEAD for the GET routes no declared HEAD route overlaps
    &&& forall|i: int| 0 <= i < d.len() && implied(d, #[trigger] d[i]) ==> hasr(m, pkey(d[i]), s_head()) && head_of(d[i], at_(m, pkey(d[i]), s_head()))
    // and nothing else
    &&& forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m, k, h) ==> exists|i: int| 0 <= i < d.len() && pkey(#[trigger] d[i]) == k && (meth(d[i]) == h || h == s_head() && implied(d, d[i]))
}
}
@prelude
verus! {
pub open spec fn seen(e: Decl, p: Seq<Seg>) -> bool { pt(e) == p || none_both(pt(e), p) }
pub open spec fn prefix(d: Seq<Decl>, e: Seq<Decl>) -> bool { d.len() <= e.len() && forall|x: int| 0 <= x < d.len() ==> #[trigger] d[x] == e[x] }
/// the routes of the first `i` variants and the first `j` on the next
pub open spec fn upto(vs: Seq<VariantData>, i: int, j: int) -> Seq<Decl> { decls(vs, i) + row(vs[i], j) }
pub proof fn lemma_decls(vs: Seq<VariantData>, i: int, n: int)
    requires 0 <= i <= n
    ensures prefix(decls(vs, i), decls(vs, n))
    decreases n
{ if i < n { lemma_decls(vs, i, n - 1); } }
pub proof fn lemma_upto(vs: Seq<VariantData>, i: int, j: int)
    requires 0 <= i < vs.len(), 0 <= j <= vs[i].routes@.len()
    ensures ({ let d = decls(vs, vs.len() as int);
        &&& prefix(upto(vs, i, j), d)
        &&& j < vs[i].routes@.len() ==> prefix(upto(vs, i, j + 1), d) && upto(vs, i, j + 1) =~= upto(vs, i, j).push((vs[i], vs[i].routes@[j]))
        &&& j == vs[i].routes@.len() ==> upto(vs, i, j) == decls(vs, i + 1)
        &&& j == 0 ==> upto(vs, i, j) =~= decls(vs, i) })
{
    let d = decls(vs, i + 1);
    lemma_decls(vs, i + 1, vs.len() as int);
    assert(d == upto(vs, i, vs[i].routes@.len() as int));
    assert(prefix(upto(vs, i, j), d));
    if j < vs[i].routes@.len() { assert(prefix(upto(vs, i, j + 1), d)); assert(upto(vs, i, j + 1) =~= upto(vs, i, j).push((vs[i], vs[i].routes@[j]))); }
}
pub proof fn lemma_sound(vs: Seq<VariantData>, n: int)
    requires 0 <= n <= vs.len(), forall|v: int, i: int| 0 <= v < vs.len() && 0 <= i < vs[v].routes@.len() ==> (#[trigger] vs[v].routes@[i]).path.sound()
    ensures sound(decls(vs, n))
    decreases n
{ if n > 0 { lemma_sound(vs, n - 1); let d = decls(vs, n); let a = decls(vs, n - 1);
    assert forall|x: int| 0 <= x < d.len() implies (#[trigger] d[x]).1.path.sound() by { if x < a.len() { assert(d[x] == a[x]); } else { assert(d[x].1 == vs[n - 1].routes@[x - a.len()]); } } } }
/// two routes that aren't apart make the whole ambiguous
pub proof fn lemma_ambiguous(d: Seq<Decl>, x: int, e: Decl, all: Seq<Decl>)
    requires 0 <= x < d.len(), prefix(d.push(e), all), !apart(d[x], e)
    ensures !unambiguous(all)
{ assert(d.push(e)[x] == all[x]); assert(d.push(e)[d.len() as int] == all[d.len() as int]); assert(all[x] == d[x] && all[d.len() as int] == e); }
pub proof fn lemma_key(a: Decl, b: Decl) requires a.1.path.sound(), b.1.path.sound() ensures (pkey(a) == pkey(b)) == (pt(a) == pt(b)) { lemma_full_re(pt(a), pt(b)); }
/// adding one route
pub proof fn lemma_added(m0: Outer, m1: Outer, d: Seq<Decl>, e: Decl)
    requires holds(m0, d), sound(d), e.1.path.sound(), unambiguous(d),
        !hasr(m0, pkey(e), meth(e)),
        forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m1, k, h) == (hasr(m0, k, h) || k == pkey(e) && h == meth(e)),
        forall|k: Seq<char>, h: Seq<char>| hasr(m0, k, h) ==> #[trigger] at_(m1, k, h) == at_(m0, k, h),
        at_(m1, pkey(e), meth(e)) == e,
        forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m0, k, h) ==> seen(at_(m0, k, h), pt(e)),
    ensures holds(m1, d.push(e)), unambiguous(d.push(e)), sound(d.push(e))
{
    let f = d.push(e);
    assert forall|i: int| 0 <= i < f.len() implies hasr(m1, pkey(#[trigger] f[i]), meth(f[i])) && at_(m1, pkey(f[i]), meth(f[i])) == f[i] by { if i < d.len() { assert(hasr(m0, pkey(d[i]), meth(d[i]))); } }
    assert forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m1, k, h) implies exists|i: int| 0 <= i < f.len() && pkey(#[trigger] f[i]) == k && meth(f[i]) == h by {
        if hasr(m0, k, h) { let i = choose|i: int| 0 <= i < d.len() && pkey(#[trigger] d[i]) == k && meth(d[i]) == h; assert(f[i] == d[i]); } else { assert(f[d.len() as int] == e); } }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies apart(#[trigger] f[i], #[trigger] f[j]) by {
        if j < d.len() { assert(apart(d[i], d[j])); } else { assert(hasr(m0, pkey(d[i]), meth(d[i]))); assert(seen(d[i], pt(e))); lemma_key(d[i], e); } }
}
/// every pattern matches something
pub proof fn lemma_some(pat: Seq<Seg>)
    requires wf(pat)
    ensures !none_both(pat, pat)
{
    if pat.len() == 0 { assert(matches(pat, seq!['*'])); }
    else {
        let ps = Seq::new(pat.len(), |i: int| match pat[i] { Seg::Lit(l) => l, Seg::Ph => seq!['x'], Seg::Rest => Seq::empty() });
        assert forall|i: int| 0 <= i < pat.len() implies seg_ok(#[trigger] pat[i], ps[i]) by {}
        assert(pieces_ok(pat, ps));
        assert(matches(pat, joins(ps)));
    }
}
}
@prelude
verus! {
// ---------------------------------------------------------------- HEAD for GET
/// each is implied by a declared route
pub open spec fn heads_ok(all: Seq<Decl>, hs: Seq<Decl>) -> bool { forall|x: int| 0 <= x < hs.len() ==> from_get(all, #[trigger] hs[x]) }
pub open spec fn from_get(all: Seq<Decl>, e: Decl) -> bool { exists|g: int| 0 <= g < all.len() && implied(all, #[trigger] all[g]) && head_of(all[g], e) }
/// their keys are among the first n, each once
pub open spec fn heads_keys(m: Outer, hs: Seq<Decl>, n: int) -> bool {
    &&& forall|x: int| 0 <= x < hs.len() ==> exists|i: int| 0 <= i < n && i < m.ks().len() && #[trigger] m.ks()[i] == pkey(#[trigger] hs[x])
    &&& forall|x: int, y: int| 0 <= x < y < hs.len() ==> pkey(#[trigger] hs[x]) != pkey(#[trigger] hs[y])
}
pub open spec fn has_head(hs: Seq<Decl>, g: Decl) -> bool { exists|x: int| 0 <= x < hs.len() && head_of(g, #[trigger] hs[x]) }
pub proof fn lemma_implied(m1: Outer, all: Seq<Decl>, e: Decl)
    requires holds(m1, all), meth(e) == s_get()
    ensures (forall|i: int| 0 <= i < m1.ks().len() && #[trigger] hasr(m1, m1.ks()[i], s_head()) ==> none_both(pt(at_(m1, m1.ks()[i], s_head())), pt(e))) ==> implied(all, e),
        (exists|x: int| 0 <= x < all.len() && meth(#[trigger] all[x]) == s_head() && !none_both(pt(all[x]), pt(e))) ==> !implied(all, e),
{
    m1.ax_keys();
    if (forall|i: int| 0 <= i < m1.ks().len() && #[trigger] hasr(m1, m1.ks()[i], s_head()) ==> none_both(pt(at_(m1, m1.ks()[i], s_head())), pt(e))) {
        assert forall|i: int| 0 <= i < all.len() && meth(#[trigger] all[i]) == s_head() implies none_both(pt(all[i]), pt(e)) by {
            let k = pkey(all[i]);
            assert(hasr(m1, k, s_head())); assert(m1.ks().contains(k));
            let j = choose|j: int| 0 <= j < m1.ks().len() && m1.ks()[j] == k;
            assert(hasr(m1, m1.ks()[j], s_head()));
        }
    }
}
pub proof fn lemma_heads_push(m1: Outer, all: Seq<Decl>, hs: Seq<Decl>, i: int, g: int, e: Decl)
    requires heads_ok(all, hs), heads_keys(m1, hs, i), 0 <= i < m1.ks().len(), distinct(m1.ks()), 0 <= g < all.len(), implied(all, all[g]), head_of(all[g], e), pkey(all[g]) == m1.ks()[i]
    ensures heads_ok(all, hs.push(e)), heads_keys(m1, hs.push(e), i + 1), has_head(hs.push(e), all[g]),
        forall|d: Decl| has_head(hs, d) ==> #[trigger] has_head(hs.push(e), d),
{
    let h = hs.push(e);
    assert(pkey(e) == m1.ks()[i]);
    assert forall|x: int| 0 <= x < h.len() implies from_get(all, #[trigger] h[x]) by { if x < hs.len() { assert(from_get(all, hs[x])); } }
    assert forall|x: int| 0 <= x < h.len() implies exists|j: int| 0 <= j < i + 1 && j < m1.ks().len() && #[trigger] m1.ks()[j] == pkey(#[trigger] h[x]) by {
        if x < hs.len() { let j = choose|j: int| 0 <= j < i && j < m1.ks().len() && #[trigger] m1.ks()[j] == pkey(hs[x]); assert(m1.ks()[j] == pkey(h[x])); } else { assert(m1.ks()[i] == pkey(h[x])); } }
    assert forall|x: int, y: int| 0 <= x < y < h.len() implies pkey(#[trigger] h[x]) != pkey(#[trigger] h[y]) by {
        if y == hs.len() { let j = choose|j: int| 0 <= j < i && j < m1.ks().len() && #[trigger] m1.ks()[j] == pkey(hs[x]); assert(m1.ks()[j] != m1.ks()[i]); } else { assert(h[x] == hs[x] && h[y] == hs[y]); } }
    assert(head_of(all[g], h[hs.len() as int]));
    assert forall|d: Decl| has_head(hs, d) implies #[trigger] has_head(h, d) by { let x = choose|x: int| 0 <= x < hs.len() && head_of(d, #[trigger] hs[x]); assert(h[x] == hs[x]); }
}
pub open spec fn all_heads(all: Seq<Decl>, hs: Seq<Decl>) -> bool { forall|g: int| 0 <= g < all.len() && implied(all, #[trigger] all[g]) ==> has_head(hs, all[g]) }
pub proof fn lemma_all_heads(m1: Outer, all: Seq<Decl>, hs: Seq<Decl>)
    requires holds(m1, all), forall|i: int| 0 <= i < m1.ks().len() && #[trigger] hasr(m1, m1.ks()[i], s_get()) && implied(all, at_(m1, m1.ks()[i], s_get())) ==> has_head(hs, at_(m1, m1.ks()[i], s_get())),
    ensures all_heads(all, hs)
{
    m1.ax_keys();
    assert forall|g: int| 0 <= g < all.len() && implied(all, #[trigger] all[g]) implies has_head(hs, all[g]) by {
        let k = pkey(all[g]);
        assert(hasr(m1, k, s_get())); assert(m1.ks().contains(k));
        let j = choose|j: int| 0 <= j < m1.ks().len() && m1.ks()[j] == k;
        assert(hasr(m1, m1.ks()[j], s_get()));
    }
}
/// the declared routes and the first n of the implied ones
pub open spec fn with_heads(m1: Outer, hs: Seq<Decl>, n: int, m: Outer) -> bool {
    &&& forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m, k, h) ==> hasr(m1, k, h) || h == s_head() && exists|x: int| 0 <= x < n && x < hs.len() && pkey(#[trigger] hs[x]) == k
    &&& forall|k: Seq<char>, h: Seq<char>| hasr(m1, k, h) ==> #[trigger] hasr(m, k, h)
    &&& forall|k: Seq<char>, h: Seq<char>| hasr(m1, k, h) ==> #[trigger] at_(m, k, h) == at_(m1, k, h)
    &&& forall|x: int| 0 <= x < n && x < hs.len() ==> hasr(m, pkey(#[trigger] hs[x]), s_head()) && at_(m, pkey(hs[x]), s_head()) == hs[x]
}
pub proof fn lemma_fresh(m1: Outer, all: Seq<Decl>, hs: Seq<Decl>, i: int, m: Outer)
    requires with_heads(m1, hs, i, m), 0 <= i < hs.len(), heads_ok(all, hs), heads_keys(m1, hs, m1.ks().len() as int), holds(m1, all), sound(all)
    ensures !hasr(m, pkey(hs[i]), s_head()), meth(hs[i]) == s_head(), hs[i].1.path.sound()
{
    assert(from_get(all, hs[i]));
    let g = choose|g: int| 0 <= g < all.len() && implied(all, #[trigger] all[g]) && head_of(all[g], hs[i]);
    assert(all[g].1.path.sound());
    if hasr(m1, pkey(hs[i]), s_head()) {
        let x = choose|x: int| 0 <= x < all.len() && pkey(#[trigger] all[x]) == pkey(hs[i]) && meth(all[x]) == s_head();
        assert(all[x].1.path.sound());
        lemma_key(all[x], all[g]);
        lemma_some(pt(all[g]));
        assert(none_both(pt(all[x]), pt(all[g])));
    }
}
pub proof fn lemma_with_head(m1: Outer, hs: Seq<Decl>, i: int, m: Outer, n: Outer)
    requires with_heads(m1, hs, i, m), 0 <= i < hs.len(), !hasr(m, pkey(hs[i]), s_head()), meth(hs[i]) == s_head(),
        forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(n, k, h) == (hasr(m, k, h) || k == pkey(hs[i]) && h == meth(hs[i])),
        forall|k: Seq<char>, h: Seq<char>| hasr(m, k, h) ==> #[trigger] at_(n, k, h) == at_(m, k, h),
        at_(n, pkey(hs[i]), meth(hs[i])) == hs[i],
    ensures with_heads(m1, hs, i + 1, n)
{
    assert forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(n, k, h) implies hasr(m1, k, h) || h == s_head() && exists|x: int| 0 <= x < i + 1 && x < hs.len() && pkey(#[trigger] hs[x]) == k by {
        if hasr(m, k, h) { if !hasr(m1, k, h) { let x = choose|x: int| 0 <= x < i && x < hs.len() && pkey(#[trigger] hs[x]) == k; assert(pkey(hs[x]) == k); } } else { assert(pkey(hs[i]) == k); } }
    assert forall|k: Seq<char>, h: Seq<char>| hasr(m1, k, h) implies #[trigger] at_(n, k, h) == at_(m1, k, h) by { assert(hasr(m, k, h)); assert(at_(m, k, h) == at_(m1, k, h)); }
    assert forall|x: int| 0 <= x < i + 1 && x < hs.len() implies hasr(n, pkey(#[trigger] hs[x]), s_head()) && at_(n, pkey(hs[x]), s_head()) == hs[x] by { if x < i { assert(hasr(m, pkey(hs[x]), s_head())); assert(at_(m, pkey(hs[x]), s_head()) == hs[x]); } }
}
pub proof fn lemma_final(m1: Outer, all: Seq<Decl>, hs: Seq<Decl>, m: Outer)
    requires with_heads(m1, hs, hs.len() as int, m), holds(m1, all), heads_ok(all, hs), all_heads(all, hs)
    ensures heads_of(all, m)
{
    assert forall|i: int| 0 <= i < all.len() implies hasr(m, pkey(#[trigger] all[i]), meth(all[i])) && at_(m, pkey(all[i]), meth(all[i])) == all[i] by { assert(hasr(m1, pkey(all[i]), meth(all[i]))); }
    assert forall|i: int| 0 <= i < all.len() && implied(all, #[trigger] all[i]) implies hasr(m, pkey(all[i]), s_head()) && head_of(all[i], at_(m, pkey(all[i]), s_head())) by {
        let x = choose|x: int| 0 <= x < hs.len() && head_of(all[i], #[trigger] hs[x]); assert(pkey(hs[x]) == pkey(all[i])); }
    assert forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m, k, h) implies exists|i: int| 0 <= i < all.len() && pkey(#[trigger] all[i]) == k && (meth(all[i]) == h || h == s_head() && implied(all, all[i])) by {
        if hasr(m1, k, h) { let i = choose|i: int| 0 <= i < all.len() && pkey(#[trigger] all[i]) == k && meth(all[i]) == h; assert(pkey(all[i]) == k); }
        else { let x = choose|x: int| 0 <= x < hs.len() && pkey(#[trigger] hs[x]) == k; assert(from_get(all, hs[x])); let g = choose|g: int| 0 <= g < all.len() && implied(all, #[trigger] all[g]) && head_of(all[g], hs[x]); assert(pkey(all[g]) == k); } }
}
}
@struct PathSegment SegmentsFused RoutePath
@fn valid_ident
@props
C16
@spec
    ensures r == ident_text(s@), // C16 what counts as an identifier
@entry
proof { reveal_strlit("_"); assert("_"@ =~= seq!['_']); }
@loop 0 inv
    __g0 == s@, __k0 == if __i0 == 0 { 1int } else { 0 },
    __o0 == forall|j: int| 1 <= j < __i0 ==> ident_cont(#[trigger] __g0[j]),
@fn PathSegment::parse
@props
C01 C05 C16
@spec
    requires no_slash(segment@),
    ensures seg_spec(segment@, r), seg_text_ok(segment@), r@ == seg_of(segment@), r.ok(), // C01 C16 how a segment is read
@reject
!seg_text_ok(segment@)
@entry
proof { lemma_blen(segment@); lemma_blen(inner(segment@)); reveal_strlit("..."); assert("..."@ =~= seq!['.', '.', '.']); assert(segment@.take(0) =~= Seq::<char>::empty());
    assert(inner(segment@).take(0) =~= Seq::<char>::empty()); }
@fn PathSegment::matching_string
@props
C02
@spec
    requires self.ok()
    ensures seg_ok(self@, r@), no_slash(r@)
@entry
proof { reveal_strlit("..."); }
@fn SegmentsFused::next
@props
C02
@spec
    ensures
        old(self).rep() matches Some(s) ==> r == Some(&s) && *final(self) == *old(self),
        old(self).rep() is None && old(self).todo().len() == 0 ==> r is None && final(self).rep() is None && final(self).todo().len() == 0,
        old(self).rep() is None && old(self).todo().len() > 0 ==> r == Some(&old(self).todo()[0]) && (
            if is_rest(old(self).todo()[0]@) { final(self).rep() == Some(old(self).todo()[0]) }
            else { final(self).rep() is None && final(self).todo() == old(self).todo().drop_first() }),
@fn RoutePath::segments_fused
@props
C02
@spec
    requires self.segments@.len() > 0
    ensures at(r, self.segments@, 0)
@returns
SegmentsFused<'_>
@result
proof { assert(result.todo() =~= self.segments@.skip(0)); }
@fn RoutePath::parse
@props
C01 C02 C05 C16
@spec
    ensures r.reads(path@), // C01 C02 C05 C16 how a path is read and which regex stands for it
@reject
!path_ok(path@)
@entry
let ghost ps = parts(path@);
proof { reveal_strlit("*"); assert("*"@ =~= seq!['*']); reveal_strlit("/"); assert("/"@ =~= seq!['/']);
    reveal_strlit("^\\*$"); assert("^\\*$"@ =~= full_re(Seq::empty()));
    reveal_strlit("/(.*)"); assert("/(.*)"@ =~= rest_text()); reveal_strlit("/([^/]+)"); assert("/([^/]+)"@ =~= ph_text()); reveal_strlit("^"); reveal_strlit("$");
    assert forall|s: Seq<char>| s.len() >= 1 implies (s.take(1) == seq!['/']) == (#[trigger] s[0] == '/') by { if s[0] == '/' { assert(s.take(1) =~= seq!['/']); } else { assert(s.take(1)[0] == s[0]); } } }
@return 0
proof { assert(pat_of(Seq::<PathSegment>::empty()) =~= Seq::<Seg>::empty()); assert(id_views(Seq::<Ident>::empty()) =~= Seq::<Seq<char>>::empty()); }
@loop 0 before
proof { assert forall|i: int| 0 <= i < texts(__g0).len() implies no_slash(#[trigger] texts(__g0)[i]) by { assert(texts(__g0)[i] == __g0[i]@); }
    lemma_split(path@, texts(__g0)); }
@loop 0 inv
    ps == texts(__g0).skip(1), ps == parts(path@), __k0 == if __i0 == 0 { 1int } else { 0 }, path@ != seq!['*'], path@.len() > 0,
    path@[0] == '/', forall|i: int| 0 <= i < ps.len() ==> no_slash(#[trigger] ps[i]),
    __i0 > 0 ==> __o0@.len() == __i0 - 1, __i0 == 0 ==> __o0@.len() == 0,
    forall|i: int| 0 <= i < __o0@.len() ==> seg_spec(ps[i], #[trigger] __o0@[i]) && seg_text_ok(ps[i]) && __o0@[i]@ == seg_of(ps[i]) && __o0@[i].ok(),
@loop 0 start
proof { if __i0 > 1 { assert(ps[__i0 - 2] == __x0@); } }
@loop 1 before
proof { assert(segments@.len() == ps.len()); assert(ps.take(0) =~= Seq::<Seq<char>>::empty()); assert(pat_of(segments@).take(0) =~= Seq::<Seg>::empty());  assert(id_views(placeholders@) =~= Seq::<Seq<char>>::empty()); }
@loop 1 inv
    ps == parts(path@), __c1 == __i1, __g1 == refs(segments@), segments@.len() == ps.len(), path@ != seq!['*'], path@.len() > 0, path@[0] == '/',
    "/(.*)"@ == rest_text(), "/([^/]+)"@ == ph_text(),
    forall|i: int| 0 <= i < ps.len() ==> no_slash(#[trigger] ps[i]),
    forall|i: int| 0 <= i < segments@.len() ==> seg_spec(ps[i], #[trigger] segments@[i]) && seg_text_ok(ps[i]) && segments@[i]@ == seg_of(ps[i]) && segments@[i].ok(),
    forall|i: int| 0 <= i < __i1 && is_rest(seg_of(#[trigger] ps[i])) ==> i == ps.len() - 1,
    id_views(placeholders@) == names(ps.take(__i1)),
    regex@ == re_of(pat_of(segments@).take(__i1)),
@loop 1 start
let ghost i0 = __i1 - 1; let ghost ph0 = placeholders@; let ghost re0 = regex@;
proof { assert(*__x1 == segments@[i0]); assert(seg_spec(ps[i0], segments@[i0])); assert(segments@[i0]@ == seg_of(ps[i0]));
    assert(ps.take(i0 + 1).drop_last() =~= ps.take(i0)); assert(pat_of(segments@).take(i0 + 1).drop_last() =~= pat_of(segments@).take(i0));
    assert(pat_of(segments@).take(i0 + 1).last() == segments@[i0]@);
    assert(ps.take(i0 + 1).last() == ps[i0]);
    if is_rest(seg_of(ps[i0])) && i0 != ps.len() - 1 { assert(!rest_last(ps)); assert(!path_ok(path@)); } }
@loop 1 end
proof { assert(regex@ =~= re0 + seg_re(segments@[i0]@));
    if braced(ps[i0]) { assert(id_views(placeholders@) =~= id_views(ph0).push(name_of(ps[i0]))); } else { assert(placeholders@ == ph0); } }
@loop 1 after
proof { assert(ps.take(ps.len() as int) =~= ps); assert(pat_of(segments@).take(ps.len() as int) =~= pat_of(segments@)); }
let ghost ph = id_views(placeholders@);
proof { assert(rest_last(ps));
    assert forall|i: int| 0 <= i < ps.len() implies seg_text_ok(#[trigger] ps[i]) by { assert(seg_spec(ps[i], segments@[i])); } }
@tail
proof {
    assert(pat_of(segments@) =~= pat_of_path(path@)); 
    assert(distinct(names(ps)));
    assert(wf(pat_of(segments@))) by { assert forall|i: int| 0 <= i < segments@.len() implies match #[trigger] pat_of(segments@)[i] { Seg::Lit(l) => no_slash(l), Seg::Ph => true, Seg::Rest => i == segments@.len() - 1 } by { assert(segments@[i]@ == seg_of(ps[i])); assert(segments@[i].ok()); } }
    assert(segs_ok(segments@));
}
@result
proof { assert(result.regex@ =~= full_re(result.pat())); assert(path_ok(path@)); assert(result.raw@ == path@); assert(result.pat() == pat_of_path(path@)); assert(result.wf()); assert(id_views(result.placeholders@) == names_of_path(path@)); }
@fn RoutePath::matches_same_paths
@props
C02
@spec
    requires self.regex@ == full_re(self.pat()), other.regex@ == full_re(other.pat()), self.wf(), other.wf()
    ensures r == (self.pat() == other.pat()), // C02 the same pattern up to placeholder names
@entry
proof { lemma_full_re(self.pat(), other.pat()); }
@fn RoutePath::find_overlap
@props
C02 C03
@spec
    requires self.wf(), other.wf()
    ensures
        r matches Some(s) ==> matches(self.pat(), s@) && matches(other.pat(), s@), // C02 the path named is matched by both
        r is None ==> forall|p: Seq<char>| !(matches(self.pat(), p) && matches(other.pat(), p)), // C02 no path is matched by both
@entry
proof { reveal_strlit("*"); assert("*"@ =~= seq!['*']); lemma_star(self.pat(), other.pat()); }
@loop 0 before
let ghost mut k: int = 0;
let ghost mut ov: Seq<Seq<char>> = Seq::empty();
let ghost sa = self.segments@; let ghost sb = other.segments@;
let ghost pa = self.pat(); let ghost pb = other.pat();
@loop 0 inv
    invariant_except_break
       at(__b0, sb, k), at(__a0, sa, k),
       k < sa.len() || ends_rest(pa) || k == sa.len(),
    invariant
       sa == self.segments@, sb == other.segments@, pa == self.pat(), pb == other.pat(),
       self.wf(), other.wf(), pa.len() > 0, pb.len() > 0,
       ov.len() == k, overlap@ == joins(ov),
       k > pa.len() ==> ends_rest(pa), k > pb.len() ==> ends_rest(pb),
       !(ends_rest(pa) && ends_rest(pb) && k >= pa.len() && k >= pb.len()),
       forall|i: int| 0 <= i < k ==> seg_ok(#[trigger] fz(pa, i), ov[i]),
       forall|i: int| 0 <= i < k ==> seg_ok(#[trigger] fz(pb, i), ov[i]),
       saw_rest == (ends_rest(pa) && k >= pa.len() || ends_rest(pb) && k >= pb.len()),
    ensures k == pa.len() && !ends_rest(pa) || k == pb.len() && !ends_rest(pb),
    decreases sa.len() + sb.len() - k
@loop 0 start
let ghost o0 = overlap@; let ghost a0 = a; let ghost b0 = b;
proof {
   if k < sa.len() { assert(sa.skip(k).drop_first() =~= sa.skip(k + 1)); }
   if k < sb.len() { assert(sb.skip(k).drop_first() =~= sb.skip(k + 1)); }
   assert forall|s: Seq<char>| piece(o0, #[trigger] (o0.push('/') + s)) == s by { assert(piece(o0, o0.push('/') + s) =~= s); }
   assert(a0@ == fz(pa, k)); assert(b0@ == fz(pb, k)); assert(a0.ok()); assert(b0.ok());
}
@return 2
proof { lemma_return(pa, pb, ov, o0, overlap@); }
@return 3
proof { lemma_return(pa, pb, ov, o0, overlap@); }
@return 4
proof { lemma_return(pa, pb, ov, o0, overlap@); }
@loop 0 end
proof { 
   let x = piece(o0, overlap@);
   assert(overlap@ =~= o0.push('/') + x);
   assert(o0.push('/') + x =~= o0 + seq!['/'] + x);
   lemma_push(ov, x); ov = ov.push(x); k = k + 1; }
@loop 0 after
proof { lemma_end(pa, pb, ov); }
@prelude
verus! {
// ---------------------------------------------------------------- what the attributes of a declaration mean
pub open spec fn single(a: Attribute) -> bool { a.path.leading_colon is None && a.path.segments@.len() == 1 }
pub open spec fn aname(a: Attribute) -> Seq<char> { a.path.segments@[0].ident@ }
/// one of our attributes; all others are none of our business
pub open spec fn ours(a: Attribute) -> bool { single(a) && (method_word(lower(aname(a))) || known_word(aname(a))) }
pub open spec fn route_args_ok(s: Seq<NestedMeta>) -> bool { s.len() == 1 && (s[0] matches NestedMeta::Literal(Lit::Str(p)) && path_ok(p@)) }
pub open spec fn route_args(s: Seq<NestedMeta>) -> Seq<char> { match s[0] { NestedMeta::Literal(Lit::Str(p)) => p@, _ => Seq::empty() } }
/// on a struct, `#[context]` belongs to the item as a whole
pub open spec fn to_read(a: Attribute, st: bool) -> bool { ours(a) && !(st && aname(a) == "context"@) }
pub open spec fn is_route(a: Attribute, st: bool) -> bool { to_read(a, st) && (meta_of(a) matches Some(Meta::List(_))) && method_word(lower(aname(a))) }
pub open spec fn derefs(s: Seq<&NestedMeta>) -> Seq<NestedMeta> { s.map_values(|x: &NestedMeta| *x) }
pub open spec fn list_of(a: Attribute) -> Seq<NestedMeta> { match meta_of(a) { Some(Meta::List(l)) => l.nested@, _ => Seq::empty() } }
pub open spec fn vattr_ok(a: Attribute, st: bool) -> bool { to_read(a, st) ==> meta_of(a) is Some && if is_route(a, st) { route_args_ok(list_of(a)) } else { !known_word(aname(a)) } }
pub open spec fn reads_route(r: Route, a: Attribute) -> bool { r.method@ == method_const(lower(aname(a))) && r.path.reads(route_args(list_of(a))) }
/// the route attributes among the first `n`
pub open spec fn route_attrs(s: Seq<Attribute>, st: bool, n: int) -> Seq<Attribute> decreases n {
    if n <= 0 { Seq::empty() } else if is_route(s[n - 1], st) { route_attrs(s, st, n - 1).push(s[n - 1]) } else { route_attrs(s, st, n - 1) } }
pub open spec fn reads_routes(rs: Seq<Route>, s: Seq<Attribute>) -> bool { rs.len() == s.len() && forall|i: int| 0 <= i < rs.len() ==> reads_route(#[trigger] rs[i], s[i]) }
/// the placeholders of a route attribute
pub open spec fn phs(a: Attribute) -> Seq<Seq<char>> { names_of_path(route_args(list_of(a))) }

pub open spec fn is_word(a: Attribute, w: Seq<char>) -> bool { ours(a) && (meta_of(a) matches Some(Meta::Word(i)) && i@ == w) }
pub open spec fn kind_of(a: Attribute) -> Option<FieldKind> { if is_word(a, "body"@) { Some(FieldKind::Body) } else if is_word(a, "query_params"@) { Some(FieldKind::QueryParams) } else if is_word(a, "forward"@) { Some(FieldKind::Forward) } else { None } }
pub open spec fn fattr_ok(a: Attribute) -> bool { ours(a) ==> meta_of(a) is Some && (kind_of(a) is Some || !known_word(aname(a))) }
pub open spec fn fname(f: Field) -> Seq<char> { f.ident->Some_0@ }
/// the roles of a field, by its name and its first `j` attributes
pub open spec fn kinds(f: Field, ph: Seq<Seq<char>>, j: int) -> Seq<FieldKind> decreases j {
    if j <= 0 { if f.ident is Some && ph.contains(fname(f)) { seq![FieldKind::PathSegment] } else { Seq::empty() } }
    else { kinds(f, ph, j - 1) + opt_seq(kind_of(f.attrs@[j - 1])) } }
pub open spec fn all_kinds(f: Field, ph: Seq<Seq<char>>) -> Seq<FieldKind> { kinds(f, ph, f.attrs@.len() as int) }
/// every field has one role; what nothing else is said about is a guard
pub open spec fn role(f: Field, ph: Seq<Seq<char>>) -> FieldKind { if all_kinds(f, ph).len() > 0 { all_kinds(f, ph)[0] } else { FieldKind::Guard } }
pub open spec fn field_ok(f: Field, ph: Seq<Seq<char>>) -> bool { f.ident is Some && all_kinds(f, ph).len() <= 1 && forall|j: int| 0 <= j < f.attrs@.len() ==> fattr_ok(#[trigger] f.attrs@[j]) }
/// the fields with a role, in order
pub open spec fn having(fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind, n: int) -> Seq<Field> decreases n {
    if n <= 0 { Seq::empty() } else if role(fs[n - 1], ph) == k { having(fs, ph, k, n - 1).push(fs[n - 1]) } else { having(fs, ph, k, n - 1) } }
pub open spec fn with_role(fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind) -> Seq<Field> { having(fs, ph, k, fs.len() as int) }
/// what Rust guarantees of a declaration's fields
pub open spec fn fields_ok(fs: Seq<Field>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < fs.len() && 0 <= j < fs.len() ==> (#[trigger] fs[i]).ident is Some == (#[trigger] fs[j]).ident is Some
    &&& forall|i: int, j: int| 0 <= i < j < fs.len() && fs[i].ident is Some ==> fname(#[trigger] fs[i]) != fname(#[trigger] fs[j])
}
pub open spec fn placeholders_of(ras: Seq<Attribute>) -> Seq<Seq<char>> { if ras.len() > 0 { phs(ras[0]) } else { Seq::empty() } }
pub open spec fn has_field(fs: Seq<Field>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).ident is Some && fname(fs[i]) == n }
/// the declaration of a variant (or struct) says what to do with its fields
#[verifier::opaque]
pub open spec fn variant_ok(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool) -> bool {
    let ras = route_attrs(attrs, st, attrs.len() as int); let ph = placeholders_of(ras);
    &&& forall|i: int| 0 <= i < attrs.len() ==> vattr_ok(#[trigger] attrs[i], st)
    // all its routes have the same placeholders
    &&& forall|i: int| 0 <= i < ras.len() ==> phs(#[trigger] ras[i]) == ph
    // they are fields
    &&& forall|i: int| 0 <= i < ph.len() ==> has_field(fs, #[trigger] ph[i])
    &&& forall|i: int| 0 <= i < fs.len() ==> field_ok(#[trigger] fs[i], ph)
    &&& with_role(fs, ph, FieldKind::Body).len() + with_role(fs, ph, FieldKind::Forward).len() <= 1
    &&& with_role(fs, ph, FieldKind::QueryParams).len() <= 1
    &&& ras.len() == 0 ==> with_role(fs, ph, FieldKind::Body).len() == 0 && with_role(fs, ph, FieldKind::QueryParams).len() == 0
}
impl VariantData {
    /// what `parse` makes of a declaration
    #[verifier::opaque]
    pub open spec fn means(&self, attrs: Seq<Attribute>, fs: Seq<Field>, st: bool) -> bool {
        let ras = route_attrs(attrs, st, attrs.len() as int); let ph = placeholders_of(ras);
        &&& reads_routes(self.routes@, ras)
        &&& opt_seq(self.body_field) == with_role(fs, ph, FieldKind::Body)
        &&& opt_seq(self.query_params_field) == with_role(fs, ph, FieldKind::QueryParams)
        &&& opt_seq(self.forward_field) == with_role(fs, ph, FieldKind::Forward)
        &&& self.guard_fields@ == with_role(fs, ph, FieldKind::Guard)
        &&& self.path_segment_fields@ == with_role(fs, ph, FieldKind::PathSegment)
    }
    /// all its fields have names
    pub open spec fn named(&self) -> bool {
        &&& self.body_field matches Some(f) ==> f.ident is Some
        &&& self.query_params_field matches Some(f) ==> f.ident is Some
        &&& self.forward_field matches Some(f) ==> f.ident is Some
    }
}
pub proof fn lemma_kinds(f: Field, ph: Seq<Seq<char>>, j: int, n: int)
    requires 0 <= j <= n
    ensures kinds(f, ph, j).len() <= kinds(f, ph, n).len(), forall|x: int| 0 <= x < kinds(f, ph, j).len() ==> #[trigger] kinds(f, ph, n)[x] == kinds(f, ph, j)[x]
    decreases n
{ if j < n { lemma_kinds(f, ph, j, n - 1); } }
pub proof fn lemma_having(fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind, i: int, n: int)
    requires 0 <= i <= n
    ensures having(fs, ph, k, i).len() <= having(fs, ph, k, n).len()
    decreases n
{ if i < n { lemma_having(fs, ph, k, i, n - 1); } }
pub proof fn lemma_route_attrs(s: Seq<Attribute>, st: bool, i: int, n: int)
    requires 0 <= i <= n
    ensures route_attrs(s, st, i).len() <= route_attrs(s, st, n).len(), forall|x: int| 0 <= x < route_attrs(s, st, i).len() ==> #[trigger] route_attrs(s, st, n)[x] == route_attrs(s, st, i)[x]
    decreases n
{ if i < n { lemma_route_attrs(s, st, i, n - 1); } }
/// fields, as their names are
pub open spec fn idents(fs: Seq<Field>) -> Seq<Ident> { fs.map_values(|f: Field| f.ident->Some_0) }
pub proof fn lemma_having_in(fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind, n: int, x: int)
    requires 0 <= n <= fs.len(), 0 <= x < having(fs, ph, k, n).len()
    ensures fs.contains(having(fs, ph, k, n)[x])
    decreases n
{ if n > 0 { if role(fs[n - 1], ph) == k && x == having(fs, ph, k, n).len() - 1 { assert(having(fs, ph, k, n)[x] == fs[n - 1]); } else { lemma_having_in(fs, ph, k, n - 1, x); } } }
pub open spec fn found(o: Option<&Field>, fs: Seq<Field>, n: Seq<char>, i: int) -> bool {
    match o { None => forall|j: int| 0 <= j < i ==> fname(#[trigger] fs[j]) != n, Some(f) => exists|j: int| 0 <= j < i && fname(#[trigger] fs[j]) == n && *f == fs[j] }
}
/// names of fields lead back to them
pub proof fn lemma_found(fs: Seq<Field>, f: Field, o: Option<&Field>)
    requires fields_ok(fs), fs.contains(f), f.ident is Some, found(o, fs, fname(f), fs.len() as int)
    ensures o matches Some(g) && *g == f
{
    let x = choose|x: int| 0 <= x < fs.len() && fs[x] == f;
    assert(fname(fs[x]) == fname(f));
    if let Some(g) = o { let j = choose|j: int| 0 <= j < fs.len() && fname(#[trigger] fs[j]) == fname(f) && *g == fs[j]; if j < x { assert(fs[j].ident is Some == fs[x].ident is Some); } if x < j { assert(fname(fs[x]) != fname(fs[j])); } }
}
pub open spec fn ph_of(attrs: Seq<Attribute>, st: bool) -> Seq<Seq<char>> { placeholders_of(route_attrs(attrs, st, attrs.len() as int)) }
pub proof fn bad_attr(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool, i: int)
    requires 0 <= i < attrs.len(), !vattr_ok(attrs[i], st) ensures !variant_ok(attrs, fs, st) { reveal(variant_ok); }
pub proof fn bad_phs(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool, i: int)
    requires 0 <= i < route_attrs(attrs, st, attrs.len() as int).len(), phs(route_attrs(attrs, st, attrs.len() as int)[i]) != ph_of(attrs, st) ensures !variant_ok(attrs, fs, st) { reveal(variant_ok); }
pub proof fn bad_ph(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool, i: int)
    requires 0 <= i < ph_of(attrs, st).len(), !has_field(fs, ph_of(attrs, st)[i]) ensures !variant_ok(attrs, fs, st) { reveal(variant_ok); }
pub proof fn bad_field(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool, i: int)
    requires 0 <= i < fs.len() ensures !field_ok(fs[i], ph_of(attrs, st)) ==> !variant_ok(attrs, fs, st) { reveal(variant_ok); }
pub open spec fn counts_ok(fs: Seq<Field>, ph: Seq<Seq<char>>, routes: bool) -> bool {
    &&& with_role(fs, ph, FieldKind::Body).len() + with_role(fs, ph, FieldKind::Forward).len() <= 1
    &&& with_role(fs, ph, FieldKind::QueryParams).len() <= 1
    &&& !routes ==> with_role(fs, ph, FieldKind::Body).len() == 0 && with_role(fs, ph, FieldKind::QueryParams).len() == 0
}
pub proof fn bad_counts(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool)
    ensures !counts_ok(fs, ph_of(attrs, st), route_attrs(attrs, st, attrs.len() as int).len() > 0) ==> !variant_ok(attrs, fs, st) { reveal(variant_ok); }
pub proof fn good_variant(attrs: Seq<Attribute>, fs: Seq<Field>, st: bool)
    requires
        forall|i: int| 0 <= i < attrs.len() ==> vattr_ok(#[trigger] attrs[i], st),
        ({ let ras = route_attrs(attrs, st, attrs.len() as int); forall|i: int| 0 <= i < ras.len() ==> phs(#[trigger] ras[i]) == ph_of(attrs, st) }),
        ({ let ph = ph_of(attrs, st); forall|i: int| 0 <= i < ph.len() ==> has_field(fs, #[trigger] ph[i]) }),
        forall|i: int| 0 <= i < fs.len() ==> field_ok(#[trigger] fs[i], ph_of(attrs, st)),
        counts_ok(fs, ph_of(attrs, st), route_attrs(attrs, st, attrs.len() as int).len() > 0),
    ensures variant_ok(attrs, fs, st) { reveal(variant_ok); }
/// what the fields of `VariantData` hold, and what they are found by
pub open spec fn holding(o: Option<Ident>, fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind, n: int, f: Field, more: bool) -> bool {
    opt_seq(o) == idents(having(fs, ph, k, n)) + if more { seq![f.ident->Some_0] } else { Seq::empty() } }
pub proof fn lemma_grow(fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind, v: int)
    requires 0 <= v
    ensures idents(having(fs, ph, k, v + 1)) == idents(having(fs, ph, k, v)) + if role(fs[v], ph) == k { seq![fs[v].ident->Some_0] } else { Seq::empty() }
{ assert(idents(having(fs, ph, k, v + 1)) =~= idents(having(fs, ph, k, v)) + if role(fs[v], ph) == k { seq![fs[v].ident->Some_0] } else { Seq::empty() }); }
/// the field that is found for a name that was put aside
pub open spec fn stands(fs: Seq<Field>, target: Field, i: Ident) -> bool { fs.contains(target) && target.ident is Some && fname(target) == i@ }
pub proof fn lemma_target(fs: Seq<Field>, ph: Seq<Seq<char>>, k: FieldKind, x: int, i: Ident)
    requires 0 <= x < with_role(fs, ph, k).len(), idents(with_role(fs, ph, k))[x] == i, all_named(fs)
    ensures stands(fs, with_role(fs, ph, k)[x], i)
{ lemma_having_in(fs, ph, k, fs.len() as int, x); }
pub open spec fn all_named(fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).ident is Some }
/// another field has the role
pub proof fn lemma_second(fs: Seq<Field>, ph: Seq<Seq<char>>, v: int, k: FieldKind, j: int)
    requires 0 <= v < fs.len(), 0 <= j <= fs[v].attrs@.len(), kinds(fs[v], ph, j).len() > 0, kinds(fs[v], ph, j).last() == k, having(fs, ph, k, v).len() > 0
    ensures field_ok(fs[v], ph) ==> with_role(fs, ph, k).len() > 1
{
    lemma_kinds(fs[v], ph, j, fs[v].attrs@.len() as int);
    if field_ok(fs[v], ph) { assert(role(fs[v], ph) == k); assert(having(fs, ph, k, v + 1).len() > 1); lemma_having(fs, ph, k, v + 1, fs.len() as int); }
}
}
@struct VariantData Route ItemData PathMap FieldKind PathInfo
@prelude
verus! {
/// `#[context]` on the item
pub open spec fn is_context(a: Attribute) -> bool { ours(a) && aname(a) == "context"@ }
pub open spec fn iattr_ok(a: Attribute, st: bool) -> bool { ours(a) ==> if aname(a) == "context"@ { syn::type_of(a.tts) is Some } else { st || !known_word(aname(a)) } }
pub open spec fn contexts(s: Seq<Attribute>, n: int) -> Seq<syn::Type> decreases n { if n <= 0 { Seq::empty() } else if is_context(s[n - 1]) { contexts(s, n - 1).push(syn::type_of(s[n - 1].tts)->Some_0) } else { contexts(s, n - 1) } }
pub open spec fn item_ok(s: Seq<Attribute>, st: bool) -> bool { (forall|i: int| 0 <= i < s.len() ==> iattr_ok(#[trigger] s[i], st)) && contexts(s, s.len() as int).len() <= 1 }
pub proof fn lemma_contexts(s: Seq<Attribute>, i: int, n: int) requires 0 <= i <= n ensures contexts(s, i).len() <= contexts(s, n).len() decreases n { if i < n { lemma_contexts(s, i, n - 1); } }
pub open spec fn uses(s: Seq<Field>, k: FieldKind) -> Seq<(Field, FieldKind)> { s.map_values(|f: Field| (f, k)) }
pub open spec fn deref_uses(s: Seq<(&Field, FieldKind)>) -> Seq<(Field, FieldKind)> { s.map_values(|x: (&Field, FieldKind)| (*x.0, x.1)) }
impl VariantData {
    pub open spec fn all_uses(&self) -> Seq<(Field, FieldKind)> {
        uses(self.guard_fields@, FieldKind::Guard) + uses(self.path_segment_fields@, FieldKind::PathSegment) + uses(opt_seq(self.body_field), FieldKind::Body)
            + uses(opt_seq(self.query_params_field), FieldKind::QueryParams) + uses(opt_seq(self.forward_field), FieldKind::Forward) }
}
pub open spec fn names_it(r: Option<&Ident>, f: Option<Field>) -> bool { match f { None => r is None, Some(f) => f.ident matches Some(i) && r == Some(&i) } }
}
@fn our_attrs
@props
C16
@collect
@returns
Vec<&'static str>
@spec
    ensures r@ == seq!["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch", "context", "body", "forward", "query_params"], // C16 the attributes of the derive macro
@loop 0 inv
    __g0.map_values(|x: &&'static str| *x) =~= seq!["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"],
    __o0@ =~= __g0.take(__i0).map_values(|x: &&'static str| *x),
@loop 1 inv
    __g1.map_values(|x: &&'static str| *x) =~= seq!["context", "body", "forward", "query_params"],
    __o0@ =~= seq!["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"] + __g1.take(__i1).map_values(|x: &&'static str| *x),
@fn known_attr
@props
C16
@spec
    ensures r == known_word(name@), // C16 which attributes are the macro's
@loop 0 inv
    __g0 =~= seq!["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch", "context", "body", "forward", "query_params"],
    __o0 is None ==> forall|i: int| 0 <= i < __i0 ==> name@ != (#[trigger] __g0[i])@,
    __o0 is Some ==> exists|i: int| 0 <= i < __i0 && name@ == (#[trigger] __g0[i])@,
@loop 0 after
proof { if __o0 is None { assert(__g0[0]@ != name@ && __g0[1]@ != name@ && __g0[2]@ != name@ && __g0[3]@ != name@ && __g0[4]@ != name@ && __g0[5]@ != name@ && __g0[6]@ != name@ && __g0[7]@ != name@ && __g0[8]@ != name@ && __g0[9]@ != name@ && __g0[10]@ != name@ && __g0[11]@ != name@ && __g0[12]@ != name@); } }
@fn is_method
@props
C03 C16
@spec
    ensures r == method_word(lower(name@)), // C03 C16 which attributes are routes
@loop 0 inv
    __g0.map_values(|x: &&'static str| *x) =~= seq!["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"],
    __o0 is None ==> forall|i: int| 0 <= i < __i0 ==> name@ != (#[trigger] __g0[i])@,
    __o0 is Some ==> exists|i: int| 0 <= i < __i0 && name@ == (#[trigger] __g0[i])@,
@loop 0 after
let ghost __w = __g0.map_values(|x: &&'static str| *x);
proof { assert forall|i: int| 0 <= i < __w.len() implies #[trigger] __w[i] == *__g0[i] by {}
    if __o0 is None { assert(__w[0]@ != name@ && __w[1]@ != name@ && __w[2]@ != name@ && __w[3]@ != name@ && __w[4]@ != name@ && __w[5]@ != name@ && __w[6]@ != name@ && __w[7]@ != name@ && __w[8]@ != name@); } }
@fn our_attr_name
@props
C16
@spec
    ensures r is Some == ours(*attr), r matches Some(n) ==> n@ == aname(*attr), // C16 which attributes are the macro's
@fn insert
@props
C16
@spec
    ensures *old(slot) is None, *final(slot) == Some(value), // C16 given once
@reject
*old(slot) is Some
@fn Route::parse
@props
C01 C03 C16
@spec
    requires method_word(lower(method@))
    ensures route_args_ok(derefs(args@)), r.method@ == method_const(lower(method@)), r.path.reads(route_args(derefs(args@))), // C01 C03 C16 the route an attribute declares
@reject
!route_args_ok(derefs(args@))
@fn Route::placeholders
@props
C05
@spec
    ensures r@ == self.path.placeholders@, // C05 the placeholders in the order of the captures
@clone VariantData Route RoutePath PathSegment
@fn VariantData::parse
@props
C05 C06 C07 C16
@attrs
#[verifier::rlimit(150)]
@spec
    requires fields_ok(ast.fields.f@)
    ensures variant_ok(ast.attrs@, ast.fields.f@, is_struct), // C16 contradictory declarations are rejected
        r.means(ast.attrs@, ast.fields.f@, is_struct), // C05 C06 C07 C08 what each field is decoded from
        r.name == *ast.ident, r.named(),
@reject
!ok
@unwrap
!ok
@unwrap 3
false
@unwrap 4
false
@unwrap 5
false
@unwrap 6
false
@unwrap 7
false
@unwrap 8
false
@unwrap 9
false
@unwrap 10
false
@unwrap 11
false
@unwrap 12
false
@entry
let ghost attrs = ast.attrs@; let ghost fs = ast.fields.f@; let ghost ok = variant_ok(attrs, fs, is_struct);
let ghost ras = route_attrs(attrs, is_struct, attrs.len() as int); let ghost ph = ph_of(attrs, is_struct);
@loop 0 inv
    attrs == ast.attrs@, fs == ast.fields.f@, ok == variant_ok(attrs, fs, is_struct), ras == route_attrs(attrs, is_struct, attrs.len() as int), ph == ph_of(attrs, is_struct), fields_ok(fs),
    __g0 == refs(attrs), reads_routes(routes@, route_attrs(attrs, is_struct, __i0)),
    forall|i: int| 0 <= i < __i0 ==> vattr_ok(#[trigger] attrs[i], is_struct),
@loop 0 start
let ghost i0 = __i0 - 1; let ghost rs0 = routes@;
proof { assert(*__x0 == attrs[i0]); if !vattr_ok(attrs[i0], is_struct) { bad_attr(attrs, fs, is_struct, i0); } reveal_strlit("context"); }
@call Route::parse 0
proof { assert(list_of(*attr) == list.nested@); assert(is_route(attrs[i0], is_struct)); assert(!route_args_ok(list.nested@) ==> !ok); }
@loop 1 inv
    __g1 == refs(list.nested@), __o1@ =~= __g1.take(__i1),
@loop 1 after
proof { assert(derefs(__o1@) =~= list.nested@); }
@loop 2 before
proof { assert(routes@[0] == *first); }
@loop 2 inv
    attrs == ast.attrs@, fs == ast.fields.f@, ok == variant_ok(attrs, fs, is_struct), ras == route_attrs(attrs, is_struct, attrs.len() as int), ph == ph_of(attrs, is_struct), fields_ok(fs), reads_routes(routes@, ras), routes@.len() > 0, *first == routes@[0],
    __g2 == refs(routes@.skip(1)),
    forall|i: int| 1 <= i < __i2 + 1 && i < ras.len() ==> phs(#[trigger] ras[i]) == ph,
@loop 2 start
proof { assert(*__x2 == routes@[__i2]); assert(reads_route(routes@[__i2], ras[__i2])); assert(reads_route(routes@[0], ras[0])); if phs(ras[__i2]) != ph { bad_phs(attrs, fs, is_struct, __i2); }
    let a = first.path.placeholders@; let b = __x2.path.placeholders@;
    if id_views(a) == id_views(b) { assert(a.len() == b.len()) by { assert(id_views(a).len() == a.len()); } assert forall|i: int| 0 <= i < a.len() implies PartialEqSpec::<Ident>::eq_spec(&#[trigger] a[i], &b[i]) by { assert(id_views(a)[i] == id_views(b)[i]); } } }
@loop 5 before
proof { if routes@.len() > 0 { assert(reads_route(routes@[0], ras[0])); } else { assert(id_views(placeholders@) =~= Seq::<Seq<char>>::empty()); }
    assert(id_views(placeholders@) == ph); assert(forall|i: int| 0 <= i < ras.len() ==> phs(#[trigger] ras[i]) == ph); }
@loop 5 inv
    attrs == ast.attrs@, fs == ast.fields.f@, ok == variant_ok(attrs, fs, is_struct), ras == route_attrs(attrs, is_struct, attrs.len() as int), ph == ph_of(attrs, is_struct), fields_ok(fs), id_views(placeholders@) == ph,
    __g5 == refs(placeholders@), forall|i: int| 0 <= i < __i5 ==> has_field(fs, #[trigger] ph[i]),
@loop 5 start
proof { assert(__x5@ == ph[__i5 - 1]); if !has_field(fs, ph[__i5 - 1]) { bad_ph(attrs, fs, is_struct, __i5 - 1); } }
@loop 6 inv
    fs == ast.fields.f@, __g6 == refs(fs), __o6 is Some ==> has_field(fs, placeholder@),
    __o6 is None ==> forall|i: int| 0 <= i < __i6 && (#[trigger] fs[i]).ident is Some ==> fname(fs[i]) != placeholder@,
@loop 6 start
proof { assert(*__x6 == fs[__i6 - 1]); }
@loop 7 inv
    attrs == ast.attrs@, fs == ast.fields.f@, ok == variant_ok(attrs, fs, is_struct), ras == route_attrs(attrs, is_struct, attrs.len() as int), ph == ph_of(attrs, is_struct), fields_ok(fs), id_views(placeholders@) == ph,
    __g7 == refs(fs), forall|i: int| 0 <= i < __i7 ==> field_ok(#[trigger] fs[i], ph),
    holding(body_field, fs, ph, FieldKind::Body, __i7, fs[0], false),
    holding(query_params_field, fs, ph, FieldKind::QueryParams, __i7, fs[0], false),
    holding(forward_field, fs, ph, FieldKind::Forward, __i7, fs[0], false),
    guard_fields@ == idents(having(fs, ph, FieldKind::Guard, __i7)), path_segment_fields@ == idents(having(fs, ph, FieldKind::PathSegment, __i7)),
@loop 7 before
proof { assert(idents(Seq::<Field>::empty()) =~= Seq::<Ident>::empty()); assert(Seq::<Ident>::empty() + Seq::<Ident>::empty() =~= Seq::<Ident>::empty()); }
@loop 7 start
let ghost v7 = __i7 - 1; let ghost f7 = fs[v7]; let ghost inph = f7.ident is Some && ph.contains(fname(f7));
proof { assert(*__x7 == f7); bad_field(attrs, fs, is_struct, v7); bad_counts(attrs, fs, is_struct); }
@loop 8 before
proof { assert(inph == (field_kind == Some(FieldKind::PathSegment))); assert(opt_seq(field_kind) =~= kinds(f7, ph, 0)); }
@loop 8 inv
    attrs == ast.attrs@, fs == ast.fields.f@, ok == variant_ok(attrs, fs, is_struct), ras == route_attrs(attrs, is_struct, attrs.len() as int), ph == ph_of(attrs, is_struct), fields_ok(fs), id_views(placeholders@) == ph,
    0 <= v7 < fs.len(), f7 == fs[v7], *field == f7, inph == (f7.ident is Some && ph.contains(fname(f7))),
    !field_ok(f7, ph) ==> !ok, !counts_ok(fs, ph, ras.len() > 0) ==> !ok,
    __g8 == refs(f7.attrs@), opt_seq(field_kind) == kinds(f7, ph, __i8), field_kind is Some ==> f7.ident is Some,
    inph == (field_kind == Some(FieldKind::PathSegment)), field_kind != Some(FieldKind::Guard),
    forall|j: int| 0 <= j < __i8 ==> fattr_ok(#[trigger] f7.attrs@[j]),
    holding(body_field, fs, ph, FieldKind::Body, v7, f7, field_kind == Some(FieldKind::Body)),
    holding(query_params_field, fs, ph, FieldKind::QueryParams, v7, f7, field_kind == Some(FieldKind::QueryParams)),
    holding(forward_field, fs, ph, FieldKind::Forward, v7, f7, field_kind == Some(FieldKind::Forward)),
@loop 8 start
let ghost j8 = __i8 - 1; let ghost a8 = f7.attrs@[j8];
proof { assert(*__x8 == a8); assert(kinds(f7, ph, __i8) =~= kinds(f7, ph, j8) + opt_seq(kind_of(a8))); lemma_kinds(f7, ph, __i8, f7.attrs@.len() as int);
    assert(!fattr_ok(a8) ==> !ok);
    reveal_strlit("body"); reveal_strlit("query_params"); reveal_strlit("forward"); assert("body"@.len() == 4); assert("query_params"@.len() == 12); assert("forward"@.len() == 7); }
@call insert 0
proof { assert(kind_of(a8) == Some(FieldKind::Body)); assert(kinds(f7, ph, __i8).last() == FieldKind::Body);
    if body_field is Some { if having(fs, ph, FieldKind::Body, v7).len() > 0 { lemma_second(fs, ph, v7, FieldKind::Body, __i8); } assert(!ok); } }
@call insert 1
proof { if field_kind is Some { assert(kinds(f7, ph, __i8).len() > 1); assert(!ok); } }
@call insert 2
proof { assert(kind_of(a8) == Some(FieldKind::QueryParams)); assert(kinds(f7, ph, __i8).last() == FieldKind::QueryParams);
    if query_params_field is Some { if having(fs, ph, FieldKind::QueryParams, v7).len() > 0 { lemma_second(fs, ph, v7, FieldKind::QueryParams, __i8); } assert(!ok); } }
@call insert 3
proof { if field_kind is Some { assert(kinds(f7, ph, __i8).len() > 1); assert(!ok); } }
@call insert 4
proof { assert(kind_of(a8) == Some(FieldKind::Forward)); assert(kinds(f7, ph, __i8).last() == FieldKind::Forward);
    if forward_field is Some { if having(fs, ph, FieldKind::Forward, v7).len() > 0 { lemma_second(fs, ph, v7, FieldKind::Forward, __i8); } assert(!ok); } }
@call insert 5
proof { if field_kind is Some { assert(kinds(f7, ph, __i8).len() > 1); assert(!ok); } }
@loop 8 after
proof { assert(all_kinds(f7, ph) == opt_seq(field_kind)); assert(role(f7, ph) == if field_kind is Some { field_kind->Some_0 } else { FieldKind::Guard });
    lemma_grow(fs, ph, FieldKind::Body, v7); lemma_grow(fs, ph, FieldKind::QueryParams, v7); lemma_grow(fs, ph, FieldKind::Forward, v7); lemma_grow(fs, ph, FieldKind::Guard, v7); lemma_grow(fs, ph, FieldKind::PathSegment, v7); }
@loop 7 end
proof { assert(Seq::<Ident>::empty() + Seq::<Ident>::empty() =~= Seq::<Ident>::empty()); assert(opt_seq(body_field) + Seq::empty() =~= opt_seq(body_field)); assert(idents(having(fs, ph, FieldKind::Body, v7)) + Seq::empty() =~= idents(having(fs, ph, FieldKind::Body, v7))); assert(idents(having(fs, ph, FieldKind::Body, __i7)) + Seq::empty() =~= idents(having(fs, ph, FieldKind::Body, __i7))); assert(opt_seq(query_params_field) + Seq::empty() =~= opt_seq(query_params_field)); assert(idents(having(fs, ph, FieldKind::QueryParams, v7)) + Seq::empty() =~= idents(having(fs, ph, FieldKind::QueryParams, v7))); assert(idents(having(fs, ph, FieldKind::QueryParams, __i7)) + Seq::empty() =~= idents(having(fs, ph, FieldKind::QueryParams, __i7))); assert(opt_seq(forward_field) + Seq::empty() =~= opt_seq(forward_field)); assert(idents(having(fs, ph, FieldKind::Forward, v7)) + Seq::empty() =~= idents(having(fs, ph, FieldKind::Forward, v7))); assert(idents(having(fs, ph, FieldKind::Forward, __i7)) + Seq::empty() =~= idents(having(fs, ph, FieldKind::Forward, __i7))); }
@loop 7 after
proof { bad_counts(attrs, fs, is_struct); assert(opt_seq(body_field) =~= idents(with_role(fs, ph, FieldKind::Body))); assert(with_role(fs, ph, FieldKind::Body).len() == if body_field is Some { 1nat } else { 0nat }); assert(opt_seq(query_params_field) =~= idents(with_role(fs, ph, FieldKind::QueryParams))); assert(with_role(fs, ph, FieldKind::QueryParams).len() == if query_params_field is Some { 1nat } else { 0nat }); assert(opt_seq(forward_field) =~= idents(with_role(fs, ph, FieldKind::Forward))); assert(with_role(fs, ph, FieldKind::Forward).len() == if forward_field is Some { 1nat } else { 0nat }); }
@tail
proof { good_variant(attrs, fs, is_struct); assert(all_named(fs)) by { assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).ident is Some by { assert(field_ok(fs[i], ph)); } } }
let ghost guards0 = guard_fields@; let ghost paths0 = path_segment_fields@;
@loop 9 before
let ghost target9 = with_role(fs, ph, FieldKind::Body)[0];
proof { lemma_target(fs, ph, FieldKind::Body, 0, ident); }
@loop 9 inv
    fs == ast.fields.f@, all_named(fs), __g9 == refs(fs), found(__o9, fs, ident@, __i9),
@loop 9 start
proof { assert(*__x9 == fs[__i9 - 1]); assert(fs[__i9 - 1].ident is Some); }
@loop 9 after
proof { lemma_found(fs, target9, __o9); }
@loop 10 before
let ghost target10 = with_role(fs, ph, FieldKind::Forward)[0];
proof { lemma_target(fs, ph, FieldKind::Forward, 0, ident); }
@loop 10 inv
    fs == ast.fields.f@, all_named(fs), __g10 == refs(fs), found(__o10, fs, ident@, __i10),
@loop 10 start
proof { assert(*__x10 == fs[__i10 - 1]); assert(fs[__i10 - 1].ident is Some); }
@loop 10 after
proof { lemma_found(fs, target10, __o10); }
@loop 11 before
let ghost target11 = with_role(fs, ph, FieldKind::QueryParams)[0];
proof { lemma_target(fs, ph, FieldKind::QueryParams, 0, ident); }
@loop 11 inv
    fs == ast.fields.f@, all_named(fs), __g11 == refs(fs), found(__o11, fs, ident@, __i11),
@loop 11 start
proof { assert(*__x11 == fs[__i11 - 1]); assert(fs[__i11 - 1].ident is Some); }
@loop 11 after
proof { lemma_found(fs, target11, __o11); }
@loop 12 inv
    fs == ast.fields.f@, all_named(fs), fields_ok(fs), guards0 == idents(with_role(fs, ph, FieldKind::Guard)),
    __g12 == guards0, __o12@ =~= with_role(fs, ph, FieldKind::Guard).take(__i12),
@loop 13 before
let ghost target13 = with_role(fs, ph, FieldKind::Guard)[__i12 - 1];
proof { lemma_target(fs, ph, FieldKind::Guard, __i12 - 1, ident); }
@loop 13 inv
    fs == ast.fields.f@, all_named(fs), __g13 == refs(fs), found(__o13, fs, ident@, __i13),
@loop 13 start
proof { assert(*__x13 == fs[__i13 - 1]); assert(fs[__i13 - 1].ident is Some); }
@loop 13 after
proof { lemma_found(fs, target13, __o13); }
@loop 14 inv
    fs == ast.fields.f@, all_named(fs), fields_ok(fs), paths0 == idents(with_role(fs, ph, FieldKind::PathSegment)),
    __g14 == paths0, __o14@ =~= with_role(fs, ph, FieldKind::PathSegment).take(__i14),
@loop 15 before
let ghost target15 = with_role(fs, ph, FieldKind::PathSegment)[__i14 - 1];
proof { lemma_target(fs, ph, FieldKind::PathSegment, __i14 - 1, ident); }
@loop 15 inv
    fs == ast.fields.f@, all_named(fs), __g15 == refs(fs), found(__o15, fs, ident@, __i15),
@loop 15 start
proof { assert(*__x15 == fs[__i15 - 1]); assert(fs[__i15 - 1].ident is Some); }
@loop 15 after
proof { lemma_found(fs, target15, __o15); }
@result
proof { assert(opt_seq(result.body_field) =~= with_role(fs, ph, FieldKind::Body)); assert(opt_seq(result.query_params_field) =~= with_role(fs, ph, FieldKind::QueryParams)); assert(opt_seq(result.forward_field) =~= with_role(fs, ph, FieldKind::Forward));
    assert(result.guard_fields@ =~= with_role(fs, ph, FieldKind::Guard)); assert(result.path_segment_fields@ =~= with_role(fs, ph, FieldKind::PathSegment)); reveal(VariantData::means); }
@fn ItemData::parse
@props
C04 C16
@spec
    ensures item_ok(attrs@, is_struct), // C16 what may be put on the item
        opt_seq(r.context) == contexts(attrs@, attrs@.len() as int), r.name == name, // C04 the context that is asked for
@reject
!item_ok(attrs@, is_struct)
@unwrap
!item_ok(attrs@, is_struct)
@entry
let ghost ok = item_ok(attrs@, is_struct); let ghost name0 = name;
@loop 0 inv
    ok == item_ok(attrs@, is_struct), __g0 == refs(attrs@), opt_seq(context) == contexts(attrs@, __i0), name == name0,
    forall|i: int| 0 <= i < __i0 ==> iattr_ok(#[trigger] attrs@[i], is_struct),
@loop 0 start
let ghost i0 = __i0 - 1; let ghost c0 = context;
proof { assert(*__x0 == attrs@[i0]); lemma_contexts(attrs@, __i0, attrs@.len() as int); assert(!iattr_ok(attrs@[i0], is_struct) ==> !ok); }
@call insert 0
proof { if context is Some { assert(contexts(attrs@, __i0).len() > 1); assert(!ok); } }
@loop 0 end
proof { assert(opt_seq(context) =~= contexts(attrs@, __i0)); }
@fn ItemData::context
@props
C04
@spec
    ensures match r { None => self.context is None, Some(t) => self.context == Some(*t) }, // C04 the context that is asked for
@fn VariantData::constructible
@props
C01 C16
@spec
    requires self.named()
    ensures r == (self.routes@.len() > 0 || self.forward_field is Some), // C01 C16 which variants requests can lead to
@fn VariantData::routes
@props
C01
@spec
    ensures r@ == self.routes@, // C01 the routes declared
@fn VariantData::variant_name
@props
C01
@spec
    ensures *r == self.name, // C01 the variant declared
@fn VariantData::guard_fields
@props
C06
@spec
    ensures r@ == self.guard_fields@, // C06 the guards, in order
@fn VariantData::body_field
@props
C06 C07
@spec
    requires self.named()
    ensures names_it(r, self.body_field), // C06 C07 C08 the field that holds it
@fn VariantData::forward_field
@props
C06 C07
@spec
    requires self.named()
    ensures names_it(r, self.forward_field), // C06 C07 C08 the field that holds it
@fn VariantData::query_params_field
@props
C06 C07
@spec
    requires self.named()
    ensures names_it(r, self.query_params_field), // C06 C07 C08 the field that holds it
@fn VariantData::field_uses
@props
C05 C06 C07
@collect
@returns
Vec<(&Field, FieldKind)>
@spec
    ensures deref_uses(r@) == self.all_uses(), // C05 C06 C07 C15 what each field is decoded from
@loop 0 inv
    __g0 == refs(self.guard_fields@), deref_uses(__o0@) =~= uses(self.guard_fields@.take(__i0), FieldKind::Guard),
@loop 0 end
proof { let t = self.guard_fields@; assert(*__x0 == t[__i0 - 1]); assert(deref_uses(__o0@).last() == (t[__i0 - 1], FieldKind::Guard)); assert(uses(t.take(__i0), FieldKind::Guard) =~= uses(t.take(__i0 - 1), FieldKind::Guard).push((t[__i0 - 1], FieldKind::Guard))); assert(deref_uses(__o0@) =~= uses(t.take(__i0), FieldKind::Guard)); }
@loop 1 before
let ghost base1 = deref_uses(__o0@);
@loop 1 inv
    __g1 == refs(self.path_segment_fields@), deref_uses(__o0@) =~= base1 + uses(self.path_segment_fields@.take(__i1), FieldKind::PathSegment),
@loop 1 start
let ghost d1 = deref_uses(__o0@);
@loop 1 end
proof { let t = self.path_segment_fields@; assert(*__x1 == t[__i1 - 1]); assert(deref_uses(__o0@) =~= d1.push((t[__i1 - 1], FieldKind::PathSegment))); assert(uses(t.take(__i1), FieldKind::PathSegment) =~= uses(t.take(__i1 - 1), FieldKind::PathSegment).push((t[__i1 - 1], FieldKind::PathSegment))); assert(deref_uses(__o0@) =~= base1 + uses(t.take(__i1), FieldKind::PathSegment)); }
@loop 2 before
let ghost base2 = deref_uses(__o0@); 
@loop 2 inv
    deref_uses(__g2) =~= uses(opt_seq(self.body_field), FieldKind::Body), deref_uses(__o0@) =~= base2 + deref_uses(__g2).take(__i2),
@loop 3 before
let ghost base3 = deref_uses(__o0@);
@loop 3 inv
    deref_uses(__g3) =~= uses(opt_seq(self.query_params_field), FieldKind::QueryParams), deref_uses(__o0@) =~= base3 + deref_uses(__g3).take(__i3),
@loop 4 before
let ghost base4 = deref_uses(__o0@);
@loop 4 inv
    deref_uses(__g4) =~= uses(opt_seq(self.forward_field), FieldKind::Forward), deref_uses(__o0@) =~= base4 + deref_uses(__g4).take(__i4),
@loop 4 after
proof { assert(deref_uses(__o0@) =~= self.all_uses()); }
@fn PathMap::add_route
@props
C01 C02
@spec
    requires route.path.sound()
    ensures
        !hasr(old(self).regex_map, full_re(route.path.pat()), route.method@), // C02 a path and method is declared once
        final(self).fallback == old(self).fallback,
        forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(final(self).regex_map, k, h) == (hasr(old(self).regex_map, k, h) || k == full_re(route.path.pat()) && h == route.method@), // C01 nothing else is added
        forall|k: Seq<char>, h: Seq<char>| hasr(old(self).regex_map, k, h) ==> #[trigger] at_(final(self).regex_map, k, h) == at_(old(self).regex_map, k, h), // C01 earlier routes stay
        at_(final(self).regex_map, full_re(route.path.pat()), route.method@) == (variant, route), // C01 the route leads to its variant
@entry
let ghost m0 = self.regex_map; let ghost e = (variant, route);
@reject
hasr(m0, pkey(e), meth(e))
@fn PathMap::build
@props
C01 C02 C03 C08 C16
@spec
    requires forall|v: int, i: int| 0 <= v < variants@.len() && 0 <= i < variants@[v].routes@.len() ==> (#[trigger] variants@[v].routes@[i]).path.sound()
    ensures
        unambiguous(decls(variants@, variants@.len() as int)), // C02 no request fits two routes
        one_fallback(variants@), // C16 at most one fallback
        is_the_fallback(variants@, variants@.len() as int, r.fallback), // C08 what isn't routed goes there
        heads_of(decls(variants@, variants@.len() as int), r.regex_map), // C01 C03 what is routed
@reject
bad(variants@)
@entry
let ghost vs = variants@; let ghost all = decls(vs, vs.len() as int); let ghost mut d: Seq<Decl> = Seq::empty();
let ghost mut m1: Outer = arbitrary(); let ghost mut f1: Option<VariantData> = arbitrary(); let ghost mut hs: Seq<Decl> = Seq::empty();
proof { lemma_sound(vs, vs.len() as int); reveal_strlit("GET"); reveal_strlit("HEAD"); assert("GET"@ =~= s_get()); assert("HEAD"@ =~= s_head()); }
@loop 0 inv
    vs == variants@, all == decls(vs, vs.len() as int), __g0 == refs(vs), sound(all),
    forall|v: int, i: int| 0 <= v < vs.len() && 0 <= i < vs[v].routes@.len() ==> (#[trigger] vs[v].routes@[i]).path.sound(),
    d == decls(vs, __i0), holds(this.regex_map, d), unambiguous(d), sound(d),
    is_the_fallback(vs, __i0, this.fallback),
    forall|i: int, j: int| 0 <= i < j < __i0 && is_fallback(#[trigger] vs[i]) ==> !is_fallback(#[trigger] vs[j]),
@loop 0 start
let ghost v0 = __i0 - 1;
proof { assert(*__x0 == vs[v0]); lemma_upto(vs, v0, 0); }
@loop 1 inv
    vs == variants@, all == decls(vs, vs.len() as int), sound(all), 0 <= v0 < vs.len(), v0 == __i0 - 1, *variant == vs[v0], __g1 == refs(variant.routes@),
    forall|v: int, i: int| 0 <= v < vs.len() && 0 <= i < vs[v].routes@.len() ==> (#[trigger] vs[v].routes@[i]).path.sound(),
    d == upto(vs, v0, __i1), holds(this.regex_map, d), unambiguous(d), sound(d),
    is_the_fallback(vs, __i0, this.fallback),
    forall|i: int, j: int| 0 <= i < j < __i0 && is_fallback(#[trigger] vs[i]) ==> !is_fallback(#[trigger] vs[j]),
@loop 1 start
let ghost r0 = __i1 - 1; let ghost e = (vs[v0], vs[v0].routes@[r0]); let ghost p = pt(e); let ghost m0 = this.regex_map; let ghost d0 = d; let ghost f0 = this.fallback;
proof { assert(*__x1 == vs[v0].routes@[r0]); lemma_upto(vs, v0, r0); assert(e.1.path.sound()); assert(prefix(d.push(e), all)); m0.ax_keys(); }
@loop 2 inv
    vs == variants@, all == decls(vs, vs.len() as int), *route == e.1, p == pt(e), e.1.path.sound(), this.regex_map == m0, this.fallback == f0, d == d0, prefix(d.push(e), all), sound(d), holds(m0, d),
    __g2.len() == m0.ks().len(), forall|i: int| 0 <= i < __g2.len() ==> *(#[trigger] __g2[i]) == m0.m()[m0.ks()[i]],
    forall|k: Seq<char>| m0.ks().contains(k) <==> #[trigger] m0.m().contains_key(k),
    forall|i: int, h: Seq<char>| 0 <= i < __i2 && (#[trigger] m0.m()[m0.ks()[i]]).m().contains_key(h) ==> seen(#[trigger] m0.m()[m0.ks()[i]].m()[h], p),
@loop 2 start
let ghost k2 = m0.ks()[__i2 - 1]; let ghost i2 = __i2 - 1;
proof { assert(m0.ks().contains(k2)); assert(*__x2 == m0.m()[k2]); __x2.ax_keys(); }
@loop 3 inv
    vs == variants@, all == decls(vs, vs.len() as int), *route == e.1, p == pt(e), e.1.path.sound(), this.regex_map == m0, prefix(d.push(e), all), sound(d), holds(m0, d), *m == m0.m()[k2], m0.m().contains_key(k2),
    __g3.len() == m.ks().len(), forall|i: int| 0 <= i < __g3.len() ==> *(#[trigger] __g3[i]) == m.m()[m.ks()[i]],
    forall|k: Seq<char>| m.ks().contains(k) <==> #[trigger] m.m().contains_key(k),
    forall|j: int| 0 <= j < __i3 ==> seen(m.m()[#[trigger] m.ks()[j]], p),
@loop 3 start
let ghost h3 = m.ks()[__i3 - 1];
proof { assert(m.ks().contains(h3)); assert(*__x3 == m.m()[h3]); assert(hasr(m0, k2, h3)); assert(exists|x: int| 0 <= x < d.len() && pkey(#[trigger] d[x]) == k2 && meth(d[x]) == h3); }
let ghost x3 = choose|x: int| 0 <= x < d.len() && pkey(#[trigger] d[x]) == k2 && meth(d[x]) == h3;
proof { assert(d[x3] == *__x3); assert(d[x3].1.path.sound()); assert(pt(d[x3]) == __x3.1.path.pat()); }
@reject 1 proof
proof { assert(both(pt(d[x3]), p, overlap@)); assert(!apart(d[x3], e)); lemma_ambiguous(d, x3, e, all); }
@call add_route 0
proof {
    assert forall|k: Seq<char>, h: Seq<char>| #[trigger] hasr(m0, k, h) implies seen(at_(m0, k, h), p) by { assert(m0.ks().contains(k)); let i = choose|i: int| 0 <= i < m0.ks().len() && m0.ks()[i] == k; assert(m0.m()[m0.ks()[i]].m().contains_key(h)); }
    // rejected there only if ambiguous
    if hasr(m0, pkey(e), meth(e)) {
        let x = choose|x: int| 0 <= x < d.len() && pkey(#[trigger] d[x]) == pkey(e) && meth(d[x]) == meth(e);
        lemma_key(d[x], e); lemma_ambiguous(d, x, e, all);
    }
    assert(hasr(this.regex_map, full_re(__p1.path.pat()), __p1.method@) ==> !unambiguous(all));
}
@loop 1 end
proof { lemma_added(m0, this.regex_map, d, e); d = d.push(e); lemma_upto(vs, v0, __i1); }
@loop 0 after
proof { assert(d == all); assert(ident_text(s_head())); }
proof { m1 = this.regex_map; f1 = this.fallback; }
@loop 4 before
proof { m1.ax_keys(); }
@loop 4 inv
    sound(all), this.regex_map == m1, this.fallback == f1, holds(m1, all), unambiguous(all), "HEAD"@ == s_head(), "GET"@ == s_get(), ident_text(s_head()),
    distinct(m1.ks()), forall|k: Seq<char>| m1.ks().contains(k) <==> #[trigger] m1.m().contains_key(k),
    __g4.len() == m1.ks().len(), forall|i: int| 0 <= i < __g4.len() ==> *(#[trigger] __g4[i]) == m1.m()[m1.ks()[i]],
    heads_ok(all, implied_head_routes@), heads_keys(m1, implied_head_routes@, __i4),
    forall|i: int| 0 <= i < __i4 && #[trigger] hasr(m1, m1.ks()[i], s_get()) && implied(all, at_(m1, m1.ks()[i], s_get())) ==> has_head(implied_head_routes@, at_(m1, m1.ks()[i], s_get())),
@loop 4 start
let ghost i4 = __i4 - 1; let ghost k4 = m1.ks()[__i4 - 1];
proof { assert(m1.ks().contains(k4)); assert(*__x4 == m1.m()[k4]); __x4.ax_keys(); }
@loop 5 inv
    sound(all), this.regex_map == m1, this.fallback == f1, holds(m1, all), unambiguous(all), "HEAD"@ == s_head(), "GET"@ == s_get(), ident_text(s_head()),
    distinct(m1.ks()), forall|k: Seq<char>| m1.ks().contains(k) <==> #[trigger] m1.m().contains_key(k),
    *route_map == m1.m()[k4], m1.m().contains_key(k4), 0 <= i4 < m1.ks().len(), k4 == m1.ks()[i4],
    distinct(route_map.ks()), forall|k: Seq<char>| route_map.ks().contains(k) <==> #[trigger] route_map.m().contains_key(k),
    __g5.len() == route_map.ks().len(), forall|i: int| 0 <= i < __g5.len() ==> (#[trigger] __g5[i]).0@ == route_map.ks()[i] && *__g5[i].1 == route_map.m()[route_map.ks()[i]],
    heads_ok(all, implied_head_routes@), heads_keys(m1, implied_head_routes@, i4 + 1),
    (forall|j: int| 0 <= j < __i5 ==> #[trigger] route_map.ks()[j] != s_get()) ==> heads_keys(m1, implied_head_routes@, i4),
    forall|i: int| 0 <= i < i4 && #[trigger] hasr(m1, m1.ks()[i], s_get()) && implied(all, at_(m1, m1.ks()[i], s_get())) ==> has_head(implied_head_routes@, at_(m1, m1.ks()[i], s_get())),
    forall|j: int| 0 <= j < __i5 && #[trigger] route_map.ks()[j] == s_get() && implied(all, at_(m1, k4, s_get())) ==> has_head(implied_head_routes@, at_(m1, k4, s_get())),
@loop 5 start
let ghost h5 = route_map.ks()[__i5 - 1]; let ghost hs0 = implied_head_routes@;
proof { assert(route_map.ks().contains(h5)); assert(hasr(m1, k4, h5)); assert(__x5.0@ == h5); assert(*__x5.1 == at_(m1, k4, h5)); }
let ghost g5 = choose|x: int| 0 <= x < all.len() && pkey(#[trigger] all[x]) == k4 && meth(all[x]) == h5;
let ghost e5 = all[g5];
proof { assert(*__x5.1 == e5); assert(e5.1.path.sound()); }
@loop 6 inv
    sound(all), this.regex_map == m1, holds(m1, all), "HEAD"@ == s_head(), new_route.path == e5.1.path, e5.1.path.sound(), 
    forall|k: Seq<char>| m1.ks().contains(k) <==> #[trigger] m1.m().contains_key(k),
    __g6.len() == m1.ks().len(), forall|i: int| 0 <= i < __g6.len() ==> *(#[trigger] __g6[i]) == m1.m()[m1.ks()[i]],
    __o6 ==> exists|x: int| 0 <= x < all.len() && meth(#[trigger] all[x]) == s_head() && !none_both(pt(all[x]), pt(e5)),
    !__o6 ==> forall|i: int| 0 <= i < __i6 && #[trigger] hasr(m1, m1.ks()[i], s_head()) ==> none_both(pt(at_(m1, m1.ks()[i], s_head())), pt(e5)),
@loop 6 start
let ghost i6 = __i6 - 1; let ghost k6 = m1.ks()[__i6 - 1];
proof { assert(m1.ks().contains(k6)); assert(*__x6 == m1.m()[k6]); __x6.ax_keys(); }
@loop 7 inv
    sound(all), this.regex_map == m1, holds(m1, all), "HEAD"@ == s_head(), new_route.path == e5.1.path, e5.1.path.sound(), 
    *map == m1.m()[k6], m1.m().contains_key(k6), 0 <= i6 < m1.ks().len(), k6 == m1.ks()[i6],
    forall|k: Seq<char>| map.ks().contains(k) <==> #[trigger] map.m().contains_key(k),
    __g7.len() == map.ks().len(), forall|i: int| 0 <= i < __g7.len() ==> (#[trigger] __g7[i]).0@ == map.ks()[i] && *__g7[i].1 == map.m()[map.ks()[i]],
    __o6 ==> exists|x: int| 0 <= x < all.len() && meth(#[trigger] all[x]) == s_head() && !none_both(pt(all[x]), pt(e5)),
    !__o6 ==> forall|i: int| 0 <= i < i6 && #[trigger] hasr(m1, m1.ks()[i], s_head()) ==> none_both(pt(at_(m1, m1.ks()[i], s_head())), pt(e5)),
    !__o6 ==> forall|j: int| 0 <= j < __i7 && #[trigger] map.ks()[j] == s_head() ==> none_both(pt(at_(m1, k6, s_head())), pt(e5)),
@loop 7 start
let ghost h7 = map.ks()[__i7 - 1];
proof { assert(map.ks().contains(h7)); assert(hasr(m1, k6, h7)); assert(__x7.0@ == h7); assert(*__x7.1 == at_(m1, k6, h7)); }
let ghost g7 = choose|x: int| 0 <= x < all.len() && pkey(#[trigger] all[x]) == k6 && meth(all[x]) == h7;
proof { assert(*__x7.1 == all[g7]); assert(all[g7].1.path.sound());
    assert forall|p: Seq<char>| both(pt(all[g7]), pt(e5), p) implies !none_both(pt(all[g7]), pt(e5)) by {} }
@loop 7 after
proof { if hasr(m1, k6, s_head()) { let j = choose|j: int| 0 <= j < map.ks().len() && map.ks()[j] == s_head(); assert(map.ks().contains(s_head())); } }
@loop 6 after
proof { lemma_implied(m1, all, e5); }
@loop 5 end
proof { if h5 == s_get() {
    if implied(all, e5) {
        let e = implied_head_routes@.last();
        assert(implied_head_routes@ == hs0.push(e)); assert(head_of(e5, e));
        lemma_heads_push(m1, all, hs0, i4, g5, e);
    } else { assert(implied_head_routes@ == hs0); } } else { assert(implied_head_routes@ == hs0); } }
@loop 5 after
proof { if hasr(m1, k4, s_get()) { assert(route_map.ks().contains(s_get())); let j = choose|j: int| 0 <= j < route_map.ks().len() && route_map.ks()[j] == s_get(); } }
@loop 4 after
proof { lemma_all_heads(m1, all, implied_head_routes@); hs = implied_head_routes@; }
@loop 8 inv
    sound(all), holds(m1, all), unambiguous(all), __g8 == hs, heads_ok(all, hs), heads_keys(m1, hs, m1.ks().len() as int), this.fallback == f1,
    with_heads(m1, hs, __i8, this.regex_map),
@loop 8 start
let ghost m8 = this.regex_map; let ghost i8 = __i8 - 1; 
proof { assert(__x8 == hs[i8]); lemma_fresh(m1, all, hs, i8, m8); }
@call add_route 1
proof { assert(!hasr(this.regex_map, full_re(__p1.path.pat()), __p1.method@)); }
@loop 8 end
proof { lemma_with_head(m1, hs, i8, m8, this.regex_map); }
@loop 8 after
proof { lemma_final(m1, all, hs, this.regex_map); }
@fn PathMap::paths
@props
C01 C03
@collect
@returns
Vec<PathInfo<'_>>
@spec
    ensures r@.len() == self.regex_map.ks().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).regex@ == self.regex_map.ks()[i] && *r@[i].method_map == self.regex_map.m()[self.regex_map.ks()[i]], // C01 C03 all paths that are routed
@loop 0 inv
    __g0.len() == self.regex_map.ks().len(), forall|i: int| 0 <= i < __g0.len() ==> (#[trigger] __g0[i]).0.key() == self.regex_map.ks()[i] && *__g0[i].1 == self.regex_map.m()[self.regex_map.ks()[i]],
    __o0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __o0@[i]).regex@ == self.regex_map.ks()[i] && *__o0@[i].method_map == self.regex_map.m()[self.regex_map.ks()[i]],
@fn PathMap::fallback
@props
C08
@spec
    ensures match r { None => self.fallback is None, Some(v) => self.fallback == Some(*v) }, // C08 the fallback that is declared
@fn PathInfo::regex
@props
C01
@spec
    ensures r == self.regex, // C01 the regex of the path
@fn PathInfo::method_map
@props
C03
@collect
@returns
Vec<(&'a Ident, &'a VariantData)>
@spec
    ensures r@.len() == self.method_map.ks().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.method_map.ks()[i] && *r@[i].1 == self.method_map.m()[self.method_map.ks()[i]].0, // C03 the methods of the path, and what they lead to
@loop 0 inv
    __g0.len() == self.method_map.ks().len(), forall|i: int| 0 <= i < __g0.len() ==> (#[trigger] __g0[i]).0@ == self.method_map.ks()[i] && *__g0[i].1 == self.method_map.m()[self.method_map.ks()[i]],
    __o0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __o0@[i]).0@ == self.method_map.ks()[i] && *__o0@[i].1 == self.method_map.m()[self.method_map.ks()[i]].0,
