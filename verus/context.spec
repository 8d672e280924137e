@prelude
verus! {
// ---------------------------------------------------------------- stand-ins (trusted)
/// Diverges; what a declaration must be like for it to be rejected here is the contract's business.
#[verifier::external_body]
pub fn reject(Ghost(b): Ghost<bool>) -> ! requires b { panic!() }

// the items an iterator yields, in order
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub trait VItems { type E; spec fn items(self) -> Seq<Self::E>; fn v_items_(self) -> (r: Vec<Self::E>) ensures r@ == self.items(), r@.len() <= usize::MAX; }
impl<'a, T> VItems for &'a [T] { type E = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_items_(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<'a, T> VItems for &'a Vec<T> { type E = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_items_(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<T> VItems for Vec<T> { type E = T; open spec fn items(self) -> Seq<T> { self@ } fn v_items_(self) -> (r: Vec<T>) { let n = self.len(); self } }
impl<'a> VItems for &'a Fields { type E = &'a Field; open spec fn items(self) -> Seq<&'a Field> { refs(self.f@) } fn v_items_(self) -> (r: Vec<&'a Field>) { (&self.f).v_items_() } }
pub fn v_items<C: VItems>(c: C) -> (r: Vec<C::E>) ensures r@ == c.items(), r@.len() <= usize::MAX { c.v_items_() }
pub trait VIter<T> { spec fn viter_spec(&self) -> Seq<T>; fn v_iter(&self) -> (r: Vec<&T>) ensures r@ == refs(self.viter_spec()), r@.len() <= usize::MAX; }
impl<T> VIter<T> for Vec<T> { open spec fn viter_spec(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { self.iter().collect() } }
impl<T> VIter<T> for [T] { open spec fn viter_spec(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { self.iter().collect() } }
impl VIter<Field> for Fields { open spec fn viter_spec(&self) -> Seq<Field> { self.f@ } fn v_iter(&self) -> (r: Vec<&Field>) { self.f.v_iter() } }

pub trait VLen { spec fn vlen_spec(&self) -> nat; fn vlen(&self) -> (r: usize) ensures r == self.vlen_spec(); }
impl<T> VLen for Vec<T> { open spec fn vlen_spec(&self) -> nat { self@.len() } fn vlen(&self) -> (r: usize) { self.len() } }

// what syn hands to the derive macro
#[verifier::external_body]
pub struct Ident { s: String }
impl Ident { pub uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() } }
impl PartialEq<str> for Ident { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl<str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ } }
impl<'a> PartialEq<&'a str> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == o@ } }
pub struct Colon2;
pub struct PathSeg { pub ident: Ident }
pub struct APath { pub leading_colon: Option<Colon2>, pub segments: Vec<PathSeg> }
impl APath {
    pub open spec fn word(&self, s: Seq<char>) -> bool { self.leading_colon is None && self.segments@.len() == 1 && self.segments@[0].ident@ == s }
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == self.word(s@) { unimplemented!() }
}
pub struct Attribute { pub path: APath }
#[verifier::external_body]
pub struct SynError { e: u8 }
pub struct MetaList { pub ident: Ident }
pub enum Meta { Word(Ident), List(MetaList), NameValue(Ident) }
impl Meta {
    pub open spec fn nm(&self) -> Seq<char> { match self { Meta::Word(i) => i@, Meta::List(l) => l.ident@, Meta::NameValue(i) => i@ } }
    pub fn name(&self) -> (r: Ident) ensures r@ == self.nm() { match self { Meta::Word(i) => i.clone(), Meta::List(l) => l.ident.clone(), Meta::NameValue(i) => i.clone() } }
}
/// what an attribute says, if it has the form of a word, a list or a value
pub uninterp spec fn meta_of(a: Attribute) -> Option<Meta>;
impl Attribute {
    #[verifier::external_body]
    pub fn parse_meta(&self) -> (r: Result<Meta, SynError>)
        ensures match r { Ok(m) => meta_of(*self) == Some(m) && self.path.word(m.nm()), Err(_) => meta_of(*self) is None }
    { unimplemented!() }
}
pub struct Type { pub t: u8 }
/// Clones can't be told from the originals.
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: T) { self.clone() } }
impl Clone for Type { fn clone(&self) -> (r: Type) ensures r == *self { Type { t: self.t } } }
pub struct Field { pub ident: Option<Ident>, pub attrs: Vec<Attribute>, pub ty: Type }
pub struct Fields { pub f: Vec<Field> }
impl Fields { pub fn iter(&self) -> (r: Vec<&Field>) ensures r@ == refs(self.f@), r@.len() <= usize::MAX { self.f.v_iter() } }
pub struct FieldsNamed { pub named: Vec<Field> }
pub struct Variant { pub attrs: Vec<Attribute>, pub fields: Fields }
pub struct DataStruct { pub fields: Fields }
pub struct DataEnum { pub variants: Vec<Variant> }
pub struct DataUnion { pub fields: FieldsNamed }
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub data: Data }
pub struct Index { pub n: usize }
impl core::convert::From<usize> for Index { fn from(n: usize) -> (r: Index) { Index { n } } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for Index { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(n: usize) -> Index { Index { n } } }

// ---------------------------------------------------------------- generated code
/// What is put together by `quote!` and `gen_impl`: texts with things put into them.
pub enum Toks { Type(Type), Name(Seq<char>), Index(usize), Text(Seq<char>, Seq<Toks>), All(Seq<Toks>), Impl(AddBounds, Box<Toks>) }
#[verifier::external_body]
pub struct TokenStream { t: u8 }
impl TokenStream { pub uninterp spec fn toks(&self) -> Toks; }
pub trait VTokens { spec fn vt(&self) -> Toks; fn v_toks(&self) -> (r: TokenStream) ensures r.toks() == self.vt(); }
impl VTokens for TokenStream { open spec fn vt(&self) -> Toks { self.toks() } #[verifier::external_body] fn v_toks(&self) -> (r: TokenStream) { unimplemented!() } }
impl VTokens for Type { open spec fn vt(&self) -> Toks { Toks::Type(*self) } #[verifier::external_body] fn v_toks(&self) -> (r: TokenStream) { unimplemented!() } }
impl VTokens for Ident { open spec fn vt(&self) -> Toks { Toks::Name(self@) } #[verifier::external_body] fn v_toks(&self) -> (r: TokenStream) { unimplemented!() } }
impl VTokens for Index { open spec fn vt(&self) -> Toks { Toks::Index(self.n) } #[verifier::external_body] fn v_toks(&self) -> (r: TokenStream) { unimplemented!() } }
impl VTokens for Vec<TokenStream> { open spec fn vt(&self) -> Toks { Toks::All(all(self@)) } #[verifier::external_body] fn v_toks(&self) -> (r: TokenStream) { unimplemented!() } }
impl<T: VTokens + ?Sized> VTokens for &T { open spec fn vt(&self) -> Toks { (**self).vt() } fn v_toks(&self) -> (r: TokenStream) { (**self).v_toks() } }
pub open spec fn all(s: Seq<TokenStream>) -> Seq<Toks> { s.map_values(|x: TokenStream| x.toks()) }
pub fn v_tokens<T: VTokens + ?Sized>(t: &T) -> (r: TokenStream) ensures r.toks() == t.vt() { t.v_toks() }
pub trait ToTokens: VTokens + Sized { fn into_token_stream(self) -> (r: TokenStream) ensures r.toks() == self.vt(); }
impl<T: VTokens> ToTokens for T { fn into_token_stream(self) -> (r: TokenStream) { self.v_toks() } }
#[verifier::external_body]
pub struct Quoted { t: u8 }
impl Quoted {
    pub uninterp spec fn view(&self) -> Seq<Toks>;
    #[verifier::external_body]
    pub fn new() -> (r: Quoted) ensures r@ == Seq::<Toks>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add<T: VTokens + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@.push(t.vt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self, text: &str) -> (r: TokenStream) ensures r.toks() == Toks::Text(text@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn list(self) -> (r: TokenStream) ensures r.toks() == Toks::All(self@) { unimplemented!() }
}
/// which type parameters the impls bound by the trait that is implemented
pub enum AddBounds { Both, Fields, Generics, None }
pub struct Structure<'a> { pub input: &'a DeriveInput, pub bounds: AddBounds }
impl<'a> Structure<'a> {
    pub fn ast(&self) -> (r: &'a DeriveInput) ensures r == self.input { self.input }
    pub fn add_bounds(&mut self, b: AddBounds) ensures final(self).input == old(self).input, final(self).bounds == b { self.bounds = b; }
    #[verifier::external_body]
    pub fn gen_impl(&self, t: TokenStream) -> (r: TokenStream) ensures r.toks() == Toks::Impl(self.bounds, Box::new(t.toks())) { unimplemented!() }
}

// ---------------------------------------------------------------- what may be declared
pub open spec fn asref(a: Attribute) -> bool { a.path.word("as_ref"@) }
pub open spec fn plain(a: Attribute) -> bool { meta_of(a) matches Some(Meta::Word(_)) }
pub open spec fn without(s: Seq<Attribute>, name: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).path.word(name) }
pub open spec fn none(s: Seq<Attribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> !asref(#[trigger] s[i]) }
pub open spec fn marks(s: Seq<Attribute>, n: int) -> nat decreases n { if n <= 0 { 0 } else if asref(s[n - 1]) { marks(s, n - 1) + 1 } else { marks(s, n - 1) } }
pub open spec fn marked(f: Field) -> bool { marks(f.attrs@, f.attrs@.len() as int) > 0 }
/// `#[as_ref]` without arguments, at most once
pub open spec fn field_ok(f: Field) -> bool { marks(f.attrs@, f.attrs@.len() as int) <= 1 && forall|i: int| 0 <= i < f.attrs@.len() ==> asref(#[trigger] f.attrs@[i]) ==> plain(f.attrs@[i]) }
pub open spec fn variant_ok(v: Variant) -> bool { none(v.attrs@) && forall|i: int| 0 <= i < v.fields.f@.len() ==> none((#[trigger] v.fields.f@[i]).attrs@) }
pub open spec fn ok(d: DeriveInput) -> bool {
    none(d.attrs@) && match d.data {
        Data::Struct(s) => forall|i: int| 0 <= i < s.fields.f@.len() ==> field_ok(#[trigger] s.fields.f@[i]),
        Data::Enum(e) => forall|i: int| 0 <= i < e.variants@.len() ==> variant_ok(#[trigger] e.variants@[i]),
        Data::Union(u) => forall|i: int| 0 <= i < u.fields.named@.len() ==> none((#[trigger] u.fields.named@[i]).attrs@),
    }
}
pub proof fn lemma_marks(s: Seq<Attribute>, i: int, n: int) requires 0 <= i <= n <= s.len() ensures marks(s, i) <= marks(s, n) decreases n { if i < n { lemma_marks(s, i, n - 1); } }

// ---------------------------------------------------------------- what is generated
pub open spec fn imp(t: Toks) -> Toks { Toks::Impl(AddBounds::None, Box::new(t)) }
pub open spec fn no_toks() -> Seq<Toks> { Seq::empty() }
pub open spec fn to_self() -> Toks { imp(Toks::Text("gen impl AsRef < Self > for @ Self { fn as_ref ( & self ) - > & Self { self } }"@, no_toks())) }
pub open spec fn to_none() -> Toks { imp(Toks::Text("extern crate hyperdrive ; use hyperdrive : : NoContext ; gen impl AsRef < NoContext > for @ Self { fn as_ref ( & self ) - > & NoContext { & NoContext } }"@, no_toks())) }
pub open spec fn is_rc() -> Toks { imp(Toks::Text("extern crate hyperdrive ; use hyperdrive : : RequestContext ; gen impl RequestContext for @ Self { }"@, no_toks())) }
pub open spec fn fname(f: Field, i: int) -> Toks { match f.ident { Some(x) => Toks::Name(x@), None => Toks::Index(i as usize) } }
/// the reference to field `i`, as its type
pub open spec fn to_field(f: Field, i: int) -> Toks { imp(Toks::Text("gen impl AsRef < #0 > for @ Self { fn as_ref ( & self ) - > & #1 { & self . #2 } }"@, seq![Toks::Type(f.ty), Toks::Type(f.ty), fname(f, i)])) }
pub open spec fn to_fields(s: Seq<Field>, n: int) -> Seq<Toks> decreases n { if n <= 0 { Seq::empty() } else if marked(s[n - 1]) { to_fields(s, n - 1).push(to_field(s[n - 1], n - 1)) } else { to_fields(s, n - 1) } }
pub open spec fn converts(d: DeriveInput) -> Seq<Toks> { match d.data { Data::Struct(s) => to_fields(s.fields.f@, s.fields.f@.len() as int), _ => Seq::empty() } }
pub open spec fn expected(d: DeriveInput, x: Toks) -> bool { x == to_self() || x == to_none() || x == is_rc() || converts(d).contains(x) }
/// `x` is one of the items that are generated
pub open spec fn has1(t: Toks, x: Toks) -> bool { match t { Toks::All(s) => s.contains(x), _ => t == x } }
pub open spec fn has(t: Toks, x: Toks) -> bool { match t { Toks::All(s) => exists|i: int| 0 <= i < s.len() && #[trigger] has1(s[i], x), _ => t == x } }
}
@fn deny_attr
@props
C15
@params
name: &str, attrs: &Vec<Attribute>
@may
@attrs
#[verifier::loop_isolation(false)]
@spec
    requires !without(attrs@, name@) ==> __may@,
    ensures without(attrs@, name@), // C15 #[as_ref] only on fields of structs
@reject
__may@
@loop 0 inv
    __g0 == refs(attrs@), forall|i: int| 0 <= i < __i0 ==> !(#[trigger] attrs@[i]).path.word(name@),
@loop 0 start
proof { assert(*__x0 == attrs@[__i0 - 1]); }
@fn derive_request_context
@props
C15
@attrs
#[verifier::loop_isolation(false)]
@spec
    ensures ok(*s.input), // C15 #[as_ref] only on fields of structs, once each, without arguments
        forall|x: Toks| has(r.toks(), x) == expected(*s.input, x), // C15 tokens: conversions to itself, NoContext and each marked field, and no others
@reject
!ok(*s0.input)
@entry
let ghost s0 = s; let ghost d = *s.input;
@loop 0 inv
    __g0 == refs(st.fields.f@), __c0 == __i0, forall|i: int| 0 <= i < __i0 ==> field_ok(#[trigger] st.fields.f@[i]),
    all(impls@) =~= to_fields(st.fields.f@, __i0),
@loop 0 start
let ghost impls0 = impls@;
proof { assert(*__x0 == st.fields.f@[__i0 - 1]); }
@loop 0 end
proof {
    if marked(*__x0) {
        assert(impls@.len() == impls0.len() + 1);
        let t = *(impls@.last().toks()->Impl_1);
        assert(t->Text_1 =~= seq![Toks::Type(__x0.ty), Toks::Type(__x0.ty), fname(*__x0, __i0 - 1)]);
        assert(impls@.last().toks() == to_field(*__x0, __i0 - 1));
    }
    assert(all(impls@) =~= to_fields(st.fields.f@, __i0));
}
@loop 1 inv
    __g1 == refs(__x0.attrs@), __o1 == marks(__x0.attrs@, __i1), __o1 <= __i1, forall|i: int| 0 <= i < __i1 ==> asref(#[trigger] __x0.attrs@[i]) ==> plain(__x0.attrs@[i]),
@loop 1 start
proof { assert(*__x1 == __x0.attrs@[__i1 - 1]); }
@loop 2 inv
    __g2 == refs(e.variants@), forall|i: int| 0 <= i < __i2 ==> variant_ok(#[trigger] e.variants@[i]),
@loop 2 start
proof { assert(*__x2 == e.variants@[__i2 - 1]); }
@loop 3 inv
    __g3 == refs(__x2.fields.f@), forall|i: int| 0 <= i < __i3 ==> none((#[trigger] __x2.fields.f@[i]).attrs@),
@loop 3 start
proof { assert(*__x3 == __x2.fields.f@[__i3 - 1]); }
@loop 4 inv
    __g4 == refs(u.fields.named@), forall|i: int| 0 <= i < __i4 ==> none((#[trigger] u.fields.named@[i]).attrs@),
@loop 4 start
proof { assert(*__x4 == u.fields.named@[__i4 - 1]); }
@result
proof {
    assert(all(additional_impls@) =~= converts(d));
    assert forall|x: Toks| has(result.toks(), x) == expected(*s0.input, x) by { 
        let s = result.toks()->All_0;
        assert(s.len() == 4);
        assert(has(result.toks(), x) == (has1(s[0], x) || has1(s[1], x) || has1(s[2], x) || has1(s[3], x)));
    }
}
