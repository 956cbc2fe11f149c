// ------------------------------------------------------------ equality, hashing and order of std and foreign types (trusted: what they compare is what they hash)
//@flag xeq
//@method eq => x_eq
//@method hash => x_hash
//@method cmp => x_cmp
//@method partial_cmp => x_partial_cmp
pub trait XEq<B: ?Sized> { spec fn same(&self, o: &B) -> bool; fn x_eq(&self, o: &B) -> (r: bool) ensures r == self.same(o); }
impl<'a, 'b, A: XEq<B> + ?Sized, B: ?Sized> XEq<&'b B> for &'a A { open spec fn same(&self, o: &&'b B) -> bool { (**self).same(*o) } fn x_eq(&self, o: &&'b B) -> (r: bool) { (**self).x_eq(*o) } }
/// what takes in what is hashed, in order
pub trait Hasher { spec fn fed(&self) -> Seq<int>; }
pub trait XHash: XEq<Self> {
    spec fn code(&self) -> Seq<int>;
    /// equal values hash alike
    proof fn lemma_alike(&self, o: &Self) requires self.same(o) ensures self.code() == o.code();
    fn x_hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.code();
}
impl<'a, A: XHash + ?Sized> XHash for &'a A {
    open spec fn code(&self) -> Seq<int> { (**self).code() }
    proof fn lemma_alike(&self, o: &Self) { (**self).lemma_alike(*o); }
    fn x_hash<H: Hasher>(&self, state: &mut H) { (**self).x_hash(state) }
}
pub uninterp spec fn code_of<V>(v: V) -> Seq<int>;
/// a type which compares and hashes one thing
macro_rules! plain { ($($t:ty, $v:ident, $w:expr;)*) => { verus! { $(
    impl XEq<$t> for $t { open spec fn same(&self, o: &$t) -> bool { let $v = self; let a = $w; let $v = o; a == $w } #[verifier::external_body] fn x_eq(&self, o: &$t) -> (r: bool) { unimplemented!() } }
    impl XHash for $t { open spec fn code(&self) -> Seq<int> { let $v = self; code_of($w) } proof fn lemma_alike(&self, o: &Self) { } #[verifier::external_body] fn x_hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
)* } } }
plain! { bool, x, *x; u8, x, *x; u16, x, *x; u32, x, *x; u64, x, *x; i16, x, *x; String, x, x.view(); str, x, x.view(); }
impl<A: XEq<A>> XEq<Option<A>> for Option<A> { open spec fn same(&self, o: &Option<A>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } } #[verifier::external_body] fn x_eq(&self, o: &Option<A>) -> (r: bool) { unimplemented!() } }
impl<A: XHash> XHash for Option<A> {
    open spec fn code(&self) -> Seq<int> { match *self { Some(a) => seq![1int] + a.code(), None => seq![0int] } }
    proof fn lemma_alike(&self, o: &Self) { if self is Some { self->0.lemma_alike(&o->0); } }
    #[verifier::external_body] fn x_hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl XEq<str> for String { open spec fn same(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn x_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'a> XEq<&'a str> for String { open spec fn same(&self, o: &&'a str) -> bool { self@ == (*o)@ } #[verifier::external_body] fn x_eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
/// a type whose insides are not looked into
macro_rules! whole { ($($t:ident),*) => { verus! { $( #[verifier::external_body] pub struct $t { x: u8 } impl $t { pub uninterp spec fn what(&self) -> int; } )* plain! { $( $t, x, x.what(); )* } } } }
// ------------------------------------------------------------ order
pub trait XOrd { spec fn ord(&self, o: &Self) -> Ordering; fn x_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.ord(o); }
pub uninterp spec fn text_ord(a: Seq<char>, b: Seq<char>) -> Ordering;
impl XOrd for String { open spec fn ord(&self, o: &Self) -> Ordering { text_ord(self@, o@) } #[verifier::external_body] fn x_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl XOrd for str { open spec fn ord(&self, o: &Self) -> Ordering { text_ord(self@, o@) } #[verifier::external_body] fn x_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
