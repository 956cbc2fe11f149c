// ------------------------------------------------------------ texts in documents (trusted model of serde: a scalar that is a text, or anything else)
//@rename error_chain => x_error_chain
//@rename crate::serde::TryFromStringVisitor::default => TryFromStringVisitor::default
//@rename crate::serde::TryFromStringVisitor::new => TryFromStringVisitor::new
//@rename crate::serde::FromStrVisitor::default => FromStrVisitor::default
//@rename crate::serde::FromStrVisitor::new => FromStrVisitor::new
use std::marker::PhantomData;
use std::convert::Infallible;
pub enum XTextNode { Text(Seq<char>), Other }
#[verifier::external_body]
pub struct XTextDe { s: String }
impl View for XTextDe { type V = XTextNode; uninterp spec fn view(&self) -> XTextNode; }
#[verifier::external_body]
pub struct XTextOk { s: String }
impl View for XTextOk { type V = XTextNode; uninterp spec fn view(&self) -> XTextNode; }
#[verifier::external_body]
pub struct XTextSer { s: String }
impl XTextSer {
    /// `Serializer::collect_str`: writes the displayed text
    #[verifier::external_body]
    pub fn collect_str<T: XDisplay>(self, x: &T) -> (r: Result<XTextOk, XErr>) ensures r matches Ok(o) ==> o@ == XTextNode::Text(x.x_disp()) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_str(self, x: &str) -> (r: Result<XTextOk, XErr>) ensures r matches Ok(o) ==> o@ == XTextNode::Text(x@) { unimplemented!() }
}
/// `Visitor::visit_str`; the default of `visit_string` and `visit_borrowed_str` is to call it
pub trait XVisitStr: Sized {
    type Value;
    spec fn visit_post(s: Seq<char>, r: Result<Self::Value, XErr>) -> bool;
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, XErr>) ensures Self::visit_post(v@, r);
}
/// a visitor with its own `visit_string`
pub trait XVisitString: XVisitStr {
    fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) ensures Self::visit_post(v@, r);
}
impl XTextDe {
    #[verifier::external_body]
    pub fn deserialize_str<V: XVisitStr>(self, v: V) -> (r: Result<V::Value, XErr>)
        ensures match self@ { XTextNode::Text(s) => V::visit_post(s, r), XTextNode::Other => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize_string<V: XVisitString>(self, v: V) -> (r: Result<V::Value, XErr>)
        ensures match self@ { XTextNode::Text(s) => V::visit_post(s, r), XTextNode::Other => r is Err }
    { unimplemented!() }
}
/// std's `Cow` at `str`
//@rename std::borrow::Cow => XTCow
pub enum XTCow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub open spec fn tcow_text<'a>(c: XTCow<'a, str>) -> Seq<char> { match c { XTCow::Borrowed(s) => s@, XTCow::Owned(s) => s@ } }
impl<'a> XAsRefStr for XTCow<'a, str> {
    open spec fn asv(&self) -> Seq<char> { tcow_text(*self) }
    fn x_as_ref(&self) -> (r: &str) { match self { XTCow::Borrowed(s) => s, XTCow::Owned(s) => s.as_str() } }
}
impl<'b> XAsRefStr for &'b str {
    open spec fn asv(&self) -> Seq<char> { (*self)@ }
    fn x_as_ref(&self) -> (r: &str) { *self }
}
impl XInto<String> for Box<str> { open spec fn x_into_post(self, u: String) -> bool { u@ == self@ } #[verifier::external_body] fn x_into(self) -> (u: String) { self.into() } }
impl XInto<Box<str>> for String { open spec fn x_into_post(self, u: Box<str>) -> bool { u@ == self@ } #[verifier::external_body] fn x_into(self) -> (u: Box<str>) { self.into() } }
impl XInto<Box<str>> for Box<str> { open spec fn x_into_post(self, u: Box<str>) -> bool { u@ == self@ } fn x_into(self) -> (u: Box<str>) { self } }
impl<'a> XInto<Box<str>> for XTCow<'a, str> { open spec fn x_into_post(self, u: Box<str>) -> bool { u@ == tcow_text(self) } #[verifier::external_body] fn x_into(self) -> (u: Box<str>) { unimplemented!() } }
impl<'a> XInto<String> for XTCow<'a, str> { open spec fn x_into_post(self, u: String) -> bool { u@ == tcow_text(self) } #[verifier::external_body] fn x_into(self) -> (u: String) { unimplemented!() } }
/// an argument `AsRef<str> + Into<Box<str>> + Into<String>` whose views are the same text (as for all of std's string types)
pub trait XTextArg: XAsRefStr + XInto<Box<str>> + XInto<String> + Sized {
    proof fn law(self, u: Box<str>) requires XInto::<Box<str>>::x_into_post(self, u) ensures u@ == self.asv();
    proof fn law_s(self, u: String) requires XInto::<String>::x_into_post(self, u) ensures u@ == self.asv();
}
impl<'b> XTextArg for &'b str { proof fn law(self, u: Box<str>) { } proof fn law_s(self, u: String) { } }
impl XTextArg for String { proof fn law(self, u: Box<str>) { } proof fn law_s(self, u: String) { } }
impl XTextArg for Box<str> { proof fn law(self, u: Box<str>) { } proof fn law_s(self, u: String) { } }
impl<'a> XTextArg for XTCow<'a, str> { proof fn law(self, u: Box<str>) { } proof fn law_s(self, u: String) { } }
pub proof fn x_arg_law<T: XTextArg>(t: T)
    ensures
        forall|u: &str| (#[trigger] u@) == u.sv(),
        forall|u: Box<str>| #[trigger] XInto::<Box<str>>::x_into_post(t, u) ==> u@ == t.asv(),
        forall|u: String| #[trigger] XInto::<String>::x_into_post(t, u) ==> u@ == t.asv(),
{
    assert forall|u: Box<str>| #[trigger] XInto::<Box<str>>::x_into_post(t, u) implies u@ == t.asv() by { t.law(u); }
    assert forall|u: String| #[trigger] XInto::<String>::x_into_post(t, u) implies u@ == t.asv() by { t.law_s(u); }
}
/// what conversions from a text give: the value of the text, or not
pub trait XTextOut: Sized { spec fn text_post(s: Seq<char>, r: Option<Self>) -> bool; }
pub open spec fn got_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
/// `TryFrom<&str>`, `TryFrom<String>`
pub trait XFromRef: XTextOut { type ERef; fn x_from_ref(value: &str) -> (r: Result<Self, Self::ERef>) ensures Self::text_post(value@, got_ok(r)); }
pub trait XFromString: XTextOut { type EString; fn x_from_string(value: String) -> (r: Result<Self, Self::EString>) ensures Self::text_post(value@, got_ok(r)); }
/// `TryInto`, blanket over `TryFrom`
pub trait XTextInto<V>: Sized { type E; spec fn ti_post(self, r: Option<V>) -> bool; fn x_text_into(self) -> (r: Result<V, Self::E>) ensures self.ti_post(got_ok(r)); }
impl<'b, V: XFromRef> XTextInto<V> for &'b str { type E = V::ERef; open spec fn ti_post(self, r: Option<V>) -> bool { V::text_post(self@, r) } fn x_text_into(self) -> (r: Result<V, V::ERef>) { V::x_from_ref(self) } }
impl<V: XFromString> XTextInto<V> for String { type E = V::EString; open spec fn ti_post(self, r: Option<V>) -> bool { V::text_post(self@, r) } fn x_text_into(self) -> (r: Result<V, V::EString>) { V::x_from_string(self) } }
/// reading a value from a document
pub open spec fn doc_post<T: XTextOut>(n: XTextNode, r: Result<T, XErr>) -> bool {
    match n { XTextNode::Text(s) => T::text_post(s, got_ok(r)), XTextNode::Other => r is Err }
}
//@type src/serde.rs :: TryFromStringVisitor
//@fn src/serde.rs :: TryFromStringVisitor::new
    ensures true
//@end
//@fn src/serde.rs :: <Default for TryFromStringVisitor<V>>::default
    ensures true
//@end
//@fn src/serde.rs :: <Visitor for TryFromStringVisitor<V>>::visit_str | subst=E:XErr | meth=try_into:x_text_into | retty=Result<V, XErr> | trait=XVisitStr | gen=<V: XFromRef + XFromString> | extra=type Value = V; open spec fn visit_post(s: Seq<char>, r: Result<V, XErr>) -> bool { V::text_post(s, got_ok(r)) }
//@end
//@fn src/serde.rs :: <Visitor for TryFromStringVisitor<V>>::visit_string | subst=E:XErr | meth=try_into:x_text_into | retty=Result<V, XErr> | trait=XVisitString | gen=<V: XFromRef + XFromString>
//@end
//@fn src/serde.rs :: TryFromStringVisitor::deserialize | subst=D:XTextDe | retty=Result<V, XErr> | noimplgen | gen=<V: XFromRef + XFromString> | self=TryFromStringVisitor<V>
    ensures doc_post::<V>(deserializer@, r)
//@end
/// equality of boxed texts is that of the texts
#[verifier::external_body]
pub broadcast proof fn axiom_box_text_eq(a: Box<str>, b: Box<str>)
    ensures <Box<str> as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)) == (a@ == b@)
{ }
/// every text fits in memory, and a character takes at least one byte
#[verifier::external_body]
pub proof fn x_arg_bound<T: XTextArg>(t: T) ensures t.asv().len() <= blen(t.asv()) <= isize::MAX { }
pub assume_specification[ str::into_string ](b: Box<str>) -> (r: String) ensures r@ == b@;
