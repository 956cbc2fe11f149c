//@include prelude.vrs
verus! {
//@method fmt => x_fmt
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@include std_more.inc
//@include collections.inc
//@include collect.inc
//@include serde.inc
//@include any_doc.inc
/// the value, or an error where there is none
pub open spec fn gives<T>(o: Option<T>, r: Result<T, XErr>) -> bool { match o { Some(v) => r == Ok::<T, XErr>(v), None => r is Err } }
#[verifier::external_body] pub fn x_char_text(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
// integers into smaller ones (trusted: std)
#[verifier::external_body] pub struct XIntError { s: u8 }
macro_rules! int_into { ($to:ident $max:literal; $($t:ident)*) => { verus! { $(
    impl XTryInto<$to, XIntError> for $t {
        open spec fn x_try_post(self, r: Result<$to, XIntError>) -> bool { (r is Ok <==> 0 <= self <= $max) && (r matches Ok(n) ==> n == self) }
        #[verifier::external_body] fn x_try_into(self) -> (r: Result<$to, XIntError>) { unimplemented!() }
    } )* } } }
int_into!(u32 0xffff_ffff; i8 i16 i32 i64 i128 u8 u16 u64 u128);
int_into!(u64 0xffff_ffff_ffff_ffff; i8 i16 i32 i64 i128 u128);
// whole numbers as documents (trusted: serde)
macro_rules! int_doc { ($($t:ident $max:literal, $w:ident;)*) => { verus! { $(
    impl XDes for $t { open spec fn rd(n: XNode) -> Option<$t> { match n { XNode::Int(i) => if 0 <= i <= $max { Some(i as $t) } else { None }, _ => None } } #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<$t, XErr>) { unimplemented!() } }
    impl XSer for $t { open spec fn node(&self) -> XNode { XNode::Int(*self as int) } #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
    impl XSerializer { #[verifier::external_body] pub fn $w(self, v: $t) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Int(v as int) { unimplemented!() } }
    )* } } }
int_doc!(u32 0xffff_ffff, serialize_u32; u64 0xffff_ffff_ffff_ffff, serialize_u64; u128 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, serialize_u128;);
impl XSerializer {
    #[verifier::external_body] pub fn serialize_i8(self, v: i8) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Int(v as int) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_str(self, v: &str) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Text(v@) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_char(self, v: char) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Text(seq![v]) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_none(self) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Null { unimplemented!() }
    /// what is displayed is written as a text
    #[verifier::external_body] pub fn serialize_some<T: XShown>(self, v: &T) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Text(v.shown()) { unimplemented!() }
}
//@rename E::invalid_value => x_invalid_value
//@rename de::Error::invalid_value => x_invalid_value
//@rename Unexpected::Str => x_unexpected
//@rename Unexpected::Char => x_unexpected
pub struct XUnexpected;
pub fn x_unexpected<T>(v: T) -> (r: XUnexpected) { XUnexpected }
pub fn x_invalid_value<T>(u: XUnexpected, e: T) -> (r: XErr) { XErr }
pub trait XShown { spec fn shown(&self) -> Seq<char>; }
impl<'a, T: XShown> XShown for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body] pub struct XShow { s: String }
impl XShown for XShow { uninterp spec fn shown(&self) -> Seq<char>; }
#[verifier::external_body] pub fn x_show<T: XShown>(v: &T) -> (r: XShow) ensures r.shown() == v.shown() { unimplemented!() }
// ------------------------------------------------------------ a user or group: an integer or a name
mod user { use super::*;
#[verifier::external_body] pub struct Name { s: String }
//@type src/service/user.rs :: IdOrName
//@type src/service/user.rs :: Visitor
/// what a text names (decided by P10)
pub uninterp spec fn id_of(s: Seq<char>) -> Option<IdOrName>;
impl XFromStr for IdOrName { type E = XErr; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { gives(id_of(s), r) } #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<IdOrName, XErr>) { unimplemented!() } }
impl XTryInto<IdOrName, XErr> for String { open spec fn x_try_post(self, r: Result<IdOrName, XErr>) -> bool { gives(id_of(self@), r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<IdOrName, XErr>) { unimplemented!() } }
impl XInto<IdOrName> for u32 { open spec fn x_into_post(self, u: IdOrName) -> bool { u == IdOrName::Id(self) } fn x_into(self) -> (u: IdOrName) { IdOrName::id_from_u32(self) } }
//@fn src/service/user.rs :: <From<u32> for IdOrName>::from | as=id_from_u32 | retty=IdOrName
    ensures r == IdOrName::Id(value)
//@end
/// an integer of 32 bits is the id, kept exactly and never wrapped; a text what it names; nothing else is one
pub open spec fn id_rd(n: XNode) -> Option<IdOrName> { match n { XNode::Int(i) => if 0 <= i <= 0xffff_ffff { Some(IdOrName::Id(i as u32)) } else { None }, XNode::Text(s) => id_of(s), _ => None } }
impl XAnyVisitor for Visitor { type Value = IdOrName; open spec fn any_post(n: XNode, r: Result<IdOrName, XErr>) -> bool { gives(id_rd(n), r) } }
//@fn expanded :: service::user::<Visitor for Visitor>::visit_i8 | trait=XVisitI8 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_i16 | trait=XVisitI16 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_i32 | trait=XVisitI32 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_i64 | trait=XVisitI64 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_i128 | trait=XVisitI128 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_u8 | trait=XVisitU8 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_u16 | trait=XVisitU16 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn src/service/user.rs :: <Visitor for Visitor>::visit_u32 | trait=XVisitU32 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn expanded :: service::user::<Visitor for Visitor>::visit_u128 | trait=XVisitU128 | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn src/service/user.rs :: <Visitor for Visitor>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
//@fn src/service/user.rs :: <Visitor for Visitor>::visit_string | trait=XVisitString | subst=E:XErr | retty=Result<IdOrName, XErr>
//@end
// serde's defaults of the methods this visitor does not have
impl XVisitBool for Visitor { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF32 for Visitor { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF64 for Visitor { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitChar for Visitor { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) { { let s = x_char_text(v); self.visit_str(s.as_str()) } } }
impl XVisitBorrowedStr for Visitor { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { self.visit_str(v) } }
impl XVisitBytes for Visitor { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitByteBuf for Visitor { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBorrowedBytes for Visitor { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitNone for Visitor { fn visit_none(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitUnit for Visitor { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitSeq for Visitor { fn visit_seq(self, v: XSeqAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitMap for Visitor { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitEnum for Visitor { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitor for Visitor { }
//@fn src/service/user.rs :: <Deserialize for IdOrName>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<IdOrName, XErr> | extra=open spec fn rd(n: XNode) -> Option<IdOrName> { id_rd(n) }
//@end
}
// ------------------------------------------------------------ optional durations
mod duration { use super::*;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { s: u64 }
//@rename crate::duration::parse => x_parse
//@rename crate::duration::to_string => x_dur_text
//@rename Option::<u64>::deserialize => XDes::x_deserialize
//@rename Option::deserialize => XDes::x_deserialize
//@rename Duration::from_micros => x_from_micros
//@rename Duration::as_micros => Duration::x_as_micros
/// the duration a text denotes and the text of one (decided by P01)
pub uninterp spec fn dur_of(s: Seq<char>) -> Option<Duration>;
pub uninterp spec fn dur_text(d: Duration) -> Seq<char>;
/// whole microseconds in it (trusted: std)
pub uninterp spec fn micros(d: Duration) -> nat;
pub uninterp spec fn of_micros(n: nat) -> Duration;
pub broadcast axiom fn axiom_micros(n: nat) requires n <= u64::MAX ensures micros(#[trigger] of_micros(n)) == n;
#[verifier::external_body] pub fn x_parse(s: &str) -> (r: Result<Duration, XErr>) ensures gives(dur_of(s@), r) { unimplemented!() }
#[verifier::external_body] pub fn x_dur_text(d: &Duration) -> (r: String) ensures r@ == dur_text(*d) { unimplemented!() }
#[verifier::external_body] pub fn x_from_micros(n: u64) -> (r: Duration) ensures r == of_micros(n as nat) { unimplemented!() }
impl Duration { #[verifier::external_body] pub fn x_as_micros(&self) -> (r: u128) ensures r == micros(*self) { unimplemented!() } }
/// a number is so many microseconds, kept exactly and never wrapped; a text what it denotes; a missing value (a null in some formats) no duration
pub open spec fn opt_dur(n: XNode, r: Result<Option<Duration>, XErr>) -> bool {
    match n {
        XNode::Int(i) => if 0 <= i <= u64::MAX { r == Ok::<Option<Duration>, XErr>(Some(of_micros(i as nat))) } else { r is Err },
        XNode::Text(s) => match dur_of(s) { Some(d) => r == Ok::<Option<Duration>, XErr>(Some(d)), None => r is Err },
        XNode::Null => r matches Ok(d) ==> d is None,
        _ => r is Err,
    }
}
//@type src/serde/duration_option.rs :: Visitor
impl XAnyVisitor for Visitor { type Value = Option<Duration>; open spec fn any_post(n: XNode, r: Result<Option<Duration>, XErr>) -> bool { opt_dur(n, r) } }
//@fn expanded :: serde::duration_option::<Visitor for Visitor>::visit_i64 | trait=XVisitI64 | subst=E:XErr | retty=Result<Option<Duration>, XErr>
//@end
//@fn expanded :: serde::duration_option::<Visitor for Visitor>::visit_i128 | trait=XVisitI128 | subst=E:XErr | retty=Result<Option<Duration>, XErr>
//@end
//@fn src/serde/duration_option.rs :: <Visitor for Visitor>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<Option<Duration>, XErr>
//@end
//@fn expanded :: serde::duration_option::<Visitor for Visitor>::visit_u128 | trait=XVisitU128 | subst=E:XErr | retty=Result<Option<Duration>, XErr>
//@end
//@fn src/serde/duration_option.rs :: <Visitor for Visitor>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<Option<Duration>, XErr>
//@end
//@fn src/serde/duration_option.rs :: <Visitor for Visitor>::visit_none | trait=XVisitNone | subst=E:XErr | retty=Result<Option<Duration>, XErr>
//@end
// serde's defaults of the methods this visitor does not have
impl XVisitBool for Visitor { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI8 for Visitor { fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) { self.visit_i64(v as i64) } }
impl XVisitI16 for Visitor { fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) { self.visit_i64(v as i64) } }
impl XVisitI32 for Visitor { fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) { self.visit_i64(v as i64) } }
impl XVisitU8 for Visitor { fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU16 for Visitor { fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU32 for Visitor { fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitF32 for Visitor { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF64 for Visitor { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitChar for Visitor { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) { { let s = x_char_text(v); self.visit_str(s.as_str()) } } }
impl XVisitString for Visitor { fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) { self.visit_str(v.as_str()) } }
impl XVisitBorrowedStr for Visitor { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { self.visit_str(v) } }
impl XVisitBytes for Visitor { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitByteBuf for Visitor { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBorrowedBytes for Visitor { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitUnit for Visitor { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitSeq for Visitor { fn visit_seq(self, v: XSeqAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitMap for Visitor { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitEnum for Visitor { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitor for Visitor { }
//@fn src/serde/duration_option.rs :: <Visitor for Visitor>::visit_some | trait=XVisitSome | subst=D:XDe | retty=Result<Option<Duration>, XErr>
//@end
//@fn src/serde/duration_option.rs :: deserialize | subst=D:XDe | retty=Result<Option<Duration>, XErr>
    ensures opt_dur(deserializer@, r)
//@end
//@fn src/serde/duration_option.rs :: serialize | subst=S:XSerializer | retty=Result<XOk, XErr>
    ensures r matches Ok(o) ==> o@ == match *duration { Some(d) => XNode::Text(dur_text(d)), None => XNode::Null }
//@end
}
// ------------------------------------------------------------ optional microseconds
mod duration_us { use super::*; use super::duration::*;
//@fn src/serde/duration_us_option.rs :: deserialize | subst=D:XDe | retty=Result<Option<Duration>, XErr>
    ensures gives(match Option::<u64>::rd(deserializer@) { Some(Some(n)) => Some(Some(of_micros(n as nat))), Some(None) => Some(None), None => None }, r)
//@end
//@fn src/serde/duration_us_option.rs :: serialize | subst=S:XSerializer | retty=Result<XOk, XErr>
    ensures r matches Ok(o) ==> o@ == match *duration { Some(d) => XNode::Int(micros(d) as int), None => XNode::Null }
//@end
/// whole microseconds survive
pub proof fn theorem_us(d: Option<Duration>)
    requires d matches Some(d) ==> micros(d) <= u64::MAX && d == of_micros(micros(d))
    ensures Option::<u64>::rd(match d { Some(d) => XNode::Int(micros(d) as int), None => XNode::Null }) == Some(match d { Some(d) => Some(micros(d) as u64), None => None })
{ }
}
// ------------------------------------------------------------ optional values held as texts
mod display { use super::*;
//@rename error_chain => x_error_chain
//@rename FromStrVisitor::default => x_from_str_visitor
pub trait Display: XShown { }
impl<T: XShown> Display for T { }
pub struct FromStrVisitor;
pub fn x_from_str_visitor() -> (r: FromStrVisitor) { FromStrVisitor }
/// the outcome agrees with what parsing the text may give
pub open spec fn parsed<T: XFromStr>(s: Seq<char>, r: Result<Option<T>, XErr>) -> bool {
    match r { Ok(v) => v is Some && exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && q == Ok::<T, T::E>(v->0), Err(_) => exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && q is Err }
}
/// (the visitor is under contract in `text_doc.inc`)
pub open spec fn text_rd<T: XFromStr>(n: XNode, r: Result<T, XErr>) -> bool {
    match n { XNode::Text(s) => match r { Ok(v) => exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && q == Ok::<T, T::E>(v), Err(_) => exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && q is Err }, _ => r is Err }
}
impl FromStrVisitor { #[verifier::external_body] pub fn deserialize<T: XFromStr>(self, d: XDe) -> (r: Result<T, XErr>) ensures text_rd::<T>(d@, r) { unimplemented!() } }
//@type src/serde/display_from_str_option.rs :: Visitor
//@fn src/serde/display_from_str_option.rs :: Visitor::new
    ensures true
//@end
//@fn src/serde/display_from_str_option.rs :: <Visitor for Visitor<T>>::visit_str | subst=E:XErr | retty=Result<Option<T>, XErr> | noimplgen | gen=<T: XFromStr> | self=Visitor<T>
    ensures parsed::<T>(v@, r)
//@end
//@fn src/serde/display_from_str_option.rs :: <Visitor for Visitor<T>>::visit_none | subst=E:XErr | retty=Result<Option<T>, XErr> | noimplgen | gen=<T: XFromStr> | self=Visitor<T>
    ensures r == Ok::<Option<T>, XErr>(None)
//@end
//@fn src/serde/display_from_str_option.rs :: <Visitor for Visitor<T>>::visit_some | subst=D:XDe | retty=Result<Option<T>, XErr> | noimplgen | gen=<T: XFromStr> | self=Visitor<T>
    ensures deserializer@ matches XNode::Text(s) ==> parsed::<T>(s, r), !(deserializer@ is Text) ==> r is Err
//@end
//@fn src/serde/display_from_str_option.rs :: serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | gen=<T: XShown>
    ensures r matches Ok(o) ==> o@ == match *value { Some(x) => XNode::Text(x.shown()), None => XNode::Null }
//@end
}
// ------------------------------------------------------------ a number of devices
mod count { use super::*;
//@type src/service/deploy/resources.rs :: Count
//@const src/service/deploy/resources.rs :: Count::ALL
//@type src/service/deploy/resources.rs :: CountVisitor
/// what a text counts (decided by P13)
pub uninterp spec fn count_of(s: Seq<char>) -> Option<Count>;
impl XFromStr for Count { type E = XErr; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { gives(count_of(s), r) } #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<Count, XErr>) { unimplemented!() } }
/// reading what is written
pub proof fn theorem_count(c: Count) requires count_of("all"@) == Some(Count::All) ensures count_rd(c.node()) == Some(c) { }
pub open spec fn count_rd(n: XNode) -> Option<Count> { match n { XNode::Int(i) => if 0 <= i <= u64::MAX { Some(Count::Integer(i as u64)) } else { None }, XNode::Text(s) => count_of(s), _ => None } }
// (formats hand a whole number over by `visit_u64`, which takes it as it is; the other methods may refuse it)
impl XAnyVisitor for CountVisitor { type Value = Count; open spec fn any_post(n: XNode, r: Result<Count, XErr>) -> bool { gives(count_rd(n), r) || n is Int && r is Err } }
//@fn src/service/deploy/resources.rs :: <Visitor for CountVisitor>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<Count, XErr>
    ensures r == Ok::<Count, XErr>(Count::Integer(v))
//@end
//@fn src/service/deploy/resources.rs :: <Visitor for CountVisitor>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<Count, XErr>
//@end
// serde's defaults of the methods this visitor does not have
impl XVisitBool for CountVisitor { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI8 for CountVisitor { fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI16 for CountVisitor { fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI32 for CountVisitor { fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI64 for CountVisitor { fn visit_i64(self, v: i64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI128 for CountVisitor { fn visit_i128(self, v: i128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU8 for CountVisitor { fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU16 for CountVisitor { fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU32 for CountVisitor { fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU128 for CountVisitor { fn visit_u128(self, v: u128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF32 for CountVisitor { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF64 for CountVisitor { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitChar for CountVisitor { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) { { let s = x_char_text(v); self.visit_str(s.as_str()) } } }
impl XVisitString for CountVisitor { fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) { self.visit_str(v.as_str()) } }
impl XVisitBorrowedStr for CountVisitor { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { self.visit_str(v) } }
impl XVisitBytes for CountVisitor { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitByteBuf for CountVisitor { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBorrowedBytes for CountVisitor { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitNone for CountVisitor { fn visit_none(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitUnit for CountVisitor { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitSeq for CountVisitor { fn visit_seq(self, v: XSeqAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitMap for CountVisitor { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitEnum for CountVisitor { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitor for CountVisitor { }
//@fn src/service/deploy/resources.rs :: <Serialize for Count>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { match self { Count::All => XNode::Text("all"@), Count::Integer(n) => XNode::Int(*n as int) } }
//@end
}
// ------------------------------------------------------------ SELinux
mod selinux { use super::*;
//@type src/service/volumes.rs :: SELinux | derive=Clone, Copy
//@rename char::deserialize => x_char_deserialize
/// one character (trusted: serde)
pub open spec fn char_rd(n: XNode) -> Option<char> { match n { XNode::Text(s) => if s.len() == 1 { Some(s[0]) } else { None }, _ => None } }
#[verifier::external_body] pub fn x_char_deserialize(d: XDe) -> (r: Result<char, XErr>) ensures gives(char_rd(d@), r) { unimplemented!() }
pub open spec fn label(s: SELinux) -> char { match s { SELinux::Shared => 'z', SELinux::Private => 'Z' } }
//@fn src/service/volumes.rs :: SELinux::as_char
    ensures r == label(self)
//@end
//@fn src/service/volumes.rs :: <Serialize for SELinux>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | extra=open spec fn node(&self) -> XNode { XNode::Text(seq![label(*self)]) }
//@end
//@fn src/service/volumes.rs :: <Deserialize for SELinux>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<SELinux, XErr> | extra=open spec fn rd(n: XNode) -> Option<SELinux> { match char_rd(n) { Some(c) => if c == 'z' { Some(SELinux::Shared) } else if c == 'Z' { Some(SELinux::Private) } else { None }, None => None } }
//@end
pub proof fn theorem_selinux(s: SELinux) ensures SELinux::rd(s.node()) == Some(s) { assert(seq![label(s)][0] == label(s)); }
}
// ------------------------------------------------------------ a limit: a value or -1
mod limit { use super::*;
//@type src/service/limit.rs :: Limit
//@type src/service/limit.rs :: Visitor
//@rename Unexpected::Signed => x_unexpected
pub assume_specification [ i64::unsigned_abs ](n: i64) -> (r: u64) ensures r == (if n >= 0 { n as int } else { -(n as int) });
pub open spec fn is_minus_one(s: Seq<char>) -> bool { s == "-1"@ }
pub open spec fn limit_rd<T: XDes>(n: XNode) -> Option<Limit<T>> {
    match n {
        XNode::Int(i) => if i == -1 { Some(Limit::Unlimited) } else if 0 <= i <= u64::MAX { limit_of(T::rd(n)) } else { None },
        XNode::Text(s) => if is_minus_one(s) { Some(Limit::Unlimited) } else { limit_of(T::rd(n)) },
        _ => None,
    }
}
pub open spec fn limit_of<T>(o: Option<T>) -> Option<Limit<T>> { match o { Some(v) => Some(Limit::Value(v)), None => None } }
impl<T: XDes> XAnyVisitor for Visitor<T> { type Value = Limit<T>; open spec fn any_post(n: XNode, r: Result<Limit<T>, XErr>) -> bool { gives(limit_rd::<T>(n), r) || n is Int && r is Err } }
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_i64 | trait=XVisitI64 | subst=E:XErr | retty=Result<Limit<T>, XErr> | gen=<T: XDes>
    ensures gives(limit_rd::<T>(XNode::Int(v as int)), r)
//@end
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<Limit<T>, XErr> | gen=<T: XDes>
    ensures gives(limit_rd::<T>(XNode::Int(v as int)), r)
//@end
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<Limit<T>, XErr> | gen=<T: XDes>
//@end
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_string | trait=XVisitString | subst=E:XErr | retty=Result<Limit<T>, XErr> | gen=<T: XDes>
//@end
// serde's defaults of the methods this visitor does not have
impl<T: XDes> XVisitBool for Visitor<T> { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitI8 for Visitor<T> { fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) { self.visit_i64(v as i64) } }
impl<T: XDes> XVisitI16 for Visitor<T> { fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) { self.visit_i64(v as i64) } }
impl<T: XDes> XVisitI32 for Visitor<T> { fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) { self.visit_i64(v as i64) } }
impl<T: XDes> XVisitI128 for Visitor<T> { fn visit_i128(self, v: i128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitU8 for Visitor<T> { fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl<T: XDes> XVisitU16 for Visitor<T> { fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl<T: XDes> XVisitU32 for Visitor<T> { fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl<T: XDes> XVisitU128 for Visitor<T> { fn visit_u128(self, v: u128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitF32 for Visitor<T> { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitF64 for Visitor<T> { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitChar for Visitor<T> { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) { { let s = x_char_text(v); self.visit_str(s.as_str()) } } }
impl<T: XDes> XVisitBorrowedStr for Visitor<T> { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { self.visit_str(v) } }
impl<T: XDes> XVisitBytes for Visitor<T> { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitByteBuf for Visitor<T> { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitBorrowedBytes for Visitor<T> { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitNone for Visitor<T> { fn visit_none(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitUnit for Visitor<T> { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitSeq for Visitor<T> { fn visit_seq(self, v: XSeqAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitMap for Visitor<T> { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitEnum for Visitor<T> { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<T: XDes> XVisitor for Visitor<T> { }
impl<T: XDes> XDes for Limit<T> { open spec fn rd(n: XNode) -> Option<Limit<T>> { limit_rd::<T>(n) } #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Limit<T>, XErr>) { unimplemented!() } }
//@fn src/service/limit.rs :: <Serialize for Limit<T>>::serialize | trait=XSer | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | gen=<T: XSer> | extra=open spec fn node(&self) -> XNode { match self { Limit::Value(v) => v.node(), Limit::Unlimited => XNode::Int(-1) } }
//@end
pub open spec fn plain_node(n: XNode) -> bool { match n { XNode::Int(i) => 0 <= i <= u64::MAX, XNode::Text(s) => !is_minus_one(s), _ => false } }
/// a limit whose value survives, and is not written as -1, survives
pub proof fn theorem_limit<T: XDes + XSer>(l: Limit<T>)
    requires l matches Limit::Value(v) ==> T::rd(v.node()) == Some(v) && plain_node(v.node())
    ensures Limit::<T>::rd(l.node()) == Some(l)
{ }
}
// ------------------------------------------------------------ an amount of bytes
mod bytes { use super::*;
//@type src/service/byte_value.rs :: ByteValue
//@type src/service/byte_value.rs :: Visitor
/// what a text denotes (decided by P02)
pub uninterp spec fn bytes_of(s: Seq<char>) -> Option<ByteValue>;
impl XFromStr for ByteValue { type E = XErr; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { gives(bytes_of(s), r) } #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<ByteValue, XErr>) { unimplemented!() } }
pub open spec fn bytes_rd(n: XNode) -> Option<ByteValue> { match n { XNode::Int(i) => if 0 <= i <= u64::MAX { Some(ByteValue::Bytes(i as u64)) } else { None }, XNode::Text(s) => bytes_of(s), _ => None } }
impl XAnyVisitor for Visitor { type Value = ByteValue; open spec fn any_post(n: XNode, r: Result<ByteValue, XErr>) -> bool { gives(bytes_rd(n), r) || n is Int && r is Err } }
//@fn src/service/byte_value.rs :: <Visitor for Visitor>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<ByteValue, XErr>
    ensures r == Ok::<ByteValue, XErr>(ByteValue::Bytes(v))
//@end
//@fn src/service/byte_value.rs :: <Visitor for Visitor>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<ByteValue, XErr>
//@end
// serde's defaults of the methods this visitor does not have
impl XVisitBool for Visitor { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI8 for Visitor { fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI16 for Visitor { fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI32 for Visitor { fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI64 for Visitor { fn visit_i64(self, v: i64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI128 for Visitor { fn visit_i128(self, v: i128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU8 for Visitor { fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU16 for Visitor { fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU32 for Visitor { fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) { self.visit_u64(v as u64) } }
impl XVisitU128 for Visitor { fn visit_u128(self, v: u128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF32 for Visitor { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF64 for Visitor { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitChar for Visitor { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) { { let s = x_char_text(v); self.visit_str(s.as_str()) } } }
impl XVisitString for Visitor { fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) { self.visit_str(v.as_str()) } }
impl XVisitBorrowedStr for Visitor { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { self.visit_str(v) } }
impl XVisitBytes for Visitor { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitByteBuf for Visitor { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBorrowedBytes for Visitor { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitNone for Visitor { fn visit_none(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitUnit for Visitor { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitSeq for Visitor { fn visit_seq(self, v: XSeqAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitMap for Visitor { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitEnum for Visitor { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitor for Visitor { }
}
} // verus!
fn main() {}
