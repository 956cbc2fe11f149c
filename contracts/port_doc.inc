// ------------------------------------------------------------ ports in documents: a text, or an integer (trusted model of serde: `deserialize_any` calls the visitor's method for the kind of scalar)
//@rename error_chain => x_error_chain
//@rename E::custom => x_error_chain
use std::marker::PhantomData;
use core::num::TryFromIntError;
pub enum XAnyNode { Text(Seq<char>), Int(int), Other }
pub enum XAnyDe { Text(String), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), Other }
impl XAnyDe {
    pub open spec fn node(self) -> XAnyNode {
        match self {
            XAnyDe::Text(s) => XAnyNode::Text(s@), XAnyDe::Other => XAnyNode::Other,
            XAnyDe::U8(n) => XAnyNode::Int(n as int), XAnyDe::U16(n) => XAnyNode::Int(n as int), XAnyDe::U32(n) => XAnyNode::Int(n as int), XAnyDe::U64(n) => XAnyNode::Int(n as int), XAnyDe::U128(n) => XAnyNode::Int(n as int),
            XAnyDe::I8(n) => XAnyNode::Int(n as int), XAnyDe::I16(n) => XAnyNode::Int(n as int), XAnyDe::I32(n) => XAnyNode::Int(n as int), XAnyDe::I64(n) => XAnyNode::Int(n as int), XAnyDe::I128(n) => XAnyNode::Int(n as int),
        }
    }
    pub fn deserialize_any<V: XFromStr + XFromU16>(self, v: FromStrOrU16Visitor<V>) -> (r: Result<V, XErr>) ensures port_doc::<V>(self.node(), r) {
        match self {
            XAnyDe::Text(s) => v.visit_str(s.as_str()), XAnyDe::Other => Err(XErr),
            XAnyDe::U8(n) => v.visit_u8(n), XAnyDe::U16(n) => v.visit_u16(n), XAnyDe::U32(n) => v.visit_u32(n), XAnyDe::U64(n) => v.visit_u64(n), XAnyDe::U128(n) => v.visit_u128(n),
            XAnyDe::I8(n) => v.visit_i8(n), XAnyDe::I16(n) => v.visit_i16(n), XAnyDe::I32(n) => v.visit_i32(n), XAnyDe::I64(n) => v.visit_i64(n), XAnyDe::I128(n) => v.visit_i128(n),
        }
    }
}
#[verifier::external_body]
pub struct XAnyOk { s: String }
impl View for XAnyOk { type V = XAnyNode; uninterp spec fn view(&self) -> XAnyNode; }
#[verifier::external_body]
pub struct XAnySer { s: String }
impl XAnySer {
    #[verifier::external_body]
    pub fn collect_str<T: XDisplay>(self, x: &T) -> (r: Result<XAnyOk, XErr>) ensures r matches Ok(o) ==> o@ == XAnyNode::Text(x.x_disp()) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_str(self, x: &str) -> (r: Result<XAnyOk, XErr>) ensures r matches Ok(o) ==> o@ == XAnyNode::Text(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_u16(self, x: u16) -> (r: Result<XAnyOk, XErr>) ensures r matches Ok(o) ==> o@ == XAnyNode::Int(x as int) { unimplemented!() }
}
pub trait XSerAny { spec fn node(&self) -> XAnyNode; fn serialize(&self, serializer: XAnySer) -> (r: Result<XAnyOk, XErr>) ensures r matches Ok(o) ==> o@ == self.node(); }
impl XSerAny for u16 { open spec fn node(&self) -> XAnyNode { XAnyNode::Int(*self as int) } #[verifier::external_body] fn serialize(&self, serializer: XAnySer) -> (r: Result<XAnyOk, XErr>) { unimplemented!() } }
/// `From<u16>`, and `u16: Into` blanket over it
pub trait XFromU16: Sized { spec fn u16_post(n: u16, r: Self) -> bool; fn x_from_u16(n: u16) -> (r: Self) ensures Self::u16_post(n, r); }
pub trait XPortInto<V>: Sized { spec fn pi_post(self, r: V) -> bool; fn x_port_into(self) -> (r: V) ensures self.pi_post(r); }
impl<V: XFromU16> XPortInto<V> for u16 { open spec fn pi_post(self, r: V) -> bool { V::u16_post(self, r) } fn x_port_into(self) -> (r: V) { V::x_from_u16(self) } }
macro_rules! int_into_u16 { ($($t:ident)*) => { verus! { $(
    impl XTryInto<u16, TryFromIntError> for $t {
        open spec fn x_try_post(self, r: Result<u16, TryFromIntError>) -> bool { (r is Ok <==> 0 <= self <= 65535) && (r matches Ok(n) ==> n == self) }
        #[verifier::external_body] fn x_try_into(self) -> (r: Result<u16, TryFromIntError>) { self.try_into() }
    } )* } } }
int_into_u16!(i8 i16 i32 i64 i128 u32 u64 u128);
impl XInto<u16> for u8 { open spec fn x_into_post(self, u: u16) -> bool { u == self } fn x_into(self) -> (u: u16) { self as u16 } }
/// the outcome of reading a text agrees with what parsing it may give
pub open spec fn parsed_port<T: XFromStr>(s: Seq<char>, r: Result<T, XErr>) -> bool {
    match r { Ok(v) => exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && q == Ok::<T, T::E>(v), Err(_) => exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && q is Err }
}
pub open spec fn int_port<T: XFromU16>(n: int, r: Result<T, XErr>) -> bool { if 0 <= n <= 65535 { r matches Ok(v) && T::u16_post(n as u16, v) } else { r is Err } }
/// a text holds what it parses to, an integer that fits in 16 bits the port; everything else is refused
pub open spec fn port_doc<T: XFromStr + XFromU16>(n: XAnyNode, r: Result<T, XErr>) -> bool {
    match n { XAnyNode::Text(s) => parsed_port::<T>(s, r), XAnyNode::Int(n) => int_port::<T>(n, r), XAnyNode::Other => r is Err }
}
//@type src/serde.rs :: FromStrOrU16Visitor
//@fn src/serde.rs :: FromStrOrU16Visitor::new
    ensures true
//@end
//@fn src/serde.rs :: <Visitor for FromStrOrU16Visitor<V>>::visit_u16 | subst=E:XErr | meth=into:x_port_into | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn src/serde.rs :: <Visitor for FromStrOrU16Visitor<V>>::visit_u8 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn src/serde.rs :: <Visitor for FromStrOrU16Visitor<V>>::visit_str | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures parsed_port::<V>(v@, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_i8 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_i16 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_i32 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_i64 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_i128 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_u32 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_u64 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn expanded :: serde::<Visitor for FromStrOrU16Visitor<V>>::visit_u128 | subst=E:XErr | retty=Result<V, XErr> | self=FromStrOrU16Visitor<V> | noimplgen | gen=<V: XFromStr + XFromU16>
    ensures int_port::<V>(v as int, r)
//@end
//@fn src/serde.rs :: FromStrOrU16Visitor::deserialize | subst=D:XAnyDe | retty=Result<V, XErr> | noimplgen | gen=<V: XFromStr + XFromU16> | self=FromStrOrU16Visitor<V>
    ensures port_doc::<V>(deserializer.node(), r)
//@end
