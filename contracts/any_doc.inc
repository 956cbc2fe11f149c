// ------------------------------------------------------------ any document handed to a visitor (trusted model of serde: `deserialize_any` calls the method for the kind of value)
//@method into_deserializer => x_into_de
//@rename serde::de::IntoDeserializer::into_deserializer => XIntoDe::x_into_de
//@rename serde::Deserialize::deserialize => XDes::x_deserialize
//@rename S::deserialize => S::x_deserialize
//@rename L::deserialize => L::x_deserialize
//@rename I::deserialize => I::x_deserialize
//@rename <I>::deserialize => I::x_deserialize
//@rename <S>::deserialize => S::x_deserialize
//@rename <T>::deserialize => T::x_deserialize
//@rename T::deserialize => T::x_deserialize
//@rename BorrowedStrDeserializer::new => x_borrowed_de
//@rename BorrowedBytesDeserializer::new => x_borrowed_bytes_de
//@rename UnitDeserializer::new => x_unit_de
//@rename EnumAccessDeserializer::new => x_enum_de
//@rename MapAccessDeserializer::new => x_map_de
use std::marker::PhantomData;
pub uninterp spec fn scalar_code<T>(v: T) -> int;
pub uninterp spec fn enum_code(e: XEnumAccess) -> int;
#[verifier::external_body] pub struct XEnumAccess { s: String }
pub trait XIntoDe: Sized { spec fn as_node(self) -> XNode; fn x_into_de(self) -> (r: XDe) ensures r@ == self.as_node(); }
impl XIntoDe for bool { open spec fn as_node(self) -> XNode { XNode::Bool(self) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for char { open spec fn as_node(self) -> XNode { XNode::Text(seq![self]) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl<'a> XIntoDe for &'a str { open spec fn as_node(self) -> XNode { XNode::Text(self@) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for String { open spec fn as_node(self) -> XNode { XNode::Text(self@) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl<'a> XIntoDe for &'a [u8] { open spec fn as_node(self) -> XNode { XNode::Scalar(scalar_code(self@)) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for Vec<u8> { open spec fn as_node(self) -> XNode { XNode::Scalar(scalar_code(self@)) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for f32 { open spec fn as_node(self) -> XNode { XNode::Scalar(scalar_code(self)) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for f64 { open spec fn as_node(self) -> XNode { XNode::Scalar(scalar_code(self)) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for i8 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for i16 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for i32 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for i64 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for i128 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for u8 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for u16 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for u32 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for u64 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for u128 { open spec fn as_node(self) -> XNode { XNode::Int(self as int) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
#[verifier::external_body] pub fn x_borrowed_de(s: &str) -> (r: XDe) ensures r@ == XNode::Text(s@) { unimplemented!() }
#[verifier::external_body] pub fn x_borrowed_bytes_de(s: &[u8]) -> (r: XDe) ensures r@ == s.as_node() { unimplemented!() }
#[verifier::external_body] pub fn x_unit_de() -> (r: XDe) ensures r@ == XNode::Null { unimplemented!() }
#[verifier::external_body] pub fn x_enum_de(e: XEnumAccess) -> (r: XDe) ensures r@ == XNode::Tagged(enum_code(e)) { unimplemented!() }
#[verifier::external_body] pub fn x_map_de(m: XMapAccess) -> (r: XDe) requires m.pending() is None ensures r@ == XNode::Map(m.rest()) { unimplemented!() }
/// a visitor: what its method for a value makes of the value
pub trait XAnyVisitor: Sized { type Value; spec fn any_post(n: XNode, r: Result<Self::Value, XErr>) -> bool; }
pub trait XVisitBool: XAnyVisitor { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Bool(v), r); }
pub trait XVisitI8: XAnyVisitor { fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitI16: XAnyVisitor { fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitI32: XAnyVisitor { fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitI64: XAnyVisitor { fn visit_i64(self, v: i64) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitI128: XAnyVisitor { fn visit_i128(self, v: i128) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitU8: XAnyVisitor { fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitU16: XAnyVisitor { fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitU32: XAnyVisitor { fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitU64: XAnyVisitor { fn visit_u64(self, v: u64) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitU128: XAnyVisitor { fn visit_u128(self, v: u128) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Int(v as int), r); }
pub trait XVisitF32: XAnyVisitor { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v.as_node(), r); }
pub trait XVisitF64: XAnyVisitor { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v.as_node(), r); }
pub trait XVisitChar: XAnyVisitor { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Text(seq![v]), r); }
pub trait XVisitStr: XAnyVisitor { fn visit_str(self, v: &str) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Text(v@), r); }
pub trait XVisitString: XAnyVisitor { fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Text(v@), r); }
pub trait XVisitBorrowedStr: XAnyVisitor { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Text(v@), r); }
pub trait XVisitBytes: XAnyVisitor { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v.as_node(), r); }
pub trait XVisitByteBuf: XAnyVisitor { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v.as_node(), r); }
pub trait XVisitBorrowedBytes: XAnyVisitor { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v.as_node(), r); }
pub trait XVisitNone: XAnyVisitor { fn visit_none(self) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Null, r); }
pub trait XVisitUnit: XAnyVisitor { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Null, r); }
pub trait XVisitSome: XAnyVisitor { fn visit_some(self, v: XDe) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v@, r); }
pub trait XVisitNewtypeStruct: XAnyVisitor { fn visit_newtype_struct(self, v: XDe) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(v@, r); }
pub trait XVisitSeq: XAnyVisitor { fn visit_seq(self, v: XSeqAccess) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::List(v.rest()), r); }
pub trait XVisitMap: XAnyVisitor { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) requires v.pending() is None ensures Self::any_post(XNode::Map(v.rest()), r); }
pub trait XVisitEnum: XAnyVisitor { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) ensures Self::any_post(XNode::Tagged(enum_code(v)), r); }
pub enum XAny { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64), Char(char), Str(String), String(String), BorrowedStr(String), Bytes(Vec<u8>), ByteBuf(Vec<u8>), BorrowedBytes(Vec<u8>), None, Unit, Seq(XSeqAccess), Map(XMapAccess), Enum(XEnumAccess) }
impl XAny { pub open spec fn node(self) -> XNode { match self { XAny::Bool(v) => XNode::Bool(v), XAny::I8(v) => XNode::Int(v as int), XAny::I16(v) => XNode::Int(v as int), XAny::I32(v) => XNode::Int(v as int), XAny::I64(v) => XNode::Int(v as int), XAny::I128(v) => XNode::Int(v as int), XAny::U8(v) => XNode::Int(v as int), XAny::U16(v) => XNode::Int(v as int), XAny::U32(v) => XNode::Int(v as int), XAny::U64(v) => XNode::Int(v as int), XAny::U128(v) => XNode::Int(v as int), XAny::F32(v) => v.as_node(), XAny::F64(v) => v.as_node(), XAny::Char(v) => XNode::Text(seq![v]), XAny::Str(v) => XNode::Text(v@), XAny::String(v) => XNode::Text(v@), XAny::BorrowedStr(v) => XNode::Text(v@), XAny::Bytes(v) => XNode::Scalar(scalar_code(v@)), XAny::ByteBuf(v) => XNode::Scalar(scalar_code(v@)), XAny::BorrowedBytes(v) => XNode::Scalar(scalar_code(v@)), XAny::None => XNode::Null, XAny::Unit => XNode::Null, XAny::Seq(v) => XNode::List(v.rest()), XAny::Map(v) => XNode::Map(v.rest()), XAny::Enum(v) => XNode::Tagged(enum_code(v)) } } }
/// what a format hands over of a document (trusted; `deserialize_any` of YAML and JSON never calls `visit_some` or `visit_newtype_struct`)
impl XDe { #[verifier::external_body] pub fn x_open(self) -> (r: XAny) ensures r.node() == self@, r matches XAny::Map(m) ==> m.pending() is None { unimplemented!() } }
pub trait XVisitor: XVisitBool + XVisitI8 + XVisitI16 + XVisitI32 + XVisitI64 + XVisitI128 + XVisitU8 + XVisitU16 + XVisitU32 + XVisitU64 + XVisitU128 + XVisitF32 + XVisitF64 + XVisitChar + XVisitStr + XVisitString + XVisitBorrowedStr + XVisitBytes + XVisitByteBuf + XVisitBorrowedBytes + XVisitNone + XVisitUnit + XVisitSeq + XVisitMap + XVisitEnum { }
impl XDe { pub fn deserialize_any<V: XVisitor>(self, v: V) -> (r: Result<V::Value, XErr>) ensures V::any_post(self@, r) { match self.x_open() { XAny::Bool(x) => v.visit_bool(x), XAny::I8(x) => v.visit_i8(x), XAny::I16(x) => v.visit_i16(x), XAny::I32(x) => v.visit_i32(x), XAny::I64(x) => v.visit_i64(x), XAny::I128(x) => v.visit_i128(x), XAny::U8(x) => v.visit_u8(x), XAny::U16(x) => v.visit_u16(x), XAny::U32(x) => v.visit_u32(x), XAny::U64(x) => v.visit_u64(x), XAny::U128(x) => v.visit_u128(x), XAny::F32(x) => v.visit_f32(x), XAny::F64(x) => v.visit_f64(x), XAny::Char(x) => v.visit_char(x), XAny::Str(x) => v.visit_str(x.as_str()), XAny::String(x) => v.visit_string(x), XAny::BorrowedStr(x) => v.visit_borrowed_str(x.as_str()), XAny::Bytes(x) => v.visit_bytes(x.as_slice()), XAny::ByteBuf(x) => v.visit_byte_buf(x), XAny::BorrowedBytes(x) => v.visit_borrowed_bytes(x.as_slice()), XAny::None => v.visit_none(), XAny::Unit => v.visit_unit(), XAny::Seq(x) => v.visit_seq(x), XAny::Map(x) => v.visit_map(x), XAny::Enum(x) => v.visit_enum(x) } } }
