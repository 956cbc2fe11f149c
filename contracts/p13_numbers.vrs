//@include prelude.vrs
verus! {
//@rename NonZeroU16 => XNonZeroU16
//@rename _serde::de::Error::custom => x_error_custom
//@rename _serde::__private::TryFrom::try_from => x_try_from
//@rename _serde::__private::Clone::clone => x_copy
//@rename _serde::__private::Into::<u16>::into => x_into_num
//@rename _serde::Serialize::serialize => x_ser_num
//@rename <u16 as _serde::Deserialize>::deserialize => <u16 as XNum>::x_deserialize
//@method fmt => x_fmt
//@method into_deserializer => x_into_de
//@rename E::invalid_value => x_invalid_value
//@rename Unexpected::Signed => x_signed
//@rename T::deserialize => T::x_deserialize
//@rename E::custom => x_error_chain
//@include std_more.inc
// ------------------------------------------------------------ std numbers (trusted)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct XNonZeroU16 { v: u16 }
use core::num::TryFromIntError;
impl XNonZeroU16 {
    pub uninterp spec fn num(&self) -> u16;
    #[verifier::external_body]
    pub fn get(self) -> (r: u16) ensures r == self.num(), r != 0 { unimplemented!() }
}
impl XTryInto<XNonZeroU16, TryFromIntError> for u16 {
    open spec fn x_try_post(self, r: Result<XNonZeroU16, TryFromIntError>) -> bool { (r is Ok <==> self != 0) && (r matches Ok(n) ==> n.num() == self) }
    #[verifier::external_body]
    fn x_try_into(self) -> (r: Result<XNonZeroU16, TryFromIntError>) { unimplemented!() }
}
/// std's `Infallible` has no values; that none occurs is part of the contracts below
pub struct Infallible;
impl XTryInto<XNonZeroU16, Infallible> for XNonZeroU16 {
    open spec fn x_try_post(self, r: Result<XNonZeroU16, Infallible>) -> bool { r == Ok::<XNonZeroU16, Infallible>(self) }
    fn x_try_into(self) -> (r: Result<XNonZeroU16, Infallible>) { Ok(self) }
}
impl XInto<u16> for XNonZeroU16 {
    open spec fn x_into_post(self, u: u16) -> bool { u == self.num() }
    fn x_into(self) -> (u: u16) { self.get() }
}
impl XInto<i64> for u8 { open spec fn x_into_post(self, u: i64) -> bool { u == self } fn x_into(self) -> (u: i64) { self as i64 } }
impl XInto<i64> for i16 { open spec fn x_into_post(self, u: i64) -> bool { u == self } fn x_into(self) -> (u: i64) { self as i64 } }
// ------------------------------------------------------------ percentages and scores
//@type src/service.rs :: Percent | derive=Clone, Copy
//@type src/service.rs :: OomScoreAdj | derive=Clone, Copy
//@type src/service.rs :: RangeError | derive=Clone, Copy
impl Percent { pub closed spec fn num(&self) -> u8 { self.0 } pub open spec fn wf(&self) -> bool { self.num() <= 100 } }
impl OomScoreAdj { pub closed spec fn num(&self) -> i16 { self.0 } pub open spec fn wf(&self) -> bool { -1000 <= self.num() <= 1000 } }
pub open spec fn percent_post(n: u8, r: Result<Percent, RangeError>) -> bool { (r is Ok <==> n <= 100) && (r matches Ok(p) ==> p.wf() && p.num() == n) }
pub open spec fn oom_post(n: i16, r: Result<OomScoreAdj, RangeError>) -> bool { (r is Ok <==> -1000 <= n <= 1000) && (r matches Ok(p) ==> p.wf() && p.num() == n) }
//@fn src/service.rs :: Percent::new
    ensures percent_post(percent, r)
//@end
//@fn src/service.rs :: Percent::into_inner
    ensures r == self.num()
//@end
//@fn src/service.rs :: <TryFrom<u8> for Percent>::try_from | as=percent_try_from | retty=Result<Self, RangeError>
    ensures percent_post(value, r)
//@end
//@fn src/service.rs :: <From<Percent> for u8>::from | as=u8_from_percent | free | retty=u8
    ensures r == value.num()
//@end
//@fn src/service.rs :: OomScoreAdj::new
    ensures oom_post(oom_score_adj, r)
//@end
//@fn src/service.rs :: <TryFrom<i16> for OomScoreAdj>::try_from | as=oom_try_from | retty=Result<Self, RangeError>
    ensures oom_post(value, r)
//@end
//@fn src/service.rs :: <From<OomScoreAdj> for i16>::from | as=i16_from_oom | free | retty=i16
    ensures r == value.num()
//@end
// ------------------------------------------------------------ block IO weights
//@type src/service/blkio_config.rs :: Weight | derive=Clone, Copy
//@type src/service/blkio_config.rs :: WeightRangeError | derive=Clone, Copy
impl Weight { pub closed spec fn num(&self) -> u16 { self.0.num() } pub open spec fn wf(&self) -> bool { 10 <= self.num() <= 1000 } }
pub open spec fn weight_post(n: u16, r: Result<Weight, WeightRangeError>) -> bool { (r is Ok <==> 10 <= n <= 1000) && (r matches Ok(p) ==> p.wf() && p.num() == n) }
// `From<TryFromIntError>` is derived (`#[from]` on an optional source); `From<Infallible>` has no cases
impl From<TryFromIntError> for WeightRangeError { #[verifier::external_body] fn from(e: TryFromIntError) -> WeightRangeError { unimplemented!() } }
impl From<Infallible> for WeightRangeError { #[verifier::external_body] fn from(e: Infallible) -> WeightRangeError { unimplemented!() } }
//@fn src/service/blkio_config.rs :: Weight::new | as=new | subst=T:u16
    ensures weight_post(weight, r)
//@end
//@fn src/service/blkio_config.rs :: Weight::new | as=new_nonzero | subst=T:NonZeroU16
    ensures weight_post(weight.num(), r)
//@end
//@fn src/service/blkio_config.rs :: Weight::into_inner
    ensures r.num() == self.num()
//@end
//@fn src/service/blkio_config.rs :: <TryFrom<u16> for Weight>::try_from | as=weight_try_from | retty=Result<Self, WeightRangeError>
    ensures weight_post(value, r)
//@end
//@fn src/service/blkio_config.rs :: <From<Weight> for NonZeroU16>::from | as=nonzero_from_weight | free | retty=XNonZeroU16
    ensures r.num() == value.num()
//@end
//@fn src/service/blkio_config.rs :: <From<Weight> for u16>::from | as=u16_from_weight | free | retty=u16
    ensures r == value.num()
//@end
// documents: the number
//@include num_doc.inc
impl XTryInto<Weight, WeightRangeError> for u16 { open spec fn x_try_post(self, r: Result<Weight, WeightRangeError>) -> bool { weight_post(self, r) } fn x_try_into(self) -> (r: Result<Weight, WeightRangeError>) { Weight::weight_try_from(self) } }
impl XInto<u16> for Weight { open spec fn x_into_post(self, u: u16) -> bool { u == self.num() } fn x_into(self) -> (u: u16) { u16_from_weight(self) } }
//@fn expanded :: service::blkio_config::<Serialize for Weight>::serialize | subst=__S:XNumSer | retty=Result<XNumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XNumNode::Int(self.num() as int)
//@end
/// exactly the integers of the range are read
//@fn expanded :: service::blkio_config::<Deserialize for Weight>::deserialize | subst=__D:XNumDe | retty=Result<Self, XErr>
    ensures match __deserializer@ { XNumNode::Int(n) => if 10 <= n <= 1000 { r matches Ok(p) && p.num() == n } else { r is Err }, _ => r is Err }
//@end
// ------------------------------------------------------------ limits
//@type src/service/limit.rs :: Limit
/// what is limited is P02's
#[verifier::external_body]
pub struct ByteValue { x: u8 }
//@fn src/service/limit.rs :: <FromStr for Limit<T>>::from_str | trait=XFromStr | gen=<T: XFromStr> | retty=Result<Self, T::E> | as=x_from_str | extra=type E = T::E; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { limit_post(s, r) }
//@end
//@fn src/service/limit.rs :: <Display for Limit<T>>::fmt | trait=XDisplay | gen=<T: XDisplay> | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { match *self { Limit::Value(v) => v.x_disp(), Limit::Unlimited => MINUS_ONE() } }
//@end
pub open spec fn MINUS_ONE() -> Seq<char> { seq!['-', '1'] }
/// `-1` or what the inner type reads
pub open spec fn limit_post<T: XFromStr>(s: Seq<char>, r: Result<Limit<T>, T::E>) -> bool {
    if s == MINUS_ONE() { r == Ok::<Limit<T>, T::E>(Limit::Unlimited) }
    else { match r { Ok(Limit::Value(v)) => T::x_parse_post(s, Ok(v)), Ok(Limit::Unlimited) => false, Err(e) => T::x_parse_post(s, Err(e)) } }
}
//@fn src/service/limit.rs :: <From<u32> for Limit<u32>>::from | as=limit_from_u32
    ensures r == Limit::Value(value)
//@end
//@fn src/service/limit.rs :: <From<ByteValue> for Limit<ByteValue>>::from | as=limit_from_bytes
    ensures r == Limit::Value(value)
//@end
//@fn src/service/limit.rs :: <From<u64> for Limit<u64>>::from | as=limit_from_u64
    ensures r == Limit::Value(value)
//@end
/// what a document offers: a whole number or a text
pub enum DeView { Num(u64), Text(Seq<char>) }
pub trait XIntoDe: Sized { spec fn dv(self) -> DeView; fn x_into_de(self) -> (r: XDe) ensures r@ == self.dv(); }
#[verifier::external_body]
pub struct XDe { s: String }
impl View for XDe { type V = DeView; uninterp spec fn view(&self) -> DeView; }
impl XIntoDe for u64 { open spec fn dv(self) -> DeView { DeView::Num(self) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for &str { open spec fn dv(self) -> DeView { DeView::Text(self@) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
impl XIntoDe for String { open spec fn dv(self) -> DeView { DeView::Text(self@) } #[verifier::external_body] fn x_into_de(self) -> (r: XDe) { unimplemented!() } }
/// `Deserialize` of the inner type, whatever it is
pub trait XDeserialize: Sized {
    spec fn de_post(d: DeView, r: Result<Self, XErr>) -> bool;
    fn x_deserialize(d: XDe) -> (r: Result<Self, XErr>) ensures Self::de_post(d@, r);
}
pub assume_specification [i64::unsigned_abs] (v: i64) -> (r: u64) ensures r == if v >= 0 { v as int } else { -v };
pub struct XUnexpected;
pub fn x_signed(v: i64) -> (r: XUnexpected) { XUnexpected }
pub fn x_invalid_value(u: XUnexpected, e: &str) -> (r: XErr) { XErr }
pub open spec fn limit_de<T: XDeserialize>(d: DeView, r: Result<Limit<T>, XErr>) -> bool {
    if d matches DeView::Text(s) && s == MINUS_ONE() { r == Ok::<Limit<T>, XErr>(Limit::Unlimited) }
    else { match r { Ok(Limit::Value(v)) => T::de_post(d, Ok(v)), Ok(Limit::Unlimited) => false, Err(e) => T::de_post(d, Err(e)) } }
}
pub struct XLimitVisitor<T> { pub value: core::marker::PhantomData<T> }
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_u64 | as=visit_u64 | subst=E:XErr | self=XLimitVisitor<T> | noimplgen | gen=<T: XDeserialize> | retty=Result<Limit<T>, XErr>
    ensures limit_de(DeView::Num(v), r)
//@end
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_i64 | as=visit_i64 | subst=E:XErr | self=XLimitVisitor<T> | noimplgen | gen=<T: XDeserialize> | retty=Result<Limit<T>, XErr>
    ensures v < -1 ==> r is Err, v == -1 ==> r == Ok::<Limit<T>, XErr>(Limit::Unlimited), v >= 0 ==> limit_de(DeView::Num(v as u64), r)
//@end
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_str | as=visit_str | subst=E:XErr | self=XLimitVisitor<T> | noimplgen | gen=<T: XDeserialize> | retty=Result<Limit<T>, XErr>
    ensures limit_de(DeView::Text(v@), r)
//@end
//@fn src/service/limit.rs :: <Visitor for Visitor<T>>::visit_string | as=visit_string | subst=E:XErr | self=XLimitVisitor<T> | noimplgen | gen=<T: XDeserialize> | retty=Result<Limit<T>, XErr>
    ensures limit_de(DeView::Text(v@), r)
//@end
/// a printed limit reads back
pub proof fn theorem_limit_u64(l: Limit<u64>, r: Result<Limit<u64>, <u64 as XFromStr>::E>)
    requires limit_post(l.x_disp(), r),
    ensures r == Ok::<Limit<u64>, <u64 as XFromStr>::E>(l)
{
    if l is Value { let n = l->Value_0; lemma_dec(n as nat); let t = dec(n as nat); assert(spec_is_ascii_digit(t[0])); assert(t != MINUS_ONE()); assert(uint_digits(t) == t); }
}
pub proof fn theorem_limit_u32(l: Limit<u32>, r: Result<Limit<u32>, <u32 as XFromStr>::E>)
    requires limit_post(l.x_disp(), r),
    ensures r == Ok::<Limit<u32>, <u32 as XFromStr>::E>(l)
{
    if l is Value { let n = l->Value_0; lemma_dec(n as nat); let t = dec(n as nat); assert(spec_is_ascii_digit(t[0])); assert(t != MINUS_ONE()); assert(uint_digits(t) == t); }
}
} // verus!
fn main() {}
