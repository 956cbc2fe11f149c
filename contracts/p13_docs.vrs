//@include prelude.vrs
verus! {
//@rename _serde::de::Error::custom => x_error_custom
//@rename _serde::__private::TryFrom::try_from => x_try_from
//@rename _serde::__private::Clone::clone => x_copy
//@rename _serde::__private::Into::<u8>::into => x_into_num
//@rename _serde::__private::Into::<i16>::into => x_into_num
//@rename _serde::__private::Into::<f64>::into => x_into_num
//@rename _serde::Serialize::serialize => x_ser_num
//@rename <u8 as _serde::Deserialize>::deserialize => <u8 as XNum>::x_deserialize
//@rename <i16 as _serde::Deserialize>::deserialize => <i16 as XNum>::x_deserialize
//@include std_more.inc
//@include f64.inc
//@include num_doc.inc
// ------------------------------------------------------------ percentages, scores and CPU amounts are the numbers they hold
//@type src/service.rs :: RangeError | derive=Clone, Copy
//@type src/service.rs :: Percent | derive=Clone, Copy
//@type src/service.rs :: OomScoreAdj | derive=Clone, Copy
impl Percent { pub closed spec fn num(&self) -> u8 { self.0 } }
impl OomScoreAdj { pub closed spec fn num(&self) -> i16 { self.0 } }
impl XInto<i64> for u8 { open spec fn x_into_post(self, u: i64) -> bool { u == self } fn x_into(self) -> (u: i64) { self as i64 } }
impl XInto<i64> for i16 { open spec fn x_into_post(self, u: i64) -> bool { u == self } fn x_into(self) -> (u: i64) { self as i64 } }
pub open spec fn percent_post(n: u8, r: Result<Percent, RangeError>) -> bool { (r is Ok <==> n <= 100) && (r matches Ok(p) ==> p.num() == n) }
pub open spec fn oom_post(n: i16, r: Result<OomScoreAdj, RangeError>) -> bool { (r is Ok <==> -1000 <= n <= 1000) && (r matches Ok(p) ==> p.num() == n) }
//@fn src/service.rs :: Percent::new
    ensures percent_post(percent, r)
//@end
//@fn src/service.rs :: OomScoreAdj::new
    ensures oom_post(oom_score_adj, r)
//@end
//@fn src/service.rs :: Percent::into_inner
    ensures r == self.num()
//@end
//@fn src/service.rs :: <TryFrom<u8> for Percent>::try_from | as=percent_try_from | retty=Result<Self, RangeError>
    ensures percent_post(value, r)
//@end
//@fn src/service.rs :: <TryFrom<i16> for OomScoreAdj>::try_from | as=oom_try_from | retty=Result<Self, RangeError>
    ensures oom_post(value, r)
//@end
//@fn src/service.rs :: <From<Percent> for u8>::from | as=u8_from_percent | free | retty=u8
    ensures r == value.num()
//@end
//@fn src/service.rs :: <From<OomScoreAdj> for i16>::from | as=i16_from_oom | free | retty=i16
    ensures r == value.num()
//@end
//@fn src/service/deploy/resources.rs :: Cpus::into_inner
    ensures r == self.num()
//@end
//@fn src/service/deploy/resources.rs :: <From<Cpus> for f64>::from | as=f64_from_cpus | free | retty=f64
    ensures r == value.num()
//@end
impl XTryInto<Percent, RangeError> for u8 { open spec fn x_try_post(self, r: Result<Percent, RangeError>) -> bool { percent_post(self, r) } fn x_try_into(self) -> (r: Result<Percent, RangeError>) { Percent::percent_try_from(self) } }
impl XTryInto<OomScoreAdj, RangeError> for i16 { open spec fn x_try_post(self, r: Result<OomScoreAdj, RangeError>) -> bool { oom_post(self, r) } fn x_try_into(self) -> (r: Result<OomScoreAdj, RangeError>) { OomScoreAdj::oom_try_from(self) } }
impl XInto<u8> for Percent { open spec fn x_into_post(self, u: u8) -> bool { u == self.num() } fn x_into(self) -> (u: u8) { u8_from_percent(self) } }
impl XInto<i16> for OomScoreAdj { open spec fn x_into_post(self, u: i16) -> bool { u == self.num() } fn x_into(self) -> (u: i16) { i16_from_oom(self) } }
impl XInto<f64> for Cpus { open spec fn x_into_post(self, u: f64) -> bool { u == self.num() } fn x_into(self) -> (u: f64) { f64_from_cpus(self) } }
//@fn expanded :: service::<Serialize for Percent>::serialize | subst=__S:XNumSer | retty=Result<XNumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XNumNode::Int(self.num() as int)
//@end
//@fn expanded :: service::<Serialize for OomScoreAdj>::serialize | subst=__S:XNumSer | retty=Result<XNumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XNumNode::Int(self.num() as int)
//@end
//@fn expanded :: service::deploy::resources::<Serialize for Cpus>::serialize | subst=__S:XNumSer | retty=Result<XNumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XNumNode::F(self.num())
//@end
/// exactly the integers of the range are read
//@fn expanded :: service::<Deserialize for Percent>::deserialize | subst=__D:XNumDe | retty=Result<Self, XErr>
    ensures match __deserializer@ { XNumNode::Int(n) => if 0 <= n <= 100 { r matches Ok(p) && p.num() == n } else { r is Err }, _ => r is Err }
//@end
//@fn expanded :: service::<Deserialize for OomScoreAdj>::deserialize | subst=__D:XNumDe | retty=Result<Self, XErr>
    ensures match __deserializer@ { XNumNode::Int(n) => if -1000 <= n <= 1000 { r matches Ok(p) && p.num() == n } else { r is Err }, _ => r is Err }
//@end
} // verus!
fn main() {}
