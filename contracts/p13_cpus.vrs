//@include prelude.vrs
verus! {
//@rename E::custom => x_error_custom
//@method parse => x_parse
use std::convert::Infallible;
//@include std_more.inc
//@include f64.inc
pub fn x_error_custom<T>(t: T) -> XErr { XErr }
// CPU amounts: every conversion gives what `new` gives for the number, and every document form what the number gives.
impl XInto<f64> for f32 { uninterp spec fn x_into_post(self, u: f64) -> bool; #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
impl XInto<f64> for i8 { open spec fn x_into_post(self, u: f64) -> bool { u == of_int(self as int) } #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
impl XInto<f64> for i16 { open spec fn x_into_post(self, u: f64) -> bool { u == of_int(self as int) } #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
/// std's conversions between numbers that cannot fail
macro_rules! int_into_f64 { ($($t:ident)*) => { verus! { $(
    impl XTryInto<f64, Infallible> for $t {
        open spec fn x_try_post(self, r: Result<f64, Infallible>) -> bool { r == Ok::<f64, Infallible>(of_int(self as int)) }
        #[verifier::external_body] fn x_try_into(self) -> (r: Result<f64, Infallible>) { self.try_into() }
    } )* } } }
int_into_f64!(i8 i16 i32);
/// what std's `f64` reads from a text (trusted)
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
pub struct XParseFloatError;
impl XFromStr for f64 {
    type E = XParseFloatError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<f64, XParseFloatError>) -> bool { match r { Ok(f) => f64_of(s) == Some(f), Err(_) => f64_of(s) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<f64, XParseFloatError>) { unimplemented!() }
}
pub open spec fn made<T: XInto<f64>>(t: T, r: Result<Cpus, InvalidCpusError>) -> bool { exists|f: f64| #[trigger] t.x_into_post(f) && cpus_post(f, r) }
//@fn src/service/deploy/resources.rs :: Cpus::new | as=new<T: XInto<f64>> | subst=T:T | keepgen
    ensures made(cpus, r)
//@end
//@fn expanded :: service::deploy::resources::<TryFrom<f32> for Cpus>::try_from | as=try_from_f32 | retty=Result<Self, InvalidCpusError>
    ensures made(value, r)
//@end
//@fn expanded :: service::deploy::resources::<TryFrom<f64> for Cpus>::try_from | as=try_from_f64 | retty=Result<Self, InvalidCpusError>
    ensures made(value, r), cpus_post(value, r)
//@end
//@fn expanded :: service::deploy::resources::<TryFrom<i8> for Cpus>::try_from | as=try_from_i8 | retty=Result<Self, InvalidCpusError>
    ensures made(value, r), cpus_post(of_int(value as int), r)
//@end
//@fn expanded :: service::deploy::resources::<TryFrom<i16> for Cpus>::try_from | as=try_from_i16 | retty=Result<Self, InvalidCpusError>
    ensures made(value, r), cpus_post(of_int(value as int), r)
//@end
//@fn expanded :: service::deploy::resources::<TryFrom<i32> for Cpus>::try_from | as=try_from_i32 | retty=Result<Self, InvalidCpusError>
    ensures made(value, r), cpus_post(of_int(value as int), r)
//@end
//@fn src/service/deploy/resources.rs :: <From<u32> for Cpus>::from | as=cpus_from_u32
    ensures r.wf(), r.num() == of_int(value as int)
//@proof start
    broadcast use axiom_of_int;
//@end
impl XTryInto<Cpus, InvalidCpusError> for f64 {
    open spec fn x_try_post(self, r: Result<Cpus, InvalidCpusError>) -> bool { cpus_post(self, r) }
    fn x_try_into(self) -> (r: Result<Cpus, InvalidCpusError>) { Cpus::try_from_f64(self) }
}
impl XInto<Cpus> for u32 {
    open spec fn x_into_post(self, u: Cpus) -> bool { u.wf() && u.num() == of_int(self as int) }
    fn x_into(self) -> (u: Cpus) { Cpus::cpus_from_u32(self) }
}
impl XInto<u32> for u16 { open spec fn x_into_post(self, u: u32) -> bool { u == self } fn x_into(self) -> (u: u32) { self as u32 } }
impl XInto<u32> for u8 { open spec fn x_into_post(self, u: u32) -> bool { u == self } fn x_into(self) -> (u: u32) { self as u32 } }
pub open spec fn cpus_de(n: f64, r: Result<Cpus, XErr>) -> bool { (r is Ok <==> fpos(n) && ffin(n)) && (r matches Ok(p) ==> p.wf() && p.num() == n) }
//@type src/service/deploy/resources.rs :: CpusVisitor
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_f64 | subst=E:XErr
    ensures cpus_de(v, r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_u64 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_i64 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_u32 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_u16 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_u8 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_i8 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_i16 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn expanded :: service::deploy::resources::<Visitor for CpusVisitor>::visit_i32 | subst=E:XErr
    ensures cpus_de(of_int(v as int), r)
//@end
//@fn src/service/deploy/resources.rs :: <Visitor for CpusVisitor>::visit_str | subst=E:XErr
    ensures match f64_of(v@) { Some(f) => cpus_de(f, r), None => r is Err }
//@end
// ------------------------------------------------------------ documents (trusted model of serde: `deserialize_any` calls the visitor's method for the kind of scalar)
pub enum XNumDe { U64(u64), I64(i64), F64(f64), Text(String), Other }
impl XNumDe {
    pub fn deserialize_any(self, v: CpusVisitor) -> (r: Result<Cpus, XErr>) ensures cpus_doc(self, r) {
        match self { XNumDe::U64(n) => v.visit_u64(n), XNumDe::I64(n) => v.visit_i64(n), XNumDe::F64(f) => v.visit_f64(f), XNumDe::Text(s) => v.visit_str(s.as_str()), XNumDe::Other => Err(XErr) }
    }
}
/// a number holds itself, a text the number it spells; everything else is refused
pub open spec fn cpus_doc(d: XNumDe, r: Result<Cpus, XErr>) -> bool {
    match d {
        XNumDe::U64(n) => cpus_de(of_int(n as int), r), XNumDe::I64(n) => cpus_de(of_int(n as int), r), XNumDe::F64(f) => cpus_de(f, r),
        XNumDe::Text(s) => match f64_of(s@) { Some(f) => cpus_de(f, r), None => r is Err },
        XNumDe::Other => r is Err,
    }
}
//@fn src/service/deploy/resources.rs :: <Deserialize for Cpus>::deserialize | subst=D:XNumDe | retty=Result<Self, XErr>
    ensures cpus_doc(deserializer, r)
//@end
} // verus!
fn main() {}
