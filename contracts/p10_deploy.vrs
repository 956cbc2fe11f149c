//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@include std_more.inc
//@include to_string.inc
//@include text_doc.inc
//@include cow.inc
//@type src/service/deploy/endpoint_mode.rs :: EndpointMode
pub open spec fn ENDPOINTMODE_VIP() -> Seq<char> { seq!['v', 'i', 'p'] }
pub open spec fn ENDPOINTMODE_DNSRR() -> Seq<char> { seq!['d', 'n', 's', 'r', 'r'] }
pub open spec fn em_text(v: EndpointMode) -> Seq<char> { match v { EndpointMode::VIp => ENDPOINTMODE_VIP(), EndpointMode::DnsRR => ENDPOINTMODE_DNSRR(), EndpointMode::Other(o) => o@ } }
/// the one variant a text selects
pub open spec fn em_wf(v: EndpointMode) -> bool { v matches EndpointMode::Other(o) ==> o@ != ENDPOINTMODE_VIP() && o@ != ENDPOINTMODE_DNSRR() }
//@fn src/service/deploy/endpoint_mode.rs :: EndpointMode::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures em_wf(r), em_text(r) == endpoint_mode.asv()
//@proof start
    proof { x_arg_law(endpoint_mode); }
//@end
impl XInto<EndpointMode> for &str {
    open spec fn x_into_post(self, u: EndpointMode) -> bool { em_wf(u) && em_text(u) == self@ }
    fn x_into(self) -> (u: EndpointMode) { EndpointMode::parse(self) }
}
//@fn src/service/deploy/endpoint_mode.rs :: EndpointMode::as_str
    ensures r@ == em_text(*self)
//@end
//@fn src/service/deploy/endpoint_mode.rs :: <AsRef<str> for EndpointMode>::as_ref | as=as_text_ref
    ensures r@ == em_text(*self)
//@end
//@fn src/service/deploy/endpoint_mode.rs :: EndpointMode::is_vip
    ensures r == (*self is VIp)
//@end
//@fn src/service/deploy/endpoint_mode.rs :: EndpointMode::is_dnsrr
    ensures r == (*self is DnsRR)
//@end
//@fn src/service/deploy/endpoint_mode.rs :: <Display for EndpointMode>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { em_text(*self) }
//@end
//@fn src/service/deploy/endpoint_mode.rs :: <From<EndpointMode> for Cow<str>>::from | as=em_into_cow
    ensures cow_text(r) == em_text(value)
//@end
impl XInto<XCow<'static, str>> for EndpointMode {
    open spec fn x_into_post(self, u: XCow<'static, str>) -> bool { cow_text(u) == em_text(self) }
    fn x_into(self) -> (u: XCow<'static, str>) { XCow::em_into_cow(self) }
}
//@fn src/service/deploy/endpoint_mode.rs :: <From<EndpointMode> for String>::from | as=em_into_string | free | retty=String
    ensures r@ == em_text(value)
//@end
/// printing and reading back gives the value, and different values print differently
pub proof fn theorem_em(a: EndpointMode, b: EndpointMode)
    requires em_wf(a), em_wf(b), em_text(a) == em_text(b),
    ensures (a is VIp <==> b is VIp) && (a is DnsRR <==> b is DnsRR), (a is Other <==> b is Other), a matches EndpointMode::Other(x) ==> b matches EndpointMode::Other(y) && x@ == y@,
{ assert(ENDPOINTMODE_DNSRR() != ENDPOINTMODE_VIP()) by { assert(ENDPOINTMODE_DNSRR()[0] != ENDPOINTMODE_VIP()[0]); } }
//@type src/service/deploy/resources.rs :: Capability
pub open spec fn CAPABILITY_GPU() -> Seq<char> { seq!['g', 'p', 'u'] }
pub open spec fn CAPABILITY_TPU() -> Seq<char> { seq!['t', 'p', 'u'] }
pub open spec fn cap_text(v: Capability) -> Seq<char> { match v { Capability::Gpu => CAPABILITY_GPU(), Capability::Tpu => CAPABILITY_TPU(), Capability::Other(o) => o@ } }
/// the one variant a text selects
pub open spec fn cap_wf(v: Capability) -> bool { v matches Capability::Other(o) ==> o@ != CAPABILITY_GPU() && o@ != CAPABILITY_TPU() }
//@fn src/service/deploy/resources.rs :: Capability::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures cap_wf(r), cap_text(r) == capability.asv()
//@proof start
    proof { x_arg_law(capability); }
//@end
impl XInto<Capability> for &str {
    open spec fn x_into_post(self, u: Capability) -> bool { cap_wf(u) && cap_text(u) == self@ }
    fn x_into(self) -> (u: Capability) { Capability::parse(self) }
}
//@fn src/service/deploy/resources.rs :: Capability::as_str
    ensures r@ == cap_text(*self)
//@end
//@fn src/service/deploy/resources.rs :: <AsRef<str> for Capability>::as_ref | as=as_text_ref
    ensures r@ == cap_text(*self)
//@end
//@fn src/service/deploy/resources.rs :: Capability::is_gpu
    ensures r == (*self is Gpu)
//@end
//@fn src/service/deploy/resources.rs :: Capability::is_tpu
    ensures r == (*self is Tpu)
//@end
//@fn src/service/deploy/resources.rs :: <Display for Capability>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { cap_text(*self) }
//@end
//@fn src/service/deploy/resources.rs :: <From<Capability> for Cow<str>>::from | as=cap_into_cow
    ensures cow_text(r) == cap_text(value)
//@end
impl XInto<XCow<'static, str>> for Capability {
    open spec fn x_into_post(self, u: XCow<'static, str>) -> bool { cow_text(u) == cap_text(self) }
    fn x_into(self) -> (u: XCow<'static, str>) { XCow::cap_into_cow(self) }
}
//@fn src/service/deploy/resources.rs :: <From<Capability> for String>::from | as=cap_into_string | free | retty=String
    ensures r@ == cap_text(value)
//@end
/// printing and reading back gives the value, and different values print differently
pub proof fn theorem_cap(a: Capability, b: Capability)
    requires cap_wf(a), cap_wf(b), cap_text(a) == cap_text(b),
    ensures (a is Gpu <==> b is Gpu) && (a is Tpu <==> b is Tpu), (a is Other <==> b is Other), a matches Capability::Other(x) ==> b matches Capability::Other(y) && x@ == y@,
{ assert(CAPABILITY_TPU() != CAPABILITY_GPU()) by { assert(CAPABILITY_TPU()[0] != CAPABILITY_GPU()[0]); } }
//@type src/network.rs :: Driver
pub open spec fn DRIVER_HOST() -> Seq<char> { seq!['h', 'o', 's', 't'] }
pub open spec fn DRIVER_NONE() -> Seq<char> { seq!['n', 'o', 'n', 'e'] }
pub open spec fn dr_text(v: Driver) -> Seq<char> { match v { Driver::Host => DRIVER_HOST(), Driver::None => DRIVER_NONE(), Driver::Other(o) => o@ } }
/// the one variant a text selects
pub open spec fn dr_wf(v: Driver) -> bool { v matches Driver::Other(o) ==> o@ != DRIVER_HOST() && o@ != DRIVER_NONE() }
//@fn src/network.rs :: Driver::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures dr_wf(r), dr_text(r) == driver.asv()
//@proof start
    proof { x_arg_law(driver); }
//@end
impl XInto<Driver> for &str {
    open spec fn x_into_post(self, u: Driver) -> bool { dr_wf(u) && dr_text(u) == self@ }
    fn x_into(self) -> (u: Driver) { Driver::parse(self) }
}
//@fn src/network.rs :: Driver::as_str
    ensures r@ == dr_text(*self)
//@end
//@fn src/network.rs :: <AsRef<str> for Driver>::as_ref | as=as_text_ref
    ensures r@ == dr_text(*self)
//@end
//@fn src/network.rs :: <Display for Driver>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { dr_text(*self) }
//@end
//@fn src/network.rs :: <From<Driver> for Cow<str>>::from | as=dr_into_cow
    ensures cow_text(r) == dr_text(value)
//@end
impl XInto<XCow<'static, str>> for Driver {
    open spec fn x_into_post(self, u: XCow<'static, str>) -> bool { cow_text(u) == dr_text(self) }
    fn x_into(self) -> (u: XCow<'static, str>) { XCow::dr_into_cow(self) }
}
//@fn src/network.rs :: <From<Driver> for String>::from | as=dr_into_string | free | retty=String
    ensures r@ == dr_text(value)
//@end
/// printing and reading back gives the value, and different values print differently
pub proof fn theorem_dr(a: Driver, b: Driver)
    requires dr_wf(a), dr_wf(b), dr_text(a) == dr_text(b),
    ensures (a is Host <==> b is Host) && (a is None <==> b is None), (a is Other <==> b is Other), a matches Driver::Other(x) ==> b matches Driver::Other(y) && x@ == y@,
{ assert(DRIVER_NONE() != DRIVER_HOST()) by { assert(DRIVER_NONE()[0] != DRIVER_HOST()[0]); } }
//@type src/service/deploy/resources.rs :: Count
pub open spec fn ALL() -> Seq<char> { seq!['a', 'l', 'l'] }
pub open spec fn count_parse(s: Seq<char>) -> Option<Count> {
    if s == ALL() { Some(Count::All) } else { match parse_uint(s, u64::MAX as nat) { Some(n) => Some(Count::Integer(n as u64)), None => None } }
}
//@fn src/service/deploy/resources.rs :: <FromStr for Count>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseIntError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { (r is Ok <==> count_parse(s) is Some) && (r matches Ok(v) ==> count_parse(s) == Some(v)) }
//@end
//@fn src/service/deploy/resources.rs :: <From<u64> for Count>::from | as=count_from_u64
    ensures r == Count::Integer(value)
//@end
/// `all` is no number, and a number (written as a number in a document) reads back from its text too
pub proof fn theorem_count(n: u64)
    ensures count_parse(ALL()) == Some(Count::All), count_parse(dec(n as nat)) == Some(Count::Integer(n)),
{ lemma_dec(n as nat); assert(dec(n as nat)[0] != 'a'); }
pub open spec fn em_out(s: Seq<char>, r: Option<EndpointMode>) -> bool { r matches Some(v) && em_wf(v) && em_text(v) == s }
// ------------------------------------------------------------ EndpointMode: every conversion and document form
impl XTextOut for EndpointMode { open spec fn text_post(s: Seq<char>, r: Option<EndpointMode>) -> bool { em_out(s, r) } }
//@fn expanded :: service::deploy::endpoint_mode::<FromStr for EndpointMode>::from_str | as=from_text | retty=Result<Self, Infallible>
    ensures em_out(s@, got_ok(r))
//@end
//@fn expanded :: service::deploy::endpoint_mode::<From<&str> for EndpointMode>::from | as=from_ref
    ensures em_out(value@, Some(r))
//@end
//@fn expanded :: service::deploy::endpoint_mode::<From<String> for EndpointMode>::from | as=from_string
    ensures em_out(value@, Some(r))
//@end
//@fn expanded :: service::deploy::endpoint_mode::<From<Box<str>> for EndpointMode>::from | as=from_box
    ensures em_out(value@, Some(r))
//@end
//@fn expanded :: service::deploy::endpoint_mode::<From<::std::borrow::Cow<str>> for EndpointMode>::from | as=from_cow
    ensures em_out(value.asv(), Some(r))
//@end
// `TryFrom` is blanket over `From`
impl XFromRef for EndpointMode { type ERef = Infallible; fn x_from_ref(value: &str) -> (r: Result<Self, Infallible>) { Ok(EndpointMode::from_ref(value)) } }
impl XFromString for EndpointMode { type EString = Infallible; fn x_from_string(value: String) -> (r: Result<Self, Infallible>) { Ok(EndpointMode::from_string(value)) } }
//@fn expanded :: service::deploy::endpoint_mode::<Serialize for EndpointMode>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::deploy::endpoint_mode::<Deserialize for EndpointMode>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<EndpointMode>(deserializer@, r)
//@end
pub open spec fn cap_out(s: Seq<char>, r: Option<Capability>) -> bool { r matches Some(v) && cap_wf(v) && cap_text(v) == s }
// ------------------------------------------------------------ Capability: every conversion and document form
impl XTextOut for Capability { open spec fn text_post(s: Seq<char>, r: Option<Capability>) -> bool { cap_out(s, r) } }
//@fn expanded :: service::deploy::resources::<FromStr for Capability>::from_str | as=from_text | retty=Result<Self, Infallible>
    ensures cap_out(s@, got_ok(r))
//@end
//@fn expanded :: service::deploy::resources::<From<&str> for Capability>::from | as=from_ref
    ensures cap_out(value@, Some(r))
//@end
//@fn expanded :: service::deploy::resources::<From<String> for Capability>::from | as=from_string
    ensures cap_out(value@, Some(r))
//@end
//@fn expanded :: service::deploy::resources::<From<Box<str>> for Capability>::from | as=from_box
    ensures cap_out(value@, Some(r))
//@end
//@fn expanded :: service::deploy::resources::<From<::std::borrow::Cow<str>> for Capability>::from | as=from_cow
    ensures cap_out(value.asv(), Some(r))
//@end
// `TryFrom` is blanket over `From`
impl XFromRef for Capability { type ERef = Infallible; fn x_from_ref(value: &str) -> (r: Result<Self, Infallible>) { Ok(Capability::from_ref(value)) } }
impl XFromString for Capability { type EString = Infallible; fn x_from_string(value: String) -> (r: Result<Self, Infallible>) { Ok(Capability::from_string(value)) } }
//@fn expanded :: service::deploy::resources::<Serialize for Capability>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::deploy::resources::<Deserialize for Capability>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Capability>(deserializer@, r)
//@end
pub open spec fn dr_out(s: Seq<char>, r: Option<Driver>) -> bool { r matches Some(v) && dr_wf(v) && dr_text(v) == s }
// ------------------------------------------------------------ Driver: every conversion and document form
impl XTextOut for Driver { open spec fn text_post(s: Seq<char>, r: Option<Driver>) -> bool { dr_out(s, r) } }
//@fn expanded :: network::<FromStr for Driver>::from_str | as=from_text | retty=Result<Self, Infallible>
    ensures dr_out(s@, got_ok(r))
//@end
//@fn expanded :: network::<From<&str> for Driver>::from | as=from_ref
    ensures dr_out(value@, Some(r))
//@end
//@fn expanded :: network::<From<String> for Driver>::from | as=from_string
    ensures dr_out(value@, Some(r))
//@end
//@fn expanded :: network::<From<Box<str>> for Driver>::from | as=from_box
    ensures dr_out(value@, Some(r))
//@end
//@fn expanded :: network::<From<::std::borrow::Cow<str>> for Driver>::from | as=from_cow
    ensures dr_out(value.asv(), Some(r))
//@end
// `TryFrom` is blanket over `From`
impl XFromRef for Driver { type ERef = Infallible; fn x_from_ref(value: &str) -> (r: Result<Self, Infallible>) { Ok(Driver::from_ref(value)) } }
impl XFromString for Driver { type EString = Infallible; fn x_from_string(value: String) -> (r: Result<Self, Infallible>) { Ok(Driver::from_string(value)) } }
//@fn expanded :: network::<Serialize for Driver>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: network::<Deserialize for Driver>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Driver>(deserializer@, r)
//@end
} // verus!
fn main() {}
