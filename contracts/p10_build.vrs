//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@include std_more.inc
//@include to_string.inc
//@include text_doc.inc
//@include cow.inc
//@include identifier.inc
//@include ident_arg.inc
//@type src/service/build/network.rs :: Network
pub open spec fn NONE() -> Seq<char> { seq!['n', 'o', 'n', 'e'] }
pub open spec fn net_ok(s: Seq<char>) -> bool { ident_ok(s) }
pub open spec fn net_wf(v: Network) -> bool { v matches Network::Identifier(i) ==> ident_ok(i.0@) && i.0@ != NONE() }
pub open spec fn net_text(v: Network) -> Seq<char> { match v { Network::Identifier(i) => i.0@, Network::None => NONE() } }
impl XInto<String> for Identifier {
    open spec fn x_into_post(self, u: String) -> bool { u@ == self.0@ }
    // `From<Identifier> for String` is generated by `key_impls!`: the inner text (trusted)
    #[verifier::external_body]
    fn x_into(self) -> (u: String) { self.0.into() }
}
//@fn src/service/build/network.rs :: Network::parse | as=parse<T: XIdentArg> | subst=T:T | keepgen | retty=Result<Self, InvalidIdentifierError>
    ensures r is Ok <==> (network.asv() == NONE() || ident_ok(network.asv())), r matches Ok(v) ==> net_wf(v) && net_text(v) == network.asv(),
//@proof start
    proof { x_arg_law(network); x_ident_law(network); }
//@end
//@fn src/service/build/network.rs :: Network::as_str
    ensures r@ == net_text(*self)
//@end
//@fn src/service/build/network.rs :: <AsRef<str> for Network>::as_ref | as=as_text_ref
    ensures r@ == net_text(*self)
//@end
//@fn src/service/build/network.rs :: Network::is_none
    ensures r == (*self is None)
//@end
//@fn src/service/build/network.rs :: Network::into_option
    ensures r is Some <==> self is Identifier, r matches Some(i) ==> self == Network::Identifier(i)
//@end
//@fn src/service/build/network.rs :: <Display for Network>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { net_text(*self) }
//@end
//@fn src/service/build/network.rs :: <From<Network> for Cow<str>>::from | as=net_into_cow
    ensures cow_text(r) == net_text(value)
//@end
impl XInto<XCow<'static, str>> for Network {
    open spec fn x_into_post(self, u: XCow<'static, str>) -> bool { cow_text(u) == net_text(self) }
    fn x_into(self) -> (u: XCow<'static, str>) { XCow::net_into_cow(self) }
}
//@fn src/service/build/network.rs :: <From<Network> for String>::from | as=net_into_string | free | retty=String
    ensures r@ == net_text(value)
//@end
pub proof fn theorem_network(a: Network, b: Network)
    requires net_wf(a), net_wf(b), net_text(a) == net_text(b),
    ensures a is None <==> b is None, a matches Network::Identifier(i) ==> b matches Network::Identifier(j) && i.0@ == j.0@,
        net_text(a) == NONE() || ident_ok(net_text(a)),
{}
pub open spec fn net_out(s: Seq<char>, r: Option<Network>) -> bool { (r is Some <==> (s == NONE() || ident_ok(s))) && (r matches Some(v) ==> net_wf(v) && net_text(v) == s) }
// ------------------------------------------------------------ Network: every conversion and document form
impl XTextOut for Network { open spec fn text_post(s: Seq<char>, r: Option<Network>) -> bool { net_out(s, r) } }
//@fn expanded :: service::build::network::<FromStr for Network>::from_str | as=from_text | retty=Result<Self, InvalidIdentifierError>
    ensures net_out(s@, got_ok(r))
//@end
//@fn expanded :: service::build::network::<TryFrom<&str> for Network>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::build::network::<TryFrom<String> for Network>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::build::network::<TryFrom<Box<str>> for Network>::try_from | as=from_box | retty=Result<Self, InvalidIdentifierError>
    ensures net_out(value@, got_ok(r))
//@end
//@fn expanded :: service::build::network::<TryFrom<::std::borrow::Cow<str>> for Network>::try_from | as=from_cow | retty=Result<Self, InvalidIdentifierError>
    ensures net_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::build::network::<Serialize for Network>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::build::network::<Deserialize for Network>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Network>(deserializer@, r)
//@end
} // verus!
fn main() {}
