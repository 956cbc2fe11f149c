//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@include std_more.inc
//@include to_string.inc
//@include text_doc.inc
//@include identifier.inc
//@type src/service/network_config.rs :: NetworkMode
//@type src/service/network_config.rs :: ParseNetworkModeError
impl XInto<ParseNetworkModeError> for InvalidIdentifierError {
    open spec fn x_into_post(self, u: ParseNetworkModeError) -> bool { u.0 == self }
    fn x_into(self) -> (u: ParseNetworkModeError) { ParseNetworkModeError(self) }
}
pub open spec fn NONE() -> Seq<char> { seq!['n', 'o', 'n', 'e'] }
pub open spec fn HOST() -> Seq<char> { seq!['h', 'o', 's', 't'] }
pub open spec fn SERVICE() -> Seq<char> { seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', ':'] }
pub open spec fn CONTAINER() -> Seq<char> { seq!['c', 'o', 'n', 't', 'a', 'i', 'n', 'e', 'r', ':'] }
pub proof fn lemma_prefix(p: Seq<char>, t: Seq<char>)
    ensures is_prefix(p, p + t), (p + t).skip(p.len() as int) == t
{ assert((p + t).skip(p.len() as int) =~= t); assert((p + t).take(p.len() as int) =~= p); }
pub proof fn lemma_words()
    ensures NONE() != HOST(), !is_prefix(SERVICE(), NONE()), !is_prefix(SERVICE(), HOST()), !is_prefix(CONTAINER(), NONE()), !is_prefix(CONTAINER(), HOST()),
        forall|s: Seq<char>| is_prefix(SERVICE(), s) ==> !is_prefix(CONTAINER(), s)
{
    assert(NONE()[0] != HOST()[0]);
    assert forall|s: Seq<char>| is_prefix(SERVICE(), s) implies !is_prefix(CONTAINER(), s) by { assert(s[0] == SERVICE()[0]); if is_prefix(CONTAINER(), s) { assert(s[0] == CONTAINER()[0]); } }
}
pub open spec fn mode_ok(s: Seq<char>) -> bool {
    (is_prefix(SERVICE(), s) ==> ident_ok(s.skip(8))) && (is_prefix(CONTAINER(), s) ==> ident_ok(s.skip(10)))
}
/// the one variant a text selects
pub open spec fn mode_wf(v: NetworkMode) -> bool {
    match v {
        NetworkMode::None => true,
        NetworkMode::Host => true,
        NetworkMode::Service(i) => ident_ok(i.0@),
        NetworkMode::Container(i) => ident_ok(i.0@),
        NetworkMode::Other(o) => o@ != NONE() && o@ != HOST() && !is_prefix(SERVICE(), o@) && !is_prefix(CONTAINER(), o@),
    }
}
pub open spec fn mode_text(v: NetworkMode) -> Seq<char> {
    match v {
        NetworkMode::None => NONE(),
        NetworkMode::Host => HOST(),
        NetworkMode::Service(i) => SERVICE() + i.0@,
        NetworkMode::Container(i) => CONTAINER() + i.0@,
        NetworkMode::Other(o) => o@,
    }
}
//@fn src/service/network_config.rs :: NetworkMode::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> mode_ok(network_mode.asv()), r matches Ok(v) ==> mode_wf(v) && mode_text(v) == network_mode.asv(),
//@proof start
    proof { x_arg_law(network_mode);
        lemma_words();
        if is_prefix(SERVICE(), network_mode.asv()) { assert(SERVICE() + network_mode.asv().skip(8) =~= network_mode.asv()); }
        if is_prefix(CONTAINER(), network_mode.asv()) { assert(CONTAINER() + network_mode.asv().skip(10) =~= network_mode.asv()); }
    }
//@end
//@fn src/service/network_config.rs :: <Display for NetworkMode>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { mode_text(*self) }
//@end
//@fn src/service/network_config.rs :: NetworkMode::is_none
    ensures r == (*self is None)
//@end
//@fn src/service/network_config.rs :: NetworkMode::is_host
    ensures r == (*self is Host)
//@end
//@fn src/service/network_config.rs :: NetworkMode::is_service
    ensures r == (*self is Service)
//@end
//@fn src/service/network_config.rs :: NetworkMode::as_service
    ensures r is Some <==> *self is Service, r matches Some(i) ==> *self == NetworkMode::Service(*i)
//@end
//@fn src/service/network_config.rs :: NetworkMode::is_container
    ensures r == (*self is Container)
//@end
//@fn src/service/network_config.rs :: NetworkMode::as_container
    ensures r is Some <==> *self is Container, r matches Some(i) ==> *self == NetworkMode::Container(*i)
//@end
//@fn src/service/network_config.rs :: NetworkMode::is_other
    ensures r == (*self is Other)
//@end
//@fn src/service/network_config.rs :: NetworkMode::as_other
    ensures r is Some <==> *self is Other, r matches Some(o) ==> *self == NetworkMode::Other(*o)
//@end
//@fn src/service/network_config.rs :: <From<NetworkMode> for String>::from | as=mode_into_string | free | retty=String
    ensures r@ == mode_text(value)
//@end
pub proof fn theorem_mode(a: NetworkMode, b: NetworkMode)
    requires mode_wf(a),
    ensures mode_ok(mode_text(a)), mode_wf(b) && mode_text(a) == mode_text(b) ==> match (a, b) {
        (NetworkMode::None, NetworkMode::None) => true,
        (NetworkMode::Host, NetworkMode::Host) => true,
        (NetworkMode::Service(i), NetworkMode::Service(j)) => i.0@ == j.0@,
        (NetworkMode::Container(i), NetworkMode::Container(j)) => i.0@ == j.0@,
        (NetworkMode::Other(i), NetworkMode::Other(j)) => i@ == j@,
        _ => false,
    }
{
    lemma_words();
    if let NetworkMode::Service(i) = a { lemma_prefix(SERVICE(), i.0@); }
    if let NetworkMode::Container(i) = a { lemma_prefix(CONTAINER(), i.0@); }
    if let NetworkMode::Service(i) = b { lemma_prefix(SERVICE(), i.0@); }
    if let NetworkMode::Container(i) = b { lemma_prefix(CONTAINER(), i.0@); }
}
pub open spec fn mode_out(s: Seq<char>, r: Option<NetworkMode>) -> bool { (r is Some <==> mode_ok(s)) && (r matches Some(v) ==> mode_wf(v) && mode_text(v) == s) }
// ------------------------------------------------------------ NetworkMode: every conversion and document form
impl XTextOut for NetworkMode { open spec fn text_post(s: Seq<char>, r: Option<NetworkMode>) -> bool { mode_out(s, r) } }
//@fn expanded :: service::network_config::<FromStr for NetworkMode>::from_str | as=from_text | retty=Result<Self, ParseNetworkModeError>
    ensures mode_out(s@, got_ok(r))
//@end
//@fn expanded :: service::network_config::<TryFrom<&str> for NetworkMode>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = ParseNetworkModeError; | retty=Result<Self, ParseNetworkModeError>
//@end
//@fn expanded :: service::network_config::<TryFrom<String> for NetworkMode>::try_from | as=x_from_string | trait=XFromString | extra=type EString = ParseNetworkModeError; | retty=Result<Self, ParseNetworkModeError>
//@end
//@fn expanded :: service::network_config::<TryFrom<Box<str>> for NetworkMode>::try_from | as=from_box | retty=Result<Self, ParseNetworkModeError>
    ensures mode_out(value@, got_ok(r))
//@end
//@fn expanded :: service::network_config::<TryFrom<::std::borrow::Cow<str>> for NetworkMode>::try_from | as=from_cow | retty=Result<Self, ParseNetworkModeError>
    ensures mode_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::network_config::<Serialize for NetworkMode>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::network_config::<Deserialize for NetworkMode>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<NetworkMode>(deserializer@, r)
//@end
} // verus!
fn main() {}
