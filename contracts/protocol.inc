pub open spec fn TCP() -> Seq<char> { seq!['t', 'c', 'p'] }
pub open spec fn UDP() -> Seq<char> { seq!['u', 'd', 'p'] }
/// the text of a protocol
pub open spec fn proto_text(p: Protocol) -> Seq<char> {
    match p { Protocol::Tcp => TCP(), Protocol::Udp => UDP(), Protocol::Other(o) => o@ }
}
/// the one variant a text selects
pub open spec fn proto_wf(p: Protocol) -> bool {
    p matches Protocol::Other(o) ==> o@ != TCP() && o@ != UDP()
}
pub open spec fn opt_proto_wf(p: Option<Protocol>) -> bool { p matches Some(p) ==> proto_wf(p) }
//@fn src/service/ports.rs :: Protocol::parse
    ensures proto_wf(r), proto_text(r) == protocol@
//@end
// `From<&str> for Protocol` is generated by `impl_from_str!`, which calls `parse`
impl XInto<Protocol> for &str {
    open spec fn x_into_post(self, u: Protocol) -> bool { proto_wf(u) && proto_text(u) == self@ }
    fn x_into(self) -> (u: Protocol) { Protocol::parse(self) }
}
//@fn src/service/ports.rs :: Protocol::as_str
    ensures r@ == proto_text(*self)
//@end
//@fn src/service/ports.rs :: <Display for Protocol>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { proto_text(*self) }
//@end
//@fn src/service/ports.rs :: Protocol::is_tcp
    ensures r == (self is Tcp)
//@end
//@fn src/service/ports.rs :: Protocol::is_udp
    ensures r == (self is Udp)
//@end
//@fn src/service/ports.rs :: <From<Protocol> for String>::from | as=protocol_into_string | free | retty=String
    ensures r@ == proto_text(value)
//@end
