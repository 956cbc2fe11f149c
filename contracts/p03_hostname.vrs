//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@include text_doc.inc
//@type src/service/hostname.rs :: Hostname
//@type src/service/hostname.rs :: InvalidHostnameError

pub open spec fn label_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '-' }
/// letters, digits and inner dashes
pub open spec fn label_ok(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] != '-' && s.last() != '-' && forall|i: int| 0 <= i < s.len() ==> label_char(#[trigger] s[i])
}
pub open spec fn hostname_ok(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < split_c(s, '.').len() ==> label_ok(#[trigger] split_c(s, '.')[i])
}
//@fn src/service/hostname.rs :: Hostname::new | as=new<T: XTextArg> | subst=T:T | keepgen | noxfor | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> hostname_ok(hostname.asv()), r matches Ok(k) ==> k.0@ == hostname.asv(),
//@loop 0
    invariant forall|i: int| 0 <= i < it0.index() ==> label_ok(#[trigger] split_c(hostname.asv(), '.')[i]),
//@loop 1
    invariant forall|i: int| 0 <= i < it1.index() ==> label_char(#[trigger] it1.seq()[i]),
//@proof start
    proof { x_arg_law(hostname); }
//@end
// ------------------------------------------------------------ Hostname: every conversion and document form
pub open spec fn hostname_post(s: Seq<char>, r: Option<Hostname>) -> bool { &&& r is Some <==> hostname_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for Hostname { open spec fn text_post(s: Seq<char>, r: Option<Hostname>) -> bool { hostname_post(s, r) } }
//@fn expanded :: service::hostname::Hostname::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: service::hostname::<AsRef<str> for Hostname>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::hostname::<Borrow<str> for Hostname>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: service::hostname::<Display for Hostname>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::hostname::<PartialEq<str> for Hostname>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: service::hostname::<PartialEq<&str> for Hostname>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: service::hostname::<PartialEq for Hostname>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: service::hostname::<FromStr for Hostname>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidHostnameError>
    ensures hostname_post(s@, got_ok(r))
//@end
//@fn expanded :: service::hostname::<TryFrom<&str> for Hostname>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidHostnameError;
//@end
//@fn expanded :: service::hostname::<TryFrom<String> for Hostname>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidHostnameError;
//@end
//@fn expanded :: service::hostname::<TryFrom<Box<str>> for Hostname>::try_from | as=from_box
    ensures hostname_post(value@, got_ok(r))
//@end
//@fn expanded :: service::hostname::<TryFrom<::std::borrow::Cow<str>> for Hostname>::try_from | as=from_cow
    ensures hostname_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::hostname::<From<Hostname> for Box<str>>::from | as=hostname_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: service::hostname::<From<Hostname> for String>::from | as=hostname_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: service::hostname::<Serialize for Hostname>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: service::hostname::<Deserialize for Hostname>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Hostname>(deserializer@, r)
//@end
} // verus!
fn main() {}
