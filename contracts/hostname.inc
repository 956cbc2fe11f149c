//@type src/service/hostname.rs :: Hostname
//@type src/service/hostname.rs :: InvalidHostnameError

pub open spec fn label_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '-' }
/// letters, digits and inner dashes
pub open spec fn label_ok(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] != '-' && s.last() != '-' && forall|i: int| 0 <= i < s.len() ==> label_char(#[trigger] s[i])
}
pub open spec fn hostname_ok(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < split_c(s, '.').len() ==> label_ok(#[trigger] split_c(s, '.')[i])
}
//@fn src/service/hostname.rs :: Hostname::new | noxfor | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> hostname_ok(hostname@), r matches Ok(k) ==> k.0@ == hostname@,
//@loop 0
    invariant forall|i: int| 0 <= i < it0.index() ==> label_ok(#[trigger] split_c(hostname@, '.')[i]),
//@loop 1
    invariant forall|i: int| 0 <= i < it1.index() ==> label_char(#[trigger] it1.seq()[i]),
//@end
//@fn expanded :: service::hostname::Hostname::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: service::hostname::<Display for Hostname>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
