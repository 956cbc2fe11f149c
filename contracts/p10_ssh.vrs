//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@include std_more.inc
//@include to_string.inc
//@include paths.inc
impl XPath {
    // the text of a path, as `OsStr` shows it: only `is_empty` is used on it (trusted)
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl XInto<Box<XPath>> for &XPath {
    open spec fn x_into_post(self, u: Box<XPath>) -> bool { u@ == self@ }
    #[verifier::external_body]
    fn x_into(self) -> (u: Box<XPath>) { unimplemented!() }
}
impl XDisplay for Box<str> {
    open spec fn x_disp(&self) -> Seq<char> { self@ }
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { f.write_str(&**self) }
}
//@type src/service/build/ssh_auth.rs :: SshAuth
//@type src/service/build/ssh_auth.rs :: Id
//@type src/service/build/ssh_auth.rs :: IdError
pub open spec fn DEFAULT() -> Seq<char> { seq!['d', 'e', 'f', 'a', 'u', 'l', 't'] }
pub open spec fn id_wf(i: Id) -> bool { i.id@.len() > 0 && i.path@.len() > 0 }
pub open spec fn id_text(i: Id) -> Seq<char> { i.id@ + seq!['='] + i.path@ }
pub open spec fn id_ok(s: Seq<char>) -> bool { 0 < idx_c(s, '=') && idx_c(s, '=') + 1 < s.len() }
//@fn src/service/build/ssh_auth.rs :: Id::new
    ensures r is Ok <==> (id@.len() > 0 && path@.len() > 0), r matches Ok(v) ==> v.id@ == id@ && v.path@ == path@
//@end
//@fn src/service/build/ssh_auth.rs :: Id::id
    ensures r@ == self.id@
//@end
//@fn src/service/build/ssh_auth.rs :: Id::path
    ensures r@ == self.path@
//@end
//@fn src/service/build/ssh_auth.rs :: <FromStr for Id>::from_str | trait=XFromStr | as=x_from_str | extra=type E = IdError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { (r is Ok <==> id_ok(s)) && (r matches Ok(v) ==> id_wf(v) && id_text(v) == s && !has_c(v.id@, '=')) }
//@proof start
    proof { lemma_idx(s@, '='); }
//@end
//@fn src/service/build/ssh_auth.rs :: <Display for Id>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { id_text(*self) }
//@end
pub open spec fn ssh_text(v: SshAuth) -> Seq<char> { match v { SshAuth::Default => DEFAULT(), SshAuth::Id(i) => id_text(i) } }
pub open spec fn ssh_ok(s: Seq<char>) -> bool { s == DEFAULT() || id_ok(s) }
pub open spec fn ssh_wf(v: SshAuth) -> bool { v matches SshAuth::Id(i) ==> id_wf(i) && !has_c(i.id@, '=') }
//@fn src/service/build/ssh_auth.rs :: <FromStr for SshAuth>::from_str | trait=XFromStr | as=x_from_str | extra=type E = IdError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { (r is Ok <==> ssh_ok(s)) && (r matches Ok(v) ==> ssh_wf(v) && ssh_text(v) == s) }
//@end
//@fn src/service/build/ssh_auth.rs :: <Display for SshAuth>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { ssh_text(*self) }
//@end
//@fn src/service/build/ssh_auth.rs :: SshAuth::as_id
    ensures r is Some <==> *self is Id, r matches Some(i) ==> *self == SshAuth::Id(*i)
//@end
//@fn src/service/build/ssh_auth.rs :: SshAuth::id
    ensures r is Some <==> *self is Id, r matches Some(i) ==> (*self matches SshAuth::Id(d) && d.id@ == i@)
//@end
//@fn src/service/build/ssh_auth.rs :: SshAuth::path
    ensures r is Some <==> *self is Id, r matches Some(i) ==> (*self matches SshAuth::Id(d) && d.path@ == i@)
//@end
/// the text of a well-formed value is readable, and only that value has it
pub proof fn theorem_ssh(a: SshAuth, b: SshAuth)
    requires ssh_wf(a), ssh_wf(b), ssh_text(a) == ssh_text(b),
    ensures a is Default <==> b is Default, a matches SshAuth::Id(i) ==> b matches SshAuth::Id(j) && i.id@ == j.id@ && i.path@ == j.path@,
        ssh_text(a) == DEFAULT() || id_ok(ssh_text(a)),
{
    match (a, b) {
        (SshAuth::Id(i), SshAuth::Id(j)) => { lemma_id(i); lemma_id(j); }
        (SshAuth::Id(i), SshAuth::Default) => { lemma_id(i); assert(id_text(i)[i.id@.len() as int] == '='); }
        (SshAuth::Default, SshAuth::Id(i)) => { lemma_id(i); assert(id_text(i)[i.id@.len() as int] == '='); }
        _ => {}
    }
}
pub proof fn lemma_id(i: Id)
    requires id_wf(i), !has_c(i.id@, '='),
    ensures id_ok(id_text(i)), idx_c(id_text(i), '=') == i.id@.len(), id_text(i).take(i.id@.len() as int) == i.id@, id_text(i).skip(i.id@.len() as int + 1) == i.path@,
{
    let t = id_text(i); let n = i.id@.len() as int;
    assert(t[n] == '=');
    assert forall|k: int| 0 <= k < n implies t[k] != '=' by { assert(t[k] == i.id@[k]); }
    lemma_idx_at(t, '=', n);
    assert(t.take(n) =~= i.id@); assert(t.skip(n + 1) =~= i.path@);
}
//@include text_doc.inc
//@include from_str_doc.inc
// ------------------------------------------------------------ the document form of SshAuth
//@fn expanded :: service::build::ssh_auth::<Serialize for SshAuth>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::build::ssh_auth::<Deserialize for SshAuth>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<SshAuth>(deserializer@, r)
//@end
} // verus!
fn main() {}
