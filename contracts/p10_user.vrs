//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@method len => x_len
//@include std_more.inc
//@include to_string.inc
//@include text_doc.inc
//@include user_name.inc
//@include name_arg.inc
//@type src/service/user.rs :: User
//@type src/service/user.rs :: IdOrName
pub enum IdView { Id(u32), Name(Seq<char>) }
pub open spec fn id_view(v: IdOrName) -> IdView { match v { IdOrName::Id(n) => IdView::Id(n), IdOrName::Name(n) => IdView::Name(n.0@) } }
/// a number that fits 32 bits is an id, anything else a name
pub open spec fn id_parse(s: Seq<char>) -> Option<IdView> {
    match parse_uint(s, u32::MAX as nat) {
        Some(n) => Some(IdView::Id(n as u32)),
        None => if user_ok(s) { Some(IdView::Name(s)) } else { None },
    }
}
pub open spec fn id_text(v: IdView) -> Seq<char> { match v { IdView::Id(n) => dec(n as nat), IdView::Name(s) => s } }
pub open spec fn id_post<E>(s: Seq<char>, r: Result<IdOrName, E>) -> bool {
    &&& r is Ok <==> id_parse(s) is Some
    &&& r matches Ok(v) ==> id_parse(s) == Some(id_view(v))
}
impl XTryInto<Name, InvalidNameError> for &str {
    open spec fn x_try_post(self, r: Result<Name, InvalidNameError>) -> bool { user_post(self@, r) }
    fn x_try_into(self) -> (r: Result<Name, InvalidNameError>) { Name::new(self) }
}
//@fn src/service/user.rs :: IdOrName::parse | as=parse<T: XNameArg> | subst=T:T | keepgen | retty=Result<Self, InvalidNameError>
    ensures id_post(id_or_name.asv(), r)
//@proof start
    proof { x_arg_law(id_or_name); x_name_law(id_or_name); }
//@end
//@fn expanded :: service::user::<FromStr for IdOrName>::from_str | trait=XFromStr | as=x_from_str | extra=type E = InvalidNameError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { id_post(s, r) }
//@end
impl XTryInto<IdOrName, InvalidNameError> for &str {
    open spec fn x_try_post(self, r: Result<IdOrName, InvalidNameError>) -> bool { id_post(self@, r) }
    fn x_try_into(self) -> (r: Result<IdOrName, InvalidNameError>) { IdOrName::parse(self) }
}
impl XInto<InvalidNameError> for InvalidNameError {
    open spec fn x_into_post(self, u: InvalidNameError) -> bool { u == self }
    fn x_into(self) -> (u: InvalidNameError) { self }
}
//@fn src/service/user.rs :: IdOrName::is_id
    ensures r == (*self is Id)
//@end
//@fn src/service/user.rs :: IdOrName::as_id
    ensures r is Some <==> *self is Id, r matches Some(n) ==> *self == IdOrName::Id(n)
//@end
//@fn src/service/user.rs :: IdOrName::is_name
    ensures r == (*self is Name)
//@end
//@fn src/service/user.rs :: IdOrName::as_name
    ensures r is Some <==> *self is Name, r matches Some(n) ==> *self == IdOrName::Name(*n)
//@end
//@fn src/service/user.rs :: <From<u32> for IdOrName>::from | as=id_from_u32
    ensures r == IdOrName::Id(value)
//@end
//@fn src/service/user.rs :: <From<Name> for IdOrName>::from | as=id_from_name
    ensures r == IdOrName::Name(value)
//@end
//@fn src/service/user.rs :: <Display for IdOrName>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { id_text(id_view(*self)) }
//@end
//@fn src/service/user.rs :: <From<IdOrName> for String>::from | as=id_into_string | free | retty=String
    ensures r@ == id_text(id_view(value))
//@end
impl XInto<String> for IdOrName {
    open spec fn x_into_post(self, u: String) -> bool { u@ == id_text(id_view(self)) }
    fn x_into(self) -> (u: String) { id_into_string(self) }
}
pub open spec fn opt_id(o: Option<IdOrName>) -> Option<IdView> { match o { Some(g) => Some(id_view(g)), None => None } }
pub open spec fn user_view(u: User) -> (IdView, Option<IdView>) { (id_view(u.user), opt_id(u.group)) }
/// `user[:group]`, cut at the first `:`
pub open spec fn user_parse(s: Seq<char>) -> Option<(IdView, Option<IdView>)> {
    let k = idx_c(s, ':') as int;
    if k < s.len() {
        match (id_parse(s.take(k)), id_parse(s.skip(k + 1))) { (Some(u), Some(g)) => Some((u, Some(g))), _ => None }
    } else {
        match id_parse(s) { Some(u) => Some((u, None)), None => None }
    }
}
pub open spec fn user_text(u: User) -> Seq<char> {
    id_text(id_view(u.user)) + (match u.group { Some(g) => seq![':'] + id_text(id_view(g)), None => seq![] })
}
//@fn src/service/user.rs :: <From<IdOrName> for User>::from | as=user_from_id
    ensures r == (User { user, group: None })
//@end
impl XInto<User> for IdOrName {
    open spec fn x_into_post(self, u: User) -> bool { u == (User { user: self, group: None }) }
    fn x_into(self) -> (u: User) { User::user_from_id(self) }
}
// any string type as a user or group
impl XTryInto<IdOrName, InvalidNameError> for String { open spec fn x_try_post(self, r: Result<IdOrName, InvalidNameError>) -> bool { id_post(self@, r) } fn x_try_into(self) -> (r: Result<IdOrName, InvalidNameError>) { IdOrName::x_from_string(self) } }
impl XTryInto<IdOrName, InvalidNameError> for Box<str> { open spec fn x_try_post(self, r: Result<IdOrName, InvalidNameError>) -> bool { id_post(self@, r) } fn x_try_into(self) -> (r: Result<IdOrName, InvalidNameError>) { IdOrName::from_box(self) } }
impl<'a> XTryInto<IdOrName, InvalidNameError> for XTCow<'a, str> { open spec fn x_try_post(self, r: Result<IdOrName, InvalidNameError>) -> bool { id_post(tcow_text(self), r) } fn x_try_into(self) -> (r: Result<IdOrName, InvalidNameError>) { IdOrName::from_cow(self) } }
pub trait XIdArg: XTextArg + XTryInto<IdOrName, InvalidNameError> { proof fn law_id(self, r: Result<IdOrName, InvalidNameError>) requires self.x_try_post(r) ensures id_post(self.asv(), r); }
impl<'b> XIdArg for &'b str { proof fn law_id(self, r: Result<IdOrName, InvalidNameError>) { } }
impl XIdArg for String { proof fn law_id(self, r: Result<IdOrName, InvalidNameError>) { } }
impl XIdArg for Box<str> { proof fn law_id(self, r: Result<IdOrName, InvalidNameError>) { } }
impl<'a> XIdArg for XTCow<'a, str> { proof fn law_id(self, r: Result<IdOrName, InvalidNameError>) { } }
pub proof fn x_id_law<T: XIdArg>(t: T) ensures forall|r: Result<IdOrName, InvalidNameError>| #[trigger] t.x_try_post(r) ==> id_post(t.asv(), r)
{ assert forall|r: Result<IdOrName, InvalidNameError>| #[trigger] t.x_try_post(r) implies id_post(t.asv(), r) by { t.law_id(r); } }
//@fn src/service/user.rs :: User::parse | as=parse<T: XIdArg> | subst=T:T | keepgen
    ensures r is Ok <==> user_parse(user.asv()) is Some, r matches Ok(v) ==> user_parse(user.asv()) == Some(user_view(v)),
//@proof start
    proof { x_arg_law(user); x_id_law(user); lemma_idx(user.asv(), ':'); }
//@end
//@fn src/service/user.rs :: <Display for User>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { user_text(*self) }
//@end
//@fn src/service/user.rs :: <From<User> for String>::from | as=user_into_string | free | retty=String
    ensures r@ == user_text(value)
//@end
pub open spec fn id_wf(v: IdView) -> bool { v matches IdView::Name(s) ==> user_ok(s) }
pub proof fn theorem_id(v: IdView)
    requires id_wf(v),
    ensures id_parse(id_text(v)) == Some(v), !has_c(id_text(v), ':'),
{
    match v {
        IdView::Id(n) => { lemma_dec(n as nat); }
        IdView::Name(s) => {
            if parse_uint(s, u32::MAX as nat) is Some { let d = uint_digits(s); assert(s[0] != '+'); assert(d == s); }
        }
    }
}
pub proof fn theorem_user(u: User)
    requires id_wf(id_view(u.user)), u.group matches Some(g) ==> id_wf(id_view(g)),
    ensures user_parse(user_text(u)) == Some(user_view(u)),
{
    let a = id_text(id_view(u.user));
    let t = user_text(u);
    theorem_id(id_view(u.user));
    lemma_idx(t, ':');
    match u.group {
        Some(g) => {
            theorem_id(id_view(g));
            let b = id_text(id_view(g));
            assert(t[a.len() as int] == ':');
            assert forall|i: int| 0 <= i < a.len() implies t[i] != ':' by { assert(t[i] == a[i]); }
            lemma_idx_at(t, ':', a.len() as int);
            assert(t.take(a.len() as int) =~= a);
            assert(t.skip(a.len() as int + 1) =~= b);
        }
        None => { assert(t =~= a); }
    }
}
pub open spec fn id_out(s: Seq<char>, r: Option<IdOrName>) -> bool { (r is Some <==> id_parse(s) is Some) && (r matches Some(v) ==> id_parse(s) == Some(id_view(v))) }
// ------------------------------------------------------------ IdOrName: every conversion and document form
impl XTextOut for IdOrName { open spec fn text_post(s: Seq<char>, r: Option<IdOrName>) -> bool { id_out(s, r) } }
//@fn expanded :: service::user::<TryFrom<&str> for IdOrName>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidNameError; | retty=Result<Self, InvalidNameError>
//@end
//@fn expanded :: service::user::<TryFrom<String> for IdOrName>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidNameError; | retty=Result<Self, InvalidNameError>
//@end
//@fn expanded :: service::user::<TryFrom<Box<str>> for IdOrName>::try_from | as=from_box | retty=Result<Self, InvalidNameError>
    ensures id_out(value@, got_ok(r))
//@end
//@fn expanded :: service::user::<TryFrom<::std::borrow::Cow<str>> for IdOrName>::try_from | as=from_cow | retty=Result<Self, InvalidNameError>
    ensures id_out(value.asv(), got_ok(r))
//@end
pub open spec fn user_out(s: Seq<char>, r: Option<User>) -> bool { (r is Some <==> user_parse(s) is Some) && (r matches Some(v) ==> user_parse(s) == Some(user_view(v))) }
// ------------------------------------------------------------ User: every conversion and document form
impl XTextOut for User { open spec fn text_post(s: Seq<char>, r: Option<User>) -> bool { user_out(s, r) } }
//@fn expanded :: service::user::<FromStr for User>::from_str | as=from_text | retty=Result<Self, InvalidNameError>
    ensures user_out(s@, got_ok(r))
//@end
//@fn expanded :: service::user::<TryFrom<&str> for User>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidNameError; | retty=Result<Self, InvalidNameError>
//@end
//@fn expanded :: service::user::<TryFrom<String> for User>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidNameError; | retty=Result<Self, InvalidNameError>
//@end
//@fn expanded :: service::user::<TryFrom<Box<str>> for User>::try_from | as=from_box | retty=Result<Self, InvalidNameError>
    ensures user_out(value@, got_ok(r))
//@end
//@fn expanded :: service::user::<TryFrom<::std::borrow::Cow<str>> for User>::try_from | as=from_cow | retty=Result<Self, InvalidNameError>
    ensures user_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::user::<Serialize for User>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::user::<Deserialize for User>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<User>(deserializer@, r)
//@end
} // verus!
fn main() {}
