//@type src/common/keys.rs :: Identifier
//@type src/common/keys.rs :: InvalidIdentifierError | derive=Clone, Copy
pub open spec fn ident_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '.' || c == '_' || c == '-' }
/// `[a-zA-Z0-9][a-zA-Z0-9._-]*`
pub open spec fn ident_ok(s: Seq<char>) -> bool {
    s.len() > 0 && spec_is_ascii_alphanumeric(s[0])
        && forall|i: int| 0 <= i < s.skip(1).len() ==> ident_char(#[trigger] s.skip(1)[i])
}
pub open spec fn ident_post<E>(s: Seq<char>, r: Result<Identifier, E>) -> bool {
    &&& r is Ok <==> ident_ok(s)
    &&& r matches Ok(k) ==> k.0@ == s
}
//@fn src/common/keys.rs :: Identifier::new | noxfor
    ensures ident_post(identifier@, r)
//@loop 0
    invariant forall|i: int| 0 <= i < it0.index() ==> ident_char(#[trigger] it0.seq()[i]), it0.seq() == identifier@.skip(1),
//@end
//@fn expanded :: common::keys::<FromStr for Identifier>::from_str | trait=XFromStr | as=x_from_str | extra=type E = InvalidIdentifierError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { ident_post(s, r) }
//@end
//@fn expanded :: common::keys::Identifier::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<Display for Identifier>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
// `TryFrom<&str> for Identifier` is generated by `key_impls!`, which calls `new`
impl XTryInto<Identifier, InvalidIdentifierError> for &str {
    open spec fn x_try_post(self, r: Result<Identifier, InvalidIdentifierError>) -> bool { ident_post(self@, r) }
    fn x_try_into(self) -> (r: Result<Identifier, InvalidIdentifierError>) { Identifier::new(self) }
}
/// no separator occurs in an identifier
pub proof fn lemma_ident(s: Seq<char>)
    requires ident_ok(s),
    ensures forall|i: int| 0 <= i < s.len() ==> ident_char(#[trigger] s[i]), !has_c(s, ':')
{
    assert forall|i: int| 0 <= i < s.len() implies ident_char(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
}
