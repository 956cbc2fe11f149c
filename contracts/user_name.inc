//@type src/service/user.rs :: Name
//@type src/service/user.rs :: InvalidNameError

pub open spec fn user_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '_' || c == '-' || c == '$' }
/// at most 32 of letters, digits, `_`, `-`, not all digits, no leading `-`, `$` only at the end
pub open spec fn user_ok(s: Seq<char>) -> bool {
    &&& 0 < s.len() <= 32
    &&& forall|i: int| 0 <= i < s.len() ==> user_char(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]) != '$'
    &&& !all_digits(s)
    &&& s[0] != '-'
}
pub open spec fn user_post<E>(s: Seq<char>, r: Result<Name, E>) -> bool {
    &&& r is Ok <==> user_ok(s)
    &&& r matches Ok(k) ==> k.0@ == s
}
//@fn src/service/user.rs :: Name::new | attr=verifier::loop_isolation(false)
    ensures user_post(name@, r)
//@loop 0
    invariant
        __n0 as int == it0.index(), it0.seq() == name@,
        forall|i: int| 0 <= i < __n0 ==> user_char(#[trigger] name@[i]) && (i < name@.len() - 1 ==> name@[i] != '$'),
        fully_numeric <==> forall|i: int| 0 <= i < __n0 ==> spec_is_ascii_digit(#[trigger] name@[i]),
//@proof start
    proof { x_str_bound(name); lemma_blen(name@); }
//@end
//@fn expanded :: service::user::Name::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: service::user::<Display for Name>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
impl XInto<String> for Name {
    open spec fn x_into_post(self, u: String) -> bool { u@ == self.0@ }
    // `From<Name> for String` is generated by `key_impls!`: the inner text (trusted)
    #[verifier::external_body]
    fn x_into(self) -> (u: String) { self.0.into() }
}
