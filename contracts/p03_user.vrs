//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@method len => x_len
//@include text_doc.inc
//@type src/service/user.rs :: Name
//@type src/service/user.rs :: InvalidNameError

pub open spec fn user_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '_' || c == '-' || c == '$' }
/// at most 32 of letters, digits, `_`, `-`, not all digits, no leading `-`, `$` only at the end
pub open spec fn user_ok(s: Seq<char>) -> bool {
    &&& 0 < s.len() <= 32
    &&& forall|i: int| 0 <= i < s.len() ==> user_char(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]) != '$'
    &&& !all_digits(s)
    &&& s[0] != '-'
}
//@fn src/service/user.rs :: Name::new | as=new<T: XTextArg> | subst=T:T | keepgen | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> user_ok(name.asv()), r matches Ok(k) ==> k.0@ == name.asv(),
//@loop 0
    invariant
        __n0 as int == it0.index(), it0.seq() == name.asv(),
        forall|i: int| 0 <= i < __n0 ==> user_char(#[trigger] name.asv()[i]) && (i < name.asv().len() - 1 ==> name.asv()[i] != '$'),
        fully_numeric <==> forall|i: int| 0 <= i < __n0 ==> spec_is_ascii_digit(#[trigger] name.asv()[i]),
//@proof start
    proof { x_arg_law(name); x_arg_bound(name); lemma_blen(name.asv()); }
//@end
// ------------------------------------------------------------ Name: every conversion and document form
pub open spec fn name_post(s: Seq<char>, r: Option<Name>) -> bool { &&& r is Some <==> user_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for Name { open spec fn text_post(s: Seq<char>, r: Option<Name>) -> bool { name_post(s, r) } }
//@fn expanded :: service::user::Name::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: service::user::<AsRef<str> for Name>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::user::<Borrow<str> for Name>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: service::user::<Display for Name>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::user::<PartialEq<str> for Name>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: service::user::<PartialEq<&str> for Name>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: service::user::<PartialEq for Name>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: service::user::<FromStr for Name>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidNameError>
    ensures name_post(s@, got_ok(r))
//@end
//@fn expanded :: service::user::<TryFrom<&str> for Name>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidNameError;
//@end
//@fn expanded :: service::user::<TryFrom<String> for Name>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidNameError;
//@end
//@fn expanded :: service::user::<TryFrom<Box<str>> for Name>::try_from | as=from_box
    ensures name_post(value@, got_ok(r))
//@end
//@fn expanded :: service::user::<TryFrom<::std::borrow::Cow<str>> for Name>::try_from | as=from_cow
    ensures name_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::user::<From<Name> for Box<str>>::from | as=name_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: service::user::<From<Name> for String>::from | as=name_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: service::user::<Serialize for Name>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: service::user::<Deserialize for Name>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Name>(deserializer@, r)
//@end
} // verus!
fn main() {}
