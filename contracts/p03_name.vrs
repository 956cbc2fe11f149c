//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@include text_doc.inc
//@type src/name.rs :: Name
//@type src/name.rs :: InvalidNameError

pub open spec fn name_start(c: char) -> bool { spec_is_ascii_lowercase(c) || spec_is_ascii_digit(c) }
pub open spec fn name_char(c: char) -> bool { name_start(c) || c == '_' || c == '-' }
/// `[a-z0-9][a-z0-9_-]*`
pub open spec fn name_ok(s: Seq<char>) -> bool {
    s.len() > 0 && name_start(s[0]) && forall|i: int| 0 <= i < s.skip(1).len() ==> name_char(#[trigger] s.skip(1)[i])
}
//@fn src/name.rs :: Name::new | as=new<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> name_ok(name.asv()), r matches Ok(k) ==> k.0@ == name.asv(),
//@loop 0
    invariant forall|i: int| 0 <= i < it0.index() ==> name_char(#[trigger] it0.seq()[i]), it0.seq() == name.asv().skip(1),
//@proof start
    proof { x_arg_law(name); }
//@end
// ------------------------------------------------------------ Name: every conversion and document form
pub open spec fn name_post(s: Seq<char>, r: Option<Name>) -> bool { &&& r is Some <==> name_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for Name { open spec fn text_post(s: Seq<char>, r: Option<Name>) -> bool { name_post(s, r) } }
//@fn expanded :: name::Name::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: name::<AsRef<str> for Name>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: name::<Display for Name>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: name::<PartialEq for Name>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: name::<FromStr for Name>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidNameError>
    ensures name_post(s@, got_ok(r))
//@end
//@fn expanded :: name::<TryFrom<&str> for Name>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidNameError;
//@end
//@fn expanded :: name::<TryFrom<String> for Name>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidNameError;
//@end
//@fn expanded :: name::<TryFrom<Box<str>> for Name>::try_from | as=from_box
    ensures name_post(value@, got_ok(r))
//@end
//@fn expanded :: name::<From<Name> for Box<str>>::from | as=name_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: name::<From<Name> for String>::from | as=name_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: name::<Serialize for Name>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: name::<Deserialize for Name>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Name>(deserializer@, r)
//@end
} // verus!
fn main() {}
