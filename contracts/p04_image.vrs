//@include prelude.vrs
verus! {
//@include image_parts.inc
//@include to_string.inc
//@include text_doc.inc
//@include image_whole.inc
// ------------------------------------------------------------ Image: every conversion and document form
impl XTextOut for Image { open spec fn text_post(s: Seq<char>, r: Option<Image>) -> bool { image_post(s, r) } }
//@fn expanded :: service::image::<FromStr for Image>::from_str | as=from_text | retty=Result<Self, InvalidImageError>
    ensures image_post(s@, got_ok(r))
//@end
//@fn expanded :: service::image::<TryFrom<&str> for Image>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidImageError; | retty=Result<Self, InvalidImageError>
//@end
//@fn expanded :: service::image::<TryFrom<String> for Image>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidImageError; | retty=Result<Self, InvalidImageError>
//@end
//@fn expanded :: service::image::<TryFrom<Box<str>> for Image>::try_from | as=from_box | retty=Result<Self, InvalidImageError>
    ensures image_post(value@, got_ok(r))
//@end
//@fn expanded :: service::image::<TryFrom<::std::borrow::Cow<str>> for Image>::try_from | as=from_cow | retty=Result<Self, InvalidImageError>
    ensures image_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::image::<Serialize for Image>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::image::<Deserialize for Image>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Image>(deserializer@, r)
//@end
//@fn expanded :: service::image::<PartialEq for Image>::eq | as=eq_value
    ensures r == (self.inner@ == other.inner@)
//@end
/// comparing a `String` with a text compares the texts (std)
#[verifier::external_body]
pub proof fn axiom_string_eq(a: String, b: &str)
    ensures
        <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), vstd::std_specs::cmp::PartialEqSpec::<str>::eq_spec(&a, b) == (a@ == b@),
        <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(), vstd::std_specs::cmp::PartialEqSpec::<&str>::eq_spec(&a, &b) == (a@ == b@),
{ }
//@fn expanded :: service::image::<PartialEq<str> for Image>::eq | as=eq_text
    ensures r == (self.inner@ == other@)
//@proof start
    proof { axiom_string_eq(self.inner, other); }
//@end
//@fn expanded :: service::image::<PartialEq<&str> for Image>::eq | as=eq_text_ref
    ensures r == (self.inner@ == (*other)@)
//@proof start
    proof { axiom_string_eq(self.inner, *other); }
//@end
//@fn expanded :: service::image::<Borrow<str> for Image>::borrow | as=borrow_text
    ensures r@ == self.inner@
//@end
//@fn expanded :: service::image::<From<Image> for String>::from | as=image_to_string | free | retty=String
    ensures r@ == value.inner@
//@end
} // verus!
fn main() {}
