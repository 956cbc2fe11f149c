//@include prelude.vrs
verus! {
//@include image_parts.inc
//@include to_string.inc
// The parts of an image: every conversion from a text accepts what `new` accepts and keeps the text; every way
// back gives that text.
//@fn src/service/image/tag.rs :: <TryFrom<&str> for Tag>::try_from | gen=<'a> | as=try_from_text | retty=Result<Self, InvalidTagError>
    ensures r is Ok <==> tag_ok(value@), r matches Ok(t) ==> t.0@ == value@,
//@end
//@fn src/service/image/tag.rs :: <Borrow<str> for Tag>::borrow | gen=<'a> | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn src/service/image/tag.rs :: <Display for Tag>::fmt | trait=XDisplay | self=Tag<'_> | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn src/service/image/digest.rs :: <TryFrom<&str> for Digest>::try_from | gen=<'a> | as=try_from_text | retty=Result<Self, InvalidDigestError>
    ensures r is Ok <==> digest_ok(value@), r matches Ok(t) ==> t.0@ == value@,
//@end
//@fn src/service/image/digest.rs :: <Borrow<str> for Digest>::borrow | gen=<'a> | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn src/service/image/digest.rs :: <Display for Digest>::fmt | trait=XDisplay | self=Digest<'_> | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn src/service/image/name.rs :: <TryFrom<&str> for Name>::try_from | gen=<'a> | as=try_from_text | retty=Result<Self, InvalidNamePartError>
    ensures r is Ok <==> name_ok(value@), r matches Ok(t) ==> t.inner@ == value@ && t.wf(),
//@end
//@fn src/service/image/name.rs :: <Borrow<str> for Name>::borrow | gen=<'a> | as=borrow_text
    ensures r@ == self.inner@
//@end
//@fn src/service/image/name.rs :: <Display for Name>::fmt | trait=XDisplay | self=Name<'_> | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.inner@ }
//@end
} // verus!
fn main() {}
