//@include prelude.vrs
verus! {
//@include image_edit.inc
// ------------------------------------------------------------ images and their parts as tuples
//@fn src/service/image.rs :: <From<(Name,Option<TagOrDigest>)> for Image>::from | as=image_from_parts
    requires __arg0.0.wf(), opt_wf(__arg0.1),
    ensures r.wf(), r.name_s() == __arg0.0.inner@, r.tod_s() == opt_tod(__arg0.1)
//@end
impl<'a> XIntoImage for (Name<'a>, Option<TagOrDigest<'a>>) { open spec fn ok(self) -> bool { self.0.wf() && opt_wf(self.1) } open spec fn is_parts(self, r: Image) -> bool { r.wf() && r.name_s() == self.0.inner@ && r.tod_s() == opt_tod(self.1) } fn x_image(self) -> (r: Image) { Image::image_from_parts(self) } }
/// `Into<Image>`
pub trait XIntoImage: Sized { spec fn ok(self) -> bool; spec fn is_parts(self, r: Image) -> bool; fn x_image(self) -> (r: Image) requires self.ok() ensures self.is_parts(r); }
//@fn src/service/image.rs :: <From<(Name,TagOrDigest)> for Image>::from | as=image_from_both | meth=into:x_image
    requires __arg0.0.wf(), opt_wf(Some(__arg0.1)),
    ensures r.wf(), r.name_s() == __arg0.0.inner@, r.tod_s() == opt_tod(Some(__arg0.1))
//@end
//@fn src/service/image.rs :: <From<Name> for Image>::from | as=image_from_name | meth=into:x_image
    requires value.wf(),
    ensures r.wf(), r.name_s() == value.inner@, r.tod_s() == opt_tod(None)
//@end
//@fn src/service/image.rs :: <From<&Image> for (Name,Option<TagOrDigest>)>::from | as=parts_of_image<'a> | free | retty=(Name<'a>, Option<TagOrDigest<'a>>)
    requires value.wf(),
    ensures r.0.inner@ == value.name_s(), r.0.wf(), opt_tod(r.1) == value.tod_s()
//@end
} // verus!
fn main() {}
