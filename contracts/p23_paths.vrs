//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@rename Path::new => XPath::x_of
//@rename Cow => XPCow
//@rename Url => XUrl
//@method into_owned => x_into_owned
//@include std_more.inc
//@include text_doc.inc
//@include paths.inc
#[verifier::external_body]
pub struct XUrl { s: String }
//@type src/service/build/context.rs :: Context
/// std's `Cow` at `Path`: owning it keeps the path
pub enum XPCow<'a, B: ?Sized> { Borrowed(&'a B), Owned(XPathBuf) }
impl<'a> XPCow<'a, XPath> {
    pub open spec fn pv(&self) -> Seq<char> { match self { XPCow::Borrowed(p) => p@, XPCow::Owned(p) => p@ } }
    pub fn x_into_owned(self) -> (r: XPathBuf) ensures r@ == self.pv() { match self { XPCow::Borrowed(p) => p.x_to_buf(), XPCow::Owned(p) => p } }
}
//@fn src/service/build/context.rs :: <From<Cow<Path>> for Context>::from | as=from_cow_path
    ensures r is Path, r->Path_0@ == value.pv(),
//@end
} // verus!
fn main() {}
