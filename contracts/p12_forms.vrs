//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@rename Path::new => XPath::x_of
//@rename Cow => XPCow
//@rename HostPath::from => HostPath::host_from_absolute
//@rename HostPath::try_from => x_host_from
//@rename Into::into => XInto::x_into
//@rename _serde::Serialize::serialize => x_ser_path
//@include std_more.inc
//@include text_doc.inc
//@include paths.inc
//@include path_edit.inc
//@include absolute_path.inc
//@include host_path.inc
// ------------------------------------------------------------ what callers pass as a path (trusted: std's `AsRef<Path>` of owned, boxed and borrowed paths and texts)
impl XAsPath for XPathBuf { open spec fn pv(&self) -> Seq<char> { self@ } fn x_as_path(&self) -> (r: &XPath) { self.as_path() } }
impl XAsPath for Box<XPath> { open spec fn pv(&self) -> Seq<char> { (**self)@ } fn x_as_path(&self) -> (r: &XPath) { &**self } }
/// std's `Cow` at `Path`
pub enum XPCow<'a, B: ?Sized> { Borrowed(&'a B), Owned(XPathBuf) }
impl<'a> XAsPath for XPCow<'a, XPath> {
    open spec fn pv(&self) -> Seq<char> { match self { XPCow::Borrowed(p) => p@, XPCow::Owned(p) => p@ } }
    fn x_as_path(&self) -> (r: &XPath) { match self { XPCow::Borrowed(p) => *p, XPCow::Owned(p) => p.as_path() } }
}
impl XAsPath for String { open spec fn pv(&self) -> Seq<char> { self@ } fn x_as_path(&self) -> (r: &XPath) { XPath::x_of(self.as_str()) } }
impl XInto<Box<XPath>> for XPathBuf { open spec fn x_into_post(self, u: Box<XPath>) -> bool { (*u)@ == self@ } #[verifier::external_body] fn x_into(self) -> (u: Box<XPath>) { unimplemented!() } }
impl XTextOut for AbsolutePath { open spec fn text_post(s: Seq<char>, r: Option<Self>) -> bool { match r { Some(p) => absolute(s) && p.wf() && p.0@ == s, None => !absolute(s) } } }
impl XTextOut for HostPath { open spec fn text_post(s: Seq<char>, r: Option<Self>) -> bool { match r { Some(p) => host(s) && p.wf() && p.0@ == s, None => !host(s) } } }
// ------------------------------------------------------------ AbsolutePath: every conversion gives what `new` gives
//@fn expanded :: service::volumes::<TryFrom<PathBuf> for AbsolutePath>::try_from | as=from_path_buf | retty=Result<Self, AbsolutePathError>
    ensures abs_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<Box<Path>> for AbsolutePath>::try_from | as=from_path_box | retty=Result<Self, AbsolutePathError>
    ensures abs_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<&Path> for AbsolutePath>::try_from | as=from_path_ref | retty=Result<Self, AbsolutePathError>
    ensures abs_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<Cow<Path>> for AbsolutePath>::try_from | as=from_path_cow | retty=Result<Self, AbsolutePathError>
    ensures abs_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<&str> for AbsolutePath>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = AbsolutePathError;
//@end
//@fn expanded :: service::volumes::<TryFrom<String> for AbsolutePath>::try_from | as=x_from_string | trait=XFromString | extra=type EString = AbsolutePathError;
//@end
//@fn expanded :: service::volumes::AbsolutePath::into_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::AbsolutePath::as_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::<From<AbsolutePath> for PathBuf>::from | as=abs_to_buf | free | retty=XPathBuf
    ensures r@ == value.0@
//@end
//@fn expanded :: service::volumes::<From<AbsolutePath> for Box<Path>>::from | as=abs_to_box | free | retty=Box<XPath>
    ensures (*r)@ == value.0@
//@end
//@fn expanded :: service::volumes::<AsRef<PathBuf> for AbsolutePath>::as_ref | as=as_ref_buf
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::<AsRef<Path> for AbsolutePath>::as_ref | as=as_ref_path
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::<Borrow<Path> for AbsolutePath>::borrow | as=borrow_path
    ensures r@ == self.0@
//@end
/// reading one from a document
//@fn expanded :: service::volumes::<Deserialize for AbsolutePath>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<AbsolutePath>(deserializer@, r)
//@end
// ------------------------------------------------------------ HostPath: every conversion gives what `new` gives
//@fn expanded :: service::volumes::<TryFrom<PathBuf> for HostPath>::try_from | as=from_path_buf | retty=Result<Self, HostPathError>
    ensures host_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<Box<Path>> for HostPath>::try_from | as=from_path_box | retty=Result<Self, HostPathError>
    ensures host_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<&Path> for HostPath>::try_from | as=from_path_ref | retty=Result<Self, HostPathError>
    ensures host_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<Cow<Path>> for HostPath>::try_from | as=from_path_cow | retty=Result<Self, HostPathError>
    ensures host_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<&str> for HostPath>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = HostPathError;
//@end
//@fn expanded :: service::volumes::<TryFrom<String> for HostPath>::try_from | as=x_from_string | trait=XFromString | extra=type EString = HostPathError;
//@end
//@fn expanded :: service::volumes::HostPath::into_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::HostPath::as_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::<From<HostPath> for PathBuf>::from | as=host_to_buf | free | retty=XPathBuf
    ensures r@ == value.0@
//@end
//@fn expanded :: service::volumes::<From<HostPath> for Box<Path>>::from | as=host_to_box | free | retty=Box<XPath>
    ensures (*r)@ == value.0@
//@end
//@fn expanded :: service::volumes::<AsRef<PathBuf> for HostPath>::as_ref | as=as_ref_buf
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::<AsRef<Path> for HostPath>::as_ref | as=as_ref_path
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::<Borrow<Path> for HostPath>::borrow | as=borrow_path
    ensures r@ == self.0@
//@end
/// reading one from a document
//@fn expanded :: service::volumes::<Deserialize for HostPath>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<HostPath>(deserializer@, r)
//@end
// ------------------------------------------------------------ sources of volumes from paths
//@type src/common/keys.rs :: Identifier
//@type src/service/volumes.rs :: Source
impl XInto<Source> for HostPath { open spec fn x_into_post(self, u: Source) -> bool { u == Source::HostPath(self) } fn x_into(self) -> (u: Source) { Source::source_from_host(self) } }
//@fn src/service/volumes.rs :: <From<HostPath> for Source>::from | as=source_from_host
    ensures r == Source::HostPath(value)
//@end
/// `HostPath::try_from`: the conversion for the type of the argument
pub trait XHostFrom: XAsPath + Sized { fn x_host(self) -> (r: Result<HostPath, HostPathError>) ensures host_post(self.pv(), r); }
pub fn x_host_from<T: XHostFrom>(t: T) -> (r: Result<HostPath, HostPathError>) ensures host_post(t.pv(), r) { t.x_host() }
impl XHostFrom for XPathBuf { fn x_host(self) -> (r: Result<HostPath, HostPathError>) { HostPath::from_path_buf(self) } }
impl XHostFrom for Box<XPath> { fn x_host(self) -> (r: Result<HostPath, HostPathError>) { HostPath::from_path_box(self) } }
impl XHostFrom for &XPath { fn x_host(self) -> (r: Result<HostPath, HostPathError>) { HostPath::from_path_ref(self) } }
impl<'a> XHostFrom for XPCow<'a, XPath> { fn x_host(self) -> (r: Result<HostPath, HostPathError>) { HostPath::from_path_cow(self) } }
pub open spec fn source_post(s: Seq<char>, r: Result<Source, HostPathError>) -> bool { (r is Ok <==> host(s)) && (r matches Ok(v) ==> (v matches Source::HostPath(p) && p.wf() && p.0@ == s)) }
//@fn expanded :: service::volumes::<TryFrom<PathBuf> for Source>::try_from | as=source_from_buf | map@*=res | retty=Result<Self, HostPathError>
    ensures source_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<Box<Path>> for Source>::try_from | as=source_from_box | map@*=res | retty=Result<Self, HostPathError>
    ensures source_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<&Path> for Source>::try_from | as=source_from_ref | map@*=res | retty=Result<Self, HostPathError>
    ensures source_post(value.pv(), r)
//@end
//@fn expanded :: service::volumes::<TryFrom<Cow<Path>> for Source>::try_from | as=source_from_cow | map@*=res | retty=Result<Self, HostPathError>
    ensures source_post(value.pv(), r)
//@end
//@fn src/service/volumes.rs :: <From<AbsolutePath> for HostPath>::from | as=host_from_absolute
    requires value.wf(),
    ensures r.wf(), r.0@ == value.0@
//@end
//@fn src/service/volumes.rs :: <From<AbsolutePath> for Source>::from | as=source_from_absolute
    requires value.wf(),
    ensures r matches Source::HostPath(p) && p.wf() && p.0@ == value.0@
//@end
// ------------------------------------------------------------ written: the path's text (trusted: serde's form of a path)
#[verifier::external_body]
pub fn x_ser_path(p: &XPathBuf, s: XTextSer) -> (r: Result<XTextOk, XErr>) ensures r matches Ok(o) ==> o@ == XTextNode::Text(p@) { unimplemented!() }
//@fn expanded :: service::volumes::<Serialize for AbsolutePath>::serialize | subst=__S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: service::volumes::<Serialize for HostPath>::serialize | subst=__S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
} // verus!
fn main() {}
