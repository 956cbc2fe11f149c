//@include prelude.vrs
use std::cmp::Ordering;
verus! {
//@include equal.inc
whole!(PathBuf, IpAddr, Range, Protocol, Mode, AbsolutePath, ByteValue, BindPropagation, SELinux, XSlice);
/// the `x-…` entries, in order (`Map::as_slice`; trusted)
#[verifier::external_body] pub struct Extensions { s: String }
impl Extensions { pub uninterp spec fn slice(&self) -> XSlice; #[verifier::external_body] pub fn as_slice(&self) -> (r: &XSlice) ensures *r == self.slice() { unimplemented!() } }
// ------------------------------------------------------------ ports and mounts
//@type src/service/ports.rs :: Port
/// field by field, the extensions in order
pub open spec fn same_port(a: Port, b: Port) -> bool { a.name.same(&b.name) && a.target.same(&b.target) && a.published.same(&b.published) && a.host_ip.same(&b.host_ip) && a.protocol.same(&b.protocol) && a.app_protocol.same(&b.app_protocol) && a.mode.same(&b.mode) && a.extensions.slice().same(&b.extensions.slice()) }
pub open spec fn port_code(a: Port) -> Seq<int> { a.name.code() + a.target.code() + a.published.code() + a.host_ip.code() + a.protocol.code() + a.app_protocol.code() + a.mode.code() + a.extensions.slice().code() }
pub proof fn theorem_port(a: Port, b: Port)
    requires same_port(a, b)
    ensures port_code(a) == port_code(b)
{ a.name.lemma_alike(&b.name); a.target.lemma_alike(&b.target); a.published.lemma_alike(&b.published); a.host_ip.lemma_alike(&b.host_ip); a.protocol.lemma_alike(&b.protocol); a.app_protocol.lemma_alike(&b.app_protocol); a.mode.lemma_alike(&b.mode); a.extensions.slice().lemma_alike(&b.extensions.slice()); }
//@fn src/service/ports.rs :: <PartialEq for Port>::eq | trait=XEq<Port> | as=x_eq | extra=open spec fn same(&self, o: &Port) -> bool { same_port(*self, *o) }
//@end
//@fn src/service/ports.rs :: <Hash for Port>::hash | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { port_code(*self) } proof fn lemma_alike(&self, o: &Self) { theorem_port(*self, *o); }
//@end
//@type src/service/volumes/mount.rs :: VolumeOptions
/// field by field, the extensions in order
pub open spec fn same_volumeoptions(a: VolumeOptions, b: VolumeOptions) -> bool { a.nocopy.same(&b.nocopy) && a.subpath.same(&b.subpath) && a.extensions.slice().same(&b.extensions.slice()) }
pub open spec fn volumeoptions_code(a: VolumeOptions) -> Seq<int> { a.nocopy.code() + a.subpath.code() + a.extensions.slice().code() }
pub proof fn theorem_volumeoptions(a: VolumeOptions, b: VolumeOptions)
    requires same_volumeoptions(a, b)
    ensures volumeoptions_code(a) == volumeoptions_code(b)
{ a.nocopy.lemma_alike(&b.nocopy); a.subpath.lemma_alike(&b.subpath); a.extensions.slice().lemma_alike(&b.extensions.slice()); }
//@fn src/service/volumes/mount.rs :: <PartialEq for VolumeOptions>::eq | trait=XEq<VolumeOptions> | as=x_eq | extra=open spec fn same(&self, o: &VolumeOptions) -> bool { same_volumeoptions(*self, *o) }
//@end
//@fn src/service/volumes/mount.rs :: <Hash for VolumeOptions>::hash | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { volumeoptions_code(*self) } proof fn lemma_alike(&self, o: &Self) { theorem_volumeoptions(*self, *o); }
//@end
//@type src/service/volumes/mount.rs :: BindOptions
/// field by field, the extensions in order
pub open spec fn same_bindoptions(a: BindOptions, b: BindOptions) -> bool { a.propagation.same(&b.propagation) && a.create_host_path.same(&b.create_host_path) && a.selinux.same(&b.selinux) && a.extensions.slice().same(&b.extensions.slice()) }
pub open spec fn bindoptions_code(a: BindOptions) -> Seq<int> { a.propagation.code() + a.create_host_path.code() + a.selinux.code() + a.extensions.slice().code() }
pub proof fn theorem_bindoptions(a: BindOptions, b: BindOptions)
    requires same_bindoptions(a, b)
    ensures bindoptions_code(a) == bindoptions_code(b)
{ a.propagation.lemma_alike(&b.propagation); a.create_host_path.lemma_alike(&b.create_host_path); a.selinux.lemma_alike(&b.selinux); a.extensions.slice().lemma_alike(&b.extensions.slice()); }
//@fn src/service/volumes/mount.rs :: <PartialEq for BindOptions>::eq | trait=XEq<BindOptions> | as=x_eq | extra=open spec fn same(&self, o: &BindOptions) -> bool { same_bindoptions(*self, *o) }
//@end
//@fn src/service/volumes/mount.rs :: <Hash for BindOptions>::hash | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { bindoptions_code(*self) } proof fn lemma_alike(&self, o: &Self) { theorem_bindoptions(*self, *o); }
//@end
//@type src/service/volumes/mount.rs :: TmpfsOptions
/// field by field, the extensions in order
pub open spec fn same_tmpfsoptions(a: TmpfsOptions, b: TmpfsOptions) -> bool { a.size.same(&b.size) && a.mode.same(&b.mode) && a.extensions.slice().same(&b.extensions.slice()) }
pub open spec fn tmpfsoptions_code(a: TmpfsOptions) -> Seq<int> { a.size.code() + a.mode.code() + a.extensions.slice().code() }
pub proof fn theorem_tmpfsoptions(a: TmpfsOptions, b: TmpfsOptions)
    requires same_tmpfsoptions(a, b)
    ensures tmpfsoptions_code(a) == tmpfsoptions_code(b)
{ a.size.lemma_alike(&b.size); a.mode.lemma_alike(&b.mode); a.extensions.slice().lemma_alike(&b.extensions.slice()); }
//@fn src/service/volumes/mount.rs :: <PartialEq for TmpfsOptions>::eq | trait=XEq<TmpfsOptions> | as=x_eq | extra=open spec fn same(&self, o: &TmpfsOptions) -> bool { same_tmpfsoptions(*self, *o) }
//@end
//@fn src/service/volumes/mount.rs :: <Hash for TmpfsOptions>::hash | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { tmpfsoptions_code(*self) } proof fn lemma_alike(&self, o: &Self) { theorem_tmpfsoptions(*self, *o); }
//@end
//@type src/service/volumes/mount.rs :: Common
/// field by field, the extensions in order
pub open spec fn same_common(a: Common, b: Common) -> bool { a.target.same(&b.target) && a.read_only.same(&b.read_only) && a.consistency.same(&b.consistency) && a.extensions.slice().same(&b.extensions.slice()) }
pub open spec fn common_code(a: Common) -> Seq<int> { a.target.code() + a.read_only.code() + a.consistency.code() + a.extensions.slice().code() }
pub proof fn theorem_common(a: Common, b: Common)
    requires same_common(a, b)
    ensures common_code(a) == common_code(b)
{ a.target.lemma_alike(&b.target); a.read_only.lemma_alike(&b.read_only); a.consistency.lemma_alike(&b.consistency); a.extensions.slice().lemma_alike(&b.extensions.slice()); }
//@fn src/service/volumes/mount.rs :: <PartialEq for Common>::eq | trait=XEq<Common> | as=x_eq | extra=open spec fn same(&self, o: &Common) -> bool { same_common(*self, *o) }
//@end
//@fn src/service/volumes/mount.rs :: <Hash for Common>::hash | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { common_code(*self) } proof fn lemma_alike(&self, o: &Self) { theorem_common(*self, *o); }
//@end
// ------------------------------------------------------------ an item or a list
/// std and indexmap: sets with the same items
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct IndexSet<T> { v: Vec<T> }
impl<T> IndexSet<T> { pub uninterp spec fn same_items(&self, o: &IndexSet<T>) -> bool; }
impl<T: XEq<T>> XEq<IndexSet<T>> for IndexSet<T> { open spec fn same(&self, o: &IndexSet<T>) -> bool { self.same_items(o) } #[verifier::external_body] fn x_eq(&self, o: &IndexSet<T>) -> (r: bool) { unimplemented!() } }
#[verifier::reject_recursive_types(T)]
//@type src/common.rs :: ItemOrList
//@fn src/common.rs :: <PartialEq for ItemOrList<T>>::eq | trait=XEq<ItemOrList<T>> | as=x_eq | gen=<T: XEq<T>> | extra=open spec fn same(&self, o: &ItemOrList<T>) -> bool { match (*self, *o) { (ItemOrList::Item(a), ItemOrList::Item(b)) => a.same(&b), (ItemOrList::List(a), ItemOrList::List(b)) => a.same(&b), _ => false } }
//@end
// ------------------------------------------------------------ images and their parts are compared as their texts
pub struct TagOrDigestStart { x: u8 }
//@type src/service/image.rs :: Image
//@fn src/service/image.rs :: <PartialEq for Image>::eq | trait=XEq<Image> | as=x_eq | extra=open spec fn same(&self, o: &Image) -> bool { self.inner@ == o.inner@ }
//@end
//@fn src/service/image.rs :: <PartialEq<str> for Image>::eq | trait=XEq<str> | as=x_eq | extra=open spec fn same(&self, o: &str) -> bool { self.inner@ == o@ }
//@end
//@fn src/service/image.rs :: <PartialEq<&str> for Image>::eq | trait=XEq<&str> | as=x_eq | extra=open spec fn same(&self, o: &&str) -> bool { self.inner@ == (*o)@ }
//@end
//@fn src/service/image.rs :: <Ord for Image>::cmp | trait=XOrd | as=x_cmp | extra=open spec fn ord(&self, o: &Image) -> Ordering { text_ord(self.inner@, o.inner@) }
//@end
//@fn src/service/image.rs :: <PartialOrd for Image>::partial_cmp | as=x_partial_cmp
    ensures r == Some(text_ord(self.inner@, other.inner@))
//@end
//@fn src/service/image.rs :: <Hash for Image>::hash | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { code_of(self.inner@) } proof fn lemma_alike(&self, o: &Self) { }
//@end
/// (`Borrow<str>`: an image is found by its text)
pub proof fn theorem_borrow(a: Image, t: &str) requires a.same(t) ensures a.code() == t.code() { }
mod name { use super::*;
//@type src/service/image/name.rs :: Name
//@fn src/service/image/name.rs :: <PartialEq for Name>::eq | gen=<'a> | trait=XEq<Name<'a>> | as=x_eq | extra=open spec fn same(&self, o: &Name<'a>) -> bool { self.inner@ == o.inner@ }
//@end
//@fn src/service/image/name.rs :: <Ord for Name>::cmp | gen=<'a> | trait=XOrd | as=x_cmp | extra=open spec fn ord(&self, o: &Name<'a>) -> Ordering { text_ord(self.inner@, o.inner@) }
//@end
//@fn src/service/image/name.rs :: <PartialOrd for Name>::partial_cmp | gen=<'a> | as=x_partial_cmp
    ensures r == Some(text_ord(self.inner@, other.inner@))
//@end
//@fn src/service/image/name.rs :: <Hash for Name>::hash | gen=<'a> | trait=XHash | as=x_hash | extra=open spec fn code(&self) -> Seq<int> { code_of(self.inner@) } proof fn lemma_alike(&self, o: &Self) { }
//@end
//@fn src/service/image/name.rs :: <PartialEq<str> for Name>::eq | gen=<'a> | trait=XEq<str> | as=x_eq | extra=open spec fn same(&self, o: &str) -> bool { self.inner@ == o@ }
//@end
//@fn src/service/image/name.rs :: <PartialEq<&str> for Name>::eq | gen=<'a> | as=eq_text_ref
    ensures r == (self.inner@ == (*other)@)
//@end
}
mod tag { use super::*;
//@type src/service/image/tag.rs :: Tag
//@fn src/service/image/tag.rs :: <PartialEq<str> for Tag>::eq | gen=<'a> | trait=XEq<str> | as=x_eq | extra=open spec fn same(&self, o: &str) -> bool { self.0@ == o@ }
//@end
//@fn src/service/image/tag.rs :: <PartialEq<&str> for Tag>::eq | gen=<'a> | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
}
mod digest { use super::*;
//@type src/service/image/digest.rs :: Digest
//@fn src/service/image/digest.rs :: <PartialEq<str> for Digest>::eq | gen=<'a> | trait=XEq<str> | as=x_eq | extra=open spec fn same(&self, o: &str) -> bool { self.0@ == o@ }
//@end
//@fn src/service/image/digest.rs :: <PartialEq<&str> for Digest>::eq | gen=<'a> | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
}
// ------------------------------------------------------------ numbers in a range are compared as the numbers
//@type src/service/deploy/resources.rs :: Count
//@fn src/service/deploy/resources.rs :: <PartialEq<u64> for Count>::eq | as=eq_u64
    ensures r == (*self == Count::Integer(*other))
//@end
//@type src/service/device.rs :: MajorMinorNumber
//@fn src/service/device.rs :: <PartialEq<u16> for MajorMinorNumber>::eq | as=eq_u16
    ensures r == (*self == MajorMinorNumber::Integer(*other))
//@end
//@type src/service.rs :: Percent
//@fn src/service.rs :: <PartialEq<u8> for Percent>::eq | as=eq_u8
    ensures r == (self.0 == *other)
//@end
//@type src/service.rs :: OomScoreAdj
//@fn src/service.rs :: <PartialEq<i16> for OomScoreAdj>::eq | as=eq_i16
    ensures r == (self.0 == *other)
//@end
whole!(NonZeroU16);
impl NonZeroU16 { pub uninterp spec fn num(&self) -> u16; #[verifier::external_body] pub fn get(&self) -> (r: u16) ensures r == self.num() { unimplemented!() } }
//@type src/service/blkio_config.rs :: Weight
//@fn src/service/blkio_config.rs :: <PartialEq<u16> for Weight>::eq | as=eq_u16
    ensures r == (self.0.num() == *other)
//@end
//@fn src/service/blkio_config.rs :: <PartialEq<NonZeroU16> for Weight>::eq | as=eq_nz
    ensures r == self.0.same(other)
//@end
/// comparison of floating point numbers (std)
pub uninterp spec fn float_same(a: f64, b: f64) -> bool;
pub uninterp spec fn float_ord(a: f64, b: f64) -> Option<Ordering>;
impl XEq<f64> for f64 { open spec fn same(&self, o: &f64) -> bool { float_same(*self, *o) } #[verifier::external_body] fn x_eq(&self, o: &f64) -> (r: bool) { unimplemented!() } }
pub trait XPartialOrd { fn x_partial_cmp(&self, o: &f64) -> (r: Option<Ordering>); }
impl XPartialOrd for f64 { #[verifier::external_body] fn x_partial_cmp(&self, o: &f64) -> (r: Option<Ordering>) ensures r == float_ord(*self, *o) { unimplemented!() } }
//@type src/service/deploy/resources.rs :: Cpus
//@fn src/service/deploy/resources.rs :: <PartialEq<f64> for Cpus>::eq | as=eq_f64
    ensures r == float_same(self.0, *other)
//@end
//@fn src/service/deploy/resources.rs :: <PartialOrd<f64> for Cpus>::partial_cmp | as=cmp_f64
    ensures r == float_ord(self.0, *other)
//@end
} // verus!
fn main() {}
