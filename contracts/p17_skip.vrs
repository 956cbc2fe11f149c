//@include prelude.vrs
verus! {
//@flag xfor
//@method iter => x_iter
//@method fmt => x_fmt
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@rename BTreeSet => XSet
//@rename S::default => S::x_fresh
//@rename core::default::Default::default => XFresh::x_fresh
//@rename Map => XMap
//@include std_more.inc
//@include collections.inc
//@include collect.inc
//@include extensions.inc
macro_rules! opaque { ($($t:ident),*) => { verus! { $( #[verifier::external_body] pub struct $t { x: u8 } impl XKey for $t { uninterp spec fn key(&self) -> Seq<char>; } )* } } }
opaque!(MapKey, Value, Identifier, Dependency);
impl XKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
pub type XMap = XIndexMap<MapKey, Option<Value>>;
//@type src/common.rs :: ListOrMap
//@include unset.inc
/// std `BTreeSet<u64>` (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XSet<T> { v: Vec<T> }
impl<T> XSet<T> { pub uninterp spec fn none(&self) -> bool; #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() } }
impl<T> XUnset for XSet<T> { open spec fn unset(&self) -> bool { self.none() } }
impl<T> XFresh for XSet<T> { #[verifier::external_body] fn x_fresh() -> (r: Self) { unimplemented!() } }
//@type src/service/cpuset.rs :: CpuSet
impl XUnset for CpuSet { open spec fn unset(&self) -> bool { self.0.unset() } }
//@fn expanded :: service::cpuset::<Default for CpuSet>::default | trait=XFresh | as=x_fresh
//@end
//@fn src/service/cpuset.rs :: CpuSet::is_empty
    ensures r == self.unset()
//@end
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(L)]
//@type src/common/short_or_long.rs :: ShortOrLong
impl<S: XUnset, L: XUnset> XUnset for ShortOrLong<S, L> { open spec fn unset(&self) -> bool { match *self { ShortOrLong::Short(s) => s.unset(), ShortOrLong::Long(l) => l.unset() } } }
//@fn src/common/short_or_long.rs :: <Default for ShortOrLong<S,L>>::default | trait=XFresh | as=x_fresh | gen=<S: XFresh, L: XUnset>
//@end
/// what is used when such a key is missing, and when it is left out
//@fn src/serde.rs :: default_true
    ensures r == true
//@end
//@fn src/serde.rs :: skip_true
    ensures r == *bool
//@end
pub type DependsOn = ShortOrLong<XIndexSet<Identifier>, XIndexMap<Identifier, Dependency>>;
//@fn src/service.rs :: depends_on_is_empty
    ensures r == depends_on.unset()
//@end
// ------------------------------------------------------------ every field that may be left out
//@skips src/lib.rs :: * | Networks=IndexMap | Volumes=IndexMap | Configs=IndexMap | Secrets=IndexMap
//@skips src/common.rs :: *
//@skips src/config.rs :: *
//@skips src/secret.rs :: *
//@skips src/network.rs :: * | Map=IndexMap
//@skips src/volume.rs :: * | Map=IndexMap
//@skips src/include.rs :: *
//@skips src/service.rs :: * | Ports=IndexSet | Volumes=IndexSet | Ulimits=IndexMap | Map=IndexMap | Networks=IndexMap | Configs=Vec | Extensions=IndexMap
//@skips src/service/blkio_config.rs :: *
//@skips src/service/build.rs :: * | Ulimits=IndexMap | Extensions=IndexMap
//@skips src/service/config_or_secret.rs :: *
//@skips src/service/credential_spec.rs :: *
//@skips src/service/deploy.rs :: * | Map=IndexMap
//@skips src/service/deploy/resources.rs :: * | Map=IndexMap
//@skips src/service/develop.rs :: *
//@skips src/service/env_file.rs :: *
//@skips src/service/healthcheck.rs :: *
//@skips src/service/network_config.rs :: *
//@skips src/service/ports.rs :: *
//@skips src/service/ulimit.rs :: *
//@skips src/service/volumes/mount.rs :: *
} // verus!
fn main() {}
