//@include prelude.vrs
verus! {
//@flag xfor
//@method iter => x_iter
//@method fmt => x_fmt
//@method as_ref => x_as_ref
//@method next => x_next
//@method into => x_into
//@method into_iter => x_into_iter
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@rename Map => XMap
//@include std_more.inc
//@include collections.inc
//@include collect.inc
//@include extensions.inc
/// parts read by no function below
macro_rules! opaque { ($($t:ident),*) => { verus! { $( #[verifier::external_body] pub struct $t { x: u8 } impl XKey for $t { uninterp spec fn key(&self) -> Seq<char>; } )* } } }
opaque!(MapKey, Value, Context, Dockerfile, SshAuth, Cache, Hostname, IpAddr, ByteValue, Identifier, Image, Platform, Resource, PathBuf, Range);
impl XKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
pub type XMap = XIndexMap<MapKey, Option<Value>>;
//@type src/common.rs :: ListOrMap
//@include unset.inc
// ------------------------------------------------------------ short or long
/// the short form a value has, if any
pub trait AsShort: Sized {
    type Short;
    spec fn short(&self) -> Option<Self::Short>;
    fn as_short(&self) -> (r: Option<&Self::Short>) ensures match r { Some(s) => self.short() == Some(*s), None => self.short() is None };
}
//@type src/common/short_or_long.rs :: ShortOrLong
pub mod short_or_long {
use super::*;
//@fn src/common/short_or_long.rs :: <AsShort for &T>::as_short | trait=AsShort | gen=<T: AsShort> | extra=type Short = T::Short; open spec fn short(&self) -> Option<T::Short> { (**self).short() }
//@end
//@fn src/common/short_or_long.rs :: ShortOrLong::is_short | gen=<S, L>
    ensures r == (self is Short)
//@end
//@fn src/common/short_or_long.rs :: ShortOrLong::is_long | gen=<S, L>
    ensures r == (self is Long)
//@end
//@fn src/common/short_or_long.rs :: ShortOrLong::as_long | gen=<S, L>
    ensures match *self { ShortOrLong::Long(v) => r is Some && *r->0 == v, _ => r is None }
//@end
//@fn src/common/short_or_long.rs :: <AsShort for ShortOrLong<L::Short,L>>::as_short | trait=AsShort | gen=<L: AsShort> | extra=type Short = L::Short; open spec fn short(&self) -> Option<L::Short> { match self { ShortOrLong::Short(s) => Some(*s), ShortOrLong::Long(l) => l.short() } }
//@end
}
// ------------------------------------------------------------ a set becomes a map with every value at its default
impl<T> XIter<T> { pub fn collect<C: XFromItems<T>>(self) -> (r: C) ensures C::made(self.rest(), r) { self.x_collect() } }
//@rename std::iter::repeat_with => x_repeat_with
//@rename V::default => x_default_of::<V>()
/// the default of a type, as a function value
pub struct XDefaultOf<V> { v: core::marker::PhantomData<V> }
#[verifier::external_body] pub fn x_default_of<V>() -> (r: XDefaultOf<V>) { unimplemented!() }
pub struct XRepeat<V> { v: core::marker::PhantomData<V> }
#[verifier::external_body] pub fn x_repeat_with<V>(f: XDefaultOf<V>) -> (r: XRepeat<V>) { unimplemented!() }
/// the default of a type (some value of it)
pub uninterp spec fn default_of<V>() -> V;
impl<K> XIter<K> {
    #[verifier::external_body]
    pub fn zip<V>(self, d: XRepeat<V>) -> (r: XIter<(K, V)>) ensures r.rest() == with_default::<K, V>(self.rest()) { unimplemented!() }
}
pub open spec fn with_default<K, V>(ks: Seq<K>) -> Seq<(K, V)> { Seq::new(ks.len(), |i: int| (ks[i], default_of::<V>())) }
pub proof fn lemma_put_distinct<K: XKey, V>(es: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0.key() != (#[trigger] es[j]).0.key()
    ensures put_all(es) =~= es
    decreases es.len()
{
    if es.len() > 0 {
        let d = es.drop_last();
        lemma_put_distinct(d);
        lemma_no_key(d, es.last().0.key());
    }
}
pub proof fn lemma_no_key<K: XKey, V>(es: Seq<(K, V)>, k: Seq<char>)
    requires forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0.key() != k
    ensures key_at(es, k) < 0
    decreases es.len()
{
    if es.len() > 0 { assert(es.last() == es[es.len() - 1]); let d = es.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0.key() != k by { assert(d[i] == es[i]); } lemma_no_key(d, k); }
}
//@fn src/common/short_or_long.rs :: <From<ShortOrLong<S,Self>> for IndexMap<K,V>>::from | as=from_short_or_long | self=XIndexMap<K, V> | gen=<K: XKey, V> | noimplgen | subst=S:XIndexSet<K>
    ensures match value { ShortOrLong::Short(s) => r.entries() == with_default::<K, V>(s.list()), ShortOrLong::Long(l) => r == l }
//@proof start
    broadcast use XIndexSet::axiom_set_distinct;
    let ghost v = value;
    proof { if let ShortOrLong::Short(s) = v { lemma_put_distinct(with_default::<K, V>(s.list())); } }
//@end
// ------------------------------------------------------------ build
pub mod build {
use super::*;
opaque!(Network, ConfigOrSecret, Ulimit, Limit);
pub type Ulimits = XIndexMap<Resource, ShortOrLong<Limit, Ulimit>>;
//@type src/service/build.rs :: Build
impl Build { pub open spec fn rest_unset(&self) -> bool {
    &&& self.dockerfile.unset() &&& self.args.unset() &&& self.ssh.unset() &&& self.cache_from.unset()
    &&& self.cache_to.unset() &&& self.additional_contexts.unset() &&& self.entitlements.unset() &&& self.extra_hosts.unset()
    &&& self.isolation.unset() &&& self.privileged.unset() &&& self.labels.unset() &&& self.no_cache.unset() &&& self.pull.unset()
    &&& self.network.unset() &&& self.shm_size.unset() &&& self.target.unset() &&& self.secrets.unset() &&& self.tags.unset()
    &&& self.ulimits.unset() &&& self.platforms.unset() &&& self.extensions.unset()
} }
//@fn expanded :: service::build::<AsShort for Build>::as_short | trait=AsShort | extra=type Short = Context; open spec fn short(&self) -> Option<Context> { if self.rest_unset() { self.context } else { None } }
//@end
//@fn expanded :: service::build::<From<Context> for Build>::from
    ensures r.short() == Some(context)
//@end
//@fn expanded :: common::short_or_long::<From<ShortOrLong<S,Self>> for Build>::from | as=from_either<S: XInto<Build>> | self=Build | noimplgen
    ensures match value { ShortOrLong::Short(s) => S::x_into_post(s, r), ShortOrLong::Long(l) => r == l }
//@end
}
// ------------------------------------------------------------ configs and secrets
pub mod config_or_secret {
use super::*;
//@type src/service/config_or_secret.rs :: ConfigOrSecret
//@fn expanded :: service::config_or_secret::<AsShort for ConfigOrSecret>::as_short | trait=AsShort | extra=type Short = Identifier; open spec fn short(&self) -> Option<Identifier> { if self.target is None && self.uid is None && self.gid is None && self.mode is None && self.extensions.unset() { Some(self.source) } else { None } }
//@end
//@fn expanded :: service::config_or_secret::<From<Identifier> for ConfigOrSecret>::from
    ensures r.short() == Some(source)
//@end
//@fn expanded :: common::short_or_long::<From<ShortOrLong<S,Self>> for ConfigOrSecret>::from | as=from_either<S: XInto<ConfigOrSecret>> | self=ConfigOrSecret | noimplgen
    ensures match value { ShortOrLong::Short(s) => S::x_into_post(s, r), ShortOrLong::Long(l) => r == l }
//@end
}
// ------------------------------------------------------------ environment files
pub mod env_file {
use super::*;
//@fn src/serde.rs :: default_true
    ensures r
//@end
//@fn src/serde.rs :: skip_true
    ensures r == *bool
//@end
//@type src/service/env_file.rs :: Config
//@fn expanded :: service::env_file::<AsShort for Config>::as_short | trait=AsShort | extra=type Short = PathBuf; open spec fn short(&self) -> Option<PathBuf> { if self.required { Some(self.path) } else { None } }
//@end
//@fn expanded :: service::env_file::<From<PathBuf> for Config>::from
    ensures r.short() == Some(path)
//@end
pub type List = Vec<ShortOrLong<PathBuf, Config>>;
//@fn expanded :: common::short_or_long::<From<PathBuf> for ShortOrLong<PathBuf,L>>::from | as=from_path | gen=<L>
    ensures r == ShortOrLong::<PathBuf, L>::Short(value)
//@end
impl XInto<ShortOrLong<PathBuf, Config>> for PathBuf {
    open spec fn x_into_post(self, u: ShortOrLong<PathBuf, Config>) -> bool { u == ShortOrLong::<PathBuf, Config>::Short(self) }
    fn x_into(self) -> (u: ShortOrLong<PathBuf, Config>) { ShortOrLong::<PathBuf, Config>::from_path(self) }
}
//@fn expanded :: common::short_or_long::<From<ShortOrLong<S,Self>> for env_file::Config>::from | as=from_either<S: XInto<Config>> | self=Config | noimplgen
    ensures match value { ShortOrLong::Short(s) => S::x_into_post(s, r), ShortOrLong::Long(l) => r == l }
//@end
//@type src/service/env_file.rs :: EnvFile
//@fn src/service/env_file.rs :: EnvFile::as_single
    ensures match *self { EnvFile::Single(p) => r is Some && *r->0 == p, EnvFile::List(l) => if l@.len() == 1 { match l@[0].short() { Some(p) => r is Some && *r->0 == p, None => r is None } } else { r is None } }
//@end
//@fn src/service/env_file.rs :: EnvFile::into_list
    ensures match self { EnvFile::Single(p) => r@.len() == 1 && r@[0].short() == Some(p), EnvFile::List(l) => r == l }
//@end
}
// ------------------------------------------------------------ port ranges
pub mod ports {
use super::*;
//@type src/service/ports.rs :: ShortRanges
//@fn expanded :: service::ports::<AsShort for ShortRanges>::as_short | trait=AsShort | extra=type Short = Range; open spec fn short(&self) -> Option<Range> { if self.host is None { Some(self.container) } else { None } }
//@end
//@fn expanded :: service::ports::<From<Range> for ShortRanges>::from
    ensures r.short() == Some(container)
//@end
}
// ------------------------------------------------------------ ulimits
pub mod ulimit {
use super::*;
//@type src/service/limit.rs :: Limit | derive=Clone, Copy
// `PartialEq` is derived
impl PartialEq for Limit<u64> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Limit<u64> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
//@type src/service/ulimit.rs :: Ulimit
//@fn expanded :: common::short_or_long::<From<ShortOrLong<S,Self>> for Ulimit>::from | as=from_either<S: XInto<Ulimit>> | self=Ulimit | noimplgen
    ensures match value { ShortOrLong::Short(s) => S::x_into_post(s, r), ShortOrLong::Long(l) => r == l }
//@end
//@fn src/service/ulimit.rs :: <AsShort for Ulimit>::as_short | trait=AsShort | extra=type Short = Limit<u64>; open spec fn short(&self) -> Option<Limit<u64>> { if self.soft == self.hard && self.extensions.unset() { Some(self.soft) } else { None } }
//@end
//@fn src/service/ulimit.rs :: <From<Limit<u64>> for Ulimit>::from
    ensures r.short() == Some(value)
//@end
}
// ------------------------------------------------------------ includes
pub mod include {
use super::*;
#[verifier::reject_recursive_types(T)]
//@type src/common.rs :: ItemOrList
//@fn src/common.rs :: ItemOrList::as_item | gen=<T: XKey> | noimplgen | self=ItemOrList<T>
    ensures match *self { ItemOrList::Item(v) => r is Some && *r->0 == v, ItemOrList::List(l) => if l.list().len() == 1 { r is Some && *r->0 == l.list()[0] } else { r is None } }
//@end
//@type src/include.rs :: Include
//@fn src/include.rs :: <AsShort for Include>::as_short | trait=AsShort | extra=type Short = PathBuf; open spec fn short(&self) -> Option<PathBuf> { if self.project_directory is None && self.env_file is None { match self.path { ItemOrList::Item(p) => Some(p), ItemOrList::List(l) => if l.list().len() == 1 { Some(l.list()[0]) } else { None } } } else { None } }
//@end
//@fn src/include.rs :: <From<PathBuf> for Include>::from
    ensures r.short() == Some(value)
//@end
//@fn expanded :: common::short_or_long::<From<ShortOrLong<S,Self>> for Include>::from | as=from_either<S: XInto<Include>> | self=Include | noimplgen
    ensures match value { ShortOrLong::Short(s) => S::x_into_post(s, r), ShortOrLong::Long(l) => r == l }
//@end
}
// ------------------------------------------------------------ maps whose values may be left at their default
pub trait AsShortIter: Sized {
    type Item;
    /// the keys, when nothing but the keys is set
    spec fn short_keys(&self) -> Option<Seq<Self::Item>>;
    fn as_short_iter<'a>(&'a self) -> (r: Option<XIter<&'a Self::Item>>)
        ensures match (r, self.short_keys()) {
            (Some(it), Some(ks)) => it.rest().len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] it.rest()[i]) == ks[i],
            (None, None) => true,
            _ => false,
        };
}
/// what a short-or-long value iterates over: the list it is, or the keys of a map which sets nothing but its keys
pub open spec fn same_items<T>(rest: Seq<&T>, ks: Seq<T>) -> bool { rest.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] rest[i]) == ks[i] }
impl<K: XKey, L: AsShortIter<Item = K>> ShortOrLong<XIndexSet<K>, L> {
//@fn src/common/short_or_long.rs :: <AsShortIter for ShortOrLong<S,L>>::as_short_iter | free | as=short_iter<'a> | meth=into_iter:x_iter | retty=Option<ShortOrLong<XIter<&'a K>, XIter<&'a K>>>
    ensures match *self {
        ShortOrLong::Short(s) => (r matches Some(i) && i is Short && same_items(i->Short_0.rest(), s.list())),
        ShortOrLong::Long(l) => match l.short_keys() { Some(ks) => (r matches Some(i) && i is Long && same_items(i->Long_0.rest(), ks)), None => r is None },
    }
//@end
}
pub open spec fn keys_of<K, V>(es: Seq<(K, V)>) -> Seq<K> { Seq::new(es.len(), |i: int| es[i].0) }
pub mod network_config {
use super::*;
opaque!(Ipv4Addr, Ipv6Addr, MacAddress, StringOrNumber);
//@type src/service/network_config.rs :: Network
impl XUnset for Network { open spec fn unset(&self) -> bool { &&& self.aliases.unset() &&& self.ipv4_address.unset() &&& self.ipv6_address.unset() &&& self.link_local_ips.unset() &&& self.mac_address.unset() &&& self.driver_opts.unset() &&& self.priority.unset() &&& self.extensions.unset() } }
//@fn src/service/network_config.rs :: Network::is_empty
    ensures r == self.unset()
//@end
pub open spec fn all_none(es: Seq<(Identifier, Option<Network>)>) -> bool { forall|i: int| 0 <= i < es.len() ==> no_options((#[trigger] es[i]).1) }
pub proof fn lemma_all_none(es: Seq<(Identifier, Option<Network>)>)
    requires es.len() > 0
    ensures all_none(es) == (all_none(es.drop_last()) && no_options(es.last().1))
{
    let d = es.drop_last();
    if all_none(d) && no_options(es.last().1) { assert forall|i: int| 0 <= i < es.len() implies no_options((#[trigger] es[i]).1) by { if i < d.len() { assert(d[i] == es[i]); } } }
    if all_none(es) { assert forall|i: int| 0 <= i < d.len() implies no_options((#[trigger] d[i]).1) by { assert(d[i] == es[i]); } }
}
pub open spec fn no_options(o: Option<Network>) -> bool { match o { Some(n) => n.unset(), None => true } }
/// the default of an option is none
#[verifier::external_body]
pub proof fn axiom_default_option() ensures default_of::<Option<Network>>() == None::<Network> { }
/// a map that collapses to its keys differs from what the keys expand to only by networks without any option
pub proof fn theorem_networks(m: XIndexMap<Identifier, Option<Network>>)
    ensures m.short_keys() matches Some(ks) ==> {
        let e = with_default::<Identifier, Option<Network>>(ks);
        e.len() == m.entries().len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 == m.entries()[i].0 && e[i].1 is None && no_options(m.entries()[i].1)
    }
{ axiom_default_option(); }
//@fn src/service/network_config.rs :: <AsShortIter for IndexMap<Identifier,Option<Network>>>::as_short_iter | as=as_short_iter<'a> | retty=Option<XIter<&'a Identifier>> | trait=AsShortIter | extra=type Item = Identifier; open spec fn short_keys(&self) -> Option<Seq<Identifier>> { if all_none(self.entries()) { Some(keys_of(self.entries())) } else { None } }
//@loop 0
    invariant it0.seq().len() == self.entries().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.entries()[i].1, __a0 == all_none(self.entries().take(it0.index() as int)),
//@proof loop 0 start
    proof { let n = it0.index() as int; let es = self.entries(); assert(es.take(n + 1).drop_last() =~= es.take(n)); assert(es.take(n + 1).last() == es[n]); lemma_all_none(es.take(n + 1)); }
//@proof tail
    proof { assert(self.entries().take(self.entries().len() as int) =~= self.entries()); }
//@end
}
pub mod depends_on {
use super::*;
//@type src/service.rs :: Condition | derive=Clone, Copy
//@type src/service.rs :: Dependency | derive=Clone, Copy
// `PartialEq` is derived
impl PartialEq for Dependency { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Dependency {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl XUnset for Condition { open spec fn unset(&self) -> bool { self is ServiceStarted } }
//@fn expanded :: service::<Default for Condition>::default | trait=XFresh | as=x_fresh
//@end
pub open spec fn plain() -> Dependency { Dependency { condition: Condition::ServiceStarted, restart: false, required: true } }
//@fn expanded :: service::<Default for Dependency>::default
    ensures r == plain()
//@end
pub open spec fn all_plain(es: Seq<(Identifier, Dependency)>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1 == plain() }
pub proof fn lemma_all_plain(es: Seq<(Identifier, Dependency)>)
    requires es.len() > 0
    ensures all_plain(es) == (all_plain(es.drop_last()) && es.last().1 == plain())
{
    let d = es.drop_last();
    if all_plain(d) && es.last().1 == plain() { assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1 == plain() by { if i < d.len() { assert(d[i] == es[i]); } } }
    if all_plain(es) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1 == plain() by { assert(d[i] == es[i]); } }
}
//@fn src/service.rs :: <AsShortIter for IndexMap<Identifier,Dependency>>::as_short_iter | as=as_short_iter<'a> | retty=Option<XIter<&'a Identifier>> | trait=AsShortIter | extra=type Item = Identifier; open spec fn short_keys(&self) -> Option<Seq<Identifier>> { if all_plain(self.entries()) { Some(keys_of(self.entries())) } else { None } }
//@loop 0
    invariant default_options == plain(), it0.seq().len() == self.entries().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.entries()[i].1, __a0 == all_plain(self.entries().take(it0.index() as int)),
//@proof loop 0 start
    proof { let n = it0.index() as int; let es = self.entries(); assert(es.take(n + 1).drop_last() =~= es.take(n)); assert(es.take(n + 1).last() == es[n]); lemma_all_plain(es.take(n + 1)); }
//@proof tail
    proof { assert(self.entries().take(self.entries().len() as int) =~= self.entries()); }
//@end
/// what `Dependency::default` gives (its contract is above)
#[verifier::external_body]
pub proof fn axiom_default_dependency() ensures default_of::<Dependency>() == plain() { }
/// a map that collapses to its keys is what the keys expand to
pub proof fn theorem_depends_on(m: XIndexMap<Identifier, Dependency>)
    ensures m.short_keys() matches Some(ks) ==> with_default::<Identifier, Dependency>(ks) =~= m.entries()
{ axiom_default_dependency(); }
pub type DependsOn = ShortOrLong<XIndexSet<Identifier>, XIndexMap<Identifier, Dependency>>;
//@fn src/service.rs :: depends_on_is_empty
    ensures r == (match *depends_on { ShortOrLong::Short(s) => s.unset(), ShortOrLong::Long(l) => l.unset() })
//@end
}
} // verus!
fn main() {}
