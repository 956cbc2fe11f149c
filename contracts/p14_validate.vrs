//@include prelude.vrs
verus! {
//@flag xfor
//@rename IndexMap => XIndexMap
//@rename IndexSet => XIndexSet
//@rename HashMap => XHashMap
//@rename HashMap::new => XHashMap::new
//@method iter => x_iter
//@method next => x_next
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@include std_more.inc
//@include collections.inc
//@include identifier.inc
impl XKey for Identifier { open spec fn key(&self) -> Seq<char> { self.0@ } }
impl Clone for Identifier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.0@ == self.0@ { unimplemented!() } }
// `PartialEq` is derived
impl PartialEq for Identifier { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Identifier {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ }
}
// ------------------------------------------------------------ short or long forms
//@type src/common/short_or_long.rs :: ShortOrLong
//@fn src/common/short_or_long.rs :: <Iterator for ShortOrLong<S,L>>::next | as=x_next | trait=XIterator | gen=<T, S: XIterator<Item = T>, L: XIterator<Item = T>> | retty=Option<T> | extra=type Item = T; open spec fn rest(self) -> Seq<T> { match self { ShortOrLong::Short(i) => i.rest(), ShortOrLong::Long(i) => i.rest() } }
//@end
impl<K: XKey, V> ShortOrLong<XIndexSet<K>, XIndexMap<K, V>> {
    pub open spec fn names(&self) -> Seq<K> { match self { ShortOrLong::Short(s) => s.list(), ShortOrLong::Long(m) => Seq::new(m.entries().len(), |i: int| m.entries()[i].0) } }
}
//@fn src/common/short_or_long.rs :: ShortOrLong::keys | retty=ShortOrLong<XIter<&K>, XIter<&K>> | gen=<K: XKey, V> | noimplgen | self=ShortOrLong<XIndexSet<K>, XIndexMap<K, V>>
    ensures r.rest().len() == self.names().len(), forall|i: int| 0 <= i < self.names().len() ==> *(#[trigger] r.rest()[i]) == self.names()[i]
//@end
// ------------------------------------------------------------ the parts of a file which name resources
// types read by no function below are opaque
pub struct Resource<T> { t: T }
pub struct Network { x: u8 }
pub struct Volume { x: u8 }
pub struct Config { x: u8 }
pub struct Secret { x: u8 }
pub type Networks = XIndexMap<Identifier, Option<Resource<Network>>>;
pub type Volumes = XIndexMap<Identifier, Option<Resource<Volume>>>;
pub type Configs = XIndexMap<Identifier, Resource<Config>>;
pub type Secrets = XIndexMap<Identifier, Resource<Secret>>;
pub use service::Service;
//@type src/lib.rs :: Compose | fields=services+networks+volumes+configs+secrets
//@type src/lib.rs :: ResourceKind | derive=Clone, Copy
//@type src/lib.rs :: ValidationError
pub mod network_config {
use super::*;
pub struct NetworkMode { x: u8 }
pub struct Network { x: u8 }
pub type Networks = ShortOrLong<XIndexSet<Identifier>, XIndexMap<Identifier, Option<Network>>>;
//@type src/service/network_config.rs :: NetworkConfig
}
pub mod service {
use super::*;
use super::network_config::NetworkConfig;
use volumes::Volumes;
pub struct Context { x: u8 }
//@type src/service/config_or_secret.rs :: ConfigOrSecret | fields=source
//@type src/service/build.rs :: Build | fields=secrets
pub mod volumes {
use super::super::*;
pub struct HostPath { x: u8 }
pub struct Bind { x: u8 }
pub struct Tmpfs { x: u8 }
pub struct NamedPipe { x: u8 }
pub struct Cluster { x: u8 }
//@type src/service/volumes/mount.rs :: Volume | fields=source
//@type src/service/volumes/mount.rs :: Mount
//@type src/service/volumes.rs :: Source
//@type src/service/volumes.rs :: ShortOptions | fields=source
//@type src/service/volumes.rs :: ShortVolume | fields=options
pub type Volumes = XIndexSet<ShortOrLong<ShortVolume, Mount>>;
/// the volume a mount names
pub open spec fn mount_volume(m: ShortOrLong<ShortVolume, Mount>) -> Option<Identifier> {
    match m {
        ShortOrLong::Short(s) => match s.options { Some(o) => match o.source { Source::Volume(v) => Some(v), Source::HostPath(_) => None }, None => None },
        ShortOrLong::Long(Mount::Volume(v)) => v.source,
        ShortOrLong::Long(_) => None,
    }
}
/// the volumes which a list of mounts names
pub open spec fn volume_names(s: Seq<ShortOrLong<ShortVolume, Mount>>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { match mount_volume(s.last()) { Some(v) => volume_names(s.drop_last()).push(v.key()), None => volume_names(s.drop_last()) } }
}
pub open spec fn names_are(r: XIter<&Identifier>, s: Seq<Seq<char>>) -> bool { r.rest().len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r.rest()[i]).key() == s[i] }
//@fn src/service/volumes.rs :: named_volumes_iter | retty=XIter<&Identifier>
    ensures names_are(r, volume_names(volumes.list()))
//@loop 0
    invariant
        it0.seq().len() == volumes.list().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == volumes.list()[i],
        names_are(__o0, volume_names(volumes.list().take(it0.index()))),
//@proof loop 0 start
    proof { let n = it0.index(); assert(volumes.list().take(n + 1).drop_last() =~= volumes.list().take(n)); assert(volumes.list().take(n + 1).last() == volumes.list()[n]); }
//@proof tail
    proof { assert(volumes.list().take(volumes.list().len() as int) =~= volumes.list()); }
//@end
}
//@type src/service.rs :: Service | fields=network_config+volumes+configs+secrets+build
/// the networks, configs and secrets which a service names
impl Service {
    pub open spec fn networks_named(&self) -> Seq<Identifier> { match self.network_config { Some(NetworkConfig::Networks(n)) => n.names(), _ => seq![] } }
    pub open spec fn configs_named(&self) -> Seq<Identifier> { sources(self.configs@) }
    pub open spec fn secrets_named(&self) -> Seq<Identifier> { sources(self.secrets@) + match self.build { Some(ShortOrLong::Long(b)) => sources(b.secrets@), _ => seq![] } }
    pub open spec fn volumes_named(&self) -> Seq<Seq<char>> { volumes::volume_names(self.volumes.list()) }
}
pub open spec fn sources(s: Seq<ShortOrLong<Identifier, ConfigOrSecret>>) -> Seq<Identifier> { Seq::new(s.len(), |i: int| match s[i] { ShortOrLong::Short(x) => x, ShortOrLong::Long(c) => c.source }) }
pub open spec fn listed<T>(s: Seq<T>) -> Seq<&'static T> { Seq::new(s.len(), |i: int| &s[i]) }
/// Ok exactly when all names are defined; an error is one which is not
pub open spec fn names_post<V>(names: Seq<Identifier>, top: XIndexMap<Identifier, V>, r: Result<(), Identifier>) -> bool {
    &&& r is Ok <==> all_defined(names, top)
    &&& r matches Err(e) ==> missing(names, top, e.key())
}
pub open spec fn all_defined<V>(names: Seq<Identifier>, top: XIndexMap<Identifier, V>) -> bool { forall|i: int| 0 <= i < names.len() ==> top.has((#[trigger] names[i]).key()) }
pub open spec fn missing<V>(names: Seq<Identifier>, top: XIndexMap<Identifier, V>, k: Seq<char>) -> bool { !top.has(k) && exists|i: int| 0 <= i < names.len() && (#[trigger] names[i]).key() == k }
//@fn src/service.rs :: Service::validate_networks
    ensures names_post(self.networks_named(), *networks, r)
//@loop 0
    invariant it0.seq().len() == self.networks_named().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.networks_named()[i], forall|i: int| 0 <= i < it0.index() ==> networks.has((#[trigger] self.networks_named()[i]).key()),
//@end
//@fn src/service.rs :: Service::validate_configs
    ensures names_post(self.configs_named(), *configs, r)
//@loop 0
    invariant it0.seq().len() == self.configs_named().len(), it0.seq() =~= listed(self.configs@), forall|i: int| 0 <= i < it0.index() ==> configs.has((#[trigger] self.configs_named()[i]).key()),
//@proof loop 0 start
    let ghost __g = self.configs_named()[it0.index() as int];
//@end
//@fn src/service.rs :: Service::validate_secrets
    ensures names_post(self.secrets_named(), *secrets, r)
//@loop 0
    invariant it0.seq() =~= listed(self.secrets@), forall|i: int| 0 <= i < it0.index() ==> secrets.has((#[trigger] self.secrets_named()[i]).key()),
//@proof loop 0 start
    let ghost __g = self.secrets_named()[it0.index() as int];
//@proof loop 1 start
    let ghost __g = self.secrets_named()[self.secrets@.len() + it1.index()];
//@loop 1
    invariant
        self.build is Some, self.build->0 matches ShortOrLong::Long(b) && b == *build,
        it1.seq() =~= listed(build.secrets@), forall|i: int| 0 <= i < self.secrets@.len() + it1.index() ==> secrets.has((#[trigger] self.secrets_named()[i]).key()),
//@end
}
/// what a service names of a kind of resource other than volumes
pub open spec fn named(s: Service, kind: ResourceKind) -> Seq<Identifier> {
    match kind { ResourceKind::Network => s.networks_named(), ResourceKind::Config => s.configs_named(), ResourceKind::Secret => s.secrets_named(), ResourceKind::Volume => seq![] }
}
/// Ok exactly when everything named by any service is defined; an error is something named and not defined
pub open spec fn kind_ok<V>(c: Compose, kind: ResourceKind, top: XIndexMap<Identifier, V>) -> bool {
    forall|i: int| 0 <= i < c.services.entries().len() ==> service::all_defined(named((#[trigger] c.services.entries()[i]).1, kind), top)
}
pub open spec fn kind_err<V>(c: Compose, kind: ResourceKind, top: XIndexMap<Identifier, V>, e: ValidationError) -> bool {
    e.kind == kind && e.service is Some && exists|i: int| 0 <= i < c.services.entries().len() && (#[trigger] c.services.entries()[i]).0.key() == e.service->0.key()
        && service::missing(named(c.services.entries()[i].1, kind), top, e.resource.key())
}
pub open spec fn kind_post<V>(c: Compose, kind: ResourceKind, top: XIndexMap<Identifier, V>, r: Result<(), ValidationError>) -> bool {
    (r is Ok <==> kind_ok(c, kind, top)) && (r matches Err(e) ==> kind_err(c, kind, top, e))
}
/// whether service `i` names the volume `v`
pub open spec fn uses(c: Compose, i: int, v: Seq<char>) -> bool { 0 <= i < c.services.entries().len() && c.services.entries()[i].1.volumes_named().contains(v) }
pub open spec fn volumes_ok(c: Compose) -> bool { forall|i: int, j: int, v: Seq<char>| #[trigger] uses(c, i, v) && #[trigger] uses(c, j, v) && i < j ==> c.volumes.has(v) }
pub open spec fn volumes_err(c: Compose, e: ValidationError) -> bool {
    e.kind is Volume && e.service is None && !c.volumes.has(e.resource.key()) && exists|i: int, j: int| i < j && #[trigger] uses(c, i, e.resource.key()) && #[trigger] uses(c, j, e.resource.key())
}
pub open spec fn volumes_post(c: Compose, r: Result<(), ValidationError>) -> bool { (r is Ok <==> volumes_ok(c)) && (r matches Err(e) ==> volumes_err(c, e)) }
//@fn src/lib.rs :: Compose::validate_networks
    ensures kind_post(*self, ResourceKind::Network, self.networks, r)
//@loop 0
    invariant it0.seq() =~= (&self.services).items(), forall|i: int| 0 <= i < it0.index() ==> service::all_defined(named((#[trigger] self.services.entries()[i]).1, ResourceKind::Network), self.networks),
//@end
//@fn src/lib.rs :: Compose::validate_configs
    ensures kind_post(*self, ResourceKind::Config, self.configs, r)
//@loop 0
    invariant it0.seq() =~= (&self.services).items(), forall|i: int| 0 <= i < it0.index() ==> service::all_defined(named((#[trigger] self.services.entries()[i]).1, ResourceKind::Config), self.configs),
//@end
//@fn src/lib.rs :: Compose::validate_secrets
    ensures kind_post(*self, ResourceKind::Secret, self.secrets, r)
//@loop 0
    invariant it0.seq() =~= (&self.services).items(), forall|i: int| 0 <= i < it0.index() ==> service::all_defined(named((#[trigger] self.services.entries()[i]).1, ResourceKind::Secret), self.secrets),
//@end
/// service `i` names the volume `v`, as far as the first `b` names of service `a` and all those before `a`
pub open spec fn seen(c: Compose, a: int, b: int, i: int, v: Seq<char>) -> bool {
    &&& 0 <= i <= a && i < c.services.entries().len()
    &&& if i < a { uses(c, i, v) } else { c.services.entries()[i].1.volumes_named().take(b).contains(v) }
}
/// service `i` is the first to name `v`
pub open spec fn first_user(c: Compose, a: int, b: int, i: int, v: Seq<char>) -> bool { seen(c, a, b, i, v) && forall|j: int| #[trigger] seen(c, a, b, j, v) ==> i <= j }
pub open spec fn vol_inv(c: Compose, a: int, b: int, m: Map<Seq<char>, &Identifier>) -> bool {
    &&& forall|i: int, v: Seq<char>| #[trigger] seen(c, a, b, i, v) ==> m.dom().contains(v)
    &&& forall|v: Seq<char>| #[trigger] m.dom().contains(v) ==> exists|i: int| #[trigger] first_user(c, a, b, i, v) && m[v].key() == c.services.entries()[i].0.key()
    &&& forall|i: int, j: int, v: Seq<char>| #[trigger] seen(c, a, b, i, v) && #[trigger] seen(c, a, b, j, v) && i < j ==> c.volumes.has(v)
}
pub proof fn lemma_seen_step(c: Compose, a: int, b: int)
    requires 0 <= a < c.services.entries().len(), 0 <= b < c.services.entries()[a].1.volumes_named().len()
    ensures forall|i: int, v: Seq<char>| #[trigger] seen(c, a, b + 1, i, v) <==> seen(c, a, b, i, v) || (i == a && v == c.services.entries()[a].1.volumes_named()[b])
{
    let n = c.services.entries()[a].1.volumes_named();
    assert(n.take(b + 1) =~= n.take(b).push(n[b]));
    assert forall|i: int, v: Seq<char>| #[trigger] seen(c, a, b + 1, i, v) <==> seen(c, a, b, i, v) || (i == a && v == n[b]) by {
        if i == a { 
            if n.take(b).contains(v) { let k = choose|k: int| 0 <= k < b && n.take(b)[k] == v; assert(n.take(b + 1)[k] == v); }
            if v == n[b] { assert(n.take(b + 1)[b] == v); }
            if n.take(b + 1).contains(v) { let k = choose|k: int| 0 <= k < b + 1 && #[trigger] n.take(b + 1)[k] == v; if k < b { assert(n.take(b)[k] == v); } }
        }
    }
}
pub proof fn lemma_vol_step(c: Compose, a: int, b: int, m0: Map<Seq<char>, &Identifier>, m1: Map<Seq<char>, &Identifier>, v: Seq<char>, user: &Identifier, name: &Identifier)
    requires
        vol_inv(c, a, b, m0), 0 <= a < c.services.entries().len(), 0 <= b < c.services.entries()[a].1.volumes_named().len(),
        v == c.services.entries()[a].1.volumes_named()[b], *name == c.services.entries()[a].0,
        if m0.dom().contains(v) { user == m0[v] && m1 == m0 } else { user == name && m1 == m0.insert(v, name) },
    ensures
        uses(c, a, v),
        user.key() != name.key() ==> exists|i: int| i < a && #[trigger] uses(c, i, v),
        user.key() == name.key() || c.volumes.has(v) ==> vol_inv(c, a, b + 1, m1),
{
    lemma_seen_step(c, a, b);
    if m0.dom().contains(v) {
        let f = choose|i: int| #[trigger] first_user(c, a, b, i, v) && m0[v].key() == c.services.entries()[i].0.key();
        assert(seen(c, a, b, f, v));
        if user.key() != name.key() { assert(uses(c, f, v)); }
        if user.key() == name.key() && f < a { c.services.axiom_distinct(f, a); assert(false); }
    }
    if user.key() == name.key() || c.volumes.has(v) {
        assert forall|i: int, w: Seq<char>| #[trigger] seen(c, a, b + 1, i, w) implies m1.dom().contains(w) by { }
        assert forall|w: Seq<char>| #[trigger] m1.dom().contains(w) implies exists|i: int| #[trigger] first_user(c, a, b + 1, i, w) && m1[w].key() == c.services.entries()[i].0.key() by {
            if m0.dom().contains(w) {
                let f = choose|i: int| #[trigger] first_user(c, a, b, i, w) && m0[w].key() == c.services.entries()[i].0.key();
                assert(seen(c, a, b, f, w));
                assert(first_user(c, a, b + 1, f, w));
            } else {
                assert(w == v); assert(seen(c, a, b + 1, a, v));
                assert forall|j: int| #[trigger] seen(c, a, b + 1, j, w) implies a <= j by { if j < a { assert(seen(c, a, b, j, w)); } }
                assert(first_user(c, a, b + 1, a, w));
            }
        }
        assert forall|i: int, j: int, w: Seq<char>| #[trigger] seen(c, a, b + 1, i, w) && #[trigger] seen(c, a, b + 1, j, w) && i < j implies c.volumes.has(w) by {
            assert(seen(c, a, b, i, w));
            if !seen(c, a, b, j, w) {
                assert(j == a && w == v && m0.dom().contains(v));
            }
        }
    }
}
pub proof fn lemma_vol_next(c: Compose, a: int, m: Map<Seq<char>, &Identifier>)
    requires 0 <= a < c.services.entries().len(), vol_inv(c, a, c.services.entries()[a].1.volumes_named().len() as int, m)
    ensures vol_inv(c, a + 1, 0, m)
{
    let n = c.services.entries()[a].1.volumes_named();
    assert(n.take(n.len() as int) =~= n);
    assert forall|i: int, v: Seq<char>| #[trigger] seen(c, a + 1, 0, i, v) <==> seen(c, a, n.len() as int, i, v) by { }
    assert forall|v: Seq<char>| #[trigger] m.dom().contains(v) implies exists|i: int| #[trigger] first_user(c, a + 1, 0, i, v) && m[v].key() == c.services.entries()[i].0.key() by {
        let f = choose|i: int| #[trigger] first_user(c, a, n.len() as int, i, v) && m[v].key() == c.services.entries()[i].0.key();
        assert(first_user(c, a + 1, 0, f, v));
    }
}
pub proof fn lemma_vol_end(c: Compose, m: Map<Seq<char>, &Identifier>)
    requires vol_inv(c, c.services.entries().len() as int, 0, m)
    ensures volumes_ok(c)
{
    assert forall|i: int, j: int, v: Seq<char>| #[trigger] uses(c, i, v) && #[trigger] uses(c, j, v) && i < j implies c.volumes.has(v) by {
        assert(seen(c, c.services.entries().len() as int, 0, i, v)); assert(seen(c, c.services.entries().len() as int, 0, j, v));
    }
}
//@fn src/lib.rs :: Compose::validate_volumes
    ensures volumes_post(*self, r)
//@loop 0
    invariant it0.seq() =~= (&self.services).items(), vol_inv(*self, it0.index(), 0, users.map()),
//@loop 1
    invariant
        it0.seq() =~= (&self.services).items(), 0 <= it0.index() < self.services.entries().len(), *name == self.services.entries()[it0.index()].0, *service == self.services.entries()[it0.index()].1,
        it1.seq().len() == service.volumes_named().len(), forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).key() == service.volumes_named()[i],
        vol_inv(*self, it0.index(), it1.index(), users.map()),
//@proof loop 0 end
    proof { lemma_vol_next(*self, it0.index(), users.map()); }
//@proof loop 1 start
    let ghost __m = users.map();
//@proof after let user =
    proof { lemma_vol_step(*self, it0.index(), it1.index(), __m, users.map(), volume.key(), user, name); }
//@proof tail
    proof { lemma_vol_end(*self, users.map()); }
//@end
//@fn src/lib.rs :: Compose::validate_all
    ensures
        r is Ok <==> kind_ok(*self, ResourceKind::Network, self.networks) && volumes_ok(*self) && kind_ok(*self, ResourceKind::Config, self.configs) && kind_ok(*self, ResourceKind::Secret, self.secrets),
        r matches Err(e) ==> kind_err(*self, ResourceKind::Network, self.networks, e) || volumes_err(*self, e) || kind_err(*self, ResourceKind::Config, self.configs, e) || kind_err(*self, ResourceKind::Secret, self.secrets, e),
        // in this order
        r matches Err(e) ==> (!(e.kind is Network) ==> kind_ok(*self, ResourceKind::Network, self.networks)) && (e.kind is Config || e.kind is Secret ==> volumes_ok(*self)) && (e.kind is Secret ==> kind_ok(*self, ResourceKind::Config, self.configs)),
//@end
} // verus!
fn main() {}
