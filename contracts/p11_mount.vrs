//@include prelude.vrs
verus! {
//@flag xfor
//@rename IndexSet => XIndexSet
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@method unwrap_or_default => x_unwrap_or_default
//@rename Path::new => XPath::x_of
//@include std_more.inc
//@include to_string.inc
//@include paths.inc
//@include path_edit.inc
//@include identifier.inc
//@include absolute_path.inc
//@include host_path.inc
//@include extensions.inc
//@type src/service/volumes.rs :: ShortVolume
//@type src/service/volumes.rs :: ShortOptions
//@type src/service/volumes.rs :: Source
//@type src/service/volumes.rs :: SELinux | derive=Clone, Copy
//@type src/service/byte_value.rs :: ByteValue
//@type src/service/volumes/mount.rs :: Mount
//@type src/service/volumes/mount.rs :: Volume
//@type src/service/volumes/mount.rs :: VolumeOptions
//@type src/service/volumes/mount.rs :: Bind
//@type src/service/volumes/mount.rs :: BindOptions
//@type src/service/volumes/mount.rs :: BindPropagation | derive=Clone, Copy
//@type src/service/volumes/mount.rs :: Tmpfs
//@type src/service/volumes/mount.rs :: TmpfsOptions
//@type src/service/volumes/mount.rs :: NamedPipe
//@type src/service/volumes/mount.rs :: Cluster
//@type src/service/volumes/mount.rs :: Common
// ------------------------------------------------------------ what a mount says
/// a volume or bind mount, whichever syntax it is written in; options that are absent and options
/// that are all off say the same
pub enum From_ { Anonymous, Named(Identifier), Host(HostPath) }
pub struct Says {
    pub from: From_, pub target: AbsolutePath, pub read_only: bool, pub consistency: Option<String>, pub ext: Seq<ExtEntry>,
    pub nocopy: bool, pub subpath: Option<XPathBuf>, pub option_ext: Seq<ExtEntry>,
    pub propagation: Option<BindPropagation>, pub create: bool, pub selinux: Option<SELinux>,
}
pub open spec fn says_volume(v: Volume) -> Says {
    Says {
        from: match v.source { Some(s) => From_::Named(s), None => From_::Anonymous },
        target: v.common.target, read_only: v.common.read_only, consistency: v.common.consistency, ext: v.common.extensions.entries(),
        nocopy: match v.volume { Some(o) => o.nocopy, None => false },
        subpath: match v.volume { Some(o) => o.subpath, None => None },
        option_ext: match v.volume { Some(o) => o.extensions.entries(), None => seq![] },
        propagation: None, create: false, selinux: None,
    }
}
pub open spec fn says_bind(v: Bind) -> Says {
    Says {
        from: From_::Host(v.source),
        target: v.common.target, read_only: v.common.read_only, consistency: v.common.consistency, ext: v.common.extensions.entries(),
        nocopy: false, subpath: None,
        option_ext: match v.bind { Some(o) => o.extensions.entries(), None => seq![] },
        propagation: match v.bind { Some(o) => o.propagation, None => None },
        create: match v.bind { Some(o) => o.create_host_path, None => false },
        selinux: match v.bind { Some(o) => o.selinux, None => None },
    }
}
pub open spec fn says_mount(m: Mount) -> Option<Says> {
    match m { Mount::Volume(v) => Some(says_volume(v)), Mount::Bind(b) => Some(says_bind(b)), _ => None }
}
/// the short syntax says nothing else than its four parts, and creates the host path
pub open spec fn says_short(s: ShortVolume) -> Says {
    Says {
        from: match s.options { Some(o) => match o.source { Source::Volume(n) => From_::Named(n), Source::HostPath(h) => From_::Host(h) }, None => From_::Anonymous },
        target: s.container_path, read_only: match s.options { Some(o) => o.read_only, None => false }, consistency: None, ext: seq![],
        nocopy: false, subpath: None, option_ext: seq![], propagation: None,
        create: s.options matches Some(o) && o.source is HostPath,
        selinux: match s.options { Some(o) => o.selinux, None => None },
    }
}
/// the long syntax has no SELinux label for named volumes (known finding)
pub open spec fn no_long_form(s: ShortVolume) -> bool { s.options matches Some(o) && o.source is Volume && o.selinux is Some }
/// exactly the mounts the short syntax can say
pub open spec fn has_short(m: Mount) -> bool {
    says_mount(m) matches Some(y) && y.consistency is None && y.ext.len() == 0 && y.option_ext.len() == 0 && !y.nocopy && y.subpath is None && y.propagation is None
        && match m { Mount::Volume(v) => v.source is Some || !y.read_only, _ => y.create }
}
//@fn src/service/volumes/mount.rs :: VolumeOptions::is_empty
    ensures r == (!self.nocopy && self.subpath is None && self.extensions.entries().len() == 0)
//@end
//@fn src/service/volumes/mount.rs :: BindOptions::is_empty
    ensures r == (self.propagation is None && !self.create_host_path && self.selinux is None && self.extensions.entries().len() == 0)
//@end
//@fn src/service/volumes/mount.rs :: TmpfsOptions::is_empty
    ensures r == (self.size is None && self.mode is None && self.extensions.entries().len() == 0)
//@end
pub open spec fn common_of(c: Common, t: AbsolutePath) -> bool { c.target == t && !c.read_only && c.consistency is None && c.extensions.entries() == Seq::<ExtEntry>::empty() }
//@fn src/service/volumes/mount.rs :: Common::new
    ensures common_of(r, target)
//@end
//@fn src/service/volumes/mount.rs :: <From<AbsolutePath> for Common>::from | as=common_from
    ensures common_of(r, target)
//@end
impl XInto<Common> for AbsolutePath {
    open spec fn x_into_post(self, u: Common) -> bool { common_of(u, self) }
    fn x_into(self) -> (u: Common) { Common::common_from(self) }
}
//@fn src/service/volumes/mount.rs :: Volume::new
    ensures r == (Volume { source: None, volume: None, common })
//@end
//@fn src/service/volumes/mount.rs :: <From<Common> for Volume>::from | as=volume_from
    ensures r == (Volume { source: None, volume: None, common })
//@end
impl XInto<Volume> for Common {
    open spec fn x_into_post(self, u: Volume) -> bool { u == (Volume { source: None, volume: None, common: self }) }
    fn x_into(self) -> (u: Volume) { Volume::volume_from(self) }
}
//@fn src/service/volumes/mount.rs :: Bind::new
    ensures r == (Bind { source, bind: None, common })
//@end
//@fn src/service/volumes.rs :: <From<HostPath> for Source>::from | as=source_from_host
    ensures r == Source::HostPath(value)
//@end
//@fn src/service/volumes.rs :: <From<Identifier> for Source>::from | as=source_from_identifier
    ensures r == Source::Volume(value)
//@end
impl XInto<Source> for HostPath {
    open spec fn x_into_post(self, u: Source) -> bool { u == Source::HostPath(self) }
    fn x_into(self) -> (u: Source) { Source::source_from_host(self) }
}
impl XInto<Source> for Identifier {
    open spec fn x_into_post(self, u: Source) -> bool { u == Source::Volume(self) }
    fn x_into(self) -> (u: Source) { Source::source_from_identifier(self) }
}
//@fn src/service/volumes.rs :: ShortVolume::new
    ensures r == (ShortVolume { container_path, options: None })
//@end
//@fn src/service/volumes.rs :: <From<AbsolutePath> for ShortVolume>::from | as=short_from
    ensures r == (ShortVolume { container_path, options: None })
//@end
//@fn src/service/volumes.rs :: ShortOptions::new
    ensures r == (ShortOptions { source, read_only: false, selinux: None })
//@end
//@fn expanded :: service::volumes::mount::<Default for BindOptions>::default | free | as=bind_options_default | retty=BindOptions
    ensures r.propagation is None, !r.create_host_path, r.selinux is None, r.extensions.entries() == Seq::<ExtEntry>::empty(),
//@end
impl BindOptions { pub fn default() -> (r: BindOptions) ensures r.propagation is None, !r.create_host_path, r.selinux is None, r.extensions.entries() == Seq::<ExtEntry>::empty() { bind_options_default() } }
//@fn src/service/volumes.rs :: ShortVolume::into_long
    ensures says_mount(r) is Some, !no_long_form(self) ==> says_mount(r) == Some(says_short(self)) && has_short(r),
        says_mount(r)->0 == (Says { selinux: if no_long_form(self) { None } else { says_short(self).selinux }, ..says_short(self) }),
//@end
//@fn src/service/volumes/mount.rs :: <From<ShortVolume> for Mount>::from | as=mount_from_short
    ensures !no_long_form(value) ==> says_mount(r) == Some(says_short(value)) && has_short(r),
//@end
pub proof fn lemma_no_entries(e: Extensions)
    ensures e.entries().len() == 0 ==> e.entries() == Seq::<ExtEntry>::empty()
{ if e.entries().len() == 0 { assert(e.entries() =~= Seq::<ExtEntry>::empty()); } }
/// a short form only for what it says in full; what has none is given back as it was
pub open spec fn short_post(m: Mount, r: Result<ShortVolume, Mount>) -> bool {
    &&& r is Ok <==> has_short(m)
    &&& r matches Ok(s) ==> says_mount(m) == Some(says_short(s)) && !no_long_form(s)
    &&& r matches Err(e) ==> e == m
}
//@fn src/service/volumes/mount.rs :: Volume::into_short
    ensures r is Ok <==> has_short(Mount::Volume(self)), r matches Ok(s) ==> says_volume(self) == says_short(s) && !no_long_form(s), r matches Err(e) ==> e == self,
//@proof start
    proof { lemma_no_entries(self.common.extensions); if self.volume is Some { lemma_no_entries(self.volume->0.extensions); } }
//@end
//@fn src/service/volumes/mount.rs :: Bind::into_short
    ensures r is Ok <==> has_short(Mount::Bind(self)), r matches Ok(s) ==> says_bind(self) == says_short(s) && !no_long_form(s), r matches Err(e) ==> e == self,
//@proof start
    proof { lemma_no_entries(self.common.extensions); if self.bind is Some { lemma_no_entries(self.bind->0.extensions); } }
//@end
//@fn src/service/volumes/mount.rs :: Mount::into_short
    ensures short_post(self, r)
//@end
//@fn src/service/volumes/mount.rs :: Mount::common
    ensures *r == match *self { Mount::Volume(m) => m.common, Mount::Bind(m) => m.common, Mount::Tmpfs(m) => m.common, Mount::NamedPipe(m) => m.common, Mount::Cluster(m) => m.common }
//@end
/// two short forms that say the same are the same
pub proof fn theorem_short_says_all(a: ShortVolume, b: ShortVolume)
    requires says_short(a) == says_short(b),
    ensures a == b
{
    match (a.options, b.options) {
        (Some(p), Some(q)) => { match (p.source, q.source) { (Source::Volume(_), Source::Volume(_)) => {} (Source::HostPath(_), Source::HostPath(_)) => {} _ => { assert(says_short(a).from != says_short(b).from); } } assert(p.source == q.source); }
        (None, None) => {}
        (Some(p), None) => { assert(!(says_short(a).from is Anonymous)); assert(says_short(b).from is Anonymous); }
        (None, Some(q)) => { assert(!(says_short(b).from is Anonymous)); assert(says_short(a).from is Anonymous); }
    }
}
/// short, long and short again
pub proof fn theorem_volume_there_and_back(s: ShortVolume, m: Mount, r: Result<ShortVolume, Mount>)
    requires !no_long_form(s), says_mount(m) == Some(says_short(s)) && has_short(m), short_post(m, r),
    ensures r == Ok::<ShortVolume, Mount>(s)
{ theorem_short_says_all(s, r->Ok_0); }
// ------------------------------------------------------------ lists of mounts
//@include collections.inc
//@type src/common/short_or_long.rs :: ShortOrLong
impl<T> XIndexSet<T> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: XIter<T>) ensures r.rest() == self.list() { unimplemented!() }
}
pub type Volumes = XIndexSet<ShortOrLong<ShortVolume, Mount>>;
pub type AnyVolume = ShortOrLong<ShortVolume, Mount>;
/// the short form of a mount, or the mount it cannot say
pub open spec fn short_of(v: AnyVolume, r: Result<ShortVolume, Mount>) -> bool {
    match v { ShortOrLong::Short(s) => r == Ok::<ShortVolume, Mount>(s), ShortOrLong::Long(m) => short_post(m, r) }
}
pub open spec fn long_of(v: AnyVolume, r: Mount) -> bool {
    match v { ShortOrLong::Short(s) => !no_long_form(s) ==> says_mount(r) == Some(says_short(s)) && has_short(r), ShortOrLong::Long(m) => r == m }
}
//@fn src/service/volumes.rs :: into_short_iter | retty=XIter<Result<ShortVolume, Mount>>
    ensures r.rest().len() == volumes.list().len(), forall|i: int| 0 <= i < r.rest().len() ==> short_of(volumes.list()[i], #[trigger] r.rest()[i]),
//@loop 0
    invariant
        it0.seq() == volumes.list(), __o0.rest().len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> short_of(volumes.list()[i], #[trigger] __o0.rest()[i]),
//@end
impl XInto<Mount> for ShortVolume { open spec fn x_into_post(self, u: Mount) -> bool { long_of(ShortOrLong::Short(self), u) } fn x_into(self) -> (u: Mount) { Mount::mount_from_short(self) } }
//@fn expanded :: common::short_or_long::<From<ShortOrLong<S,Self>> for Mount>::from | as=from_either<S: XInto<Mount>> | self=Mount | noimplgen
    ensures match value { ShortOrLong::Short(s) => S::x_into_post(s, r), ShortOrLong::Long(l) => r == l }
//@end
impl XInto<Mount> for AnyVolume { open spec fn x_into_post(self, u: Mount) -> bool { long_of(self, u) } fn x_into(self) -> (u: Mount) { Mount::from_either(self) } }
//@fn src/service/volumes.rs :: into_long_iter | retty=XIter<Mount>
    ensures r.rest().len() == volumes.list().len(), forall|i: int| 0 <= i < r.rest().len() ==> long_of(volumes.list()[i], #[trigger] r.rest()[i]),
//@loop 0
    invariant
        it0.seq() == volumes.list(), __o0.rest().len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> long_of(volumes.list()[i], #[trigger] __o0.rest()[i]),
//@end
} // verus!
fn main() {}
