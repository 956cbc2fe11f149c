//@include prelude.vrs
verus! {
//@flag xfor
//@rename IndexSet => XIndexSet
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@method unwrap_or_default => x_unwrap_or_default
//@rename Path::new => XPath::x_of
//@include std_more.inc
//@include to_string.inc
//@include paths.inc
//@include path_edit.inc
//@include identifier.inc
//@include absolute_path.inc
//@include host_path.inc
//@include extensions.inc
//@type src/service/volumes.rs :: ShortVolume
//@type src/service/volumes.rs :: ShortOptions
//@type src/service/volumes.rs :: Source
//@type src/service/volumes.rs :: SELinux | derive=Clone, Copy
//@type src/service/byte_value.rs :: ByteValue
//@type src/service/volumes/mount.rs :: Mount
//@type src/service/volumes/mount.rs :: Volume
//@type src/service/volumes/mount.rs :: VolumeOptions
//@type src/service/volumes/mount.rs :: Bind
//@type src/service/volumes/mount.rs :: BindOptions
//@type src/service/volumes/mount.rs :: BindPropagation | derive=Clone, Copy
//@type src/service/volumes/mount.rs :: Tmpfs
//@type src/service/volumes/mount.rs :: TmpfsOptions
//@type src/service/volumes/mount.rs :: NamedPipe
//@type src/service/volumes/mount.rs :: Cluster
//@type src/service/volumes/mount.rs :: Common
// ------------------------------------------------------------ which kind of mount it is
pub open spec fn kind_of(m: Mount) -> Seq<char> {
    match m { Mount::Volume(_) => "volume"@, Mount::Bind(_) => "bind"@, Mount::Tmpfs(_) => "tmpfs"@, Mount::NamedPipe(_) => "npipe"@, Mount::Cluster(_) => "cluster"@ }
}
//@fn src/service/volumes/mount.rs :: Mount::kind
    ensures r@ == kind_of(*self)
//@end
//@fn src/service/volumes/mount.rs :: Mount::is_volume
    ensures r == (*self is Volume)
//@end
//@fn src/service/volumes/mount.rs :: Mount::as_volume
    ensures r is Some <==> *self is Volume, r matches Some(m) ==> *self == Mount::Volume(*m),
//@end
//@fn src/service/volumes/mount.rs :: <From<Volume> for Mount>::from | as=mount_from_volume
    ensures r == Mount::Volume(value)
//@end
//@fn src/service/volumes/mount.rs :: Mount::is_bind
    ensures r == (*self is Bind)
//@end
//@fn src/service/volumes/mount.rs :: Mount::as_bind
    ensures r is Some <==> *self is Bind, r matches Some(m) ==> *self == Mount::Bind(*m),
//@end
//@fn src/service/volumes/mount.rs :: <From<Bind> for Mount>::from | as=mount_from_bind
    ensures r == Mount::Bind(value)
//@end
//@fn src/service/volumes/mount.rs :: Mount::is_tmpfs
    ensures r == (*self is Tmpfs)
//@end
//@fn src/service/volumes/mount.rs :: Mount::as_tmpfs
    ensures r is Some <==> *self is Tmpfs, r matches Some(m) ==> *self == Mount::Tmpfs(*m),
//@end
//@fn src/service/volumes/mount.rs :: <From<Tmpfs> for Mount>::from | as=mount_from_tmpfs
    ensures r == Mount::Tmpfs(value)
//@end
//@fn src/service/volumes/mount.rs :: Mount::is_named_pipe
    ensures r == (*self is NamedPipe)
//@end
//@fn src/service/volumes/mount.rs :: Mount::as_named_pipe
    ensures r is Some <==> *self is NamedPipe, r matches Some(m) ==> *self == Mount::NamedPipe(*m),
//@end
//@fn src/service/volumes/mount.rs :: <From<NamedPipe> for Mount>::from | as=mount_from_named_pipe
    ensures r == Mount::NamedPipe(value)
//@end
//@fn src/service/volumes/mount.rs :: Mount::is_cluster
    ensures r == (*self is Cluster)
//@end
//@fn src/service/volumes/mount.rs :: Mount::as_cluster
    ensures r is Some <==> *self is Cluster, r matches Some(m) ==> *self == Mount::Cluster(*m),
//@end
//@fn src/service/volumes/mount.rs :: <From<Cluster> for Mount>::from | as=mount_from_cluster
    ensures r == Mount::Cluster(value)
//@end
//@fn src/service/volumes/mount.rs :: Mount::common
    ensures *r == match *self { Mount::Volume(m) => m.common, Mount::Bind(m) => m.common, Mount::Tmpfs(m) => m.common, Mount::NamedPipe(m) => m.common, Mount::Cluster(m) => m.common }
//@end
/// the text of a mount's source
pub open spec fn source_text(m: Mount) -> Option<Seq<char>> {
    match m {
        Mount::Volume(v) => match v.source { Some(s) => Some(s.0@), None => None },
        Mount::Bind(b) => Some(b.source.0@),
        Mount::Tmpfs(_) => None,
        Mount::NamedPipe(n) => Some(n.source.0@),
        Mount::Cluster(c) => Some(c.source@),
    }
}
//@fn src/service/volumes/mount.rs :: Mount::source_to_string
    ensures r is Some <==> source_text(*self) is Some, r matches Some(t) ==> t@ == source_text(*self)->0,
//@end
// ------------------------------------------------------------ built from their parts
pub open spec fn common_of(c: Common, t: AbsolutePath) -> bool { c.target == t && !c.read_only && c.consistency is None && c.extensions.entries() == Seq::<ExtEntry>::empty() }
//@fn src/service/volumes/mount.rs :: Common::new
    ensures common_of(r, target)
//@end
//@fn src/service/volumes/mount.rs :: <From<AbsolutePath> for Common>::from | as=common_from
    ensures common_of(r, target)
//@end
impl XInto<Common> for AbsolutePath {
    open spec fn x_into_post(self, u: Common) -> bool { common_of(u, self) }
    fn x_into(self) -> (u: Common) { Common::common_from(self) }
}
//@fn src/service/volumes/mount.rs :: Volume::new
    ensures r == (Volume { source: None, volume: None, common })
//@end
//@fn src/service/volumes/mount.rs :: <From<Common> for Volume>::from | as=volume_from
    ensures r == (Volume { source: None, volume: None, common })
//@end
//@fn src/service/volumes/mount.rs :: Bind::new
    ensures r == (Bind { source, bind: None, common })
//@end
//@fn src/service/volumes/mount.rs :: <From<(HostPath,Common)> for Bind>::from | as=bind_from
    ensures r == (Bind { source: __arg0.0, bind: None, common: __arg0.1 })
//@end
//@fn src/service/volumes/mount.rs :: Tmpfs::new
    ensures r == (Tmpfs { tmpfs: None, common })
//@end
//@fn src/service/volumes/mount.rs :: Tmpfs::from_target
    ensures r.tmpfs is None, common_of(r.common, target),
//@end
//@fn src/service/volumes/mount.rs :: <From<Common> for Tmpfs>::from | as=tmpfs_from
    ensures r == (Tmpfs { tmpfs: None, common })
//@end
//@fn src/service/volumes/mount.rs :: <From<AbsolutePath> for Tmpfs>::from | as=tmpfs_from_path
    ensures r.tmpfs is None, common_of(r.common, target),
//@end
//@fn src/service/volumes/mount.rs :: <From<(HostPath,Common)> for NamedPipe>::from | as=pipe_from
    ensures r == (NamedPipe { source: __arg0.0, common: __arg0.1 })
//@end
//@fn src/service/volumes/mount.rs :: <From<(String,Common)> for Cluster>::from | as=cluster_from
    ensures r == (Cluster { source: __arg0.0, common: __arg0.1 })
//@end
//@fn expanded :: service::volumes::mount::<Default for BindOptions>::default | free | as=bind_options_default | retty=BindOptions
    ensures r.propagation is None, !r.create_host_path, r.selinux is None, r.extensions.entries() == Seq::<ExtEntry>::empty(),
//@end
impl BindOptions { pub fn default() -> (r: BindOptions) ensures r.propagation is None, !r.create_host_path, r.selinux is None, r.extensions.entries() == Seq::<ExtEntry>::empty() { bind_options_default() } }
pub open spec fn bind_options(o: BindOptions, p: Option<BindPropagation>, s: Option<SELinux>) -> bool {
    o.propagation == p && o.selinux == s && !o.create_host_path && o.extensions.entries() == Seq::<ExtEntry>::empty()
}
//@fn src/service/volumes/mount.rs :: <From<Option<BindPropagation>> for BindOptions>::from | as=options_from_propagation
    ensures bind_options(r, propagation, None)
//@end
//@fn src/service/volumes/mount.rs :: <From<Option<SELinux>> for BindOptions>::from | as=options_from_selinux
    ensures bind_options(r, None, selinux)
//@end
impl XInto<BindOptions> for Option<BindPropagation> {
    open spec fn x_into_post(self, u: BindOptions) -> bool { bind_options(u, self, None) }
    fn x_into(self) -> (u: BindOptions) { BindOptions::options_from_propagation(self) }
}
impl XInto<BindOptions> for Option<SELinux> {
    open spec fn x_into_post(self, u: BindOptions) -> bool { bind_options(u, None, self) }
    fn x_into(self) -> (u: BindOptions) { BindOptions::options_from_selinux(self) }
}
//@fn src/service/volumes/mount.rs :: <From<BindPropagation> for BindOptions>::from | as=options_from_one_propagation
    ensures bind_options(r, Some(propagation), None)
//@end
//@fn src/service/volumes/mount.rs :: <From<SELinux> for BindOptions>::from | as=options_from_one_selinux
    ensures bind_options(r, None, Some(selinux))
//@end
// ------------------------------------------------------------ sources
//@fn src/service/volumes.rs :: <From<AbsolutePath> for HostPath>::from | as=host_from_absolute
    ensures r.0 == value.0
//@end
impl XInto<HostPath> for AbsolutePath {
    open spec fn x_into_post(self, u: HostPath) -> bool { u.0 == self.0 }
    fn x_into(self) -> (u: HostPath) { HostPath::host_from_absolute(self) }
}
//@fn src/service/volumes.rs :: <From<HostPath> for Source>::from | as=source_from_host
    ensures r == Source::HostPath(value)
//@end
impl XInto<Source> for HostPath {
    open spec fn x_into_post(self, u: Source) -> bool { u == Source::HostPath(self) }
    fn x_into(self) -> (u: Source) { Source::source_from_host(self) }
}
//@rename Identifier::to_string => Identifier::x_to_string
//@rename HostPath::from => HostPath::host_from_absolute
//@fn src/service/volumes.rs :: <From<AbsolutePath> for Source>::from | as=source_from_absolute
    ensures r is HostPath, r->HostPath_0.0 == value.0,
//@end
//@fn src/service/volumes.rs :: <From<Identifier> for Source>::from | as=source_from_identifier
    ensures r == Source::Volume(value)
//@end
//@fn src/service/volumes.rs :: ShortVolume::new
    ensures r == (ShortVolume { container_path, options: None })
//@end
//@fn src/service/volumes.rs :: <From<AbsolutePath> for ShortVolume>::from | as=short_from
    ensures r == (ShortVolume { container_path, options: None })
//@end
//@fn src/service/volumes.rs :: ShortOptions::new
    ensures r == (ShortOptions { source, read_only: false, selinux: None })
//@end
//@fn src/service/volumes.rs :: <From<Source> for ShortOptions>::from | as=options_from
    ensures r == (ShortOptions { source, read_only: false, selinux: None })
//@end
//@fn src/service/volumes.rs :: SELinux::as_char
    ensures r == match self { SELinux::Shared => 'z', SELinux::Private => 'Z' }
//@end
//@fn src/service/volumes.rs :: SELinux::as_str
    ensures r@ == match self { SELinux::Shared => "z"@, SELinux::Private => "Z"@ }
//@end
//@fn src/service/volumes.rs :: <From<SELinux> for char>::from | as=char_from_selinux | free | retty=char
    ensures r == match value { SELinux::Shared => 'z', SELinux::Private => 'Z' }
//@end
//@fn src/service/volumes.rs :: <AsRef<str> for SELinux>::as_ref | as=as_ref_
    ensures r@ == match *self { SELinux::Shared => "z"@, SELinux::Private => "Z"@ }
//@end
} // verus!
fn main() {}
