//@include prelude.vrs
verus! {
//@flag xfor
//@method iter => x_iter
//@method fmt => x_fmt
//@method as_ref => x_as_ref
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@rename Map => XMap
//@include std_more.inc
//@include collections.inc
//@include collect.inc
//@include extensions.inc
/// parts read by no function below
macro_rules! opaque { ($($t:ident),*) => { verus! { $( #[verifier::external_body] pub struct $t { x: u8 } impl XKey for $t { uninterp spec fn key(&self) -> Seq<char>; } )* } } }
opaque!(MapKey, Value, StringOrNumber, Context, Dockerfile, SshAuth, Cache, Hostname, IpAddr, IpNet, Ipv4Addr, Ipv6Addr, ByteValue, Identifier, Image, Platform, Resource, Driver, MacAddress, Weight, WeightDevice, BpsLimit, IopsLimit, Test, Duration, PathBuf, SELinux, BindPropagation, Cpus, Capability, Count, EndpointMode, Mode, RestartCondition, FailureAction, Order);
impl XKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
pub struct Limit<T> { t: T }
pub struct ShortOrLong<S, L> { s: S, l: L }
pub type XMap = XIndexMap<MapKey, Option<Value>>;
//@type src/common.rs :: ListOrMap
//@include unset.inc
/// all of a list
pub open spec fn all_unset<T: XUnset>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).unset() }
/// a nested value counts as set only when something in it is
pub open spec fn inner_unset<T: XUnset>(o: Option<T>) -> bool { match o { Some(x) => x.unset(), None => true } }
// ------------------------------------------------------------ build
pub mod build {
use super::*;
opaque!(Network, ConfigOrSecret, Ulimit);
pub type Ulimits = XIndexMap<Resource, ShortOrLong<Limit<u64>, Ulimit>>;
//@type src/service/build.rs :: Build
impl XUnset for Build { open spec fn unset(&self) -> bool { &&& self.context.unset() &&& self.dockerfile.unset() &&& self.args.unset() &&& self.ssh.unset() &&& self.cache_from.unset() &&& self.cache_to.unset() &&& self.additional_contexts.unset() &&& self.entitlements.unset() &&& self.extra_hosts.unset() &&& self.isolation.unset() &&& self.privileged.unset() &&& self.labels.unset() &&& self.no_cache.unset() &&& self.pull.unset() &&& self.network.unset() &&& self.shm_size.unset() &&& self.target.unset() &&& self.secrets.unset() &&& self.tags.unset() &&& self.ulimits.unset() &&& self.platforms.unset() &&& self.extensions.unset() } }
//@fn src/service/build.rs :: Build::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ network
pub mod network {
use super::*;
//@type src/network.rs :: IpamConfig
impl XUnset for IpamConfig { open spec fn unset(&self) -> bool { &&& self.subnet.unset() &&& self.ip_range.unset() &&& self.gateway.unset() &&& self.aux_addresses.unset() &&& self.extensions.unset() } }
//@fn src/network.rs :: IpamConfig::is_empty
    ensures r == self.unset()
//@end
//@type src/network.rs :: Ipam
impl XUnset for Ipam { open spec fn unset(&self) -> bool { &&& self.driver.unset() &&& all_unset(self.config@) &&& self.options.unset() &&& self.extensions.unset() } }
//@fn src/network.rs :: Ipam::is_empty
    ensures r == self.unset()
//@loop 0
    invariant it0.seq().len() == config@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == config@[i], __a0 == (forall|i: int| 0 <= i < it0.index() ==> (#[trigger] config@[i]).unset()),
//@end
//@type src/network.rs :: Network
impl XUnset for Network { open spec fn unset(&self) -> bool { &&& self.driver.unset() &&& self.driver_opts.unset() &&& self.attachable.unset() &&& self.enable_ipv6.unset() &&& inner_unset(self.ipam) &&& self.internal.unset() &&& self.labels.unset() &&& self.name.unset() &&& self.extensions.unset() } }
//@fn src/network.rs :: Network::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ volume
pub mod volume {
use super::*;
//@type src/volume.rs :: Volume
impl XUnset for Volume { open spec fn unset(&self) -> bool { &&& self.driver.unset() &&& self.driver_opts.unset() &&& self.labels.unset() &&& self.name.unset() &&& self.extensions.unset() } }
//@fn src/volume.rs :: Volume::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ network_config
pub mod network_config {
use super::*;
//@type src/service/network_config.rs :: Network
impl XUnset for Network { open spec fn unset(&self) -> bool { &&& self.aliases.unset() &&& self.ipv4_address.unset() &&& self.ipv6_address.unset() &&& self.link_local_ips.unset() &&& self.mac_address.unset() &&& self.driver_opts.unset() &&& self.priority.unset() &&& self.extensions.unset() } }
//@fn src/service/network_config.rs :: Network::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ mount
pub mod mount {
use super::*;
//@type src/service/volumes/mount.rs :: VolumeOptions
impl XUnset for VolumeOptions { open spec fn unset(&self) -> bool { &&& self.nocopy.unset() &&& self.subpath.unset() &&& self.extensions.unset() } }
//@fn src/service/volumes/mount.rs :: VolumeOptions::is_empty
    ensures r == self.unset()
//@end
//@type src/service/volumes/mount.rs :: BindOptions
impl XUnset for BindOptions { open spec fn unset(&self) -> bool { &&& self.propagation.unset() &&& self.create_host_path.unset() &&& self.selinux.unset() &&& self.extensions.unset() } }
//@fn src/service/volumes/mount.rs :: BindOptions::is_empty
    ensures r == self.unset()
//@end
//@type src/service/volumes/mount.rs :: TmpfsOptions
impl XUnset for TmpfsOptions { open spec fn unset(&self) -> bool { &&& self.size.unset() &&& self.mode.unset() &&& self.extensions.unset() } }
//@fn src/service/volumes/mount.rs :: TmpfsOptions::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ resources
pub mod resources {
use super::*;
//@type src/service/deploy/resources.rs :: Limits
impl XUnset for Limits { open spec fn unset(&self) -> bool { &&& self.cpus.unset() &&& self.memory.unset() &&& self.pids.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy/resources.rs :: Limits::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy/resources.rs :: DiscreteResourceSpec
impl XUnset for DiscreteResourceSpec { open spec fn unset(&self) -> bool { &&& self.kind.unset() &&& self.value.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy/resources.rs :: DiscreteResourceSpec::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy/resources.rs :: GenericResource
impl XUnset for GenericResource { open spec fn unset(&self) -> bool { &&& inner_unset(self.discrete_resource_spec) &&& self.extensions.unset() } }
//@fn src/service/deploy/resources.rs :: GenericResource::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy/resources.rs :: Device
impl XUnset for Device { open spec fn unset(&self) -> bool { &&& self.capabilities.unset() &&& self.driver.unset() &&& self.count.unset() &&& self.device_ids.unset() &&& self.options.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy/resources.rs :: Device::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy/resources.rs :: Reservations
impl XUnset for Reservations { open spec fn unset(&self) -> bool { &&& self.cpus.unset() &&& self.memory.unset() &&& all_unset(self.devices@) &&& all_unset(self.generic_resources@) &&& self.extensions.unset() } }
//@fn src/service/deploy/resources.rs :: Reservations::is_empty
    ensures r == self.unset()
//@loop 0
    invariant it0.seq().len() == devices@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == devices@[i], __a0 == (forall|i: int| 0 <= i < it0.index() ==> (#[trigger] devices@[i]).unset()),
//@loop 1
    invariant it1.seq().len() == generic_resources@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == generic_resources@[i], __a1 == (forall|i: int| 0 <= i < it1.index() ==> (#[trigger] generic_resources@[i]).unset()),
//@end
//@type src/service/deploy/resources.rs :: Resources
impl XUnset for Resources { open spec fn unset(&self) -> bool { &&& inner_unset(self.limits) &&& inner_unset(self.reservations) &&& self.extensions.unset() } }
//@fn src/service/deploy/resources.rs :: Resources::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ deploy
pub mod deploy {
use super::*;
pub use super::resources::Resources;
//@type src/service/deploy.rs :: Preference
impl XUnset for Preference { open spec fn unset(&self) -> bool { &&& self.spread.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy.rs :: Preference::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy.rs :: Placement
impl XUnset for Placement { open spec fn unset(&self) -> bool { &&& self.constraints.unset() &&& all_unset(self.preferences@) &&& self.max_replicas_per_node.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy.rs :: Placement::is_empty
    ensures r == self.unset()
//@loop 0
    invariant it0.seq().len() == preferences@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == preferences@[i], __a0 == (forall|i: int| 0 <= i < it0.index() ==> (#[trigger] preferences@[i]).unset()),
//@end
//@type src/service/deploy.rs :: RestartPolicy
impl XUnset for RestartPolicy { open spec fn unset(&self) -> bool { &&& self.condition.unset() &&& self.delay.unset() &&& self.max_attempts.unset() &&& self.window.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy.rs :: RestartPolicy::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy.rs :: UpdateOrRollbackConfig
impl XUnset for UpdateOrRollbackConfig { open spec fn unset(&self) -> bool { &&& self.parallelism.unset() &&& self.delay.unset() &&& self.failure_action.unset() &&& self.monitor.unset() &&& self.max_failure_ratio.unset() &&& self.order.unset() &&& self.extensions.unset() } }
//@fn src/service/deploy.rs :: UpdateOrRollbackConfig::is_empty
    ensures r == self.unset()
//@end
//@type src/service/deploy.rs :: Deploy
impl XUnset for Deploy { open spec fn unset(&self) -> bool { &&& self.endpoint_mode.unset() &&& self.labels.unset() &&& self.mode.unset() &&& inner_unset(self.placement) &&& self.replicas.unset() &&& inner_unset(self.resources) &&& inner_unset(self.restart_policy) &&& inner_unset(self.rollback_config) &&& inner_unset(self.update_config) &&& self.extensions.unset() } }
//@fn src/service/deploy.rs :: Deploy::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ blkio
pub mod blkio {
use super::*;
//@type src/service/blkio_config.rs :: BlkioConfig
impl XUnset for BlkioConfig { open spec fn unset(&self) -> bool { &&& self.device_read_bps.unset() &&& self.device_read_iops.unset() &&& self.device_write_bps.unset() &&& self.device_write_iops.unset() &&& self.weight.unset() &&& self.weight_device.unset() } }
//@fn src/service/blkio_config.rs :: BlkioConfig::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ logging
pub mod logging {
use super::*;
//@type src/service.rs :: Logging
impl XUnset for Logging { open spec fn unset(&self) -> bool { &&& self.driver.unset() &&& self.options.unset() &&& self.extensions.unset() } }
//@fn src/service.rs :: Logging::is_empty
    ensures r == self.unset()
//@end
}
// ------------------------------------------------------------ healthcheck
pub mod healthcheck {
use super::*;
//@type src/service/healthcheck.rs :: Command
impl XUnset for Command { open spec fn unset(&self) -> bool { &&& self.test.unset() &&& self.interval.unset() &&& self.timeout.unset() &&& self.retries.unset() &&& self.start_period.unset() &&& self.start_interval.unset() &&& self.extensions.unset() } }
//@fn src/service/healthcheck.rs :: Command::is_empty
    ensures r == self.unset()
//@end
}
} // verus!
fn main() {}
