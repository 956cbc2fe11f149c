//@include prelude.vrs
verus! {
//@flag xfor
//@method into => x_into
//@method into_iter => x_into_iter
//@method as_ref => x_as_ref
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@rename Map => XMap
//@include std_more.inc
//@include collections.inc
//@include collect.inc
//@include extensions.inc
/// parts read by no function below
macro_rules! opaque { ($($t:ident),*) => { verus! { $( #[verifier::external_body] pub struct $t { x: u8 } impl XKey for $t { uninterp spec fn key(&self) -> Seq<char>; } )* } } }
opaque!(MapKey, Value, StringOrNumber, Identifier, Name, ByteValue, PathBuf, ItemOrListPath, Duration, Secret, Config, YamlVolume, YamlNetwork, Ipam, DriverOpts, Driver);
impl XKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
pub type XMap = XIndexMap<MapKey, Option<Value>>;
// ------------------------------------------------------------ users
pub mod user {
use super::*;
//@type src/service/user.rs :: IdOrName
//@type src/service/user.rs :: User
//@rename IdOrName::from => IdOrName::x_from
//@rename Self::from => Self::x_from
//@fn src/service/user.rs :: <From<u32> for IdOrName>::from | as=id_from_u32
    ensures r == IdOrName::Id(value)
//@end
//@fn src/service/user.rs :: <From<Name> for IdOrName>::from | as=id_from_name
    ensures r == IdOrName::Name(value)
//@end
impl XInto<IdOrName> for u32 { open spec fn x_into_post(self, u: IdOrName) -> bool { u == IdOrName::Id(self) } fn x_into(self) -> (u: IdOrName) { IdOrName::id_from_u32(self) } }
impl XInto<IdOrName> for Name { open spec fn x_into_post(self, u: IdOrName) -> bool { u == IdOrName::Name(self) } fn x_into(self) -> (u: IdOrName) { IdOrName::id_from_name(self) } }
impl IdOrName { pub fn x_from<T: XInto<IdOrName>>(t: T) -> (r: IdOrName) ensures t.x_into_post(r) { t.x_into() } }
//@fn src/service/user.rs :: <From<IdOrName> for User>::from | as=user_from
    ensures r == (User { user, group: None })
//@end
impl XInto<User> for IdOrName { open spec fn x_into_post(self, u: User) -> bool { u == (User { user: self, group: None }) } fn x_into(self) -> (u: User) { User::user_from(self) } }
impl User { pub fn x_from<T: XInto<User>>(t: T) -> (r: User) ensures t.x_into_post(r) { t.x_into() } }
//@fn src/service/user.rs :: <From<u32> for User>::from | as=user_from_id
    ensures r == (User { user: IdOrName::Id(user), group: None })
//@end
//@fn src/service/user.rs :: <From<Name> for User>::from | as=user_from_name
    ensures r == (User { user: IdOrName::Name(user), group: None })
//@end
//@fn src/service/user.rs :: <From<(IdOrName,IdOrName)> for User>::from | as=user_from_pair
    ensures r == (User { user: __arg0.0, group: Some(__arg0.1) })
//@end
//@fn src/service/user.rs :: <From<(u32,u32)> for User>::from | as=user_from_ids
    ensures r == (User { user: IdOrName::Id(__arg0.0), group: Some(IdOrName::Id(__arg0.1)) })
//@end
//@fn src/service/user.rs :: <From<(Name,u32)> for User>::from | as=user_from_name_id
    ensures r == (User { user: IdOrName::Name(__arg0.0), group: Some(IdOrName::Id(__arg0.1)) })
//@end
//@fn src/service/user.rs :: <From<(u32,Name)> for User>::from | as=user_from_id_name
    ensures r == (User { user: IdOrName::Id(__arg0.0), group: Some(IdOrName::Name(__arg0.1)) })
//@end
//@fn src/service/user.rs :: <From<(Name,Name)> for User>::from | as=user_from_names
    ensures r == (User { user: IdOrName::Name(__arg0.0), group: Some(IdOrName::Name(__arg0.1)) })
//@end
}
// ------------------------------------------------------------ externally managed or not
pub mod resource {
use super::*;
//@type src/common.rs :: Resource
//@type src/network.rs :: Network | fields=name
//@type src/volume.rs :: Volume | fields=name
//@fn src/common.rs :: Resource::external | gen=<T>
    ensures r == (Resource::<T>::External { name })
//@end
//@fn src/common.rs :: Resource::is_external | gen=<T>
    ensures r == (self is External)
//@end
//@fn src/common.rs :: Resource::is_compose | gen=<T>
    ensures r == (self is Compose)
//@end
//@fn src/common.rs :: Resource::as_compose | gen=<T>
    ensures match *self { Resource::Compose(t) => r is Some && *r->0 == t, _ => r is None }
//@end
/// the custom name, whichever way the resource is managed
//@fn src/network.rs :: Resource::name | as=network_name | self=Resource<Network>
    ensures match (match *self { Resource::External { name } => name, Resource::Compose(n) => n.name }) { Some(t) => r is Some && *r->0 == t, None => r is None }
//@end
//@fn src/volume.rs :: Resource::name | as=volume_name | self=Resource<Volume>
    ensures match (match *self { Resource::External { name } => name, Resource::Compose(n) => n.name }) { Some(t) => r is Some && *r->0 == t, None => r is None }
//@end
//@fn src/network.rs :: <From<Network> for Resource<Network>>::from | as=from_network
    ensures r == Resource::Compose(value)
//@end
//@fn src/volume.rs :: <From<Volume> for Resource<Volume>>::from | as=from_volume
    ensures r == Resource::Compose(value)
//@end
//@fn src/config.rs :: <From<Config> for Resource<Config>>::from | as=from_config
    ensures r == Resource::Compose(value)
//@end
//@fn src/secret.rs :: <From<Secret> for Resource<Secret>>::from | as=from_secret
    ensures r == Resource::Compose(value)
//@end
}
// ------------------------------------------------------------ commands and tests
pub mod command {
use super::*;
//@type src/service.rs :: Command
//@fn src/service.rs :: <From<String> for Command>::from | as=command_from_text
    ensures r == Command::String(value)
//@end
//@fn src/service.rs :: <From<Vec<String>> for Command>::from | as=command_from_list
    ensures r == Command::List(value)
//@end
}
pub mod healthcheck {
use super::*;
//@type src/service/healthcheck.rs :: Test
//@fn src/service/healthcheck.rs :: <From<String> for Test>::from | as=test_from_text
    ensures r == Test::ShellCommand(value)
//@end
//@fn src/service/healthcheck.rs :: <From<Vec<String>> for Test>::from | as=test_from_list
    ensures r == Test::Command(value)
//@end
// what a health check runs is P15's
#[verifier::external_body]
pub struct Command { x: u8 }
//@type src/service/healthcheck.rs :: Healthcheck
//@fn src/service/healthcheck.rs :: <From<Command> for Healthcheck>::from | as=check_from_command
    ensures r == Healthcheck::Command(value)
//@end
}
// ------------------------------------------------------------ links and shared volumes
pub mod links {
use super::*;
//@type src/service.rs :: Link
//@type src/service.rs :: VolumesFrom
//@type src/service.rs :: VolumesFromSource
//@fn src/service.rs :: <From<Identifier> for Link>::from | as=link_from
    ensures r == (Link { service, alias: None })
//@end
//@fn src/service.rs :: <From<VolumesFromSource> for VolumesFrom>::from | as=volumes_from
    ensures r == (VolumesFrom { source, read_only: false })
//@end
}
// ------------------------------------------------------------ short or long
pub mod short {
use super::*;
//@type src/common/short_or_long.rs :: ShortOrLong
//@type src/service/limit.rs :: Limit | derive=Clone, Copy
//@fn src/common/short_or_long.rs :: <From<Limit<T>> for ShortOrLong<Limit<T>,L>>::from | as=from_limit | gen=<T, L>
    ensures r == ShortOrLong::<Limit<T>, L>::Short(value)
//@end
impl<L> XInto<ShortOrLong<Limit<u64>, L>> for Limit<u64> {
    open spec fn x_into_post(self, u: ShortOrLong<Limit<u64>, L>) -> bool { u == ShortOrLong::<Limit<u64>, L>::Short(self) }
    fn x_into(self) -> (u: ShortOrLong<Limit<u64>, L>) { ShortOrLong::<Limit<u64>, L>::from_limit(self) }
}
//@fn src/common/short_or_long.rs :: <From<u64> for ShortOrLong<Limit<u64>,L>>::from | as=from_number | gen=<L>
    ensures r == ShortOrLong::<Limit<u64>, L>::Short(Limit::Value(value))
//@end
impl XInto<PathBuf> for String { uninterp spec fn x_into_post(self, u: PathBuf) -> bool; #[verifier::external_body] fn x_into(self) -> (u: PathBuf) { unimplemented!() } }
//@fn src/common/short_or_long.rs :: <From<String> for ShortOrLong<PathBuf,L>>::from | as=from_text | gen=<L>
    ensures r is Short, value.x_into_post(r->Short_0),
//@end
//@fn src/common/short_or_long.rs :: <From<IndexMap<K,V>> for ShortOrLong<S,IndexMap<K,V>>>::from | as=from_map | gen=<S, K, V>
    ensures r == ShortOrLong::<S, XIndexMap<K, V>>::Long(value)
//@end
impl<S, L> ShortOrLong<S, L> where Self: XInto<L> {
//@fn src/common/short_or_long.rs :: ShortOrLong::into_long | free
    ensures self.x_into_post(r)
//@end
}
pub mod env_file {
use super::*;
#[verifier::external_body]
pub struct List { x: u8 }
//@type src/service/env_file.rs :: EnvFile
//@fn src/service/env_file.rs :: <From<String> for EnvFile>::from | as=env_file_of_text
    ensures r is Single, value.x_into_post(r->Single_0),
//@end
//@fn src/serde.rs :: default_true
    ensures r
//@end
//@type src/service/env_file.rs :: Config
//@fn expanded :: service::env_file::<From<PathBuf> for Config>::from | as=config_of_path
    ensures r.path == path, r.required,
//@end
impl XInto<Config> for PathBuf { open spec fn x_into_post(self, u: Config) -> bool { u.path == self && u.required } fn x_into(self) -> (u: Config) { Config::config_of_path(self) } }
//@rename PathBuf::from => x_path_of
#[verifier::external_body] pub fn x_path_of(t: String) -> (r: PathBuf) ensures t.x_into_post(r) { unimplemented!() }
//@fn src/service/env_file.rs :: <From<String> for Config>::from | as=config_of_text
    ensures value.x_into_post(r.path), r.required,
//@end
}
//@type src/service/ulimit.rs :: Ulimit
//@fn src/service/ulimit.rs :: <From<Limit<u64>> for Ulimit>::from | as=ulimit_from_limit
    ensures r.soft == value, r.hard == value, r.extensions.entries() == Seq::<ExtEntry>::empty(),
//@end
impl XInto<Ulimit> for Limit<u64> {
    open spec fn x_into_post(self, u: Ulimit) -> bool { u.soft == self && u.hard == self && u.extensions.entries() == Seq::<ExtEntry>::empty() }
    fn x_into(self) -> (u: Ulimit) { Ulimit::ulimit_from_limit(self) }
}
//@fn src/service/ulimit.rs :: <From<u64> for Ulimit>::from | as=ulimit_from_number
    ensures r.soft == Limit::Value(value), r.hard == Limit::Value(value), r.extensions.entries() == Seq::<ExtEntry>::empty(),
//@end
}
// ------------------------------------------------------------ sources
//@type src/common.rs :: ListOrMap
//@include unset.inc
//@rename ListOrMap::default => XFresh::x_fresh
pub mod config {
use super::*;
//@type src/config.rs :: Source
//@type src/config.rs :: Config
//@fn src/config.rs :: <From<PathBuf> for Source>::from | as=source_from_path
    ensures r == Source::File(value)
//@end
//@fn src/config.rs :: <From<Source> for Config>::from | as=from_source
    ensures r.source == source, r.labels.unset(), r.extensions.unset(),
//@end
}
pub mod secret {
use super::*;
//@type src/secret.rs :: Source
//@type src/secret.rs :: Secret
//@fn src/secret.rs :: <From<PathBuf> for Source>::from | as=source_from_path
    ensures r == Source::File(value)
//@end
//@fn src/secret.rs :: <From<Source> for Secret>::from | as=from_source
    ensures r.source == source, r.labels.unset(), r.driver is None, r.driver_opts.unset(), r.extensions.unset(),
//@end
}
pub mod include {
use super::*;
#[verifier::reject_recursive_types(T)]
//@type src/common.rs :: ItemOrList
//@type src/include.rs :: Include
//@fn src/include.rs :: <From<PathBuf> for Include>::from | as=from_path
    ensures r.path == ItemOrList::<PathBuf>::Item(value), r.project_directory is None, r.env_file is None,
//@end
}
pub mod defaults {
use super::*;
//@type src/service/ports.rs :: Mode | derive=Clone, Copy
//@fn expanded :: service::ports::<Default for Mode>::default | as=port_mode_default
    ensures r is Ingress
//@end
//@type src/service/ports.rs :: Protocol
//@fn expanded :: service::ports::<Default for Protocol>::default | as=protocol_default
    ensures r is Tcp
//@end
//@type src/service.rs :: Condition | derive=Clone, Copy
//@fn expanded :: service::<Default for Condition>::default | as=condition_default
    ensures r is ServiceStarted
//@end
//@type src/service.rs :: PullPolicy | derive=Clone, Copy
//@fn expanded :: service::<Default for PullPolicy>::default | as=pull_default
    ensures r is Missing
//@end
//@type src/service/deploy.rs :: RestartCondition | derive=Clone, Copy
//@fn expanded :: service::deploy::<Default for RestartCondition>::default | as=restart_default
    ensures r is Any
//@end
//@type src/service/deploy.rs :: FailureAction | derive=Clone, Copy
//@fn expanded :: service::deploy::<Default for FailureAction>::default | as=failure_default
    ensures r is Pause
//@end
//@type src/service/deploy.rs :: Order | derive=Clone, Copy
//@fn expanded :: service::deploy::<Default for Order>::default | as=order_default
    ensures r is StopFirst
//@end
//@type src/service/volumes/mount.rs :: BindPropagation | derive=Clone, Copy
//@fn expanded :: service::volumes::mount::<Default for BindPropagation>::default | as=propagation_default
    ensures r is RPrivate
//@end
//@type src/service/deploy/resources.rs :: Count
//@fn expanded :: service::deploy::resources::<Default for Count>::default | as=count_default
    ensures r is All
//@end
}
pub mod deploy_mode {
use super::*;
//@type src/service/deploy.rs :: Mode | derive=Clone, Copy
//@fn expanded :: service::deploy::<Default for Mode>::default | as=mode_default
    ensures r is Replicated
//@end
}
} // verus!
fn main() {}
