//! The parts of a compose document: for each type the keys it must have and the keys it may have,
//! each with values in the form they are written in.
use crate::core::*;
use compose_spec::service::{self, blkio_config, build, deploy, develop, env_file, healthcheck, network_config, ports, volumes};
use compose_spec::{config, network, secret, Compose, Include, Service};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_yaml::{Mapping, Value as Y};
use std::fmt::Debug;

pub type Keys = &'static [(&'static str, &'static [&'static str])];
pub struct Part {
    pub name: &'static str,
    /// keys always there, with their values
    pub base: Keys,
    pub keys: Keys,
    /// reads the value, looks at whether it reports itself as empty, and writes it back
    pub go: fn(Y, &str) -> Result<(Option<bool>, Y), String>,
    /// only looks at whether the value reports itself as empty
    pub empty: fn(Y) -> Result<Option<bool>, String>,
    /// reads two values and compares them, both ways
    pub same: fn(Y, Y) -> Result<(bool, bool), String>,
}

pub fn y(s: &str) -> Y {
    serde_yaml::from_str(s).unwrap_or_else(|e| panic!("{s}: {e}"))
}

fn there_and_back<T: DeserializeOwned + Serialize + PartialEq + Debug>(v: Y, text: &str, empty: Option<fn(&T) -> bool>) -> Result<(Option<bool>, Y), String> {
    let t: T = serde_yaml::from_value(v).map_err(|e| format!("rejected: {e}"))?;
    let u: T = serde_yaml::from_str(text).map_err(|e| format!("text rejected: {e}"))?;
    eq("read from text and from value", &u, &t)?;
    let back = serde_yaml::to_value(&t).map_err(|e| format!("not written: {e}"))?;
    let again: T = serde_yaml::from_value(back.clone()).map_err(|e| format!("written document not read: {e}\n{back:?}"))?;
    eq("read back", &again, &t)?;
    let text = serde_yaml::to_string(&t).map_err(|e| format!("not written: {e}"))?;
    let again: T = serde_yaml::from_str(&text).map_err(|e| format!("written text not read: {e}\n{text}"))?;
    eq("read back from text", &again, &t)?;
    Ok((empty.map(|f| f(&t)), back))
}

fn look<T: DeserializeOwned>(v: Y, empty: Option<fn(&T) -> bool>) -> Result<Option<bool>, String> {
    let t: T = serde_yaml::from_value(v).map_err(|e| format!("rejected: {e}"))?;
    Ok(empty.map(|f| f(&t)))
}

fn same<T: DeserializeOwned + PartialEq + Clone>(a: Y, b: Y) -> Result<(bool, bool), String> {
    let a: T = serde_yaml::from_value(a).map_err(|e| format!("rejected: {e}"))?;
    let b: T = serde_yaml::from_value(b).map_err(|e| format!("rejected: {e}"))?;
    ensure(a == a.clone(), || "a copy differs".into())?;
    ensure((a != b) != (a == b), || "neither equal nor unequal".into())?;
    Ok((a == b, b == a))
}

macro_rules! part {
    ($name:literal, $t:ty, $empty:expr, [$($bk:literal: $bv:literal),*], { $($k:literal: [$($v:literal),+ $(,)?]),* $(,)? }) => {
        Part { name: $name, base: &[$(($bk, &[$bv])),*], keys: &[$(($k, &[$($v),+])),*], go: |y, s| there_and_back::<$t>(y, s, $empty), empty: |y| look::<$t>(y, $empty), same: same::<$t> }
    };
}

pub fn parts() -> Vec<Part> {
    vec![
        part!("network", network::Network, Some(network::Network::is_empty), [], {
            "driver": ["bridge", "other", "none"], "driver_opts": ["{a: b, c: 1}"], "attachable": ["true"], "enable_ipv6": ["true"],
            "ipam": ["{driver: d}", "{config: [{subnet: 10.0.0.0/8}]}", "{x-i: 1}"], "internal": ["true"],
            "labels": ["{a: b}", "[a=b, c]"], "name": ["n", "''"], "x-e": ["1", "{a: [b]}", "null"],
        }),
        part!("ipam", network::Ipam, Some(network::Ipam::is_empty), [], {
            "driver": ["d"], "config": ["[{subnet: 10.0.0.0/8}]", "[{}, {gateway: 10.0.0.1}]"], "options": ["{a: b}"], "x-e": ["1"],
        }),
        part!("ipam config", network::IpamConfig, Some(network::IpamConfig::is_empty), [], {
            "subnet": ["10.0.0.0/8", "\"2001:db8::/32\""], "ip_range": ["10.1.0.0/16"], "gateway": ["10.0.0.1"], "aux_addresses": ["{h: 10.0.0.2}"], "x-e": ["1"],
        }),
        part!("volume", compose_spec::Volume, Some(compose_spec::Volume::is_empty), [], {
            "driver": ["d"], "driver_opts": ["{a: b, c: 1}"], "labels": ["{a: b}", "[a=b, c]"], "name": ["n"], "x-e": ["1"],
        }),
        part!("config", config::Config, None, ["file": "./f"], { "labels": ["{a: b}"], "x-e": ["1", "null"] }),
        part!("secret", secret::Secret, None, ["environment": "E"], { "labels": ["{a: b}"], "driver": ["d"], "driver_opts": ["{a: 1}"], "x-e": ["1"] }),
        part!("include", Include, None, ["path": "a"], { "project_directory": ["d"], "env_file": ["e", "[e, f]"] }),
        part!("build", build::Build, Some(build::Build::is_empty), [], {
            "context": [".", "https://e.com/a.git"], "dockerfile": ["D"], "args": ["{a: 1}", "[a=b]"], "ssh": ["[default]", "[a=/b]"],
            "cache_from": ["[alpine]", "['type=local,src=a']"], "cache_to": ["['user/app:cache']"], "additional_contexts": ["{a: ./b}"],
            "entitlements": ["[e]"], "extra_hosts": ["{a: 10.0.0.1}"], "isolation": ["i"], "privileged": ["true"], "labels": ["{a: b}"],
            "no_cache": ["true"], "pull": ["true"], "network": ["host", "none", "a"], "shm_size": ["1gb"], "target": ["t"],
            "secrets": ["[s]", "[{source: s, target: t, uid: '1', gid: '2', mode: 292}]"], "tags": ["['a:1']"],
            "ulimits": ["{nproc: 5}", "{nofile: {soft: 1, hard: 2}}"], "platforms": ["[linux/amd64]"], "x-e": ["1"],
        }),
        part!("network of a service", network_config::Network, Some(network_config::Network::is_empty), [], {
            "aliases": ["[a, b]"], "ipv4_address": ["10.0.0.1"], "ipv6_address": ["'2001:db8::1'"], "link_local_ips": ["[10.0.0.1]"],
            "mac_address": ["92:d0:c6:0a:29:33"], "driver_opts": ["{a: b}"], "priority": ["0", "5"], "x-e": ["1"],
        }),
        part!("config or secret", service::ConfigOrSecret, None, ["source": "s"], {
            "target": ["t"], "uid": ["'0'", "'1'"], "gid": ["'0'", "'4294967295'"], "mode": ["0", "292"], "x-e": ["1"],
        }),
        part!("ulimit", service::Ulimit, None, ["soft": "1", "hard": "2"], { "x-e": ["1"] }),
        part!("env file", env_file::Config, None, ["path": "p"], { "required": ["false"] }),
        part!("dependency", service::Dependency, None, ["condition": "service_started"], { "restart": ["true"], "required": ["false"] }),
        part!("extends", service::Extends, None, ["service": "s"], { "file": ["f"] }),
        part!("logging", service::Logging, Some(service::Logging::is_empty), [], { "driver": ["d"], "options": ["{a: b, c: null, d: 1}"], "x-e": ["1"] }),
        part!("blkio config", blkio_config::BlkioConfig, Some(blkio_config::BlkioConfig::is_empty), [], {
            "device_read_bps": ["[{path: /a, rate: 1mb}]"], "device_read_iops": ["[{path: /a, rate: 1}]"], "device_write_bps": ["[{path: /a, rate: 2kb}]"],
            "device_write_iops": ["[{path: /b, rate: 2}]"], "weight": ["10", "1000"], "weight_device": ["[{path: /a, weight: 300}]"],
        }),
        part!("healthcheck command", healthcheck::Healthcheck, None, [], {
            "test": ["[CMD, a, b]", "t"], "interval": ["5s"], "timeout": ["1m"], "retries": ["0", "3"], "start_period": ["1ms"], "start_interval": ["1h"], "x-e": ["1"],
        }),
        part!("deploy", deploy::Deploy, Some(deploy::Deploy::is_empty), [], {
            "endpoint_mode": ["vip", "other"], "labels": ["{a: b}"], "mode": ["global"], "placement": ["{max_replicas_per_node: 1}", "{preferences: [{spread: s}]}"],
            "replicas": ["0", "2"], "resources": ["{limits: {pids: 1}}", "{x-e: 1}"], "restart_policy": ["{condition: any}", "{window: 1s}"],
            "rollback_config": ["{parallelism: 1}", "{order: start-first}"], "update_config": ["{delay: 1s}", "{max_failure_ratio: 0}"], "x-e": ["1"],
        }),
        part!("placement", deploy::Placement, Some(deploy::Placement::is_empty), [], {
            "constraints": ["[a]"], "preferences": ["[{spread: s}]", "[{}, {x-e: 1}]"], "max_replicas_per_node": ["0", "1"], "x-e": ["1"],
        }),
        part!("preference", deploy::Preference, Some(deploy::Preference::is_empty), [], { "spread": ["s", "''"], "x-e": ["1"] }),
        part!("restart policy", deploy::RestartPolicy, Some(deploy::RestartPolicy::is_empty), [], {
            "condition": ["none", "on-failure", "any"], "delay": ["0s", "1s"], "max_attempts": ["0", "1"], "window": ["0s", "1m"], "x-e": ["1"],
        }),
        part!("update config", deploy::UpdateOrRollbackConfig, Some(deploy::UpdateOrRollbackConfig::is_empty), [], {
            "parallelism": ["0", "1"], "delay": ["0s"], "failure_action": ["pause", "continue"], "monitor": ["1s"], "max_failure_ratio": ["0"], "order": ["stop-first", "start-first"], "x-e": ["1"],
        }),
        part!("resources", deploy::Resources, Some(deploy::Resources::is_empty), [], {
            "limits": ["{cpus: 0.5}", "{memory: 1gb}"], "reservations": ["{cpus: 1.5}", "{devices: [{capabilities: [gpu]}]}", "{generic_resources: [{x-e: 1}]}"], "x-e": ["1"],
        }),
        part!("limits", deploy::resources::Limits, Some(deploy::resources::Limits::is_empty), [], {
            "cpus": ["0.0", "0.5"], "memory": ["0b", "1gb"], "pids": ["0", "-1"], "x-e": ["1"],
        }),
        part!("reservations", deploy::resources::Reservations, Some(deploy::resources::Reservations::is_empty), [], {
            "cpus": ["0.5"], "memory": ["1gb"], "devices": ["[{capabilities: [gpu], count: all}]"], "generic_resources": ["[{discrete_resource_spec: {kind: k}}]"], "x-e": ["1"],
        }),
        part!("reserved device", deploy::resources::Device, Some(deploy::resources::Device::is_empty), ["capabilities": "[]"], {
            "driver": ["d"], "count": ["all", "0", "2"], "device_ids": ["[a]"], "options": ["{a: b}"], "x-e": ["1"],
        }),
        part!("reserved device with capabilities", deploy::resources::Device, None, ["capabilities": "[gpu, tpu, x]"], {
            "driver": ["d"], "count": ["all", "0", "2"], "device_ids": ["[a]"], "options": ["{a: b}"], "x-e": ["1"],
        }),
        part!("generic resource", deploy::resources::GenericResource, Some(deploy::resources::GenericResource::is_empty), [], {
            "discrete_resource_spec": ["{kind: k}", "{value: 0}", "{x-e: 1}"], "x-e": ["1"],
        }),
        part!("discrete resource", deploy::resources::DiscreteResourceSpec, Some(deploy::resources::DiscreteResourceSpec::is_empty), [], {
            "kind": ["k", "''"], "value": ["0", "1"], "x-e": ["1"],
        }),
        part!("watch rule", develop::WatchRule, None, ["action": "sync", "path": "p"], { "ignore": ["[a, b]"], "target": ["/t"], "x-e": ["1"] }),
        part!("develop", develop::Develop, None, [], { "watch": ["[{action: rebuild, path: p}, {action: sync+restart, path: q, target: /t}]"] }),
        part!("port", ports::Port, None, ["target": "80"], {
            "name": ["n"], "published": ["8080", "80-81"], "host_ip": ["127.0.0.1", "'::1'"], "protocol": ["tcp", "sctp"], "app_protocol": ["http"], "mode": ["host", "ingress"], "x-e": ["1"],
        }),
        part!("volume mount", volumes::Mount, None, ["type": "volume", "target": "/t"], {
            "source": ["s"], "volume": ["{nocopy: true}", "{subpath: p}", "{x-e: 1}", "{}"], "read_only": ["true"], "consistency": ["c"], "x-e": ["1"],
        }),
        part!("bind mount", volumes::Mount, None, ["type": "bind", "source": "./s", "target": "/t"], {
            "bind": ["{propagation: rslave}", "{create_host_path: true}", "{selinux: z}", "{selinux: Z}", "{x-e: 1}", "{}"], "read_only": ["true"], "consistency": ["c"], "x-e": ["1"],
        }),
        part!("tmpfs mount", volumes::Mount, None, ["type": "tmpfs", "target": "/t"], {
            "tmpfs": ["{size: 1mb}", "{mode: 0}", "{x-e: 1}", "{}"], "read_only": ["true"], "consistency": ["c"], "x-e": ["1"],
        }),
        part!("pipe mount", volumes::Mount, None, ["type": "npipe", "source": "/s", "target": "/t"], { "read_only": ["true"], "consistency": ["c"], "x-e": ["1"] }),
        part!("cluster mount", volumes::Mount, None, ["type": "cluster", "source": "s", "target": "/t"], { "read_only": ["true"], "consistency": ["c"], "x-e": ["1"] }),
        part!("volume options", volumes::mount::VolumeOptions, Some(volumes::mount::VolumeOptions::is_empty), [], { "nocopy": ["true"], "subpath": ["p"], "x-e": ["1"] }),
        part!("bind options", volumes::mount::BindOptions, Some(volumes::mount::BindOptions::is_empty), [], { "propagation": ["private", "rshared"], "create_host_path": ["true"], "selinux": ["z", "Z"], "x-e": ["1"] }),
        part!("tmpfs options", volumes::mount::TmpfsOptions, Some(volumes::mount::TmpfsOptions::is_empty), [], { "size": ["0b", "1mb"], "mode": ["0", "511"], "x-e": ["1"] }),
        part!("service", Service, None, [], {
            "attach": ["false"], "build": [".", "{context: .}", "{}", "{dockerfile: D, x-e: 1}", "{dockerfile_inline: 'FROM a'}"],
            "blkio_config": ["{weight: 10}"], "cpu_count": ["0", "1"], "cpu_percent": ["0", "100"], "cpu_shares": ["1"],
            "cpu_period": ["0", "12000"], "cpu_quota": ["5"], "cpu_rt_runtime": ["400ms"], "cpu_rt_period": ["1s"], "cpus": ["0.0", "1.5"], "cpuset": ["'0'", "0-3,5", "'7'"],
            "cap_add": ["[ALL, A]"], "cap_drop": ["[B]"], "cgroup": ["host", "private"], "cgroup_parent": ["p"], "command": ["c", "[]", "[a, b]", "''"],
            "configs": ["[a, {source: b, mode: 1}]"], "container_name": ["n"], "credential_spec": ["{file: f}", "{registry: r}", "{config: c}"],
            "depends_on": ["[b, a]", "{b: {condition: service_started}, a: {condition: service_healthy, restart: true, required: false}}"],
            "deploy": ["{replicas: 1}", "{}"], "develop": ["{watch: [{action: sync, path: p}]}", "{}"], "device_cgroup_rules": ["['c 1:3 rm', 'a *:*']"],
            "devices": ["['/a:/b:rw', '/c:/d']"], "dns": ["8.8.8.8", "[8.8.8.8, 9.9.9.9]"], "dns_opt": ["[a]"], "dns_search": ["a.b", "[a, b]"], "domainname": ["d"],
            "entrypoint": ["e", "[]", "[e, f]"], "env_file": ["a", "[a]", "[a, {path: b}, {path: c, required: false}]", "[]"], "environment": ["{a: b, c: null, d: true, e: 1.5}", "[a=b, c]"],
            "expose": ["[1]", "[1, 2-3/udp]"], "extends": ["{service: s}", "{service: s, file: f}"], "annotations": ["{a: b}"], "external_links": ["['a:b', c]"], "extra_hosts": ["{a: 10.0.0.1, b: '::1'}"],
            "group_add": ["[1, a]"], "healthcheck": ["{disable: true}", "{test: t}", "{}", "{test: [CMD, a], interval: 1s, x-e: 1}"], "hostname": ["h"], "image": ["a", "a:b", "'h.io:1/a@sha256:0123456789abcdef0123456789abcdef'"],
            "init": ["true"], "ipc": ["shareable", "'service:a'", "'host'", "other"], "uts": ["host"], "isolation": ["i"], "labels": ["{a: b}"], "links": ["[b, 'a:b']"], "logging": ["{driver: d}", "{}"],
            "networks": ["[b, a]", "{b: null, a: {priority: 1}}"], "mac_address": ["92:d0:c6:0a:29:33"], "mem_limit": ["1gb", "0b"], "mem_reservation": ["5kb"], "mem_swappiness": ["0", "100"],
            "memswap_limit": ["-1", "1gb"], "oom_kill_disable": ["true"], "oom_score_adj": ["-1000", "0"], "pid": ["host"], "pids_limit": ["-1", "10"], "platform": ["linux/amd64", "linux/arm64/v8"],
            "ports": ["['80:80', {target: 80}]", "['1-2']", "[80, 81]"], "privileged": ["true"], "profiles": ["[b, a]"], "pull_policy": ["always", "build", "missing"], "read_only": ["true"],
            "restart": ["'no'", "always", "unless-stopped"], "runtime": ["r"], "scale": ["0", "1"], "secrets": ["[a, {source: b, target: t}]"], "security_opt": ["[a]"], "shm_size": ["1mb"], "stdin_open": ["true"],
            "stop_grace_period": ["0s", "1m30s"], "stop_signal": ["S"], "storage_opt": ["{size: 1G}", "{a: null}"], "sysctls": ["{a: 1}", "[a=1]"], "tmpfs": ["/a", "[/a, /b]"], "tty": ["true"],
            "ulimits": ["{nproc: 65535, nofile: {soft: 1, hard: -1}}"], "user": ["'1000'", "a", "'1:2'", "'a:b'"], "userns_mode": ["host"],
            "volumes": ["['a:/b:ro', {type: volume, target: /c}, {type: bind, source: ./s, target: /t, bind: {selinux: z}}]", "[/a]", "['./a:/b']"],
            "volumes_from": ["[a, 'b:ro', 'container:c:ro']"], "working_dir": ["/w"], "x-e": ["1", "null", "{a: 1}"],
        }),
        part!("service with a network mode", Service, None, ["network_mode": "host"], { "image": ["a"], "x-e": ["1"], "mac_address": ["92:d0:c6:0a:29:33"] }),
        part!("compose", Compose, None, ["services": "{}"], {
            "version": ["'3'"], "name": ["n"], "include": ["[a, {path: [b, c]}, {path: d, project_directory: e}]"],
            "networks": ["{b: null, a: {driver: bridge}, c: {external: true}, d: {external: true, name: e}}"], "volumes": ["{b: null, a: {driver: d}, c: {external: true}}"],
            "configs": ["{b: {file: f}, a: {content: c}, c: {external: true}}"], "secrets": ["{b: {file: f}, a: {environment: c, x-e: 1}, c: {external: true, name: n}}"], "x-e": ["1", "null", "{b: 1, a: [2]}"],
        }),
        part!("compose with services", Compose, None, ["services": "{b: {image: x, ports: [80]}, a: {}}"], {
            "name": ["n"], "x-e": ["1"], "networks": ["{b: null}"], "volumes": ["{a: null}"],
        }),
    ]
}

/// a choice of keys with a value each
pub type Doc = Vec<(&'static str, &'static str)>;
pub fn text(d: &Doc) -> String {
    if d.is_empty() {
        return "{}\n".into();
    }
    d.iter().map(|(k, v)| format!("{k}: {v}\n")).collect()
}
pub fn map(d: &Doc) -> Y {
    Y::Mapping(d.iter().map(|(k, v)| (Y::from(*k), y(v))).collect::<Mapping>())
}
