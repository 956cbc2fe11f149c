//! String-encoded choices.
use crate::core::*;
use crate::p03::{identifier, option, user_name};
use crate::p04;
use compose_spec::network::Driver;
use compose_spec::service::build::{Cache, CacheType, Network as BuildNetwork, SshAuth, SshAuthId};
use compose_spec::service::deploy::resources::{Capability, Count};
use compose_spec::service::deploy::{EndpointMode, FailureAction, Order, RestartCondition};
use compose_spec::service::network_config::NetworkMode;
use compose_spec::service::ports::Protocol;
use compose_spec::service::volumes::mount::BindPropagation;
use compose_spec::service::*;
use compose_spec::Identifier;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;
use std::fmt::{Debug, Display};
use std::str::FromStr;

/// what a text parses to (variant and carried text), and the text it prints as
type Want = Option<(String, String)>;
fn w(v: impl Into<String>, t: impl Into<String>) -> Want {
    Some((v.into(), t.into()))
}
fn keyword(s: &str, words: &[&str]) -> Want {
    if words.contains(&s) {
        w(format!("={s}"), s)
    } else {
        w(format!("other {s}"), s)
    }
}

fn base<T>(s: &str, want: &Want, view: impl Fn(&T) -> String) -> Result<Option<T>, String>
where
    T: FromStr + Display + Clone + PartialEq + Debug + Serialize + DeserializeOwned,
{
    let got = s.parse::<T>().ok();
    eq("parsed", got.as_ref().map(&view), want.as_ref().map(|p| p.0.clone()))?;
    eq("from a document", serde_yaml::from_value::<T>(Value::from(s)).ok(), got.clone())?;
    // borrowed and owned texts of a document
    // (YAML allows no bare delete character)
    if !s.contains('\u{7f}') {
        eq("from document text", serde_yaml::from_str::<T>(&serde_json::to_string(s).unwrap()).ok(), got.clone())?;
    }
    if let (Some(v), Some((_, t))) = (&got, want) {
        eq("text", &v.to_string(), t)?;
        eq("parse of text", t.parse::<T>().ok().as_ref(), Some(v))?;
        eq("document form", serde_yaml::to_value(v).map_err(|e| e.to_string())?, Value::from(t.as_str()))?;
        eq("view of a clone", view(&v.clone()), view(v))?;
    }
    Ok(got)
}
fn tries<T>(s: &str, got: &Option<T>) -> R
where
    T: Clone + PartialEq + Debug + for<'a> TryFrom<&'a str> + TryFrom<String> + TryFrom<Box<str>> + for<'a> TryFrom<std::borrow::Cow<'a, str>>,
{
    eq("try_from &str", T::try_from(s).ok().as_ref(), got.as_ref())?;
    eq("try_from String", T::try_from(s.to_owned()).ok().as_ref(), got.as_ref())?;
    eq("try_from Box", T::try_from(Box::<str>::from(s)).ok().as_ref(), got.as_ref())?;
    eq("try_from Cow", T::try_from(std::borrow::Cow::Borrowed(s)).ok().as_ref(), got.as_ref())
}
fn into_string<T: Clone + Into<String>>(got: &Option<T>, want: &Want) -> R {
    match (got, want) {
        (Some(v), Some((_, t))) => eq("into String", &Into::<String>::into(v.clone()), t),
        _ => Ok(()),
    }
}
fn into_cow<T: Clone + Into<std::borrow::Cow<'static, str>>>(got: &Option<T>, want: &Want) -> R {
    match (got, want) {
        (Some(v), Some((_, t))) => eq("into Cow", Into::<std::borrow::Cow<'static, str>>::into(v.clone()).as_ref(), t.as_str()),
        _ => Ok(()),
    }
}
fn as_str<T: AsRef<str>>(got: &Option<T>, want: &Want) -> R {
    match (got, want) {
        (Some(v), Some((_, t))) => eq("as_ref", v.as_ref(), t.as_str()),
        _ => Ok(()),
    }
}
fn id(s: &str) -> Option<&str> {
    identifier(s).then_some(s)
}

fn network_mode(s: &str) -> Want {
    if let Some(x) = s.strip_prefix("service:") {
        w(format!("service {}", id(x)?), s)
    } else if let Some(x) = s.strip_prefix("container:") {
        w(format!("container {}", id(x)?), s)
    } else {
        keyword(s, &["none", "host"])
    }
}
fn network_mode_view(m: &NetworkMode) -> String {
    let v = match m {
        NetworkMode::None => "=none".to_owned(),
        NetworkMode::Host => "=host".to_owned(),
        NetworkMode::Service(i) => format!("service {i}"),
        NetworkMode::Container(i) => format!("container {i}"),
        NetworkMode::Other(o) => format!("other {o}"),
    };
    let flags = [m.is_none(), m.is_host(), m.is_service(), m.is_container(), m.is_other()];
    let k = match m {
        NetworkMode::None => 0,
        NetworkMode::Host => 1,
        NetworkMode::Service(_) => 2,
        NetworkMode::Container(_) => 3,
        NetworkMode::Other(_) => 4,
    };
    let payload = m
        .as_service()
        .map(|i| format!("service {i}"))
        .or(m.as_container().map(|i| format!("container {i}")))
        .or(m.as_other().map(|o| format!("other {o}")));
    if (0..5).any(|i| flags[i] != (i == k)) || payload.is_some_and(|p| p != v) {
        return format!("inconsistent accessors of {m:?}");
    }
    v
}
fn ipc(s: &str) -> Want {
    match s.strip_prefix("service:") {
        Some(x) => w(format!("service {}", id(x)?), s),
        None => keyword(s, &["shareable"]),
    }
}
fn ipc_view(m: &Ipc) -> String {
    let (k, v) = match m {
        Ipc::Shareable => (0, "=shareable".to_owned()),
        Ipc::Service(i) => (1, format!("service {i}")),
        Ipc::Other(o) => (2, format!("other {o}")),
    };
    let flags = [m.is_shareable(), m.is_service(), m.is_other()];
    let payload = m.as_service().map(|i| format!("service {i}")).or(m.as_other().map(|o| format!("other {o}")));
    if (0..3).any(|i| flags[i] != (i == k)) || payload.is_some_and(|p| p != v) {
        return format!("inconsistent accessors of {m:?}");
    }
    v
}
fn link(s: &str) -> Want {
    match s.find(':') {
        Some(i) => w(format!("{} as {}", id(&s[..i])?, &s[i + 1..]), s),
        None => w(id(s)?, s),
    }
}
fn vol_source(s: &str) -> Want {
    match s.strip_prefix("container:") {
        Some(x) => w(format!("container {}", id(x)?), s),
        None => w(format!("service {}", id(s)?), s),
    }
}
fn volumes_from(s: &str) -> Want {
    let (rest, ro) = if let Some(x) = s.strip_suffix(":ro") {
        (x, true)
    } else {
        (s.strip_suffix(":rw").unwrap_or(s), false)
    };
    let (v, t) = vol_source(rest)?;
    let t = if ro {
        t + ":ro"
    } else if t == "container:ro" || t == "container:rw" {
        // without the suffix this text is a service called `container`
        t + ":rw"
    } else {
        t
    };
    w(format!("{v} {ro}"), t)
}
fn vol_source_view(v: &service_types::VolumesFromSource) -> String {
    match v {
        service_types::VolumesFromSource::Service(i) => format!("service {i}"),
        service_types::VolumesFromSource::Container(i) => format!("container {i}"),
    }
}
mod service_types {
    pub use compose_spec::service::{VolumesFrom, VolumesFromSource};
}
use service_types::{VolumesFrom, VolumesFromSource};

fn id_or_name(s: &str) -> Want {
    if let Some(n) = uint(s, u128::from(u32::MAX)) {
        w(format!("id {n}"), n.to_string())
    } else {
        user_name(s).then(|| (format!("name {s}"), s.to_owned()))
    }
}
fn id_or_name_view(v: &IdOrName) -> String {
    let (v2, ok) = match v {
        IdOrName::Id(n) => (format!("id {n}"), v.is_id() && !v.is_name() && v.as_id() == Some(*n) && v.as_name().is_none()),
        IdOrName::Name(n) => (format!("name {n}"), !v.is_id() && v.is_name() && v.as_id().is_none() && v.as_name() == Some(n)),
    };
    if ok { v2 } else { format!("inconsistent accessors of {v:?}") }
}
fn user(s: &str) -> Want {
    match s.find(':') {
        Some(i) => {
            let (a, b) = (id_or_name(&s[..i])?, id_or_name(&s[i + 1..])?);
            w(format!("{}:{}", a.0, b.0), format!("{}:{}", a.1, b.1))
        }
        None => id_or_name(s),
    }
}
fn user_view(u: &User) -> String {
    let a = id_or_name_view(&u.user);
    match &u.group {
        Some(g) => format!("{a}:{}", id_or_name_view(g)),
        None => a,
    }
}
fn build_network(s: &str) -> Want {
    if s == "none" { w("=none", s) } else { w(format!("net {}", id(s)?), s) }
}
fn cache(s: &str) -> Want {
    let Some(rest) = s.strip_prefix("type=") else {
        p04::image(s)?;
        return w(format!("registry {s}|"), s);
    };
    let mut parts = rest.split(',');
    let kind = parts.next()?;
    let mut opts: Vec<(String, String)> = Vec::new();
    for p in parts {
        let i = p.find('=')?;
        let (k, v) = (&p[..i], &p[i + 1..]);
        if !option(k) || !option(v) {
            return None;
        }
        match opts.iter_mut().find(|o| o.0 == k) {
            Some(o) => o.1 = v.to_owned(),
            None => opts.push((k.to_owned(), v.to_owned())),
        }
    }
    let tail = |opts: &[(String, String)]| opts.iter().map(|(k, v)| format!(",{k}={v}")).collect::<String>();
    if kind == "registry" {
        let i = opts.iter().position(|o| o.0 == "ref")?;
        let (_, img) = opts.remove(i);
        p04::image(&img)?;
        let t = if opts.is_empty() { img.clone() } else { format!("type=registry,ref={img}{}", tail(&opts)) };
        w(format!("registry {img}|{}", tail(&opts)), t)
    } else {
        option(kind).then_some(())?;
        w(format!("type {kind}|{}", tail(&opts)), format!("type={kind}{}", tail(&opts)))
    }
}
fn cache_view(c: &Cache) -> String {
    let k = match &c.cache_type {
        CacheType::Registry(i) => format!("registry {i}"),
        CacheType::Other(o) => format!("type {o}"),
    };
    let t: String = c.options.iter().map(|(k, v)| format!(",{k}={v}")).collect();
    format!("{k}|{t}")
}
fn ssh(s: &str) -> Want {
    if s == "default" {
        return w("=default", s);
    }
    let i = s.find('=')?;
    (i > 0 && i + 1 < s.len()).then(|| (format!("{} at {}", &s[..i], &s[i + 1..]), s.to_owned()))
}
fn ssh_view(v: &SshAuth) -> String {
    match v {
        SshAuth::Default => {
            if v.id().is_some() || v.path().is_some() || v.as_id().is_some() {
                return "inconsistent accessors".into();
            }
            "=default".into()
        }
        SshAuth::Id(i) => {
            if v.id() != Some(i.id()) || v.path() != Some(i.path()) || v.as_id() != Some(i) {
                return "inconsistent accessors".into();
            }
            format!("{} at {}", i.id(), i.path().display())
        }
    }
}
fn mac(s: &str) -> Option<[u8; 6]> {
    let mut out = [0u8; 6];
    let parts: Vec<&str> = s.split(':').collect();
    (parts.len() == 6).then_some(())?;
    for (o, p) in out.iter_mut().zip(parts) {
        // what std accepts for a hexadecimal byte
        let d = p.strip_prefix('+').unwrap_or(p);
        (!d.is_empty() && d.bytes().all(|b| b.is_ascii_hexdigit())).then_some(())?;
        let d = d.trim_start_matches('0');
        (d.len() <= 2).then_some(())?;
        *o = d.bytes().fold(0u32, |a, b| a * 16 + (b as char).to_digit(16).unwrap()) as u8;
    }
    Some(out)
}
fn mac_text(b: [u8; 6]) -> String {
    let t: Vec<String> = b.iter().enumerate().map(|(i, b)| if i == 0 { format!("{b:x}") } else { format!("{b:02x}") }).collect();
    t.join(":")
}
fn count(s: &str) -> Option<Option<u64>> {
    if s == "all" { Some(None) } else { uint(s, u128::from(u64::MAX)).map(|n| Some(n as u64)) }
}
fn count_view(c: &Count) -> Option<u64> {
    match c {
        Count::All => None,
        Count::Integer(n) => Some(*n),
    }
}

macro_rules! tagged {
    ($cx:ident, $s:ident, $name:literal, $T:ty, $want:expr, $view:expr $(, $extra:ident)*) => {
        $cx.case($name, $s, || {
            let want: Want = $want;
            let _got = base::<$T>($s, &want, $view)?;
            tagged!(@ $s, _got, want $(, $extra)*);
            Ok(())
        });
    };
    (@ $s:ident, $got:ident, $want:ident) => {};
    (@ $s:ident, $got:ident, $want:ident, tries $(, $r:ident)*) => { tries($s, &$got)?; tagged!(@ $s, $got, $want $(, $r)*); };
    (@ $s:ident, $got:ident, $want:ident, string $(, $r:ident)*) => { into_string(&$got, &$want)?; tagged!(@ $s, $got, $want $(, $r)*); };
    (@ $s:ident, $got:ident, $want:ident, cow $(, $r:ident)*) => { into_cow(&$got, &$want)?; tagged!(@ $s, $got, $want $(, $r)*); };
    (@ $s:ident, $got:ident, $want:ident, asref $(, $r:ident)*) => { as_str(&$got, &$want)?; tagged!(@ $s, $got, $want $(, $r)*); };
}

fn check(cx: &mut Cx, s: &str) {
    tagged!(cx, s, "network modes", NetworkMode, network_mode(s), network_mode_view, tries, string, cow);
    tagged!(cx, s, "IPC modes", Ipc, ipc(s), ipc_view, tries, string, cow);
    tagged!(cx, s, "links", Link, link(s), |l: &Link| match &l.alias {
        Some(a) => format!("{} as {a}", l.service),
        None => l.service.to_string(),
    }, tries, string);
    tagged!(cx, s, "sources of volumes_from", VolumesFromSource, vol_source(s), vol_source_view, tries, string);
    tagged!(cx, s, "volumes_from", VolumesFrom, volumes_from(s), |v: &VolumesFrom| format!("{} {}", vol_source_view(&v.source), v.read_only), tries, string);
    tagged!(cx, s, "users", User, user(s), user_view, tries, string);
    tagged!(cx, s, "build networks", BuildNetwork, build_network(s), |n: &BuildNetwork| {
        let o = n.clone().into_option();
        match n {
            BuildNetwork::None if n.is_none() && o.is_none() => "=none".into(),
            BuildNetwork::Identifier(i) if !n.is_none() && o.as_ref() == Some(i) => format!("net {i}"),
            _ => format!("inconsistent accessors of {n:?}"),
        }
    }, tries, string, cow, asref);
    tagged!(cx, s, "build caches", Cache, cache(s), cache_view, tries);
    tagged!(cx, s, "SSH authentication", SshAuth, ssh(s), ssh_view);
    tagged!(cx, s, "network drivers", Driver, keyword(s, &["host", "none"]), |d: &Driver| match d {
        Driver::Host => "=host".to_owned(),
        Driver::None => "=none".to_owned(),
        Driver::Other(o) => format!("other {o}"),
    }, tries, string, cow, asref);
    tagged!(cx, s, "endpoint modes", EndpointMode, keyword(s, &["vip", "dnsrr"]), |d: &EndpointMode| match d {
        EndpointMode::VIp if d.is_vip() && !d.is_dnsrr() => "=vip".to_owned(),
        EndpointMode::DnsRR if d.is_dnsrr() && !d.is_vip() => "=dnsrr".to_owned(),
        EndpointMode::Other(o) if !d.is_vip() && !d.is_dnsrr() => format!("other {o}"),
        _ => format!("inconsistent accessors of {d:?}"),
    }, tries, string, cow, asref);
    tagged!(cx, s, "capabilities", Capability, keyword(s, &["gpu", "tpu"]), |d: &Capability| match d {
        Capability::Gpu if d.is_gpu() && !d.is_tpu() => "=gpu".to_owned(),
        Capability::Tpu if d.is_tpu() && !d.is_gpu() => "=tpu".to_owned(),
        Capability::Other(o) if !d.is_gpu() && !d.is_tpu() => format!("other {o}"),
        _ => format!("inconsistent accessors of {d:?}"),
    }, tries, string, cow, asref);
    tagged!(cx, s, "protocols", Protocol, keyword(s, &["tcp", "udp"]), |d: &Protocol| match d {
        Protocol::Tcp if d.is_tcp() && !d.is_udp() => "=tcp".to_owned(),
        Protocol::Udp if d.is_udp() && !d.is_tcp() => "=udp".to_owned(),
        Protocol::Other(o) if !d.is_tcp() && !d.is_udp() => format!("other {o}"),
        _ => format!("inconsistent accessors of {d:?}"),
    }, tries, string, cow, asref);
    tagged!(cx, s, "MAC addresses", MacAddress, mac(s).map(|b| (format!("{b:?}"), mac_text(b))), |m: &MacAddress| {
        let b: [u8; 6] = (*m).into();
        if m.as_ref() != b || MacAddress::from(b) != *m { return "inconsistent accessors".into(); }
        format!("{b:?}")
    });
    cx.case("MAC addresses from text", s, || eq("try_from", MacAddress::try_from(s).ok().map(|m| m.0), mac(s)));
    cx.case("user and group ids or names", s, || {
        let want = id_or_name(s);
        let got = s.parse::<IdOrName>().ok();
        eq("parsed", got.as_ref().map(id_or_name_view), want.as_ref().map(|p| p.0.clone()))?;
        tries(s, &got)?;
        into_string(&got, &want)?;
        eq("from a document", serde_yaml::from_value(Value::from(s)).ok(), got.clone())?;
        if let (Some(v), Some((_, t))) = (got, want) {
            eq("text", &v.to_string(), &t)?;
            eq("parse of text", t.parse().ok(), Some(v.clone()))?;
            let d = serde_yaml::to_value(&v).map_err(|e| e.to_string())?;
            eq("document form", &d, &v.as_id().map_or_else(|| Value::from(t), Value::from))?;
            eq("through a document", serde_yaml::from_value(d).ok(), Some(v))?;
        }
        Ok(())
    });
    cx.case("device counts", s, || {
        let got = s.parse::<Count>().ok();
        eq("parsed", got.as_ref().map(count_view), count(s))?;
        eq("from a document", serde_yaml::from_value(Value::from(s)).ok(), got)?;
        if let Some(v) = got {
            let d = serde_yaml::to_value(v).map_err(|e| e.to_string())?;
            eq("document form", &d, &count_view(&v).map_or_else(|| Value::from("all"), Value::from))?;
            eq("through a document", serde_yaml::from_value(d).ok(), Some(v))?;
            eq("== number", v == count_view(&v).unwrap_or(0), count_view(&v).is_some())?;
            eq("== other number", v == count_view(&v).unwrap_or(0).wrapping_add(1), false)?;
        }
        Ok(())
    });
    cx.case("caches as options", s, || {
        let (Some((v, _)), Ok(c)) = (cache(s), s.parse::<Cache>()) else { return Ok(()) };
        if c.options.keys().any(|k| k.as_str() == "type" || k.as_str() == "ref") {
            return Ok(());
        }
        let (kind, opts) = v.split_once('|').unwrap();
        let mut want = match kind.split_once(' ').unwrap() {
            ("registry", i) => vec![("type".to_owned(), "registry".to_owned()), ("ref".to_owned(), i.to_owned())],
            (_, k) => vec![("type".to_owned(), k.to_owned())],
        };
        want.extend(opts.split(',').skip(1).map(|o| o.split_once('=').map(|(a, b)| (a.to_owned(), b.to_owned())).unwrap()));
        let got: Vec<(String, String)> = c.into_options().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        eq("options", got, want)
    });
    cx.case("plain enumerations", s, || plain(s));
}
/// an enumeration whose texts are exactly the listed ones
fn plain(s: &str) -> R {
    macro_rules! p {
        ($T:ty, $($v:ident => $t:literal $(| $alias:literal)?),*) => {{
            let want: Option<$T> = match s { $($t $(| $alias)? => Some(<$T>::$v),)* _ => None };
            eq("from a document", serde_yaml::from_value::<$T>(Value::from(s)).ok(), want)?;
            let texts: &[($T, &str)] = &[$((<$T>::$v, $t)),*];
            for (v, t) in texts {
                eq("text", v.as_str(), *t)?;
                eq("printed", v.to_string(), t.to_string())?;
                eq("as_ref", AsRef::<str>::as_ref(v), *t)?;
                eq("document form", serde_yaml::to_value(v).ok(), Some(Value::from(*t)))?;
            }
        }};
    }
    use compose_spec::service::deploy::Mode as DMode;
    use compose_spec::service::ports::Mode as PMode;
    use compose_spec::service::develop::Action;
    p!(Cgroup, Host => "host", Private => "private");
    p!(Condition, ServiceStarted => "service_started", ServiceHealthy => "service_healthy", ServiceCompletedSuccessfully => "service_completed_successfully");
    p!(Uts, Host => "host");
    p!(PullPolicy, Always => "always", Never => "never", Missing => "missing" | "if_not_present", Build => "build");
    p!(Restart, No => "no", Always => "always", OnFailure => "on-failure", UnlessStopped => "unless-stopped");
    p!(DMode, Global => "global", Replicated => "replicated");
    p!(PMode, Host => "host", Ingress => "ingress");
    p!(RestartCondition, None => "none", OnFailure => "on-failure", Any => "any");
    p!(FailureAction, Continue => "continue", Pause => "pause");
    p!(Order, StopFirst => "stop-first", StartFirst => "start-first");
    p!(Action, Rebuild => "rebuild", Sync => "sync", SyncAndRestart => "sync+restart");
    p!(BindPropagation, Private => "private", Shared => "shared", Slave => "slave", Unbindable => "unbindable",
       RPrivate => "rprivate", RShared => "rshared", RSlave => "rslave", RUnbindable => "runbindable");
    Ok(())
}
/// integers where a text is usual
fn numbers(cx: &mut Cx, n: i128) {
    cx.case("integers of a document", &n.to_string(), || {
        let text = n.to_string();
        eq("id", serde_yaml::from_str::<IdOrName>(&text).ok().and_then(|v| v.as_id()), u32::try_from(n).ok())?;
        eq("count", serde_yaml::from_str::<Count>(&text).ok().and_then(|v| count_view(&v)), u64::try_from(n).ok())?;
        if let Ok(n) = u32::try_from(n) {
            eq("from u32", IdOrName::from(n), IdOrName::Id(n))?;
            eq("user from u32", User::from(n), User { user: IdOrName::Id(n), group: None })?;
            eq("user from pair", User::from((n, n ^ 1)), User { user: IdOrName::Id(n), group: Some(IdOrName::Id(n ^ 1)) })?;
        }
        if let Ok(n) = u64::try_from(n) {
            eq("count from u64", Count::from(n), Count::Integer(n))?;
        }
        Ok(())
    });
}
fn pairs(cx: &mut Cx, a: &str, b: &str) {
    cx.case("values built from parts", &format!("{a}|{b}"), || {
        use compose_spec::service::user::Name;
        let (x, y) = (Name::new(a).ok(), Name::new(b).ok());
        eq("name a", x.is_some(), user_name(a))?;
        if let (Some(x), Some(y)) = (x, y) {
            let (i, j) = (IdOrName::Name(x.clone()), IdOrName::Name(y.clone()));
            eq("id or name", IdOrName::from(x.clone()), i.clone())?;
            eq("name", User::from(x.clone()), User { user: i.clone(), group: None })?;
            eq("id or name", User::from(i.clone()), User { user: i.clone(), group: None })?;
            eq("names", User::from((x.clone(), y.clone())), User { user: i.clone(), group: Some(j.clone()) })?;
            eq("names", User::from((i.clone(), j.clone())), User { user: i.clone(), group: Some(j.clone()) })?;
            eq("name, id", User::from((x.clone(), 7u32)), User { user: i.clone(), group: Some(IdOrName::Id(7)) })?;
            eq("id, name", User::from((7u32, y.clone())), User { user: IdOrName::Id(7), group: Some(j) })?;
        }
        if let Ok(i) = Identifier::new(a) {
            eq("link", Link::from(i.clone()), Link { service: i.clone(), alias: None })?;
            let src = VolumesFromSource::Service(i);
            eq("volumes from", VolumesFrom::from(src.clone()), VolumesFrom { source: src, read_only: false })?;
        }
        if let Ok(i) = Image::parse(a) {
            eq("cache", cache_view(&Cache::from_image(i.clone())), format!("registry {a}|"))?;
            eq("cache from", Cache::from(i.clone()), Cache::from_image(i.clone()))?;
            eq("cache type", Cache::from(CacheType::from(i.clone())), Cache::from_image(i))?;
        }
        let got = SshAuthId::new(a, b).ok();
        eq("ssh id", got.as_ref().map(|i| (i.id().to_owned(), i.path().to_str().map(str::to_owned))),
            (!a.is_empty() && !b.is_empty()).then(|| (a.to_owned(), Some(b.to_owned()))))?;
        if let Some(i) = got {
            eq("ssh id text", i.to_string(), format!("{a}={b}"))?;
        }
        Ok(())
    });
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    eq("default protocol", Protocol::default(), Protocol::Tcp).unwrap();
    eq("default count", Count::default(), Count::All).unwrap();
    eq("default ssh", SshAuth::default(), SshAuth::Default).unwrap();
    let words = ["none", "host", "service:", "container:", "shareable", "default", "all", "vip", "dnsrr", "gpu", "tpu", "tcp", "udp",
        ":ro", ":rw", ":", "ro", "rw", "type=", "registry", "ref=", ",", "=", "local", "mode=max", "user", "web", "1000", "a", "+5", "007", "4294967295",
        "4294967296", "-", ".", "_", "$", "é", " ", "private", "always", "never", "missing", "if_not_present", "build", "no", "on-failure",
        "unless-stopped", "service_started", "service_healthy", "global", "replicated", "ingress", "any", "continue", "pause", "stop-first",
        "start-first", "rebuild", "sync", "sync+restart", "rprivate", "shared", "slave", "unbindable", "r", "/", "x:1", "None", "Host", "image", "host:5000/x"];
    cx.all(&words, if e > 1 { 3 } else { 2 }, check);
    cx.mutate(&words, &[":", "a", " ", "=", "-", "_", "0"], 2_000 * e, check);
    let core = ["service:", "container:", "ro", "rw", ":", "none", "host", "a", "type=", ",", "=", "registry", "ref=", "1"];
    cx.all(&core, if e > 1 { 5 } else { 3 }, check);
    cx.random(&core, 9, 8_000 * e, check);
    cx.random(&words, 6, 8_000 * e, check);
    let based = ["service:web", "container:web", "none", "host", "shareable", "web:db", "container:web:ro", "web:rw", "container:ro:rw", "container:rw:rw",
        "container:ro:ro", "user:group", "1000:1000", "user", "type=registry,ref=image,mode=max", "type=local", "type=local,dest=path", "type=registry,ref=a,ref=b", "type=registry,ref=a,x=1,y=2,z=3", "type=registry,x=1,ref=a,y=2,z=3",
        "type=gha,a=1,b=2,a=3", "image:tag", "default", "id=/path", "id=a=b", "vip", "dnsrr", "all", "18446744073709551615", "92:d0:c6:0a:29:33", "0:0:0:0:0:0",
        "+f:00f:1:2:3:4", "FF:ff:Aa:0:1:2"];
    cx.mutate(&based, &["service:", "container:", ":", "r", "o", "w", "=", ",", "type=", "f", "0", "+", "g", " ", "a", "-"], 12_000 * e, check);
    cx.all(&["0", "f", "a9", "+", ":", "100", "G"], if e > 1 { 6 } else { 4 }, |cx, s| {
        let t = format!("{s}:1:2:3:4:5");
        let t = t.as_str();
        tagged!(cx, t, "MAC addresses", MacAddress, mac(t).map(|b| (format!("{b:?}"), mac_text(b))), |m: &MacAddress| format!("{:?}", m.0));
        let t = format!("1:2:3:4:5:{s}");
        let t = t.as_str();
        tagged!(cx, t, "MAC addresses", MacAddress, mac(t).map(|b| (format!("{b:?}"), mac_text(b))), |m: &MacAddress| format!("{:?}", m.0));
    });
    for _ in 0..3_000 * e {
        let mut b = [0u8; 6];
        for x in &mut b {
            *x = if cx.chance(1, 3) { cx.below(17) as u8 } else { cx.next() as u8 };
        }
        let t = mac_text(b);
        cx.case("MAC addresses print and read back", &t, || {
            eq("text", MacAddress(b).to_string(), t.clone())?;
            eq("parse", t.parse::<MacAddress>().ok(), Some(MacAddress(b)))
        });
    }
    for n in -3..70_000i128 {
        if n < 300 || n % 997 == 0 {
            numbers(cx, n);
        }
    }
    for k in [31, 32, 33, 63, 64] {
        for d in -2..3 {
            numbers(cx, (1i128 << k) + d);
            numbers(cx, -((1i128 << k) + d));
        }
    }
    for a in words {
        for b in words {
            pairs(cx, a, b);
        }
    }
}
