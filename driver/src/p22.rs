//! Conversions between the crate's types, accessors and documented defaults: nothing is lost, nothing is made up.
use crate::core::*;
use compose_spec::service::volumes::mount::{Bind, BindOptions, BindPropagation, Cluster, Common, NamedPipe, Tmpfs, Volume as VolumeMount};
use compose_spec::service::volumes::{AbsolutePath, HostPath, Mount, SELinux, ShortOptions, ShortVolume, Source};
use compose_spec::service::{blkio_config, deploy, env_file, healthcheck, image, ports, user, Build, ByteValue, Command, Condition, Deploy, Develop, EnvFile, Healthcheck, Image, Limit, Link, PullPolicy, Ulimit, User, VolumesFrom, VolumesFromSource};
use compose_spec::{Config, Identifier, Include, ItemOrList, ListOrMap, Network, Resource, Secret, Service, ShortOrLong, Volume};
use serde::Serialize;
use serde_yaml::Value as Y;
use std::path::PathBuf;

fn doc<T: Serialize>(v: &T) -> Y {
    serde_yaml::to_value(v).unwrap_or_else(|e| Y::String(format!("{e}")))
}
fn y(s: &str) -> Y {
    serde_yaml::from_str(s).unwrap()
}
/// the same value: equal, shown alike, and written as `text` says
fn is<T: PartialEq + std::fmt::Debug + Serialize>(what: &str, got: T, want: T, text: &str) -> R {
    eq(&format!("{what} (written)"), doc(&got), y(text))?;
    eq(what, format!("{got:?}"), format!("{want:?}"))?;
    eq(what, got, want)
}
fn abs(s: &str) -> AbsolutePath {
    s.parse().unwrap()
}
fn id(s: &str) -> Identifier {
    s.parse().unwrap()
}

fn mounts(cx: &mut Cx) {
    let rule = "a mount is of the kind its document says, and is seen as that kind only";
    let extras = ["", ", read_only: true", ", consistency: c", ", x-a: 1", ", read_only: true, consistency: c, x-a: {k: v}"];
    let kinds: &[(&str, &[(&str, Option<&str>)])] = &[
        ("volume", &[("", None), (", source: v", Some("v")), (", source: v1, volume: {nocopy: true}", Some("v1"))]),
        ("bind", &[(", source: /a", Some("/a")), (", source: ./b c", Some("./b c")), (", source: /c d, bind: {propagation: slave}", Some("/c d"))]),
        ("tmpfs", &[("", None), (", tmpfs: {size: 1kb}", None)]),
        ("npipe", &[(", source: /p", Some("/p")), (", source: ../q", Some("../q"))]),
        ("cluster", &[(", source: s", Some("s")), (", source: ' any thing/é'", Some(" any thing/\u{e9}")), (", source: ''", Some(""))]),
    ];
    for (kind, sources) in kinds {
        for (src, source) in *sources {
            for extra in extras {
                let t = format!("{{type: {kind}, target: /t{src}{extra}}}");
                cx.case(rule, &t.clone(), || {
                    let m: Mount = serde_yaml::from_str(&t).map_err(|e| e.to_string())?;
                    eq("kind", m.kind(), *kind)?;
                    eq("is_*", [m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()], ["volume", "bind", "tmpfs", "npipe", "cluster"].map(|k| k == *kind))?;
                    eq("as_*", [m.as_volume().is_some(), m.as_bind().is_some(), m.as_tmpfs().is_some(), m.as_named_pipe().is_some(), m.as_cluster().is_some()], ["volume", "bind", "tmpfs", "npipe", "cluster"].map(|k| k == *kind))?;
                    let again: Mount = match *kind {
                        "volume" => m.as_volume().unwrap().clone().into(),
                        "bind" => m.as_bind().unwrap().clone().into(),
                        "tmpfs" => m.as_tmpfs().unwrap().clone().into(),
                        "npipe" => m.as_named_pipe().unwrap().clone().into(),
                        _ => m.as_cluster().unwrap().clone().into(),
                    };
                    is("from the part", again, m.clone(), &t)?;
                    let want: Common = {
                        let mut c = Common::new(abs("/t"));
                        c.read_only = extra.contains("read_only");
                        c.consistency = extra.contains("consistency").then(|| "c".to_owned());
                        if extra.contains("x-a") {
                            c.extensions.insert("x-a".parse().unwrap(), if extra.contains("k: v") { y("{k: v}") } else { y("1") });
                        }
                        c
                    };
                    eq("common", m.common(), &want)?;
                    eq("source_to_string", m.source_to_string().as_deref(), *source)
                });
            }
        }
    }
    let rule = "a mount made from its parts has those parts and nothing else";
    for t in ["/t", "/a/b", "/", "/../x y"] {
        cx.case(rule, t, || {
            is("Common::new", Common::new(abs(t)), Common { target: abs(t), read_only: false, consistency: None, extensions: Default::default() }, &format!("{{target: {t}}}"))?;
            is("Common from path", Common::from(abs(t)), Common::new(abs(t)), &format!("{{target: {t}}}"))?;
            for n in 0..3 {
                let mut c = Common::new(abs(t));
                let mut tail = String::new();
                if n > 0 {
                    c.read_only = true;
                    tail += ", read_only: true";
                }
                if n > 1 {
                    c.extensions.insert("x-b".parse().unwrap(), 5.into());
                    tail += ", x-b: 5";
                }
                is("Volume::new", VolumeMount::new(c.clone()), VolumeMount { source: None, volume: None, common: c.clone() }, &format!("{{target: {t}{tail}}}"))?;
                is("Volume from Common", VolumeMount::from(c.clone()), VolumeMount::new(c.clone()), &format!("{{target: {t}{tail}}}"))?;
                let h: HostPath = "./h".parse().unwrap();
                is("Bind::new", Bind::new(h.clone(), c.clone()), Bind { source: h.clone(), bind: None, common: c.clone() }, &format!("{{source: ./h, target: {t}{tail}}}"))?;
                is("Bind from pair", Bind::from((h.clone(), c.clone())), Bind::new(h.clone(), c.clone()), &format!("{{source: ./h, target: {t}{tail}}}"))?;
                is("Tmpfs::new", Tmpfs::new(c.clone()), Tmpfs { tmpfs: None, common: c.clone() }, &format!("{{target: {t}{tail}}}"))?;
                is("Tmpfs from Common", Tmpfs::from(c.clone()), Tmpfs::new(c.clone()), &format!("{{target: {t}{tail}}}"))?;
                is("NamedPipe from pair", NamedPipe::from((h.clone(), c.clone())), NamedPipe { source: h.clone(), common: c.clone() }, &format!("{{source: ./h, target: {t}{tail}}}"))?;
                is("Cluster from pair", Cluster::from(("s".to_owned(), c.clone())), Cluster { source: "s".into(), common: c.clone() }, &format!("{{source: s, target: {t}{tail}}}"))?;
            }
            is("Tmpfs::from_target", Tmpfs::from_target(abs(t)), Tmpfs::new(Common::new(abs(t))), &format!("{{target: {t}}}"))?;
            is("Tmpfs from path", Tmpfs::from(abs(t)), Tmpfs::new(Common::new(abs(t))), &format!("{{target: {t}}}"))?;
            is("ShortVolume::new", ShortVolume::new(abs(t)), ShortVolume { container_path: abs(t), options: None }, t)?;
            is("ShortVolume from path", ShortVolume::from(abs(t)), ShortVolume::new(abs(t)), t)?;
            eq("HostPath from path", HostPath::from(abs(t)).as_path().to_str(), Some(t))?;
            let src = Source::from(abs(t));
            ensure(matches!(&src, Source::HostPath(h) if h.as_path().to_str() == Some(t)), || format!("Source from path: {src:?}"))?;
            let opts = ShortOptions::from(src.clone());
            eq("ShortOptions from Source", (&opts, opts.read_only, opts.selinux), (&ShortOptions::new(src.clone()), false, None))?;
            eq("source", opts.source, src)
        });
    }
    let rule = "bind options made from one option have that option only";
    let props = [(BindPropagation::Private, "private"), (BindPropagation::RPrivate, "rprivate"), (BindPropagation::Shared, "shared"), (BindPropagation::RShared, "rshared"), (BindPropagation::Slave, "slave"), (BindPropagation::RSlave, "rslave")];
    for (p, name) in props {
        cx.case(rule, name, || {
            let want = BindOptions { propagation: Some(p), ..BindOptions::default() };
            is("from propagation", BindOptions::from(p), want.clone(), &format!("{{propagation: {name}}}"))?;
            is("from Some(propagation)", BindOptions::from(Some(p)), want, &format!("{{propagation: {name}}}"))
        });
    }
    for (s, name) in [(SELinux::Shared, "z"), (SELinux::Private, "Z")] {
        cx.case(rule, name, || {
            let want = BindOptions { selinux: Some(s), ..BindOptions::default() };
            is("from selinux", BindOptions::from(s), want.clone(), &format!("{{selinux: {name}}}"))?;
            is("from Some(selinux)", BindOptions::from(Some(s)), want, &format!("{{selinux: {name}}}"))?;
            eq("as_str", s.as_str(), name)?;
            eq("as_ref", AsRef::<str>::as_ref(&s), name)?;
            eq("as_char", s.as_char().to_string(), name.to_owned())?;
            eq("char", char::from(s).to_string(), name.to_owned())
        });
    }
    cx.case(rule, "none", || {
        let o = BindOptions::default();
        ensure(o.propagation.is_none() && !o.create_host_path && o.selinux.is_none() && o.extensions.is_empty() && o.is_empty(), || format!("{o:?}"))?;
        eq("from no propagation", BindOptions::from(None::<BindPropagation>), BindOptions::default())?;
        eq("from no selinux", BindOptions::from(None::<SELinux>), BindOptions::default())
    });
}

fn parts(cx: &mut Cx) {
    let rule = "a user made from ids and names is those, in that place";
    let ids = [0u32, 1, 1000, u32::MAX];
    let names = ["root", "a", "0", "1000", "u-1_2"];
    let all: Vec<(user::IdOrName, String)> = ids.iter().map(|i| (user::IdOrName::Id(*i), i.to_string())).chain(names.iter().filter(|n| n.parse::<u32>().is_err()).map(|n| (user::IdOrName::Name(n.parse().unwrap()), (*n).to_owned()))).collect();
    for (a, at) in &all {
        cx.case(rule, at, || {
            eq("User from IdOrName", User::from(a.clone()), User { user: a.clone(), group: None })?;
            eq("text", User::from(a.clone()).to_string(), at.clone())?;
            match a {
                user::IdOrName::Id(i) => { eq("User from u32", User::from(*i), User { user: a.clone(), group: None })?; eq("IdOrName from u32", &user::IdOrName::from(*i), a)?; eq("as_id", a.as_id(), Some(*i))?; ensure(a.as_name().is_none(), || "an id is a name".into()) }
                user::IdOrName::Name(n) => { eq("User from Name", User::from(n.clone()), User { user: a.clone(), group: None })?; eq("IdOrName from Name", &user::IdOrName::from(n.clone()), a)?; eq("as_name", a.as_name(), Some(n))?; ensure(a.as_id().is_none(), || "a name is an id".into()) }
            }
        });
        for (b, bt) in &all {
            cx.case(rule, &format!("{at}:{bt}"), || {
                use user::IdOrName::*;
                let want = User { user: a.clone(), group: Some(b.clone()) };
                eq("from pair", &User::from((a.clone(), b.clone())), &want)?;
                let u = match (a, b) {
                    (Id(a), Id(b)) => User::from((*a, *b)),
                    (Id(a), Name(b)) => User::from((*a, b.clone())),
                    (Name(a), Id(b)) => User::from((a.clone(), *b)),
                    (Name(a), Name(b)) => User::from((a.clone(), b.clone())),
                };
                eq("from parts", &u, &want)?;
                eq("text", u.to_string(), format!("{at}:{bt}"))
            });
        }
    }
    let rule = "a command, a test and a healthcheck are what they are made from";
    for words in [&[][..], &["a"], &["CMD", "a"], &["a b", ""], &["NONE"], &["CMD-SHELL", "x"]] {
        cx.case(rule, &format!("{words:?}"), || {
            let v: Vec<String> = words.iter().map(|w| (*w).to_owned()).collect();
            eq("Command from list", Command::from(v.clone()), Command::List(v.clone()))?;
            eq("Test from list", healthcheck::Test::from(v.clone()), healthcheck::Test::Command(v.clone()))
        });
    }
    for t in ["", "a", "CMD a", "NONE", "a\nb"] {
        cx.case(rule, t, || {
            eq("Command from text", Command::from(t.to_owned()), Command::String(t.to_owned()))?;
            eq("Test from text", healthcheck::Test::from(t.to_owned()), healthcheck::Test::ShellCommand(t.to_owned()))?;
            let c = healthcheck::Command { test: Some(healthcheck::Test::ShellCommand(t.to_owned())), ..Default::default() };
            eq("Healthcheck from Command", Healthcheck::from(c.clone()), Healthcheck::Command(c))
        });
    }
    cx.case(rule, "nothing", || {
        let h = Healthcheck::default();
        match &h {
            Healthcheck::Command(c) => ensure(c.test.is_none() && c.interval.is_none() && c.timeout.is_none() && c.retries.is_none() && c.start_period.is_none() && c.start_interval.is_none() && c.extensions.is_empty(), || format!("{c:?}")),
            Healthcheck::Disable => Err("a healthcheck of nothing is disabled".into()),
        }
    });
    let rule = "an external resource is external, and one made here is that one";
    for n in [None, Some("n"), Some(""), Some("a b")] {
        cx.case(rule, &format!("{n:?}"), || {
            let n = n.map(str::to_owned);
            macro_rules! ext {
                ($t:ty) => {{
                    let r = Resource::<$t>::external(n.clone());
                    eq("external", &r, &Resource::External { name: n.clone() })?;
                    ensure(r.is_external() && !r.is_compose() && r.as_compose().is_none(), || format!("{r:?}"))?;
                }};
            }
            ext!(Network); ext!(Volume); ext!(Config); ext!(Secret);
            eq("name", Resource::<Network>::external(n.clone()).name(), n.as_ref())?;
            eq("name", Resource::<Volume>::external(n.clone()).name(), n.as_ref())?;
            let net = Network { name: n.clone(), ..Default::default() };
            let r = Resource::from(net.clone());
            ensure(r.is_compose() && !r.is_external(), || format!("{r:?}"))?;
            eq("as_compose", r.as_compose(), Some(&net))?;
            eq("name", r.name(), n.as_ref())?;
            let vol = Volume { name: n.clone(), ..Default::default() };
            let r = Resource::from(vol.clone());
            ensure(r.is_compose() && !r.is_external(), || format!("{r:?}"))?;
            eq("as_compose", r.as_compose(), Some(&vol))?;
            eq("name", r.name(), n.as_ref())
        });
    }
    for p in ["", "a", "/a/b", "./c"] {
        cx.case(rule, p, || {
            let c = compose_spec::config::Source::from(PathBuf::from(p));
            eq("config source", &c, &compose_spec::config::Source::File(p.into()))?;
            let c = Config::from(c);
            is("config", c.clone(), Config { source: compose_spec::config::Source::File(p.into()), labels: Default::default(), extensions: Default::default() }, &format!("{{file: '{p}'}}"))?;
            eq("resource", Resource::from(c.clone()), Resource::Compose(c))?;
            let s = compose_spec::secret::Source::from(PathBuf::from(p));
            eq("secret source", &s, &compose_spec::secret::Source::File(p.into()))?;
            let s = Secret::from(s);
            ensure(s.driver.is_none() && s.driver_opts.is_empty() && s.labels.is_empty() && s.extensions.is_empty(), || format!("{s:?}"))?;
            eq("written", doc(&s), y(&format!("{{file: '{p}'}}")))?;
            eq("resource", Resource::from(s.clone()), Resource::Compose(s))?;
            let i = Include::from(PathBuf::from(p));
            is("include", i, Include { path: ItemOrList::Item(p.into()), project_directory: None, env_file: None }, &format!("{{path: '{p}'}}"))?;
            is("env file", EnvFile::from(PathBuf::from(p)), EnvFile::Single(p.into()), &format!("'{p}'"))?;
            is("env file", EnvFile::from(p.to_owned()), EnvFile::Single(p.into()), &format!("'{p}'"))?;
            is("env file config", env_file::Config::from(p.to_owned()), env_file::Config { path: p.into(), required: true }, &format!("{{path: '{p}'}}"))?;
            is("env file config", env_file::Config::from(PathBuf::from(p)), env_file::Config { path: p.into(), required: true }, &format!("{{path: '{p}'}}"))?;
            is("short", ShortOrLong::<PathBuf, Include>::from(p.to_owned()), ShortOrLong::Short(p.into()), &format!("'{p}'"))?;
            eq("into_long", ShortOrLong::<PathBuf, Include>::Short(p.into()).into_long(), Include::from(PathBuf::from(p)))?;
            eq("into_long", ShortOrLong::<PathBuf, env_file::Config>::Long(env_file::Config { path: p.into(), required: false }).into_long(), env_file::Config { path: p.into(), required: false })
        });
    }
    let rule = "a list collected into an environment file keeps every entry in its place";
    for ps in [&[][..], &["a"], &["b", "a"], &["b", "", "a", "c"]] {
        cx.case(rule, &format!("{ps:?}"), || {
            let list: Vec<ShortOrLong<PathBuf, env_file::Config>> = ps.iter().enumerate().map(|(i, p)| if i % 2 == 0 { ShortOrLong::Short(PathBuf::from(p)) } else { ShortOrLong::Long(env_file::Config { path: p.into(), required: false }) }).collect();
            let text = format!("[{}]", ps.iter().enumerate().map(|(i, p)| if i % 2 == 0 { format!("'{p}'") } else { format!("{{path: '{p}', required: false}}") }).collect::<Vec<_>>().join(", "));
            let e: EnvFile = list.iter().cloned().collect();
            eq("written", doc(&e), y(&text))?;
            match e {
                EnvFile::List(l) => eq("entries", l.into_iter().collect::<Vec<_>>(), list),
                e => Err(format!("{e:?}")),
            }
        });
    }
    let rule = "a limit, a link and a source of volumes are what they are made from";
    for n in [0u64, 1, 65535, u64::MAX] {
        cx.case(rule, &n.to_string(), || {
            is("short limit", ShortOrLong::<Limit<u64>, Ulimit>::from(n), ShortOrLong::Short(Limit::Value(n)), &n.to_string())?;
            is("short limit", ShortOrLong::<Limit<u64>, Ulimit>::from(Limit::Value(n)), ShortOrLong::Short(Limit::Value(n)), &n.to_string())?;
            let u = Ulimit::from(n);
            eq("ulimit", (&u.soft, &u.hard, u.extensions.len()), (&Limit::Value(n), &Limit::Value(n), 0))?;
            let u = Ulimit::from(Limit::Value(n));
            eq("ulimit", (&u.soft, &u.hard, u.extensions.len()), (&Limit::Value(n), &Limit::Value(n), 0))?;
            let u = Ulimit::from(Limit::Unlimited);
            eq("ulimit", (&u.soft, &u.hard, u.extensions.len()), (&Limit::Unlimited, &Limit::Unlimited, 0))?;
            eq("bytes", Limit::from(ByteValue::Bytes(n)), Limit::Value(ByteValue::Bytes(n)))
        });
    }
    for n in ["a", "a-b", "A_1.x"] {
        cx.case(rule, n, || {
            is("link", Link::from(id(n)), Link { service: id(n), alias: None }, n)?;
            is("volumes from", VolumesFrom::from(VolumesFromSource::Service(id(n))), VolumesFrom { source: VolumesFromSource::Service(id(n)), read_only: false }, n)?;
            is("volumes from", VolumesFrom::from(VolumesFromSource::Container(id(n))), VolumesFrom { source: VolumesFromSource::Container(id(n)), read_only: false }, &format!("'container:{n}'"))?;
            let v = Source::from(id(n));
            eq("volume", v, Source::Volume(id(n)))
        });
    }
    let rule = "an image made from its parts has those parts";
    for name in ["a", "a.b/c", "a.b:5000/x/y"] {
        cx.case(rule, name, || {
            let i: Image = name.parse().map_err(|e| format!("{e}"))?;
            let n = i.as_name();
            eq("from name", Image::from(n).to_string(), name.to_owned())?;
            for (tail, tag) in [(":t", "t"), ("@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "")] {
                let t: Image = format!("{name}{tail}").parse().map_err(|e| format!("{e}"))?;
                let (n, d): (image::Name, Option<image::TagOrDigest>) = (&t).into();
                eq("name of parts", n.as_ref(), name)?;
                let d = d.ok_or("no tag or digest")?;
                if tag.is_empty() {
                    eq("digest", d.into_digest().map(|d| d.as_ref().to_owned()), Some(tail[1..].to_owned()))?;
                    ensure(d.into_tag().is_none(), || "a digest is a tag".into())?;
                    eq("from digest", image::TagOrDigest::from(d.into_digest().unwrap()), d)?;
                } else {
                    eq("tag", d.into_tag().map(|d| d.as_ref().to_owned()), Some(tag.to_owned()))?;
                    ensure(d.into_digest().is_none(), || "a tag is a digest".into())?;
                    eq("from tag", image::TagOrDigest::from(d.into_tag().unwrap()), d)?;
                }
                eq("from the parts", Image::from((n, d)), t.clone())?;
                eq("from the parts", Image::from((n, Some(d))), t.clone())?;
                eq("from the name", Image::from((n, None)), i.clone())?;
            }
            Ok(())
        });
    }
}

fn defaults(cx: &mut Cx) {
    let rule = "defaults are the documented ones";
    macro_rules! d {
        ($t:ty, $v:expr, $s:expr) => {
            cx.case(rule, stringify!($t), || {
                eq("default", format!("{:?}", <$t>::default()), format!("{:?}", $v))?;
                ensure(<$t>::default() == $v, || "not equal".into())?;
                eq("written", doc(&<$t>::default()), y($s))
            });
        };
    }
    d!(ports::Mode, ports::Mode::Ingress, "ingress");
    d!(Condition, Condition::ServiceStarted, "service_started");
    d!(PullPolicy, PullPolicy::Missing, "missing");
    d!(deploy::RestartCondition, deploy::RestartCondition::Any, "any");
    d!(deploy::FailureAction, deploy::FailureAction::Pause, "pause");
    d!(deploy::Order, deploy::Order::StopFirst, "stop-first");
    d!(deploy::Mode, deploy::Mode::Replicated, "replicated");
    d!(BindPropagation, BindPropagation::RPrivate, "rprivate");
    d!(deploy::resources::Count, deploy::resources::Count::All, "all");
    d!(ListOrMap, ListOrMap::List(Default::default()), "[]");
    d!(blkio_config::Weight, blkio_config::Weight::new(500).unwrap(), "500");
    d!(ByteValue, ByteValue::Bytes(0), "0b");
    cx.case(rule, "weights", || {
        for w in [10u16, 11, 500, 999, 1000] {
            let x = blkio_config::Weight::try_from(std::num::NonZeroU16::new(w).unwrap()).map_err(|e| e.to_string())?;
            eq("weight", x.into_inner().get(), w)?;
            eq("number", u16::from(x), w)?;
            eq("number", std::num::NonZeroU16::from(x).get(), w)?;
            eq("text", x.to_string(), w.to_string())?;
        }
        for w in [1u16, 9, 1001, u16::MAX] {
            ensure(blkio_config::Weight::try_from(std::num::NonZeroU16::new(w).unwrap()).is_err(), || format!("weight {w}"))?;
        }
        Ok(())
    });
    cx.case(rule, "resource device", || {
        eq("written", doc(&deploy::resources::Device::new([deploy::resources::Capability::Gpu])), y("{capabilities: [gpu]}"))
    });
    cx.case(rule, "empty documents", || {
        eq("network", doc(&Network::default()), y("{}"))?;
        eq("volume", doc(&Volume::default()), y("{}"))?;
        eq("deploy", doc(&Deploy::default()), y("{}"))?;
        eq("build", doc(&Build::default()), y("{}"))?;
        eq("develop", doc(&Develop::default()), y("{}"))?;
        eq("service", doc(&Service::default()), y("{}"))?;
        eq("bind options", doc(&BindOptions::default()), y("{}"))
    });
}

pub fn run(cx: &mut Cx) {
    mounts(cx);
    parts(cx);
    defaults(cx);
}
