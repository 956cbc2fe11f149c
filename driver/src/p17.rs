//! Short and long forms collapse only without loss; a value is empty exactly when nothing in it is set.
use crate::core::*;
use crate::docs::*;
use compose_spec::service::build::{Build, Context};
use compose_spec::service::{env_file, network_config, ports, ConfigOrSecret, Dependency, EnvFile, Limit, Ulimit};
use compose_spec::{AsShort, AsShortIter, Identifier, Include, ItemOrList, ShortOrLong};
use indexmap::{IndexMap, IndexSet};
use serde::de::DeserializeOwned;
use std::fmt::Debug;
use std::path::PathBuf;

fn base(p: &Part) -> Doc {
    p.base.iter().map(|(k, v)| (*k, v[0])).collect()
}
fn check(p: &Part, d: &Doc) -> R {
    let (empty, back) = (p.go)(map(d), &text(d))?;
    eq("written back", &back, &map(d))?;
    // `networks` and others are written where the document has them or after the required keys
    if let Some(e) = empty {
        eq("is_empty", e, d.len() == p.base.len())?;
    }
    Ok(())
}
fn set_fields(cx: &mut Cx) {
    let rule = "what is set is written, and only a value with nothing set is empty";
    for p in parts() {
        let none = base(&p);
        cx.case(rule, &format!("{}: {}", p.name, text(&none)), || check(&p, &none));
        // each key alone, and with every other
        for (i, (k, vs)) in p.keys.iter().enumerate() {
            for v in vs.iter() {
                let mut d = none.clone();
                d.push((k, v));
                cx.case(rule, &format!("{}: {}", p.name, text(&d)), || check(&p, &d));
                for (l, ws) in &p.keys[..i] {
                    let w = ws[cx.below(ws.len())];
                    let mut e = d.clone();
                    e.push((l, w));
                    cx.case(rule, &format!("{}: {}", p.name, text(&e)), || check(&p, &e));
                }
            }
        }
        for n in 0..20 * cx.effort {
            let mut d = none.clone();
            for (k, vs) in p.keys {
                // all of them, all but few, few
                if match n % 3 { 0 => true, 1 => !cx.chance(1, p.keys.len()), _ => cx.chance(3, p.keys.len().max(3)) } {
                    d.push((k, vs[cx.below(vs.len())]));
                }
            }
            cx.case(rule, &format!("{}: {}", p.name, text(&d)), || check(&p, &d));
        }
    }
}
/// nothing set inside is as good as nothing set
fn inner_empty(cx: &mut Cx) {
    let rule = "parts with nothing in them do not count as set";
    let cases: &[(&str, &[&str])] = &[
        ("network", &["ipam: {}", "ipam: {config: [{}, {}]}", "labels: {}", "labels: []", "driver_opts: {}", "attachable: false", "name: null"]),
        ("ipam", &["config: [{}]", "config: []", "options: {}"]),
        ("volume", &["labels: []", "driver_opts: {}"]),
        ("build", &["args: {}", "labels: []", "secrets: []", "ulimits: {}", "pull: false", "no_cache: false", "privileged: false"]),
        ("deploy", &["placement: {}", "resources: {}", "resources: {limits: {}, reservations: {devices: [{capabilities: []}], generic_resources: [{discrete_resource_spec: {}}]}}", "restart_policy: {}", "rollback_config: {}", "update_config: {}", "placement: {preferences: [{}]}", "labels: {}"]),
        ("placement", &["preferences: [{}, {}]", "constraints: []"]),
        ("resources", &["limits: {}", "reservations: {}", "reservations: {devices: [{capabilities: []}]}"]),
        ("reservations", &["devices: []", "devices: [{capabilities: []}]", "generic_resources: [{}]", "generic_resources: [{discrete_resource_spec: {}}]"]),
        ("generic resource", &["discrete_resource_spec: {}"]),
        ("reserved device", &["capabilities: []\noptions: {}", "capabilities: []\ndevice_ids: []"]),
        ("network of a service", &["aliases: []", "driver_opts: {}", "link_local_ips: []"]),
        ("logging", &["options: {}"]),
        ("blkio config", &["device_read_bps: []", "weight_device: []"]),
        ("volume options", &["nocopy: false"]),
        ("bind options", &["create_host_path: false"]),
    ];
    for p in parts() {
        for (n, docs) in cases {
            if *n == p.name {
                for d in *docs {
                    cx.case(rule, &format!("{n}: {d}"), || eq("is_empty", (p.empty)(y(d))?, Some(true)));
                }
            }
        }
    }
}
/// lists of parts, some of them with nothing in them
fn list_of_parts(cx: &mut Cx) {
    let lists: &[(&str, &str, &str, &str, &[&str])] = &[
        ("ipam", "", "config", "{}", &["{gateway: 10.0.0.1}", "{x-a: 1}", "{aux_addresses: {h: 10.0.0.1}}"]),
        ("placement", "", "preferences", "{}", &["{spread: s}", "{x-a: 1}"]),
        ("reservations", "", "devices", "{capabilities: []}", &["{capabilities: [gpu]}", "{capabilities: [], count: 1}", "{capabilities: [], x-a: 1}"]),
        ("reservations", "", "generic_resources", "{}", &["{discrete_resource_spec: {kind: k}}", "{x-a: 1}"]),
    ];
    for p in parts() {
        for (n, base, key, empty, full) in lists.iter().filter(|l| l.0 == p.name) {
            for m in 0..81 {
                let items: Vec<&str> = (0..m % 5).map(|i| if (m / 5) >> i & 1 == 1 { full[(m + i) % full.len()] } else { empty }).collect();
                let d = format!("{base}{key}: [{}]", items.join(", "));
                cx.case("a list counts as set when something in one of its parts is", &format!("{n}: {d}"), || {
                    eq("is_empty", (p.empty)(y(&d))?, Some(items.iter().all(|i| i == empty)))
                });
            }
        }
    }
}
fn shorts<L>(cx: &mut Cx, name: &str, part: &str, short_key: &'static str, val: &'static str, want: L::Short)
where
    L: DeserializeOwned + AsShort + PartialEq + Debug + Clone + From<ShortOrLong<<L as AsShort>::Short, L>>,
    L::Short: Sized + Clone + PartialEq + Debug + Into<L>,
{
    let rule = "a long form has a short form exactly when only the short part is set";
    let all = parts();
    let p = all.iter().find(|p| p.name == part).unwrap();
    let look = |d: &Doc| -> R {
        let l: L = serde_yaml::from_str(&text(d)).map_err(|e| e.to_string())?;
        let is = d.len() == 1;
        eq("as_short", l.as_short().cloned(), is.then(|| want.clone()))?;
        eq("as_short of a reference", (&l).as_short().cloned(), is.then(|| want.clone()))?;
        let either = ShortOrLong::<L::Short, L>::Long(l.clone());
        eq("as_short of the long form", either.as_short().cloned(), is.then(|| want.clone()))?;
        eq("is", (either.is_short(), either.is_long(), either.as_long()), (false, true, Some(&l)))?;
        eq("long form", either.into_long(), l.clone())?;
        if is {
            eq("expanded short form", &want.clone().into(), &l)?;
            let s = ShortOrLong::<L::Short, L>::Short(want.clone());
            eq("is", (s.is_short(), s.is_long(), s.as_long()), (true, false, None))?;
            eq("short of short", s.as_short(), Some(&want))?;
            eq("expanded", &s.into_long(), &l)?;
        }
        Ok(())
    };
    let d = vec![(short_key, val)];
    cx.case(rule, &format!("{name}: {}", text(&d)), || look(&d));
    for (k, vs) in p.keys {
        if *k == short_key {
            continue;
        }
        for v in vs.iter() {
            let d = vec![(short_key, val), (*k, *v)];
            cx.case(rule, &format!("{name}: {}", text(&d)), || look(&d));
            let none = vec![(*k, *v)];
            if p.base.is_empty() {
                cx.case(rule, &format!("{name}: {}", text(&none)), || {
                    let l: L = serde_yaml::from_str(&text(&none)).map_err(|e| e.to_string())?;
                    eq("as_short", l.as_short().cloned(), None)
                });
            }
        }
    }
}
fn others(cx: &mut Cx) {
    let rule = "a long form has a short form exactly when only the short part is set";
    let lim = [Limit::Value(0), Limit::Value(1), Limit::Value(u64::MAX), Limit::Unlimited];
    for a in lim {
        for b in lim {
            for x in [false, true] {
                cx.case(rule, &format!("ulimit {a:?} {b:?} {x}"), || {
                    let mut u = Ulimit { soft: a, hard: b, extensions: Default::default() };
                    if x {
                        u.extensions.insert("x-a".parse().unwrap(), 1.into());
                    }
                    let short = a == b && !x;
                    eq("as_short", u.as_short().copied(), short.then_some(a))?;
                    if short {
                        eq("expanded", &Ulimit::from(a), &u)?;
                        eq("expanded", &Ulimit::from(ShortOrLong::<_, Ulimit>::Short(a)), &u)?;
                    }
                    Ok(())
                });
            }
        }
    }
    for path in [ItemOrList::Item(PathBuf::from("a")), ItemOrList::List(IndexSet::from_iter(Vec::<PathBuf>::from(["a".into()]))), ItemOrList::List(IndexSet::from_iter(Vec::<PathBuf>::from([]))), ItemOrList::List(IndexSet::from_iter(Vec::<PathBuf>::from(["a".into(), "b".into()])))] {
        for pd in [None, Some(String::new()), Some("p".into())] {
            for ef in [None, Some(ItemOrList::Item(PathBuf::from("e"))), Some(ItemOrList::List(IndexSet::from_iter(Vec::<PathBuf>::from([]))))] {
                let i = Include { path: path.clone(), project_directory: pd.clone(), env_file: ef };
                cx.case(rule, &format!("{i:?}"), || {
                    let one = match &path {
                        ItemOrList::Item(p) => Some(p),
                        ItemOrList::List(l) if l.len() == 1 => Some(&l[0]),
                        _ => None,
                    };
                    let want = if i.project_directory.is_none() && i.env_file.is_none() { one } else { None };
                    eq("as_short", i.as_short(), want)?;
                    if let Some(p) = want {
                        let e: Include = p.clone().into();
                        eq("expanded", (e.path.as_item(), e.project_directory, e.env_file), (Some(p), None, None))?;
                    }
                    Ok(())
                });
            }
        }
    }
    let ids: Vec<Identifier> = ["b", "a", "c"].iter().map(|s| s.parse().unwrap()).collect();
    let net = |t: &str| -> Option<network_config::Network> { serde_yaml::from_str(t).unwrap() };
    let nets = ["null", "{}", "{priority: 1}", "{priority: 0}", "{aliases: [a]}", "{driver_opts: {a: b}}", "{mac_address: 92:d0:c6:0a:29:33}", "{ipv4_address: 1.2.3.4}", "{ipv6_address: '::1'}", "{link_local_ips: [1.2.3.4]}", "{x-a: 1}"];
    for a in nets {
        for b in nets {
            for c in ["null", "{}", "{priority: 1}"] {
                cx.case("a map has a list of names exactly when each entry is the default", &format!("networks {a} {b} {c}"), || {
                    let m: IndexMap<Identifier, Option<network_config::Network>> = ids.iter().cloned().zip([net(a), net(b), net(c)]).collect();
                    let plain = [a, b, c].iter().all(|s| *s == "null" || *s == "{}");
                    let got: Option<Vec<_>> = m.as_short_iter().map(|i| i.cloned().collect());
                    eq("as_short_iter", &got, &plain.then(|| ids.clone()))?;
                    let l = ShortOrLong::<IndexSet<Identifier>, IndexMap<Identifier, Option<network_config::Network>>>::Long(m.clone());
                    eq("of the long form", l.as_short_iter().map(|i| i.cloned().collect()), plain.then(|| ids.clone()))?;
                    if let Some(g) = got {
                        let s: IndexSet<Identifier> = g.into_iter().collect();
                        let e = ShortOrLong::<_, IndexMap<Identifier, Option<network_config::Network>>>::Short(s.clone());
                        eq("of the short form", e.as_short_iter().map(|i| i.cloned().collect()), Some(ids.clone()))?;
                        let e: IndexMap<_, _> = e.into_long();
                        ensure(e.iter().map(|(k, v)| (k, v.clone().unwrap_or_default())).eq(m.iter().map(|(k, v)| (k, v.clone().unwrap_or_default()))), || format!("expanded is {e:?}"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    let deps = ["{condition: service_started}", "{condition: service_healthy}", "{condition: service_started, restart: true}", "{condition: service_started, required: false}", "{condition: service_completed_successfully, required: false}"];
    for a in deps {
        for b in deps {
            for c in deps {
                cx.case("a map has a list of names exactly when each entry is the default", &format!("depends_on {a} {b} {c}"), || {
                    let m: IndexMap<Identifier, Dependency> = ids.iter().cloned().zip([a, b, c].map(|t| serde_yaml::from_str(t).unwrap())).collect();
                    let plain = [a, b, c].iter().all(|s| *s == deps[0]);
                    eq("as_short_iter", m.as_short_iter().map(|i| i.cloned().collect::<Vec<_>>()), plain.then(|| ids.clone()))?;
                    if plain {
                        let s: IndexSet<Identifier> = ids.iter().cloned().collect();
                        let e: IndexMap<Identifier, Dependency> = ShortOrLong::<_, IndexMap<Identifier, Dependency>>::Short(s).into_long();
                        eq("expanded", &e, &m)?;
                    }
                    Ok(())
                });
            }
        }
    }
    let files = ["a", "{path: a}", "{path: a, required: false}", "b"];
    let mut lists: Vec<Vec<&str>> = vec![vec![]];
    for a in files {
        lists.push(vec![a]);
        for b in files {
            lists.push(vec![a, b]);
        }
    }
    for l in lists {
        let t = format!("[{}]", l.join(", "));
        cx.case("an env file is single exactly when it is one path with nothing else", &t, || {
            let e: EnvFile = serde_yaml::from_str(&t).map_err(|e| e.to_string())?;
            let want = match &l[..] { [a] if !a.contains("required") => Some(PathBuf::from(if *a == "b" { "b" } else { "a" })), _ => None };
            eq("as_single", e.as_single().cloned(), want.clone())?;
            if let EnvFile::List(v) = &e {
                eq("into_list", &e.clone().into_list(), v)?;
            }
            if let Some(p) = want {
                let s = EnvFile::Single(p.clone());
                eq("single", s.as_single(), Some(&p))?;
                let v = s.into_list();
                ensure(v.len() == 1 && v[0].as_short() == Some(&p), || format!("into_list is {v:?}"))?;
            }
            Ok(())
        });
    }
    for h in ["none", "80", "80-82"] {
        for c in ["80", "90-92"] {
            cx.case(rule, &format!("ranges {h} {c}"), || {
                let host = (h != "none").then(|| h.parse::<ports::Range>().unwrap());
                let c: ports::Range = c.parse().unwrap();
                match ports::ShortRanges::new(host, c) {
                    Ok(r) => {
                        eq("as_short", r.as_short().copied(), host.is_none().then_some(c))?;
                        if host.is_none() {
                            eq("expanded", ports::ShortRanges::from(c), r)?;
                        }
                        Ok(())
                    }
                    Err(_) => Ok(()),
                }
            });
        }
    }
}
pub fn run(cx: &mut Cx) {
    set_fields(cx);
    inner_empty(cx);
    list_of_parts(cx);
    shorts::<Build>(cx, "build", "build", "context", ".", Context::Path(".".into()));
    shorts::<ConfigOrSecret>(cx, "config or secret", "config or secret", "source", "s", "s".parse().unwrap());
    shorts::<env_file::Config>(cx, "env file", "env file", "path", "p", "p".into());
    others(cx);
}
