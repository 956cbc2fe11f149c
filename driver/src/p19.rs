//! Equality, hashing and order: what is equal is the same in every field, hashes alike and is ordered alike;
//! comparing with a text or number is comparing with what it stands for.
use crate::core::*;
use crate::docs::*;
use compose_spec::service::{self, blkio_config, build, deploy, device, network_config, platform, ports, user, volumes};
use compose_spec::{ExtensionKey, Identifier, ItemOrList, MapKey, ShortOrLong};
use serde::de::DeserializeOwned;
use serde_yaml::Value as Y;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// the values, and whether each two ought to be equal
fn equal<T: PartialEq + Clone + Debug>(cx: &mut Cx, name: &str, vs: &[(String, T)], same: impl Fn(&T, &T) -> bool) {
    for (s, a) in vs {
        for (t, b) in vs {
            cx.case("two values are equal exactly if they are the same in every field", &format!("{name}: {s} and {t}"), || {
                eq("a == b", a == b, same(a, b))?;
                eq("a != b", a != b, !same(a, b))?;
                eq("b == a", b == a, same(a, b))?;
                eq("with copies", a.clone() == b.clone(), same(a, b))
            });
        }
    }
}
fn hashed<T: Eq + Clone + Debug + Hash>(cx: &mut Cx, name: &str, vs: &[(String, T)], same: impl Fn(&T, &T) -> bool) {
    equal(cx, name, vs, same);
    for (s, a) in vs {
        for (t, b) in vs {
            if a == b {
                cx.case("equal values hash alike", &format!("{name}: {s} and {t}"), || eq("hash", hash_of(a), hash_of(b)));
            }
        }
    }
}
fn ordered<T: Ord + Clone + Debug + Hash>(cx: &mut Cx, name: &str, vs: &[(String, T)]) {
    for (s, a) in vs {
        for (t, b) in vs {
            cx.case("the order agrees with equality, and is one order", &format!("{name}: {s} and {t}"), || {
                eq("equal in the order", a.cmp(b) == Ordering::Equal, a == b)?;
                eq("partial_cmp", a.partial_cmp(b), Some(a.cmp(b)))?;
                eq("the other way round", b.cmp(a), a.cmp(b).reverse())?;
                eq("a < b", a < b, a.cmp(b) == Ordering::Less)?;
                for (_, c) in vs {
                    ensure(!(a <= b && b <= c) || a <= c, || format!("{a:?} <= {b:?} <= {c:?}"))?;
                }
                Ok(())
            });
        }
    }
}
/// the values the texts stand for
fn parsed<T: FromStr>(ts: &[&str]) -> Vec<(String, T)> {
    // (each twice, so that equal values come from different places)
    ts.iter().chain(ts.iter().take(3)).filter_map(|t| Some((t.to_string(), t.parse().ok()?))).collect()
}
fn read<T: DeserializeOwned>(ts: &[&str]) -> Vec<(String, T)> {
    ts.iter().chain(ts.iter().take(3)).filter_map(|t| Some((t.to_string(), serde_yaml::from_str(t).ok()?))).collect()
}
fn debug<T: Debug>(a: &T, b: &T) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn shown<T: Display>(a: &T, b: &T) -> bool {
    a.to_string() == b.to_string()
}
/// names and the like: compared, hashed and ordered as their texts
fn texts<T>(cx: &mut Cx, name: &str, ts: &[&str])
where
    T: FromStr + Eq + Ord + Hash + Clone + Debug + Display + Borrow<str> + AsRef<str>,
{
    let vs = parsed::<T>(ts);
    hashed(cx, name, &vs, shown);
    ordered(cx, name, &vs);
    as_texts(cx, name, &vs);
}
fn as_texts<T: Eq + Ord + Hash + Debug + Borrow<str> + AsRef<str>>(cx: &mut Cx, name: &str, vs: &[(String, T)]) {
    for (s, a) in vs {
        for (t, b) in vs {
            cx.case("a name is compared, hashed and ordered as its text", &format!("{name}: {s} and {t}"), || {
                let (x, y): (&str, &str) = (a.borrow(), b.borrow());
                eq("text", x, s.as_str())?;
                eq("text (as_ref)", a.as_ref(), s.as_str())?;
                eq("equal", a == b, x == y)?;
                eq("order", a.cmp(b), x.cmp(y))?;
                eq("hash", hash_of(a), hash_of(x))
            });
        }
    }
}
macro_rules! with_texts {
    ($cx:ident, $name:literal, $vs:expr, $ts:expr) => {
        for (s, a) in &$vs {
            for t in $ts {
                let t: &str = t;
                $cx.case("comparing with a text compares the texts", &format!("{}: {s} and {t:?}", $name), || {
                    eq("with str", *a == *t, s == t)?;
                    eq("with &str", *a == t, s == t)
                });
            }
        }
    };
}
/// parts of documents: each two which differ somewhere
fn fields(cx: &mut Cx) {
    for p in parts() {
        let base: Doc = p.base.iter().map(|(k, v)| (*k, v[0])).collect();
        let mut all: Doc = base.clone();
        all.extend(p.keys.iter().map(|(k, vs)| (*k, vs[0])));
        let mut check = |cx: &mut Cx, a: &Doc, b: &Doc| {
            let (ya, yb) = (map(a), map(b));
            cx.case("two values are equal exactly if they are the same in every field", &format!("{}: {} and {}", p.name, text(a), text(b)), || {
                // those that cannot be read, or are written alike, tell nothing
                let (Ok((_, wa)), Ok((_, wb))) = ((p.go)(ya.clone(), &text(a)), (p.go)(yb.clone(), &text(b))) else { return Ok(()) };
                let (x, y) = (p.same)(ya, yb)?;
                eq("both ways", x, y)?;
                if serde_yaml::to_string(&wa).ok() == serde_yaml::to_string(&wb).ok() {
                    ensure(x, || "written alike but not equal".into())
                } else if plain(&wa) != plain(&wb) {
                    ensure(!x, || format!("equal but written as {wa:?} and {wb:?}"))
                } else {
                    Ok(())
                }
            });
        };
        for (k, vs) in p.keys {
            for v in *vs {
                // there or not
                let mut d = base.clone();
                d.push((k, v));
                check(cx, &base, &d);
                check(cx, &d, &d);
                let (mut e, mut f) = (all.clone(), all.clone());
                e.retain(|x| x.0 != *k);
                f.retain(|x| x.0 != *k);
                f.push((k, v));
                check(cx, &e, &f);
                check(cx, &f, &f);
                // one or the other
                for w in *vs {
                    let mut g = e.clone();
                    g.push((k, w));
                    check(cx, &f, &g);
                }
                // other values altogether
                for w in ["true", "false", "0", "1", "2", "a", "b", "'1'", "[a]", "[b]", "{a: b}", "{a: c}", "{b: b}", "1mb", "2s", "/c", "{x-q: 1}", "[c: {x-q: 1}]"] {
                    let mut g = base.clone();
                    g.push((k, w));
                    let mut h = base.clone();
                    h.push((k, v));
                    check(cx, &g, &h);
                }
            }
        }
        if p.keys.iter().any(|k| k.0 == "x-e") {
            let with = |xs: &[(&'static str, &'static str)]| {
                let mut d = base.clone();
                d.extend(xs);
                d
            };
            let ds = [with(&[]), with(&[("x-a", "1")]), with(&[("x-a", "2")]), with(&[("x-a", "null")]), with(&[("x-b", "1")]), with(&[("x-a", "1"), ("x-b", "1")]), with(&[("x-b", "1"), ("x-a", "1")]), with(&[("x-a", "'1'")])];
            for a in &ds {
                for b in &ds {
                    check(cx, a, b);
                }
            }
        }
    }
}
/// a document with its maps and lists in one order
fn plain(v: &Y) -> String {
    match v {
        Y::Sequence(s) => {
            let mut s: Vec<_> = s.iter().map(plain).collect();
            s.sort();
            format!("{s:?}")
        }
        Y::Mapping(m) => {
            let mut s: Vec<_> = m.iter().map(|(k, v)| (plain(k), plain(v))).collect();
            s.sort();
            format!("{s:?}")
        }
        v => format!("{v:?}"),
    }
}
/// all the ways to fill in a value that is hashed
fn filled<T: DeserializeOwned>(name: &str) -> Vec<(String, T)> {
    let mut out = vec![];
    for p in parts().iter().filter(|p| name.split('|').any(|n| n == p.name)) {
        let base: Doc = p.base.iter().map(|(k, v)| (*k, v[0])).collect();
        let mut ds = vec![base.clone()];
        for (k, vs) in p.keys {
            for v in *vs {
                let mut d = base.clone();
                d.push((k, v));
                ds.push(d);
            }
        }
        for x in [&[("x-a", "1"), ("x-b", "1")][..], &[("x-b", "1"), ("x-a", "1")], &[("x-a", "1")], &[("x-a", "'1'")], &[("x-a", "1"), ("x-b", "[1]")]] {
            let mut d = base.clone();
            d.extend(x);
            ds.push(d);
        }
        let mut d = base;
        d.extend(p.keys.iter().map(|(k, vs)| (*k, vs[vs.len() - 1])));
        ds.push(d.clone());
        d.reverse();
        ds.push(d);
        out.extend(ds.into_iter().filter_map(|d| Some((text(&d), serde_yaml::from_value(map(&d)).ok()?))));
    }
    out
}
const NUMS: &[u64] = &[0, 1, 2, 9, 10, 11, 50, 79, 80, 81, 99, 100, 101, 127, 128, 255, 256, 300, 999, 1000, 1001, 65534, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX];
/// values compared with numbers
fn numbers(cx: &mut Cx) {
    let rule = "comparing with a number is comparing with the value made from it";
    macro_rules! each {
        ($name:literal, $vs:expr, $n:ty, $same:expr) => {
            for (s, a) in &$vs {
                for n in NUMS.iter().filter_map(|n| <$n>::try_from(*n).ok()) {
                    cx.case(rule, &format!("{}: {s} and {n}", $name), || {
                        let want: bool = $same(a, n);
                        eq("a == n", *a == n, want)?;
                        eq("a != n", *a != n, !want)
                    });
                }
            }
        };
    }
    type Count = deploy::resources::Count;
    each!("count", [("all".to_string(), Count::All)].into_iter().chain(NUMS.iter().map(|n| (n.to_string(), Count::Integer(*n)))).collect::<Vec<_>>(), u64, |a: &Count, n: u64| *a == Count::from(n));
    type Major = device::MajorMinorNumber;
    each!("major", parsed::<Major>(&["*", "0", "1", "255", "256", "65535"]), u16, |a: &Major, n: u16| *a == Major::from(n));
    each!("percent", read::<service::Percent>(&["0", "1", "50", "99", "100"]), u8, |a: &service::Percent, n: u8| a.into_inner() == n);
    each!("weight", read::<blkio_config::Weight>(&["10", "11", "256", "300", "1000"]), u16, |a: &blkio_config::Weight, n: u16| u16::from(*a) == n);
    each!("oom score", read::<service::OomScoreAdj>(&["-1000", "-1", "0", "1", "256", "1000"]), i16, |a: &service::OomScoreAdj, n: i16| i16::from(*a) == n);
    each!("range", parsed::<ports::Range>(&["80", "0", "65535", "80-81", "79-80", "0-65535"]), u16, |a: &ports::Range, n: u16| *a == ports::Range::from(n));
    let cpus = read::<service::Cpus>(&["0", "0.5", "1", "1.5", "2", "100", "1e3", "0.1"]);
    for (s, a) in &cpus {
        for n in [0.0, -0.0, 0.5, 0.1, 1.0, 1.5, 2.0, 100.0, 1000.0, -1.0, f64::NAN, f64::INFINITY, 0.1 + 0.2] {
            cx.case(rule, &format!("cpus: {s} and {n}"), || {
                let x = a.into_inner();
                eq("a == n", *a == n, x == n)?;
                eq("order", a.partial_cmp(&n), x.partial_cmp(&n))?;
                eq("a < n", *a < n, x < n)
            });
        }
        for (t, b) in &cpus {
            cx.case("values are ordered as their numbers", &format!("cpus: {s} and {t}"), || eq("order", a.partial_cmp(b), a.into_inner().partial_cmp(&b.into_inner())));
        }
    }
    let ranges = parsed::<ports::Range>(&["80", "0", "65535", "80-81", "79-80", "0-65535", "80-80"]);
    for (s, a) in &ranges {
        for (t, b) in &ranges {
            let r = b.start()..=b.end().unwrap_or(b.start());
            cx.case("a range is compared with the range from its start to its end", &format!("{s} and {r:?}"), || eq(t, *a == r, a.start() == *r.start() && a.end().unwrap_or(a.start()) == *r.end()));
        }
    }
}
/// ports, mounts and their options, built from their fields: absent, the default and others
fn built(cx: &mut Cx) {
    use volumes::mount::*;
    fn named<T: Debug>(vs: Vec<T>) -> Vec<(String, T)> {
        vs.into_iter().map(|v| (format!("{v:?}"), v)).collect()
    }
    let exts: Vec<compose_spec::Extensions> = [None, Some(Y::Null), Some(Y::Bool(false)), Some(Y::Bool(true))]
        .into_iter()
        .map(|v| v.into_iter().map(|v| (ExtensionKey::new("x-a").unwrap(), v)).collect())
        .collect();
    use BindPropagation as P;
    let mut binds = Vec::new();
    for propagation in [None, Some(P::RPrivate), Some(P::Private), Some(P::Shared), Some(P::RShared), Some(P::Slave), Some(P::RSlave), Some(P::Unbindable), Some(P::RUnbindable)] {
        for create_host_path in [false, true] {
            for selinux in [None, Some(volumes::SELinux::Shared), Some(volumes::SELinux::Private)] {
                for extensions in &exts[..3] {
                    binds.push(BindOptions { propagation, create_host_path, selinux, extensions: extensions.clone() });
                }
            }
        }
    }
    let mut vols = Vec::new();
    for nocopy in [false, true] {
        for subpath in [None, Some(""), Some("."), Some("/"), Some("a"), Some("b")] {
            for e in &exts {
                vols.push(VolumeOptions { nocopy, subpath: subpath.map(Into::into), extensions: e.clone() });
            }
        }
    }
    let mut tmps = Vec::new();
    for size in [None, Some(0), Some(1), Some(1 << 32), Some(u64::MAX)] {
        for mode in [None, Some(0), Some(1), Some(0o700), Some(u32::MAX)] {
            for e in &exts {
                tmps.push(TmpfsOptions { size: size.map(compose_spec::service::ByteValue::Bytes), mode, extensions: e.clone() });
            }
        }
    }
    let path = |s: &str| s.parse().unwrap();
    let mut commons = Vec::new();
    for target in ["/", "/a"] {
        for read_only in [false, true] {
            for consistency in [None, Some(""), Some("cached"), Some("consistent")] {
                for e in &exts {
                    commons.push(Common { target: path(target), read_only, consistency: consistency.map(str::to_owned), extensions: e.clone() });
                }
            }
        }
    }
    let mut ports = Vec::new();
    for base in 0..2 {
        for k in 0..8 {
            for v in 0..4usize {
                let mut p = ports::Port { name: None, target: 80, published: None, host_ip: None, protocol: None, app_protocol: None, mode: None, extensions: exts[0].clone() };
                if base == 1 {
                    p = ports::Port { name: Some("n".into()), target: 81, published: "80".parse().ok(), host_ip: "127.0.0.1".parse().ok(), protocol: Some(ports::Protocol::Udp), app_protocol: Some("a".into()), mode: Some(ports::Mode::Ingress), extensions: exts[1].clone() };
                }
                match k {
                    0 => p.name = [None, Some(""), Some("n"), Some("80")][v].map(Into::into),
                    1 => p.target = [0, 80, 81, u16::MAX][v],
                    2 => p.published = [None, Some("0"), Some("80"), Some("80-81")][v].map(|r| r.parse().unwrap()),
                    3 => p.host_ip = [None, Some("0.0.0.0"), Some("127.0.0.1"), Some("::")][v].map(|r| r.parse().unwrap()),
                    4 => p.protocol = [None, Some(ports::Protocol::Tcp), Some(ports::Protocol::Udp), Some(ports::Protocol::Other("x".into()))][v].clone(),
                    5 => p.app_protocol = [None, Some(""), Some("http"), Some("80")][v].map(Into::into),
                    6 => p.mode = [None, Some(ports::Mode::Host), Some(ports::Mode::Ingress), Some(ports::Mode::Host)][v].clone(),
                    _ => p.extensions = exts[v].clone(),
                }
                ports.push(p);
            }
        }
    }
    let mut mounts = Vec::new();
    for (i, common) in commons.iter().enumerate().filter(|(i, _)| i % 5 == 0) {
        for source in [None, Some("a"), Some("b")] {
            let source = source.map(|s| Identifier::new(s).unwrap());
            mounts.push(Mount::Volume(Volume { source: source.clone(), volume: None, common: common.clone() }));
            mounts.push(Mount::Volume(Volume { source, volume: Some(vols[i % vols.len()].clone()), common: common.clone() }));
        }
        for source in ["/a", "./a"] {
            let source: volumes::HostPath = source.parse().unwrap();
            mounts.push(Mount::Bind(Bind { source: source.clone(), bind: None, common: common.clone() }));
            mounts.push(Mount::Bind(Bind { source: source.clone(), bind: Some(binds[i % binds.len()].clone()), common: common.clone() }));
            mounts.push(Mount::NamedPipe(NamedPipe { source, common: common.clone() }));
        }
        for source in ["", "/a", "./a", "a"] {
            mounts.push(Mount::Cluster(Cluster { source: source.to_owned(), common: common.clone() }));
        }
        mounts.push(Mount::Tmpfs(Tmpfs { tmpfs: None, common: common.clone() }));
        mounts.push(Mount::Tmpfs(Tmpfs { tmpfs: Some(tmps[0].clone()), common: common.clone() }));
        mounts.push(Mount::Tmpfs(Tmpfs { tmpfs: Some(tmps[i % tmps.len()].clone()), common: common.clone() }));
    }
    hashed(cx, "bind options", &named(binds), debug);
    hashed(cx, "volume options", &named(vols), debug);
    hashed(cx, "tmpfs options", &named(tmps), debug);
    hashed(cx, "common", &named(commons), debug);
    hashed(cx, "ports", &named(ports), debug);
    hashed(cx, "mounts", &named(mounts), debug);
}
/// values in a set or map are found again
fn sets(cx: &mut Cx) {
    let docs: &[(&str, &str, &[&str], usize)] = &[
        ("service", "ports", &["{target: 80}", "{target: 80, x-a: 1}", "{target: 80, x-a: 2}", "{target: 80, name: n}", "{target: 80, name: m}", "{target: 80, published: 1}", "{target: 80, published: 2}", "{target: 80, host_ip: 10.0.0.1}", "{target: 80, host_ip: 10.0.0.2}", "{target: 80, protocol: tcp}", "{target: 80, protocol: udp}", "{target: 80, app_protocol: a}", "{target: 80, app_protocol: b}", "{target: 80, mode: host}", "{target: 80, mode: ingress}", "{target: 81}", "80", "80/tcp", "80/udp"], 19),
        ("service", "volumes", &["{type: volume, target: /a}", "{type: tmpfs, target: /a}", "{type: volume, target: /b}", "{type: volume, target: /a, read_only: true}", "{type: volume, target: /a, consistency: c}", "{type: volume, target: /a, x-a: 1}", "{type: volume, target: /a, x-a: 2}", "{type: volume, source: s, target: /a}", "{type: volume, source: s, target: /a, volume: {nocopy: true}}", "{type: volume, source: s, target: /a, volume: {subpath: a}}", "{type: volume, source: s, target: /a, volume: {subpath: b}}", "{type: bind, source: ./s, target: /a}", "{type: bind, source: ./s, target: /a, bind: {propagation: shared}}", "{type: bind, source: ./s, target: /a, bind: {create_host_path: true}}", "{type: bind, source: ./s, target: /a, bind: {selinux: z}}", "{type: bind, source: ./s, target: /a, bind: {selinux: Z}}", "{type: tmpfs, target: /a, tmpfs: {size: 1}}", "{type: tmpfs, target: /a, tmpfs: {mode: 1}}", "{type: npipe, source: /s, target: /a}", "{type: cluster, source: s, target: /a}", "/a", "/b", "s:/a"], 23),
    ];
    let all = parts();
    for (part, key, vs, n) in docs {
        let p = all.iter().find(|p| p.name == *part).unwrap();
        for _ in 0..4 * cx.effort {
            let mut vs = vs.to_vec();
            for i in (1..vs.len()).rev() {
                vs.swap(i, cx.below(i + 1));
            }
            let t = format!("{key}: [{}]", vs.join(", "));
            cx.case("different values are not taken for one another in a set", &t, || {
                let (_, back) = (p.go)(y(&t), &t)?;
                eq("values kept", back[*key].as_sequence().map(Vec::len), Some(*n))
            });
        }
        for v in *vs {
            let t = format!("{key}: [{v}, {v}]");
            cx.case("the same value is in a set once", &t, || {
                let s: Result<service::Service, _> = serde_yaml::from_str(&t);
                match s {
                    Ok(s) => eq("values", s.ports.len() + s.volumes.len(), 1),
                    Err(_) => Ok(()),
                }
            });
        }
    }
}
pub fn run(cx: &mut Cx) {
    built(cx);
    fields(cx);
    const NAMES: &[&str] = &["a", "b", "ab", "aa", "a1", "a-b", "a_b", "a.b", "a0", "a-", "B", "A", "aB", "x-a", "x-b", "x-", "x-ab", "z", "0", "10", "9", "abc", "abd", "longer-name"];
    texts::<Identifier>(cx, "identifier", NAMES);
    texts::<MapKey>(cx, "map key", NAMES);
    texts::<ExtensionKey>(cx, "extension key", NAMES);
    texts::<service::Hostname>(cx, "hostname", NAMES);
    texts::<service::Resource>(cx, "resource", NAMES);
    texts::<user::Name>(cx, "user name", NAMES);
    texts::<build::CacheOption>(cx, "cache option", NAMES);
    with_texts!(cx, "identifier", parsed::<Identifier>(NAMES), NAMES);
    with_texts!(cx, "map key", parsed::<MapKey>(NAMES), NAMES);
    with_texts!(cx, "extension key", parsed::<ExtensionKey>(NAMES), NAMES);
    with_texts!(cx, "hostname", parsed::<service::Hostname>(NAMES), NAMES);
    with_texts!(cx, "resource", parsed::<service::Resource>(NAMES), NAMES);
    with_texts!(cx, "user name", parsed::<user::Name>(NAMES), NAMES);
    with_texts!(cx, "cache option", parsed::<build::CacheOption>(NAMES), NAMES);
    const H: &str = "sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5";
    const G: &str = "sha256:175975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5";
    let mut images: Vec<String> = ["a", "b", "ab", "a:1", "a:2", "a:10", "b:1", "a/b", "a/b:1", "q.io/a", "q.io:5/a", "q.io:50/a", "q.io/a:1", "aa:1", "a-b", "a.b", "a_b:T", "a_b:t"].map(String::from).into();
    images.extend([format!("a@{H}"), format!("a@{G}"), format!("b@{H}"), format!("q.io:5/a@{H}")]);
    let images: Vec<&str> = images.iter().map(String::as_str).collect();
    texts::<service::Image>(cx, "image", &images);
    let vs = parsed::<service::Image>(&images);
    with_texts!(cx, "image", vs, &images);
    // images brought to the same text in different ways
    let mut edited = vs.clone();
    for (s, i) in &vs {
        let name = i.name().to_string();
        let mut j = i.clone();
        j.set_tag(None);
        edited.push((format!("{s} without a tag"), j.clone()));
        j.set_tag(Some(service::image::Tag::new("1").unwrap()));
        edited.push((format!("{s} with tag 1"), j));
        if let Ok(n) = service::image::Name::new(&name) {
            edited.push((format!("{s} of its name"), n.into()));
        }
    }
    hashed(cx, "image", &edited, shown);
    ordered(cx, "image", &edited[..edited.len().min(40)]);
    let ns: Vec<_> = ["a", "b", "ab", "q.io/a", "q.io:5/a", "q.io:50/a", "a/b", "a.b", "a-b", "a.b/c"].iter().map(|s| (s.to_string(), service::image::Name::new(s).unwrap())).collect();
    hashed(cx, "image name", &ns, shown);
    ordered(cx, "image name", &ns);
    as_texts(cx, "image name", &ns);
    with_texts!(cx, "image name", ns, &images);
    let ts: Vec<_> = ["a", "b", "1", "10", "9", "A", "a.b", "a_b", "a-b"].iter().map(|s| (s.to_string(), service::image::Tag::new(s).unwrap())).collect();
    hashed(cx, "tag", &ts, shown);
    ordered(cx, "tag", &ts);
    as_texts(cx, "tag", &ts);
    with_texts!(cx, "tag", ts, NAMES);
    let ds: Vec<_> = [H, G].iter().map(|s| (s.to_string(), service::image::Digest::new(s).unwrap())).collect();
    hashed(cx, "digest", &ds, shown);
    ordered(cx, "digest", &ds);
    as_texts(cx, "digest", &ds);
    with_texts!(cx, "digest", ds, &[H, G, ""]);
    // values that are hashed
    let ps = filled::<ports::Port>("port");
    hashed(cx, "port", &ps, debug);
    let ms = filled::<volumes::Mount>("volume mount|bind mount|tmpfs mount|pipe mount|cluster mount");
    hashed(cx, "mount", &ms, debug);
    hashed(cx, "volume options", &filled::<volumes::mount::VolumeOptions>("volume options"), debug);
    hashed(cx, "bind options", &filled::<volumes::mount::BindOptions>("bind options"), debug);
    hashed(cx, "tmpfs options", &filled::<volumes::mount::TmpfsOptions>("tmpfs options"), debug);
    hashed(cx, "short port", &parsed::<ports::ShortPort>(&["80", "80/tcp", "80/udp", "81", "80:80", "81:80", "80-81:80-81", "80-81", "10.0.0.1:80:80", "10.0.0.2:80:80", "10.0.0.1::80", "[::1]:80:80", "80:80/tcp", "80/sctp"]), debug);
    hashed(cx, "range", &parsed::<ports::Range>(&["80", "81", "80-81", "80-82", "79-81"]), debug);
    hashed(cx, "protocol", &parsed::<ports::Protocol>(&["tcp", "udp", "TCP", "sctp", "other", ""]), debug);
    hashed(cx, "short volume", &parsed::<volumes::ShortVolume>(&["/a", "/b", "a:/a", "b:/a", "./a:/a", "/a:/a", "a:/a:ro", "a:/a:rw", "a:/a:z", "a:/a:Z", "a:/a:ro,z"]), debug);
    hashed(cx, "absolute path", &parsed::<service::AbsolutePath>(&["/", "/a", "/b", "/a/b", "/A", "/a/b/c"]), debug);
    ordered(cx, "absolute path", &parsed::<service::AbsolutePath>(&["/", "/a", "/b", "/a/b", "/A", "/a/b/c"]));
    hashed(cx, "host path", &parsed::<volumes::HostPath>(&["/", "/a", "./a", "../a", "~", "~/a", "/a/b", "."]), debug);
    hashed(cx, "user", &parsed::<service::User>(&["a", "b", "0", "1", "a:b", "a:0", "0:0", "0:1", "1:0", "b:a"]), debug);
    hashed(cx, "id or name", &parsed::<service::IdOrName>(&["a", "b", "0", "1", "10"]), debug);
    hashed(cx, "device", &parsed::<service::Device>(&["/a", "/b", "/a:/a", "/a:/b", "/b:/a", "/a:/a:r", "/a:/a:w", "/a:/a:m", "/a:/a:rwm", "/a:/a:rw"]), debug);
    hashed(cx, "cgroup rule", &parsed::<device::CgroupRule>(&["a *:* rwm", "c *:* rwm", "b *:* rwm", "c 1:* r", "c *:1 r", "c 1:1 r", "c 1:1 w", "c 1:1 m", "c 0:0 r"]), debug);
    hashed(cx, "mac address", &parsed::<network_config::MacAddress>(&["00:00:00:00:00:00", "00:00:00:00:00:01", "01:00:00:00:00:00", "ff:ff:ff:ff:ff:ff"]), debug);
    ordered(cx, "mac address", &parsed::<network_config::MacAddress>(&["00:00:00:00:00:00", "00:00:00:00:00:01", "01:00:00:00:00:00", "00:ff:00:00:00:00", "ff:ff:ff:ff:ff:ff"]));
    hashed(cx, "byte value", &parsed::<service::ByteValue>(&["0b", "1b", "1kb", "2kb", "1mb", "1gb", "2gb", "1024b"]), debug);
    hashed(cx, "platform", &parsed::<platform::Platform>(&["linux", "windows", "linux/amd64", "linux/arm64", "linux/arm64/v8", "linux/arm/v7", "linux/arm/v6", "windows/amd64"]), debug);
    hashed(cx, "ssh", &parsed::<build::SshAuth>(&["default", "a=/p", "a=/q", "b=/p", "default=/p"]), debug);
    equal(cx, "limit", &read::<service::Limit<u64>>(&["-1", "0", "1", "18446744073709551615"]), debug);
    equal(cx, "cpu set", &parsed::<service::CpuSet>(&["0", "1", "0,1", "0-1", "0-2", "2", "0,2", ""]), debug);
    type Items = ItemOrList<String>;
    let items = read::<Items>(&["a", "b", "[a]", "[b]", "[a, b]", "[]", "''", "['']", "[a, b, c]"]);
    equal(cx, "item or list", &items, debug);
    type Either = ShortOrLong<String, service::Extends>;
    equal(cx, "short or long", &read::<Either>(&["a", "b", "{service: a}", "{service: b}", "{service: a, file: f}"]), debug);
    let mut opts = vec![];
    for m in [false, true] {
        let mut o = compose_spec::Options::default();
        o.apply_merge(m);
        opts.push((format!("merge {m}"), o));
    }
    equal(cx, "options", &opts, debug);
    numbers(cx);
    sets(cx);
}
