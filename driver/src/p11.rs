//! Volume mounts: short text, short and long form.
use crate::core::*;
use crate::p03::identifier;
use compose_spec::service::volumes::mount::{
    Bind, BindOptions, BindPropagation, Cluster, Common, NamedPipe, Tmpfs, TmpfsOptions, Volume, VolumeOptions,
};
use compose_spec::service::volumes::{
    into_long_iter, into_short_iter, AbsolutePath, HostPath, Mount, SELinux, ShortOptions, ShortVolume, Source, Volumes,
};
use compose_spec::{ExtensionKey, Identifier, ShortOrLong};

#[derive(Debug, Clone, PartialEq)]
enum Src {
    Host(String),
    Named(String),
}
/// container path, and source with options
type Parts = (String, Option<(Src, bool, Option<char>)>);

/// absolute, or with the first component `.` or `..`
pub fn host(s: &str) -> bool {
    s.starts_with('/') || matches!(s.split('/').next(), Some("." | ".."))
}
fn source(s: &str) -> Option<Src> {
    if s.starts_with('.') || s.starts_with('/') {
        host(s).then(|| Src::Host(s.to_owned()))
    } else {
        identifier(s).then(|| Src::Named(s.to_owned()))
    }
}
fn options(s: &str) -> Option<(bool, Option<char>)> {
    let (mut ro, mut se) = (None, None);
    for o in s.split(',') {
        match o {
            "ro" | "rw" if ro.is_none() => ro = Some(o == "ro"),
            "z" | "Z" if se.is_none() => se = o.chars().next(),
            _ => return None,
        }
    }
    Some((ro.unwrap_or(false), se))
}
fn short(s: &str) -> Option<Parts> {
    let abs = |c: &str| c.starts_with('/').then(|| c.to_owned());
    let Some(i) = s.find(':') else { return Some((abs(s)?, None)) };
    let (src, rest) = (&s[..i], &s[i + 1..]);
    let (c, o) = match rest.find(':') {
        None => (rest, None),
        Some(j) => (&rest[..j], Some(&rest[j + 1..])),
    };
    let (ro, se) = match o {
        None => (false, None),
        Some(o) => options(o)?,
    };
    Some((abs(c)?, Some((source(src)?, ro, se))))
}
fn text((c, o): &Parts) -> String {
    let Some((s, ro, se)) = o else { return c.clone() };
    let (Src::Host(s) | Src::Named(s)) = s;
    let opts: Vec<String> = ro.then(|| "ro".to_owned()).into_iter().chain(se.map(|c| c.to_string())).collect();
    if opts.is_empty() { format!("{s}:{c}") } else { format!("{s}:{c}:{}", opts.join(",")) }
}
fn se(c: char) -> SELinux {
    if c == 'z' { SELinux::Shared } else { SELinux::Private }
}
fn se_view(s: SELinux) -> char {
    match s {
        SELinux::Shared => 'z',
        SELinux::Private => 'Z',
    }
}
fn p(a: &std::path::Path) -> String {
    a.to_str().unwrap().to_owned()
}
fn src_view(s: &Source) -> Src {
    match s {
        Source::HostPath(h) => Src::Host(p(h.as_path())),
        Source::Volume(i) => Src::Named(i.as_str().to_owned()),
    }
}
fn view(v: &ShortVolume) -> Parts {
    (p(v.container_path.as_path()), v.options.as_ref().map(|o| (src_view(&o.source), o.read_only, o.selinux.map(se_view))))
}
fn build((c, o): &Parts) -> ShortVolume {
    ShortVolume {
        container_path: AbsolutePath::new(c.as_str()).unwrap(),
        options: o.as_ref().map(|(s, ro, l)| ShortOptions { source: build_src(s), read_only: *ro, selinux: l.map(se) }),
    }
}
fn build_src(s: &Src) -> Source {
    match s {
        Src::Host(s) => Source::HostPath(HostPath::new(s.as_str()).unwrap()),
        Src::Named(s) => Source::Volume(Identifier::new(s.as_str()).unwrap()),
    }
}
/// what the long form of a short volume says
fn long((c, o): &Parts) -> Mount {
    let mut common = Common::new(AbsolutePath::new(c.as_str()).unwrap());
    let Some((s, ro, l)) = o else { return Mount::Volume(Volume { source: None, volume: None, common }) };
    common.read_only = *ro;
    match build_src(s) {
        Source::HostPath(source) => Mount::Bind(Bind {
            source,
            bind: Some(BindOptions { propagation: None, create_host_path: true, selinux: l.map(se), extensions: Default::default() }),
            common,
        }),
        Source::Volume(v) => Mount::Volume(Volume { source: Some(v), volume: None, common }),
    }
}

fn check(cx: &mut Cx, s: &str) {
    cx.case("short volume text is [source:]container_path[:options]", s, || {
        let want = short(s);
        let got = s.parse::<ShortVolume>().ok();
        eq("parts", got.as_ref().map(view), want.clone())?;
        eq("from a document", serde_yaml::from_value::<ShortVolume>(s.into()).ok(), got.clone())?;
        if let (Some(v), Some(w)) = (got, want) {
            eq("text", v.to_string(), text(&w))?;
            eq("read back", v.to_string().parse().ok().as_ref(), Some(&v))?;
            eq("document", serde_yaml::to_value(&v).ok(), Some(text(&w).into()))?;
            both(&v, &w)?;
        }
        Ok(())
    });
    cx.case("volume sources are a host path or a named volume", s, || {
        let got = Source::parse(s).ok();
        eq("parts", got.as_ref().map(src_view), source(s))?;
        eq("from_str", s.parse::<Source>().ok(), got.clone())?;
        eq("try_from &str", Source::try_from(s).ok(), got.clone())?;
        eq("try_from String", Source::try_from(s.to_owned()).ok(), got.clone())?;
        if let Some(v) = got {
            eq("text", v.to_string(), s.to_owned())?;
        }
        Ok(())
    });
}

/// short to long and back
fn both(v: &ShortVolume, w: &Parts) -> R {
    let l = v.clone().into_long();
    eq("long form", &l, &long(w))?;
    eq("long form (From)", &Mount::from(v.clone()), &l)?;
    let mut v = v.clone();
    if named_label(w) {
        // see LABEL
        v.options.as_mut().unwrap().selinux = None;
    }
    eq("back to short", l.into_short().ok(), Some(v))
}
/// a named volume with an SELinux label: `volume` mounts have no place for it
fn named_label(w: &Parts) -> bool {
    matches!(w.1, Some((Src::Named(_), _, Some(_))))
}
const LABEL: &str = "the long form of a named volume keeps its SELinux label";

/// everything a mount says, apart from empty option blocks, which say nothing
fn says(m: &Mount) -> Mount {
    let mut m = m.clone();
    match &mut m {
        Mount::Volume(v) => {
            v.volume.take_if(|o| *o == VolumeOptions::default());
        }
        Mount::Bind(b) => {
            b.bind.take_if(|o| *o == BindOptions::default());
        }
        Mount::Tmpfs(t) => {
            t.tmpfs.take_if(|o| *o == TmpfsOptions::default());
        }
        _ => {}
    }
    m
}
fn to_short(m: &Mount) -> R {
    match m.clone().into_short() {
        Ok(s) => {
            eq("what the short form says", says(&s.clone().into_long()), says(m))?;
            eq("short form of the long form of the short form", s.clone().into_long().into_short().ok(), Some(s))?;
        }
        Err(same) => {
            eq("returned mount", &same, m)?;
            // a mount that says nothing a short form cannot say has one
            let v = match m {
                Mount::Volume(v) => v.common.consistency.is_none() && v.common.extensions.is_empty() && v.volume.is_none()
                    && (v.source.is_some() || !v.common.read_only),
                Mount::Bind(b) => b.common.consistency.is_none() && b.common.extensions.is_empty()
                    && b.bind.as_ref().is_some_and(|o| o.create_host_path && o.propagation.is_none() && o.extensions.is_empty()),
                _ => false,
            };
            ensure(!v, || "no short form".to_owned())?;
        }
    }
    match m {
        Mount::Volume(v) => eq("volume", v.clone().into_short().map_err(Mount::Volume), m.clone().into_short())?,
        Mount::Bind(b) => eq("bind", b.clone().into_short().map_err(Mount::Bind), m.clone().into_short())?,
        _ => {}
    }
    let y = serde_yaml::to_value(m).map_err(|e| e.to_string())?;
    eq("through a document", serde_yaml::from_value::<Mount>(y.clone()).ok().as_ref(), Some(m))?;
    eq("type", y.get("type").and_then(|t| t.as_str()), Some(m.kind()))?;
    let (kind, source, common) = match m {
        Mount::Volume(v) => ("volume", v.source.as_ref().map(|s| s.as_str().to_owned()), &v.common),
        Mount::Bind(b) => ("bind", Some(p(b.source.as_path())), &b.common),
        Mount::Tmpfs(b) => ("tmpfs", None, &b.common),
        Mount::NamedPipe(b) => ("npipe", Some(p(b.source.as_path())), &b.common),
        Mount::Cluster(b) => ("cluster", Some(b.source.clone()), &b.common),
    };
    eq("kind", m.kind(), kind)?;
    eq("source text", m.source_to_string(), source)?;
    eq("common", m.common(), common)
}

fn extensions(cx: &mut Cx) -> compose_spec::Extensions {
    let mut e = compose_spec::Extensions::default();
    for k in ["x-a", "x-b"] {
        if cx.chance(1, 4) {
            e.insert(ExtensionKey::new(k).unwrap(), serde_yaml::Value::Null);
        }
    }
    e
}
const HOSTS: [&str; 8] = ["/", "/a", "./a", "..", ".", "../b/c", "/a b", "/a/../b"];
const TARGETS: [&str; 4] = ["/", "/a", "/a/b", "/c d"];
fn mount(cx: &mut Cx) -> Mount {
    let one = |cx: &mut Cx, d| cx.chance(1, d);
    let common = Common {
        target: AbsolutePath::new(cx.pick(&TARGETS)).unwrap(),
        read_only: one(cx, 2),
        consistency: one(cx, 4).then(|| ["cached", "", "consistent"][cx.below(3)].to_owned()),
        extensions: extensions_rare(cx),
    };
    let source = HostPath::new(cx.pick(&HOSTS)).unwrap();
    match cx.below(12) {
        0..=4 => Mount::Volume(Volume {
            source: one(cx, 2).then(|| Identifier::new("vol").unwrap()),
            volume: one(cx, 2).then(|| VolumeOptions {
                nocopy: one(cx, 4),
                subpath: one(cx, 4).then(|| ["sub", "", "."][cx.below(3)].into()),
                extensions: extensions_rare(cx),
            }),
            common,
        }),
        5..=8 => Mount::Bind(Bind {
            source,
            bind: (!one(cx, 3)).then(|| BindOptions {
                propagation: one(cx, 4).then(|| [BindPropagation::RPrivate, BindPropagation::Private, BindPropagation::Shared, BindPropagation::RShared, BindPropagation::Slave, BindPropagation::RSlave, BindPropagation::Unbindable, BindPropagation::RUnbindable][cx.below(8)]),
                create_host_path: !one(cx, 3),
                selinux: one(cx, 2).then(|| if one(cx, 2) { SELinux::Shared } else { SELinux::Private }),
                extensions: extensions_rare(cx),
            }),
            common,
        }),
        9 => Mount::Tmpfs(Tmpfs {
            tmpfs: one(cx, 2).then(|| TmpfsOptions { size: None, mode: one(cx, 2).then(|| [0o700, 0, 0o1777][cx.below(3)]), extensions: extensions_rare(cx) }),
            common,
        }),
        10 => Mount::NamedPipe(NamedPipe { source, common }),
        _ => Mount::Cluster(Cluster { source: "c".to_owned(), common }),
    }
}
fn extensions_rare(cx: &mut Cx) -> compose_spec::Extensions {
    if cx.chance(1, 3) { extensions(cx) } else { Default::default() }
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    let words = [":", "/", ".", "..", "a", "/a", "./a", "ro", "rw", "z", "Z", ",", "ro,z", " ", "vol", "~", "é", ".a", "..a"];
    cx.all(&words, if e > 1 { 5 } else { 4 }, check);
    cx.random(&words, 10, 20_000 * e, check);
    let based = ["/data", "vol:/data", "./src:/data", "../src:/data:ro", "/src:/data:rw,Z", "vol:/data:z,ro", "vol:/data:ro,ro", "vol:/data:z,Z", "vol:/data:rw,ro",
        "..:/data", ".:/data:Z", "vol:data", "~/a:/data", ".a:/b", "/a:/b:", "vol:/a:ro:z", "/a//b:/c/./d", "C:\\a:/b"];
    cx.mutate(&based, &[":", "/", ".", "..", "a", "ro", "rw", "z", "Z", ",", "-", "_", " "], 20_000 * e, check);
    for t in ["vol:/data:z", "vol:/data:Z"] {
        cx.case(LABEL, t, || {
            let v: ShortVolume = t.parse().map_err(|e| format!("{e}"))?;
            eq("back to short", v.clone().into_long().into_short().ok(), Some(v))
        });
    }
    // values
    for _ in 0..4_000 * e {
        let w: Parts = (
            cx.pick(&TARGETS).to_owned(),
            (!cx.chance(1, 6)).then(|| {
                let s = if cx.chance(1, 2) { Src::Named("vol".into()) } else { Src::Host(cx.pick(&HOSTS).to_owned()) };
                let l = [None, Some('z'), Some('Z')][cx.below(3)];
                (s, cx.chance(1, 2), l)
            }),
        );
        let t = text(&w);
        cx.case("short volumes convert to long form and back", &t, || {
            let v = build(&w);
            eq("text", v.to_string(), t.clone())?;
            eq("read", t.parse().ok().as_ref(), Some(&v))?;
            both(&v, &w)
        });
    }
    for _ in 0..20_000 * e {
        let m = mount(cx);
        let t = serde_yaml::to_string(&m).unwrap();
        cx.case("a mount has a short form only if that says everything", &t, || to_short(&m));
    }
    for _ in 0..300 * e {
        let n = cx.below(6);
        let ms: Vec<ShortOrLong<ShortVolume, Mount>> = (0..n)
            .map(|_| {
                let m = mount(cx);
                if cx.chance(1, 2) { m.into_short().map_or_else(ShortOrLong::Long, ShortOrLong::Short) } else { ShortOrLong::Long(m) }
            })
            .collect();
        let t = format!("{ms:?}");
        cx.case("collections convert one by one", &t, || {
            let vs: Volumes = ms.iter().cloned().collect();
            let want: Vec<_> = vs.iter().cloned().collect();
            eq("long", into_long_iter(vs.clone()).collect::<Vec<_>>(), want.iter().cloned().map(|v| match v { ShortOrLong::Short(s) => s.into_long(), ShortOrLong::Long(l) => l }).collect())?;
            eq("short", into_short_iter(vs.clone()).collect::<Vec<_>>(), want.into_iter().map(|v| match v { ShortOrLong::Short(s) => Ok(s), ShortOrLong::Long(l) => l.into_short() }).collect())
        });
    }
}
