//! Absolute and host paths: construction and edits.
use crate::core::*;
use crate::p11::host;
use compose_spec::service::volumes::{AbsolutePath, HostPath, Source};
use std::borrow::Cow;
use std::path::{Path, PathBuf};

fn t(p: &Path) -> String {
    p.to_str().unwrap().to_owned()
}

macro_rules! each_way {
    ($Ty:ident, $s:expr, $ok:expr) => {{
        let (s, ok): (&str, bool) = ($s, $ok);
        let ways: Vec<(&str, Option<$Ty>)> = vec![
            ("new(&str)", $Ty::new(s).ok()),
            ("new(String)", $Ty::new(s.to_owned()).ok()),
            ("new(&Path)", $Ty::new(Path::new(s)).ok()),
            ("new(PathBuf)", $Ty::new(PathBuf::from(s)).ok()),
            ("try_from(&str)", $Ty::try_from(s).ok()),
            ("try_from(String)", $Ty::try_from(s.to_owned()).ok()),
            ("try_from(&Path)", $Ty::try_from(Path::new(s)).ok()),
            ("try_from(PathBuf)", $Ty::try_from(PathBuf::from(s)).ok()),
            ("try_from(Box<Path>)", $Ty::try_from(Box::<Path>::from(Path::new(s))).ok()),
            ("try_from(Cow::Borrowed)", $Ty::try_from(Cow::Borrowed(Path::new(s))).ok()),
            ("try_from(Cow::Owned)", $Ty::try_from(Cow::<Path>::Owned(PathBuf::from(s))).ok()),
            ("parse", s.parse::<$Ty>().ok()),
            ("document", serde_json::from_value::<$Ty>(serde_json::Value::String(s.to_owned())).ok()),
        ];
        for (w, r) in ways {
            eq(&format!("accepted by {w}"), r.is_some(), ok)?;
            let Some(v) = r else { continue };
            eq(&format!("text from {w}"), t(v.as_path()), s.to_owned())?;
            eq("as_inner", t(v.as_inner()), s.to_owned())?;
            eq("as_ref", t(AsRef::<Path>::as_ref(&v)), s.to_owned())?;
            eq("borrow", t(std::borrow::Borrow::<Path>::borrow(&v)), s.to_owned())?;
            eq("document of", serde_json::to_value(&v).ok(), Some(serde_json::Value::String(s.to_owned())))?;
            eq("equal to its path", v == *Path::new(s), true)?;
            eq("boxed", t(&Box::<Path>::from(v.clone())), s.to_owned())?;
            eq("buffer", t(&PathBuf::from(v.clone())), s.to_owned())?;
            eq("into_inner", t(&v.into_inner()), s.to_owned())?;
        }
    }};
}

fn construct(cx: &mut Cx, s: &str) {
    cx.case("construction accepts exactly the paths of its form", s, || {
        let (a, h) = (s.starts_with('/'), host(s));
        each_way!(AbsolutePath, s, a);
        each_way!(HostPath, s, h);
        if a {
            let v = AbsolutePath::new(s).unwrap();
            eq("absolute as host path", t(HostPath::from(v.clone()).as_path()), s.to_owned())?;
            eq("absolute as source", Source::from(v) == Source::HostPath(HostPath::new(s).unwrap()), true)?;
        }
        for (w, r) in [
            ("PathBuf", Source::try_from(PathBuf::from(s)).ok()),
            ("&Path", Source::try_from(Path::new(s)).ok()),
            ("Box<Path>", Source::try_from(Box::<Path>::from(Path::new(s))).ok()),
            ("Cow", Source::try_from(Cow::Borrowed(Path::new(s))).ok()),
        ] {
            eq(&format!("source from {w}"), r, h.then(|| Source::HostPath(HostPath::new(s).unwrap())))?;
        }
        Ok(())
    });
}

/// `None` pops
fn edits(cx: &mut Cx, s: &str, es: &[Option<&str>]) {
    let show: Vec<String> = es.iter().map(|e| e.map_or("pop".to_owned(), |p| format!("push {p:?}"))).collect();
    let input = format!("{s:?}: {}", show.join(", "));
    cx.case("every edit leaves a path of its form", &input, || {
        if s.starts_with('/') {
            let (mut v, mut w) = (AbsolutePath::new(s).unwrap(), PathBuf::from(s));
            for e in es {
                match e {
                    Some(p) => {
                        v.push(p);
                        w.push(p);
                    }
                    None => eq("popped", v.pop(), w.pop())?,
                }
                eq("absolute path", t(v.as_path()), t(&w))?;
                eq("still accepted", AbsolutePath::new(v.as_path().to_owned()).is_ok(), true)?;
                eq("still absolute", v.as_path().is_absolute(), true)?;
            }
        }
        if host(s) {
            let (mut v, mut w) = (HostPath::new(s).unwrap(), PathBuf::from(s));
            for e in es {
                match e {
                    Some(p) => {
                        v.push(p);
                        w.push(p);
                    }
                    None => {
                        let pop = w.parent().is_some_and(|p| !p.as_os_str().is_empty());
                        if pop {
                            w.pop();
                        }
                        eq("popped", v.pop(), pop)?;
                    }
                }
                eq("host path", t(v.as_path()), t(&w))?;
                eq("still of its form", host(&t(v.as_path())), true)?;
                eq("still accepted", HostPath::new(v.as_path().to_owned()).is_ok(), true)?;
            }
        }
        Ok(())
    });
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    let words = ["/", ".", "..", "a", "~", " ", "é", "\\", "C:", "...", ".a", "//", "./", "\0", "\n", "-"];
    cx.all(&words, if e > 1 { 5 } else { 4 }, construct);
    cx.random(&words, 12, 20_000 * e, construct);
    let parts = ["a", ".", "..", "", "...", ".b", "b.", "~", "é", "/", "/c", "./d", "../d", "e/", "//", "a/../b"];
    for _ in 0..60_000 * e {
        let n = cx.below(4);
        let start: String = [["", "/", "./", "../", ".", "..", "//", "/."][cx.below(8)]]
            .into_iter()
            .chain((0..n).map(|_| parts[cx.below(parts.len())]).flat_map(|p| [p, "/"]))
            .collect();
        let start = if cx.chance(1, 2) { start.trim_end_matches('/').to_owned() } else { start };
        let k = 1 + cx.below(6);
        let es: Vec<Option<&str>> = (0..k).map(|_| cx.chance(1, 2).then(|| parts[cx.below(parts.len())])).collect();
        edits(cx, &start, &es);
    }
    // every short sequence of pops and pushes from every short path
    for s in ["/", ".", "..", "./", "../", "/a", "./a", "../a", "../..", "./.", "/.", "/..", "//", "/a/", "./a/b", "/a/b"] {
        for a in parts.iter().map(|p| Some(*p)).chain([None]) {
            for b in parts.iter().map(|p| Some(*p)).chain([None]) {
                for c in [None, Some("a")] {
                    edits(cx, s, &[a, b, c, None, None]);
                }
            }
        }
    }
}
