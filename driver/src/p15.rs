//! Settings which exclude each other are one choice or an error.
use crate::core::*;
use compose_spec::service::build::Dockerfile;
use compose_spec::service::healthcheck::{Command, Healthcheck, Test};
use compose_spec::service::network_config::{NetworkConfig, NetworkMode};
use compose_spec::service::{Build, CredentialSpec, CredentialSpecKind, EnvFile};
use compose_spec::{config, secret, Config, Network, Resource, Secret, Service, ShortOrLong, Volume};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_yaml::{Mapping, Value as Y};
use std::fmt::Debug;
use std::path::PathBuf;
use std::time::Duration;

type Doc<'a> = Vec<(&'a str, &'a str)>;

fn text(d: &Doc) -> String {
    if d.is_empty() {
        return "{}\n".into();
    }
    d.iter().map(|(k, v)| format!("{k}: {v}\n")).collect()
}
fn map(d: &Doc) -> Y {
    let mut m = Mapping::new();
    for (k, v) in d {
        m.insert((*k).into(), serde_yaml::from_str(v).unwrap());
    }
    Y::Mapping(m)
}
/// reads `doc`, which must be `want` (the keys it is written back with, and a look at the value) or an error
fn read<T: DeserializeOwned + Serialize + PartialEq + Debug>(doc: &Doc, want: Option<(Doc, &dyn Fn(&T) -> bool)>) -> R {
    let t = text(doc);
    let mut ways: Vec<(&str, Result<T, String>)> = vec![("text", serde_yaml::from_str(&t).map_err(|e| e.to_string()))];
    let distinct = (0..doc.len()).all(|i| (0..i).all(|j| doc[i].0 != doc[j].0));
    if distinct {
        ways.push(("value", serde_yaml::from_value(map(doc)).map_err(|e| e.to_string())));
        let j: Vec<String> = doc
            .iter()
            .map(|(k, v)| format!("{}: {}", serde_json::json!(k), serde_json::to_value(serde_yaml::from_str::<Y>(v).unwrap()).unwrap()))
            .collect();
        ways.push(("json", serde_json::from_str(&format!("{{{}}}", j.join(", "))).map_err(|e| e.to_string())));
    }
    for (w, r) in ways {
        match (r, &want) {
            (Err(_), None) => {}
            (Ok(v), None) => return Err(format!("from {w}: accepted as {v:?}")),
            (Err(e), Some(_)) => return Err(format!("from {w}: rejected: {e}")),
            (Ok(v), Some((back, is))) => {
                ensure(is(&v), || format!("from {w}: is {v:?}"))?;
                let b = serde_yaml::to_value(&v).map_err(|e| e.to_string())?;
                eq(&format!("from {w}: written back"), &b, &map(back))?;
                let again: T = serde_yaml::from_value(b).map_err(|e| format!("written text not read: {e}"))?;
                eq(&format!("from {w}: read back"), &again, &v)?;
            }
        }
    }
    Ok(())
}
/// every subset of `keys` in every order, up to four keys
fn orders<'a>(keys: &[(&'a str, &'a str)]) -> Vec<Doc<'a>> {
    fn go<'a>(left: &[(&'a str, &'a str)], cur: &mut Doc<'a>, out: &mut Vec<Doc<'a>>) {
        out.push(cur.clone());
        if cur.len() == 4 {
            return;
        }
        for i in 0..left.len() {
            let mut rest = left.to_vec();
            cur.push(rest.remove(i));
            go(&rest, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(keys, &mut vec![], &mut out);
    out
}
fn given<'a>(d: &Doc<'a>, keys: &[&str]) -> Doc<'a> {
    d.iter().copied().filter(|(k, _)| keys.contains(k)).collect()
}
/// the document without its keys named in `keys`, these first
fn first<'a>(d: &Doc<'a>, keys: &[&str]) -> Doc<'a> {
    let mut v = given(d, keys);
    v.extend(d.iter().copied().filter(|(k, _)| !keys.contains(k)));
    v
}

fn sources(cx: &mut Cx) {
    let vals = ["a", "./b", "\"1\"", "\"\"", "'x: y'"];
    for v in vals {
        let s: String = serde_yaml::from_str(v).unwrap();
        for d in orders(&[("file", v), ("environment", v), ("content", v), ("x-e", "1"), ("labels", "{a: b}")]) {
            cx.case("a config has one source", &text(&d), || {
                let keys = ["file", "environment", "content"];
                let g = given(&d, &keys);
                let is = |c: &config::Source| match c {
                    config::Source::File(p) => g[0].0 == "file" && *p == PathBuf::from(&s),
                    config::Source::Environment(e) => g[0].0 == "environment" && *e == s,
                    config::Source::Content(e) => g[0].0 == "content" && *e == s,
                };
                let one = g.len() == 1;
                let whole = |c: &Config| is(&c.source);
                read::<Config>(&d, one.then(|| (first(&d, &keys), &whole as &dyn Fn(&Config) -> bool)))?;
                if d.len() == g.len() {
                    read::<config::Source>(&d, one.then(|| (g.clone(), &is as &dyn Fn(&config::Source) -> bool)))?;
                }
                Ok(())
            });
        }
        for d in orders(&[("file", v), ("environment", v), ("x-e", "1"), ("labels", "{a: b}"), ("driver", "d")]) {
            cx.case("a secret has one source", &text(&d), || {
                let keys = ["file", "environment"];
                let g = given(&d, &keys);
                let is = |c: &secret::Source| match c {
                    secret::Source::File(p) => g[0].0 == "file" && *p == PathBuf::from(&s),
                    secret::Source::Environment(e) => g[0].0 == "environment" && *e == s,
                };
                let one = g.len() == 1;
                let whole = |c: &Secret| is(&c.source);
                read::<Secret>(&d, one.then(|| (first(&d, &keys), &whole as &dyn Fn(&Secret) -> bool)))?;
                if d.len() == g.len() {
                    read::<secret::Source>(&d, one.then(|| (g.clone(), &is as &dyn Fn(&secret::Source) -> bool)))?;
                }
                Ok(())
            });
        }
        for d in orders(&[("dockerfile", v), ("dockerfile_inline", v), ("context", "."), ("target", "t"), ("x-e", "1")]) {
            cx.case("a build has at most one Dockerfile", &text(&d), || {
                let keys = ["dockerfile", "dockerfile_inline"];
                let g = given(&d, &keys);
                let is = |c: &Dockerfile| match c {
                    Dockerfile::File(p) => g[0].0 == "dockerfile" && *p == PathBuf::from(&s),
                    Dockerfile::Inline(e) => g[0].0 == "dockerfile_inline" && *e == s,
                };
                let whole = |b: &Build| b.dockerfile.is_some() == (g.len() == 1) && b.dockerfile.iter().all(&is);
                read::<Build>(&d, (g.len() < 2).then(|| (d.clone(), &whole as &dyn Fn(&Build) -> bool)))?;
                if d.len() == g.len() {
                    read::<Dockerfile>(&d, (g.len() == 1).then(|| (g.clone(), &is as &dyn Fn(&Dockerfile) -> bool)))?;
                }
                Ok(())
            });
        }
    }
    for v in ["a", "\"1\"", "a.b"] {
        let s: String = serde_yaml::from_str(v).unwrap();
        let mut docs = orders(&[("config", v), ("file", v), ("registry", v), ("x-e", "1"), ("x-f", "a")]);
        for k in ["config", "file", "registry"] {
            docs.push(vec![(k, v), (k, v)]);
            docs.push(vec![(k, v), ("x-e", "1"), (k, v)]);
        }
        docs.push(vec![("file", "a"), ("x-e", "1"), ("x-e", "2")]);
        docs.push(vec![("other", "a")]);
        docs.push(vec![("file", "a"), ("other", "a")]);
        for d in docs {
            cx.case("a credential spec has one kind", &text(&d), || {
                let keys = ["config", "file", "registry"];
                let g = given(&d, &keys);
                let exts: Vec<&str> = d.iter().map(|(k, _)| *k).filter(|k| k.starts_with("x-")).collect();
                let one = g.len() == 1 && exts.len() + 1 == d.len() && (exts.len() < 2 || exts[0] != exts[1]);
                let is = |c: &CredentialSpec| {
                    (match &c.kind {
                        CredentialSpecKind::Config(i) => g[0].0 == "config" && i.as_str() == s,
                        CredentialSpecKind::File(p) => g[0].0 == "file" && *p == PathBuf::from(&s),
                        CredentialSpecKind::Registry(r) => g[0].0 == "registry" && *r == s,
                    }) && c.extensions.len() == exts.len()
                        && c.extensions.keys().zip(&exts).all(|(a, b)| a.as_str() == *b)
                };
                read::<CredentialSpec>(&d, one.then(|| (first(&d, &keys), &is as &dyn Fn(&CredentialSpec) -> bool)))
            });
        }
    }
}

fn networks(cx: &mut Cx) {
    for (mode, nets) in [("host", "[a, b]"), ("none", "{a: null}"), ("\"service:x\"", "[]"), ("\"container:y\"", "{}"), ("bridge", "{a: {priority: 1}}")] {
        for d in orders(&[("network_mode", mode), ("networks", nets), ("image", "i"), ("x-e", "1")]) {
            cx.case("a service has a network mode or networks", &text(&d), || {
                let keys = ["network_mode", "networks"];
                let g = given(&d, &keys);
                let is = |c: &NetworkConfig| match c {
                    NetworkConfig::NetworkMode(m) => g[0].0 == "network_mode" && *m == NetworkMode::parse(serde_yaml::from_str::<String>(mode).unwrap().as_str()).unwrap(),
                    NetworkConfig::Networks(n) => g[0].0 == "networks" && *n == serde_yaml::from_str(nets).unwrap(),
                };
                let whole = |s: &Service| s.network_config.is_some() == (g.len() == 1) && s.network_config.iter().all(&is);
                read::<Service>(&d, (g.len() < 2).then(|| (d.clone(), &whole as &dyn Fn(&Service) -> bool)))?;
                if d.len() == g.len() {
                    read::<NetworkConfig>(&d, (g.len() == 1).then(|| (g.clone(), &is as &dyn Fn(&NetworkConfig) -> bool)))?;
                }
                Ok(())
            });
        }
    }
}

fn env_files(cx: &mut Cx) {
    let items = [("a", "a", true), ("./b", "./b", true), ("{path: a}", "a", true), ("{path: a, required: true}", "a", true), ("{path: a, required: false}", "a", false), ("{required: false, path: c}", "c", false)];
    let bad = ["{}", "{required: false}", "[a]", "{path: a, path2: b}", "{path: [a]}"];
    for (t, p, _) in &items[..2] {
        cx.case("environment files are one path or a list", t, || {
            let e: EnvFile = serde_yaml::from_str(t).map_err(|e| e.to_string())?;
            eq("value", &e, &EnvFile::Single(PathBuf::from(p)))?;
            eq("written back", serde_yaml::to_value(&e).unwrap(), Y::from(*p))?;
            eq("as_single", e.as_single(), Some(&PathBuf::from(p)))?;
            eq("into_list", e.into_list(), vec![ShortOrLong::Short(PathBuf::from(p))])
        });
    }
    for t in items[2..].iter().map(|i| i.0).chain(bad).chain(["{a: b}", "true", "1", "null"]) {
        if t == "[a]" {
            continue;
        }
        cx.case("environment files are one path or a list", t, || match serde_yaml::from_str::<EnvFile>(t) {
            Ok(v) => Err(format!("accepted as {v:?}")),
            Err(_) => Ok(()),
        });
    }
    for _ in 0..300 * cx.effort {
        let n = cx.below(4);
        let with_bad = cx.chance(1, 5);
        let mut texts = vec![];
        let mut want = vec![];
        let mut ok = true;
        for _ in 0..n {
            if with_bad && cx.chance(1, 3) {
                let b = bad[cx.below(bad.len())];
                // unknown keys of an entry are not looked at
                ok &= b == "{path: a, path2: b}";
                texts.push(b);
                want.push(("a", true, true));
            } else {
                let (t, p, r) = items[cx.below(items.len())];
                texts.push(t);
                want.push((p, r, t.starts_with('{')));
            }
        }
        let t = format!("[{}]", texts.join(", "));
        cx.case("environment files are one path or a list", &t, || {
            let r: Result<EnvFile, _> = serde_yaml::from_str(&t);
            if !ok {
                return ensure(r.is_err(), || "accepted".into());
            }
            let e = r.map_err(|e| e.to_string())?;
            let EnvFile::List(l) = &e else { return Err("not a list".into()) };
            eq("items", l.len(), want.len())?;
            for (i, w) in l.iter().zip(&want) {
                match i {
                    ShortOrLong::Short(p) => eq("short", (p, true, false), (&PathBuf::from(w.0), w.1, w.2))?,
                    ShortOrLong::Long(c) => eq("long", (&c.path, c.required, true), (&PathBuf::from(w.0), w.1, w.2))?,
                }
            }
            let single = (l.len() == 1 && want[0].1).then(|| PathBuf::from(want[0].0));
            eq("as_single", e.as_single(), single.as_ref())?;
            let back = serde_yaml::to_value(&e).unwrap();
            let canon: Vec<Y> = want.iter().map(|(p, r, long)| match (long, r) {
                (false, _) => Y::from(*p),
                (true, true) => map(&vec![("path", p)]),
                (true, false) => map(&vec![("path", p), ("required", "false")]),
            }).collect();
            eq("written back", &back, &Y::Sequence(canon))?;
            eq("read back", &serde_yaml::from_value::<EnvFile>(back).map_err(|e| e.to_string())?, &e)
        });
    }
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    Cmd(Vec<String>),
    Shell(String),
    None,
    Bad,
}

fn healthcheck(cx: &mut Cx) {
    let owned = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let tests: Vec<(&str, T)> = vec![
        ("[CMD]", T::Cmd(vec![])),
        ("[CMD, a]", T::Cmd(owned(&["a"]))),
        ("[CMD, a, \"1\", NONE]", T::Cmd(owned(&["a", "1", "NONE"]))),
        ("[CMD-SHELL, a b]", T::Shell("a b".into())),
        ("curl", T::Shell("curl".into())),
        ("NONE", T::Shell("NONE".into())),
        ("\"\"", T::Shell(String::new())),
        ("[NONE]", T::None),
        ("[]", T::Bad),
        ("[CMD-SHELL]", T::Bad),
        ("[CMD-SHELL, a, b]", T::Bad),
        ("[NONE, a]", T::Bad),
        ("[a]", T::Bad),
        ("[cmd, a]", T::Bad),
        ("[[CMD]]", T::Bad),
        ("{CMD: a}", T::Bad),
    ];
    let times = ["interval", "timeout", "start_period", "start_interval"];
    let one = |cx: &mut Cx, d: Doc, test: Option<&T>| {
        cx.case("a healthcheck is a command or disabled", &text(&d), || {
            let has = |k: &str| d.iter().find(|(a, _)| *a == k).map(|(_, v)| *v);
            let dup = (0..d.len()).any(|i| (0..i).any(|j| d[i].0 == d[j].0));
            let disable = has("disable").map(|v| v == "true");
            let none = test == Some(&T::None);
            let off = disable == Some(true) || none;
            let rest: Doc = d.iter().copied().filter(|(k, _)| *k != "disable" && !(none && *k == "test")).collect();
            let ok = !dup && test != Some(&T::Bad) && !(none && disable.is_some()) && (!off || rest.is_empty());
            if !ok {
                return read::<Healthcheck>(&d, None);
            }
            if off {
                return read::<Healthcheck>(&d, Some((vec![("disable", "true")], &|h| *h == Healthcheck::Disable)));
            }
            let secs = |k: &str| has(k).map(|v| Duration::from_secs(v.trim_end_matches('s').parse().unwrap()));
            let mut want = Command {
                test: match test {
                    Some(T::Cmd(v)) => Some(Test::Command(v.clone())),
                    Some(T::Shell(s)) => Some(Test::ShellCommand(s.clone())),
                    _ => None,
                },
                interval: secs("interval"),
                timeout: secs("timeout"),
                retries: has("retries").map(|v| v.parse().unwrap()),
                start_period: secs("start_period"),
                start_interval: secs("start_interval"),
                ..Command::default()
            };
            for (k, v) in d.iter().filter(|(k, _)| k.starts_with("x-")) {
                want.extensions.insert(k.parse().unwrap(), serde_yaml::from_str(v).unwrap());
            }
            let shell = match test {
                Some(T::Shell(s)) => serde_json::to_string(s).unwrap(),
                _ => String::new(),
            };
            let back: Doc = rest.iter().map(|(k, v)| if *k == "test" && !shell.is_empty() { ("test", shell.as_str()) } else { (*k, *v) }).collect();
            read::<Healthcheck>(&d, Some((back, &|h| *h == Healthcheck::Command(want.clone()))))
        });
    };
    // a key given twice is one too many
    let all = [("test", "[CMD, a]"), ("interval", "3s"), ("timeout", "4s"), ("retries", "0"), ("start_period", "0s"), ("start_interval", "5s"), ("x-e", "1"), ("x-f", "null"), ("disable", "false"), ("disable", "true")];
    for a in all {
        for b in all {
            for d in [vec![a, a], vec![b, a, a], vec![a, b, a], vec![a, a, b]] {
                cx.case("a healthcheck with a key twice is an error", &text(&d), || read::<Healthcheck>(&d, None));
            }
        }
    }
    for dis in [None, Some("true"), Some("false")] {
        for (t, k) in tests.iter().map(|(t, k)| (Some(*t), Some(k))).chain([(None, None)]) {
            let mut keys = vec![("interval", "3s"), ("retries", "2"), ("x-e", "1")];
            if let Some(t) = t {
                keys.insert(0, ("test", t));
            }
            if let Some(v) = dis {
                keys.insert(0, ("disable", v));
            }
            for d in orders(&keys) {
                let has_test = d.iter().any(|(k, _)| *k == "test");
                one(cx, d, if has_test { k } else { None });
            }
            for x in times.iter().map(|t| (*t, "1s")).chain([("retries", "0"), ("interval", "0s")]) {
                let mut d = keys[..keys.len() - 3].to_vec();
                d.push(x);
                one(cx, d.clone(), k);
                d.reverse();
                one(cx, d.clone(), k);
                d.push(x);
                one(cx, d, k);
            }
            // the same key twice
            if let (Some(t), Some(k)) = (t, k) {
                let d = vec![("test", t), ("test", t)];
                one(cx, d, Some(k));
            }
        }
    }
    for _ in 0..2000 * cx.effort {
        let mut keys: Doc = vec![];
        let i = cx.below(tests.len());
        if cx.chance(2, 3) {
            keys.push(("test", tests[i].0));
        }
        if cx.chance(1, 4) {
            keys.push(("disable", if cx.chance(1, 2) { "true" } else { "false" }));
        }
        for t in times {
            if cx.chance(1, 3) {
                keys.push((t, ["1s", "0s", "59s"][cx.below(3)]));
            }
        }
        if cx.chance(1, 3) {
            keys.push(("retries", ["0", "1", "18446744073709551615"][cx.below(3)]));
        }
        for x in ["x-a", "x-b"] {
            if cx.chance(1, 4) {
                keys.push((x, ["1", "{a: [b]}"][cx.below(2)]));
            }
        }
        for k in (1..keys.len()).rev() {
            let j = cx.below(k + 1);
            keys.swap(k, j);
        }
        let has = keys.iter().any(|(k, _)| *k == "test");
        one(cx, keys, has.then(|| &tests[i].1));
    }
}

fn resource<T: DeserializeOwned + Serialize + PartialEq + Debug>(cx: &mut Cx, kind: &str, keys: &[(&'static str, &'static str)]) {
    // a key given twice is one too many
    let all: Doc = [("external", "true"), ("external", "false"), ("name", "n")].into_iter().chain(keys.iter().copied()).collect();
    for &a in &all {
        for &b in all.iter().filter(|b| b.0 == a.0) {
            for d in [vec![a, b], vec![a, keys[0], b], vec![a, ("external", "true"), b], vec![("external", "false"), a, b]] {
                if (0..d.len()).any(|i| (0..i).any(|j| d[i].0 == d[j].0)) {
                    cx.case(&format!("a {kind} with a key twice is an error"), &text(&d), || read::<Resource<T>>(&d, None));
                }
            }
        }
    }
    // extensions keep their order
    for mut d in [vec![keys[0]], vec![("external", "false"), keys[0]], vec![keys[0], ("external", "false")]] {
        d.extend((0..9).map(|i| (["x-q", "x-b", "x-z", "x-a", "x-y", "x-k", "x-c", "x-p", "x-d"][i], "1")));
        cx.case(&format!("a {kind} keeps the order of its extensions"), &text(&d), || {
            let r: Resource<T> = serde_yaml::from_str(&text(&d)).map_err(|e| e.to_string())?;
            let Y::Mapping(m) = serde_yaml::to_value(&r).map_err(|e| e.to_string())? else { return Err("not a map".into()) };
            let got: Vec<&str> = m.keys().filter_map(Y::as_str).filter(|k| k.starts_with("x-")).collect();
            let want: Vec<&str> = d.iter().map(|(k, _)| *k).filter(|k| k.starts_with("x-")).collect();
            eq("extensions", got, want)
        });
    }
    for ext in [None, Some("true"), Some("false"), Some("1"), Some("maybe"), Some("null")] {
        let mut k = vec![("name", "n")];
        if let Some(e) = ext {
            k.insert(0, ("external", e));
        }
        k.extend(keys);
        for d in orders(&k) {
            let ext = if d.iter().any(|(k, _)| *k == "external") { ext } else { None };
            cx.case(&format!("a {kind} is external or has its own settings"), &text(&d), || {
                let rest: Doc = d.iter().copied().filter(|(k, _)| *k != "external").collect();
                match ext {
                    Some("true") => {
                        let ok = rest.iter().all(|(k, _)| *k == "name");
                        let name = (!rest.is_empty()).then(|| "n".to_string());
                        let mut back = vec![("external", "true")];
                        back.extend(&rest);
                        let is = |r: &Resource<T>| *r == Resource::External { name: name.clone() };
                        read::<Resource<T>>(&d, ok.then(|| (back, &is as &dyn Fn(&Resource<T>) -> bool)))
                    }
                    None | Some("false") => match serde_yaml::from_value::<T>(map(&rest)) {
                        Err(_) => read::<Resource<T>>(&d, None),
                        Ok(v) => {
                            let b = Resource::Compose(v);
                            read::<Resource<T>>(&d, Some((rest.clone(), &|r| *r == b)))
                        }
                    },
                    _ => read::<Resource<T>>(&d, None),
                }
            });
        }
    }
}

pub fn run(cx: &mut Cx) {
    sources(cx);
    networks(cx);
    env_files(cx);
    healthcheck(cx);
    resource::<Network>(cx, "network", &[("driver", "bridge"), ("x-e", "1")]);
    resource::<Volume>(cx, "volume", &[("driver", "local"), ("labels", "{a: b}")]);
    resource::<Config>(cx, "config", &[("file", "a"), ("content", "b")]);
    resource::<Secret>(cx, "secret", &[("file", "a"), ("driver", "b")]);
}
