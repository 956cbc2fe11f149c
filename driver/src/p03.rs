//! Validated keys and names.
use crate::core::*;
use compose_spec::service::build::CacheOption;
use compose_spec::service::{user, Hostname, Resource as Ulimit};
use compose_spec::{ExtensionKey, Identifier, MapKey, Name};
use std::borrow::{Borrow, Cow};

fn az09(c: char) -> bool {
    matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9')
}
pub fn identifier(s: &str) -> bool {
    s.chars().next().is_some_and(az09) && s.chars().all(|c| az09(c) || ".-_".contains(c))
}
pub fn map_key(s: &str) -> bool {
    !s.is_empty() && !s.contains('\n')
}
pub fn extension(s: &str) -> bool {
    s.get(..2) == Some("x-") && !s.contains('\n')
}
fn name(s: &str) -> bool {
    let start = |c: char| matches!(c, 'a'..='z' | '0'..='9');
    s.chars().next().is_some_and(start) && s.chars().all(|c| start(c) || c == '_' || c == '-')
}
pub fn hostname(s: &str) -> bool {
    s.split('.').all(|l| {
        !l.is_empty() && l.chars().all(|c| az09(c) || c == '-') && !l.starts_with('-') && !l.ends_with('-')
    })
}
pub fn user_name(s: &str) -> bool {
    let n = s.chars().count();
    let body = s.strip_suffix('$').unwrap_or(s);
    n > 0
        && n <= 32
        && body.chars().all(|c| az09(c) || c == '_' || c == '-')
        && !s.starts_with('-')
        && !s.chars().all(|c| c.is_ascii_digit())
}
pub fn resource(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase())
}
pub fn option(s: &str) -> bool {
    !s.is_empty() && !s.chars().any(char::is_whitespace)
}

macro_rules! checks {
    ($($f:ident: $T:ty, $ok:ident;)*) => {$(
        fn $f(cx: &mut Cx, s: &str) {
            cx.case(concat!(stringify!($f), " accepts exactly its grammar and keeps the text"), s, || {
                let want = $ok(s).then(|| s.to_owned());
                let text = |v: Result<$T, _>| v.ok().map(|v: $T| v.as_str().to_owned());
                eq("new(&str)", <$T>::new(s).ok().map(|v| v.as_str().to_owned()), want.clone())?;
                eq("parse", text(s.parse()), want.clone())?;
                eq("new(String)", text(<$T>::new(s.to_owned())), want.clone())?;
                eq("try_from(&str)", text(<$T>::try_from(s)), want.clone())?;
                eq("try_from(String)", text(<$T>::try_from(s.to_owned())), want.clone())?;
                eq("try_from(Box<str>)", text(<$T>::try_from(Box::<str>::from(s))), want.clone())?;
                let y = serde_yaml::from_value::<$T>(serde_yaml::Value::String(s.to_owned()));
                eq("from a document", y.ok().map(|v| v.as_str().to_owned()), want.clone())?;
                if let Ok(v) = <$T>::new(s) {
                    eq("as_ref", AsRef::<str>::as_ref(&v), s)?;
                    eq("Display", v.to_string(), s.to_owned())?;
                    eq("in a document", serde_yaml::to_value(&v).ok(), Some(serde_yaml::Value::String(s.to_owned())))?;
                    eq("into String", String::from(v.clone()), s.to_owned())?;
                    eq("into Box<str>", &*Box::<str>::from(v.clone()), s)?;
                }
                Ok(())
            });
        }
    )*};
}
checks! {
    identifier_t: Identifier, identifier;
    map_key_t: MapKey, map_key;
    extension_t: ExtensionKey, extension;
    name_t: Name, name;
    hostname_t: Hostname, hostname;
    user_t: user::Name, user_name;
    resource_t: Ulimit, resource;
    option_t: CacheOption, option;
}
macro_rules! lookups {
    ($($f:ident: $T:ty;)*) => {$(
        fn $f(cx: &mut Cx, s: &str, o: &str) {
            cx.case("key looks up like its text", s, || {
                let (Ok(k), Ok(j)) = (<$T>::new(s), <$T>::new(o)) else { return Ok(()) };
                eq("borrow", Borrow::<str>::borrow(&k), s)?;
                eq("eq str", k == *s, true)?;
                eq("eq &str", k == s, true)?;
                eq("eq other str", k == *o, s == o)?;
                eq("eq other &str", k == o, s == o)?;
                eq("eq key", k == j, s == o)?;
                eq("order", k.cmp(&j), s.cmp(o))?;
                eq("cow", <$T>::try_from(Cow::Borrowed(s)).ok(), Some(k.clone()))?;
                eq("owned cow", <$T>::try_from(Cow::<str>::Owned(s.to_owned())).ok(), Some(k.clone()))?;
                let m: std::collections::HashMap<$T, u8> = [(k.clone(), 1), (j, 2)].into();
                eq("map lookup", m.get(s).copied(), Some(if s == o { 2 } else { 1 }))
            });
        }
    )*};
}
lookups! { l_identifier: Identifier; l_map_key: MapKey; l_extension: ExtensionKey; l_hostname: Hostname; l_user: user::Name; l_resource: Ulimit; l_option: CacheOption; }

fn all(cx: &mut Cx, s: &str) {
    identifier_t(cx, s);
    map_key_t(cx, s);
    extension_t(cx, s);
    name_t(cx, s);
    hostname_t(cx, s);
    user_t(cx, s);
    resource_t(cx, s);
    option_t(cx, s);
    let o = format!("x-{s}1");
    for (a, b) in [(s, s), (s, o.as_str()), (o.as_str(), s)] {
        l_identifier(cx, a, b);
        l_map_key(cx, a, b);
        l_extension(cx, a, b);
        l_hostname(cx, a, b);
        l_user(cx, a, b);
        l_resource(cx, a, b);
        l_option(cx, a, b);
    }
    for t in [s.to_owned(), format!("x-{s}")] {
        cx.case("extension key without its prefix", &t, || {
            match ExtensionKey::new(t.as_str()) {
                Ok(k) => eq("strip_prefix", k.strip_prefix(), &t[2..]),
                Err(_) => Ok(()),
            }
        });
    }
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    // every ASCII character and some others, alone and in first, middle, last position
    let mut cs: Vec<char> = (0u8..128).map(char::from).collect();
    cs.extend(['\u{80}', '\u{85}', '\u{a0}', 'é', 'ß', '²', '½', '٣', 'Ａ', '１', 'ſ', 'K', '\u{1680}', '\u{2003}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{3000}', '\u{feff}', '😀', '\u{10ffff}']);
    for c in cs {
        for t in [format!("{c}"), format!("a{c}"), format!("{c}a"), format!("a{c}b"), format!("x-{c}"), format!("x{c}"), format!("{c}-"), format!("1{c}"), format!("1{c}2"), format!("{c}{c}")] {
            all(cx, &t);
        }
    }
    let toks = ["a", "Z", "0", ".", "-", "_", "$", "x-", "\n", " ", "é"];
    cx.all(&toks, 3, all);
    cx.random(&toks, 8, 4_000 * e, all);
    // lengths around the user name limit
    for n in 28..40 {
        for t in ["a", "0", "Z", "_", "é"] {
            for end in ["", "$", "-", "a", "0", "é"] {
                let s = format!("{}{end}", t.repeat(n));
                user_t(cx, &s);
                identifier_t(cx, &s);
                hostname_t(cx, &s);
            }
        }
    }
    for n in [60, 62, 63, 64, 65, 250, 253, 254, 255, 256, 300] {
        for s in ["a".repeat(n), format!("{}.b", "a".repeat(n)), "a.".repeat(n) + "b"] {
            all(cx, &s);
        }
    }
}
