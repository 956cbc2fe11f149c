//! Image references: an independent reading of the grammar, by enumerating every way of cutting a text.
use crate::core::*;
use compose_spec::service::image::{Digest, Image, Name, Tag};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn low(c: char) -> bool {
    matches!(c, 'a'..='z' | '0'..='9')
}
/// `[a-z0-9]+((\.|_|__|-+)[a-z0-9]+)*`
pub fn part(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    let mut i = 0;
    let word = |i: &mut usize| {
        let s = *i;
        while *i < v.len() && low(v[*i]) {
            *i += 1;
        }
        *i > s
    };
    if !word(&mut i) {
        return false;
    }
    while i < v.len() {
        match v[i] {
            '.' => i += 1,
            '_' => {
                i += 1;
                if i < v.len() && v[i] == '_' {
                    i += 1;
                }
            }
            '-' => {
                while i < v.len() && v[i] == '-' {
                    i += 1;
                }
            }
            _ => return false,
        }
        if !word(&mut i) {
            return false;
        }
    }
    true
}
pub fn tag(s: &str) -> bool {
    !s.is_empty() && s.len() <= 128 && s.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c))
}
pub fn digest(s: &str) -> bool {
    let Some((a, e)) = s.split_once(':') else { return false };
    a.split(['+', '.', '_', '-']).all(|p| !p.is_empty() && p.chars().all(low))
        && !e.is_empty()
        && e.chars().all(|c| c.is_ascii_alphanumeric() || "=_-".contains(c))
}
/// `Some(registry)` of a valid name
pub fn name(s: &str) -> Option<Option<&str>> {
    let mut it = s.split('/');
    let first = it.next()?;
    if !it.all(part) {
        return None;
    }
    if !first.contains('.') {
        return part(first).then_some(None);
    }
    let host = match first.split_once(':') {
        Some((h, p)) => {
            uint(p, 65535)?;
            h
        }
        None => first,
    };
    part(host).then_some(Some(first))
}
pub type Parts<'a> = (Option<&'a str>, &'a str, Option<&'a str>, Option<&'a str>);
/// (registry, name, tag, digest) of an image text
pub fn image(s: &str) -> Option<Parts<'_>> {
    let mut found: Vec<Parts<'_>> = Vec::new();
    let bare = |n: &str| match n.rfind(':') {
        Some(i) => n[i..].contains('/'),
        None => true,
    };
    for (i, c) in s.char_indices() {
        let (n, rest) = (&s[..i], &s[i + c.len_utf8()..]);
        let Some(reg) = name(n) else { continue };
        if c == ':' && tag(rest) {
            found.push((reg, n, Some(rest), None));
        }
        if c == '@' && digest(rest) && bare(n) {
            found.push((reg, n, None, Some(rest)));
        }
    }
    if bare(s) {
        if let Some(reg) = name(s) {
            found.push((reg, s, None, None));
        }
    }
    assert!(found.len() < 2, "the grammar is ambiguous for {s:?}: {found:?}");
    found.pop()
}
pub fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// everything an image reports about itself
pub fn report(i: &Image) -> Parts<'_> {
    (i.registry(), i.name(), i.tag(), i.digest())
}
/// every accessor agrees with `want`, the parts of `text`
pub fn agrees(i: &Image, text: &str, want: Parts<'_>) -> R {
    eq("as_str", i.as_str(), text)?;
    eq("(registry, name, tag, digest)", report(i), want)?;
    eq("Display", i.to_string(), text.to_owned())?;
    eq("as_ref", AsRef::<str>::as_ref(i), text)?;
    eq("borrow", Borrow::<str>::borrow(i), text)?;
    eq("hash", hash(i), hash(text))?;
    ensure(*i == *text && *i == text, || "is not equal to its text".into())?;
    eq("as_name", (i.as_name().into_inner().to_owned(), i.as_name().registry().map(str::to_owned)), (want.1.to_owned(), want.0.map(str::to_owned)))?;
    eq("as_tag", i.as_tag().map(|t| t.into_inner().to_owned()), want.2.map(str::to_owned))?;
    eq("as_digest", i.as_digest().map(|t| t.into_inner().to_owned()), want.3.map(str::to_owned))?;
    let tod = i.as_tag_or_digest();
    eq("as_tag_or_digest", tod.map(|t| t.as_ref().to_owned()), want.2.or(want.3).map(str::to_owned))?;
    if let Some(t) = tod {
        eq("separator", t.separator(), if want.2.is_some() { ':' } else { '@' })?;
        eq("into_tag", t.into_tag().map(|t| t.into_inner().to_owned()), want.2.map(str::to_owned))?;
        eq("into_digest", t.into_digest().map(|t| t.into_inner().to_owned()), want.3.map(str::to_owned))?;
    }
    let (n, t) = i.as_parts();
    eq("as_parts", (n.into_inner().to_owned(), t.map(|t| t.as_ref().to_owned())), (want.1.to_owned(), want.2.or(want.3).map(str::to_owned)))
}
fn check(cx: &mut Cx, s: &str) {
    cx.case("an image is accepted exactly per grammar and decomposed exactly", s, || {
        let want = image(s);
        let got = Image::parse(s);
        eq("accepted", got.is_ok(), want.is_some())?;
        eq("from_str", s.parse::<Image>().ok(), got.clone().ok())?;
        eq("try_from(&str)", Image::try_from(s).ok(), got.clone().ok())?;
        eq("try_from(String)", Image::try_from(s.to_owned()).ok(), got.clone().ok())?;
        let y = serde_yaml::from_value::<Image>(serde_yaml::Value::String(s.to_owned()));
        eq("from a document", y.ok(), got.clone().ok())?;
        let Some(want) = want else { return Ok(()) };
        let i = got.unwrap();
        agrees(&i, s, want)?;
        agrees(&s.parse().unwrap(), s, want)?;
        eq("in a document", serde_yaml::to_value(&i).ok(), Some(serde_yaml::Value::String(s.to_owned())))?;
        eq("into_inner", i.clone().into_inner(), s.to_owned())?;
        eq("into String", String::from(i), s.to_owned())
    });
}
fn check_parts(cx: &mut Cx, s: &str) {
    cx.case("a tag is accepted exactly per grammar", s, || {
        eq("Tag::new", Tag::new(s).map(|t| t.into_inner()).ok(), tag(s).then_some(s))?;
        eq("Tag::try_from", Tag::try_from(s).map(|t| t.to_string()).ok(), tag(s).then(|| s.to_owned()))
    });
    cx.case("a digest is accepted exactly per grammar", s, || {
        eq("Digest::new", Digest::new(s).map(|t| t.into_inner()).ok(), digest(s).then_some(s))?;
        eq("Digest::try_from", Digest::try_from(s).map(|t| t.to_string()).ok(), digest(s).then(|| s.to_owned()))
    });
    cx.case("a name is accepted exactly per grammar, with its registry", s, || {
        let n = Name::new(s);
        eq("Name::new", n.as_ref().ok().map(|n| (n.into_inner(), n.registry())), name(s).map(|r| (s, r)))?;
        eq("Name::try_from", Name::try_from(s).map(|t| t.to_string()).ok(), name(s).map(|_| s.to_owned()))
    });
}
fn order(cx: &mut Cx, a: &str, b: &str) {
    let key = format!("{a} {b}");
    cx.case("images compare and hash as their texts", &key, || {
        let (Ok(x), Ok(y)) = (Image::parse(a), Image::parse(b)) else { return Ok(()) };
        eq("==", x == y, a == b)?;
        eq("cmp", x.cmp(&y), a.cmp(b))?;
        eq("partial_cmp", x.partial_cmp(&y), Some(a.cmp(b)))?;
        eq("== text", x == *b, a == b)?;
        let (n, m) = (x.as_name(), y.as_name());
        eq("name ==", n == m, n.as_ref() == m.as_ref())?;
        eq("name cmp", n.cmp(&m) == Ordering::Equal, n.as_ref() == m.as_ref())?;
        eq("name hash", hash(&n), hash(n.as_ref()))
    });
}
pub const BASE: &[&str] = &[
    "busybox", "quay.io/podman/hello", "quay.io:443/podman/hello:latest", "a.b:1/c", "q.io", "q.io:443", "q.io:443:x",
    "lib/a__b-c.d:v1.2_3-X", "docker.io/library/a@sha256:00ff", "a@s+h:A=_-", "a.b:65535/c/d@x.y:Q", "a--b/c_d:1", "a:b", "a/b:c", "x.y/z.w:1",
];
const TOK: &[&str] = &["a", "b1", "Z", ".", "/", ":", "@", "_", "__", "-", "+", "=", "1", "65535", "65536", "é", " ", "q.io", "sha256", ""];
pub fn run(cx: &mut Cx) {
    let both = |cx: &mut Cx, s: &str| {
        check(cx, s);
        check_parts(cx, s);
    };
    cx.all(&["a", "1", "A", ".", "/", ":", "@", "_", "-", "é"], 4, both);
    cx.all(&["a.b", "c", "/", ":", "@", "9", "_", "-"], 5, both);
    cx.all(&["a", "/", ":", "@", "b.c"], 7, |cx, s| check(cx, s));
    cx.all(&["a", ".", "_", "-"], 7, |cx, s| check_parts(cx, s));
    cx.all(&["a:", ":", "b", "+", ".", "="], 5, |cx, s| check_parts(cx, s));
    for n in [1, 2, 126, 127, 128, 129, 130, 300] {
        for c in ["a", "A", "-", "é", "."] {
            let t = c.repeat(n);
            both(cx, &t);
            both(cx, &format!("x:{t}"));
            both(cx, &format!("x@{t}:{t}"));
            both(cx, &format!("x.y/{t}:{t}"));
        }
    }
    for c in (0u32..0x250).chain([0x2028, 0xFF10, 0xFF21, 0x1F600]).filter_map(char::from_u32) {
        for f in ["C", "aC", "Ca", "aCa", "a:C", "a:bCb", "a@b:C", "a@bCb:c", "a@b:cCc", "aC/b", "a.bC/c", "a.b:1C/c", "C.b/a", "a.b:C/c"] {
            both(cx, &f.replace('C', &c.to_string()));
        }
    }
    for p in ["0", "1", "00443", "65535", "65536", "99999", "-1", "+1", "", "1a", "４"] {
        both(cx, &format!("a.b:{p}/c"));
        both(cx, &format!("a.b:{p}"));
        both(cx, &format!("a.b:{p}:t"));
        both(cx, &format!("ab:{p}/c"));
        both(cx, &format!("a.b:{p}/c@d:e"));
    }
    let n = 40_000 * cx.effort;
    cx.mutate(BASE, TOK, n, both);
    cx.random(TOK, 9, n, both);
    for a in BASE {
        for b in BASE {
            order(cx, a, b);
        }
    }
}
