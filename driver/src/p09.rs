//! Devices and device cgroup rules.
use crate::core::*;
use compose_spec::service::device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions};

type Perm = (bool, bool, bool);
/// any string of the letters `r`, `w`, `m`
fn perms(s: &str) -> Option<Perm> {
    s.bytes().all(|b| b"rwm".contains(&b)).then(|| (s.contains('r'), s.contains('w'), s.contains('m')))
}
fn ptext((r, w, m): Perm) -> String {
    [(r, "r"), (w, "w"), (m, "m")].iter().filter(|(b, _)| *b).map(|(_, c)| *c).collect()
}
fn pview(p: Permissions) -> Perm {
    (p.read, p.write, p.mknod)
}
/// host, container, permissions
fn device(s: &str) -> Option<(&str, &str, Perm)> {
    let i = s.find(':')?;
    let rest = &s[i + 1..];
    let (c, p) = match rest.find(':') {
        Some(j) => (&rest[..j], &rest[j + 1..]),
        None => (rest, ""),
    };
    (c.starts_with('/')).then_some(())?;
    Some((&s[..i], c, perms(p)?))
}
fn num(s: &str) -> Option<Option<u16>> {
    if s.is_empty() || s == "*" {
        return Some(None);
    }
    uint(s, 65535).map(|n| Some(n as u16))
}
type Rule = (char, Option<u16>, Option<u16>, Perm);
fn rule(s: &str) -> Option<Rule> {
    let k = s.chars().next().filter(|c| "acb".contains(*c))?;
    let s = s[1..].strip_prefix(' ')?;
    let (n, p) = match s.find(' ') {
        Some(i) => (&s[..i], &s[i + 1..]),
        None => (s, ""),
    };
    let i = n.find(':')?;
    Some((k, num(&n[..i])?, num(&n[i + 1..])?, perms(p)?))
}
fn nview(n: MajorMinorNumber) -> Option<u16> {
    match n {
        MajorMinorNumber::All => None,
        MajorMinorNumber::Integer(n) => Some(n),
    }
}
fn ntext(n: Option<u16>) -> String {
    n.map_or("*".to_owned(), |n| n.to_string())
}
fn kview(k: Kind) -> char {
    match k {
        Kind::All => 'a',
        Kind::Char => 'c',
        Kind::Block => 'b',
    }
}
fn rtext((k, a, b, p): Rule) -> String {
    let mut t = format!("{k} {}:{}", ntext(a), ntext(b));
    if p != (false, false, false) {
        t += &format!(" {}", ptext(p));
    }
    t
}
fn doc<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T, text: &str) -> R {
    let y = serde_yaml::to_value(v).map_err(|e| e.to_string())?;
    eq("document form", &y, &serde_yaml::Value::from(text))?;
    eq("through a document", serde_yaml::from_value::<T>(y).ok().as_ref(), Some(v))
}

fn check(cx: &mut Cx, s: &str) {
    cx.case("device text is host:container[:permissions]", s, || {
        let want = device(s);
        let got = s.parse::<Device>().ok();
        eq(
            "parts",
            got.as_ref().map(|d| (d.host_path.to_str().unwrap(), d.container_path.as_path().to_str().unwrap(), pview(d.permissions))),
            want,
        )?;
        eq("try_from", &Device::try_from(s).ok(), &got)?;
        if let (Some(d), Some((h, c, p))) = (got, want) {
            let mut t = format!("{h}:{c}");
            if p != (false, false, false) {
                t += &format!(":{}", ptext(p));
            }
            eq("text", &d.to_string(), &t)?;
            eq("parse of text", t.parse::<Device>().ok().as_ref(), Some(&d))?;
            doc(&d, &t)?;
        }
        Ok(())
    });
    cx.case("cgroup rule text is type major:minor [permissions]", s, || {
        let want = rule(s);
        let got = s.parse::<CgroupRule>().ok();
        eq("parts", got.map(|r| (kview(r.kind), nview(r.major), nview(r.minor), pview(r.permissions))), want)?;
        eq("try_from", CgroupRule::try_from(s).ok(), got)?;
        if let (Some(r), Some(w)) = (got, want) {
            let t = rtext(w);
            eq("text", &r.to_string(), &t)?;
            eq("parse of text", t.parse::<CgroupRule>().ok(), Some(r))?;
            doc(&r, &t)?;
        }
        Ok(())
    });
    cx.case("permission letters", s, || {
        let got = s.parse::<Permissions>().ok();
        eq("letters", got.map(pview), perms(s))?;
        eq("try_from", Permissions::try_from(s).ok(), got)?;
        if let Some(p) = got {
            eq("any", p.any(), pview(p) != (false, false, false))?;
            eq("text", p.to_string(), ptext(pview(p)))?;
            eq("parse of text", p.to_string().parse().ok(), Some(p))?;
        }
        Ok(())
    });
    cx.case("device kinds", s, || {
        let want = ["a", "c", "b"].contains(&s).then(|| s.chars().next().unwrap());
        let got = s.parse::<Kind>().ok();
        eq("kind", got.map(kview), want)?;
        eq("try_from", Kind::try_from(s).ok(), got)?;
        if let Some(k) = got {
            eq("char", k.as_char(), kview(k))?;
            eq("into char", char::from(k), kview(k))?;
            eq("text", k.to_string(), s.to_owned())?;
        }
        if let Some(c) = s.chars().next() {
            eq("from char", Kind::try_from(c).ok().map(kview), "acb".contains(c).then_some(c))?;
        }
        Ok(())
    });
    cx.case("device numbers", s, || {
        let got = s.parse::<MajorMinorNumber>().ok();
        eq("number", got.map(nview), num(s))?;
        eq("try_from", MajorMinorNumber::try_from(s).ok(), got)?;
        if let Some(n) = got {
            eq("text", n.to_string(), ntext(nview(n)))?;
            eq("parse of text", n.to_string().parse().ok(), Some(n))?;
            let v = nview(n);
            eq("== number", n == v.unwrap_or(0), v.is_some())?;
            eq("== other", n == v.unwrap_or(0).wrapping_add(1), false)?;
            if let Some(v) = v {
                eq("from number", MajorMinorNumber::from(v), n)?;
            }
        }
        Ok(())
    });
}
pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    eq("all", pview(Permissions::all()), (true, true, true)).unwrap();
    eq("default", pview(Permissions::default()), (false, false, false)).unwrap();
    cx.all(&["a", "c", "b", "/", ":", " ", "*", "1", "r", "w", "m", "+"], if e > 1 { 5 } else { 4 }, check);
    let toks = ["/dev/x", "dev", "/", "/c/d", ":", ":", ":", "r", "w", "m", "rwm", "mwr", "rr", "R", "a", "c", "b", " ", " ", "*", "7", "65535", "65536", "é", "-1", "x"];
    cx.all(&toks, 3, check);
    cx.random(&toks, 9, 60_000 * e, check);
    let base = ["/dev/a:/dev/b", "/dev/a:/dev/b:rwm", ":/c", "a:/c:", "/dev/a:/dev/b:m", "a *:* rwm", "c 1:3 r", "b 65535:0", "a 7: w", "c :8 ", "b 1:2 mr"];
    cx.mutate(&base, &["a", "c", "b", "/", ":", " ", "*", "1", "6", "r", "w", "m", "x"], 40_000 * e, check);
    for p in 0..8u8 {
        for k in ["a", "b", "c"] {
            for a in [None, Some(0u16), Some(65535), Some(7)] {
                for b in [None, Some(0u16), Some(65535), Some(7)] {
                    let s = rtext((k.chars().next().unwrap(), a, b, (p & 1 != 0, p & 2 != 0, p & 4 != 0)));
                    check(cx, &s);
                }
            }
        }
    }
}
