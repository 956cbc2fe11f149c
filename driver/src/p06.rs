//! Port ranges: bounds, sizes, texts.
use crate::core::*;
use compose_spec::service::Expose;
use compose_spec::service::ports::{Protocol, Range};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn port(s: &str) -> Option<u16> {
    uint(s, 65535).map(|n| n as u16)
}
/// first and last port of a range text
pub fn range(s: &str) -> Option<(u16, u16)> {
    if let Some(p) = port(s) {
        return Some((p, p));
    }
    let cuts: Vec<(u16, u16)> =
        s.match_indices('-').filter_map(|(i, _)| Some((port(&s[..i])?, port(&s[i + 1..])?))).collect();
    match cuts[..] {
        [(a, b)] if a <= b => Some((a, b)),
        _ => None,
    }
}
pub fn bounds(r: Range) -> (u16, u16) {
    (r.start(), r.end().unwrap_or(r.start()))
}
pub fn text((a, b): (u16, u16)) -> String {
    if a == b {
        a.to_string()
    } else {
        format!("{a}-{b}")
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// everything a range reports about itself
pub fn holds(r: Range, (a, b): (u16, u16)) -> R {
    eq("start", r.start(), a)?;
    eq("end", r.end(), (a != b).then_some(b))?;
    let n = usize::from(b) - usize::from(a) + 1;
    eq("size", r.size() as usize, n)?;
    let it = r.into_iter();
    eq("iteration length", it.clone().count(), n)?;
    eq("first", it.clone().next(), Some(a))?;
    eq("last", it.clone().last(), Some(b))?;
    ensure(it.eq(a..=b), || "iteration differs from the bounds".into())?;
    eq("text", r.to_string(), text((a, b)))?;
    eq("parse of text", r.to_string().parse::<Range>().ok(), Some(r))?;
    eq("== inclusive range", r == (a..=b), true)?;
    eq("== wider range", r == (a.saturating_sub(1)..=b), a == 0)?;
    eq("== longer range", r == (a..=b.saturating_add(1)), b == u16::MAX)?;
    eq("== number", r == a, a == b)?;
    eq("== last", r == b, a == b)?;
    eq("== other number", r == a.wrapping_add(1), false)?;
    let y = serde_yaml::to_value(r).map_err(|e| e.to_string())?;
    if a == b {
        eq("document form", &y, &serde_yaml::Value::from(a))?;
    } else {
        eq("document form", &y, &serde_yaml::Value::from(text((a, b))))?;
    }
    eq("through a document", serde_yaml::from_value::<Range>(y).ok(), Some(r))
}

fn check(cx: &mut Cx, s: &str) {
    cx.case("parse accepts exactly a port or an ordered pair", s, || {
        let want = range(s);
        let got = s.parse::<Range>().ok();
        eq("bounds", got.map(bounds), want)?;
        eq("try_from", Range::try_from(s).ok(), got)?;
        let d = serde_yaml::from_value::<Range>(serde_yaml::Value::String(s.to_owned())).ok();
        eq("document string", d, got)?;
        match (got, want) {
            (Some(r), Some(w)) => holds(r, w),
            _ => Ok(()),
        }
    });
    cx.case("expose text is a range with an optional protocol", s, || {
        let (r, p) = match s.find('/') {
            Some(i) => (&s[..i], Some(&s[i + 1..])),
            None => (s, None),
        };
        let want = range(r);
        let got = s.parse::<Expose>().ok();
        eq("try_from", Expose::try_from(s).ok(), got.clone())?;
        eq("bounds", got.as_ref().map(|e| bounds(e.range)), want)?;
        if let Some(e) = got {
            eq("protocol", e.protocol.as_ref().map(Protocol::as_str), p)?;
            eq("protocol value", e.protocol.clone(), p.map(Protocol::parse))?;
            let t = text(want.unwrap()) + &p.map(|p| format!("/{p}")).unwrap_or_default();
            eq("text", e.to_string(), t.clone())?;
            eq("parse of text", e.to_string().parse::<Expose>().ok(), Some(e.clone()))?;
            let y = serde_yaml::to_value(&e).map_err(|e| e.to_string())?;
            let (a, b) = want.unwrap();
            let w = if a == b && p.is_none() { serde_yaml::Value::from(a) } else { serde_yaml::Value::from(t) };
            eq("document form", &y, &w)?;
            eq("through a document", serde_yaml::from_value::<Expose>(y).ok(), Some(e))?;
        }
        Ok(())
    });
}

fn pair(cx: &mut Cx, a: u16, b: u16, k: u16) {
    cx.case("construction orders the bounds", &format!("{a} {b}"), || {
        let want = (a <= b).then_some((a, b));
        let r = Range::new(a, Some(b)).ok();
        eq("bounds", r.map(bounds), want)?;
        eq("try_from pair", Range::try_from((a, b)).ok(), r)?;
        eq("try_from option pair", Range::try_from((a, Some(b))).ok(), r)?;
        eq("try_from inclusive", Range::try_from(a..=b).ok(), r)?;
        match r {
            Some(r) => holds(r, (a, b)),
            None => Ok(()),
        }
    });
    cx.case("single ports", &format!("{a}"), || {
        let r = Range::from(a);
        holds(r, (a, a))?;
        eq("new", Range::new(a, None).ok(), Some(r))?;
        eq("try_from", Range::try_from((a, None)).ok(), Some(r))?;
        eq("new equal", Range::new(a, Some(a)).ok(), Some(r))?;
        eq("hash", hash(&Range::new(a, Some(a)).unwrap()), hash(&r))?;
        eq("expose from number", Expose::from(a), Expose { range: r, protocol: None })?;
        eq("expose from range", Expose::from(r), Expose { range: r, protocol: None })?;
        eq("number in a document", serde_yaml::from_str::<Range>(&a.to_string()).ok(), Some(r))?;
        eq("expose number in a document", serde_yaml::from_str::<Expose>(&a.to_string()).ok(), Some(r.into()))
    });
    if a <= b {
        cx.case("shifting moves both bounds", &format!("{a} {b} {k}"), || {
            let r = Range::new(a, Some(b)).map_err(|e| e.to_string())?;
            if u32::from(b) + u32::from(k) <= 65535 {
                holds(r + k, (a + k, b + k))?;
                let mut q = r;
                q += k;
                eq("+=", q, r + k)?;
            }
            if k <= a {
                holds(r - k, (a - k, b - k))?;
                let mut q = r;
                q -= k;
                eq("-=", q, r - k)?;
            }
            Ok(())
        });
    }
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    cx.all(&["0", "1", "5", "-", "+", "/", " ", ":", "t"], if e > 1 { 6 } else { 5 }, check);
    let toks = ["0", "1", "9", "80", "8080", "65535", "65536", "65534", "065535", "-", "--", "+", "/", "/tcp", "/udp", "/TCP", "tcp", " ", "é", "131072", "18446744073709551616"];
    cx.all(&toks, 3, check);
    cx.random(&toks, 7, 20_000 * e, check);
    let base = ["80", "1-2", "0-65535", "65535-65535", "8000-8010", "80/tcp", "1-2/x", "2-1", "3-3"];
    cx.mutate(&base, &["0", "1", "5", "6", "-", "/", "+", "tcp", "udp"], 20_000 * e, check);
    for s in ["-1", "65536", "1.5", "true", "~", "[1]", "4294967376"] {
        cx.case("other document values are errors", s, || {
            ensure(serde_yaml::from_str::<Range>(s).is_err(), || "range accepted".into())?;
            ensure(serde_yaml::from_str::<Expose>(s).is_err(), || "expose accepted".into())
        });
    }
    let edges: [u16; 10] = [0, 1, 2, 79, 80, 255, 256, 32768, 65534, 65535];
    for a in edges {
        for b in edges {
            for k in [0, 1, 7, 65535] {
                pair(cx, a, b, k);
            }
        }
    }
    for _ in 0..300 * e {
        let a = cx.next() as u16;
        let b = if cx.chance(1, 2) { cx.next() as u16 } else { a.wrapping_add((cx.next() % 5) as u16) };
        let k = if cx.chance(1, 2) { cx.next() as u16 } else { (cx.next() % 9) as u16 };
        pair(cx, a, b, k);
    }
}
