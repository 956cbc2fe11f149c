//! Short and long port syntax.
use crate::core::*;
use crate::p06::{bounds, holds, range, text};
use compose_spec::service::ports::{self, Mode, Port, Ports, Protocol, Range, ShortPort, ShortRanges};
use compose_spec::ShortOrLong;
use std::net::IpAddr;

type P = (u16, u16);
/// ([host], container) bounds of `[[host]:]container`
fn ranges(s: &str) -> Option<(Option<P>, P)> {
    if !s.contains(':') {
        return Some((None, range(s)?));
    }
    if s.matches(':').count() != 1 {
        return None;
    }
    let i = s.find(':').unwrap();
    let (h, c) = (&s[..i], range(&s[i + 1..])?);
    if h.is_empty() {
        return Some((None, c));
    }
    let h = range(h)?;
    (h.1 - h.0 == c.1 - c.0).then_some((Some(h), c))
}
type Sp = (Option<IpAddr>, Option<P>, P, Option<String>);
fn short(s: &str) -> Option<Sp> {
    let (b, p) = match s.find('/') {
        Some(i) => (&s[..i], Some(s[i + 1..].to_owned())),
        None => (s, None),
    };
    let colons: Vec<usize> = b.match_indices(':').map(|(i, _)| i).collect();
    if colons.len() < 2 {
        let (h, c) = ranges(b)?;
        return Some((None, h, c, p));
    }
    let i = colons[colons.len() - 2];
    let ip = &b[..i];
    let ip = if ip.len() >= 2 && ip.starts_with('[') && ip.ends_with(']') { &ip[1..ip.len() - 1] } else { ip };
    let (h, c) = ranges(&b[i + 1..])?;
    Some((Some(ip.parse().ok()?), h, c, p))
}
fn view(p: &ShortPort) -> Sp {
    (p.host_ip, p.ranges.host().map(bounds), bounds(p.ranges.container()), p.protocol.as_ref().map(|p| p.as_str().to_owned()))
}
fn rtext(h: Option<P>, c: P) -> String {
    h.map(|h| text(h) + ":").unwrap_or_default() + &text(c)
}
fn stext((ip, h, c, p): &Sp) -> String {
    let mut t = String::new();
    if let Some(ip) = ip {
        t += &format!("{ip}:");
        if h.is_none() {
            t += ":";
        }
    }
    t += &rtext(*h, *c);
    if let Some(p) = p {
        t += &format!("/{p}");
    }
    t
}
fn pairs(h: Option<P>, c: P) -> Vec<(Option<u16>, u16)> {
    (0..=u32::from(c.1 - c.0)).map(|i| (h.map(|h| h.0 + i as u16), c.0 + i as u16)).collect()
}
/// a short port and everything derived from it
fn whole(p: &ShortPort) -> R {
    let v = view(p);
    eq("text", p.to_string(), stext(&v))?;
    eq("parse of text", p.to_string().parse::<ShortPort>().ok(), Some(p.clone()))?;
    let y = serde_yaml::to_value(p).map_err(|e| e.to_string())?;
    let num = v.0.is_none() && v.1.is_none() && v.3.is_none() && v.2 .0 == v.2 .1;
    let want = if num { serde_yaml::Value::from(v.2 .0) } else { serde_yaml::Value::from(stext(&v)) };
    eq("document form", &y, &want)?;
    eq("through a document", serde_yaml::from_value::<ShortPort>(y).ok(), Some(p.clone()))?;
    // the longest lists only for some texts
    if v.2 .1 - v.2 .0 > 2_000 && p.protocol.is_some() | p.host_ip.is_some() {
        return Ok(());
    }
    let all = pairs(v.1, v.2);
    eq("mappings", p.ranges.into_iter().collect::<Vec<_>>(), all.clone())?;
    let long: Vec<Port> = p.clone().into_long_iter().collect();
    let want: Vec<Port> = all
        .iter()
        .map(|(h, c)| {
            let mut q = Port::new(*c);
            q.published = h.map(Range::from);
            q.host_ip = p.host_ip;
            q.protocol = p.protocol.clone();
            q
        })
        .collect();
    ensure(long == want, || format!("long ports differ: {:?} ...", long.first()))?;
    for q in [long.first().unwrap(), long.last().unwrap()] {
        let back = q.clone().into_short().map_err(|_| "long port of a short port has no short form")?;
        eq("short of long", view(&back), (p.host_ip, q.published.map(bounds), (q.target, q.target), v.3.clone()))?;
    }
    if long.len() == 1 {
        eq("single port back", long[0].clone().into_short().ok(), Some(p.clone()))?;
    }
    let mut set = Ports::new();
    set.insert(ShortOrLong::Short(p.clone()));
    ensure(ports::into_long_iter(set.clone()).eq(long), || "ports::into_long_iter differs".into())?;
    ensure(ports::into_short_iter(set).eq([Ok(p.clone())]), || "ports::into_short_iter differs".into())
}

fn check(cx: &mut Cx, s: &str) {
    cx.case("parse accepts exactly the short syntax", s, || {
        let got = s.parse::<ShortPort>().ok();
        eq("parts", got.as_ref().map(view), short(s))?;
        eq("try_from", ShortPort::try_from(s).ok(), got.clone())?;
        let d = serde_yaml::from_value::<ShortPort>(serde_yaml::Value::String(s.to_owned())).ok();
        eq("document string", d, got.clone())?;
        got.map_or(Ok(()), |p| whole(&p))
    });
    cx.case("ranges text is exactly [[host]:]container", s, || {
        let got = s.parse::<ShortRanges>().ok();
        eq("parts", got.map(|r| (r.host().map(bounds), bounds(r.container()))), ranges(s))?;
        eq("try_from", ShortRanges::try_from(s).ok(), got)?;
        let d = serde_yaml::from_value::<ShortRanges>(serde_yaml::Value::String(s.to_owned())).ok();
        eq("document string", d, got)?;
        if let Some(r) = got {
            let (h, c) = ranges(s).unwrap();
            eq("text", r.to_string(), rtext(h, c))?;
            eq("parse of text", r.to_string().parse::<ShortRanges>().ok(), Some(r))?;
            let y = serde_yaml::to_value(r).map_err(|e| e.to_string())?;
            eq("document form", &y, &if h.is_none() && c.0 == c.1 { serde_yaml::Value::from(c.0) } else { rtext(h, c).into() })?;
            eq("through a document", serde_yaml::from_value::<ShortRanges>(y).ok(), Some(r))?;
        }
        Ok(())
    });
    cx.case("protocol keywords", s, || {
        let p = Protocol::parse(s);
        let want = match s {
            "tcp" => Protocol::Tcp,
            "udp" => Protocol::Udp,
            _ => Protocol::Other(s.to_owned()),
        };
        eq("protocol", &p, &want)?;
        eq("is_tcp", p.is_tcp(), s == "tcp")?;
        eq("is_udp", p.is_udp(), s == "udp")?;
        eq("text", p.to_string(), s.to_owned())?;
        eq("str", p.as_str(), s)?;
        eq("from str", s.parse::<Protocol>().ok(), Some(want.clone()))?;
        eq("string", String::from(p.clone()), s.to_owned())?;
        eq("cow", std::borrow::Cow::from(p.clone()), std::borrow::Cow::Borrowed(s))?;
        let y = serde_yaml::to_value(&p).map_err(|e| e.to_string())?;
        eq("document form", &y, &serde_yaml::Value::from(s))?;
        eq("through a document", serde_yaml::from_value::<Protocol>(y).ok(), Some(p))
    });
}

fn rng(cx: &mut Cx) -> Range {
    let a = match cx.below(4) {
        0 => cx.pick(&[&0u16, &1, &65535, &65534, &80, &8080]).to_owned(),
        _ => cx.next() as u16,
    };
    let n = match cx.below(12) {
        0 => cx.next() as u16,
        1 => 65535,
        2..=4 => 0,
        _ => (cx.next() % 4) as u16,
    };
    Range::new(a, Some(a.saturating_add(n))).unwrap()
}
fn opt<T>(cx: &mut Cx, f: impl FnOnce(&mut Cx) -> T) -> Option<T> {
    cx.chance(1, 2).then(|| f(cx))
}
const IPS: [&str; 8] = ["127.0.0.1", "0.0.0.0", "::", "::1", "2001:db8::1", "::ffff:1.2.3.4", "fe80:1:2:3:4:5:6:7", "255.255.255.255"];

fn history(cx: &mut Cx) {
    let (h, c) = (opt(cx, rng), rng(cx));
    let ops: Vec<(usize, Range)> = (0..cx.below(6)).map(|_| (cx.below(4), rng(cx))).collect();
    let same: Vec<bool> = ops.iter().map(|_| cx.chance(1, 2)).collect();
    cx.case("a host range always has as many ports as the container range", &format!("{h:?} {c:?} {ops:?} {same:?}"), || {
        let n = |r: Range| u32::from(bounds(r).1 - bounds(r).0);
        let r = ShortRanges::new(h, c).ok();
        eq("new", r.is_some(), h.map_or(true, |h| n(h) == n(c)))?;
        let mut r = r.unwrap_or_else(|| ShortRanges::from(c));
        if h.map_or(true, |h| n(h) == n(c)) {
            eq("host", r.host(), h)?;
        } else {
            eq("host", r.host(), None)?;
        }
        eq("container", r.container(), c)?;
        for (i, (op, x)) in ops.iter().enumerate() {
            let (h, c) = (r.host(), r.container());
            // half of the time use a range of the right size
            let x = if same[i] {
                let m = n(c) as u16;
                let a = x.start().min(65535 - m);
                Range::new(a, Some(a + m)).unwrap()
            } else {
                *x
            };
            match op {
                0 => {
                    let ok = n(x) == n(c);
                    let got = r.replace_host(x);
                    eq("replace_host", got.ok(), ok.then_some(h))?;
                    eq("host", r.host(), if ok { Some(x) } else { h })?;
                    eq("container", r.container(), c)?;
                }
                1 => {
                    eq("take_host", r.take_host(), h)?;
                    eq("host", r.host(), None)?;
                    eq("container", r.container(), c)?;
                }
                2 => {
                    let ok = h.map_or(true, |h| n(h) == n(x));
                    eq("replace_container", r.replace_container(x).ok(), ok.then_some(c))?;
                    eq("container", r.container(), if ok { x } else { c })?;
                    eq("host", r.host(), h)?;
                }
                _ => {
                    let (h, c) = (r.host().map(bounds), bounds(r.container()));
                    ensure(r.into_iter().eq(pairs(h, c)), || "mappings".into())?;
                    let t = r.to_string();
                    eq("text", &t, &rtext(h, c))?;
                    eq("parse of text", t.parse().ok(), Some(r))?;
                }
            }
            holds(r.container(), bounds(r.container()))?;
        }
        whole(&ShortPort::new(r))
    });
}

fn long(cx: &mut Cx) {
    let name = opt(cx, |_| "n".to_owned());
    let mut p = Port::new(cx.next() as u16);
    p.name = if cx.chance(1, 4) { name } else { None };
    p.published = opt(cx, rng);
    p.host_ip = opt(cx, |c| c.pick(&IPS).parse().unwrap());
    p.protocol = opt(cx, |c| Protocol::parse(c.pick(&["tcp", "udp", "sctp"])));
    p.app_protocol = if cx.chance(1, 5) { Some("http".into()) } else { None };
    p.mode = if cx.chance(1, 5) { Some(if cx.chance(1, 2) { Mode::Host } else { Mode::Ingress }) } else { None };
    if cx.chance(1, 5) {
        p.extensions.insert(compose_spec::ExtensionKey::new("x-a").unwrap(), 1.into());
    }
    cx.case("a long port has a short form exactly when nothing is lost", &format!("{p:?}"), || {
        let fits = p.name.is_none()
            && p.app_protocol.is_none()
            && p.mode.is_none()
            && p.extensions.is_empty()
            && p.published.map_or(true, |r| bounds(r).0 == bounds(r).1);
        match p.clone().into_short() {
            Ok(s) => {
                ensure(fits, || "short form loses something".into())?;
                eq("parts", view(&s), (p.host_ip, p.published.map(bounds), (p.target, p.target), p.protocol.as_ref().map(|p| p.to_string())))?;
                ensure(s.clone().into_long_iter().eq([p.clone()]), || "long form of the short form differs".into())?;
                whole(&s)?;
            }
            Err(q) => {
                ensure(!fits, || "no short form".into())?;
                ensure(q == p, || "the returned port differs".into())?;
            }
        }
        let y = serde_yaml::to_value(&p).map_err(|e| e.to_string())?;
        ensure(serde_yaml::from_value::<Port>(y).ok() == Some(p.clone()), || "differs through a document".into())?;
        let mut set = Ports::new();
        set.insert(ShortOrLong::Long(p.clone()));
        ensure(ports::into_long_iter(set.clone()).eq([p.clone()]), || "ports::into_long_iter differs".into())?;
        ensure(ports::into_short_iter(set).eq([p.clone().into_short()]), || "ports::into_short_iter differs".into())
    });
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    cx.all(&["1", "2", "-", ":", "/", "[", "]", ".", "+"], if e > 1 { 6 } else { 5 }, check);
    let toks = ["80", "65535", "65536", "1-3", "4-6", "3-1", "0-65535", "127.0.0.1", "::1", "[::1]", "[127.0.0.1]", "::", "::ffff:1.2.3.4", "1.2.3", "[", "]", ":", ":", ":", "/", "tcp", "udp", "/tcp", "/sctp", "-", " "];
    cx.all(&toks, if e > 1 { 4 } else { 3 }, check);
    cx.random(&toks, 9, 40_000 * e, check);
    let base = ["80", "1-3:4-6", "127.0.0.1:80:80", "[::1]:1-2:3-4/udp", "::1::80", "::1:80:80", ":80", "1.2.3.4::5-6/tcp", "80:80/x/y", "0-999:1000-1999", "[[::1]]:1:1", "[::1:1:1", "::1]:1:1"];
    cx.mutate(&base, &["0", "1", ":", "-", "/", "[", "]", ".", "tcp", "::"], 40_000 * e, check);
    check(cx, "0-65535:0-65535");
    for _ in 0..4_000 * e {
        history(cx);
    }
    for _ in 0..4_000 * e {
        long(cx);
    }
    for s in ["-1", "65536", "1.5", "true", "~", "[1]"] {
        cx.case("other document values are errors", s, || {
            ensure(serde_yaml::from_str::<ShortPort>(s).is_err(), || "port accepted".into())?;
            ensure(serde_yaml::from_str::<ShortRanges>(s).is_err(), || "ranges accepted".into())
        });
    }
}
