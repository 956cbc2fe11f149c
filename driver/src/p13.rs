//! Bounded numbers: percentages, scores, weights, CPU amounts and limits.
use crate::core::*;
use compose_spec::service::blkio_config::Weight;
use compose_spec::service::deploy::resources::Cpus;
use compose_spec::service::{ByteValue, Limit, OomScoreAdj, Percent};
use serde::de::value::Error as VE;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::num::NonZeroU16;

/// a whole number offered by a document in every width that holds it, and by JSON and YAML
fn offers<T: for<'a> Deserialize<'a>>(n: i128) -> Vec<(&'static str, Option<T>)> {
    let mut v: Vec<(&'static str, Option<T>)> = vec![];
    macro_rules! width { ($($t:ident)*) => { $( if let Ok(x) = $t::try_from(n) {
        v.push((stringify!($t), T::deserialize(IntoDeserializer::<VE>::into_deserializer(x)).ok()));
    } )* } }
    width!(i8 i16 i32 i64 u8 u16 u32 u64);
    if (i64::MIN as i128..=u64::MAX as i128).contains(&n) {
        v.push(("json", serde_json::from_str(&n.to_string()).ok()));
        v.push(("yaml", serde_yaml::from_str(&n.to_string()).ok()));
        let val = u64::try_from(n).map(serde_json::Value::from).unwrap_or_else(|_| serde_json::Value::from(n as i64));
        v.push(("json value", serde_json::from_value(val).ok()));
    }
    v
}

fn percent(cx: &mut Cx, n: i128) {
    cx.case("percentages are 0 to 100", &n.to_string(), || {
        let ok = (0..=100).contains(&n);
        let mut ways = offers::<Percent>(n);
        if let Ok(x) = u8::try_from(n) {
            ways.push(("new", Percent::new(x).ok()));
            ways.push(("try_from", Percent::try_from(x).ok()));
        }
        for (w, r) in ways {
            eq(&format!("accepted from {w}"), r.is_some(), ok)?;
            let Some(p) = r else { continue };
            eq("into_inner", p.into_inner() as i128, n)?;
            eq("into u8", u8::from(p) as i128, n)?;
            eq("equal to its number", p == n as u8, true)?;
            eq("document", serde_json::to_string(&p).unwrap(), n.to_string())?;
        }
        Ok(())
    });
}
fn oom(cx: &mut Cx, n: i128) {
    cx.case("scores are -1000 to 1000", &n.to_string(), || {
        let ok = (-1000..=1000).contains(&n);
        let mut ways = offers::<OomScoreAdj>(n);
        if let Ok(x) = i16::try_from(n) {
            ways.push(("new", OomScoreAdj::new(x).ok()));
            ways.push(("try_from", OomScoreAdj::try_from(x).ok()));
        }
        for (w, r) in ways {
            eq(&format!("accepted from {w}"), r.is_some(), ok)?;
            let Some(p) = r else { continue };
            eq("into i16", i16::from(p) as i128, n)?;
            eq("equal to its number", p == n as i16, true)?;
            eq("document", serde_json::to_string(&p).unwrap(), n.to_string())?;
        }
        Ok(())
    });
}
fn weight(cx: &mut Cx, n: i128) {
    cx.case("weights are 10 to 1000", &n.to_string(), || {
        let ok = (10..=1000).contains(&n);
        let mut ways = offers::<Weight>(n);
        if let Ok(x) = u16::try_from(n) {
            ways.push(("new", Weight::new(x).ok()));
            ways.push(("try_from", Weight::try_from(x).ok()));
            if let Some(z) = NonZeroU16::new(x) {
                ways.push(("new(non-zero)", Weight::new(z).ok()));
                ways.push(("try_from(non-zero)", Weight::try_from(z).ok()));
            }
        }
        if let Ok(x) = u32::try_from(n) {
            ways.extend(NonZeroU16::try_from(x as u16).ok().filter(|_| x < 65536).map(|z| ("new(u32)", Weight::new(z).ok())));
        }
        for (w, r) in ways {
            eq(&format!("accepted from {w}"), r.is_some(), ok)?;
            let Some(p) = r else { continue };
            eq("into_inner", p.into_inner().get() as i128, n)?;
            eq("into u16", u16::from(p) as i128, n)?;
            eq("into non-zero", NonZeroU16::from(p).get() as i128, n)?;
            eq("equal to its number", p == n as u16 && p == NonZeroU16::new(n as u16).unwrap(), true)?;
            eq("text", p.to_string(), n.to_string())?;
            eq("document", serde_json::to_string(&p).unwrap(), n.to_string())?;
        }
        Ok(())
    });
}
/// bits of a float, and its reading
fn cpus_float(cx: &mut Cx, x: f64) {
    cx.case("cpu amounts are finite and not negative", &format!("{x:?}"), || {
        let ok = x.to_bits() < 0x7ff0_0000_0000_0000;
        let mut ways = vec![
            ("new", Cpus::new(x).ok()),
            ("try_from", Cpus::try_from(x).ok()),
            ("document", Cpus::deserialize(IntoDeserializer::<VE>::into_deserializer(x)).ok()),
            ("text", Cpus::deserialize(IntoDeserializer::<VE>::into_deserializer(format!("{x}").as_str())).ok()),
            ("yaml", serde_yaml::to_string(&x).ok().and_then(|t| serde_yaml::from_str(&t).ok())),
        ];
        if x.is_finite() {
            // (reading JSON numbers is serde_json's, which rounds: as near as it reads a float)
            let t = serde_json::to_string(&x).unwrap();
            let (g, w) = (serde_json::from_str::<Cpus>(&t).ok(), serde_json::from_str::<f64>(&t).ok().filter(|_| ok));
            eq("json", g.map(|c| c.into_inner().to_bits()), w.map(f64::to_bits))?;
        }
        if (x as f32) as f64 == x {
            ways.push(("f32", Cpus::new(x as f32).ok()));
            ways.push(("try_from f32", Cpus::try_from(x as f32).ok()));
            ways.push(("document f32", Cpus::deserialize(IntoDeserializer::<VE>::into_deserializer(x as f32)).ok()));
        }
        for (w, r) in ways {
            eq(&format!("accepted from {w}"), r.is_some(), ok)?;
            let Some(p) = r else { continue };
            eq(&format!("number from {w}"), p.into_inner().to_bits(), x.to_bits())?;
            eq("into f64", f64::from(p).to_bits(), x.to_bits())?;
            eq("equal to its number", p == x, true)?;
            eq("ordered as its number", p.partial_cmp(&1.0), x.partial_cmp(&1.0))?;
            let t = serde_yaml::to_string(&p).unwrap();
            eq("document back", serde_yaml::from_str::<Cpus>(&t).ok(), Some(p))?;
            eq("document value", serde_json::to_value(p).unwrap(), serde_json::to_value(x).unwrap())?;
        }
        Ok(())
    });
}
fn cpus_int(cx: &mut Cx, n: i128) {
    cx.case("whole cpu amounts are not negative", &n.to_string(), || {
        let ok = n >= 0;
        let mut ways = offers::<Cpus>(n);
        ways.push(("text", Cpus::deserialize(IntoDeserializer::<VE>::into_deserializer(n.to_string().as_str())).ok()));
        macro_rules! tries { ($($t:ident)*) => { $( if let Ok(x) = $t::try_from(n) { ways.push((concat!("try_from ", stringify!($t)), Cpus::try_from(x).ok())); } )* } }
        tries!(i8 i16 i32);
        macro_rules! froms { ($($t:ident)*) => { $( if let Ok(x) = $t::try_from(n) { ways.push((concat!("from ", stringify!($t)), Some(Cpus::from(x)))); } )* } }
        froms!(u8 u16 u32);
        for (w, r) in ways {
            eq(&format!("accepted from {w}"), r.is_some(), ok)?;
            let Some(p) = r else { continue };
            eq(&format!("number from {w}"), p.into_inner(), n as f64)?;
        }
        Ok(())
    });
}
fn limits(cx: &mut Cx, n: i128) {
    cx.case("limits are numbers or -1", &n.to_string(), || {
        fn one<T: for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug + serde::Serialize + std::str::FromStr + std::fmt::Display + Copy>(
            n: i128,
            want: Option<Limit<T>>,
        ) -> R {
            for (w, r) in offers::<Limit<T>>(n) {
                eq(&format!("from {w}"), r, want)?;
            }
            if let Some(l) = want {
                eq("document", serde_json::to_value(l).unwrap().to_string(), n.to_string())?;
            }
            Ok(())
        }
        let of = |max: u64| if n == -1 { Some(None) } else { u64::try_from(n).ok().filter(|m| *m <= max).map(Some) };
        let lim = |o: Option<Option<u64>>| o.map(|o| o.map_or(Limit::Unlimited, Limit::Value));
        one::<u64>(n, lim(of(u64::MAX)))?;
        one::<u32>(n, of(u32::MAX as u64).map(|o| o.map_or(Limit::Unlimited, |m| Limit::Value(m as u32))))?;
        for (w, r) in offers::<Limit<ByteValue>>(n) {
            eq(&format!("bytes from {w}"), r, of(u64::MAX).map(|o| o.map_or(Limit::Unlimited, |m| Limit::Value(ByteValue::Bytes(m)))))?;
        }
        let t = n.to_string();
        eq("u64 text", t.parse::<Limit<u64>>().ok(), lim(of(u64::MAX)))?;
        eq("u32 text", t.parse::<Limit<u32>>().ok(), of(u32::MAX as u64).map(|o| o.map_or(Limit::Unlimited, |m| Limit::Value(m as u32))))?;
        if let Some(l) = lim(of(u64::MAX)) {
            eq("printed", l.to_string(), t.clone())?;
        }
        if let Ok(m) = u32::try_from(n) {
            eq("from u32", Limit::from(m), Limit::Value(m))?;
        }
        if let Ok(m) = u64::try_from(n) {
            eq("from u64", Limit::from(m), Limit::Value(m))?;
            eq("from bytes", Limit::from(ByteValue::Kilobytes(m)), Limit::Value(ByteValue::Kilobytes(m)))?;
        }
        Ok(())
    });
}
fn limit_text(cx: &mut Cx, s: &str) {
    cx.case("limit texts are those of the number, or -1", s, || {
        fn want<T: std::str::FromStr>(s: &str) -> Option<Limit<T>> {
            if s == "-1" { Some(Limit::Unlimited) } else { s.parse().ok().map(Limit::Value) }
        }
        eq("u32", s.parse::<Limit<u32>>().ok(), want(s))?;
        eq("u64", s.parse::<Limit<u64>>().ok(), want(s))?;
        eq("bytes", s.parse::<Limit<ByteValue>>().ok(), want(s))?;
        let w = want::<ByteValue>(s);
        eq("bytes document", Limit::<ByteValue>::deserialize(IntoDeserializer::<VE>::into_deserializer(s)).ok(), w)?;
        eq("owned bytes document", Limit::<ByteValue>::deserialize(IntoDeserializer::<VE>::into_deserializer(s.to_owned())).ok(), w)?;
        if let Some(l) = w {
            eq("printed and read", l.to_string().parse().ok(), Some(l))?;
            let j = serde_json::to_value(l).unwrap();
            eq("document and back", serde_json::from_value(j).ok(), Some(l))?;
        }
        Ok(())
    });
}
fn cpus_text(cx: &mut Cx, s: &str) {
    cx.case("cpu texts are those of numbers", s, || {
        let w = s.parse::<f64>().ok().filter(|x| x.is_finite() && x.is_sign_positive());
        let g = Cpus::deserialize(IntoDeserializer::<VE>::into_deserializer(s)).ok().map(Cpus::into_inner);
        eq("read", g, w)
    });
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    for n in -2..=300i128 {
        percent(cx, n);
    }
    for n in i16::MIN as i128 - 2..=i16::MAX as i128 + 2 {
        oom(cx, n);
    }
    for n in -2..=u16::MAX as i128 + 2 {
        weight(cx, n);
    }
    cx.case("the default weight is 500", "default", || {
        eq("default", Weight::default(), Weight::new(500u16).unwrap())?;
        eq("constant", u16::from(Weight::DEFAULT), 500)
    });
    let mut ints: Vec<i128> = (-1100..1100).collect();
    for b in [8, 15, 16, 31, 32, 52, 53, 62, 63, 64] {
        for d in -3..=3 {
            for s in [-1, 1] {
                ints.push(s * (1i128 << b) + d);
            }
        }
    }
    for _ in 0..20_000 * e {
        let n = cx.edge_u64() as i128;
        let n = n - cx.edge_u64() as i128 * (cx.below(2) as i128);
        ints.push(n);
    }
    for n in ints {
        percent(cx, n);
        oom(cx, n);
        weight(cx, n);
        cpus_int(cx, n);
        limits(cx, n);
    }
    for x in [0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, 0.5, 0.1, 1e300] {
        cpus_float(cx, x);
    }
    for _ in 0..20_000 * e {
        let b = cx.next();
        cpus_float(cx, f64::from_bits(b));
        cpus_float(cx, f64::from_bits(b & !(1 << 63)));
        cpus_float(cx, f32::from_bits(b as u32) as f64);
        cpus_float(cx, cx_small(b));
    }
    let toks = ["0", "1", "9", "-", "+", ".", "-1", "k", "kb", "b", "gb", "M", " ", "e", "inf", "nan", "_", "18446744073709551615", "4294967296"];
    cx.all(&toks, 3, |cx, s| {
        limit_text(cx, s);
        cpus_text(cx, s);
    });
    cx.random(&toks, 8, 20_000 * e, |cx, s| {
        limit_text(cx, s);
        cpus_text(cx, s);
    });
}
fn cx_small(b: u64) -> f64 {
    (b % 2000) as f64 / 8.0 * if b >> 63 == 1 { -1.0 } else { 1.0 }
}
