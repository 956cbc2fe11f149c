//! Byte values.
use crate::core::*;
use compose_spec::service::ByteValue;

fn oracle(s: &str) -> Option<ByteValue> {
    let units: [(&str, fn(u64) -> ByteValue); 12] = [
        ("", ByteValue::Bytes),
        ("b", ByteValue::Bytes),
        ("B", ByteValue::Bytes),
        ("k", ByteValue::Kilobytes),
        ("K", ByteValue::Kilobytes),
        ("kb", ByteValue::Kilobytes),
        ("m", ByteValue::Megabytes),
        ("M", ByteValue::Megabytes),
        ("mb", ByteValue::Megabytes),
        ("g", ByteValue::Gigabytes),
        ("G", ByteValue::Gigabytes),
        ("gb", ByteValue::Gigabytes),
    ];
    let cut = s.find(|c: char| !c.is_ascii_digit() && c != '+').unwrap_or(s.len());
    let n = uint(&s[..cut], u64::MAX as u128)? as u64;
    units.iter().find(|(u, _)| *u == &s[cut..]).map(|(_, f)| f(n))
}

fn check(cx: &mut Cx, s: &str) {
    cx.case("parse accepts exactly count and unit", s, || eq("value", s.parse::<ByteValue>().ok(), oracle(s)));
    cx.case("a document string means the same text", s, || {
        let v = serde_yaml::from_value::<ByteValue>(serde_yaml::Value::String(s.to_owned()));
        eq("value", v.ok(), oracle(s))
    });
}

fn value(cx: &mut Cx, v: ByteValue) {
    cx.case("byte count is exact or absent", &format!("{v:?}"), || {
        let (n, k, u) = match v {
            ByteValue::Bytes(n) => (n, 1u128, "b"),
            ByteValue::Kilobytes(n) => (n, 1_000, "kb"),
            ByteValue::Megabytes(n) => (n, 1_000_000, "mb"),
            ByteValue::Gigabytes(n) => (n, 1_000_000_000, "gb"),
        };
        let b = u128::from(n) * k;
        eq("bytes", v.into_bytes().map(u128::from), (b <= u128::from(u64::MAX)).then_some(b))?;
        eq("text", v.to_string(), format!("{n}{u}"))?;
        eq("parse of text", v.to_string().parse::<ByteValue>().ok(), Some(v))?;
        let y = serde_yaml::to_value(v).map_err(|e| e.to_string())?;
        eq("through a document", serde_yaml::from_value::<ByteValue>(y).ok(), Some(v))?;
        let y = serde_yaml::from_str::<ByteValue>(&n.to_string());
        eq("integer in a document", y.ok(), Some(ByteValue::Bytes(n)))
    });
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    let chars = ["0", "1", "9", "b", "B", "k", "K", "m", "M", "g", "G", "+", "-", " ", "é", "."];
    cx.all(&chars, if e > 1 { 5 } else { 4 }, check);
    let toks = ["18446744073709551615", "18446744073709551616", "18446744073709551614", "00", "7", "b", "kb", "mb", "gb", "KB", "Mb", "gB", "k", "m", "g", "G", "M", "K", "B", "bb", " "];
    cx.all(&toks, 3, check);
    cx.random(&toks, 6, 20_000 * e, check);
    for _ in 0..30_000 * e {
        let n = cx.edge_u64();
        let n = match cx.below(4) {
            0 => (u64::MAX / 1_000).wrapping_add(cx.next() % 5).wrapping_sub(2),
            1 => (u64::MAX / 1_000_000).wrapping_add(cx.next() % 5).wrapping_sub(2),
            2 => (u64::MAX / 1_000_000_000).wrapping_add(cx.next() % 5).wrapping_sub(2),
            _ => n,
        };
        let v = match cx.below(4) {
            0 => ByteValue::Bytes(n),
            1 => ByteValue::Kilobytes(n),
            2 => ByteValue::Megabytes(n),
            _ => ByteValue::Gigabytes(n),
        };
        value(cx, v);
    }
    for s in ["-1", "1.5", "1e3", "true", "~", "[1]", "18446744073709551616"] {
        cx.case("other document values are errors", s, || {
            ensure(serde_yaml::from_str::<ByteValue>(s).is_err(), || "accepted".into())
        });
    }
}
