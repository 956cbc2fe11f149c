//! Durations.
use crate::core::*;
use compose_spec::duration::{parse, to_string};
use std::time::Duration;

/// total nanoseconds of a text, by the format's definition
fn oracle(s: &str) -> Option<u128> {
    const MAX: u128 = u64::MAX as u128 * 1_000_000_000 + 999_999_999;
    if s.is_empty() {
        return None;
    }
    let v: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut total: u128 = 0;
    while i < v.len() {
        let a = i;
        while i < v.len() && v[i].is_ascii_digit() {
            i += 1;
        }
        let num: String = v[a..i].iter().collect();
        let b = i;
        while i < v.len() && !v[i].is_ascii_digit() {
            i += 1;
        }
        let unit: String = v[b..i].iter().collect();
        let scale: u128 = match unit.as_str() {
            "h" => 3_600_000_000_000,
            "m" => 60_000_000_000,
            "s" => 1_000_000_000,
            "ms" => 1_000_000,
            "us" => 1_000,
            _ => return None,
        };
        let n = uint(&num, u64::MAX as u128)?;
        total += n * scale;
        if total > MAX {
            return None;
        }
    }
    Some(total)
}

fn check(cx: &mut Cx, s: &str) {
    cx.case("parse gives the exact sum or an error", s, || {
        let got = parse(s);
        let want = oracle(s);
        eq("Ok exactly on well-formed texts", got.is_ok(), want.is_some())?;
        if let (Ok(d), Some(w)) = (&got, want) {
            eq("nanoseconds", d.as_nanos(), w)?;
        }
        Ok(())
    });
}

fn print(cx: &mut Cx, d: Duration) {
    cx.case("printing then parsing gives the duration back", &format!("{d:?}"), || {
        let t = to_string(d);
        let want = d.as_nanos() / 1000 * 1000;
        eq("printed text denotes the duration", oracle(&t), Some(want))?;
        eq("parse of printed text", parse(&t).ok().map(|d| d.as_nanos()), Some(want))?;
        // canonical: units strictly descending, no zero groups, bounded groups
        let us = d.as_nanos() / 1000;
        let mut exp = String::new();
        for (v, u) in [
            (us / 3_600_000_000, "h"),
            (us / 60_000_000 % 60, "m"),
            (us / 1_000_000 % 60, "s"),
            (us / 1000 % 1000, "ms"),
            (us % 1000, "us"),
        ] {
            if v != 0 {
                exp.push_str(&format!("{v}{u}"));
            }
        }
        if exp.is_empty() {
            exp.push_str("0s");
        }
        eq("canonical text", t, exp)
    });
}

pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    let chars = ["0", "1", "9", "h", "m", "s", "u", "+", "-", " ", "é", "٣", "."];
    cx.all(&chars, if e > 1 { 6 } else { 5 }, check);
    let toks = [
        "h", "m", "s", "ms", "us", "0", "1", "7", "60", "999", "1000", "18446744073709551615",
        "18446744073709551616", "18446744073709552", "307445734561825860", "5124095576030431", "00", "H", "ns", " ", "é",
        "1h", "5m", "30s", "20ms", "4us", "18446744073709551615s", "999999us", "99999999999999999999999",
    ];
    cx.all(&toks, 3, check);
    cx.random(&toks, 10, 60_000 * e, check);
    for _ in 0..40_000 * e {
        let s = cx.edge_u64();
        let n = match cx.below(3) {
            0 => 0,
            1 => cx.below(1000) as u32 * 1_000_000,
            _ => (cx.next() % 1_000_000_000) as u32,
        };
        let s = match cx.below(3) {
            0 => cx.next() % 100,
            1 => cx.next() % 200_000,
            _ => s,
        };
        print(cx, Duration::new(s, n));
    }
}
