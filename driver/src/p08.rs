//! CPU sets.
use crate::core::*;
use compose_spec::service::CpuSet;
use std::collections::BTreeSet;

const MAX: u128 = u64::MAX as u128;
/// the listed (start, end) pairs, a number being a pair of itself
fn listed(s: &str) -> Option<Vec<(u64, u64)>> {
    if s.is_empty() {
        return Some(vec![]);
    }
    // one trailing comma is allowed
    let s = s.strip_suffix(',').unwrap_or(s);
    s.split(',')
        .map(|p| match p.find('-') {
            None => uint(p, MAX).map(|n| (n as u64, n as u64)),
            Some(i) => Some((uint(&p[..i], MAX)? as u64, uint(&p[i + 1..], MAX)? as u64)),
        })
        .collect()
}
/// never run a text that lists more than a few thousand CPUs
fn small(l: &Option<Vec<(u64, u64)>>) -> bool {
    // a failing text still expands the valid pieces before the bad one, so it is looked at piece by piece
    l.as_ref().map_or(true, |l| l.iter().all(|(a, b)| a > b || b - a < 5_000))
}
fn safe(s: &str) -> bool {
    s.split(',').all(|p| small(&listed(p)))
}
fn text(set: &BTreeSet<u64>) -> String {
    let v: Vec<u64> = set.iter().copied().collect();
    let mut t: Vec<String> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] - v[j] == 1 {
            j += 1;
        }
        t.push(if i == j { v[i].to_string() } else { format!("{}-{}", v[i], v[j]) });
        i = j + 1;
    }
    t.join(",")
}
fn whole(c: &CpuSet) -> R {
    eq("empty", c.is_empty(), c.0.is_empty())?;
    eq("text", c.to_string(), text(&c.0))?;
    eq("parse of text", c.to_string().parse::<CpuSet>().ok().as_ref(), Some(c))?;
    eq("to a set and back", &CpuSet::from(BTreeSet::from(c.clone())), c)?;
    let y = serde_yaml::to_value(c).map_err(|e| e.to_string())?;
    eq("document form", &y, &serde_yaml::Value::from(text(&c.0)))?;
    eq("through a document", serde_yaml::from_value::<CpuSet>(y).ok().as_ref(), Some(c))
}
fn check(cx: &mut Cx, s: &str) {
    if !safe(s) {
        return;
    }
    cx.case("parse denotes exactly the listed CPUs", s, || {
        let want = listed(s).map(|l| l.into_iter().flat_map(|(a, b)| a..=b).collect::<BTreeSet<u64>>());
        let got = s.parse::<CpuSet>().ok();
        eq("set", got.as_ref().map(|c| &c.0), want.as_ref())?;
        eq("try_from", &CpuSet::try_from(s).ok(), &got)?;
        let d = serde_yaml::from_value::<CpuSet>(serde_yaml::Value::String(s.to_owned())).ok();
        eq("document string", &d, &got)?;
        got.map_or(Ok(()), |c| whole(&c))
    });
}
pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    cx.all(&["0", "1", "2", "-", ",", "+", " "], if e > 1 { 7 } else { 6 }, check);
    let toks = ["0", "3", "9", "10", "11", "12", "255", "18446744073709551615", "18446744073709551614", "18446744073709551616", "-", "-", ",", ",", ",", "+", " ", "a", "é", "007"];
    cx.all(&toks, 3, check);
    cx.random(&toks, 12, 40_000 * e, check);
    let base = ["0-3,5,7-9", "1,3,5", "0-0", "3-1", "1-2,2-3", "1,", "18446744073709551614-18446744073709551615", "100-1100"];
    cx.mutate(&base, &["0", "1", "9", "-", ",", "+"], 30_000 * e, check);
    for _ in 0..20_000 * e {
        let n = cx.below(12);
        let mut set = BTreeSet::new();
        let mut at = if cx.chance(1, 6) { u64::MAX - cx.next() % 12 } else if cx.chance(1, 4) { cx.edge_u64() } else { cx.next() % 20 };
        for _ in 0..n {
            set.insert(at);
            at = at.wrapping_add(match cx.below(8) {
                0..=4 => 1,
                5 => 2,
                6 => 3,
                _ => cx.next(),
            });
        }
        cx.case("a set prints its runs in order", &format!("{set:?}"), || {
            let c = CpuSet::from(set.clone());
            eq("set", &c.0, &set)?;
            whole(&c)
        });
    }
}
