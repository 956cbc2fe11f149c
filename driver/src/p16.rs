//! Scalar values, numbers, lists and maps.
use crate::core::*;
use compose_spec::service::build::Context;
use compose_spec::{Identifier, ItemOrList, ListOrMap, Map, MapKey, Number, Service, StringOrNumber, Value};
use indexmap::IndexSet;
use std::net::IpAddr;

/// a scalar as the texts of the property describe it; floats are compared by what they print
#[derive(Clone, Debug, PartialEq)]
enum Sc {
    Text(String),
    U(u64),
    I(i64),
    F(String),
    B(bool),
}
fn num(n: &Number) -> Sc {
    match n {
        Number::UnsignedInt(n) => Sc::U(*n),
        Number::SignedInt(n) => Sc::I(*n),
        Number::Float(f) => Sc::F(f.to_string()),
    }
}
fn sc(v: &Value) -> Sc {
    match v {
        Value::String(s) => Sc::Text(s.clone()),
        Value::Number(n) => num(n),
        Value::Bool(b) => Sc::B(*b),
    }
}
fn sn(v: &StringOrNumber) -> Sc {
    match v {
        StringOrNumber::String(s) => Sc::Text(s.clone()),
        StringOrNumber::Number(n) => num(n),
    }
}
fn print(v: &Sc) -> String {
    match v {
        Sc::Text(s) | Sc::F(s) => s.clone(),
        Sc::U(n) => n.to_string(),
        Sc::I(n) => n.to_string(),
        Sc::B(b) => b.to_string(),
    }
}
/// what a text is as a number
fn read_num(s: &str) -> Option<Sc> {
    let digits = s.strip_prefix(['+', '-']).unwrap_or(s);
    if !digits.bytes().all(|b| b.is_ascii_digit()) {
        return s.parse::<f64>().ok().map(|f| Sc::F(f.to_string()));
    }
    if let Some(d) = s.strip_prefix('-') {
        let m = uint(d, 1 << 63)?;
        return (!d.starts_with('+')).then(|| Sc::I((-(m as i128)) as i64));
    }
    uint(s, u64::MAX as u128).map(|n| Sc::U(n as u64))
}
fn read(s: &str) -> Sc {
    match s {
        "true" => Sc::B(true),
        "false" => Sc::B(false),
        _ => read_num(s).unwrap_or_else(|| Sc::Text(s.into())),
    }
}
fn exact(s: &str) -> Sc {
    let r = read(s);
    if print(&r) == s { r } else { Sc::Text(s.into()) }
}
fn as_u64(v: &Sc) -> Option<u64> {
    match v {
        Sc::U(n) => Some(*n),
        Sc::I(n) => u64::try_from(*n).ok(),
        _ => None,
    }
}
fn as_i64(v: &Sc) -> Option<i64> {
    match v {
        Sc::U(n) => i64::try_from(*n).ok(),
        Sc::I(n) => Some(*n),
        _ => None,
    }
}
fn as_f64(v: &Sc) -> Option<f64> {
    match v {
        Sc::U(n) => u32::try_from(*n).ok().map(f64::from),
        Sc::I(n) => i32::try_from(*n).ok().map(f64::from),
        Sc::F(s) => s.parse().ok(),
        _ => None,
    }
}
fn same(a: Option<f64>, b: Option<f64>) -> bool {
    a.map(f64::to_bits) == b.map(f64::to_bits) || matches!((a, b), (Some(x), Some(y)) if x.is_nan() && y.is_nan())
}
fn number(n: Number) -> R {
    let m = num(&n);
    eq("print", n.to_string(), print(&m))?;
    eq("u64", u64::try_from(n).ok(), as_u64(&m))?;
    eq("i64", i64::try_from(n).ok(), as_i64(&m))?;
    ensure(same(f64::try_from(n).ok(), as_f64(&m)), || format!("f64: {:?} of {n:?}", f64::try_from(n)))?;
    let (u, i, f) = (n.as_unsigned_int(), n.as_signed_int(), n.as_float());
    eq("kinds", (n.is_unsigned_int(), n.is_signed_int(), n.is_float()), (matches!(m, Sc::U(_)), matches!(m, Sc::I(_)), matches!(m, Sc::F(_))))?;
    eq("content", (u.map(Sc::U), i.map(Sc::I), f.map(|f| Sc::F(f.to_string()))), match &m {
        Sc::U(_) => (Some(m.clone()), None, None),
        Sc::I(_) => (None, Some(m.clone()), None),
        _ => (None, None, Some(m.clone())),
    })?;
    eq("as a value", sc(&Value::from(n)), m.clone())?;
    eq("as text or number", sn(&StringOrNumber::from(n)), m.clone())?;
    // what is written reads back as an equal number; a whole number is written the same whatever its kind
    let y = serde_yaml::to_string(&n).unwrap();
    let back: Number = serde_yaml::from_str(&y).map_err(|e| format!("{y}: {e}"))?;
    let want = match &m {
        Sc::I(n) if *n >= 0 => Sc::U(*n as u64),
        m => m.clone(),
    };
    eq("yaml", num(&back), want.clone())?;
    if !matches!(m, Sc::F(_)) {
        eq("json", num(&serde_json::from_str(&serde_json::to_string(&n).unwrap()).unwrap()), want)?;
        eq("text", n.to_string().parse::<Number>().ok().map(|x| num(&x)), read_num(&print(&m)))?;
        eq("text as integer", as_i64(&num(&n.to_string().parse().unwrap())).map(i128::from).or(as_u64(&m).map(i128::from)), as_i64(&m).map(i128::from).or(as_u64(&m).map(i128::from)))?;
    }
    Ok(())
}
fn value(v: Value) -> R {
    let m = sc(&v);
    let t = print(&m);
    eq("print", v.to_string(), t.clone())?;
    eq("into text", String::from(v.clone()), t.clone())?;
    eq("kinds", (v.is_string(), v.is_number(), v.is_bool()), (matches!(m, Sc::Text(_)), matches!(m, Sc::U(_) | Sc::I(_) | Sc::F(_)), matches!(m, Sc::B(_))))?;
    eq("text", v.as_string().cloned(), if let Sc::Text(s) = &m { Some(s.clone()) } else { None })?;
    eq("bool", v.as_bool(), if let Sc::B(b) = m { Some(b) } else { None })?;
    eq("number", v.as_number().map(num), v.is_number().then(|| m.clone()))?;
    let n = match &m {
        Sc::Text(s) => read_num(s),
        Sc::B(b) => Some(Sc::U(u64::from(*b))),
        m => Some(m.clone()),
    };
    eq("to number", Number::try_from(v.clone()).ok().map(|n| num(&n)), n.clone())?;
    eq("to u64", u64::try_from(v.clone()).ok(), n.as_ref().and_then(as_u64))?;
    eq("to i64", i64::try_from(v.clone()).ok(), n.as_ref().and_then(as_i64))?;
    ensure(same(f64::try_from(v.clone()).ok(), n.as_ref().and_then(as_f64)), || format!("to f64: {:?}", f64::try_from(v.clone())))?;
    eq("to bool", bool::try_from(v.clone()).ok(), if let Sc::B(b) = m { Some(b) } else { None })?;
    let y = serde_yaml::to_string(&v).unwrap();
    let want = match &m {
        Sc::I(n) if *n >= 0 => Sc::U(*n as u64),
        m => m.clone(),
    };
    // (a text with control characters is serde_yaml's own business)
    if !t.chars().any(|c| c.is_control() || c == '\u{feff}') {
        eq("yaml", serde_yaml::from_str::<Value>(&y).ok().map(|v| sc(&v)), Some(want.clone()))?;
        eq("yaml value", serde_yaml::from_value::<Value>(serde_yaml::to_value(&v).unwrap()).ok().map(|v| sc(&v)), Some(want.clone()))?;
    }
    if !matches!(m, Sc::F(_)) {
        eq("json", serde_json::from_str::<Value>(&serde_json::to_string(&v).unwrap()).ok().map(|v| sc(&v)), Some(want))?;
    }
    Ok(())
}
fn text(cx: &mut Cx, s: &str) {
    cx.case("a text is a number when it reads as one", s, || {
        let want = read_num(s);
        eq("parse", s.parse::<Number>().ok().map(|n| num(&n)), want.clone())?;
        eq("try_from", Number::try_from(s).ok().map(|n| num(&n)), want.clone())?;
        eq("text or number", sn(&StringOrNumber::parse(s)), want.clone().unwrap_or(Sc::Text(s.into())))?;
        eq("owned text or number", sn(&StringOrNumber::parse(s.to_owned())), want.clone().unwrap_or(Sc::Text(s.into())))?;
        for t in [StringOrNumber::from(s), StringOrNumber::from(s.to_owned()), StringOrNumber::from(Box::<str>::from(s)), StringOrNumber::from(std::borrow::Cow::from(s))] {
            eq("text stays text", sn(&t), Sc::Text(s.into()))?;
            eq("its text", t.to_string(), s.to_owned())?;
            eq("its text", String::from(t.clone()), s.to_owned())?;
            eq("its number", Number::try_from(t.clone()).ok().map(|n| num(&n)), want.clone())?;
            eq("as text", (t.as_string().map(String::as_str), t.is_string(), t.is_number(), t.as_number().is_none()), (Some(s), true, false, true))?;
        }
        if let Some(w) = want {
            let n = StringOrNumber::parse(s);
            eq("print", n.to_string(), print(&w))?;
            eq("print", String::from(n), print(&w))?;
        }
        Ok(())
    });
    cx.case("a text is a scalar value", s, || {
        eq("parse", sc(&Value::parse(s)), read(s))?;
        eq("parse owned", sc(&Value::parse(s.to_owned())), read(s))?;
        for v in [Value::from(s), Value::from(s.to_owned()), Value::from(Box::<str>::from(s)), Value::from(std::borrow::Cow::from(s))] {
            eq("text stays text", sc(&v), Sc::Text(s.into()))?;
            value(v)?;
        }
        value(Value::parse(s))
    });
}
type E = (String, Option<Sc>);
fn put(m: &mut Vec<E>, k: String, v: Option<Sc>) {
    match m.iter_mut().find(|e| e.0 == k) {
        Some(e) => e.1 = v,
        None => m.push((k, v)),
    }
}
fn key_ok(k: &str) -> bool {
    !k.is_empty() && !k.contains('\n')
}
fn split(l: &[String], d: &[char]) -> Option<Vec<E>> {
    let mut m = vec![];
    for s in l {
        let at = s.char_indices().find(|(_, c)| d.contains(c));
        let (k, v) = match at {
            Some((i, c)) => (&s[..i], Some(&s[i + c.len_utf8()..])),
            None => (s.as_str(), None),
        };
        if !key_ok(k) {
            return None;
        }
        put(&mut m, k.into(), v.filter(|v| !v.is_empty()).map(exact));
    }
    Some(m)
}
fn join(m: &[E]) -> Vec<String> {
    let mut l = vec![];
    for (k, v) in m {
        let t = match v {
            Some(v) => format!("{k}={}", print(v)),
            None => k.clone(),
        };
        if !l.contains(&t) {
            l.push(t);
        }
    }
    l
}
fn entries(m: &Map) -> Vec<E> {
    m.iter().map(|(k, v)| (k.as_str().to_owned(), v.as_ref().map(sc))).collect()
}
fn uniq(l: &[String]) -> Vec<String> {
    let mut u: Vec<String> = vec![];
    for s in l {
        if !u.contains(s) {
            u.push(s.clone());
        }
    }
    u
}
fn list_of(l: ListOrMap) -> Vec<String> {
    l.into_list().into_iter().collect()
}
/// an entry a list may be read from again
fn plain(s: &str) -> bool {
    !s.ends_with('=') || s.find('=') != Some(s.len() - 1)
}
fn list(cx: &mut Cx, l: &[String]) {
    let input = serde_json::to_string(l).unwrap();
    cx.case("a list splits into a map", &input, || {
        let u = uniq(l);
        let a = ListOrMap::List(l.iter().cloned().collect());
        let b: ListOrMap = serde_json::from_str(&input).map_err(|e| e.to_string())?;
        let c: ListOrMap = serde_yaml::from_value(serde_yaml::to_value(l).unwrap()).map_err(|e| e.to_string())?;
        for x in [a, b, c] {
            eq("list", x.as_list().map(|l| l.iter().cloned().collect::<Vec<_>>()), Some(u.clone()))?;
            eq("not a map", x.as_map().is_none(), true)?;
            eq("empty", x.is_empty(), u.is_empty())?;
            eq("same list", list_of(x.clone()), u.clone())?;
            for d in [&['='][..], &['=', ':'], &[':'], &[]] {
                eq(&format!("split on {d:?}"), x.clone().into_map_split_on(d).ok().map(|m| entries(&m)), split(&u, d))?;
            }
            let want = split(&u, &['=']);
            let m = x.clone().into_map().ok();
            eq("split", m.as_ref().map(entries), want.clone())?;
            if let (Some(m), Some(w)) = (m, want) {
                let back = list_of(ListOrMap::Map(m.clone()));
                eq("joined again", back.clone(), join(&w))?;
                if w.len() == u.len() && u.iter().all(|s| plain(s)) {
                    eq("the same entries", back, u.clone())?;
                }
                eq("a map stays", ListOrMap::Map(m.clone()).into_map().ok().map(|m| entries(&m)), Some(w.clone()))?;
                eq("a map stays", ListOrMap::Map(m.clone()).into_map_split_on(&[':']).ok().map(|m| entries(&m)), Some(w.clone()))?;
                if !w.iter().any(|(_, v)| matches!(v, Some(Sc::F(_)))) {
                    let doc = serde_json::to_string(&ListOrMap::Map(m.clone())).unwrap();
                    let r: ListOrMap = serde_json::from_str(&doc).map_err(|e| format!("{doc}: {e}"))?;
                    eq("document", r.as_map().map(entries), Some(w))?;
                }
            }
        }
        Ok(())
    });
}
fn map(cx: &mut Cx, m: &[(String, Option<String>)]) {
    cx.case("a map joins into a list", &serde_json::to_string(m).unwrap(), || {
        let mut w: Vec<E> = vec![];
        let mut x = Map::new();
        for (k, v) in m {
            let Ok(key) = MapKey::new(k.clone()) else { continue };
            x.insert(key, v.as_ref().map(|v| Value::parse(v.as_str())));
            put(&mut w, k.clone(), v.as_ref().map(|v| read(v)));
        }
        let x = ListOrMap::Map(x);
        eq("map", x.as_map().map(entries), Some(w.clone()))?;
        eq("not a list", x.as_list().is_none(), true)?;
        eq("empty", x.is_empty(), w.is_empty())?;
        eq("joined", list_of(x.clone()), join(&w))?;
        Ok(())
    });
}
fn host_label(s: &str) -> bool {
    !s.is_empty() && !s.starts_with('-') && !s.ends_with('-') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
}
fn hosts(l: &Option<Vec<E>>) -> Option<Vec<(String, IpAddr)>> {
    l.as_ref()?
        .iter()
        .map(|(k, v)| {
            let Some(Sc::Text(t)) = v else { return None };
            let t = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')).unwrap_or(t);
            if !k.split('.').all(host_label) {
                return None;
            }
            Some((k.clone(), t.parse().ok()?))
        })
        .collect()
}
fn host_docs(cx: &mut Cx, l: &[String]) {
    let input = serde_json::to_string(l).unwrap();
    cx.case("extra hosts are read from a list", &input, || {
        let want = hosts(&split(&uniq(l), &['=', ':']));
        for doc in [serde_json::json!({"extra_hosts": l}), serde_json::json!({"build": {"context": ".", "extra_hosts": l}})] {
            let got = serde_json::from_value::<Service>(doc.clone()).ok().map(|s| {
                let m = match s.build {
                    Some(b) => compose_spec::service::Build::from(b).extra_hosts,
                    None => s.extra_hosts,
                };
                m.iter().map(|(k, v)| (k.as_str().to_owned(), *v)).collect::<Vec<_>>()
            });
            eq(&doc.to_string(), got, want.clone())?;
        }
        Ok(())
    });
}
fn context_docs(cx: &mut Cx, l: &[String]) {
    let input = serde_json::to_string(l).unwrap();
    cx.case("additional contexts are read from a list", &input, || {
        let want = split(&uniq(l), &['=']).map(|m| m.into_iter().map(|(k, v)| (k, v.map_or_else(Context::default, |v| Context::parse(print(&v))))).collect::<Vec<_>>());
        let doc = serde_json::json!({"build": {"context": ".", "additional_contexts": l}});
        let got = serde_json::from_value::<Service>(doc).ok().map(|s| {
            let m = compose_spec::service::Build::from(s.build.unwrap()).additional_contexts;
            m.iter().map(|(k, v)| (k.as_str().to_owned(), v.clone())).collect::<Vec<_>>()
        });
        eq("contexts", got, want)
    });
}
/// maps as they stand in documents
fn docs(cx: &mut Cx, yaml: &str) {
    cx.case("a document is a list of texts or a map of scalars", yaml, || {
        let Ok(y) = serde_yaml::from_str::<serde_yaml::Value>(yaml) else { return Ok(()) };
        // (tags are left out)
        if yaml.contains('!') {
            return Ok(());
        }
        let scalar = |v: &serde_yaml::Value| -> Option<Sc> {
            Some(match v {
                serde_yaml::Value::Bool(b) => Sc::B(*b),
                serde_yaml::Value::String(s) => Sc::Text(s.clone()),
                serde_yaml::Value::Number(n) => match (n.as_u64(), n.as_i64()) {
                    (Some(n), _) => Sc::U(n),
                    (_, Some(n)) => Sc::I(n),
                    _ => Sc::F(n.as_f64()?.to_string()),
                },
                _ => return None,
            })
        };
        let text = |v: &serde_yaml::Value| match v {
            serde_yaml::Value::String(s) => Some(s.clone()),
            _ => None,
        };
        let got: Option<Value> = serde_yaml::from_value(y.clone()).ok();
        eq("value", got.as_ref().map(sc), scalar(&y))?;
        eq("value from text", serde_yaml::from_str::<Value>(yaml).ok().as_ref().map(sc), scalar(&y))?;
        eq("number", serde_yaml::from_value::<Number>(y.clone()).ok().as_ref().map(num), scalar(&y).filter(|s| !matches!(s, Sc::B(_) | Sc::Text(_))))?;
        eq("text or number", serde_yaml::from_value::<StringOrNumber>(y.clone()).ok().as_ref().map(sn), scalar(&y).filter(|s| !matches!(s, Sc::B(_))))?;
        let lm: Option<ListOrMap> = serde_yaml::from_value(y.clone()).ok();
        let (list, map) = match &y {
            serde_yaml::Value::Sequence(s) => (s.iter().map(text).collect::<Option<Vec<_>>>().map(|l| uniq(&l)), None),
            serde_yaml::Value::Mapping(m) => (
                None,
                m.iter()
                    .map(|(k, v)| {
                        let k = text(k).filter(|k| key_ok(k))?;
                        Some((k, if v.is_null() { None } else { Some(scalar(v)?) }))
                    })
                    .collect::<Option<Vec<E>>>(),
            ),
            _ => (None, None),
        };
        eq("accepted", lm.is_some(), list.is_some() || map.is_some())?;
        eq("list", lm.as_ref().and_then(|l| l.as_list()).map(|l| l.iter().cloned().collect::<Vec<_>>()), list)?;
        eq("map", lm.as_ref().and_then(|l| l.as_map()).map(entries), map)?;
        Ok(())
    });
}
fn items(cx: &mut Cx, l: &[String]) {
    let input = serde_json::to_string(l).unwrap();
    cx.case("an item or a list", &input, || {
        let u = uniq(l);
        let x: ItemOrList<String> = serde_json::from_str(&input).map_err(|e| e.to_string())?;
        eq("list", x.as_list().map(|l| l.iter().cloned().collect::<Vec<_>>()), Some(u.clone()))?;
        eq("single", x.as_item().cloned(), if u.len() == 1 { Some(u[0].clone()) } else { None })?;
        eq("written", serde_json::to_string(&x).unwrap(), serde_json::to_string(&u).unwrap())?;
        eq("into list", x.clone().into_list().into_iter().collect::<Vec<_>>(), u.clone())?;
        eq("set", IndexSet::<String>::from(x).into_iter().collect::<Vec<_>>(), u.clone())?;
        let all: Option<Vec<Identifier>> = l.iter().map(|s| s.parse().ok()).collect();
        eq("checked items", serde_json::from_str::<ItemOrList<Identifier>>(&input).is_ok(), all.is_some())?;
        for s in l {
            let doc = serde_json::to_string(s).unwrap();
            let x: ItemOrList<String> = serde_json::from_str(&doc).map_err(|e| e.to_string())?;
            eq("item", x.as_item(), Some(s))?;
            eq("not a list", x.as_list().is_none(), true)?;
            eq("written", serde_json::to_string(&x).unwrap(), doc.clone())?;
            eq("into list", x.clone().into_list().into_iter().collect::<Vec<_>>(), vec![s.clone()])?;
            ensure(x == ItemOrList::from(s.clone()) && x != ItemOrList::from(IndexSet::from([s.clone()])), || "equality".into())?;
            eq("checked item", serde_json::from_str::<ItemOrList<Identifier>>(&doc).is_ok(), s.parse::<Identifier>().is_ok())?;
        }
        Ok(())
    });
}

const TEXTS: [&str; 64] = [
    "", "0", "1", "-1", "+1", "-0", "+0", "00", "007", "1.", ".5", "1.0", "1.10", "1e3", "1E3", "inf", "-inf", "+inf", "infinity", "NaN", "nan", "true",
    "false", "True", "TRUE", "yes", "no", "on", "null", "~", "18446744073709551615", "18446744073709551616", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648",
    "-2147483649", "0x10", "0o7", "1_000", " 1", "1 ", "--1", "+-1", "-", "+", ".", "e", "1e400", "-1e400", "1e-400", "0.1", "0.30000000000000004",
    "1e21", "1e22", "123456789012345678901234567890", "a=b", "\u{0661}", "1\n",
];
const TOK: [&str; 20] = ["a", "b", "A", "x", "1", "0", "=", "=", ":", "true", "false", "-", "+", ".", "\n", " ", "1.0", "é", "==", "18446744073709551615"];
const HOST: [&str; 24] = [
    "a", "b", "host", "a.b", "-", "a_b", ".", "=", ":", "=", ":", "127.0.0.1", "::1", "[::1]", "[127.0.0.1]", "[", "]", "fe80::1", "1", "0", "true", "256.0.0.1", " ", "1.2.3.4",
];
const CTX: [&str; 12] = ["a", "b", "=", "=", ".", "./x", "https://a.b/c", "1", "true", "1.50", "docker-image://a", ":"];
const YAML: [&str; 38] = [
    "1", "-1", "1.5", "true", "yes", "~", "", "a", "'1'", "'true'", "[]", "[a, b]", "[a, a]", "[1]", "[~]", "[[a]]", "{}", "{a: b}", "{a: 1, b: 2.5, c: true, d: ~, e: 'x'}",
    "{a: [b]}", "{a: {b: c}}", "{1: a}", "{true: a}", "{'': a}", "{\"a\\nb\": c}", "{a: -5}", "{a: 18446744073709551615}", "{a: -9223372036854775808}", "{a: .inf}", "{a: .nan}",
    "{a: ''}", "{b: 1, a: 2}", "a=b", "18446744073709551616", "-9223372036854775809", "[a=b, a=c]", "{a: 0x10}", "{a: 1e3}",
];
pub fn run(cx: &mut Cx) {
    let e = cx.effort;
    for t in TEXTS {
        text(cx, t);
    }
    cx.all(&["1", "0", "-", "+", ".", "e", "a"], 4, text);
    cx.mutate(&TEXTS, &["0", "9", "-", "+", ".", "e", "1", "true"], 4_000 * e, text);
    for i in 0..3_000 * e {
        let n = cx.edge_u64();
        let r = cx.next();
        text(cx, &n.to_string());
        text(cx, &format!("-{n}"));
        for n in [Number::UnsignedInt(n), Number::SignedInt(n as i64), Number::SignedInt((n as i64).wrapping_neg()), Number::Float(f64::from_bits(r)), Number::Float(n as f64)] {
            cx.case("numbers convert", &format!("{n:?}"), || {
                number(n)?;
                match n {
                    Number::UnsignedInt(n) => {
                        eq("from", num(&Number::from(n)), Sc::U(n))?;
                        eq("from", sc(&Value::from(n)), Sc::U(n))?;
                        eq("from", sn(&StringOrNumber::from(n)), Sc::U(n))?;
                    }
                    Number::SignedInt(n) => {
                        eq("from", num(&Number::from(n)), Sc::I(n))?;
                        eq("from", sc(&Value::from(n)), Sc::I(n))?;
                        eq("from", sn(&StringOrNumber::from(n)), Sc::I(n))?;
                    }
                    Number::Float(f) => {
                        eq("from", num(&Number::from(f)), Sc::F(f.to_string()))?;
                        eq("from", sc(&Value::from(f)), Sc::F(f.to_string()))?;
                        eq("from", sn(&StringOrNumber::from(f)), Sc::F(f.to_string()))?;
                    }
                }
                value(Value::Number(n))
            });
        }
        if i < 2 {
            cx.case("booleans are values", &(i == 0).to_string(), || value(Value::from(i == 0)));
        }
    }
    for y in YAML {
        docs(cx, y);
    }
    cx.mutate(&YAML, &["a", "1", ":", ", ", "'", "-", "{", "}", "[", "]", "~"], 3_000 * e, docs);
    let mut lists = |cx: &mut Cx, tokens: &[&str], width: usize, n: u64, f: fn(&mut Cx, &[String])| {
        for _ in 0..n {
            let k = cx.below(5);
            let l: Vec<String> = (0..k).map(|_| (0..cx.below(width + 1)).map(|_| cx.pick(tokens).to_owned()).collect()).collect();
            f(cx, &l);
        }
    };
    lists(cx, &TOK, 4, 6_000 * e, list);
    lists(cx, &HOST, 3, 6_000 * e, host_docs);
    lists(cx, &CTX, 4, 2_000 * e, context_docs);
    lists(cx, &TOK, 2, 1_500 * e, items);
    for a in TEXTS {
        list(cx, &[format!("k={a}")]);
        list(cx, &[format!("k={a}"), "b".into(), "k".into()]);
        list(cx, &[a.to_owned(), format!("{a}=1")]);
        host_docs(cx, &[format!("a={a}"), "b:1.2.3.4".into()]);
        map(cx, &[("k".into(), Some(a.into())), (a.into(), None)]);
    }
    for h in ["a=1.2.3.4", "a:1.2.3.4", "a=::1", "a:::1", "a=[::1]", "a:[::1]", "a=[1.2.3.4]", "a=[::1", "a=::1]", "a=[[::1]]", "a=", "a", "=1.2.3.4", "a.b=1.2.3.4", "a=1.2.3.4=", "a==1.2.3.4", "a=1", "a=[]", "-a=1.2.3.4"] {
        host_docs(cx, &[h.to_owned()]);
        host_docs(cx, &[h.to_owned(), "a=5.6.7.8".into()]);
        host_docs(cx, &["b=5.6.7.8".into(), "a=5.6.7.8".into(), h.to_owned()]);
    }
    for _ in 0..3_000 * e {
        let k = cx.below(5);
        let m: Vec<(String, Option<String>)> = (0..k)
            .map(|_| {
                let key = (0..1 + cx.below(2)).map(|_| cx.pick(&TOK).to_owned()).collect();
                let v = if cx.chance(1, 4) { None } else { Some(if cx.chance(1, 2) { cx.pick(&TEXTS).to_owned() } else { (0..cx.below(3)).map(|_| cx.pick(&TOK).to_owned()).collect() }) };
                (key, v)
            })
            .collect();
        map(cx, &m);
    }
}
