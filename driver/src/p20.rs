//! Documents survive being read and written: whichever way they are read, in whatever order their keys are given.
use crate::core::*;
use crate::docs::*;
use compose_spec::{Compose, Options};
use serde_yaml::Value as Y;

fn base(p: &Part) -> Doc {
    p.base.iter().map(|(k, v)| (*k, v[0])).collect()
}
fn full(p: &Part, cx: &mut Cx) -> Doc {
    let mut d = base(p);
    for (k, vs) in p.keys {
        d.push((k, vs[cx.below(vs.len())]));
    }
    d
}
fn shuffle<T>(v: &mut [T], cx: &mut Cx) {
    for i in (1..v.len()).rev() {
        v.swap(i, cx.below(i + 1));
    }
}
/// in whatever order the keys are given, the same is read
fn key_order(cx: &mut Cx) {
    let rule = "the order of the keys does not matter, except that extensions keep theirs";
    for p in parts() {
        let ext = p.keys.iter().any(|k| k.0 == "x-e");
        for n in 0..8 * cx.effort {
            let mut d = full(&p, cx);
            if n % 2 == 1 {
                d.retain(|k| p.base.iter().any(|b| b.0 == k.0) || cx.chance(1, 2));
            }
            if ext {
                d.extend([("x-z", "1"), ("x-a", "{k: [v]}"), ("x-m", "m"), ("x-", "0")]);
            }
            shuffle(&mut d, cx);
            cx.case(rule, &format!("{}: {}", p.name, text(&d)), || {
                let (_, back) = (p.go)(map(&d), &text(&d))?;
                eq("written back", &back, &map(&d))?;
                let xs: Vec<&str> = d.iter().map(|e| e.0).filter(|k| k.starts_with("x-")).collect();
                let ys: Vec<&str> = back.as_mapping().ok_or("not a mapping")?.keys().filter_map(Y::as_str).filter(|k| k.starts_with("x-")).collect();
                eq("order of the extensions", ys, xs)
            });
        }
    }
}
/// maps and lists whose order is the user's
fn inner_order(cx: &mut Cx) {
    let rule = "maps and lists keep the order they are given in";
    let maps: &[(&str, &str, &[&str], &str)] = &[
        ("service", "environment", &["B", "A", "a", "C1", "C0", "_"], "v"),
        ("service", "labels", &["b", "a", "z.y", "c"], "v"), ("service", "annotations", &["b", "a", "c"], "v"),
        ("service", "extra_hosts", &["b", "a", "c"], "10.0.0.1"), ("service", "sysctls", &["b", "a", "c"], "1"), ("service", "storage_opt", &["b", "a", "c"], "v"),
        ("service", "ulimits", &["nproc", "as", "cpu"], "5"), ("service", "depends_on", &["b", "a", "c"], "{condition: service_started}"),
        ("service", "networks", &["b", "a", "c"], "{priority: 1}"),
        ("build", "args", &["b", "a", "c"], "v"), ("build", "labels", &["b", "a", "c"], "v"), ("build", "additional_contexts", &["b", "a", "c"], "./d"), ("build", "ulimits", &["nproc", "as", "cpu"], "5"),
        ("network", "driver_opts", &["b", "a", "c"], "v"), ("network", "labels", &["b", "a", "c"], "v"), ("ipam", "options", &["b", "a", "c"], "v"), ("ipam config", "aux_addresses", &["b", "a", "c"], "10.0.0.1"),
        ("volume", "driver_opts", &["b", "a", "c"], "v"), ("volume", "labels", &["b", "a", "c"], "v"), ("config", "labels", &["b", "a", "c"], "v"), ("secret", "driver_opts", &["b", "a", "c"], "v"),
        ("deploy", "labels", &["b", "a", "c"], "v"), ("logging", "options", &["b", "a", "c"], "v"), ("network of a service", "driver_opts", &["b", "a", "c"], "v"), ("reserved device", "options", &["b", "a", "c"], "v"),
        ("compose", "services", &["b", "a", "c"], "{image: i}"), ("compose", "networks", &["b", "a", "c"], "{driver: d}"), ("compose", "volumes", &["b", "a", "c"], "null"), ("compose", "configs", &["b", "a", "c"], "{file: f}"), ("compose", "secrets", &["b", "a", "c"], "{file: f}"),
    ];
    let lists: &[(&str, &str, &[&str])] = &[
        ("service", "cap_add", &["B", "A", "C"]), ("service", "cap_drop", &["B", "A", "C"]), ("service", "configs", &["b", "a", "{source: c}", "a"]), ("service", "secrets", &["b", "a", "{source: c}", "a"]),
        ("service", "depends_on", &["b", "a", "c"]), ("service", "networks", &["b", "a", "c"]), ("service", "device_cgroup_rules", &["'c 1:3 r'", "'a 7:* w'", "'b *:* m'"]), ("service", "devices", &["/b:/b", "/a:/b", "/c:/d"]),
        ("service", "dns", &["9.9.9.9", "8.8.8.8", "'::1'"]), ("service", "dns_opt", &["b", "a", "c"]), ("service", "dns_search", &["b.c", "a.b", "c.d"]), ("service", "command", &["b", "a", "b"]), ("service", "entrypoint", &["b", "a", "b"]),
        ("service", "env_file", &["b", "a", "{path: b, required: false}", "b"]), ("service", "environment", &["B=1", "A=2", "C"]), ("service", "expose", &["9", "8", "1-2/udp"]), ("service", "external_links", &["b", "'a:c'", "c"]), ("service", "group_add", &["b", "1", "a"]),
        ("service", "links", &["b", "'a:c'", "c"]), ("service", "ports", &["80", "70", "{target: 80}", "'1:2'"]), ("service", "profiles", &["b", "a", "c"]), ("service", "security_opt", &["b", "a", "c"]), ("service", "tmpfs", &["/b", "/a", "/c"]),
        ("service", "volumes", &["/b", "/a", "'a:/a'", "{type: volume, target: /c}"]), ("service", "volumes_from", &["b", "a", "'container:c:ro'"]),
        ("build", "cache_from", &["b", "a", "'type=local,src=a'"]), ("build", "cache_to", &["b", "a", "c"]), ("build", "entitlements", &["b", "a", "c"]), ("build", "secrets", &["b", "a", "{source: c}"]), ("build", "tags", &["b", "a", "c"]), ("build", "platforms", &["linux/arm64", "linux/amd64", "windows/amd64"]),
        ("ipam", "config", &["{gateway: 10.0.0.2}", "{gateway: 10.0.0.1}", "{}"]), ("network of a service", "aliases", &["b", "a", "c"]), ("network of a service", "link_local_ips", &["10.0.0.2", "10.0.0.1", "10.0.0.3"]),
        ("placement", "constraints", &["b", "a", "b"]), ("placement", "preferences", &["{spread: b}", "{spread: a}", "{}"]), ("reservations", "devices", &["{capabilities: [b]}", "{capabilities: [a]}"]), ("reserved device", "device_ids", &["b", "a", "c"]), ("reserved device", "capabilities", &["b", "gpu", "a"]),
        ("watch rule", "ignore", &["b", "a", "c"]), ("develop", "watch", &["{action: sync, path: b}", "{action: rebuild, path: a}"]), ("compose", "include", &["b", "{path: a}", "c"]), ("include", "path", &["b", "a", "c"]), ("include", "env_file", &["b", "a", "c"]),
        ("blkio config", "weight_device", &["{path: /b, weight: 10}", "{path: /a, weight: 20}"]), ("blkio config", "device_read_bps", &["{path: /b, rate: 1kb}", "{path: /a, rate: 2kb}"]),
    ];
    let all = parts();
    let go = |part: &str, key: &'static str, val: &str| -> Result<(Y, Y), String> {
        let p = all.iter().find(|p| p.name == part).unwrap();
        let mut m = map(&base(p));
        m.as_mapping_mut().unwrap().insert(key.into(), y(val));
        let text = serde_yaml::to_string(&m).unwrap();
        let (_, back) = (p.go)(m.clone(), &text)?;
        Ok((m[key].clone(), back[key].clone()))
    };
    for round in 0..4 * cx.effort {
        for (part, key, ks, v) in maps {
            let mut ks = ks.to_vec();
            if round > 0 {
                shuffle(&mut ks, cx);
            }
            let val = format!("{{{}}}", ks.iter().map(|k| format!("{k}: {v}")).collect::<Vec<_>>().join(", "));
            cx.case(rule, &format!("{part}: {key}: {val}"), || {
                let (given, back) = go(part, key, &val)?;
                eq("written", &back, &given)?;
                eq("keys", back.as_mapping().map(|m| m.keys().cloned().collect::<Vec<_>>()), given.as_mapping().map(|m| m.keys().cloned().collect()))
            });
        }
        for (part, key, vs) in lists {
            let mut vs = vs.to_vec();
            if round > 0 {
                shuffle(&mut vs, cx);
            }
            let val = format!("[{}]", vs.join(", "));
            cx.case(rule, &format!("{part}: {key}: {val}"), || {
                let (given, back) = go(part, key, &val)?;
                eq("written", back, given)
            });
        }
    }
}
/// numbers as large and as small as they may be
fn extremes(cx: &mut Cx) {
    let (u64s, u32s, u16s) = (u64::MAX as i128, u32::MAX as i128, u16::MAX as i128);
    let t: &[(&str, &str, &str, i128, i128)] = &[
        ("service", "cpu_count", "@", 0, u64s), ("service", "cpu_percent", "@", 0, 100), ("service", "cpu_shares", "@", 0, u64s), ("service", "mem_swappiness", "@", 0, 100), ("service", "oom_score_adj", "@", -1000, 1000),
        ("service", "cpu_period", "@", 0, u64s), ("service", "cpu_quota", "@", 0, u64s),
        ("service", "pids_limit", "@", -1, u32s), ("service", "scale", "@", 0, u64s), ("service", "expose", "[@]", 0, u16s), ("service", "ulimits", "{nproc: @}", -1, u64s), ("service", "ports", "[{target: @}]", 0, u16s),
        ("service", "group_add", "[@]", 0, u32s),
        ("network of a service", "priority", "@", 0, u64s), ("limits", "pids", "@", -1, u32s), ("reserved device", "count", "@", 0, u64s), ("discrete resource", "value", "@", 0, u64s),
        ("generic resource", "discrete_resource_spec", "{value: @}", 0, u64s),
        ("ulimit", "soft", "@", -1, u64s), ("ulimit", "hard", "@", -1, u64s), ("deploy", "replicas", "@", 0, u64s), ("placement", "max_replicas_per_node", "@", 0, u64s), ("restart policy", "max_attempts", "@", 0, u64s),
        ("update config", "parallelism", "@", 0, u64s), ("update config", "max_failure_ratio", "@", 0, u64s), ("blkio config", "weight", "@", 10, 1000), ("blkio config", "device_read_iops", "[{path: /a, rate: @}]", 0, u64s), ("blkio config", "device_write_iops", "[{path: /a, rate: @}]", 0, u64s),
        ("blkio config", "weight_device", "[{path: /a, weight: @}]", 10, 1000), ("healthcheck command", "retries", "@", 0, u64s), ("config or secret", "uid", "'@'", 0, u32s), ("config or secret", "gid", "'@'", 0, u32s), ("config or secret", "mode", "@", 0, u32s),
        ("tmpfs options", "mode", "@", 0, u32s), ("port", "target", "@", 0, u16s),
        ("service", "environment", "{a: @}", i64::MIN as i128, u64s), ("service", "sysctls", "{a: @}", i64::MIN as i128, u64s), ("service", "x-e", "@", i64::MIN as i128, u64s), ("build", "args", "{a: @}", i64::MIN as i128, u64s), ("network", "driver_opts", "{a: @}", i64::MIN as i128, u64s),
    ];
    let all = parts();
    for (part, key, tpl, lo, hi) in t {
        let p = all.iter().find(|p| p.name == *part).unwrap();
        let go = |n: i128| {
            let mut m = map(&base(p));
            m.as_mapping_mut().unwrap().insert((*key).into(), y(&tpl.replace('@', &n.to_string())));
            let (_, back) = (p.go)(m.clone(), &serde_yaml::to_string(&m).unwrap())?;
            eq("written", back, m)
        };
        let mut ns = vec![*lo, lo + 1, *hi, hi - 1, (lo + hi) / 2];
        // about the bounds of other widths
        ns.extend([7, 8, 15, 16, 24, 31, 32, 33, 53, 63].into_iter().flat_map(|b| [(1i128 << b) - 1, 1 << b, (1 << b) + 1]).filter(|n| lo <= n && n <= hi));
        for _ in 0..20 * cx.effort {
            ns.push(((cx.below(1 << 32) as i128) << 32 | cx.below(1 << 32) as i128) % (hi - lo + 1) + lo);
        }
        for n in ns {
            cx.case("numbers in range are read and written as they are", &format!("{part}: {key}: {}", tpl.replace('@', &n.to_string())), || go(n));
        }
        if *lo >= -1000 && *key != "group_add" && *key != "cpu_period" && *key != "cpu_quota" {
            let mut out = vec![lo - 1, lo - 2];
            if *hi < u64s {
                out.extend([hi + 1, hi + 256, hi + 65536, u64s]);
            }
            for n in out {
                cx.case("numbers out of range are refused", &format!("{part}: {key}: {}", tpl.replace('@', &n.to_string())), || {
                    ensure(matches!(go(n), Err(e) if e.starts_with("rejected")), || "not refused".into())
                });
            }
        }
    }
}
/// keys that are not known
fn unknown(cx: &mut Cx) {
    for p in parts() {
        if !p.keys.iter().any(|k| k.0 == "x-e") {
            continue;
        }
        let known: Vec<&str> = p.base.iter().chain(p.keys).map(|k| k.0).collect();
        let mut ks: Vec<String> = ["zzz", "X-e", "x_e", "x", "", "-", "xx-e", " x-e", "x -e", "extensions", "Image", "<<", "é"].map(String::from).into();
        // near the known ones
        for k in &known {
            ks.extend([format!("{k}s"), k.to_uppercase(), k.replace('_', "-"), format!("{k} "), k[1..].to_owned()]);
        }
        let others: &[&str] = match p.name {
            // keys this one has and the table does not
            "service" | "service with a network mode" => &["network_mode"],
            "healthcheck command" => &["disable"],
            "build" => &["dockerfile_inline"],
            "config" | "secret" => &["file", "environment", "content", "external", "name"],
            _ => &[],
        };
        for k in ks {
            if known.contains(&k.as_str()) || others.contains(&k.as_str()) || k.starts_with("x-") || parts().iter().any(|q| same(p.name, q.name) && q.base.iter().chain(q.keys).any(|e| e.0 == k)) {
                continue;
            }
            let mut m = map(&base(&p));
            m.as_mapping_mut().unwrap().insert(k.clone().into(), 1.into());
            cx.case("a key that is neither known nor an extension is refused", &format!("{}: {k:?}", p.name), || {
                let t = serde_yaml::to_string(&m).unwrap();
                ensure(matches!((p.go)(m.clone(), &t), Err(e) if e.starts_with("rejected")), || "not refused".into())
            });
        }
        // names of extensions, near the known keys among them
        let near: Vec<String> = known.iter().flat_map(|k| [format!("x-{k}"), format!("x-{}", k.replace('_', "-"))]).collect();
        for k in ["x-", "x-é", "x-x-y", "x-name", "x-1", "x- a", "x-:"].into_iter().chain(near.iter().map(String::as_str)) {
            for v in ["null", "true", "-1", "1.5", "''", "'1'", "[]", "{}", "[null, {a: []}]", "{b: {c: 1}, a: ~}"] {
                let mut m = map(&base(&p));
                m.as_mapping_mut().unwrap().insert(k.into(), y(v));
                cx.case("extensions are kept as they are", &format!("{}: {k}: {v}", p.name), || {
                    let (_, back) = (p.go)(m.clone(), &serde_yaml::to_string(&m).unwrap())?;
                    eq("written", &back, &m)
                });
            }
        }
    }
}
/// parts of the same type
fn same(a: &str, b: &str) -> bool {
    a.split(' ').next() == b.split(' ').next() || (a.ends_with("mount") && b.ends_with("mount"))
}
/// values of all kinds, where they may not be meant to be: refused, or read and written without loss
fn odd_values(cx: &mut Cx) {
    const ODD: &[&str] = &[
        "null", "true", "false", "0", "1", "-1", "5", "300", "70000", "4294967296", "18446744073709551615", "-9223372036854775808", "0.5", "1.0", "1e3", "-0.0", "''", "' '", "a", "A", "'1'", "'-1'", "'true'", "'null'", "'0.5'", "'1.0'", "1s", "1kb", "a:b", "a=b", "/a", "./a", "a/b", "/a:/b",
        "10.0.0.1", "'::1'", "'80:80'", "80-81", "all", "none", "host", "'@'", "é", "[]", "[a]", "[a, a]", "[a, b]", "[1]", "[1, 1]", "['1', 1]", "[true, 1.5]", "[null]", "[[]]", "[{}]", "[/a, /a]", "['a=b', 'a=c']", "{}", "{a: b}", "{a: 1, b: 1.5, c: true, d: null}", "{A: {}}", "{a: []}", "{x-a: 1}", "{a: {x-a: 1}}", "{a: null}", "{b: c, a: b}",
        "{path: a}", "{source: a}", "{target: 80}", "{type: volume, target: /a}", "[{path: a}]", "[{source: a}]", "[{target: 80}]", "[{type: volume, target: /a}]", "[{type: bind, source: a, target: /a}]", "{file: a}", "{external: true}", "{a: {external: true}}", "{a: {file: f}}", "{service: a}", "{disable: true}", "{disable: true, retries: 1}", "{test: [NONE]}", "{weight: 300}", "{watch: []}",
    ];
    let all = parts();
    for p in &all {
        for (k, _) in p.base.iter().chain(p.keys) {
            for v in ODD {
                let mut m = map(&base(p));
                m.as_mapping_mut().unwrap().insert((*k).into(), y(v));
                cx.case("what is accepted survives", &format!("{}: {k}: {v}", p.name), || survives(p, &m));
            }
        }
        // two at once
        for _ in 0..100 * cx.effort {
            let mut m = full(p, cx);
            for _ in 0..2 {
                let i = cx.below(m.len());
                m[i].1 = ODD[cx.below(ODD.len())];
            }
            cx.case("what is accepted survives", &format!("{}: {}", p.name, text(&m)), || survives(p, &map(&m)));
        }
    }
}
fn has(v: &Y, f: &dyn Fn(&Y) -> bool) -> bool {
    f(v) || match v {
        Y::Sequence(s) => s.iter().any(|v| has(v, f)),
        Y::Mapping(m) => m.values().any(|v| has(v, f)),
        _ => false,
    }
}
fn survives(p: &Part, m: &Y) -> R {
    let text = serde_yaml::to_string(m).unwrap();
    match (p.go)(m.clone(), &text) {
        Err(e) if e.starts_with("rejected") => Ok(()),
        // (a null where a list or a map is meant is nothing to serde_yaml's values and refused by its texts)
        Err(e) if e.starts_with("text rejected") && has(m, &Y::is_null) => Ok(()),
        // (a list or map with nothing in it is left out, whichever of the two it was)
        Err(e) if e.starts_with("read back") && has(m, &|v| matches!(v, Y::Sequence(s) if s.is_empty()) || matches!(v, Y::Mapping(m) if m.is_empty())) => Ok(()),
        Err(e) => Err(e),
        Ok((_, back)) => {
            // once in the form it is written in it stays so
            let text = serde_yaml::to_string(&back).unwrap();
            let (_, again) = (p.go)(back.clone(), &text)?;
            eq("written again", &again, &back)?;
            eq("text written again", serde_yaml::to_string(&again).unwrap(), text)
        }
    }
}
/// all ways of reading a document
fn ways(text: &str, merge: bool) -> Vec<(&'static str, Result<Compose, String>)> {
    let mut o = Options::default();
    o.apply_merge(merge);
    let mut b = Compose::options();
    let b = b.apply_merge(!merge).apply_merge(merge);
    let err = |e: serde_yaml::Error| e.to_string();
    let v = serde_yaml::from_str::<Y>(text).map_err(err);
    let mut ws = vec![
        ("from_yaml_str", o.from_yaml_str(text).map_err(err)),
        ("from_yaml_reader", o.from_yaml_reader(text.as_bytes()).map_err(err)),
        ("from_yaml_reader, slowly", o.from_yaml_reader(Slow(text.as_bytes())).map_err(err)),
        ("from_yaml_slice", o.from_yaml_slice(text.as_bytes()).map_err(err)),
        ("from_yaml_value", v.clone().and_then(|v| o.from_yaml_value(v).map_err(err))),
        ("Compose::options", b.from_yaml_str(text).map_err(err)),
    ];
    if !merge {
        ws.push(("from_str", serde_yaml::from_str(text).map_err(err)));
        ws.push(("from_value", v.clone().and_then(|v| serde_yaml::from_value(v).map_err(err))));
        ws.push(("default options", Compose::options().from_yaml_str(text).map_err(err)));
        ws.push(("default options, reader", Options::default().from_yaml_reader(text.as_bytes()).map_err(err)));
        ws.push(("default options, slice", Options::default().from_yaml_slice(text.as_bytes()).map_err(err)));
    }
    if merge {
        ws.push(("merged before", v.clone().and_then(|mut v| { v.apply_merge().map_err(err)?; serde_yaml::from_value(v).map_err(err) })));
    }
    ws
}
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(3);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn agree(text: &str, merge: bool) -> Result<Option<Compose>, String> {
    let mut ws = ways(text, merge).into_iter();
    let (_, first) = ws.next().unwrap();
    for (n, w) in ws {
        ensure(w.as_ref().ok() == first.as_ref().ok(), || format!("{n} gives {w:?}, from_yaml_str {first:?}"))?;
    }
    Ok(first.ok())
}
fn reading(cx: &mut Cx) {
    let all = parts();
    let service = all.iter().find(|p| p.name == "service").unwrap();
    let compose = all.iter().find(|p| p.name == "compose").unwrap();
    let doc = |cx: &mut Cx, merge: bool| -> String {
        let mut t = String::new();
        for (k, vs) in compose.keys {
            if *k != "include" && cx.chance(1, 2) {
                t += &format!("{k}: {}\n", vs[cx.below(vs.len())]);
            }
        }
        t += "services:\n";
        for i in 0..cx.below(4) {
            t += &format!("  s{i}:\n    init: false\n");
            for (k, vs) in service.keys {
                if *k != "init" && cx.chance(1, 6) {
                    t += &format!("    {k}: {}\n", vs[cx.below(vs.len())]);
                }
            }
            if merge {
                match cx.below(4) {
                    0 => t += "    <<: {tty: true}\n",
                    1 => t += "    <<: [{stdin_open: true}, {stdin_open: false, x-y: 1}]\n",
                    2 => t += "    x-z: {<<: {a: 1}, b: 2}\n",
                    _ => {}
                }
            }
        }
        if t.ends_with("services:\n") {
            t.truncate(t.len() - 1);
            t += " {}\n";
        }
        t
    };
    for _ in 0..60 * cx.effort {
        let t = doc(cx, false);
        cx.case("all ways of reading a document agree", &t, || {
            let c = agree(&t, false)?.ok_or("not read")?;
            eq("read with merging", agree(&t, true)?.as_ref(), Some(&c))?;
            let back = serde_yaml::to_string(&c).map_err(|e| e.to_string())?;
            eq("read back", agree(&back, false)?.as_ref(), Some(&c))
        });
        let t = doc(cx, true);
        cx.case("all ways of reading a document agree, with merging and without", &t, || {
            let merged = agree(&t, true)?;
            let plain = agree(&t, false)?;
            ensure(merged.is_some(), || "not read with merging".into())?;
            // without merging `<<` is no key of a service
            ensure(plain.is_some() != t.contains("\n    <<: "), || format!("read without merging: {plain:?}"))
        });
    }
    // what merging does
    let same: &[(&str, &str)] = &[
        ("x-a: &a {image: i, tty: true}\nservices: {s: {<<: *a, tty: false}}\n", "x-a: {image: i, tty: true}\nservices: {s: {image: i, tty: false}}\n"),
        ("services: {a: &a {environment: &e {A: 1, B: 2}}, b: {environment: {<<: *e, B: 3}}}\n", "services: {a: {environment: {A: 1, B: 2}}, b: {environment: {A: 1, B: 3}}}\n"),
        ("x-a: &a {tty: true}\nx-b: &b {tty: false, init: true}\nservices: {s: {<<: [*a, *b]}}\n", "x-a: {tty: true}\nx-b: {tty: false, init: true}\nservices: {s: {tty: true, init: true}}\n"),
        ("x-a: {<<: {b: 1}, c: 2}\nservices: {}\n", "x-a: {b: 1, c: 2}\nservices: {}\n"),
        ("<<: {name: n}\nservices: {}\n", "name: n\nservices: {}\n"),
        ("<<: {services: {s: {image: i}}}\n", "services: {s: {image: i}}\n"),
        ("x-a: 1\n<<: [{x-a: 2, x-b: 3}, {services: {}, name: n}]\n", "x-a: 1\nx-b: 3\nservices: {}\nname: n\n"),
        ("services: {}\nnetworks: {n: {<<: {driver: d}}}\nvolumes: {v: {<<: {driver: d}}}\n", "services: {}\nnetworks: {n: {driver: d}}\nvolumes: {v: {driver: d}}\n"),
    ];
    for (with, want) in same {
        cx.case("merging puts the merged keys into the map", with, || {
            let (a, b) = (agree(with, true)?, agree(want, false)?);
            ensure(b.is_some(), || "not read".into())?;
            eq("merged", a, b)
        });
    }
    // bytes which are no text
    for at in 0..5 {
        for junk in [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\x80"] {
            let pieces: [&[u8]; 5] = [b"name: n", b" # a", b"\nservices: {s: {image: i", b"}}\nx-a: 'b", b"'\n"];
            let mut doc = Vec::new();
            for (i, p) in pieces.iter().enumerate() {
                doc.extend_from_slice(p);
                if i == at {
                    doc.extend_from_slice(junk);
                }
            }
            cx.case("bytes which are no text are refused", &String::from_utf8_lossy(&doc), || {
                for merge in [false, true] {
                    let mut o = Compose::options();
                    o.apply_merge(merge);
                    ensure(o.from_yaml_slice(&doc).is_err(), || format!("accepted from bytes {doc:?} (merging: {merge})"))?;
                    ensure(o.from_yaml_reader(&doc[..]).is_err(), || format!("accepted from a reader of {doc:?} (merging: {merge})"))?;
                }
                Ok(())
            });
        }
    }
    for bad in ["", "a", "[]", "services: []", "services: {}\nzzz: 1", "services: {a: {zzz: 1}}", "services: {'': {}}", "services: {a b: {}}", "x-a: 1", "services: {}\nnetworks: {a: 1}", "services: {}\nvolumes: []", "services: {}\nconfigs: {a: null}", "services: {}\nname: A", "{services: {}, services: {}}", "services: {", "\u{0}", "services: {a: {<<: 1}}"] {
        cx.case("what is no Compose file is refused in all ways", bad, || {
            ensure(agree(bad, false)?.is_none(), || "accepted".into())?;
            ensure(agree(bad, true)?.is_none(), || "accepted with merging".into())
        });
    }
}
pub fn run(cx: &mut Cx) {
    key_order(cx);
    inner_order(cx);
    extremes(cx);
    unknown(cx);
    odd_values(cx);
    reading(cx);
}
