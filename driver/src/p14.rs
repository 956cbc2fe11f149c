//! Validation: every network, volume, config and secret which a service names must be defined.
use crate::core::*;
use compose_spec::Compose;
use std::collections::BTreeSet;

const KINDS: [&str; 4] = ["network", "volume", "config", "secret"];

/// what a generated file names and defines, read off the generator and not the crate
#[derive(Default, Clone, Debug)]
struct File {
    /// per kind, the names defined at the top level
    top: [Vec<(String, &'static str)>; 4],
    services: Vec<Svc>,
}
#[derive(Default, Clone, Debug)]
struct Svc {
    name: String,
    /// 0: none, 1: list, 2: map, 3: network mode
    net_form: usize,
    networks: Vec<String>,
    volumes: Vec<(usize, String)>,
    configs: Vec<(usize, String)>,
    secrets: Vec<(usize, String)>,
    /// 0: none, 1: short, 2: long
    build: usize,
    build_secrets: Vec<(usize, String)>,
    extra_first: bool,
}

impl Svc {
    fn uses(&self, kind: usize) -> Vec<String> {
        match kind {
            0 if self.net_form == 1 || self.net_form == 2 => self.networks.clone(),
            0 => vec![],
            1 => self.volumes.iter().filter(|(f, _)| *f < VOL_NAMED).map(|(_, n)| n.clone()).collect(),
            2 => self.configs.iter().map(|(_, n)| n.clone()).collect(),
            _ => {
                let mut v: Vec<String> = self.secrets.iter().map(|(_, n)| n.clone()).collect();
                if self.build == 2 {
                    v.extend(self.build_secrets.iter().map(|(_, n)| n.clone()));
                }
                v
            }
        }
    }
}
/// volume forms below this name a volume
const VOL_NAMED: usize = 5;

fn volume(form: usize, n: &str, i: usize) -> String {
    match form {
        0 => format!("{n}:/m{i}"),
        1 => format!("{n}:/m{i}:ro"),
        2 => format!("{n}:/m{i}:z"),
        3 => format!("{{type: volume, source: {n}, target: /m{i}}}"),
        4 => format!("{{type: volume, source: {n}, target: /m{i}, read_only: true, volume: {{nocopy: true}}}}"),
        5 => format!("/{n}:/m{i}"),
        6 => format!("./{n}:/m{i}:ro"),
        7 => format!("/m{i}"),
        8 => format!("{{type: volume, target: /m{i}}}"),
        9 => format!("{{type: bind, source: /{n}, target: /m{i}}}"),
        10 => format!("{{type: tmpfs, target: /m{i}}}"),
        _ => format!("{{type: npipe, source: ./{n}, target: /m{i}}}"),
    }
}
fn source(form: usize, n: &str) -> String {
    match form {
        0 => n.to_string(),
        1 => format!("{{source: {n}}}"),
        2 => format!("{{source: {n}, target: /t/other, uid: \"1\"}}"),
        // a target which is some other resource's name
        _ => format!("{{source: {n}, target: a, mode: 292}}"),
    }
}

impl File {
    fn yaml(&self) -> String {
        let mut o = String::new();
        let top = |o: &mut String| {
            for (k, t) in KINDS.iter().zip(&self.top) {
                if t.is_empty() {
                    continue;
                }
                o.push_str(&format!("{k}s:\n"));
                for (n, v) in t {
                    o.push_str(&format!("  {n}: {v}\n"));
                }
            }
        };
        let first = self.services.first().is_some_and(|s| s.extra_first);
        if first {
            top(&mut o);
        }
        o.push_str("services:\n");
        for s in &self.services {
            o.push_str(&format!("  {}:\n    image: i\n", s.name));
            match s.net_form {
                1 => o.push_str(&format!("    networks: [{}]\n", s.networks.join(", "))),
                2 => {
                    o.push_str("    networks:\n");
                    for (i, n) in s.networks.iter().enumerate() {
                        o.push_str(&format!("      {n}: {}\n", ["", "{aliases: [a]}", "{priority: 1}"][i % 3]));
                    }
                    if s.networks.is_empty() {
                        o = o.trim_end().to_string() + " {}\n";
                    }
                }
                3 => o.push_str("    network_mode: host\n"),
                _ => {}
            }
            for (key, list) in [("configs", &s.configs), ("secrets", &s.secrets)] {
                if !list.is_empty() {
                    o.push_str(&format!("    {key}: [{}]\n", list.iter().map(|(f, n)| source(*f, n)).collect::<Vec<_>>().join(", ")));
                }
            }
            if !s.volumes.is_empty() {
                o.push_str("    volumes:\n");
                for (i, (f, n)) in s.volumes.iter().enumerate() {
                    o.push_str(&format!("      - {}\n", volume(*f, n, i)));
                }
            }
            match s.build {
                1 => o.push_str("    build: ./dir\n"),
                2 => {
                    o.push_str("    build:\n      context: .\n");
                    if !s.build_secrets.is_empty() {
                        o.push_str(&format!("      secrets: [{}]\n", s.build_secrets.iter().map(|(f, n)| source(*f, n)).collect::<Vec<_>>().join(", ")));
                    }
                }
                _ => {}
            }
        }
        if !first {
            top(&mut o);
        }
        o
    }
    /// the names of `kind` which must be defined and are not, with the services that name each
    fn missing(&self, kind: usize) -> Vec<(String, Vec<String>)> {
        let defined: BTreeSet<&str> = self.top[kind].iter().map(|(n, _)| n.as_str()).collect();
        let mut out: Vec<(String, Vec<String>)> = vec![];
        for s in &self.services {
            let uses: BTreeSet<String> = s.uses(kind).into_iter().collect();
            for n in uses {
                if defined.contains(n.as_str()) {
                    continue;
                }
                match out.iter_mut().find(|(m, _)| *m == n) {
                    Some((_, u)) => u.push(s.name.clone()),
                    None => out.push((n, vec![s.name.clone()])),
                }
            }
        }
        if kind == 1 {
            // a volume only one service uses need not be defined
            out.retain(|(_, u)| u.len() > 1);
        }
        out
    }
}

fn check(cx: &mut Cx, f: &File) {
    let text = f.yaml();
    cx.case("a file validates exactly when what its services name is defined", &text.clone(), || {
        let c: Compose = serde_yaml::from_str(&text).map_err(|e| format!("not read: {e}"))?;
        let before = c.clone();
        let results = [c.validate_networks(), c.validate_volumes(), c.validate_configs(), c.validate_secrets()];
        for (k, r) in results.iter().enumerate() {
            let missing = f.missing(k);
            eq(&format!("validate_{}s accepts", KINDS[k]), r.is_ok(), missing.is_empty())?;
            let Err(e) = r else { continue };
            let msg = e.to_string();
            let words: Vec<&str> = msg.split(|c: char| !(c.is_alphanumeric() || "._-".contains(c))).filter(|w| !w.is_empty()).collect();
            // resources are named `r-..`, services `svc..`
            let named: Vec<&str> = words.iter().copied().filter(|w| w.starts_with("r-")).collect();
            if named.is_empty() {
                return Err(format!("the error names no resource: {msg}"));
            }
            for n in named {
                let Some((_, users)) = missing.iter().find(|(m, _)| m == n) else {
                    return Err(format!("validate_{}s reports `{n}`, which is not an undefined reference: {msg}", KINDS[k]));
                };
                for s in words.iter().filter(|w| w.starts_with("svc")) {
                    if !users.iter().any(|u| u == s) {
                        return Err(format!("validate_{}s reports `{s}`, which does not use `{n}`: {msg}", KINDS[k]));
                    }
                }
            }
            if KINDS[k] != "volume" && !words.iter().any(|w| w.starts_with("svc")) {
                return Err(format!("the error names no service: {msg}"));
            }
            if !words.contains(&KINDS[k]) {
                return Err(format!("the error does not say it is a {}: {msg}", KINDS[k]));
            }
        }
        let first = results.into_iter().find(|r| r.is_err()).unwrap_or(Ok(()));
        eq("validate_all is the first failure", format!("{:?}", c.validate_all()), format!("{first:?}"))?;
        eq("validation changes nothing", c == before, true)
    });
}

pub fn run(cx: &mut Cx) {
    let names = ["r-a", "r-b", "r-a.x", "r-A", "r-a_b", "r-0"];
    let tops: [&[&'static str]; 4] = [
        &["", "{}", "{driver: bridge}", "{external: true}", "{external: true, name: r-b}"],
        &["", "{}", "{driver: local}", "{external: true}", "{external: true, name: r-b}"],
        &["{file: ./r-b}", "{environment: r-b}", "{content: r-b}", "{external: true}", "{external: true, name: r-b}"],
        &["{file: ./r-b}", "{environment: r-b}", "{external: true}", "{external: true, name: r-b}"],
    ];
    // one reference of each kind and form, defined or not, in the first, middle or last of three services
    for kind in 0..4 {
        for form in 0..12 {
            for users in 0..8usize {
                for defined in [false, true] {
                    let mut f = File::default();
                    for i in 0..3 {
                        let mut s = Svc { name: format!("svc{i}"), ..Svc::default() };
                        if users >> i & 1 == 1 {
                            let r = "r-a".to_string();
                            match kind {
                                0 => {
                                    s.net_form = 1 + form % 3;
                                    s.networks.push(r);
                                }
                                1 => s.volumes.push((form, r)),
                                2 => s.configs.push((form % 4, r)),
                                _ if form < 4 => s.secrets.push((form, r)),
                                _ => {
                                    s.build = 2;
                                    s.build_secrets.push((form % 4, r));
                                }
                            }
                        }
                        f.services.push(s);
                    }
                    for k in 0..4 {
                        // defined as another kind does not count
                        if defined == (k == kind) {
                            f.top[k].push(("r-a".into(), tops[k][form % tops[k].len()]));
                        }
                    }
                    check(cx, &f);
                }
            }
        }
    }
    // the same volume twice in one service
    for a in 0..12 {
        for b in 0..12 {
            for second in [false, true] {
                let mut f = File::default();
                let mut s = Svc { name: "svc0".into(), ..Svc::default() };
                s.volumes = vec![(a, "r-a".into()), (b, "r-a".into())];
                f.services.push(s);
                let mut t = Svc { name: "svc1".into(), ..Svc::default() };
                if second {
                    t.volumes = vec![(b, "r-a".into())];
                }
                f.services.push(t);
                check(cx, &f);
            }
        }
    }
    for _ in 0..6000 * cx.effort {
        let mut f = File::default();
        let density = 1 + cx.below(6);
        for k in 0..4 {
            for n in names {
                if cx.below(6) < density {
                    f.top[k].push((n.to_string(), tops[k][cx.below(tops[k].len())]));
                }
            }
        }
        let n = 1 + cx.below(4);
        let mut pick = |cx: &mut Cx, max: usize, forms: usize| -> Vec<(usize, String)> {
            let n = if cx.chance(1, 3) { 0 } else { cx.below(max + 1) };
            (0..n).map(|_| (cx.below(forms), names[cx.below(names.len())].to_string())).collect()
        };
        for i in 0..n {
            let mut s = Svc { name: format!("svc{i}"), net_form: cx.below(4), build: cx.below(3), extra_first: cx.chance(1, 2), ..Svc::default() };
            for (_, n) in pick(cx, 3, 1) {
                if !s.networks.contains(&n) {
                    s.networks.push(n);
                }
            }
            s.volumes = pick(cx, 3, 12);
            s.configs = pick(cx, 2, 4);
            s.secrets = pick(cx, 2, 4);
            s.build_secrets = pick(cx, 2, 4);
            f.services.push(s);
        }
        check(cx, &f);
    }
}
