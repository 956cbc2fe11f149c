//! Platforms.
use crate::core::*;
use compose_spec::service::platform::*;
use std::collections::{HashMap, HashSet};

type V = Vec<&'static str>;
const ARCHS: &[(&str, &[&str])] = &[
    ("386", &[]), ("amd64", &[]), ("arm", &["v6", "v7", "v8"]), ("arm64", &["v8"]), ("loong64", &[]), ("mips", &[]), ("mipsle", &[]),
    ("mips64", &[]), ("mips64le", &[]), ("ppc64", &[]), ("ppc64le", &[]), ("riscv64", &[]), ("s390x", &[]), ("wasm", &[]),
];
const OSES: &[(&str, &str)] = &[
    ("aix", "ppc64"), ("android", "386 amd64 arm arm64"), ("darwin", "amd64 arm64"), ("dragonfly", "amd64"), ("freebsd", "386 amd64 arm"),
    ("illumos", "amd64"), ("ios", "arm64"), ("js", "wasm"),
    ("linux", "386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x"),
    ("netbsd", "386 amd64 arm"), ("openbsd", "386 amd64 arm arm64"), ("plan9", "386 amd64 arm"), ("solaris", "amd64"), ("wasip1", "wasm"),
    ("windows", "386 amd64 arm arm64"),
];

/// every platform value with the text it should have
fn platforms() -> Vec<(Platform, Os, Option<Arch>, String)> {
    let mut out = Vec::new();
    macro_rules! archs {
        ($os:ident, $t:literal, $ty:ident: $($v:ident $s:literal),* ; $($arm:ident $as:literal),*) => {{
            out.push((Platform::$os(None), Os::$os, None, $t.to_string()));
            $( out.push((Platform::$os(Some($ty::$v)), Os::$os, Some(Arch::$v), format!("{}/{}", $t, $s))); )*
            $( archs!(@ $os, $t, $ty, $arm, $as); )*
        }};
        (@ $os:ident, $t:literal, $ty:ident, Arm, $as:literal) => {
            out.push((Platform::$os(Some($ty::Arm(None))), Os::$os, Some(Arch::Arm(None)), format!("{}/arm", $t)));
            for (v, s) in [(ArmVariant::V6, "v6"), (ArmVariant::V7, "v7"), (ArmVariant::V8, "v8")] {
                out.push((Platform::$os(Some($ty::Arm(Some(v)))), Os::$os, Some(Arch::Arm(Some(v))), format!("{}/arm/{s}", $t)));
            }
        };
        (@ $os:ident, $t:literal, $ty:ident, Arm64, $as:literal) => {
            out.push((Platform::$os(Some($ty::Arm64(None))), Os::$os, Some(Arch::Arm64(None)), format!("{}/arm64", $t)));
            out.push((Platform::$os(Some($ty::Arm64(Some(Arm64Variant::V8)))), Os::$os, Some(Arch::Arm64(Some(Arm64Variant::V8))), format!("{}/arm64/v8", $t)));
        };
    }
    archs!(Aix, "aix", AixArch: Ppc64 "ppc64";);
    archs!(Android, "android", AndroidArch: _386 "386", Amd64 "amd64"; Arm "arm", Arm64 "arm64");
    archs!(Darwin, "darwin", DarwinArch: Amd64 "amd64"; Arm64 "arm64");
    archs!(DragonFly, "dragonfly", DragonFlyArch: Amd64 "amd64";);
    archs!(FreeBsd, "freebsd", FreeBsdArch: _386 "386", Amd64 "amd64"; Arm "arm");
    archs!(Illumos, "illumos", IllumosArch: Amd64 "amd64";);
    archs!(IOs, "ios", IOsArch: ; Arm64 "arm64");
    archs!(Js, "js", JsArch: Wasm "wasm";);
    archs!(Linux, "linux", LinuxArch: _386 "386", Amd64 "amd64", Loong64 "loong64", Mips "mips", MipsLe "mipsle", Mips64 "mips64",
        Mips64Le "mips64le", Ppc64 "ppc64", Ppc64Le "ppc64le", RiscV64 "riscv64", S390x "s390x"; Arm "arm", Arm64 "arm64");
    archs!(NetBsd, "netbsd", NetBsdArch: _386 "386", Amd64 "amd64"; Arm "arm");
    archs!(OpenBsd, "openbsd", OpenBsdArch: _386 "386", Amd64 "amd64"; Arm "arm", Arm64 "arm64");
    archs!(Plan9, "plan9", Plan9Arch: _386 "386", Amd64 "amd64"; Arm "arm");
    archs!(Solaris, "solaris", SolarisArch: Amd64 "amd64";);
    archs!(WasiP1, "wasip1", WasiP1Arch: Wasm "wasm";);
    archs!(Windows, "windows", WindowsArch: _386 "386", Amd64 "amd64"; Arm "arm", Arm64 "arm64");
    out
}

/// the value a type gives for a text through each way of reading it, and what it prints
fn ways<T>(s: &str) -> R
where
    T: std::str::FromStr + for<'a> TryFrom<&'a str> + std::fmt::Display + AsRef<str> + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let p: Option<T> = s.parse().ok();
    eq("TryFrom<&str>", T::try_from(s).ok().as_ref(), p.as_ref())?;
    let doc = serde_json::Value::String(s.to_owned());
    eq("document", serde_json::from_value::<T>(doc.clone()).ok().as_ref(), p.as_ref())?;
    eq("yaml document", serde_yaml::from_value::<T>(serde_yaml::Value::String(s.to_owned())).ok().as_ref(), p.as_ref())?;
    if let Some(p) = p {
        eq("prints the text it was parsed from", p.to_string(), s.to_owned())?;
        eq("AsRef", p.as_ref(), s)?;
        eq("written document", serde_json::to_value(&p).ok(), Some(doc))?;
    }
    Ok(())
}

pub fn run(cx: &mut Cx) {
    let all = platforms();
    let mut arch_texts: HashSet<String> = HashSet::new();
    for (a, vs) in ARCHS {
        arch_texts.insert(a.to_string());
        arch_texts.extend(vs.iter().map(|v| format!("{a}/{v}")));
    }
    let os_archs = |i: usize| -> V { OSES[i].1.split(' ').collect() };
    let mut want: HashMap<String, usize> = HashMap::new();
    for (i, (p, os, arch, text)) in all.iter().enumerate() {
        want.insert(text.clone(), i);
        cx.case("a platform prints its parts and reads back", text, || {
            eq("as_str", p.as_str(), text.as_str())?;
            eq("Display", p.to_string(), text.clone())?;
            eq("os", p.os(), *os)?;
            eq("arch", p.arch(), *arch)?;
            eq("parse", text.parse().ok(), Some(*p))?;
            eq("os text", os.as_str(), text.split('/').next().unwrap())?;
            eq("arch text", arch.as_ref().map(|a| a.as_str()), text.split_once('/').map(|x| x.1))?;
            eq("os alone", (Platform::from(*os).os(), Platform::from(*os).arch()), (*os, None))
        });
    }
    // every supported combination is a platform, and no other
    let table: usize = (0..OSES.len()).map(|i| 1 + os_archs(i).iter().map(|a| 1 + ARCHS.iter().find(|x| x.0 == *a).unwrap().1.len()).sum::<usize>()).sum();
    cx.case("every supported combination has one platform", "table", || {
        eq("count", all.len(), table)?;
        eq("distinct texts", want.len(), all.len())?;
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                eq("equality", a.0 == b.0, i == j)?;
            }
        }
        Ok(())
    });
    let mut toks: V = vec!["", "v6", "v7", "v8", "v5", "v9", "V8", "x86_64", "Linux", "linux ", " linux", "armv7", "macos", "arm64v8", "mips64el", "aix "];
    toks.extend(OSES.iter().map(|x| x.0));
    toks.extend(ARCHS.iter().map(|x| x.0));
    let check = |cx: &mut Cx, s: &str| {
        cx.case("a text is the platform it names or an error", s, || {
            eq("Platform", s.parse().ok(), want.get(s).map(|i| all[*i].0))?;
            eq("Os", s.parse::<Os>().ok().map(|o| o.to_string()), OSES.iter().find(|o| o.0 == s).map(|o| o.0.to_owned()))?;
            eq("Arch", s.parse::<Arch>().ok().map(|o| o.to_string()), arch_texts.get(s).cloned())?;
            eq("ArmVariant", s.parse::<ArmVariant>().is_ok(), matches!(s, "v6" | "v7" | "v8"))?;
            eq("Arm64Variant", s.parse::<Arm64Variant>().is_ok(), s == "v8")?;
            ways::<Platform>(s)?;
            ways::<Os>(s)?;
            ways::<Arch>(s)?;
            ways::<ArmVariant>(s)?;
            ways::<Arm64Variant>(s)
        });
        macro_rules! os_arch {
            ($($os:ident $ty:ident $i:literal),*) => { $(
                cx.case(concat!("architectures of ", stringify!($os)), s, || {
                    let ok = arch_texts.contains(s) && os_archs($i).contains(&s.split('/').next().unwrap());
                    eq("accepted", s.parse::<$ty>().is_ok(), ok)?;
                    ways::<$ty>(s)?;
                    eq("OS", $ty::OS.as_str(), OSES[$i].0)?;
                    if let Ok(a) = s.parse::<Arch>() {
                        let r = $ty::try_from(a);
                        eq("from Arch", r.is_ok(), ok)?;
                        match r {
                            Ok(x) => {
                                eq("into Arch", Arch::from(x), a)?;
                                eq("same text", x.as_str(), s)?;
                                eq("platform", Platform::$os(Some(x)).to_string(), format!("{}/{s}", OSES[$i].0))?;
                            }
                            Err(e) => eq("error", (e.arch, e.os), (a, Os::$os))?,
                        }
                    }
                    Ok(())
                });
            )* };
        }
        os_arch!(Aix AixArch 0, Android AndroidArch 1, Darwin DarwinArch 2, DragonFly DragonFlyArch 3, FreeBsd FreeBsdArch 4,
            Illumos IllumosArch 5, IOs IOsArch 6, Js JsArch 7, Linux LinuxArch 8, NetBsd NetBsdArch 9, OpenBsd OpenBsdArch 10,
            Plan9 Plan9Arch 11, Solaris SolarisArch 12, WasiP1 WasiP1Arch 13, Windows WindowsArch 14);
    };
    for a in &toks {
        check(cx, a);
        for b in &toks {
            check(cx, &format!("{a}/{b}"));
        }
    }
    // three parts: platforms with variants; architectures alone are covered above
    for a in OSES.iter().map(|x| x.0).chain(["", "Linux", "linux "]) {
        for b in ARCHS.iter().map(|x| x.0).chain(["", "armv7"]) {
            for c in ["", "v5", "v6", "v7", "v8", "v9", "V8", "arm", " v7"] {
                check(cx, &format!("{a}/{b}/{c}"));
            }
        }
    }
    // one character away from a platform
    let texts: Vec<String> = want.keys().cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    for t in texts {
        check(cx, &format!("{t}/"));
        check(cx, &format!("/{t}"));
        check(cx, &t.to_uppercase());
        for i in 0..t.len() {
            let mut s = t.clone();
            s.remove(i);
            check(cx, &s);
            if cx.effort > 1 {
                for c in ["/", "4", "v", "e", "é"] {
                    let mut s = t.clone();
                    s.insert_str(i, c);
                    check(cx, &s);
                }
            }
        }
    }
}
