#!/usr/bin/env python3
"""Writes contracts/p18_platform.vrs from the table of the Go documentation (GOOS/GOARCH) and the
variants of the OCI image index specification.  Run by hand when the contracts change; not part of a check."""
OS = [("Aix", "aix", "ppc64"), ("Android", "android", "386 amd64 arm arm64"), ("Darwin", "darwin", "amd64 arm64"),
      ("DragonFly", "dragonfly", "amd64"), ("FreeBsd", "freebsd", "386 amd64 arm"), ("Illumos", "illumos", "amd64"),
      ("IOs", "ios", "arm64"), ("Js", "js", "wasm"),
      ("Linux", "linux", "386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x"),
      ("NetBsd", "netbsd", "386 amd64 arm"), ("OpenBsd", "openbsd", "386 amd64 arm arm64"), ("Plan9", "plan9", "386 amd64 arm"),
      ("Solaris", "solaris", "amd64"), ("WasiP1", "wasip1", "wasm"), ("Windows", "windows", "386 amd64 arm arm64")]
ARCH = [("_386", "386"), ("Amd64", "amd64"), ("Arm", "arm"), ("Arm64", "arm64"), ("Loong64", "loong64"), ("Mips", "mips"),
        ("MipsLe", "mipsle"), ("Mips64", "mips64"), ("Mips64Le", "mips64le"), ("Ppc64", "ppc64"), ("Ppc64Le", "ppc64le"),
        ("RiscV64", "riscv64"), ("S390x", "s390x"), ("Wasm", "wasm")]
VARS = {"Arm": ("ArmVariant", [("V6", "v6"), ("V7", "v7"), ("V8", "v8")]), "Arm64": ("Arm64Variant", [("V8", "v8")])}
AV = {t: v for v, t in ARCH}
sq = lambda s: f'"{s}"@'
o = []
p = o.append


def values(ty, v):
    """(expression of a value, its text after the arch name)"""
    if v in VARS:
        t, vs = VARS[v]
        return [(f"{ty}::{v}(None)", "")] + [(f"{ty}::{v}(Some({t}::{x}))", "/" + s) for x, s in vs]
    return [(f"{ty}::{v}", "")]


p('''//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@include std_more.inc
//@include platform_text.inc
// written by tools/gen_platform.py''')
M = "service::platform"
DER = "derive=Clone, Copy, PartialEq, Eq, Structural"
for v, (t, vs) in VARS.items():
    p(f"//@type expanded :: {M}::{t} | {DER}")
p(f"//@type expanded :: {M}::Arch | {DER}")
p(f"//@type expanded :: {M}::Os | {DER}")
for v, n, a in OS:
    p(f"//@type expanded :: {M}::{v}Arch | {DER}")
p(f"//@type expanded :: {M}::Platform | {DER}")
p(f"//@type src/service/platform.rs :: ParseError")
p(f"//@type src/service/platform.rs :: InvalidArchError")
p("// ------------------------------------------------------------ property-level definitions")
for v, (t, vs) in VARS.items():
    p(f"pub open spec fn {t.lower()}_text(v: {t}) -> Seq<char> {{ match v {{ " + ", ".join(f"{t}::{x} => {sq(s)}" for x, s in vs) + " } }")
p("/// `arch[/variant]`")
p("pub open spec fn arch_text(a: Arch) -> Seq<char> { match a { " + ", ".join(
    (f"Arch::{v}(None) => {sq(s)}, Arch::{v}(Some(x)) => join({sq(s)}, {VARS[v][0].lower()}_text(x))" if v in VARS else f"Arch::{v} => {sq(s)}")
    for v, s in ARCH) + " } }")
p("pub open spec fn os_text(o: Os) -> Seq<char> { match o { " + ", ".join(f"Os::{v} => {sq(n)}" for v, n, _ in OS) + " } }")
p("/// `os[/arch[/variant]]`")
p("pub open spec fn text_of(o: Os, a: Option<Arch>) -> Seq<char> { match a { None => os_text(o), Some(a) => join(os_text(o), arch_text(a)) } }")
p("/// the supported combinations (GOOS and GOARCH; any variant of a supported architecture)")
p("pub open spec fn supports(o: Os, a: Arch) -> bool { match o { " + ", ".join(
    f"Os::{v} => " + " || ".join(f"a is {AV[x]}" for x in ar.split()) for v, _, ar in OS) + " } }")
p("/// the operating system and architecture a platform stands for")
p("pub open spec fn os_of(p: Platform) -> Os { match p { " + ", ".join(f"Platform::{v}(_) => Os::{v}" for v, _, _ in OS) + " } }")
for v, n, ar in OS:
    arms = []
    for x in ar.split():
        w = AV[x]
        arms.append(f"{v}Arch::{w}(x) => Arch::{w}(x)" if w in VARS else f"{v}Arch::{w} => Arch::{w}")
    p(f"pub open spec fn {v.lower()}_arch(a: {v}Arch) -> Arch {{ match a {{ " + ", ".join(arms) + " } }")
p("pub open spec fn arch_of(p: Platform) -> Option<Arch> { match p { Platform::Aix(None)" +
  "".join(f" | Platform::{v}(None)" for v, _, _ in OS[1:]) + " => None, " +
  ", ".join(f"Platform::{v}(Some(a)) => Some({v.lower()}_arch(a))" for v, _, _ in OS) + " } }")
p("pub open spec fn platform_text(p: Platform) -> Seq<char> { text_of(os_of(p), arch_of(p)) }")

p("// ------------------------------------------------------------ the texts written out")


def lits(name, parts):
    """join of the parts is the whole text"""
    def e(x):
        return sq(x[0]) if len(x) == 1 else f"join({sq(x[0])}, {e(x[1:])})"
    p(f"pub proof fn {name}()\n    ensures")
    for x in parts:
        p(f"        {e(x)} == {sq('/'.join(x))},")
    p("{")
    for s in sorted({s for x in parts for s in x} | {"/".join(x) for x in parts}):
        p(f"    reveal_strlit(\"{s}\");")
    for x in parts:
        p(f"    assert({e(x)} =~= {sq('/'.join(x))});")
    p("}")


varts = {v: [[s] for _, s in vs] for v, (t, vs) in VARS.items()}
after = lambda w: [[x] for x in []] + ([[AVT[w]]] + [[AVT[w]] + s for s in varts.get(w, [])])
AVT = dict(ARCH)
lits("lit_arch", [x for v, _ in ARCH for x in after(v) if len(x) > 1])
for v, n, ar in OS:
    lits(f"lit_{v.lower()}", [[n] + x for w in ar.split() for x in after(AV[w])])
p("pub proof fn lit_all()\n    ensures")
def je(x):
    return sq(x[0]) if len(x) == 1 else f"join({sq(x[0])}, {je(x[1:])})"
for v, n, ar in OS:
    for w in ar.split():
        for x in after(AV[w]):
            p(f"        {je([n] + x)} == {sq('/'.join([n] + x))},")
p("{ " + " ".join(f"lit_{v.lower()}();" for v, _, _ in OS) + " }")
p("/// a text which is none of these is the text of no platform")
ALL = {v: [n] + ["/".join([n] + x) for w in ar.split() for x in after(AV[w])] for v, n, ar in OS}
for v, n, ar in OS:
    l = v.lower()
    p(f"pub open spec fn no_{l}(s: Seq<char>) -> bool {{ " + " && ".join(f"s != {sq(x)}" for x in ALL[v]) + " }")
    p(f"pub proof fn lemma_no_{l}(s: Seq<char>)\n    requires no_{l}(s),\n    ensures forall|x: Platform| x is {v} ==> #[trigger] platform_text(x) != s,\n"
      f"{{\n    hide(join);\n    lit_{l}();\n}}")
p("pub open spec fn no_platform(s: Seq<char>) -> bool { " + " && ".join(f"no_{v.lower()}(s)" for v, _, _ in OS) + " }")
p("pub proof fn lemma_no_platform(s: Seq<char>)\n    requires no_platform(s),\n    ensures forall|x: Platform| #[trigger] platform_text(x) != s,\n{\n    hide(platform_text);\n    " +
  "\n    ".join(f"hide(no_{v.lower()});" for v, _, _ in OS) + "\n    " + " ".join(f"lemma_no_{v.lower()}(s);" for v, _, _ in OS) + "\n}")

p("// ------------------------------------------------------------ the code")


def texts(t, spec, lit, no=""):
    """as_str, Display, AsRef, FromStr, TryFrom<&str> of one type; spec(x) is its text"""
    s = spec("*self")
    hide = "hide(join);\n"
    h = f"//@proof header\n    {hide}//@proof start\n    proof {{ {lit} }}\n" if lit else ""
    p(f"//@fn expanded :: {M}::{t}::as_str | noreveal\n    ensures r@ == {s}\n{h}//@end" if lit else
      f"//@fn expanded :: {M}::{t}::as_str\n    ensures r@ == {s}\n//@end")
    p(f"//@fn expanded :: {M}::<Display for {t}>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> {{ {s} }}\n//@end")
    p(f"//@fn expanded :: {M}::<AsRef<str> for {t}>::as_ref | as=as_ref_str\n    ensures r@ == {s}\n//@end")
    p(f"/// exactly the texts of the values, with the value whose text it is\npub open spec fn {t.lower()}_post(s: Seq<char>, r: Result<{t}, ParseError>) -> bool {{\n"
      f"    &&& r matches Ok(x) ==> {spec('x')} == s\n    &&& r matches Err(e) ==> e.0@ == s && forall|x: {t}| {spec('x')} != s\n}}")
    p(f"//@fn expanded :: {M}::<FromStr for {t}>::from_str | trait=XFromStr | as=x_from_str{' | litonly' if lit else ''} | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool {{ {t.lower()}_post(s, r) }}\n{h.replace(" }", f" {no} }}")}//@end")
    p(f"//@fn expanded :: {M}::<TryFrom<&str> for {t}>::try_from | as=try_from_text\n    ensures {t.lower()}_post(value@, r)\n//@end")


texts("ArmVariant", lambda x: f"armvariant_text({x})", "")
texts("Arm64Variant", lambda x: f"arm64variant_text({x})", "")
texts("Arch", lambda x: f"arch_text({x})", "lit_arch();")
texts("Os", lambda x: f"os_text({x})", "")
for v, n, ar in OS:
    l = v.lower()
    texts(f"{v}Arch", lambda x: f"arch_text({l}_arch({x}))", "lit_arch();")
    p(f"//@const expanded :: {M}::{v}Arch::OS")
    p(f"//@fn expanded :: {M}::<TryFrom<Arch> for {v}Arch>::try_from | as=try_from_arch\n"
      f"    ensures r is Ok <==> supports(Os::{v}, arch), r matches Ok(x) ==> {l}_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::{v}\n//@end")
    p(f"//@fn expanded :: {M}::<From<{v}Arch> for Arch>::from | as=from_{l}\n    ensures r == {l}_arch(value)\n//@end")
    p(f"impl XInto<Arch> for {v}Arch {{\n    open spec fn x_into_post(self, u: Arch) -> bool {{ u == {l}_arch(self) }}\n    fn x_into(self) -> (u: Arch) {{ Arch::from_{l}(self) }}\n}}")
texts("Platform", lambda x: f"platform_text({x})", "lit_all();", "if no_platform(s@) { lemma_no_platform(s@); }")
p(f"//@fn expanded :: {M}::Platform::os\n    ensures r == os_of(*self)\n//@end")
p(f"//@fn expanded :: {M}::Platform::arch\n    ensures r == arch_of(*self)\n//@end")
p(f"//@fn expanded :: {M}::<From<Os> for Platform>::from | as=from_os\n    ensures os_of(r) == value, arch_of(r) is None\n//@end")

p('''// ------------------------------------------------------------ theorems
/// different architectures have different texts
pub proof fn theorem_arch_unique(a: Arch, b: Arch)
    requires arch_text(a) == arch_text(b),
    ensures a == b,
{
ALL_ARCH
    let (s, t) = (arch_text(a), arch_text(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
    assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2]);
    if s.len() > 3 { assert(s[3] == t[3]); }
    if s.len() > 4 { assert(s[4] == t[4]); }
    if s.len() > 5 { assert(s[5] == t[5]); }
    if s.len() > 7 { assert(s[7] == t[7]); }
}
pub proof fn theorem_os_unique(a: Os, b: Os)
    requires os_text(a) == os_text(b),
    ensures a == b,
{
ALL_OS
    let (s, t) = (os_text(a), os_text(b));
    assert(s.len() == t.len());
    assert(s[0] == t[0] && s[1] == t[1]);
    if s.len() > 2 { assert(s[2] == t[2]); }
}
pub proof fn lemma_os_no_slash(o: Os)
    ensures forall|i: int| 0 <= i < os_text(o).len() ==> os_text(o)[i] != '/',
{
ALL_OS
}
/// a text stands for at most one operating system and architecture
pub proof fn theorem_text_unique(o: Os, a: Option<Arch>, p: Os, b: Option<Arch>)
    requires text_of(o, a) == text_of(p, b),
    ensures o == p, a == b,
{
    lemma_os_no_slash(o);
    lemma_os_no_slash(p);
    let ra = match a { None => Seq::empty(), Some(x) => slash() + arch_text(x) };
    let rb = match b { None => Seq::empty(), Some(x) => slash() + arch_text(x) };
    assert(text_of(o, a) =~= os_text(o) + ra);
    assert(text_of(p, b) =~= os_text(p) + rb);
    lemma_cut(os_text(o), ra, os_text(p), rb);
    theorem_os_unique(o, p);
    if a is Some && b is Some {
        assert(arch_text(a->0) =~= ra.subrange(1, ra.len() as int));
        assert(arch_text(b->0) =~= rb.subrange(1, rb.len() as int));
        theorem_arch_unique(a->0, b->0);
    }
}
/// a platform is what it stands for, so different platforms print differently, and what is printed reads back
pub proof fn theorem_platform(p: Platform, q: Platform)
    requires platform_text(p) == platform_text(q),
    ensures p == q,
{
    theorem_text_unique(os_of(p), arch_of(p), os_of(q), arch_of(q));
}
pub proof fn theorem_round_trip(p: Platform, r: Result<Platform, ParseError>)
    requires platform_post(platform_text(p), r),
    ensures r is Ok, r->Ok_0 == p,
{
    if r is Ok { theorem_platform(r->Ok_0, p); }
}
/// exactly the supported combinations are platforms
pub proof fn theorem_supported(o: Os, a: Arch)
    ensures supports(o, a) <==> exists|p: Platform| os_of(p) == o && arch_of(p) == Some(a),
{
    if supports(o, a) {
        let p = match o {''')
for v, n, ar in OS:
    p(f"            Os::{v} => Platform::{v}(Some(match a {{ " + ", ".join(
        (f"Arch::{AV[x]}(y) => {v}Arch::{AV[x]}(y)" if AV[x] in VARS else f"Arch::{AV[x]} => {v}Arch::{AV[x]}") for x in ar.split()) + ", _ => arbitrary() })),")
p('''        };
        assert(os_of(p) == o && arch_of(p) == Some(a));
    }
}
//@include to_string.inc
//@include text_doc.inc
//@include from_str_doc.inc''')
for T in ["ArmVariant", "Arm64Variant", "Arch", "Os"] + [f"{v}Arch" for v, _, _ in OS] + ["Platform"]:
    p(f"""// the document form of {T}
//@fn expanded :: service::platform::<Serialize for {T}>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for {T}>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<{T}>(deserializer@, r)
//@end""")
p('''} // verus!
fn main() {}''')
w = "\n".join(o) + "\n"
rev = lambda l: "    " + " ".join(f'reveal_strlit("{s}");' for s in l)
w = w.replace("ALL_ARCH", rev([s for _, s in ARCH] + ["v6", "v7", "v8"])).replace("ALL_OS", rev([n for _, n, _ in OS]))
open("/verif/contracts/p18_platform.vrs", "w").write(w)
