"""Writes contracts/p10_enum_docs.vrs: the derived document forms of the plain enums, from the keywords in p10_enums.vrs."""
import re, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
src = open(os.path.join(root, "p10_enums.vrs")).read()
mods = {"src/service.rs": "service", "src/service/develop.rs": "service::develop", "src/service/deploy.rs": "service::deploy",
        "src/service/volumes/mount.rs": "service::volumes::mount", "src/service/ports.rs": "service::ports"}
# other texts a document may have for a keyword (in the compose specification)
aliases = {"PullPolicy": [("if_not_present", "missing")]}
chars = lambda s: "seq![" + ", ".join(f"'{c}'" for c in s) + "]"
out = """//@include prelude.vrs
verus! {
// Written by tools/gen_enum_docs.py.  What serde derives for the plain enums (taken from the expanded crate): a
// variant is written as its keyword, and exactly the keywords are read, each as its variant.
//@rename _serde::Serializer::serialize_unit_variant => x_unit_variant
//@rename _serde::Deserializer::deserialize_enum => x_deserialize_enum
//@rename _serde::de::EnumAccess::variant => x_variant
//@rename _serde::de::VariantAccess::unit_variant => x_unit
//@rename _serde::de::Error::unknown_variant => x_unknown_variant
//@rename _serde::__private::Ok => Ok
//@rename _serde::__private::Err => Err
//@rename _serde::__private::PhantomData => PhantomData
//@rename VARIANTS => x_variants()
//@include std_more.inc
use std::marker::PhantomData;
// ------------------------------------------------------------ documents of plain enums (trusted: serde hands a text to the derived visitor)
pub enum XEnumNode { Text(Seq<char>), Other }
pub enum XEnumDe { Text(String), Other }
impl XEnumDe { pub open spec fn node(self) -> XEnumNode { match self { XEnumDe::Text(s) => XEnumNode::Text(s@), XEnumDe::Other => XEnumNode::Other } } }
pub struct XUnit { pub text: bool }
#[verifier::external_body] pub fn x_unit(u: XUnit) -> (r: Result<(), XErr>) ensures u.text ==> r is Ok { unimplemented!() }
#[verifier::external_body] pub struct XEnumSer { s: String }
#[verifier::external_body] pub struct XEnumOk { s: String }
impl View for XEnumOk { type V = XEnumNode; uninterp spec fn view(&self) -> XEnumNode; }
#[verifier::external_body] pub fn x_unit_variant(s: XEnumSer, name: &str, index: u32, variant: &str) -> (r: Result<XEnumOk, XErr>) ensures r matches Ok(o) ==> o@ == XEnumNode::Text(variant@) { unimplemented!() }
pub fn x_unknown_variant(s: &str, known: &[&str]) -> XErr { XErr }
#[verifier::external_body] pub fn x_variants() -> &'static [&'static str] { unimplemented!() }
"""
for m in re.finditer(r"//@type (\S+) :: (\w+) \| derive=Clone, Copy\n.*?\n(pub open spec fn (\w+)\(v: \w+\) -> Seq<char> \{.*?\n)", src):
    f, t, spec, name = m.groups()
    canon = "".join(f"if s == {chars(a)} {{ {chars(b)} }} else " for a, b in aliases.get(t, [])) + "{ s }"
    canon = canon[2:-2] if t not in aliases else canon
    p = f"{mods[f]}::<Deserialize for {t}>::deserialize"
    out += f"""pub mod {name.removesuffix('_text')} {{ use super::*;
//@rename _serde::__private::PhantomData::<{t}> => PhantomData::<{t}>
//@type {f} :: {t} | derive=Clone, Copy
{spec}//@type expanded :: {p}::__Field | derive=Clone, Copy
//@type expanded :: {p}::__FieldVisitor
//@type expanded :: {p}::__Visitor
//@variants {f} :: {t}
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> {{ {canon} }}
pub open spec fn read(s: Seq<char>, r: Result<{t}, XErr>) -> bool {{ match r {{ Ok(v) => {name}(v) == canon(s), Err(_) => forall|v: {t}| #[trigger] {name}(v) != canon(s) }} }}
//@fn expanded :: {mods[f]}::<Serialize for {t}>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text({name}(*self))
//@end
//@fn expanded :: {p}::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r {{ Ok(f) => {name}(variant_of(f)) == canon(__value@), Err(_) => forall|v: {t}| #[trigger] {name}(v) != canon(__value@) }}
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> {{ unimplemented!() }}
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r {{ Ok((f, u)) => {name}(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: {t}| #[trigger] {name}(v) != canon(s) }}
{{ match d {{ XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) {{ Ok(f) => Ok((f, XUnit {{ text: true }})), Err(e) => Err(e) }}, XEnumDe::Other => x_other() }} }}
//@fn expanded :: {p}::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<{t}, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<{t}, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) {{ v.visit_enum(d) }}
//@fn expanded :: {p} | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}}
"""
out += "} // verus!\nfn main() {}\n"
open(os.path.join(root, "p10_enum_docs.vrs"), "w").write(out)
