//@include prelude.vrs
verus! {
// Written by tools/gen_enum_docs.py.  What serde derives for the plain enums (taken from the expanded crate): a
// variant is written as its keyword, and exactly the keywords are read, each as its variant.
//@rename _serde::Serializer::serialize_unit_variant => x_unit_variant
//@rename _serde::Deserializer::deserialize_enum => x_deserialize_enum
//@rename _serde::de::EnumAccess::variant => x_variant
//@rename _serde::de::VariantAccess::unit_variant => x_unit
//@rename _serde::de::Error::unknown_variant => x_unknown_variant
//@rename _serde::__private::Ok => Ok
//@rename _serde::__private::Err => Err
//@rename _serde::__private::PhantomData => PhantomData
//@rename VARIANTS => x_variants()
//@include std_more.inc
use std::marker::PhantomData;
// ------------------------------------------------------------ documents of plain enums (trusted: serde hands a text to the derived visitor)
pub enum XEnumNode { Text(Seq<char>), Other }
pub enum XEnumDe { Text(String), Other }
impl XEnumDe { pub open spec fn node(self) -> XEnumNode { match self { XEnumDe::Text(s) => XEnumNode::Text(s@), XEnumDe::Other => XEnumNode::Other } } }
pub struct XUnit { pub text: bool }
#[verifier::external_body] pub fn x_unit(u: XUnit) -> (r: Result<(), XErr>) ensures u.text ==> r is Ok { unimplemented!() }
#[verifier::external_body] pub struct XEnumSer { s: String }
#[verifier::external_body] pub struct XEnumOk { s: String }
impl View for XEnumOk { type V = XEnumNode; uninterp spec fn view(&self) -> XEnumNode; }
#[verifier::external_body] pub fn x_unit_variant(s: XEnumSer, name: &str, index: u32, variant: &str) -> (r: Result<XEnumOk, XErr>) ensures r matches Ok(o) ==> o@ == XEnumNode::Text(variant@) { unimplemented!() }
pub fn x_unknown_variant(s: &str, known: &[&str]) -> XErr { XErr }
#[verifier::external_body] pub fn x_variants() -> &'static [&'static str] { unimplemented!() }
pub mod cgroup { use super::*;
//@rename _serde::__private::PhantomData::<Cgroup> => PhantomData::<Cgroup>
//@type src/service.rs :: Cgroup | derive=Clone, Copy
pub open spec fn cgroup_text(v: Cgroup) -> Seq<char> { match v { Cgroup::Host => seq!['h', 'o', 's', 't'], Cgroup::Private => seq!['p', 'r', 'i', 'v', 'a', 't', 'e'] } }
//@type expanded :: service::<Deserialize for Cgroup>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::<Deserialize for Cgroup>::deserialize::__FieldVisitor
//@type expanded :: service::<Deserialize for Cgroup>::deserialize::__Visitor
//@variants src/service.rs :: Cgroup
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Cgroup, XErr>) -> bool { match r { Ok(v) => cgroup_text(v) == canon(s), Err(_) => forall|v: Cgroup| #[trigger] cgroup_text(v) != canon(s) } }
//@fn expanded :: service::<Serialize for Cgroup>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(cgroup_text(*self))
//@end
//@fn expanded :: service::<Deserialize for Cgroup>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => cgroup_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Cgroup| #[trigger] cgroup_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => cgroup_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Cgroup| #[trigger] cgroup_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::<Deserialize for Cgroup>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Cgroup, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Cgroup, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::<Deserialize for Cgroup>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod condition { use super::*;
//@rename _serde::__private::PhantomData::<Condition> => PhantomData::<Condition>
//@type src/service.rs :: Condition | derive=Clone, Copy
pub open spec fn condition_text(v: Condition) -> Seq<char> { match v { Condition::ServiceStarted => seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', '_', 's', 't', 'a', 'r', 't', 'e', 'd'], Condition::ServiceHealthy => seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', '_', 'h', 'e', 'a', 'l', 't', 'h', 'y'], Condition::ServiceCompletedSuccessfully => seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', '_', 'c', 'o', 'm', 'p', 'l', 'e', 't', 'e', 'd', '_', 's', 'u', 'c', 'c', 'e', 's', 's', 'f', 'u', 'l', 'l', 'y'] } }
//@type expanded :: service::<Deserialize for Condition>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::<Deserialize for Condition>::deserialize::__FieldVisitor
//@type expanded :: service::<Deserialize for Condition>::deserialize::__Visitor
//@variants src/service.rs :: Condition
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Condition, XErr>) -> bool { match r { Ok(v) => condition_text(v) == canon(s), Err(_) => forall|v: Condition| #[trigger] condition_text(v) != canon(s) } }
//@fn expanded :: service::<Serialize for Condition>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(condition_text(*self))
//@end
//@fn expanded :: service::<Deserialize for Condition>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => condition_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Condition| #[trigger] condition_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => condition_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Condition| #[trigger] condition_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::<Deserialize for Condition>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Condition, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Condition, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::<Deserialize for Condition>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod pullpolicy { use super::*;
//@rename _serde::__private::PhantomData::<PullPolicy> => PhantomData::<PullPolicy>
//@type src/service.rs :: PullPolicy | derive=Clone, Copy
pub open spec fn pullpolicy_text(v: PullPolicy) -> Seq<char> { match v { PullPolicy::Always => seq!['a', 'l', 'w', 'a', 'y', 's'], PullPolicy::Never => seq!['n', 'e', 'v', 'e', 'r'], PullPolicy::Missing => seq!['m', 'i', 's', 's', 'i', 'n', 'g'], PullPolicy::Build => seq!['b', 'u', 'i', 'l', 'd'] } }
//@type expanded :: service::<Deserialize for PullPolicy>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::<Deserialize for PullPolicy>::deserialize::__FieldVisitor
//@type expanded :: service::<Deserialize for PullPolicy>::deserialize::__Visitor
//@variants src/service.rs :: PullPolicy
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { if s == seq!['i', 'f', '_', 'n', 'o', 't', '_', 'p', 'r', 'e', 's', 'e', 'n', 't'] { seq!['m', 'i', 's', 's', 'i', 'n', 'g'] } else { s } }
pub open spec fn read(s: Seq<char>, r: Result<PullPolicy, XErr>) -> bool { match r { Ok(v) => pullpolicy_text(v) == canon(s), Err(_) => forall|v: PullPolicy| #[trigger] pullpolicy_text(v) != canon(s) } }
//@fn expanded :: service::<Serialize for PullPolicy>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(pullpolicy_text(*self))
//@end
//@fn expanded :: service::<Deserialize for PullPolicy>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => pullpolicy_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: PullPolicy| #[trigger] pullpolicy_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => pullpolicy_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: PullPolicy| #[trigger] pullpolicy_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::<Deserialize for PullPolicy>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<PullPolicy, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<PullPolicy, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::<Deserialize for PullPolicy>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod restart { use super::*;
//@rename _serde::__private::PhantomData::<Restart> => PhantomData::<Restart>
//@type src/service.rs :: Restart | derive=Clone, Copy
pub open spec fn restart_text(v: Restart) -> Seq<char> { match v { Restart::No => seq!['n', 'o'], Restart::Always => seq!['a', 'l', 'w', 'a', 'y', 's'], Restart::OnFailure => seq!['o', 'n', '-', 'f', 'a', 'i', 'l', 'u', 'r', 'e'], Restart::UnlessStopped => seq!['u', 'n', 'l', 'e', 's', 's', '-', 's', 't', 'o', 'p', 'p', 'e', 'd'] } }
//@type expanded :: service::<Deserialize for Restart>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::<Deserialize for Restart>::deserialize::__FieldVisitor
//@type expanded :: service::<Deserialize for Restart>::deserialize::__Visitor
//@variants src/service.rs :: Restart
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Restart, XErr>) -> bool { match r { Ok(v) => restart_text(v) == canon(s), Err(_) => forall|v: Restart| #[trigger] restart_text(v) != canon(s) } }
//@fn expanded :: service::<Serialize for Restart>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(restart_text(*self))
//@end
//@fn expanded :: service::<Deserialize for Restart>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => restart_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Restart| #[trigger] restart_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => restart_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Restart| #[trigger] restart_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::<Deserialize for Restart>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Restart, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Restart, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::<Deserialize for Restart>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod uts { use super::*;
//@rename _serde::__private::PhantomData::<Uts> => PhantomData::<Uts>
//@type src/service.rs :: Uts | derive=Clone, Copy
pub open spec fn uts_text(v: Uts) -> Seq<char> { match v { Uts::Host => seq!['h', 'o', 's', 't'] } }
//@type expanded :: service::<Deserialize for Uts>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::<Deserialize for Uts>::deserialize::__FieldVisitor
//@type expanded :: service::<Deserialize for Uts>::deserialize::__Visitor
//@variants src/service.rs :: Uts
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Uts, XErr>) -> bool { match r { Ok(v) => uts_text(v) == canon(s), Err(_) => forall|v: Uts| #[trigger] uts_text(v) != canon(s) } }
//@fn expanded :: service::<Serialize for Uts>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(uts_text(*self))
//@end
//@fn expanded :: service::<Deserialize for Uts>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => uts_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Uts| #[trigger] uts_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => uts_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Uts| #[trigger] uts_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::<Deserialize for Uts>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Uts, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Uts, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::<Deserialize for Uts>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod action { use super::*;
//@rename _serde::__private::PhantomData::<Action> => PhantomData::<Action>
//@type src/service/develop.rs :: Action | derive=Clone, Copy
pub open spec fn action_text(v: Action) -> Seq<char> { match v { Action::Rebuild => seq!['r', 'e', 'b', 'u', 'i', 'l', 'd'], Action::Sync => seq!['s', 'y', 'n', 'c'], Action::SyncAndRestart => seq!['s', 'y', 'n', 'c', '+', 'r', 'e', 's', 't', 'a', 'r', 't'] } }
//@type expanded :: service::develop::<Deserialize for Action>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::develop::<Deserialize for Action>::deserialize::__FieldVisitor
//@type expanded :: service::develop::<Deserialize for Action>::deserialize::__Visitor
//@variants src/service/develop.rs :: Action
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Action, XErr>) -> bool { match r { Ok(v) => action_text(v) == canon(s), Err(_) => forall|v: Action| #[trigger] action_text(v) != canon(s) } }
//@fn expanded :: service::develop::<Serialize for Action>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(action_text(*self))
//@end
//@fn expanded :: service::develop::<Deserialize for Action>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => action_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Action| #[trigger] action_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => action_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Action| #[trigger] action_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::develop::<Deserialize for Action>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Action, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Action, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::develop::<Deserialize for Action>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod mode { use super::*;
//@rename _serde::__private::PhantomData::<Mode> => PhantomData::<Mode>
//@type src/service/deploy.rs :: Mode | derive=Clone, Copy
pub open spec fn mode_text(v: Mode) -> Seq<char> { match v { Mode::Global => seq!['g', 'l', 'o', 'b', 'a', 'l'], Mode::Replicated => seq!['r', 'e', 'p', 'l', 'i', 'c', 'a', 't', 'e', 'd'] } }
//@type expanded :: service::deploy::<Deserialize for Mode>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::deploy::<Deserialize for Mode>::deserialize::__FieldVisitor
//@type expanded :: service::deploy::<Deserialize for Mode>::deserialize::__Visitor
//@variants src/service/deploy.rs :: Mode
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Mode, XErr>) -> bool { match r { Ok(v) => mode_text(v) == canon(s), Err(_) => forall|v: Mode| #[trigger] mode_text(v) != canon(s) } }
//@fn expanded :: service::deploy::<Serialize for Mode>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(mode_text(*self))
//@end
//@fn expanded :: service::deploy::<Deserialize for Mode>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => mode_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Mode| #[trigger] mode_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => mode_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Mode| #[trigger] mode_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::deploy::<Deserialize for Mode>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Mode, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Mode, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::deploy::<Deserialize for Mode>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod restartcondition { use super::*;
//@rename _serde::__private::PhantomData::<RestartCondition> => PhantomData::<RestartCondition>
//@type src/service/deploy.rs :: RestartCondition | derive=Clone, Copy
pub open spec fn restartcondition_text(v: RestartCondition) -> Seq<char> { match v { RestartCondition::None => seq!['n', 'o', 'n', 'e'], RestartCondition::OnFailure => seq!['o', 'n', '-', 'f', 'a', 'i', 'l', 'u', 'r', 'e'], RestartCondition::Any => seq!['a', 'n', 'y'] } }
//@type expanded :: service::deploy::<Deserialize for RestartCondition>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::deploy::<Deserialize for RestartCondition>::deserialize::__FieldVisitor
//@type expanded :: service::deploy::<Deserialize for RestartCondition>::deserialize::__Visitor
//@variants src/service/deploy.rs :: RestartCondition
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<RestartCondition, XErr>) -> bool { match r { Ok(v) => restartcondition_text(v) == canon(s), Err(_) => forall|v: RestartCondition| #[trigger] restartcondition_text(v) != canon(s) } }
//@fn expanded :: service::deploy::<Serialize for RestartCondition>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(restartcondition_text(*self))
//@end
//@fn expanded :: service::deploy::<Deserialize for RestartCondition>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => restartcondition_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: RestartCondition| #[trigger] restartcondition_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => restartcondition_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: RestartCondition| #[trigger] restartcondition_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::deploy::<Deserialize for RestartCondition>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<RestartCondition, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<RestartCondition, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::deploy::<Deserialize for RestartCondition>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod failureaction { use super::*;
//@rename _serde::__private::PhantomData::<FailureAction> => PhantomData::<FailureAction>
//@type src/service/deploy.rs :: FailureAction | derive=Clone, Copy
pub open spec fn failureaction_text(v: FailureAction) -> Seq<char> { match v { FailureAction::Continue => seq!['c', 'o', 'n', 't', 'i', 'n', 'u', 'e'], FailureAction::Pause => seq!['p', 'a', 'u', 's', 'e'] } }
//@type expanded :: service::deploy::<Deserialize for FailureAction>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::deploy::<Deserialize for FailureAction>::deserialize::__FieldVisitor
//@type expanded :: service::deploy::<Deserialize for FailureAction>::deserialize::__Visitor
//@variants src/service/deploy.rs :: FailureAction
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<FailureAction, XErr>) -> bool { match r { Ok(v) => failureaction_text(v) == canon(s), Err(_) => forall|v: FailureAction| #[trigger] failureaction_text(v) != canon(s) } }
//@fn expanded :: service::deploy::<Serialize for FailureAction>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(failureaction_text(*self))
//@end
//@fn expanded :: service::deploy::<Deserialize for FailureAction>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => failureaction_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: FailureAction| #[trigger] failureaction_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => failureaction_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: FailureAction| #[trigger] failureaction_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::deploy::<Deserialize for FailureAction>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<FailureAction, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<FailureAction, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::deploy::<Deserialize for FailureAction>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod order { use super::*;
//@rename _serde::__private::PhantomData::<Order> => PhantomData::<Order>
//@type src/service/deploy.rs :: Order | derive=Clone, Copy
pub open spec fn order_text(v: Order) -> Seq<char> { match v { Order::StopFirst => seq!['s', 't', 'o', 'p', '-', 'f', 'i', 'r', 's', 't'], Order::StartFirst => seq!['s', 't', 'a', 'r', 't', '-', 'f', 'i', 'r', 's', 't'] } }
//@type expanded :: service::deploy::<Deserialize for Order>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::deploy::<Deserialize for Order>::deserialize::__FieldVisitor
//@type expanded :: service::deploy::<Deserialize for Order>::deserialize::__Visitor
//@variants src/service/deploy.rs :: Order
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Order, XErr>) -> bool { match r { Ok(v) => order_text(v) == canon(s), Err(_) => forall|v: Order| #[trigger] order_text(v) != canon(s) } }
//@fn expanded :: service::deploy::<Serialize for Order>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(order_text(*self))
//@end
//@fn expanded :: service::deploy::<Deserialize for Order>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => order_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Order| #[trigger] order_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => order_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Order| #[trigger] order_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::deploy::<Deserialize for Order>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Order, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Order, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::deploy::<Deserialize for Order>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod bindpropagation { use super::*;
//@rename _serde::__private::PhantomData::<BindPropagation> => PhantomData::<BindPropagation>
//@type src/service/volumes/mount.rs :: BindPropagation | derive=Clone, Copy
pub open spec fn bindpropagation_text(v: BindPropagation) -> Seq<char> { match v { BindPropagation::Private => seq!['p', 'r', 'i', 'v', 'a', 't', 'e'], BindPropagation::Shared => seq!['s', 'h', 'a', 'r', 'e', 'd'], BindPropagation::Slave => seq!['s', 'l', 'a', 'v', 'e'], BindPropagation::Unbindable => seq!['u', 'n', 'b', 'i', 'n', 'd', 'a', 'b', 'l', 'e'], BindPropagation::RPrivate => seq!['r', 'p', 'r', 'i', 'v', 'a', 't', 'e'], BindPropagation::RShared => seq!['r', 's', 'h', 'a', 'r', 'e', 'd'], BindPropagation::RSlave => seq!['r', 's', 'l', 'a', 'v', 'e'], BindPropagation::RUnbindable => seq!['r', 'u', 'n', 'b', 'i', 'n', 'd', 'a', 'b', 'l', 'e'] } }
//@type expanded :: service::volumes::mount::<Deserialize for BindPropagation>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::volumes::mount::<Deserialize for BindPropagation>::deserialize::__FieldVisitor
//@type expanded :: service::volumes::mount::<Deserialize for BindPropagation>::deserialize::__Visitor
//@variants src/service/volumes/mount.rs :: BindPropagation
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<BindPropagation, XErr>) -> bool { match r { Ok(v) => bindpropagation_text(v) == canon(s), Err(_) => forall|v: BindPropagation| #[trigger] bindpropagation_text(v) != canon(s) } }
//@fn expanded :: service::volumes::mount::<Serialize for BindPropagation>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(bindpropagation_text(*self))
//@end
//@fn expanded :: service::volumes::mount::<Deserialize for BindPropagation>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => bindpropagation_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: BindPropagation| #[trigger] bindpropagation_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => bindpropagation_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: BindPropagation| #[trigger] bindpropagation_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::volumes::mount::<Deserialize for BindPropagation>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<BindPropagation, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<BindPropagation, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::volumes::mount::<Deserialize for BindPropagation>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
pub mod port_mode { use super::*;
//@rename _serde::__private::PhantomData::<Mode> => PhantomData::<Mode>
//@type src/service/ports.rs :: Mode | derive=Clone, Copy
pub open spec fn port_mode_text(v: Mode) -> Seq<char> { match v { Mode::Host => seq!['h', 'o', 's', 't'], Mode::Ingress => seq!['i', 'n', 'g', 'r', 'e', 's', 's'] } }
//@type expanded :: service::ports::<Deserialize for Mode>::deserialize::__Field | derive=Clone, Copy
//@type expanded :: service::ports::<Deserialize for Mode>::deserialize::__FieldVisitor
//@type expanded :: service::ports::<Deserialize for Mode>::deserialize::__Visitor
//@variants src/service/ports.rs :: Mode
/// the keyword a text stands for
pub open spec fn canon(s: Seq<char>) -> Seq<char> { s }
pub open spec fn read(s: Seq<char>, r: Result<Mode, XErr>) -> bool { match r { Ok(v) => port_mode_text(v) == canon(s), Err(_) => forall|v: Mode| #[trigger] port_mode_text(v) != canon(s) } }
//@fn expanded :: service::ports::<Serialize for Mode>::serialize | subst=__S:XEnumSer | retty=Result<XEnumOk, XErr>
    ensures r matches Ok(o) ==> o@ == XEnumNode::Text(port_mode_text(*self))
//@end
//@fn expanded :: service::ports::<Deserialize for Mode>::deserialize::<Visitor for __FieldVisitor>::visit_str | subst=__E:XErr | retty=Result<__Field, XErr>
    ensures match r { Ok(f) => port_mode_text(variant_of(f)) == canon(__value@), Err(_) => forall|v: Mode| #[trigger] port_mode_text(v) != canon(__value@) }
//@end
#[verifier::external_body] pub fn x_other() -> Result<(__Field, XUnit), XErr> { unimplemented!() }
pub fn x_variant(d: XEnumDe) -> (r: Result<(__Field, XUnit), XErr>)
    ensures d.node() matches XEnumNode::Text(s) ==> match r { Ok((f, u)) => port_mode_text(variant_of(f)) == canon(s) && u.text, Err(_) => forall|v: Mode| #[trigger] port_mode_text(v) != canon(s) }
{ match d { XEnumDe::Text(s) => match __FieldVisitor.visit_str(s.as_str()) { Ok(f) => Ok((f, XUnit { text: true })), Err(e) => Err(e) }, XEnumDe::Other => x_other() } }
//@fn expanded :: service::ports::<Deserialize for Mode>::deserialize::<Visitor for __Visitor>::visit_enum | subst=__A:XEnumDe | retty=Result<Mode, XErr> | gen=<'de> | self=__Visitor<'de>
    ensures __data.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
pub fn x_deserialize_enum<'de>(d: XEnumDe, name: &str, variants: &[&str], v: __Visitor<'de>) -> (r: Result<Mode, XErr>) ensures d.node() matches XEnumNode::Text(s) ==> read(s, r) { v.visit_enum(d) }
//@fn expanded :: service::ports::<Deserialize for Mode>::deserialize | subst=__D:XEnumDe | retty=Result<Self, XErr>
    ensures __deserializer.node() matches XEnumNode::Text(s) ==> read(s, r)
//@end
}
} // verus!
fn main() {}
