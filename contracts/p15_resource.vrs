//@include prelude.vrs
verus! {
//@method fmt => x_fmt
//@method into_deserializer => x_into_de
//@rename bool::deserialize => x_bool_de
//@rename String::deserialize => x_string_de
//@rename T::deserialize => T::x_deserialize
//@rename Mapping::deserialize => Mapping::x_deserialize
//@rename YamlValue::Mapping => x_yaml_mapping
//@rename usize::from => x_usize_from
//@include std_more.inc
//@include serde.inc
pub open spec fn distinct_keys(m: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0 }
pub open spec fn key_pos(m: Seq<Entry>, k: Seq<char>) -> int { choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn without(m: Seq<Entry>, k: Seq<char>) -> Seq<Entry> { if has_key(m, k) { m.remove(key_pos(m, k)) } else { m } }
/// `serde_yaml::Mapping`: entries in order, a key given twice is an error, null is empty (trusted)
#[verifier::external_body]
pub struct Mapping { s: String }
impl View for Mapping { type V = Seq<Entry>; uninterp spec fn view(&self) -> Seq<Entry>; }
pub uninterp spec fn mapping_of(m: Seq<Entry>) -> Mapping;
#[verifier::external_body]
pub broadcast proof fn axiom_mapping_of(m: Seq<Entry>) ensures (#[trigger] mapping_of(m))@ == m { }
impl XDes for Mapping {
    open spec fn rd(n: XNode) -> Option<Mapping> { match n { XNode::Map(m) => if distinct_keys(m) { Some(mapping_of(m)) } else { None }, XNode::Null => Some(mapping_of(seq![])), _ => None } }
    #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Mapping, XErr>) { unimplemented!() }
}
impl Mapping {
    #[verifier::external_body]
    pub fn shift_remove(&mut self, k: &str) -> (r: Option<YamlValue>)
        ensures final(self)@ == without(old(self)@, k@), match r { Some(v) => has_key(old(self)@, k@) && v.node() == old(self)@[key_pos(old(self)@, k@)].1, None => !has_key(old(self)@, k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, k: &str) -> (r: Option<YamlValue>)
        ensures ({ let m = old(self)@; let i = key_pos(m, k@); if has_key(m, k@) { r matches Some(v) && v.node() == m[i].1 && final(self)@ == (if i == m.len() - 1 { m.drop_last() } else { m.drop_last().update(i, m.last()) }) } else { r is None && final(self)@ == m } })
    { unimplemented!() }
    /// `Mapping::remove` is `swap_remove`
    pub fn remove(&mut self, k: &str) -> (r: Option<YamlValue>)
        ensures ({ let m = old(self)@; let i = key_pos(m, k@); if has_key(m, k@) { r matches Some(v) && v.node() == m[i].1 && final(self)@ == (if i == m.len() - 1 { m.drop_last() } else { m.drop_last().update(i, m.last()) }) } else { r is None && final(self)@ == m } })
    { self.swap_remove(k) }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
pub fn x_yaml_mapping(m: Mapping) -> (r: YamlValue) ensures r.node() == XNode::Map(m@) { unimplemented!() }
impl YamlValue { #[verifier::external_body] pub fn x_into_de(self) -> (r: XDe) ensures r@ == self.node() { unimplemented!() } }
#[verifier::external_body]
pub fn x_bool_de(v: YamlValue) -> (r: Result<bool, XErr>) ensures match bool::rd(v.node()) { Some(b) => r == Ok::<bool, XErr>(b), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn x_string_de(v: YamlValue) -> (r: Result<String, XErr>) ensures match String::rd(v.node()) { Some(b) => r == Ok::<String, XErr>(b), None => r is Err } { unimplemented!() }
pub fn x_usize_from(b: bool) -> (r: usize) ensures r == if b { 1usize } else { 0 } { if b { 1 } else { 0 } }
//@type src/common.rs :: Resource
//@const src/common.rs :: Resource::EXTERNAL
//@const src/common.rs :: Resource::NAME
/// external with at most a name, or a resource without the `external` key (which may say `false`)
pub open spec fn resource_rd<T: XDes>(n: XNode) -> Option<Resource<T>> {
    match n { XNode::Map(m) => if distinct_keys(m) { entries_rd::<T>(m) } else { None }, XNode::Null => entries_rd::<T>(seq![]), _ => None }
}
pub open spec fn entries_rd<T: XDes>(m: Seq<Entry>) -> Option<Resource<T>> {
    let rest = without(m, "external"@);
    if has_key(m, "external"@) && bool::rd(m[key_pos(m, "external"@)].1) is None { None }
    else if has_key(m, "external"@) && bool::rd(m[key_pos(m, "external"@)].1) == Some(true) {
        if without(rest, "name"@).len() > 0 { None }
        else if !has_key(rest, "name"@) { Some(Resource::External { name: None }) }
        else { match String::rd(rest[key_pos(rest, "name"@)].1) { Some(s) => Some(Resource::External { name: Some(s) }), None => None } }
    } else { match T::rd(XNode::Map(rest)) { Some(t) => Some(Resource::Compose(t)), None => None } }
}
pub open spec fn resource_node<T: XSer>(r: Resource<T>) -> XNode {
    match r {
        Resource::External { name } => XNode::Map(match name { None => one("external"@, XNode::Bool(true)), Some(s) => seq![("external"@, XNode::Bool(true)), ("name"@, XNode::Text(s@))] }),
        Resource::Compose(t) => t.node(),
    }
}
//@fn src/common.rs :: <Serialize for Resource<T>>::serialize | trait=XSer | gen=<T: XSer> | as=x_serialize | subst=S:XSerializer | retty=Result<XOk, XErr> | noreveal | extra=open spec fn node(&self) -> XNode { resource_node(*self) }
//@proof before map . end
assert(map@ =~= node_entries(self.node()));
//@end
//@fn src/common.rs :: <Deserialize for Resource<T>>::deserialize | trait=XDes | gen=<T: XDes> | as=x_deserialize | subst=D:XDe | retty=Result<Resource<T>, XErr> | noreveal | extra=open spec fn rd(n: XNode) -> Option<Resource<T>> { resource_rd::<T>(n) }
//@proof start
broadcast use axiom_mapping_of; assert(seq![] =~= Seq::<Entry>::empty());
//@end
/// what is written of a resource reads back as the same resource
pub open spec fn plain<T: XDes + XSer>(t: T) -> bool {
    match t.node() { XNode::Map(m) => distinct_keys(m) && !has_key(m, "external"@) && T::rd(t.node()) == Some(t), _ => false }
}
pub proof fn theorem_external<T: XDes + XSer>(name: Option<String>)
    ensures Resource::<T>::rd(Resource::<T>::External { name }.node()) == Some(Resource::<T>::External { name })
{
    broadcast use axiom_text_of_string;
    reveal_strlit("external"); reveal_strlit("name");
    assert("external"@.len() != "name"@.len());
    let m = node_entries(Resource::<T>::External { name }.node());
    assert(m[0] == ("external"@, XNode::Bool(true)));
    assert(has_key(m, "external"@));
    assert(key_pos(m, "external"@) == 0) by { if m.len() == 2 { assert(m[1].0 == "name"@); } }
    let rest = without(m, "external"@);
    if let Some(s) = name {
        assert(rest =~= one("name"@, XNode::Text(s@)));
        assert(rest[0].0 == "name"@);
        assert(without(rest, "name"@).len() == 0);
    } else {
        assert(rest =~= Seq::<Entry>::empty());
    }
}
pub proof fn theorem_compose<T: XDes + XSer>(t: T)
    requires plain(t)
    ensures Resource::<T>::rd(Resource::Compose(t).node()) == Some(Resource::Compose(t))
{ }
/// an `external` that is not a boolean, `external: true` with any key other than `name`, or a key given twice: never read
pub proof fn theorem_one_kind_resource<T: XDes + XSer>(m: Seq<Entry>)
    ensures
        !distinct_keys(m) ==> Resource::<T>::rd(XNode::Map(m)) is None,
        Resource::<T>::rd(XNode::Map(m)) is Some && has_key(m, "external"@) ==> bool::rd(m[key_pos(m, "external"@)].1) is Some,
        Resource::<T>::rd(XNode::Map(m)) is Some && has_key(m, "external"@) && m[key_pos(m, "external"@)].1 == XNode::Bool(true)
            ==> forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 == "external"@ || m[i].0 == "name"@,
{
    if has_key(m, "external"@) && m[key_pos(m, "external"@)].1 == XNode::Bool(true) && Resource::<T>::rd(XNode::Map(m)) is Some {
        let p = key_pos(m, "external"@);
        let rest = without(m, "external"@);
        assert(without(rest, "name"@).len() == 0);
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 == "external"@ || m[i].0 == "name"@ by {
            if i != p {
                let j = if i < p { i } else { i - 1 };
                assert(rest[j] == m[i]);
                if !has_key(rest, "name"@) { assert(rest.len() == 0); }
                else { assert(rest.len() == 1); let q = key_pos(rest, "name"@); assert(q == 0); assert(j == 0); }
            }
        }
    }
}
} // verus!
fn main() {}
