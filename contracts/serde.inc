// ------------------------------------------------------------ documents, reading and writing (trusted model of serde)
//@method serialize => x_serialize
//@rename de::Error::custom => x_error_chain
//@rename E::custom => x_error_chain
//@rename E::duplicate_field => x_error_chain
//@rename de::Error::missing_field => x_error_chain
//@rename E::missing_field => x_error_chain
//@rename de::Error::invalid_length => x_invalid_length
//@rename E::invalid_length => x_invalid_length
/// a document: text keys only, whole numbers by value, other scalars opaque
pub enum XNode { Null, Bool(bool), Text(Seq<char>), Int(int), Scalar(int), Tagged(int), List(Seq<XNode>), Map(Seq<(Seq<char>, XNode)>) }
pub type Entry = (Seq<char>, XNode);
pub struct XFmtArgs;
pub fn x_fmt_args() -> (r: XFmtArgs) { XFmtArgs }
pub fn x_invalid_length(n: usize, e: &&str) -> (r: XErr) { XErr }
#[verifier::external_body]
pub struct XDe { s: String }
impl View for XDe { type V = XNode; uninterp spec fn view(&self) -> XNode; }
#[verifier::external_body]
pub struct XSerializer { s: String }
#[verifier::external_body]
pub struct XOk { s: String }
impl View for XOk { type V = XNode; uninterp spec fn view(&self) -> XNode; }
/// `Deserialize`: what a document reads as, or not at all
pub trait XDes: Sized {
    spec fn rd(n: XNode) -> Option<Self>;
    fn x_deserialize(d: XDe) -> (r: Result<Self, XErr>) ensures match Self::rd(d@) { Some(v) => r == Ok::<Self, XErr>(v), None => r is Err };
}
/// `Serialize`: what is written, if the writer does not fail
pub trait XSer {
    spec fn node(&self) -> XNode;
    fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == self.node();
}
impl<'b, T: XSer> XSer for &'b T {
    open spec fn node(&self) -> XNode { (**self).node() }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
/// what is written of the value reads back as the value, and is not null
pub open spec fn rt<T: XDes + XSer>(v: T) -> bool { T::rd(v.node()) == Some(v) && v.node() != XNode::Null }
// `Option<T>`: null or absent is none
impl<T: XDes> XDes for Option<T> {
    open spec fn rd(n: XNode) -> Option<Option<T>> { match n { XNode::Null => Some(None), _ => match T::rd(n) { Some(v) => Some(Some(v)), None => None } } }
    #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Option<T>, XErr>) { unimplemented!() }
}
impl<T: XSer> XSer for Option<T> {
    open spec fn node(&self) -> XNode { match self { Some(v) => v.node(), None => XNode::Null } }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
impl XSer for bool {
    open spec fn node(&self) -> XNode { XNode::Bool(*self) }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
impl XDes for bool {
    open spec fn rd(n: XNode) -> Option<bool> { match n { XNode::Bool(b) => Some(b), _ => None } }
    #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<bool, XErr>) { unimplemented!() }
}
// texts
pub uninterp spec fn text_of(s: Seq<char>) -> String;
#[verifier::external_body]
pub broadcast proof fn axiom_text_of(s: Seq<char>) ensures (#[trigger] text_of(s))@ == s { }
#[verifier::external_body]
pub broadcast proof fn axiom_text_of_string(v: String) ensures text_of(#[trigger] v@) == v { }
impl XDes for String {
    open spec fn rd(n: XNode) -> Option<String> { match n { XNode::Text(s) => Some(text_of(s)), _ => None } }
    #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<String, XErr>) { unimplemented!() }
}
impl XSer for String {
    open spec fn node(&self) -> XNode { XNode::Text(self@) }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
pub proof fn lemma_rt_text(v: String) ensures rt(v) { axiom_text_of_string(v); }
impl<'b> XSer for &'b str {
    open spec fn node(&self) -> XNode { XNode::Text((*self)@) }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
// ------------------------------------------------------------ keys of a map
pub open spec fn has_key(m: Seq<Entry>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn key_once(m: Seq<Entry>, k: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> !((#[trigger] m[i]).0 == k && (#[trigger] m[j]).0 == k) }
pub open spec fn at_key(m: Seq<Entry>, k: Seq<char>) -> XNode { m[choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k].1 }
/// a struct field of optional type: absent and null are none; a value that does not read or a key given twice is an error
pub open spec fn fld_opt<T: XDes>(m: Seq<Entry>, k: Seq<char>) -> Option<Option<T>> {
    if !has_key(m, k) { Some(None) } else if !key_once(m, k) { None } else { Option::<T>::rd(at_key(m, k)) }
}
/// a struct field that must be there
pub open spec fn fld_req<T: XDes>(m: Seq<Entry>, k: Seq<char>) -> Option<T> {
    if !has_key(m, k) || !key_once(m, k) { None } else { T::rd(at_key(m, k)) }
}
/// a key with a value that reads
pub open spec fn given<T: XDes>(m: Seq<Entry>, k: Seq<char>) -> bool { fld_opt::<T>(m, k) is Some && fld_opt::<T>(m, k)->0 is Some }
/// no such key, or null
pub open spec fn absent<T: XDes>(m: Seq<Entry>, k: Seq<char>) -> bool { fld_opt::<T>(m, k) == Some(None::<T>) }
pub open spec fn value<T: XDes>(m: Seq<Entry>, k: Seq<char>) -> T { fld_opt::<T>(m, k)->0->0 }
pub open spec fn node_entries(n: XNode) -> Seq<Entry> { match n { XNode::Map(m) => m, _ => seq![] } }
pub open spec fn one(k: Seq<char>, n: XNode) -> Seq<Entry> { seq![(k, n)] }
pub proof fn lemma_one<T: XDes>(k: Seq<char>, n: XNode, o: Seq<char>)
    ensures
        has_key(one(k, n), k), key_once(one(k, n), k), at_key(one(k, n), k) == n,
        fld_opt::<T>(one(k, n), k) == Option::<T>::rd(n),
        o != k ==> fld_opt::<T>(one(k, n), o) == Some(None::<T>),
{ let m = one(k, n); assert(m[0].0 == k); }
// ------------------------------------------------------------ writing a struct or a map entry by entry
#[verifier::external_body]
pub struct XSerState { s: String }
impl View for XSerState { type V = Seq<Entry>; uninterp spec fn view(&self) -> Seq<Entry>; }
impl XSerState {
    #[verifier::external_body]
    pub fn serialize_field<T: XSer>(&mut self, k: &str, v: &T) -> (r: Result<(), XErr>) ensures r is Ok ==> final(self)@ == old(self)@.push((k@, v.node())) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_entry<T: XSer>(&mut self, k: &str, v: &T) -> (r: Result<(), XErr>) ensures r is Ok ==> final(self)@ == old(self)@.push((k@, v.node())) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::Map(self@) { unimplemented!() }
}
impl XSerializer {
    #[verifier::external_body]
    pub fn serialize_struct(self, name: &str, n: usize) -> (r: Result<XSerState, XErr>) ensures r matches Ok(s) ==> s@ == Seq::<Entry>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_map(self, n: Option<usize>) -> (r: Result<XSerState, XErr>) ensures r matches Ok(s) ==> s@ == Seq::<Entry>::empty() { unimplemented!() }
}
// ------------------------------------------------------------ reading a map entry by entry
#[verifier::external_body]
pub struct XMapAccess { s: String }
impl XMapAccess {
    /// the entries not yet read
    pub uninterp spec fn rest(&self) -> Seq<Entry>;
    /// the value whose key was read
    pub uninterp spec fn pending(&self) -> Option<XNode>;
    #[verifier::external_body]
    pub fn next_key<K: XDes>(&mut self) -> (r: Result<Option<K>, XErr>)
        requires old(self).pending() is None
        ensures
            old(self).rest().len() == 0 ==> r == Ok::<Option<K>, XErr>(None) && final(self).rest() == old(self).rest() && final(self).pending() is None,
            old(self).rest().len() > 0 ==> match K::rd(XNode::Text(old(self).rest()[0].0)) {
                Some(k) => r == Ok::<Option<K>, XErr>(Some(k)) && final(self).rest() == old(self).rest().skip(1) && final(self).pending() == Some(old(self).rest()[0].1),
                None => r is Err,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_value<V: XDes>(&mut self) -> (r: Result<V, XErr>)
        requires old(self).pending() is Some
        ensures
            final(self).rest() == old(self).rest(), final(self).pending() is None,
            match V::rd(old(self).pending()->0) { Some(v) => r == Ok::<V, XErr>(v), None => r is Err },
    { unimplemented!() }
}
// ------------------------------------------------------------ lists
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_vec_of<T>(s: Seq<T>) ensures (#[trigger] vec_of(s))@ == s { }
#[verifier::external_body]
pub broadcast proof fn axiom_vec_of_vec<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v { }
pub open spec fn all_read<T: XDes>(s: Seq<XNode>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::rd(#[trigger] s[i]) is Some }
pub open spec fn read_all<T: XDes>(s: Seq<XNode>) -> Seq<T> { Seq::new(s.len(), |i: int| T::rd(s[i])->0) }
pub open spec fn write_all<T: XSer>(s: Seq<T>) -> Seq<XNode> { Seq::new(s.len(), |i: int| s[i].node()) }
impl<T: XDes> XDes for Vec<T> {
    open spec fn rd(n: XNode) -> Option<Vec<T>> { match n { XNode::List(s) => if all_read::<T>(s) { Some(vec_of(read_all::<T>(s))) } else { None }, _ => None } }
    #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Vec<T>, XErr>) { unimplemented!() }
}
impl<T: XSer> XSer for Vec<T> {
    open spec fn node(&self) -> XNode { XNode::List(write_all(self@)) }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
#[verifier::external_body]
pub struct XSeqAccess { s: String }
impl XSeqAccess {
    /// the elements not yet read
    pub uninterp spec fn rest(&self) -> Seq<XNode>;
    #[verifier::external_body]
    pub fn next_element<T: XDes>(&mut self) -> (r: Result<Option<T>, XErr>)
        ensures
            old(self).rest().len() == 0 ==> r == Ok::<Option<T>, XErr>(None) && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> match T::rd(old(self).rest()[0]) {
                Some(k) => r == Ok::<Option<T>, XErr>(Some(k)) && final(self).rest() == old(self).rest().skip(1),
                None => r is Err,
            },
    { unimplemented!() }
}
//@rename SeqAccessDeserializer::new => x_seq_de
//@rename Vec::deserialize => XDes::x_deserialize
#[verifier::external_body]
pub fn x_seq_de(s: XSeqAccess) -> (r: XDe) ensures r@ == XNode::List(s.rest()) { unimplemented!() }
// ------------------------------------------------------------ values this unit does not look into
/// any YAML value
#[verifier::external_body]
pub struct YamlValue { s: String }
impl XDes for YamlValue { uninterp spec fn rd(n: XNode) -> Option<YamlValue>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<YamlValue, XErr>) { unimplemented!() } }
impl XSer for YamlValue { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
