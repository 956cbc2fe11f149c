// ------------------------------------------------------------ writing what an iterator gives
//@rename iter::once => x_once
#[verifier::external_body]
pub fn x_once<T>(x: T) -> (r: XIter<T>) ensures r.rest() == seq![x] { unimplemented!() }
impl<T> XIter<T> {
    #[verifier::external_body]
    pub fn chain(self, o: XIter<T>) -> (r: XIter<T>) ensures r.rest() == self.rest() + o.rest() { unimplemented!() }
}
impl XSerializer {
    #[verifier::external_body]
    pub fn collect_seq<T: XSer>(self, it: XIter<T>) -> (r: Result<XOk, XErr>) ensures r matches Ok(o) ==> o@ == XNode::List(write_all(it.rest())) { unimplemented!() }
}
pub broadcast proof fn lemma_write_cat<T: XSer>(a: Seq<T>, b: Seq<T>) ensures #[trigger] write_all(a + b) == write_all(a) + write_all(b) { assert(write_all(a + b) =~= write_all(a) + write_all(b)); }
pub broadcast proof fn lemma_write_one<T: XSer>(x: T) ensures #[trigger] write_all(seq![x]) == seq![x.node()] { assert(write_all(seq![x]) =~= seq![x.node()]); }
pub broadcast proof fn lemma_write_texts<'b>(a: Seq<&'b str>, b: Seq<String>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@
    ensures #[trigger] write_all(a) == #[trigger] write_all(b)
{ assert(write_all(a) =~= write_all(b)); }
// ------------------------------------------------------------ extensions (their keys: P03; their values: any YAML)
#[verifier::external_body]
pub struct ExtensionKey { s: String }
impl XKey for ExtensionKey { uninterp spec fn key(&self) -> Seq<char>; }
impl XDes for ExtensionKey { uninterp spec fn rd(n: XNode) -> Option<ExtensionKey>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<ExtensionKey, XErr>) { unimplemented!() } }
/// decided by P03: an extension key is kept as written, and begins with `x-`
#[verifier::external_body]
pub broadcast proof fn axiom_extension_key(s: Seq<char>)
    ensures (#[trigger] ExtensionKey::rd(XNode::Text(s))) matches Some(k) ==> k.key() == s && s.len() >= 2 && s[0] == 'x' && s[1] == '-'
{ }
pub type Extensions = XIndexMap<ExtensionKey, YamlValue>;
pub open spec fn ext_entries(x: Seq<(ExtensionKey, YamlValue)>) -> Seq<Entry> { Seq::new(x.len(), |i: int| (x[i].0.key(), x[i].1.node())) }
impl XSer for XIndexMap<ExtensionKey, YamlValue> {
    open spec fn node(&self) -> XNode { XNode::Map(ext_entries(self.entries())) }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
pub open spec fn ext_has(x: Seq<(ExtensionKey, YamlValue)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < x.len() && (#[trigger] x[i]).0.key() == k }
/// extensions as they come out of a document: keys that read as themselves, none twice, values that read back
pub open spec fn ext_ok(x: Seq<(ExtensionKey, YamlValue)>) -> bool {
    &&& forall|i: int| 0 <= i < x.len() ==> ExtensionKey::rd(XNode::Text((#[trigger] x[i]).0.key())) == Some(x[i].0) && YamlValue::rd(x[i].1.node()) == Some(x[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).0.key() != (#[trigger] x[j]).0.key()
}
