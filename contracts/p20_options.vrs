//@include prelude.vrs
//@rename serde_yaml::from_str => x_from_str
//@rename serde_yaml::from_slice => x_from_slice
//@rename serde_yaml::from_reader => x_from_reader
//@rename serde_yaml::from_value => x_from_value
//@rename serde_yaml::Result => XResult
verus! {
pub enum XNode { Null, Text(Seq<char>), Scalar(int), List(Seq<XNode>), Map(Seq<(Seq<char>, XNode)>) }
// ------------------------------------------------------------ serde_yaml (trusted): what a text means, what the merge key makes of it, what a file it is
pub type XResult<T> = Result<T, XErr>;
#[verifier::external_body] pub struct YamlValue { s: String }
impl View for YamlValue { type V = XNode; uninterp spec fn view(&self) -> XNode; }
#[verifier::external_body] pub struct Compose { s: String }
/// the bytes of a text
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
/// all that a source of bytes yields, if it does not fail
pub uninterp spec fn all_of<R>(r: R) -> Option<Seq<u8>>;
/// the document a text stands for
pub uninterp spec fn document(b: Seq<u8>) -> Option<XNode>;
/// the document with every `<<` merged into the map around it
pub uninterp spec fn merged(n: XNode) -> Option<XNode>;
/// the Compose file a document stands for
pub uninterp spec fn compose(n: XNode) -> Option<Compose>;
pub trait Read: Sized { }
/// what can be made of a document
pub trait XOf: Sized { spec fn of(n: XNode) -> Option<Self>; }
pub open spec fn is_of<T: XOf>(r: XResult<T>, b: Option<Seq<u8>>) -> bool {
    &&& r is Ok <==> b is Some && document(b->0) is Some && T::of(document(b->0)->0) is Some
    &&& r is Ok ==> T::of(document(b->0)->0) == Some(r->Ok_0)
}
pub uninterp spec fn value_of(n: XNode) -> YamlValue;
impl XOf for YamlValue { open spec fn of(n: XNode) -> Option<YamlValue> { Some(value_of(n)) } }
pub broadcast axiom fn axiom_value_of(n: XNode) ensures (#[trigger] value_of(n))@ == n;
impl XOf for Compose { open spec fn of(n: XNode) -> Option<Compose> { compose(n) } }
#[verifier::external_body] pub fn x_from_str<T: XOf>(s: &str) -> (r: XResult<T>) ensures is_of(r, Some(bytes_of(s@))) { unimplemented!() }
#[verifier::external_body] pub fn x_from_slice<T: XOf>(s: &[u8]) -> (r: XResult<T>) ensures is_of(r, Some(s@)) { unimplemented!() }
#[verifier::external_body] pub fn x_from_reader<R: Read, T: XOf>(s: R) -> (r: XResult<T>) ensures is_of(r, all_of(s)) { unimplemented!() }
#[verifier::external_body] pub fn x_from_value<T: XOf>(v: YamlValue) -> (r: XResult<T>) ensures r is Ok <==> T::of(v@) is Some, r is Ok ==> T::of(v@) == Some(r->Ok_0) { unimplemented!() }
impl YamlValue { #[verifier::external_body] pub fn apply_merge(&mut self) -> (r: XResult<()>) ensures r is Ok <==> merged(old(self)@) is Some, r is Ok ==> merged(old(self)@) == Some(final(self)@) { unimplemented!() } }
// ------------------------------------------------------------ the options
//@type src/options.rs :: Options | pub
/// what a document is read as under the options
pub open spec fn read_as(o: Options, n: XNode) -> Option<Compose> {
    if o.apply_merge { match merged(n) { Some(m) => compose(m), None => None } } else { compose(n) }
}
/// what bytes are read as under the options, whichever way they are handed over
pub open spec fn bytes_read_as(o: Options, b: Option<Seq<u8>>) -> Option<Compose> {
    match b { Some(b) => match document(b) { Some(n) => read_as(o, n), None => None }, None => None }
}
pub open spec fn answers(r: XResult<Compose>, want: Option<Compose>) -> bool { (r is Ok <==> want is Some) && (r is Ok ==> want == Some(r->Ok_0)) }
//@fn src/options.rs :: Options::any
    ensures r == self.apply_merge
//@end
//@fn src/options.rs :: Options::apply_merge
    ensures r.apply_merge == apply_merge, *final(self) == *final(r)
//@end
//@fn src/options.rs :: Options::from_yaml_value
    ensures answers(r, read_as(*self, value@))
//@end
//@fn src/options.rs :: Options::from_yaml_str
    ensures answers(r, bytes_read_as(*self, Some(bytes_of(yaml@))))
    //@proof header
    broadcast use axiom_value_of;
//@end
//@fn src/options.rs :: Options::from_yaml_slice
    ensures answers(r, bytes_read_as(*self, Some(slice@)))
    //@proof header
    broadcast use axiom_value_of;
//@end
//@fn src/options.rs :: Options::from_yaml_reader
    ensures answers(r, bytes_read_as(*self, all_of(reader)))
    //@proof header
    broadcast use axiom_value_of;
//@end
// ------------------------------------------------------------ every way of reading gives the same answer
pub fn theorem_same(o: &Options, text: &str, slice: &[u8], reader: XSource, value: YamlValue)
    requires slice@ == bytes_of(text@), all_of(reader) == Some(slice@), document(slice@) == Some(value@)
{
    let (a, b, c, d) = (o.from_yaml_str(text), o.from_yaml_slice(slice), o.from_yaml_reader(reader), o.from_yaml_value(value));
    assert(a is Ok <==> b is Ok);
    assert(a is Ok <==> c is Ok);
    assert(a is Ok <==> d is Ok);
    assert(a is Ok ==> a->Ok_0 == b->Ok_0 && a->Ok_0 == c->Ok_0 && a->Ok_0 == d->Ok_0);
}
#[verifier::external_body] pub struct XSource { s: String }
impl Read for XSource { }
} // verus!
fn main() {}
