pub fn x_error_custom<T>(t: T) -> XErr { XErr }
pub fn x_try_from<A: XTryInto<B, E>, B, E>(a: A) -> (r: Result<B, E>) ensures a.x_try_post(r) { a.x_try_into() }
pub fn x_copy<T: Copy>(t: &T) -> (r: T) ensures r == *t { *t }
pub fn x_into_num<A: XInto<B>, B>(a: A) -> (r: B) ensures a.x_into_post(r) { a.x_into() }
// ------------------------------------------------------------ numbers in documents (trusted: serde's forms of u8, i16 and f64)
pub enum XNumNode { Int(int), F(f64), Other }
#[verifier::external_body] pub struct XNumDe { s: String }
impl View for XNumDe { type V = XNumNode; uninterp spec fn view(&self) -> XNumNode; }
#[verifier::external_body] pub struct XNumSer { s: String }
#[verifier::external_body] pub struct XNumOk { s: String }
impl View for XNumOk { type V = XNumNode; uninterp spec fn view(&self) -> XNumNode; }
pub trait XNum: Sized {
    spec fn node(self) -> XNumNode;
    spec fn num_post(d: XNumNode, r: Result<Self, XErr>) -> bool;
    fn x_deserialize(d: XNumDe) -> (r: Result<Self, XErr>) ensures Self::num_post(d@, r);
    fn x_ser(self, s: XNumSer) -> (r: Result<XNumOk, XErr>) ensures r matches Ok(o) ==> o@ == self.node();
}
impl XNum for u8 {
    open spec fn node(self) -> XNumNode { XNumNode::Int(self as int) }
    open spec fn num_post(d: XNumNode, r: Result<u8, XErr>) -> bool { match d { XNumNode::Int(n) => if 0 <= n <= 255 { r matches Ok(v) && v == n } else { r is Err }, _ => r is Err } }
    #[verifier::external_body] fn x_deserialize(d: XNumDe) -> (r: Result<u8, XErr>) { unimplemented!() }
    #[verifier::external_body] fn x_ser(self, s: XNumSer) -> (r: Result<XNumOk, XErr>) { unimplemented!() }
}
impl XNum for u16 {
    open spec fn node(self) -> XNumNode { XNumNode::Int(self as int) }
    open spec fn num_post(d: XNumNode, r: Result<u16, XErr>) -> bool { match d { XNumNode::Int(n) => if 0 <= n <= 65535 { r matches Ok(v) && v == n } else { r is Err }, _ => r is Err } }
    #[verifier::external_body] fn x_deserialize(d: XNumDe) -> (r: Result<u16, XErr>) { unimplemented!() }
    #[verifier::external_body] fn x_ser(self, s: XNumSer) -> (r: Result<XNumOk, XErr>) { unimplemented!() }
}
impl XNum for i16 {
    open spec fn node(self) -> XNumNode { XNumNode::Int(self as int) }
    open spec fn num_post(d: XNumNode, r: Result<i16, XErr>) -> bool { match d { XNumNode::Int(n) => if -32768 <= n <= 32767 { r matches Ok(v) && v == n } else { r is Err }, _ => r is Err } }
    #[verifier::external_body] fn x_deserialize(d: XNumDe) -> (r: Result<i16, XErr>) { unimplemented!() }
    #[verifier::external_body] fn x_ser(self, s: XNumSer) -> (r: Result<XNumOk, XErr>) { unimplemented!() }
}
impl XNum for f64 {
    open spec fn node(self) -> XNumNode { XNumNode::F(self) }
    uninterp spec fn num_post(d: XNumNode, r: Result<f64, XErr>) -> bool;
    #[verifier::external_body] fn x_deserialize(d: XNumDe) -> (r: Result<f64, XErr>) { unimplemented!() }
    #[verifier::external_body] fn x_ser(self, s: XNumSer) -> (r: Result<XNumOk, XErr>) { unimplemented!() }
}
pub fn x_ser_num<T: XNum + Copy>(t: &T, s: XNumSer) -> (r: Result<XNumOk, XErr>) ensures r matches Ok(o) ==> o@ == t.node() { (*t).x_ser(s) }
