/// the `x-…` entries of a value, in order: trusted
pub struct ExtEntry { pub key: Seq<char>, pub value: int }
#[verifier::external_body]
pub struct Extensions { s: String }
impl Extensions {
    pub uninterp spec fn entries(&self) -> Seq<ExtEntry>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Extensions) ensures r.entries() == Seq::<ExtEntry>::empty() { unimplemented!() }
}
impl XDefault for Extensions {
    uninterp spec fn x_default_spec() -> Extensions;
    #[verifier::external_body]
    fn x_default() -> (r: Extensions) ensures r.entries() == Seq::<ExtEntry>::empty() { unimplemented!() }
}
