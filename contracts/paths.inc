//@rename Path => XPath
//@rename PathBuf => XPathBuf
//@rename std::path::PathBuf => XPathBuf
//@rename ::std::path::PathBuf => XPathBuf
/// std paths on Unix, seen as texts (paths that are not texts are outside every statement): trusted
#[verifier::external_body]
pub struct XPath { s: String }
#[verifier::external_body]
pub struct XPathBuf { s: String }
impl View for XPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for XPathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub open spec fn absolute(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '/' }
/// the text shown for a path
#[verifier::external_body]
pub struct XPathDisplay { s: String }
impl View for XPathDisplay { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl XPath {
    /// the path of a text
    #[verifier::external_body]
    pub fn x_of(s: &str) -> (r: &XPath) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == absolute(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: XPathDisplay) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn x_to_buf(&self) -> (r: XPathBuf) ensures r@ == self@ { unimplemented!() }
}
impl XPathBuf {
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &XPath) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == absolute(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: XPathDisplay) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn x_from_str(s: &str) -> (r: XPathBuf) ensures r@ == s@ { unimplemented!() }
}
impl XDisplay for XPathDisplay {
    open spec fn x_disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl XInto<XPathBuf> for &XPath {
    open spec fn x_into_post(self, u: XPathBuf) -> bool { u@ == self@ }
    fn x_into(self) -> (u: XPathBuf) { self.x_to_buf() }
}
impl XInto<XPathBuf> for &str {
    open spec fn x_into_post(self, u: XPathBuf) -> bool { u@ == self@ }
    fn x_into(self) -> (u: XPathBuf) { XPathBuf::x_from_str(self) }
}
/// `AsRef<Path>` of what callers pass
pub trait XAsPath { spec fn pv(&self) -> Seq<char>; fn x_as_path(&self) -> (r: &XPath) ensures r@ == self.pv(); }
impl XAsPath for &XPath { open spec fn pv(&self) -> Seq<char> { self@ } fn x_as_path(&self) -> (r: &XPath) { *self } }
impl XAsPath for &str { open spec fn pv(&self) -> Seq<char> { self@ } fn x_as_path(&self) -> (r: &XPath) { XPath::x_of(*self) } }
