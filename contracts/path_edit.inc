/// std path edits on Unix (trusted): components, joining and parents of texts
pub enum Component { Prefix, RootDir, CurDir, ParentDir, Normal }
#[verifier::external_body]
pub struct XComponents { s: String }
impl View for XComponents { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// the text up to the first `/`
pub open spec fn first_piece(s: Seq<char>) -> Seq<char> { s.take(idx_c(s, '/') as int) }
pub open spec fn DOT() -> Seq<char> { seq!['.'] }
pub open spec fn DOTS() -> Seq<char> { seq!['.', '.'] }
impl XComponents {
    /// the first component (only the first call is specified)
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component>)
        ensures r == Some(Component::CurDir) <==> first_piece(old(self)@) == DOT(), r == Some(Component::ParentDir) <==> first_piece(old(self)@) == DOTS(),
            r == Some(Component::RootDir) <==> absolute(old(self)@), r is None <==> old(self)@.len() == 0
    { unimplemented!() }
}
pub open spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char> {
    if absolute(b) { b } else if a.len() == 0 || a.last() == '/' { a + b } else { a + seq!['/'] + b }
}
/// the text of the parent directory, a shorter text it starts with
pub uninterp spec fn parent_len(s: Seq<char>) -> Option<nat>;
pub axiom fn axiom_parent(s: Seq<char>)
    ensures
        parent_len(s) matches Some(n) ==> n < s.len() && (absolute(s) ==> n >= 1) && (!absolute(s) && n > 0 ==> n >= idx_c(s, '/')),
        s.len() == 0 ==> parent_len(s) is None;
impl XPath {
    #[verifier::external_body]
    pub fn components(&self) -> (r: XComponents) ensures r@ == self@ { unimplemented!() }
    // the text of a path, as `OsStr` shows it: only `is_empty` is used on it
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl XPathBuf {
    #[verifier::external_body]
    pub fn components(&self) -> (r: XComponents) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&XPath>)
        ensures r is Some <==> parent_len(self@) is Some, r matches Some(p) ==> p@ == self@.take(parent_len(self@)->0 as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, p: &XPath) ensures final(self)@ == joined(old(self)@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures r <==> parent_len(old(self)@) is Some, r ==> final(self)@ == old(self)@.take(parent_len(old(self)@)->0 as int), !r ==> final(self)@ == old(self)@
    { unimplemented!() }
}
