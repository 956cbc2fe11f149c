//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@method into_owned => x_into_owned
//@method to_owned => x_to_owned
//@method unzip => x_unzip
//@method eq_ignore_ascii_case => x_eq_ci
//@rename Path::new => XPath::x_of
//@rename OsString::from => x_os_string
//@include std_more.inc
//@include to_string.inc
//@include text_doc.inc
//@include paths.inc
//@include from_str_doc.inc
// ------------------------------------------------------------ URLs (the `url` crate: trusted)
//@rename Url => XUrl
#[verifier::external_body]
pub struct XUrl { s: String }
pub struct UrlError;
/// a URL is its text; scheme, path and fragment are parts of it
impl View for XUrl { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// what a text parses to
pub uninterp spec fn url_of(s: Seq<char>) -> Option<XUrl>;
/// the text of a URL parses to it (as the `url` crate promises)
#[verifier::external_body]
pub broadcast proof fn axiom_url_text(u: XUrl) ensures url_of(#[trigger] u@) == Some(u) { }
impl XUrl {
    pub uninterp spec fn sch(&self) -> Seq<char>;
    pub uninterp spec fn pth(&self) -> Seq<char>;
    pub uninterp spec fn frag(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn scheme(&self) -> (r: &str) ensures r@ == self.sch() { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == self.pth() { unimplemented!() }
    #[verifier::external_body] pub fn fragment(&self) -> (r: Option<&str>) ensures r is Some <==> self.frag() is Some, r matches Some(f) ==> f@ == self.frag()->0 { unimplemented!() }
}
impl XFromStr for XUrl {
    type E = UrlError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<Self, UrlError>) -> bool { match r { Ok(u) => url_of(s) == Some(u), Err(_) => url_of(s) is None } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<Self, UrlError>) { unimplemented!() }
}
impl XDisplay for XUrl {
    open spec fn x_disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl XInto<String> for XUrl { open spec fn x_into_post(self, u: String) -> bool { u@ == self@ } #[verifier::external_body] fn x_into(self) -> (u: String) { unimplemented!() } }
// ------------------------------------------------------------ std (trusted)
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as char) } else { c } }
pub open spec fn eq_ci(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
#[verifier::external_body]
pub struct XOsStr { s: String }
impl View for XOsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait XEqCi { spec fn ct(&self) -> Seq<char>; fn x_eq_ci(&self, o: &str) -> (r: bool) ensures r == eq_ci(self.ct(), o@); }
impl XEqCi for str { open spec fn ct(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_eq_ci(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl XEqCi for XOsStr { open spec fn ct(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_eq_ci(&self, o: &str) -> (r: bool) { unimplemented!() } }
/// the extension of the last component of a path (`Path::extension`)
pub uninterp spec fn extension_of(s: Seq<char>) -> Option<Seq<char>>;
impl XPath {
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&XOsStr>) ensures r is Some <==> extension_of(self@) is Some, r matches Some(e) ==> e@ == extension_of(self@)->0 { unimplemented!() }
    pub fn x_to_owned(&self) -> (r: XPathBuf) ensures r@ == self@ { self.x_to_buf() }
}
pub trait XUnzip<A, B> { fn x_unzip(self) -> (Option<A>, Option<B>); }
impl<A, B> XUnzip<A, B> for Option<(A, B)> {
    fn x_unzip(self) -> (r: (Option<A>, Option<B>)) ensures match self { Some(p) => r == (Some(p.0), Some(p.1)), None => r == (None::<A>, None::<B>) }
    { match self { Some(p) => (Some(p.0), Some(p.1)), None => (None, None) } }
}
/// paths that are not texts: whether a path is one, and its text if so
pub uninterp spec fn is_text(p: XPathBuf) -> bool;
#[verifier::external_body]
pub struct XOsString { s: String }
impl XOsString {
    pub uninterp spec fn p(&self) -> XPathBuf;
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<String, XOsString>) ensures r is Ok <==> is_text(self.p()), r matches Ok(s) ==> s@ == self.p()@, r matches Err(o) ==> o == self { unimplemented!() }
}
#[verifier::external_body] pub fn x_os_string(p: XPathBuf) -> (r: XOsString) ensures r.p() == p { unimplemented!() }
impl XInto<XPathBuf> for XOsString { open spec fn x_into_post(self, u: XPathBuf) -> bool { u == self.p() } #[verifier::external_body] fn x_into(self) -> (u: XPathBuf) { unimplemented!() } }
impl XInto<XPathBuf> for String { open spec fn x_into_post(self, u: XPathBuf) -> bool { u@ == self@ } #[verifier::external_body] fn x_into(self) -> (u: XPathBuf) { unimplemented!() } }
// ------------------------------------------------------------ build contexts
//@type src/service/build/context.rs :: Context
pub trait XCtxArg: XTextArg + XInto<XPathBuf> { proof fn law_p(self, u: XPathBuf) requires XInto::<XPathBuf>::x_into_post(self, u) ensures u@ == self.asv(); }
impl<'b> XCtxArg for &'b str { proof fn law_p(self, u: XPathBuf) { } }
impl XCtxArg for String { proof fn law_p(self, u: XPathBuf) { } }
pub proof fn x_ctx_law<T: XCtxArg>(t: T) ensures forall|u: XPathBuf| #[trigger] XInto::<XPathBuf>::x_into_post(t, u) ==> u@ == t.asv()
{ assert forall|u: XPathBuf| #[trigger] XInto::<XPathBuf>::x_into_post(t, u) implies u@ == t.asv() by { t.law_p(u); } }
/// the URL the text spells, or else the path that is the text itself
pub open spec fn of_text(s: Seq<char>, c: Context) -> bool { match url_of(s) { Some(u) => c == Context::Url(u), None => c is Path && c->Path_0@ == s } }
pub open spec fn text_of(c: Context) -> Seq<char> { match c { Context::Path(p) => p@, Context::Url(u) => u@ } }
//@fn src/service/build/context.rs :: Context::parse | as=parse<T: XCtxArg> | subst=T:T | keepgen
    ensures of_text(context.asv(), r)
//@proof start
    proof { x_ctx_law(context); }
//@end
//@fn src/service/build/context.rs :: Context::as_path
    ensures match *self { Context::Path(p) => r is Some && *r->0 == p, _ => r is None }
//@end
//@fn src/service/build/context.rs :: Context::as_url
    ensures match *self { Context::Url(u) => r is Some && *r->0 == u, _ => r is None }
//@end
/// "http" or "https", and the path ends in ".git"
pub open spec fn git(u: XUrl) -> bool { (eq_ci(u.sch(), "http"@) || eq_ci(u.sch(), "https"@)) && extension_of(u.pth()) is Some && eq_ci(extension_of(u.pth())->0, "git"@) }
pub open spec fn git_fragment(c: Context) -> Option<Seq<char>> { match c { Context::Url(u) => if git(u) { u.frag() } else { None }, _ => None } }
//@fn src/service/build/context.rs :: Context::is_git_repo_url
    ensures r == (*self matches Context::Url(u) && git(u))
//@end
/// up to the first `:`, or the whole
pub open spec fn before_colon(s: Seq<char>, b: Seq<char>) -> bool { if has_c(s, ':') { b.len() < s.len() && s[b.len() as int] == ':' && b == s.take(b.len() as int) && !has_c(b, ':') } else { b == s } }
/// what follows the first `:`
pub open spec fn after_colon(s: Seq<char>, d: Seq<char>) -> bool { d.len() < s.len() && s[s.len() - d.len() - 1] == ':' && !has_c(s.take(s.len() - d.len() - 1), ':') && d == s.skip(s.len() - d.len()) }
pub proof fn lemma_cut(a: Seq<char>, b: Seq<char>, s: Seq<char>)
    requires !has_c(a, ':'), s == a + seq![':'] + b,
    ensures before_colon(s, a), after_colon(s, b), has_c(s, ':'),
{
    assert(s[a.len() as int] == ':');
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(s.len() - b.len()) =~= b);
    assert(s.take(s.len() - b.len() - 1) =~= a);
}
pub proof fn lemma_cuts(s: Seq<char>)
    ensures has_c(s, ':') ==> before_colon(s, s.take(idx_c(s, ':') as int)) && after_colon(s, s.skip(idx_c(s, ':') as int + 1)),
        !has_c(s, ':') ==> before_colon(s, s),
{
    if has_c(s, ':') {
        lemma_idx(s, ':');
        let k = idx_c(s, ':') as int;
        assert(s =~= s.take(k) + seq![':'] + s.skip(k + 1));
        lemma_cut(s.take(k), s.skip(k + 1), s);
    }
}
//@fn src/service/build/context.rs :: Context::branch_or_tag
    ensures r is Some <==> git_fragment(*self) is Some,
        r matches Some(b) ==> before_colon(git_fragment(*self)->0, b@),
//@proof start
    proof { if git_fragment(*self) is Some { lemma_cuts(git_fragment(*self)->0); } }
//@end
/// what follows it
//@fn src/service/build/context.rs :: Context::subdirectory
    ensures r is Some <==> git_fragment(*self) is Some && has_c(git_fragment(*self)->0, ':'),
        r matches Some(d) ==> after_colon(git_fragment(*self)->0, d@),
//@proof start
    proof { if git_fragment(*self) is Some { lemma_cuts(git_fragment(*self)->0); } }
//@end
//@fn src/service/build/context.rs :: Context::into_string
    ensures r is Ok <==> (self is Url || is_text(self->Path_0)), r matches Ok(s) ==> s@ == text_of(self), r matches Err(c) ==> c == self,
//@end
//@fn src/service/build/context.rs :: <Default for Context>::default | as=context_default
    ensures r is Path, r->Path_0@ == "."@,
//@end
//@fn src/service/build/context.rs :: <From<&str> for Context>::from | as=from_ref
    ensures of_text(value@, r)
//@end
//@fn src/service/build/context.rs :: <From<String> for Context>::from | as=from_owned
    ensures of_text(value@, r)
//@end
//@fn src/service/build/context.rs :: <From<Box<str>> for Context>::from | as=from_boxed
    ensures of_text(value@, r)
//@end
//@fn src/service/build/context.rs :: <From<Url> for Context>::from | as=from_url
    ensures r == Context::Url(value)
//@end
//@fn src/service/build/context.rs :: <From<PathBuf> for Context>::from | as=from_path
    ensures r == Context::Path(value)
//@end
//@fn src/service/build/context.rs :: <From<&Path> for Context>::from | as=from_path_ref
    ensures r is Path, r->Path_0@ == value@,
//@end
//@fn src/service/build/context.rs :: <Display for Context>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { text_of(*self) }
//@end
//@rename Cow => XTCow
impl<'a> XTCow<'a, str> {
    pub fn x_parse<T: XFromStr>(&self) -> (r: Result<T, T::E>) ensures T::x_parse_post(tcow_text(*self), r) { self.x_as_ref().x_parse() }
    #[verifier::external_body] pub fn x_into_owned(self) -> (r: String) ensures r@ == tcow_text(self) { unimplemented!() }
}
//@fn src/service/build/context.rs :: <From<Cow<str>> for Context>::from | as=from_cow
    ensures of_text(tcow_text(value), r)
//@end
impl XInto<Context> for &str { open spec fn x_into_post(self, u: Context) -> bool { of_text(self@, u) } fn x_into(self) -> (u: Context) { Context::from_ref(self) } }
//@fn src/service/build/context.rs :: <FromStr for Context>::from_str | trait=XFromStr | as=x_from_str | extra=type E = Infallible; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { r is Ok && of_text(s, r->Ok_0) }
//@end
//@fn src/service/build/context.rs :: <Deserialize for Context>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures match deserializer@ { XTextNode::Text(s) => r is Ok && of_text(s, r->Ok_0), XTextNode::Other => r is Err }
//@end
/// the text of a context reads back as it; only a path that spells a URL becomes that URL
pub proof fn theorem_context(c: Context, d: Context)
    requires of_text(text_of(c), d),
    ensures c is Url ==> d == c, c is Path && url_of(text_of(c)) is None ==> d is Path && d->Path_0@ == c->Path_0@, text_of(d) == text_of(c) || url_of(text_of(c)) is Some,
{ broadcast use axiom_url_text; }
} // verus!
fn main() {}
