//@rename Cow => XCow
//@rename Cow::from => XCow::from
/// std's `Cow` at `str`: the two variants, conversions keep the text
pub enum XCow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub open spec fn cow_text<'a>(c: XCow<'a, str>) -> Seq<char> { match c { XCow::Borrowed(s) => s@, XCow::Owned(s) => s@ } }
impl XCow<'static, str> {
    pub fn from<T: XInto<XCow<'static, str>>>(t: T) -> (r: Self) ensures T::x_into_post(t, r) { t.x_into() }
}
impl<'a> XCow<'a, str> {
    pub fn into_owned(self) -> (r: String) ensures r@ == cow_text(self) { match self { XCow::Borrowed(s) => s.x_to_owned(), XCow::Owned(s) => s } }
}
impl XInto<XCow<'static, str>> for &'static str {
    open spec fn x_into_post(self, u: XCow<'static, str>) -> bool { cow_text(u) == self@ }
    fn x_into(self) -> (u: XCow<'static, str>) { XCow::Borrowed(self) }
}
impl XInto<XCow<'static, str>> for String {
    open spec fn x_into_post(self, u: XCow<'static, str>) -> bool { cow_text(u) == self@ }
    fn x_into(self) -> (u: XCow<'static, str>) { XCow::Owned(self) }
}
