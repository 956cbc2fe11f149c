impl XDefault for &str {
    open spec fn x_default_spec() -> &'static str { "" }
    fn x_default() -> (r: Self) { "" }
}
impl XDefault for bool {
    open spec fn x_default_spec() -> bool { false }
    fn x_default() -> (r: bool) { false }
}
impl<T> XDefault for Option<T> {
    open spec fn x_default_spec() -> Option<T> { None }
    fn x_default() -> (r: Option<T>) { None }
}
impl XInto<String> for char {
    open spec fn x_into_post(self, u: String) -> bool { u@ == seq![self] }
    #[verifier::external_body]
    fn x_into(self) -> (u: String) { self.into() }
}
