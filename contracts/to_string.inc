/// `ToString` of a `Display` type: the text `fmt` writes (std's blanket implementation)
pub trait XToString { spec fn ts(&self) -> Seq<char>; fn x_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl<T: XDisplay> XToString for T {
    open spec fn ts(&self) -> Seq<char> { self.x_disp() }
    fn x_to_string(&self) -> (r: String) {
        let mut f = Fmt::x_new();
        let _ = self.x_fmt(&mut f);
        proof { assert(f@ =~= self.x_disp()); }
        f.x_into_string()
    }
}
/// comparison of texts, owned or not
pub trait XText { spec fn tx(&self) -> Seq<char>; }
impl XText for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl XText for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<T: XText + ?Sized> XText for &T { open spec fn tx(&self) -> Seq<char> { (**self).tx() } }
#[verifier::external_body]
pub fn x_str_eq<A: XText + ?Sized, B: XText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.tx() == b.tx()) { unimplemented!() }
