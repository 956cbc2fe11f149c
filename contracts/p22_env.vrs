//@include prelude.vrs
verus! {
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@rename Into::into => XInto::x_into
//@method into_iter => x_into_iter
//@method collect => x_collect
//@include std_more.inc
//@include collections.inc
//@include collect.inc
#[verifier::external_body] pub struct PathBuf { s: String }
#[verifier::external_body] pub struct Config { s: String }
//@type src/common/short_or_long.rs :: ShortOrLong
pub type List = Vec<ShortOrLong<PathBuf, Config>>;
//@type src/service/env_file.rs :: EnvFile
impl<T> XFromItems<T> for Vec<T> { open spec fn made(items: Seq<T>, r: Self) -> bool { r@ == items } #[verifier::external_body] fn x_from_items(v: XIter<T>) -> (r: Self) { unimplemented!() } }
impl<T> XIter<T> {
    pub fn x_into_iter(self) -> (r: XIter<T>) ensures r == self { self }
    pub fn collect<C: XFromItems<T>>(self) -> (r: C) ensures C::made(self.rest(), r) { C::x_from_items(self) }
    /// std's `map`: the function's result for each item, in order
    #[verifier::external_body] pub fn x_map<U, F: Fn(T) -> U>(self, f: F) -> (r: XIter<U>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> call_requires(f, (#[trigger] self.rest()[i],))
        ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < self.rest().len() ==> call_ensures(f, (self.rest()[i],), #[trigger] r.rest()[i])
    { unimplemented!() }
}
/// all of the items, in order, whatever their number
//@fn src/service/env_file.rs :: <FromIterator<I> for EnvFile>::from_iter | as=from_iter<I: XInto<ShortOrLong<PathBuf, Config>>> | keepgen | subst=T:XIter<I> | eta=map>x_map~I~ShortOrLong<PathBuf, Config>~x.x_into_post(__b) | noimplgen
    ensures match r { EnvFile::List(l) => l@.len() == iter.rest().len() && forall|i: int| 0 <= i < iter.rest().len() ==> iter.rest()[i].x_into_post(#[trigger] l@[i]), _ => false }
//@end
} // verus!
fn main() {}
