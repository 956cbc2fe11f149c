// ------------------------------------------------------------ a part that is not set: none, false, or without entries
pub trait XUnset { spec fn unset(&self) -> bool; }
impl<T> XUnset for Option<T> { open spec fn unset(&self) -> bool { *self is None } }
impl<T> XUnset for Vec<T> { open spec fn unset(&self) -> bool { self@.len() == 0 } }
impl XUnset for bool { open spec fn unset(&self) -> bool { !*self } }
impl<T> XUnset for XIndexSet<T> { open spec fn unset(&self) -> bool { self.list().len() == 0 } }
impl<K, V> XUnset for XIndexMap<K, V> { open spec fn unset(&self) -> bool { self.entries().len() == 0 } }
impl XUnset for ListOrMap { open spec fn unset(&self) -> bool { match *self { ListOrMap::List(l) => l.list().len() == 0, ListOrMap::Map(m) => m.entries().len() == 0 } } }
impl XUnset for Extensions { open spec fn unset(&self) -> bool { self.entries().len() == 0 } }
/// what `Default` makes of each is unset (std and indexmap: trusted; `ListOrMap`: under contract)
//@rename std::default::Default::default => XFresh::x_fresh
//@rename Default::default => XFresh::x_fresh
//@rename IndexSet::default => XIndexSet::x_fresh
//@rename IndexMap::default => XIndexMap::x_fresh
//@rename Extensions::default => Extensions::x_fresh
//@rename std::ops::Not::not => x_not
//@rename Not::not => x_not
pub trait XFresh: XUnset + Sized { fn x_fresh() -> (r: Self) ensures r.unset(); }
impl<T> XFresh for Option<T> { fn x_fresh() -> (r: Self) { None } }
impl<T> XFresh for Vec<T> { fn x_fresh() -> (r: Self) { Vec::new() } }
impl XFresh for bool { fn x_fresh() -> (r: Self) { false } }
impl<T> XFresh for XIndexSet<T> { #[verifier::external_body] fn x_fresh() -> (r: Self) { unimplemented!() } }
impl<K, V> XFresh for XIndexMap<K, V> { #[verifier::external_body] fn x_fresh() -> (r: Self) { unimplemented!() } }
impl XFresh for Extensions { #[verifier::external_body] fn x_fresh() -> (r: Self) { unimplemented!() } }
//@fn src/common.rs :: <Default for ListOrMap>::default | trait=XFresh | as=x_fresh
//@end
pub fn x_not(b: &bool) -> (r: bool) ensures r == !*b { !*b }
//@fn src/common.rs :: ListOrMap::is_empty
    ensures r == self.unset()
//@end
