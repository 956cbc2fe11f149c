// ------------------------------------------------------------ lists, sets and maps in order (trusted model of std and indexmap collections)
/// an iterator, read as the items it has yet to give
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XIter<T> { v: Vec<T> }
pub trait XIterator: Sized {
    type Item;
    spec fn rest(self) -> Seq<Self::Item>;
    fn x_next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}
impl<T> XIter<T> {
    #[verifier::external_body]
    pub fn x_new() -> (r: Self) ensures r.rest() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self).rest() == old(self).rest().push(x) { unimplemented!() }
}
impl<T> XIterator for XIter<T> {
    type Item = T;
    uninterp spec fn rest(self) -> Seq<T>;
    #[verifier::external_body]
    fn x_next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
/// what a `for` loop over a value visits, in order
pub trait XItems: Sized {
    type It;
    spec fn items(self) -> Seq<Self::It>;
    fn x_items(self) -> (r: Vec<Self::It>) ensures r@ == self.items();
}
/// a `for` loop over an iterator asks it for its items until there are none
impl<I: XIterator> XItems for I {
    type It = I::Item;
    open spec fn items(self) -> Seq<I::Item> { self.rest() }
    fn x_items(self) -> (r: Vec<I::Item>) {
        let mut it = self;
        let mut v: Vec<I::Item> = Vec::new();
        loop
            invariant v@ + it.rest() =~= self.rest(),
            ensures v@ =~= self.rest(),
            decreases it.rest().len(),
        {
            let ghost before = it;
            match it.x_next() {
                Some(x) => { proof { assert(seq![x] + before.rest().skip(1) =~= before.rest()); } v.push(x); }
                None => { break; }
            }
        }
        v
    }
}
pub trait XListIter<T> { spec fn list(&self) -> Seq<T>; fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) ensures r.rest().len() == self.list().len(), forall|i: int| 0 <= i < self.list().len() ==> *(#[trigger] r.rest()[i]) == self.list()[i]; }
impl<T> XListIter<T> for Vec<T> { open spec fn list(&self) -> Seq<T> { self@ } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { unimplemented!() } }
impl<'b, T> XItems for &'b Vec<T> {
    type It = &'b T;
    open spec fn items(self) -> Seq<&'b T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn x_items(self) -> (r: Vec<&'b T>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XIndexSet<T> { v: Vec<T> }
impl<T> XListIter<T> for XIndexSet<T> { uninterp spec fn list(&self) -> Seq<T>; #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { unimplemented!() } }
impl<'b, T> XItems for &'b XIndexSet<T> {
    type It = &'b T;
    open spec fn items(self) -> Seq<&'b T> { Seq::new(self.list().len(), |i: int| &self.list()[i]) }
    #[verifier::external_body]
    fn x_items(self) -> (r: Vec<&'b T>) { unimplemented!() }
}
/// keys are told apart by their text
pub trait XKey { spec fn key(&self) -> Seq<char>; }
impl<'b, T: XKey> XKey for &'b T { open spec fn key(&self) -> Seq<char> { (**self).key() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct XIndexMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> XIndexMap<K, V> {
    /// the entries in order
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
}
impl<K: XKey, V> XIndexMap<K, V> {
    pub open spec fn has(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.entries().len() && #[trigger] self.entries()[i].0.key() == k }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.has(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: XIter<&'a K>)
        ensures r.rest().len() == self.entries().len(), forall|i: int| 0 <= i < self.entries().len() ==> *(#[trigger] r.rest()[i]) == self.entries()[i].0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: XIter<&'a V>)
        ensures r.rest().len() == self.entries().len(), forall|i: int| 0 <= i < self.entries().len() ==> *(#[trigger] r.rest()[i]) == self.entries()[i].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.entries() == Seq::<(K, V)>::empty() { unimplemented!() }
    /// a new key goes to the end; the value of a known key is replaced in place
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            r is None <==> !old(self).has(k.key()),
            r is None ==> final(self).entries() == old(self).entries().push((k, v)),
            r is Some ==> final(self).entries().len() == old(self).entries().len(),
    { unimplemented!() }
    /// no key occurs twice
    #[verifier::external_body]
    pub broadcast proof fn axiom_distinct(&self, i: int, j: int)
        requires 0 <= i < j < self.entries().len()
        ensures (#[trigger] self.entries()[i]).0.key() != (#[trigger] self.entries()[j]).0.key()
    { }
}
impl<'b, K, V> XItems for &'b XIndexMap<K, V> {
    type It = (&'b K, &'b V);
    open spec fn items(self) -> Seq<(&'b K, &'b V)> { Seq::new(self.entries().len(), |i: int| (&self.entries()[i].0, &self.entries()[i].1)) }
    #[verifier::external_body]
    fn x_items(self) -> (r: Vec<(&'b K, &'b V)>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct XHashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K: XKey, V: Copy> XHashMap<K, V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    /// `*self.entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn x_entry_or_insert(&mut self, k: K, v: V) -> (r: V)
        ensures
            old(self).map().dom().contains(k.key()) ==> r == old(self).map()[k.key()] && final(self).map() == old(self).map(),
            !old(self).map().dom().contains(k.key()) ==> r == v && final(self).map() == old(self).map().insert(k.key(), v),
    { unimplemented!() }
}
