// ------------------------------------------------------------ collections made of an iterator's items (trusted)
/// a known key keeps its place and gets the new value, a new one goes to the end
pub open spec fn key_at<K: XKey, V>(es: Seq<(K, V)>, k: Seq<char>) -> int decreases es.len() { if es.len() == 0 { -1 } else if es.last().0.key() == k { es.len() - 1 } else { key_at(es.drop_last(), k) } }
pub open spec fn put<K: XKey, V>(es: Seq<(K, V)>, e: (K, V)) -> Seq<(K, V)> { let i = key_at(es, e.0.key()); if i >= 0 { es.update(i, (es[i].0, e.1)) } else { es.push(e) } }
pub open spec fn put_all<K: XKey, V>(es: Seq<(K, V)>) -> Seq<(K, V)> decreases es.len() { if es.len() == 0 { es } else { put(put_all(es.drop_last()), es.last()) } }
pub open spec fn text_in<T: XKey>(es: Seq<T>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).key() == k }
/// the first of each
pub open spec fn uniq<T: XKey>(es: Seq<T>) -> Seq<T> decreases es.len() { if es.len() == 0 { es } else { let u = uniq(es.drop_last()); if text_in(u, es.last().key()) { u } else { u.push(es.last()) } } }
pub trait XFromItems<T>: Sized {
    spec fn made(items: Seq<T>, r: Self) -> bool;
    fn x_from_items(v: XIter<T>) -> (r: Self) ensures Self::made(v.rest(), r);
}
impl<K: XKey, V> XFromItems<(K, V)> for XIndexMap<K, V> {
    open spec fn made(items: Seq<(K, V)>, r: Self) -> bool { r.entries() == put_all(items) }
    #[verifier::external_body] fn x_from_items(v: XIter<(K, V)>) -> (r: Self) { unimplemented!() }
}
impl<T: XKey> XFromItems<T> for XIndexSet<T> {
    open spec fn made(items: Seq<T>, r: Self) -> bool { r.list() == uniq(items) }
    #[verifier::external_body] fn x_from_items(v: XIter<T>) -> (r: Self) { unimplemented!() }
}
impl<T> XIter<T> { pub fn x_collect<C: XFromItems<T>>(self) -> (r: C) ensures C::made(self.rest(), r) { C::x_from_items(self) } }
impl<T: XKey> XIndexSet<T> {
    #[verifier::external_body] pub fn x_into_iter(self) -> (r: XIter<T>) ensures r.rest() == self.list() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.list().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.list().len() { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.list().len() > 0 && *x == self.list()[0], None => self.list().len() == 0 } { unimplemented!() }
    /// no text occurs twice
    #[verifier::external_body]
    pub broadcast proof fn axiom_set_distinct(&self, i: int, j: int)
        requires 0 <= i < j < self.list().len()
        ensures (#[trigger] self.list()[i]).key() != (#[trigger] self.list()[j]).key()
    { }
}
impl<K: XKey, V> XIndexMap<K, V> {
    #[verifier::external_body] pub fn x_into_iter(self) -> (r: XIter<(K, V)>) ensures r.rest() == self.entries() { unimplemented!() }
}
pub open spec fn mapped<K: XKey, V, L: XKey, W>(es: Seq<(K, V)>, fk: spec_fn(K) -> L, fv: spec_fn(V) -> W) -> Seq<(L, W)> { Seq::new(es.len(), |i: int| (fk(es[i].0), fv(es[i].1))) }
/// collecting keeps to the keys
pub proof fn lemma_mapped<K: XKey, V, L: XKey, W>(es: Seq<(K, V)>, fk: spec_fn(K) -> L, fv: spec_fn(V) -> W)
    requires forall|k: K| (#[trigger] fk(k)).key() == k.key()
    ensures mapped(put_all(es), fk, fv) =~= put_all(mapped(es, fk, fv))
    decreases es.len()
{
    if es.len() > 0 {
        lemma_mapped(es.drop_last(), fk, fv);
        assert(mapped(es, fk, fv).drop_last() =~= mapped(es.drop_last(), fk, fv));
        let a = put_all(es.drop_last());
        lemma_mapped_at(a, es.last().0.key(), fk, fv);
        let l = mapped(es, fk, fv).last();
        assert(l.0.key() == es.last().0.key());
    }
}
pub proof fn lemma_mapped_at<K: XKey, V, L: XKey, W>(es: Seq<(K, V)>, k: Seq<char>, fk: spec_fn(K) -> L, fv: spec_fn(V) -> W)
    requires forall|k: K| (#[trigger] fk(k)).key() == k.key()
    ensures key_at(es, k) == key_at(mapped(es, fk, fv), k), -1 <= key_at(es, k) < es.len(), key_at(es, k) >= 0 ==> es[key_at(es, k)].0.key() == k
    decreases es.len()
{
    if es.len() > 0 {
        lemma_mapped_at(es.drop_last(), k, fk, fv);
        assert(mapped(es, fk, fv).drop_last() =~= mapped(es.drop_last(), fk, fv));
        let l = mapped(es, fk, fv).last();
        assert(l.0.key() == es.last().0.key());
    }
}
