//@include prelude.vrs
verus! {
//@method fmt => x_fmt
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@include std_more.inc
//@include collections.inc
//@include collect.inc
//@include serde.inc
//@include any_doc.inc
//@rename Visitor::new => Visitor::new
// ------------------------------------------------------------ short or long
//@serde src/common/short_or_long.rs :: ShortOrLong | ser
//@type src/common/short_or_long.rs :: Visitor
//@fn src/common/short_or_long.rs :: Visitor::new
    ensures true
//@end
/// a map is the long form, anything else the short form
pub open spec fn choice_rd<S: XDes, L: XDes>(n: XNode) -> Option<ShortOrLong<S, L>> {
    if n is Map { match L::rd(n) { Some(l) => Some(ShortOrLong::Long(l)), None => None } } else { match S::rd(n) { Some(s) => Some(ShortOrLong::Short(s)), None => None } }
}
/// the value, or an error where there is none
pub open spec fn gives<T>(o: Option<T>, r: Result<T, XErr>) -> bool { match o { Some(v) => r == Ok::<T, XErr>(v), None => r is Err } }
impl<S: XDes, L: XDes> XAnyVisitor for Visitor<S, L> { type Value = ShortOrLong<S, L>; open spec fn any_post(n: XNode, r: Result<ShortOrLong<S, L>, XErr>) -> bool { gives(choice_rd::<S, L>(n), r) } }
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_bool | trait=XVisitBool | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_i8 | trait=XVisitI8 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_i16 | trait=XVisitI16 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_i32 | trait=XVisitI32 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_i64 | trait=XVisitI64 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_i128 | trait=XVisitI128 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_u8 | trait=XVisitU8 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_u16 | trait=XVisitU16 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_u32 | trait=XVisitU32 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_u128 | trait=XVisitU128 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_f32 | trait=XVisitF32 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_f64 | trait=XVisitF64 | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_char | trait=XVisitChar | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_string | trait=XVisitString | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_borrowed_str | as=visit_borrowed_str<'de> | trait=XVisitBorrowedStr | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_bytes | trait=XVisitBytes | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_byte_buf | trait=XVisitByteBuf | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_borrowed_bytes | as=visit_borrowed_bytes<'de> | trait=XVisitBorrowedBytes | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_none | trait=XVisitNone | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_unit | trait=XVisitUnit | subst=E:XErr | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_seq | trait=XVisitSeq | subst=A:XSeqAccess | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_map | trait=XVisitMap | subst=A:XMapAccess | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
//@fn expanded :: common::short_or_long::<Visitor for Visitor<S,L>>::visit_enum | trait=XVisitEnum | subst=A:XEnumAccess | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes>
//@end
impl<S: XDes, L: XDes> XVisitor for Visitor<S, L> { }
//@fn src/common/short_or_long.rs :: <Deserialize for ShortOrLong<S,L>>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<ShortOrLong<S, L>, XErr> | gen=<S: XDes, L: XDes> | extra=open spec fn rd(n: XNode) -> Option<ShortOrLong<S, L>> { choice_rd::<S, L>(n) }
//@end
/// a short form is never written as a map, a long form always is: what is written reads back as the same form
pub proof fn theorem_choice<S: XDes + XSer, L: XDes + XSer>(v: ShortOrLong<S, L>)
    requires match v { ShortOrLong::Short(s) => !(s.node() is Map) && S::rd(s.node()) == Some(s), ShortOrLong::Long(l) => l.node() is Map && L::rd(l.node()) == Some(l) },
    ensures ShortOrLong::<S, L>::rd(v.node()) == Some(v)
{ }
// ------------------------------------------------------------ an item or a list
//@type src/serde.rs :: ItemOrListVisitor
//@fn src/serde.rs :: ItemOrListVisitor::new
    ensures true
//@end
//@fn src/serde.rs :: <Default for ItemOrListVisitor<V,I,L>>::default
    ensures true
//@end
/// a value converted into another (`From`)
pub open spec fn into_gives<A: XInto<V>, V>(o: Option<A>, r: Result<V, XErr>) -> bool { match o { Some(a) => r matches Ok(v) && a.x_into_post(v), None => r is Err } }
/// a list reads as the list type, a map and nothing (null) not at all, anything else as the item type
pub open spec fn item_or_list<V, I: XDes + XInto<V>, L: XDes + XInto<V>>(n: XNode, r: Result<V, XErr>) -> bool {
    match n { XNode::List(_) => into_gives::<L, V>(L::rd(n), r), XNode::Map(_) | XNode::Null | XNode::Tagged(_) => r is Err, _ => into_gives::<I, V>(I::rd(n), r) }
}
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XAnyVisitor for ItemOrListVisitor<V, I, L> { type Value = V; open spec fn any_post(n: XNode, r: Result<V, XErr>) -> bool { item_or_list::<V, I, L>(n, r) } }
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_bool | trait=XVisitBool | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_i8 | trait=XVisitI8 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_i16 | trait=XVisitI16 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_i32 | trait=XVisitI32 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_i64 | trait=XVisitI64 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_i128 | trait=XVisitI128 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_u8 | trait=XVisitU8 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_u16 | trait=XVisitU16 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_u32 | trait=XVisitU32 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_u64 | trait=XVisitU64 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_u128 | trait=XVisitU128 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_f32 | trait=XVisitF32 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_f64 | trait=XVisitF64 | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_char | trait=XVisitChar | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_str | trait=XVisitStr | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_string | trait=XVisitString | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_bytes | trait=XVisitBytes | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_byte_buf | trait=XVisitByteBuf | subst=E:XErr | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
//@fn expanded :: serde::<Visitor for ItemOrListVisitor<V,I,L>>::visit_seq | trait=XVisitSeq | subst=A:XSeqAccess | retty=Result<V, XErr> | meth=into:x_into | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>>
//@end
// serde's defaults of the methods this visitor does not have
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitBorrowedStr for ItemOrListVisitor<V, I, L> { fn visit_borrowed_str(self, v: &str) -> (r: Result<V, XErr>) { self.visit_str(v) } }
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitBorrowedBytes for ItemOrListVisitor<V, I, L> { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<V, XErr>) { self.visit_bytes(v) } }
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitNone for ItemOrListVisitor<V, I, L> { fn visit_none(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitUnit for ItemOrListVisitor<V, I, L> { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitMap for ItemOrListVisitor<V, I, L> { fn visit_map(self, v: XMapAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitEnum for ItemOrListVisitor<V, I, L> { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl<V, I: XDes + XInto<V>, L: XDes + XInto<V>> XVisitor for ItemOrListVisitor<V, I, L> { }
//@fn src/serde.rs :: ItemOrListVisitor::deserialize | subst=D:XDe | retty=Result<V, XErr> | noimplgen | gen=<V, I: XDes + XInto<V>, L: XDes + XInto<V>> | self=ItemOrListVisitor<V, I, L>
    ensures item_or_list::<V, I, L>(deserializer@, r)
//@end

// ------------------------------------------------------------ sets as documents (trusted: serde's `IndexSet`)
pub uninterp spec fn set_of<T>(s: Seq<T>) -> XIndexSet<T>;
#[verifier::external_body] pub proof fn axiom_set_of_list<T: XKey>(v: XIndexSet<T>) ensures set_of(v.list()) == v { }
impl<T: XDes + XKey> XDes for XIndexSet<T> {
    open spec fn rd(n: XNode) -> Option<XIndexSet<T>> { match n { XNode::List(s) => if all_read::<T>(s) { Some(set_of(uniq(read_all::<T>(s)))) } else { None }, _ => None } }
    #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<XIndexSet<T>, XErr>) { unimplemented!() }
}
impl<T: XSer> XSer for XIndexSet<T> {
    open spec fn node(&self) -> XNode { XNode::List(write_all(self.list())) }
    #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() }
}
impl XKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
pub proof fn lemma_uniq_self<T: XKey>(s: Seq<T>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key() != (#[trigger] s[j]).key()
    ensures uniq(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).key() != (#[trigger] p[j]).key() by { assert(p[i] == s[i] && p[j] == s[j]); }
        lemma_uniq_self(p);
        assert(!text_in(p, s.last().key())) by { if text_in(p, s.last().key()) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).key() == s.last().key(); assert(s[i].key() == s[s.len() - 1].key()); } }
        assert(p.push(s.last()) =~= s);
    }
}
/// a set whose items survive survives, order included
pub proof fn lemma_set_survives<T: XDes + XSer + XKey>(v: XIndexSet<T>)
    requires forall|i: int| 0 <= i < v.list().len() ==> T::rd((#[trigger] v.list()[i]).node()) == Some(v.list()[i])
    ensures XIndexSet::<T>::rd(v.node()) == Some(v)
{
    let n = write_all(v.list());
    assert forall|i: int| 0 <= i < n.len() implies T::rd(#[trigger] n[i]) is Some by { assert(n[i] == v.list()[i].node()); }
    assert(read_all::<T>(n) =~= v.list());
    assert forall|i: int, j: int| 0 <= i < j < v.list().len() implies (#[trigger] v.list()[i]).key() != (#[trigger] v.list()[j]).key() by { v.axiom_set_distinct(i, j); }
    lemma_uniq_self(v.list());
    axiom_set_of_list(v);
}
/// a list whose items survive survives, order included
pub proof fn lemma_vec_survives<T: XDes + XSer>(v: Vec<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> T::rd((#[trigger] v@[i]).node()) == Some(v@[i])
    ensures Vec::<T>::rd(v.node()) == Some(v)
{
    let n = write_all(v@);
    assert forall|i: int| 0 <= i < n.len() implies T::rd(#[trigger] n[i]) is Some by { assert(n[i] == v@[i].node()); }
    assert(read_all::<T>(n) =~= v@);
    axiom_vec_of_vec(v);
}
/// not written as a list, a map or null
pub open spec fn plain(n: XNode) -> bool { !(n is List || n is Map || n is Null || n is Tagged) }
pub open spec fn opt_map<A, B>(o: Option<A>, f: spec_fn(A) -> B) -> Option<B> { match o { Some(a) => Some(f(a)), None => None } }
// ------------------------------------------------------------ `ItemOrList`
#[verifier::reject_recursive_types(T)]
//@serde src/common.rs :: ItemOrList | ser
//@fn src/common.rs :: <From<T> for ItemOrList<T>>::from | as=item_of | gen=<T> | retty=ItemOrList<T>
    ensures r == ItemOrList::Item(value)
//@end
//@fn src/common.rs :: <From<IndexSet<T>> for ItemOrList<T>>::from | as=items_of | gen=<T> | retty=ItemOrList<T>
    ensures r == ItemOrList::List(value)
//@end
impl<T> XInto<ItemOrList<T>> for T { open spec fn x_into_post(self, u: ItemOrList<T>) -> bool { u == ItemOrList::Item(self) } fn x_into(self) -> (u: ItemOrList<T>) { ItemOrList::item_of(self) } }
impl<T> XInto<ItemOrList<T>> for XIndexSet<T> { open spec fn x_into_post(self, u: ItemOrList<T>) -> bool { u == ItemOrList::List(self) } fn x_into(self) -> (u: ItemOrList<T>) { ItemOrList::items_of(self) } }
pub open spec fn iol_rd<T: XDes + XKey>(n: XNode) -> Option<ItemOrList<T>> {
    match n { XNode::List(_) => opt_map(XIndexSet::<T>::rd(n), |l: XIndexSet<T>| ItemOrList::List(l)), XNode::Map(_) | XNode::Null | XNode::Tagged(_) => None, _ => opt_map(T::rd(n), |i: T| ItemOrList::Item(i)) }
}
//@fn src/common.rs :: <Deserialize for ItemOrList<T>>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<ItemOrList<T>, XErr> | gen=<T: XDes + XKey> | extra=open spec fn rd(n: XNode) -> Option<ItemOrList<T>> { iol_rd::<T>(n) }
//@end
pub proof fn theorem_item_or_list<T: XDes + XSer + XKey>(v: ItemOrList<T>)
    requires match v { ItemOrList::Item(i) => plain(i.node()) && T::rd(i.node()) == Some(i), ItemOrList::List(l) => forall|k: int| 0 <= k < l.list().len() ==> T::rd((#[trigger] l.list()[k]).node()) == Some(l.list()[k]) },
    ensures ItemOrList::<T>::rd(v.node()) == Some(v)
{ match v { ItemOrList::List(l) => { lemma_set_survives(l); } _ => { } } }
// ------------------------------------------------------------ `Command`
//@serde src/service.rs :: Command | ser
//@fn src/service.rs :: <From<String> for Command>::from | as=command_of | retty=Command
    ensures r == Command::String(value)
//@end
//@fn src/service.rs :: <From<Vec<String>> for Command>::from | as=commands_of | retty=Command
    ensures r == Command::List(value)
//@end
impl XInto<Command> for String { open spec fn x_into_post(self, u: Command) -> bool { u == Command::String(self) } fn x_into(self) -> (u: Command) { Command::command_of(self) } }
impl XInto<Command> for Vec<String> { open spec fn x_into_post(self, u: Command) -> bool { u == Command::List(self) } fn x_into(self) -> (u: Command) { Command::commands_of(self) } }
pub open spec fn command_rd(n: XNode) -> Option<Command> { match n { XNode::List(_) => opt_map(Vec::<String>::rd(n), |l: Vec<String>| Command::List(l)), _ => opt_map(String::rd(n), |i: String| Command::String(i)) } }
//@fn src/service.rs :: <Deserialize for Command>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<Command, XErr> | extra=open spec fn rd(n: XNode) -> Option<Command> { command_rd(n) }
//@end
/// a command is written as what it is: a text or a list of texts, and reads back as that
pub proof fn theorem_command(v: Command) ensures Command::rd(v.node()) == Some(v)
{ match v { Command::String(s) => { lemma_rt_text(s); } Command::List(l) => { assert forall|i: int| 0 <= i < l@.len() implies String::rd((#[trigger] l@[i]).node()) == Some(l@[i]) by { lemma_rt_text(l@[i]); } lemma_vec_survives(l); } } }
// ------------------------------------------------------------ `EnvFile`
#[verifier::external_body] pub struct PathBuf { s: String }
/// a path is a text (trusted: std's `PathBuf`)
impl XDes for PathBuf { uninterp spec fn rd(n: XNode) -> Option<PathBuf>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<PathBuf, XErr>) { unimplemented!() } }
impl XSer for PathBuf { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
#[verifier::external_body] pub broadcast proof fn axiom_path(p: PathBuf) ensures (#[trigger] p.node()) is Text, PathBuf::rd(p.node()) == Some(p) { }
/// `env_file`'s long form: decided as a struct elsewhere (P17), here only that it is written as a map and survives
#[verifier::external_body] pub struct Config { s: String }
impl XDes for Config { uninterp spec fn rd(n: XNode) -> Option<Config>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Config, XErr>) { unimplemented!() } }
impl XSer for Config { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
#[verifier::external_body] pub broadcast proof fn axiom_config(c: Config) ensures (#[trigger] c.node()) is Map, Config::rd(c.node()) == Some(c) { }
pub type List = Vec<ShortOrLong<PathBuf, Config>>;
//@serde src/service/env_file.rs :: EnvFile | ser
//@fn src/service/env_file.rs :: <From<PathBuf> for EnvFile>::from | as=env_file_of | retty=EnvFile
    ensures r == EnvFile::Single(value)
//@end
//@fn src/service/env_file.rs :: <From<List> for EnvFile>::from | as=env_files_of | retty=EnvFile
    ensures r == EnvFile::List(value)
//@end
impl XInto<EnvFile> for PathBuf { open spec fn x_into_post(self, u: EnvFile) -> bool { u == EnvFile::Single(self) } fn x_into(self) -> (u: EnvFile) { EnvFile::env_file_of(self) } }
impl XInto<EnvFile> for Vec<ShortOrLong<PathBuf, Config>> { open spec fn x_into_post(self, u: EnvFile) -> bool { u == EnvFile::List(self) } fn x_into(self) -> (u: EnvFile) { EnvFile::env_files_of(self) } }
pub open spec fn env_file_rd(n: XNode) -> Option<EnvFile> { match n { XNode::List(_) => opt_map(List::rd(n), |l: List| EnvFile::List(l)), XNode::Map(_) | XNode::Null | XNode::Tagged(_) => None, _ => opt_map(PathBuf::rd(n), |i: PathBuf| EnvFile::Single(i)) } }
//@fn src/service/env_file.rs :: <Deserialize for EnvFile>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<EnvFile, XErr> | extra=open spec fn rd(n: XNode) -> Option<EnvFile> { env_file_rd(n) }
//@end
pub proof fn theorem_env_file(v: EnvFile) ensures EnvFile::rd(v.node()) == Some(v)
{
    match v { EnvFile::Single(p) => { axiom_path(p); } EnvFile::List(l) => {
        assert forall|i: int| 0 <= i < l@.len() implies ShortOrLong::<PathBuf, Config>::rd((#[trigger] l@[i]).node()) == Some(l@[i]) by {
            match l@[i] { ShortOrLong::Short(p) => { axiom_path(p); } ShortOrLong::Long(c) => { axiom_config(c); } }
            theorem_choice(l@[i]);
        }
        lemma_vec_survives(l);
    } }
}
// ------------------------------------------------------------ `ListOrMap`
//@rename Map => ValueMap
//@rename Map::deserialize => XDes::x_deserialize
//@rename IndexSet::deserialize => XDes::x_deserialize
#[verifier::external_body] pub struct ValueMap { s: String }
/// a map of map keys to optional values (decided by driver)
impl XDes for ValueMap { uninterp spec fn rd(n: XNode) -> Option<ValueMap>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<ValueMap, XErr>) { unimplemented!() } }
impl XSer for ValueMap { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
#[verifier::external_body] pub broadcast proof fn axiom_map(c: ValueMap) ensures (#[trigger] c.node()) is Map, ValueMap::rd(c.node()) == Some(c) { }
//@serde src/common.rs :: ListOrMap | ser
//@type src/common.rs :: ListOrMapVisitor
pub open spec fn lom_rd(n: XNode) -> Option<ListOrMap> { match n { XNode::List(_) => opt_map(XIndexSet::<String>::rd(n), |l: XIndexSet<String>| ListOrMap::List(l)), XNode::Map(_) => opt_map(ValueMap::rd(n), |m: ValueMap| ListOrMap::Map(m)), _ => None } }
impl XAnyVisitor for ListOrMapVisitor { type Value = ListOrMap; open spec fn any_post(n: XNode, r: Result<ListOrMap, XErr>) -> bool { gives(lom_rd(n), r) } }
//@fn src/common.rs :: <Visitor for ListOrMapVisitor>::visit_seq | trait=XVisitSeq | subst=A:XSeqAccess | retty=Result<ListOrMap, XErr>
//@end
//@fn src/common.rs :: <Visitor for ListOrMapVisitor>::visit_map | trait=XVisitMap | subst=A:XMapAccess | retty=Result<ListOrMap, XErr>
//@end
// serde's defaults of the methods this visitor does not have
impl XVisitBool for ListOrMapVisitor { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI8 for ListOrMapVisitor { fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI16 for ListOrMapVisitor { fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI32 for ListOrMapVisitor { fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI64 for ListOrMapVisitor { fn visit_i64(self, v: i64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitI128 for ListOrMapVisitor { fn visit_i128(self, v: i128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU8 for ListOrMapVisitor { fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU16 for ListOrMapVisitor { fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU32 for ListOrMapVisitor { fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU64 for ListOrMapVisitor { fn visit_u64(self, v: u64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitU128 for ListOrMapVisitor { fn visit_u128(self, v: u128) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF32 for ListOrMapVisitor { fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitF64 for ListOrMapVisitor { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitChar for ListOrMapVisitor { fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitStr for ListOrMapVisitor { fn visit_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitString for ListOrMapVisitor { fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBorrowedStr for ListOrMapVisitor { fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBytes for ListOrMapVisitor { fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitByteBuf for ListOrMapVisitor { fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitBorrowedBytes for ListOrMapVisitor { fn visit_borrowed_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitNone for ListOrMapVisitor { fn visit_none(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitUnit for ListOrMapVisitor { fn visit_unit(self) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitEnum for ListOrMapVisitor { fn visit_enum(self, v: XEnumAccess) -> (r: Result<Self::Value, XErr>) { Err(XErr) } }
impl XVisitor for ListOrMapVisitor { }
//@fn src/common.rs :: <Deserialize for ListOrMap>::deserialize | trait=XDes | as=x_deserialize | subst=D:XDe | retty=Result<ListOrMap, XErr> | extra=open spec fn rd(n: XNode) -> Option<ListOrMap> { lom_rd(n) }
//@end
pub proof fn theorem_list_or_map(v: ListOrMap) ensures ListOrMap::rd(v.node()) == Some(v)
{ match v { ListOrMap::Map(m) => { axiom_map(m); } ListOrMap::List(l) => { assert forall|i: int| 0 <= i < l.list().len() implies String::rd((#[trigger] l.list()[i]).node()) == Some(l.list()[i]) by { lemma_rt_text(l.list()[i]); } lemma_set_survives(l); } } }
} // verus!
fn main() {}
