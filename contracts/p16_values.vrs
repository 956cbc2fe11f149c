//@include prelude.vrs
verus! {
//@include values.inc
// ------------------------------------------------------------ an item or a list
pub broadcast proof fn lemma_uniq_one<T: XKey>(v: T) ensures #[trigger] uniq(seq![v]) == seq![v] { reveal_with_fuel(uniq, 2); assert(seq![v].drop_last() =~= seq![]); assert(Seq::<T>::empty().push(v) =~= seq![v]); assert(uniq(seq![v]) =~= seq![v]); }
#[verifier::reject_recursive_types(T)]
//@type src/common.rs :: ItemOrList
//@fn src/common.rs :: ItemOrList::as_item | gen=<T: XKey> | noimplgen | self=ItemOrList<T>
    ensures match *self { ItemOrList::Item(v) => r is Some && *r->0 == v, ItemOrList::List(l) => if l.list().len() == 1 { r is Some && *r->0 == l.list()[0] } else { r is None } }
//@end
//@fn src/common.rs :: ItemOrList::as_list | gen=<T: XKey> | noimplgen | self=ItemOrList<T>
    ensures match *self { ItemOrList::List(l) => r is Some && *r->0 == l, _ => r is None }
//@end
//@fn src/common.rs :: ItemOrList::into_list | gen=<T: XKey> | noimplgen | self=ItemOrList<T>
    ensures match self { ItemOrList::List(l) => r == l, ItemOrList::Item(v) => r.list() =~= seq![v] }
//@proof start
    broadcast use lemma_uniq_one;
//@end
// ------------------------------------------------------------ what follows from the contracts
/// an integer reads back from its text as itself
pub proof fn theorem_integer_text(n: u64, m: i64)
    ensures num_rd(num_disp(Number::UnsignedInt(n))) == Some(Number::UnsignedInt(n)), m < 0 ==> num_rd(num_disp(Number::SignedInt(m))) == Some(Number::SignedInt(m))
{
    let d = dec(n as nat);
    lemma_dec(n as nat);
    assert(spec_is_ascii_digit(d[0]));
    assert(uint_digits(d) == d);
    if m < 0 {
        let a = (-(m as int)) as nat;
        let t = seq!['-'] + dec(a);
        lemma_dec(a);
        assert(t.skip(1) =~= dec(a));
    }
}
/// a text becomes a boolean or a number only if it prints back the same
pub proof fn theorem_scalar_text(s: Seq<char>) ensures scalar_disp(scalar_exact(s)) == s { }
/// `key=` is written `key`
pub open spec fn no_empty_value(s: Seq<char>, d: char) -> Seq<char> { let i = idx_any(s, seq![d]); if i + 1 == s.len() { s.take(i as int) } else { s } }
pub proof fn lemma_joined(s: Seq<char>)
    ensures joined(split_entry(s, seq!['='])) == no_empty_value(s, '=')
{
    lemma_entry(s, seq!['=']);
    lemma_idx_any(s, '=');
    let i = idx_any(s, seq!['=']) as int;
    if i + 1 < s.len() {
        theorem_scalar_text(s.skip(i + 1));
        assert(s.take(i) + seq!['='] + s.skip(i + 1) =~= s);
    }
}
pub proof fn lemma_idx_any(s: Seq<char>, c: char)
    ensures ({ let i = idx_any(s, seq![c]) as int; i <= s.len() && (i < s.len() ==> s[i] == c) && !has_c(s.take(i), c) })
    decreases s.len()
{
    let d = seq![c];
    if s.len() > 0 {
        assert(d[0] == c);
        if has_c(d, s[0]) { assert(s[0] == c); assert(s.take(0).len() == 0); } else {
            lemma_idx_any(s.skip(1), c);
            let i = idx_any(s.skip(1), d) as int;
            let w = s.take(i + 1); assert forall|j: int| 0 <= j < i + 1 implies #[trigger] w[j] != c by { if j > 0 { assert(s.skip(1).take(i)[j - 1] == s[j]); } else { assert(!has_c(d, s[0])); } }
        }
    }
}
pub proof fn lemma_idx_no(s: Seq<char>, k: Seq<char>, c: char)
    requires !has_c(k, c), s.len() >= k.len(), s.take(k.len() as int) == k, s.len() > k.len() ==> s[k.len() as int] == c,
    ensures idx_any(s, seq![c]) == k.len()
    decreases s.len()
{
    let d = seq![c];
    assert(d[0] == c);
    if k.len() == 0 { if s.len() > 0 { assert(has_c(d, s[0])); } } else {
        assert(k[0] == s[0]);
        assert(!has_c(d, s[0])) by { if has_c(d, s[0]) { assert(s[0] == c); } }
        let k1 = k.skip(1);
        assert forall|j: int| 0 <= j < k1.len() implies #[trigger] k1[j] != c by { assert(k1[j] == k[j + 1]); }
        assert(s.skip(1).take(k1.len() as int) =~= k1) by { assert forall|j: int| 0 <= j < k1.len() implies s.skip(1)[j] == #[trigger] k1[j] by { assert(k[j + 1] == s.take(k.len() as int)[j + 1]); } }
        lemma_idx_no(s.skip(1), k1, c);
    }
}
pub open spec fn keys_distinct(es: Seq<(Seq<char>, Option<Scalar>)>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0 }
pub proof fn lemma_put_distinct(es: Seq<(Seq<char>, Option<Scalar>)>)
    requires keys_distinct(es)
    ensures put_all(es) =~= es
    decreases es.len()
{
    if es.len() > 0 {
        let b = es.drop_last();
        assert(keys_distinct(b)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(b[i] == es[i]); assert(b[j] == es[j]); } }
        lemma_put_distinct(b);
        lemma_not_at(b, es.last().0);
    }
}
pub proof fn lemma_not_at(es: Seq<(Seq<char>, Option<Scalar>)>, k: Seq<char>)
    ensures ({ let i = key_at(es, k); -1 <= i < es.len() && (i >= 0 ==> es[i].0 == k) })
    decreases es.len()
{ if es.len() > 0 { lemma_not_at(es.drop_last(), k); } }
pub proof fn lemma_uniq_distinct(es: Seq<Seq<char>>)
    requires forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]) != (#[trigger] es[j])
    ensures uniq(es) =~= es
    decreases es.len()
{ if es.len() > 0 { lemma_uniq_distinct(es.drop_last()); } }
/// list to map to list: the same entries in the same order, when no key is given twice
pub proof fn theorem_list_map_list(l: Seq<String>, m: XMap, r: Seq<Seq<char>>)
    requires
        evs(m.entries()) == put_all(entries_of(l, seq!['='])),
        r == uniq(joined_all(m.entries())),
        keys_distinct(entries_of(l, seq!['='])),
    ensures r.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] r[i] == no_empty_value(l[i]@, '=')
{
    let es = entries_of(l, seq!['=']);
    lemma_put_distinct(es);
    let j = joined_all(m.entries());
    assert(evs(m.entries()).len() == m.entries().len());
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] j[i] == no_empty_value(l[i]@, '=') && es[i].0 == l[i]@.take(idx_any(l[i]@, seq!['=']) as int) by {
        assert(evs(m.entries())[i] == es[i]);
        lemma_joined(l[i]@);
    }
    assert forall|a: int, b: int| 0 <= a < b < j.len() implies (#[trigger] j[a]) != (#[trigger] j[b]) by {
        assert(es[a].0 != es[b].0);
        lemma_canon(l[a]@);
        lemma_canon(l[b]@);
        assert(j[a] == no_empty_value(l[a]@, '='));
        assert(j[b] == no_empty_value(l[b]@, '='));
    }
    lemma_uniq_distinct(j);
}
pub proof fn lemma_canon(s: Seq<char>)
    ensures ({ let i = idx_any(s, seq!['=']); idx_any(no_empty_value(s, '='), seq!['=']) == i && no_empty_value(s, '=').take(i as int) == s.take(i as int) })
{
    lemma_idx_any(s, '=');
    let i = idx_any(s, seq!['=']) as int;
    let t = no_empty_value(s, '=');
    assert(t.take(i) =~= s.take(i));
    lemma_idx_no(t, s.take(i), '=');
}
/// map to list to map: an entry whose key has no `=` reads back with the same key, and a value of the same text (or none, for an empty one)
pub proof fn theorem_entry_back(k: Seq<char>, v: Scalar)
    requires !has_c(k, '=')
    ensures
        split_entry(joined((k, None)), seq!['=']) == (k, None::<Scalar>),
        split_entry(joined((k, Some(v))), seq!['=']) == (k, if scalar_disp(v).len() == 0 { None } else { Some(scalar_exact(scalar_disp(v))) }),
{
    let d = seq!['='];
    assert(k.take(k.len() as int) =~= k);
    lemma_idx_no(k, k, '=');
    let t = k + d + scalar_disp(v);
    assert(t.take(k.len() as int) =~= k);
    assert(t[k.len() as int] == '=');
    lemma_idx_no(t, k, '=');
    assert(t.skip(k.len() as int + 1) =~= scalar_disp(v));
}
} // verus!
fn main() {}
