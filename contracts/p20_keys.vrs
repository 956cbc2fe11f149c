//@include prelude.vrs
verus! {
// ------------------------------------------------------------ documents: maps of texts to nodes
pub enum XNode { Null, Text(Seq<char>), Scalar(int), List(Seq<XNode>), Map(Seq<(Seq<char>, XNode)>) }
pub type Entry = (Seq<char>, XNode);
// ------------------------------------------------------------ texts in order
pub open spec fn lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { (a[0] as int) < (b[0] as int) } else { lt(a.skip(1), b.skip(1)) }
}
pub proof fn lemma_lt_at(a: Seq<char>, b: Seq<char>, p: int)
    requires 0 <= p <= a.len(), p < b.len(), a.take(p) == b.take(p), p == a.len() || (a[p] as int) < (b[p] as int)
    ensures lt(a, b)
    decreases p
{
    if p > 0 {
        assert(a.take(p)[0] == b.take(p)[0]);
        assert(a[0] == a.take(p)[0] && b[0] == b.take(p)[0]);
        assert(p < a.len() ==> a.skip(1)[p - 1] == a[p]);
        assert(b.skip(1)[p - 1] == b[p]);
        assert(a.skip(1).take(p - 1) =~= a.take(p).skip(1));
        assert(b.skip(1).take(p - 1) =~= b.take(p).skip(1));
        lemma_lt_at(a.skip(1), b.skip(1), p - 1);
    }
}
pub proof fn lemma_lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lt(a, b), lt(b, c)
    ensures lt(a, c)
    decreases a.len()
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lt_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn lemma_lt_ne(a: Seq<char>) ensures !lt(a, a) decreases a.len() { if a.len() > 0 { lemma_lt_ne(a.skip(1)); } }
// ------------------------------------------------------------ the names of a type
/// begins like the name of an extension
pub open spec fn is_ext(k: Seq<char>) -> bool { k.len() >= 2 && k[0] == 'x' && k[1] == '-' }
/// no name twice, none that of an extension
pub open spec fn own_keys(ks: Seq<Seq<char>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|i: int| 0 <= i < ks.len() ==> !is_ext(#[trigger] ks[i])
}
pub proof fn lemma_less(ks: Seq<Seq<char>>, i: int, j: int)
    requires forall|i: int| 0 <= i < ks.len() - 1 ==> lt(#[trigger] ks[i], ks[i + 1]), 0 <= i < j < ks.len()
    ensures lt(ks[i], ks[j])
    decreases j - i
{ if j == i + 1 { assert(lt(ks[i], ks[i + 1])); } else { lemma_less(ks, i, j - 1); assert(lt(ks[j - 1], ks[j - 1 + 1])); lemma_lt_trans(ks[i], ks[j - 1], ks[j]); } }
pub proof fn lemma_sorted(ks: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ks.len() - 1 ==> lt(#[trigger] ks[i], ks[i + 1]), forall|i: int| 0 <= i < ks.len() ==> !is_ext(#[trigger] ks[i])
    ensures own_keys(ks)
{
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { lemma_less(ks, i, j); lemma_lt_ne(ks[i]); }
}
// ------------------------------------------------------------ writing a struct: its fields that are not left out, then the extensions
pub open spec fn written(ks: Seq<Seq<char>>, ps: Seq<Option<XNode>>) -> Seq<Entry> decreases ks.len() {
    if ks.len() == 0 || ps.len() != ks.len() { seq![] } else {
        let w = written(ks.drop_last(), ps.drop_last());
        match ps.last() { Some(n) => w.push((ks.last(), n)), None => w }
    }
}
// ------------------------------------------------------------ reading: what is at a key, what is at none of the keys
pub open spec fn has_key(m: Seq<Entry>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn key_once(m: Seq<Entry>, k: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> !((#[trigger] m[i]).0 == k && (#[trigger] m[j]).0 == k) }
pub open spec fn at_key(m: Seq<Entry>, k: Seq<char>) -> XNode { m[choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k].1 }
pub open spec fn slot(m: Seq<Entry>, k: Seq<char>) -> Option<XNode> { if has_key(m, k) { Some(at_key(m, k)) } else { None } }
pub open spec fn others(m: Seq<Entry>, ks: Seq<Seq<char>>) -> Seq<Entry> decreases m.len() {
    if m.len() == 0 { seq![] } else { let o = others(m.drop_last(), ks); if ks.contains(m.last().0) { o } else { o.push(m.last()) } }
}
pub open spec fn all_ext(x: Seq<Entry>) -> bool { forall|i: int| 0 <= i < x.len() ==> is_ext((#[trigger] x[i]).0) }
/// each field is read as what was written of it, or as missing where it was left out; no key is there twice; the extensions are kept, in order
pub open spec fn survives(ks: Seq<Seq<char>>, ps: Seq<Option<XNode>>, ext: Seq<Entry>) -> bool {
    let m = written(ks, ps) + ext;
    &&& forall|i: int| 0 <= i < ks.len() ==> slot(m, #[trigger] ks[i]) == ps[i] && key_once(m, ks[i])
    &&& others(m, ks) == ext
}
pub proof fn lemma_written(ks: Seq<Seq<char>>, ps: Seq<Option<XNode>>)
    requires own_keys(ks), ps.len() == ks.len()
    ensures
        forall|i: int| 0 <= i < written(ks, ps).len() ==> exists|j: int| 0 <= j < ks.len() && (#[trigger] written(ks, ps)[i]).0 == #[trigger] ks[j] && ps[j] == Some(written(ks, ps)[i].1),
        forall|j: int| 0 <= j < ks.len() && ps[j] is Some ==> has_key(written(ks, ps), #[trigger] ks[j]),
        forall|j: int| 0 <= j < ks.len() ==> key_once(written(ks, ps), #[trigger] ks[j]),
    decreases ks.len()
{
    if ks.len() > 0 {
        let (k, p) = (ks.drop_last(), ps.drop_last());
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies #[trigger] k[i] != #[trigger] k[j] by { assert(ks[i] != ks[j]); }
        assert forall|i: int| 0 <= i < k.len() implies !is_ext(#[trigger] k[i]) by { assert(!is_ext(ks[i])); }
        lemma_written(k, p);
        let (v, w) = (written(k, p), written(ks, ps));
        let last = ks.len() - 1;
        assert forall|i: int| 0 <= i < w.len() implies exists|j: int| 0 <= j < ks.len() && (#[trigger] w[i]).0 == #[trigger] ks[j] && ps[j] == Some(w[i].1) by {
            if i < v.len() { let j = choose|j: int| 0 <= j < k.len() && v[i].0 == #[trigger] k[j] && p[j] == Some(v[i].1); assert(w[i] == v[i]); assert(ks[j] == k[j]); }
            else { assert(w[i].0 == ks[last]); }
        }
        assert forall|j: int| 0 <= j < ks.len() && ps[j] is Some implies has_key(w, #[trigger] ks[j]) by {
            if j < last { assert(k[j] == ks[j]); assert(p[j] == ps[j]); assert(has_key(v, k[j])); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == k[j]; assert(w[i] == v[i]); }
            else { assert(w[w.len() - 1].0 == ks[last]); }
        }
        assert forall|j: int| 0 <= j < ks.len() implies key_once(w, #[trigger] ks[j]) by {
            assert forall|a: int, b: int| 0 <= a < b < w.len() implies !((#[trigger] w[a]).0 == ks[j] && (#[trigger] w[b]).0 == ks[j]) by {
                assert(w[a] == v[a]);
                let c = choose|c: int| 0 <= c < k.len() && v[a].0 == #[trigger] k[c] && p[c] == Some(v[a].1);
                assert(ks[c] == k[c]);
                if w[a].0 == ks[j] {
                    if c != j { assert(ks[c] != ks[j]); }
                    if b < v.len() { assert(w[b] == v[b]); assert(key_once(v, k[j])); } else { assert(w[b].0 == ks[last]); assert(ks[j] != ks[last]); }
                }
            }
        }
    }
}
pub proof fn lemma_others_cat(a: Seq<Entry>, b: Seq<Entry>, ks: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < a.len() ==> ks.contains((#[trigger] a[i]).0), forall|i: int| 0 <= i < b.len() ==> !ks.contains((#[trigger] b[i]).0)
    ensures others(a + b, ks) == b
    decreases a.len() + b.len()
{
    let m = a + b;
    if b.len() > 0 {
        assert(m.drop_last() =~= a + b.drop_last());
        assert(m.last() == b.last());
        assert forall|i: int| 0 <= i < b.drop_last().len() implies !ks.contains((#[trigger] b.drop_last()[i]).0) by { assert(b.drop_last()[i] == b[i]); }
        lemma_others_cat(a, b.drop_last(), ks);
        assert(b[b.len() - 1] == b.last());
        assert(others(m, ks) =~= b);
    } else if a.len() > 0 {
        assert(m =~= a);
        assert(a.drop_last() + b =~= a.drop_last());
        assert forall|i: int| 0 <= i < a.drop_last().len() implies ks.contains((#[trigger] a.drop_last()[i]).0) by { assert(a.drop_last()[i] == a[i]); }
        lemma_others_cat(a.drop_last(), b, ks);
        assert(ks.contains(a[a.len() - 1].0));
        assert(others(m, ks) =~= b);
    } else { assert(m =~= b); }
}
pub proof fn theorem_survives(ks: Seq<Seq<char>>, ps: Seq<Option<XNode>>, ext: Seq<Entry>)
    requires own_keys(ks), ps.len() == ks.len(), all_ext(ext)
    ensures survives(ks, ps, ext)
{
    lemma_written(ks, ps);
    let w = written(ks, ps);
    let m = w + ext;
    assert forall|i: int| 0 <= i < ks.len() implies slot(m, #[trigger] ks[i]) == ps[i] && key_once(m, ks[i]) by {
        assert forall|a: int| 0 <= a < m.len() && (#[trigger] m[a]).0 == ks[i] implies a < w.len() by { if a >= w.len() { assert(m[a] == ext[a - w.len()]); assert(is_ext(ext[a - w.len()].0)); } }
        if ps[i] is Some {
            let a = choose|a: int| 0 <= a < w.len() && (#[trigger] w[a]).0 == ks[i];
            assert(m[a] == w[a]);
            assert(has_key(m, ks[i]));
        }
        if has_key(m, ks[i]) {
            let b = choose|b: int| 0 <= b < m.len() && (#[trigger] m[b]).0 == ks[i];
            assert(m[b] == w[b]);
            let j = choose|j: int| 0 <= j < ks.len() && w[b].0 == #[trigger] ks[j] && ps[j] == Some(w[b].1);
            if j < i { assert(ks[j] != ks[i]); } else if i < j { assert(ks[i] != ks[j]); }
        }
        assert forall|a: int, b: int| 0 <= a < b < m.len() implies !((#[trigger] m[a]).0 == ks[i] && (#[trigger] m[b]).0 == ks[i]) by {
            if m[a].0 == ks[i] && m[b].0 == ks[i] { assert(m[a] == w[a] && m[b] == w[b]); assert(key_once(w, ks[i])); }
        }
    }
    assert forall|i: int| 0 <= i < w.len() implies ks.contains((#[trigger] w[i]).0) by { let j = choose|j: int| 0 <= j < ks.len() && w[i].0 == #[trigger] ks[j] && ps[j] == Some(w[i].1); }
    assert forall|i: int| 0 <= i < ext.len() implies !ks.contains((#[trigger] ext[i]).0) by { if ks.contains(ext[i].0) { let j = ks.index_of(ext[i].0); assert(!is_ext(ks[j])); } }
    lemma_others_cat(w, ext, ks);
}
// ------------------------------------------------------------ every type that is both written and read by its fields
//@keys src/lib.rs :: *
//@keys src/common.rs :: *
//@keys src/config.rs :: * | flat:Source=file,environment,content
//@keys src/secret.rs :: * | flat:Source=file,environment
//@keys src/network.rs :: *
//@keys src/volume.rs :: *
//@keys src/include.rs :: *
//@keys src/service.rs :: * | flat:NetworkConfig=network_mode,networks
//@keys src/service/blkio_config.rs :: *
//@keys src/service/build.rs :: * | flat:Dockerfile=dockerfile,dockerfile_inline
//@keys src/service/config_or_secret.rs :: *
//@keys src/service/credential_spec.rs :: *
//@keys src/service/deploy.rs :: *
//@keys src/service/deploy/resources.rs :: *
//@keys src/service/develop.rs :: *
//@keys src/service/env_file.rs :: *
//@keys src/service/healthcheck.rs :: *
//@keys src/service/network_config.rs :: *
//@keys src/service/ports.rs :: *
//@keys src/service/ulimit.rs :: *
//@keys src/service/volumes/mount.rs :: *
} // verus!
fn main() {}
