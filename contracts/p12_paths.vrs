//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@rename Path::new => XPath::x_of
//@include std_more.inc
//@include paths.inc
//@include path_edit.inc
//@include absolute_path.inc
//@include host_path.inc
//@fn expanded :: service::volumes::AbsolutePath::as_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::AbsolutePath::into_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::HostPath::as_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::HostPath::into_inner
    ensures r@ == self.0@
//@end
//@fn expanded :: service::volumes::AbsolutePath::push
    requires old(self).wf(),
    ensures final(self).wf(), final(self).0@ == joined(old(self).0@, path@)
//@end
//@fn src/service/volumes.rs :: AbsolutePath::pop
    requires old(self).wf(),
    ensures final(self).wf(), r <==> parent_len(old(self).0@) is Some,
        final(self).0@ == if r { old(self).0@.take(parent_len(old(self).0@)->0 as int) } else { old(self).0@ }
//@proof start
    proof { axiom_parent(self.0@); }
//@end
//@fn expanded :: service::volumes::HostPath::push
    requires old(self).wf(),
    ensures final(self).wf(), final(self).0@ == joined(old(self).0@, path@)
//@proof start
    proof { lemma_join(self.0@, path@); }
//@end
//@fn src/service/volumes.rs :: HostPath::pop
    requires old(self).wf(),
    ensures final(self).wf(), r <==> (parent_len(old(self).0@) matches Some(n) && n > 0),
        final(self).0@ == if r { old(self).0@.take(parent_len(old(self).0@)->0 as int) } else { old(self).0@ }
//@proof start
    proof { axiom_parent(self.0@); if parent_len(self.0@) is Some && parent_len(self.0@)->0 > 0 { lemma_parent(self.0@); } }
//@end
//@fn src/service/volumes.rs :: <From<AbsolutePath> for HostPath>::from | as=host_from_absolute
    requires value.wf(),
    ensures r.wf(), r.0@ == value.0@
//@end
pub proof fn lemma_first(a: Seq<char>, b: Seq<char>)
    requires idx_c(a, '/') <= b.len() <= a.len(), b == a.take(b.len() as int),
    ensures first_piece(b) == first_piece(a)
{
    let k = idx_c(a, '/') as int;
    lemma_idx(a, '/'); lemma_idx(b, '/');
    if k < b.len() { assert(b[k] == a[k]); assert forall|i: int| 0 <= i < k implies b[i] != '/' by { assert(b[i] == a[i]); } lemma_idx_at(b, '/', k); }
    else { assert(idx_c(b, '/') == k) by { if (idx_c(b, '/') as int) < b.len() { let j = idx_c(b, '/') as int; assert(b[j] == a[j]); } } }
    assert(first_piece(b) =~= first_piece(a));
}
pub proof fn lemma_parent(s: Seq<char>)
    requires host(s), parent_len(s) matches Some(n) && n > 0,
    ensures host(s.take(parent_len(s)->0 as int))
{
    let n = parent_len(s)->0 as int; axiom_parent(s);
    if !absolute(s) { lemma_first(s, s.take(n)); }
}
pub proof fn lemma_join(a: Seq<char>, b: Seq<char>)
    requires host(a),
    ensures host(joined(a, b))
{
    let j = joined(a, b);
    lemma_idx(a, '/'); lemma_idx(j, '/');
    if !absolute(b) && !absolute(a) {
        let k = idx_c(a, '/') as int;
        assert(a.len() > 0) by { if a.len() == 0 { assert(first_piece(a).len() == 0); } }
        assert forall|i: int| 0 <= i < k implies j[i] != '/' by { assert(j[i] == a[i]); }
        if k < a.len() { assert(j[k] == a[k]); } else { assert(a.last() != '/'); assert(j[k] == '/'); }
        lemma_idx_at(j, '/', k);
        assert(first_piece(j) =~= first_piece(a));
    }
}
/// any sequence of edits leaves a path its constructor accepts
pub enum Edit { Push(Seq<char>), Pop }
pub open spec fn edited(s: Seq<char>, e: Edit, keep: nat) -> Seq<char> {
    match e {
        Edit::Push(p) => joined(s, p),
        Edit::Pop => if parent_len(s) is Some && parent_len(s)->0 >= keep { s.take(parent_len(s)->0 as int) } else { s },
    }
}
pub open spec fn all_edits(s: Seq<char>, es: Seq<Edit>, keep: nat) -> Seq<char>
    decreases es.len()
{ if es.len() == 0 { s } else { edited(all_edits(s, es.drop_last(), keep), es.last(), keep) } }
pub proof fn theorem_absolute_edits(s: Seq<char>, es: Seq<Edit>)
    requires absolute(s),
    ensures absolute(all_edits(s, es, 0)),
    decreases es.len(),
{ if es.len() > 0 { theorem_absolute_edits(s, es.drop_last()); axiom_parent(all_edits(s, es.drop_last(), 0)); } }
pub proof fn theorem_host_edits(s: Seq<char>, es: Seq<Edit>)
    requires host(s),
    ensures host(all_edits(s, es, 1)),
    decreases es.len(),
{
    if es.len() > 0 {
        let t = all_edits(s, es.drop_last(), 1);
        theorem_host_edits(s, es.drop_last());
        match es.last() { Edit::Push(p) => { lemma_join(t, p); } Edit::Pop => { if parent_len(t) is Some && parent_len(t)->0 >= 1 { lemma_parent(t); } } }
    }
}
pub proof fn theorem_absolute_is_host(s: Seq<char>)
    requires absolute(s),
    ensures host(s),
{}
} // verus!
fn main() {}
