pub open spec fn slash() -> Seq<char> { seq!['/'] }
pub open spec fn join(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + slash() + b }
/// two texts cut at their first slash
pub proof fn lemma_cut(a: Seq<char>, r: Seq<char>, b: Seq<char>, t: Seq<char>)
    requires
        a + r == b + t,
        forall|i: int| 0 <= i < a.len() ==> a[i] != '/',
        forall|i: int| 0 <= i < b.len() ==> b[i] != '/',
        r.len() > 0 ==> r[0] == '/',
        t.len() > 0 ==> t[0] == '/',
    ensures a == b, r == t,
{
    let (s, u) = (a + r, b + t);
    assert(s.len() == a.len() + r.len() && u.len() == b.len() + t.len());
    if a.len() < b.len() {
        assert(s[a.len() as int] == r[0]);
        assert(u[a.len() as int] == b[a.len() as int]);
    } else if b.len() < a.len() {
        assert(u[b.len() as int] == t[0]);
        assert(s[b.len() as int] == a[b.len() as int]);
    }
    assert(a =~= s.subrange(0, a.len() as int));
    assert(b =~= u.subrange(0, a.len() as int));
    assert(r =~= s.subrange(a.len() as int, s.len() as int));
    assert(t =~= u.subrange(a.len() as int, s.len() as int));
}
/// the same for one text
pub proof fn x_str_lit_of(s: &str, l: &str) ensures s@ == l@ ==> s == l { x_str_lit(l); }
