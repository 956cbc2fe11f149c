/// a first piece, a separator and the rest
pub proof fn lemma_split_cat(a: Seq<char>, b: Seq<char>, n: nat, c: char)
    requires !has_c(a, c), n >= 2,
    ensures split_n(a + seq![c] + b, n, c) == seq![a] + split_n(b, (n - 1) as nat, c)
{
    let s = a + seq![c] + b;
    let k = a.len() as int;
    assert(s[k] == c);
    assert forall|i: int| 0 <= i < k implies s[i] != c by { assert(s[i] == a[i]); }
    lemma_idx_at(s, c, k);
    assert(s.take(k) =~= a);
    assert(s.skip(k + 1) =~= b);
}
pub proof fn lemma_split_one(a: Seq<char>, n: nat, c: char)
    requires !has_c(a, c), n >= 1,
    ensures split_n(a, n, c) == seq![a]
{ lemma_idx(a, c); }
