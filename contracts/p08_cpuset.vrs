//@include prelude.vrs
verus! {
use core::num::ParseIntError;
use vstd::std_specs::iter::IteratorSpec;
//@rename BTreeSet => XSet
//@rename RangeInclusive => XRangeInc
//@rename BTreeSet::new => XSet::x_new
//@rename itoa::Buffer::new => XItoa::x_new
//@method extend => x_extend
//@method insert => x_insert
#[derive(Clone, Copy)]
pub struct XRangeInc<T> { pub a: T, pub b: T }
pub fn x_range_inc<T>(a: T, b: T) -> (r: XRangeInc<T>) ensures r.a == a, r.b == b { XRangeInc { a, b } }
/// `itoa::Buffer`: the decimal text (trusted)
pub struct XItoa;
impl XItoa {
    pub fn x_new() -> (r: Self) { XItoa }
    #[verifier::external_body]
    pub fn format(&self, v: u64) -> (r: &str) ensures r@ == dec(v as nat) { unimplemented!() }
}
/// std `BTreeSet<u64>`: a finite set, iterated in increasing order (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XSet<T> { v: Vec<T> }
impl<T> View for XSet<T> {
    type V = ISet<T>;
    uninterp spec fn view(&self) -> ISet<T>;
}
pub open spec fn increasing(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn in_range(a: u64, b: u64) -> ISet<u64> { ISet::new(|x: u64| a <= x <= b) }
impl XSet<u64> {
    #[verifier::external_body]
    pub fn x_new() -> (r: Self) ensures r@ == ISet::<u64>::empty() { XSet { v: Vec::new() } }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == ISet::<u64>::empty()) { self.v.is_empty() }
    #[verifier::external_body]
    pub fn x_insert(&mut self, x: u64) -> (r: bool) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn x_extend(&mut self, r: XRangeInc<u64>) ensures final(self)@ == old(self)@.union(in_range(r.a, r.b)) { unimplemented!() }
    /// the members in order
    pub uninterp spec fn sorted(&self) -> Seq<u64>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: core::slice::Iter<'_, u64>)
        ensures
            r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.will_return_none(),
            r.remaining().len() == self.sorted().len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == self.sorted()[i],
            increasing(self.sorted()),
            forall|x: u64| self@.contains(x) <==> self.sorted().contains(x),
    { self.v.iter() }
}
//@type src/service/cpuset.rs :: CpuSet
//@type src/service/cpuset.rs :: ParseCpuSetError
pub open spec fn num(s: Seq<char>) -> Option<nat> { parse_uint(s, u64::MAX as nat) }
/// the CPUs one piece lists
pub open spec fn piece(s: Seq<char>) -> Option<ISet<u64>> {
    let k = idx_c(s, '-') as int;
    if k >= s.len() {
        match num(s) { Some(n) => Some(in_range(n as u64, n as u64)), None => None }
    } else {
        match (num(s.take(k)), num(s.skip(k + 1))) { (Some(a), Some(b)) => Some(in_range(a as u64, b as u64)), _ => None }
    }
}
/// the union of the pieces
pub open spec fn union_of(ps: Seq<Seq<char>>) -> Option<ISet<u64>> decreases ps.len() {
    if ps.len() == 0 { Some(ISet::empty()) }
    else { match (union_of(ps.drop_last()), piece(ps.last())) { (Some(a), Some(b)) => Some(a.union(b)), _ => None } }
}
/// what a CPU set text denotes
pub open spec fn denotes(s: Seq<char>) -> Option<ISet<u64>> { union_of(split_t(s, ',')) }

//@fn src/service/cpuset.rs :: CpuSet::is_empty
    ensures r == (self.0@ == ISet::<u64>::empty())
//@end
//@fn src/service/cpuset.rs :: parse_int_err
//@end
pub proof fn lemma_union_prefix(ps: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ps.len(),
    ensures union_of(ps) is Some ==> union_of(ps.take(i)) is Some
    decreases ps.len() - i
{
    if i < ps.len() {
        lemma_union_prefix(ps, i + 1);
        assert(ps.take(i + 1).drop_last() =~= ps.take(i));
    } else { assert(ps.take(i) =~= ps); }
}
pub proof fn lemma_union_step(ps: Seq<Seq<char>>, i: int)
    requires 0 <= i < ps.len(),
    ensures union_of(ps.take(i + 1)) == (match (union_of(ps.take(i)), piece(ps[i])) { (Some(a), Some(b)) => Some(a.union(b)), _ => None }),
        union_of(ps) is Some ==> union_of(ps.take(i + 1)) is Some
{
    lemma_union_prefix(ps, i + 1);
    assert(ps.take(i + 1).drop_last() =~= ps.take(i));
}
//@fn src/service/cpuset.rs :: <FromStr for CpuSet>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseCpuSetError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { &&& r is Ok <==> denotes(s) is Some &&& r matches Ok(v) ==> denotes(s) == Some(v.0@) } | attr=verifier::loop_isolation(false)
//@loop 0
    invariant union_of(split_t(s@, ',').take(it0.index() as int)) == Some(inner@),
//@proof loop 0 start
    proof {
        lemma_union_step(split_t(s@, ','), it0.index() as int);
        lemma_idx(range@, '-');
        assert forall|t: ISet<u64>, n: u64| #[trigger] t.insert(n) =~= t.union(in_range(n, n)) by { }
    }
//@proof before Ok ( Self
    proof { assert(split_t(s@, ',').take(split_t(s@, ',').len() as int) =~= split_t(s@, ',')); }
//@end

// ------------------------------------------------------------ printing
/// maximal runs of `s` from position `i` on, with the run `a..=b` open
pub open spec fn runs_from(s: Seq<u64>, i: int, a: u64, b: u64) -> Seq<(u64, u64)> decreases s.len() - i {
    if i >= s.len() || i < 0 { seq![(a, b)] }
    else if s[i] == b + 1 { runs_from(s, i + 1, a, s[i]) }
    else { seq![(a, b)] + runs_from(s, i + 1, s[i], s[i]) }
}
pub open spec fn runs(s: Seq<u64>) -> Seq<(u64, u64)> { if s.len() == 0 { seq![] } else { runs_from(s, 1, s[0], s[0]) } }
pub open spec fn run_text(a: u64, b: u64) -> Seq<char> { if a == b { dec(a as nat) } else { dec(a as nat) + seq!['-'] + dec(b as nat) } }
pub open spec fn join(rs: Seq<(u64, u64)>) -> Seq<char> decreases rs.len() {
    if rs.len() == 0 { seq![] }
    else if rs.len() == 1 { run_text(rs[0].0, rs[0].1) }
    else { join(rs.drop_last()) + seq![','] + run_text(rs.last().0, rs.last().1) }
}
//@fn src/service/cpuset.rs :: write_range
    ensures r is Ok, final(f)@ == old(f)@ + (if first { seq![] } else { seq![','] }) + run_text(start, end)
//@end
//@fn src/service/cpuset.rs :: <Display for CpuSet>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { join(runs(self.0.sorted())) } | attr=verifier::loop_isolation(false)
//@proof before let mut range
    let ghost l = self.0.sorted();
    let ghost mut done: Seq<(u64, u64)> = seq![];
    proof { assert(*cpu == l[0]); }
//@loop 0
    invariant
        done + runs_from(l, it0.index() + 1, range.0, range.1) == runs(l),
        f@ == old(f)@ + join(done),
        first <==> done.len() == 0,
        it0.index() < l.len(), range.1 == l[it0.index() as int],
//@proof loop 0 start
    proof { assert(*cpu == l[it0.index() + 1]); }
    let ghost d0 = done;
    let ghost r0 = range;
//@proof after first = false
    proof {
        done = d0.push(r0);
        assert(done.drop_last() =~= d0);
        assert(f@ =~= old(f)@ + join(done));
        assert(d0 + runs_from(l, it0.index() + 1, r0.0, r0.1) =~= done + runs_from(l, it0.index() + 2, *cpu, *cpu));
    }
//@proof before let (start , end) = range
    proof {
        let all = runs(l);
        assert(runs_from(l, l.len() as int, range.0, range.1) =~= seq![range]);
        assert(all =~= done.push(range));
        assert(all.drop_last() =~= done);
        assert(old(f)@ + join(all) =~= old(f)@ + join(done) + (if first { Seq::<char>::empty() } else { seq![','] }) + run_text(range.0, range.1));
    }
//@end

// ------------------------------------------------------------ theorems
pub open spec fn runs_wf(rs: Seq<(u64, u64)>) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).0 <= rs[i].1
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> #[trigger] rs[i].1 + 1 < #[trigger] rs[j].0
}
pub open spec fn covered(rs: Seq<(u64, u64)>, x: u64) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).0 <= x <= rs[i].1 }
/// the runs are in order, separated by at least one CPU, and cover exactly the members
pub proof fn lemma_runs(s: Seq<u64>, i: int, a: u64, b: u64)
    requires increasing(s), 0 < i <= s.len(), a <= b, b == s[i - 1],
    ensures runs_wf(runs_from(s, i, a, b)), runs_from(s, i, a, b).len() > 0, runs_from(s, i, a, b)[0].0 == a,
        forall|x: u64| covered(runs_from(s, i, a, b), x) <==> (a <= x <= b || exists|j: int| i <= j < s.len() && s[j] == x),
    decreases s.len() - i
{
    let r = runs_from(s, i, a, b);
    if i < s.len() {
        if s[i] == b + 1 {
            lemma_runs(s, i + 1, a, s[i]);
            assert forall|x: u64| covered(r, x) <==> (a <= x <= b || exists|j: int| i <= j < s.len() && s[j] == x) by {
                if x == s[i] { assert(a <= x <= s[i]); }
            }
        } else {
            assert(s[i - 1] < s[i]);
            lemma_runs(s, i + 1, s[i], s[i]);
            let t = runs_from(s, i + 1, s[i], s[i]);
            assert(r =~= seq![(a, b)] + t);
            assert forall|k: int, j: int| 0 <= k < j < r.len() implies #[trigger] r[k].1 + 1 < #[trigger] r[j].0 by {
                assert(r[j] == t[j - 1]);
                if k > 0 { assert(r[k] == t[k - 1]); } else if j > 1 { assert(t[0].0 <= t[0].1); assert(t[0].1 + 1 < t[j - 1].0); }
            }
            assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).0 <= r[k].1 by { if k > 0 { assert(r[k] == t[k - 1]); } }
            assert forall|x: u64| covered(r, x) <==> (a <= x <= b || exists|j: int| i <= j < s.len() && s[j] == x) by {
                if covered(r, x) { 
                    let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 <= x <= r[k].1;
                    if k > 0 { assert(t[k - 1] == r[k]); assert(covered(t, x)); }
                }
                if a <= x <= b { assert(r[0].0 <= x <= r[0].1); }
                if covered(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 <= x <= t[k].1; assert(r[k + 1] == t[k]); }
                if x == s[i] { assert(covered(t, x)); }
            }
        }
    } else {
        assert(r =~= seq![(a, b)]);
        assert forall|x: u64| covered(r, x) <==> a <= x <= b by { if a <= x <= b { assert(r[0].0 <= x <= r[0].1); } }
    }
}
/// what is printed: the members in order, as maximal runs
pub proof fn theorem_runs(c: CpuSet)
    requires increasing(c.0.sorted()), forall|x: u64| c.0@.contains(x) <==> c.0.sorted().contains(x),
    ensures runs_wf(runs(c.0.sorted())), forall|x: u64| c.0@.contains(x) <==> covered(runs(c.0.sorted()), x),
{
    let s = c.0.sorted();
    if s.len() > 0 {
        lemma_runs(s, 1, s[0], s[0]);
        assert forall|x: u64| c.0@.contains(x) <==> covered(runs(s), x) by {
            if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j >= 1 { } else { assert(x == s[0]); } }
        }
    }
}
pub proof fn lemma_run_piece(a: u64, b: u64)
    requires a <= b,
    ensures piece(run_text(a, b)) == Some(in_range(a, b)), !has_c(run_text(a, b), ','), run_text(a, b).len() > 0
{
    let (x, y) = (dec(a as nat), dec(b as nat));
    lemma_dec(a as nat); lemma_dec(b as nat);
    lemma_uint_digit(x, a as nat); lemma_uint_digit(y, b as nat);
    let t = run_text(a, b);
    lemma_idx(t, '-');
    if a != b {
        let k = x.len() as int;
        assert(t[k] == '-');
        assert forall|i: int| 0 <= i < k implies t[i] != '-' by { assert(t[i] == x[i]); }
        lemma_idx_at(t, '-', k);
        assert(t.take(k) =~= x);
        assert(t.skip(k + 1) =~= y);
    }
    assert forall|i: int| 0 <= i < t.len() implies t[i] != ',' by { if i < x.len() { assert(t[i] == x[i]); } else if i > x.len() { assert(t[i] == y[i - x.len() - 1]); } }
}
pub proof fn lemma_cat_split(a: Seq<char>, b: Seq<char>, c: char)
    ensures split_c(a + seq![c] + b, c) == split_c(a, c) + split_c(b, c)
    decreases a.len()
{
    let s = a + seq![c] + b;
    lemma_idx(a, c);
    let k = idx_c(a, c) as int;
    if k >= a.len() {
        assert(s[a.len() as int] == c);
        assert forall|i: int| 0 <= i < a.len() implies s[i] != c by { assert(s[i] == a[i]); }
        lemma_idx_at(s, c, a.len() as int);
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int + 1) =~= b);
    } else {
        assert(s[k] == c);
        assert forall|i: int| 0 <= i < k implies s[i] != c by { assert(s[i] == a[i]); }
        lemma_idx_at(s, c, k);
        assert(s.take(k) =~= a.take(k));
        assert(s.skip(k + 1) =~= a.skip(k + 1) + seq![c] + b);
        lemma_cat_split(a.skip(k + 1), b, c);
        assert(split_c(s, c) =~= split_c(a, c) + split_c(b, c));
    }
}
pub open spec fn range_set(rs: Seq<(u64, u64)>) -> ISet<u64> { ISet::new(|x: u64| covered(rs, x)) }
pub proof fn lemma_join(rs: Seq<(u64, u64)>)
    requires runs_wf(rs), rs.len() > 0,
    ensures union_of(split_c(join(rs), ',')) == Some(range_set(rs)), split_c(join(rs), ',').last().len() > 0
    decreases rs.len()
{
    let (a, b) = rs.last();
    let t = run_text(a, b);
    lemma_run_piece(a, b);
    lemma_idx(t, ',');
    assert(split_c(t, ',') =~= seq![t]);
    let p = split_c(join(rs), ',');
    let d = rs.drop_last();
    if rs.len() == 1 {
        assert(p.drop_last() =~= seq![]);
        assert(p.last() == t);
        assert(union_of(p.drop_last()) == Some(ISet::<u64>::empty()));
        assert(ISet::<u64>::empty().union(in_range(a, b)) =~= range_set(rs)) by {
            assert forall|x: u64| a <= x <= b <==> covered(rs, x) by { if a <= x <= b { assert(rs[0].0 <= x <= rs[0].1); } }
        }
    } else {
        lemma_join(d);
        lemma_cat_split(join(d), t, ',');
        assert(p.drop_last() =~= split_c(join(d), ','));
        assert(p.last() =~= t);
        assert(range_set(d).union(in_range(a, b)) =~= range_set(rs)) by {
            assert forall|x: u64| (covered(d, x) || a <= x <= b) <==> covered(rs, x) by {
                if covered(d, x) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 <= x <= d[k].1; assert(rs[k] == d[k]); }
                if covered(rs, x) { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).0 <= x <= rs[k].1; if k < d.len() { assert(rs[k] == d[k]); } }
                if a <= x <= b { assert(rs[rs.len() - 1].0 <= x <= rs[rs.len() - 1].1); }
            }
        }
    }
}
/// the printed text denotes exactly the set
pub proof fn theorem_round_trip(c: CpuSet)
    requires increasing(c.0.sorted()), forall|x: u64| c.0@.contains(x) <==> c.0.sorted().contains(x),
    ensures denotes(c.x_disp()) == Some(c.0@)
{
    let s = c.0.sorted();
    let rs = runs(s);
    theorem_runs(c);
    if rs.len() == 0 {
        assert(split_c(join(rs), ',') =~= seq![join(rs)]);
        assert(split_t(join(rs), ',') =~= seq![]);
        assert(s.len() == 0) by { if s.len() > 0 { lemma_runs(s, 1, s[0], s[0]); } }
        assert(c.0@ =~= ISet::<u64>::empty());
    } else {
        lemma_join(rs);
        assert(range_set(rs) =~= c.0@);
    }
}
/// ranges that overlap or touch, in any order, denote their union; a reversed range lists nothing
pub proof fn theorem_reversed(a: u64, b: u64)
    requires a > b,
    ensures in_range(a, b) == ISet::<u64>::empty()
{ assert(in_range(a, b) =~= ISet::<u64>::empty()); }
//@fn src/service/cpuset.rs :: <TryFrom<&str> for CpuSet>::try_from | as=try_from_str
    ensures r is Ok <==> denotes(value@) is Some, r matches Ok(v) ==> denotes(value@) == Some(v.0@),
//@end
//@fn src/service/cpuset.rs :: <From<BTreeSet<u64>> for CpuSet>::from | as=from_set
    ensures r.0 == value
//@end
//@include to_string.inc
//@include text_doc.inc
//@include from_str_doc.inc
// ------------------------------------------------------------ the document form of CpuSet
//@fn expanded :: service::cpuset::<Serialize for CpuSet>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::cpuset::<Deserialize for CpuSet>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<CpuSet>(deserializer@, r)
//@end
} // verus!
fn main() {}
