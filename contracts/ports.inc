//@rename RangeInclusive => XRangeInc
//@rename Range::from_str => Range::x_from_str
//@rename Range::from => Range::from_u16
/// std `RangeInclusive`
#[derive(Clone, Copy)]
pub struct XRangeInc<T> { pub a: T, pub b: T, pub done: bool }
impl<T> XRangeInc<T> {
    pub fn start(&self) -> (r: &T) ensures *r == self.a { &self.a }
    pub fn end(&self) -> (r: &T) ensures *r == self.b { &self.b }
    pub fn into_inner(self) -> (r: (T, T)) ensures r == (self.a, self.b) { (self.a, self.b) }
}
pub fn x_range_inc<T>(a: T, b: T) -> (r: XRangeInc<T>) ensures r.a == a, r.b == b, !r.done { XRangeInc { a, b, done: false } }
impl XRangeInc<u16> {
    /// how many items are left
    pub open spec fn left(self) -> int { if self.done || self.a > self.b { 0 } else { self.b - self.a + 1 } }
    pub fn x_next(&mut self) -> (r: Option<u16>)
        ensures
            old(self).left() == 0 ==> r is None && *final(self) == *old(self),
            old(self).left() > 0 ==> r == Some(old(self).a) && final(self).left() == old(self).left() - 1
                && final(self).b == old(self).b && (final(self).left() > 0 ==> final(self).a == old(self).a + 1),
    {
        if self.done || self.a > self.b { None }
        else {
            let v = self.a;
            if self.a == self.b { self.done = true; } else { self.a = self.a + 1; }
            Some(v)
        }
    }
}
impl XInto<usize> for u16 {
    open spec fn x_into_post(self, u: usize) -> bool { u == self as usize }
    fn x_into(self) -> (u: usize) { self as usize }
}
//@type src/service/ports.rs :: Range | derive=Clone, Copy
//@type src/service/ports.rs :: RangeError | derive=Clone, Copy
//@type src/service/ports.rs :: ParseRangeError
//@type src/service/ports.rs :: Protocol

// ------------------------------------------------------------ property-level definitions
pub open spec fn lo(r: Range) -> int { r.start as int }
/// last port of the range
pub open spec fn hi(r: Range) -> int { match r.end { Some(e) => e as int, None => r.start as int } }
impl Range {
    /// bounds in order, and one writing of every range (the fields are private)
    pub open spec fn wf(self) -> bool { self.end matches Some(e) ==> self.start < e }
}
/// the value of `start` and optional `end`
pub open spec fn range_of(start: int, end: Option<int>) -> Option<(int, int)> {
    match end { None => Some((start, start)), Some(e) => if start <= e { Some((start, e)) } else { None } }
}
pub open spec fn bounds(r: Range) -> (int, int) { (lo(r), hi(r)) }
pub open spec fn port(s: Seq<char>) -> Option<nat> { parse_uint(s, 65535) }
/// `port` or `port-port`, in order
pub open spec fn range_parse(s: Seq<char>) -> Option<(int, int)> {
    let k = idx_c(s, '-') as int;
    if k >= s.len() {
        match port(s) { Some(n) => Some((n as int, n as int)), None => None }
    } else {
        match (port(s.take(k)), port(s.skip(k + 1))) {
            (Some(a), Some(b)) => if a <= b { Some((a as int, b as int)) } else { None },
            _ => None,
        }
    }
}
pub open spec fn range_text(b: (int, int)) -> Seq<char> {
    if b.0 == b.1 { dec(b.0 as nat) } else { dec(b.0 as nat) + seq!['-'] + dec(b.1 as nat) }
}
pub open spec fn range_post<E>(s: Seq<char>, r: Result<Range, E>) -> bool {
    &&& r is Ok <==> range_parse(s) is Some
    &&& r matches Ok(v) ==> v.wf() && bounds(v) == range_parse(s)->0
}
pub open spec fn new_post<E>(start: int, end: Option<int>, r: Result<Range, E>) -> bool {
    &&& r is Ok <==> range_of(start, end) is Some
    &&& r matches Ok(v) ==> v.wf() && bounds(v) == range_of(start, end)->0
}
pub open spec fn opt_int(o: Option<u16>) -> Option<int> { match o { Some(e) => Some(e as int), None => None } }
/// one writing of every range: equal bounds are equal values
pub proof fn theorem_canonical(a: Range, b: Range)
    requires a.wf(), b.wf(), bounds(a) == bounds(b),
    ensures a == b
{ }
pub proof fn theorem_range_round_trip(r: Range)
    requires r.wf(),
    ensures range_parse(range_text(bounds(r))) == Some(bounds(r)),
        !has_c(range_text(bounds(r)), ':'), !has_c(range_text(bounds(r)), '/'), range_text(bounds(r)).len() > 0,
{
    let (a, b) = bounds(r);
    lemma_dec(a as nat); lemma_dec(b as nat);
    let (x, y) = (dec(a as nat), dec(b as nat));
    lemma_uint_ascii(x, a as nat); lemma_uint_ascii(y, b as nat);
    let t = range_text((a, b));
    lemma_parse_max(x, a as nat, 65535); lemma_parse_max(y, b as nat, 65535);
    lemma_idx(t, '-');
    if a == b {
        assert(idx_c(t, '-') >= t.len());
    } else {
        let k = x.len() as int;
        assert(t[k] == '-');
        assert forall|i: int| 0 <= i < k implies t[i] != '-' by { assert(t[i] == x[i]); }
        assert(idx_c(t, '-') == k);
        assert(t.take(k) =~= x);
        assert(t.skip(k + 1) =~= y);
    }
    assert forall|i: int| 0 <= i < t.len() implies t[i] != ':' && t[i] != '/' by {
        if i < x.len() { assert(t[i] == x[i]); } else if i > x.len() { assert(t[i] == y[i - x.len() - 1]); }
    }
}
pub proof fn lemma_parse_max(s: Seq<char>, m: nat, n: nat)
    requires parse_uint(s, m) is Some, parse_uint(s, m)->0 <= n,
    ensures parse_uint(s, n) == parse_uint(s, m)
{ }
