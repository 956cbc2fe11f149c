//@include prelude.vrs
verus! {
use core::num::ParseIntError;
use core::cmp::Ordering;
//@include ports.inc
//@include ports_range.inc
//@include port_doc.inc
//@include range_doc.inc
//@fn src/service/ports.rs :: <TryFrom<(u16,Option<u16>)> for Range>::try_from | as=try_from_opt
    ensures new_post(__arg0.0 as int, opt_int(__arg0.1), r)
//@end
//@fn src/service/ports.rs :: <TryFrom<(u16,u16)> for Range>::try_from | as=try_from_pair
    ensures new_post(__arg0.0 as int, Some(__arg0.1 as int), r)
//@end
impl XTryInto<Range, RangeError> for (u16, u16) {
    open spec fn x_try_post(self, r: Result<Range, RangeError>) -> bool { new_post(self.0 as int, Some(self.1 as int), r) }
    fn x_try_into(self) -> (r: Result<Range, RangeError>) { Range::try_from_pair(self) }
}
//@fn src/service/ports.rs :: <TryFrom<RangeInclusive<u16>> for Range>::try_from | as=try_from_inc
    ensures new_post(value.a as int, Some(value.b as int), r)
//@end
//@fn src/service/ports.rs :: <TryFrom<&str> for Range>::try_from | as=try_from_str
    ensures range_post(value@, r)
//@end
//@fn src/service/ports.rs :: <PartialEq<u16> for Range>::eq | as=eq_u16
    ensures self.wf() ==> r == (bounds(*self) == (*other as int, *other as int))
//@end
//@fn src/service/ports.rs :: <PartialEq<RangeInclusive<u16>> for Range>::eq | as=eq_inc
    ensures r == (bounds(*self) == (other.a as int, other.b as int))
//@end
pub open spec fn shifted(r: Range, d: int) -> Range { Range { start: (r.start + d) as u16, end: match r.end { Some(e) => Some((e + d) as u16), None => None } } }
impl vstd::std_specs::ops::AddSpecImpl<u16> for Range {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: u16) -> bool { self.wf() && hi(self) + rhs <= 65535 }
    open spec fn add_spec(self, rhs: u16) -> Range { shifted(self, rhs as int) }
}
impl vstd::std_specs::ops::SubSpecImpl<u16> for Range {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: u16) -> bool { self.wf() && lo(self) >= rhs }
    open spec fn sub_spec(self, rhs: u16) -> Range { shifted(self, -(rhs as int)) }
}
//@fn src/service/ports.rs :: <Add<u16> for Range>::add | trait=core::ops::Add<u16> | extra=type Output = Range;
    ensures r.wf(), bounds(r) == (lo(self) + rhs, hi(self) + rhs)
//@end
//@fn src/service/ports.rs :: <Sub<u16> for Range>::sub | trait=core::ops::Sub<u16> | extra=type Output = Range;
    ensures r.wf(), bounds(r) == (lo(self) - rhs, hi(self) - rhs)
//@end
//@fn src/service/ports.rs :: <AddAssign<u16> for Range>::add_assign
    requires old(self).wf(), hi(*old(self)) + rhs <= 65535,
    ensures final(self).wf(), bounds(*final(self)) == (lo(*old(self)) + rhs, hi(*old(self)) + rhs)
//@end
//@fn src/service/ports.rs :: <SubAssign<u16> for Range>::sub_assign
    requires old(self).wf(), lo(*old(self)) >= rhs,
    ensures final(self).wf(), bounds(*final(self)) == (lo(*old(self)) - rhs, hi(*old(self)) - rhs)
//@end
//@fn src/service/ports.rs :: <IntoIterator for Range>::into_iter
    ensures r.a as int == lo(self), r.b as int == hi(self), !r.done,
//@end

//@type src/service/expose.rs :: Expose
pub open spec fn opt_proto(p: Option<Protocol>) -> Option<Seq<char>> { match p { Some(p) => Some(proto_text(p)), None => None } }
/// (range, protocol) of `range[/protocol]`
pub open spec fn expose_parse(s: Seq<char>) -> Option<((int, int), Option<Seq<char>>)> {
    let k = idx_c(s, '/') as int;
    if k >= s.len() {
        match range_parse(s) { Some(b) => Some((b, None)), None => None }
    } else {
        match range_parse(s.take(k)) { Some(b) => Some((b, Some(s.skip(k + 1)))), None => None }
    }
}
pub open spec fn expose_post<E>(s: Seq<char>, r: Result<Expose, E>) -> bool {
    &&& r is Ok <==> expose_parse(s) is Some
    &&& r matches Ok(v) ==> v.range.wf() && opt_proto_wf(v.protocol) && expose_parse(s) == Some((bounds(v.range), opt_proto(v.protocol)))
}
pub open spec fn expose_text(e: Expose) -> Seq<char> {
    match e.protocol { Some(p) => disp_range(e.range) + (seq!['/'] + proto_text(p)), None => disp_range(e.range) }
}
//@include protocol.inc
//@fn src/service/expose.rs :: <From<u16> for Expose>::from | as=from_u16
    ensures r.range.wf(), bounds(r.range) == (start as int, start as int), r.protocol is None
//@end
//@fn src/service/expose.rs :: <From<Range> for Expose>::from | as=from_range
    ensures r.range == range, r.protocol is None
//@end
//@fn src/service/expose.rs :: <FromStr for Expose>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseRangeError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { expose_post(s, r) }
//@proof start
    proof { lemma_idx(s@, '/'); }
//@end
//@fn src/service/expose.rs :: <TryFrom<&str> for Expose>::try_from | as=try_from_str
    ensures expose_post(value@, r)
//@end
//@fn src/service/expose.rs :: <Display for Expose>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { expose_text(*self) }
//@end
pub proof fn theorem_expose_round_trip(e: Expose)
    requires e.range.wf(),
    ensures expose_parse(expose_text(e)) == Some((bounds(e.range), opt_proto(e.protocol)))
{
    theorem_range_round_trip(e.range);
    theorem_range_text(e.range);
    let t = expose_text(e);
    let d = disp_range(e.range);
    lemma_idx(t, '/'); lemma_idx(d, '/');
    if e.protocol is Some {
        let k = d.len() as int;
        assert(t[k] == '/');
        assert forall|i: int| 0 <= i < k implies t[i] != '/' by { assert(t[i] == d[i]); }
        assert(t.take(k) =~= d);
        assert(t.skip(k + 1) =~= proto_text(e.protocol->0));
    }
}
// ------------------------------------------------------------ in documents
impl XFromU16 for Expose { open spec fn u16_post(n: u16, r: Expose) -> bool { r.range.wf() && bounds(r.range) == (n as int, n as int) && r.protocol is None } fn x_from_u16(n: u16) -> (r: Expose) { Expose::from_u16(n) } }
//@fn src/service/expose.rs :: <Serialize for Expose>::serialize | subst=S:XAnySer | retty=Result<XAnyOk, XErr> | trait=XSerAny | extra=open spec fn node(&self) -> XAnyNode { if self.range.end is None && self.protocol is None { XAnyNode::Int(self.range.start as int) } else { XAnyNode::Text(self.x_disp()) } }
//@end
//@fn src/service/expose.rs :: <Deserialize for Expose>::deserialize | subst=D:XAnyDe | retty=Result<Self, XErr>
    ensures port_doc::<Expose>(deserializer.node(), r)
//@end
} // verus!
fn main() {}
