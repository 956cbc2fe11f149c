//@include prelude.vrs
verus! {
use core::num::ParseIntError;
use core::cmp::Ordering;
use std::net::IpAddr;
//@flag xfor
//@method next => x_next
//@method fmt => x_fmt
//@rename Iterator::next => XRangeInc::x_next
//@rename Extensions => XExt
//@rename Extensions::default => XExt::x_default
//@rename IndexSet => XIndexSet
//@rename std::iter::once => x_once
//@include ports.inc
//@include ports_range.inc
//@include collections.inc
//@fn src/service/ports.rs :: <IntoIterator for Range>::into_iter
    ensures r.a as int == lo(self), r.b as int == hi(self), !r.done,
//@end
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpAddr(IpAddr);
//@type src/service/ports.rs :: ShortRanges | derive=Clone, Copy
//@type src/service/ports.rs :: ShortRangesIter
//@type src/service/ports.rs :: ShortPort
//@type src/service/ports.rs :: Port
//@type src/service/ports.rs :: Mode | derive=Clone, Copy
/// the extension map, seen only as empty or not
pub struct XExt { pub empty: bool }
impl XExt { pub fn is_empty(&self) -> (r: bool) ensures r == self.empty { self.empty } }
impl XDefault for XExt {
    open spec fn x_default_spec() -> XExt { XExt { empty: true } }
    fn x_default() -> (r: XExt) { XExt { empty: true } }
}
// `Clone` is derived
impl Clone for Protocol { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn rsize(r: Range) -> int { hi(r) - lo(r) + 1 }
impl ShortRanges {
    /// a host range has as many ports as the container range
    pub open spec fn wf(self) -> bool {
        self.container.wf() && (self.host matches Some(h) ==> h.wf() && rsize(h) == rsize(self.container))
    }
}
// ------------------------------------------------------------ the pairs of host and container ports, in order
/// the host port of the i-th pair of an iterator over both ranges
pub open spec fn host_at(h: Option<XRangeInc<u16>>, i: int) -> Option<u16> { match h { Some(h) => if i < h.left() { Some((h.a + i) as u16) } else { None }, None => None } }
pub open spec fn left_pairs(h: Option<XRangeInc<u16>>, c: XRangeInc<u16>) -> Seq<(Option<u16>, u16)> { Seq::new(c.left() as nat, |i: int| (host_at(h, i), (c.a + i) as u16)) }
//@fn src/service/ports.rs :: <Iterator for ShortRangesIter>::next | as=x_next | trait=XIterator | retty=Option<(Option<u16>, u16)> | extra=type Item = (Option<u16>, u16); open spec fn rest(self) -> Seq<(Option<u16>, u16)> { left_pairs(self.host, self.container) }
//@proof start
    let ghost it0 = *self;
//@proof tail
    proof {
        if it0.container.left() > 0 {
            assert(self.rest() =~= it0.rest().skip(1));
            assert(it0.rest()[0] == (host_at(it0.host, 0), it0.container.a));
        } else { assert(self.rest() =~= it0.rest()); }
    }
//@end
/// one pair for every container port: host and container ports in step
pub open spec fn pairs(r: ShortRanges) -> Seq<(Option<u16>, u16)> {
    Seq::new(rsize(r.container) as nat, |i: int| ((match r.host { Some(h) => Some((lo(h) + i) as u16), None => None }), (lo(r.container) + i) as u16))
}
//@fn src/service/ports.rs :: <IntoIterator for ShortRanges>::into_iter | noxfor
    requires self.wf(),
    ensures r.rest() == pairs(self),
//@proof tail
//@end
// ------------------------------------------------------------ one long port for every container port
//@rename Port::from => Port::from_u16
/// a long port that says only the target
pub open spec fn bare(p: Port) -> bool {
    p.name is None && p.published is None && p.host_ip is None && p.protocol is None && p.app_protocol is None && p.mode is None && p.extensions.empty
}
//@fn src/service/ports.rs :: Port::new
    ensures bare(r), r.target == target
//@end
//@fn src/service/ports.rs :: <From<u16> for Port>::from | as=from_u16
    ensures bare(r), r.target == target
//@end
impl XInto<Port> for u16 { open spec fn x_into_post(self, u: Port) -> bool { bare(u) && u.target == self } fn x_into(self) -> (u: Port) { Port::from_u16(self) } }
/// the long port of the i-th pair of a short one
pub open spec fn long_at(s: ShortPort, i: int, p: Port) -> bool {
    &&& p.target == lo(s.ranges.container) + i
    &&& match s.ranges.host { Some(h) => p.published matches Some(r) && r.wf() && bounds(r) == (lo(h) + i, lo(h) + i), None => p.published is None }
    &&& p.host_ip == s.host_ip && p.protocol == s.protocol
    &&& p.name is None && p.app_protocol is None && p.mode is None && p.extensions.empty
}
pub open spec fn longs(s: ShortPort, q: Seq<Port>) -> bool {
    q.len() == rsize(s.ranges.container) && forall|i: int| 0 <= i < q.len() ==> long_at(s, i, #[trigger] q[i])
}
//@fn src/service/ports.rs :: ShortPort::into_long_iter | retty=XIter<Port>
    requires self.ranges.wf(),
    ensures longs(self, r.rest()),
//@loop 0
    invariant
        self.ranges.wf(), ranges == self.ranges, host_ip == self.host_ip, protocol == self.protocol,
        it0.seq() == pairs(self.ranges), __o0.rest().len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> long_at(self, i, #[trigger] __o0.rest()[i]),
//@end
//@fn src/service/ports.rs :: Port::into_short | noxfor
    requires self.published matches Some(r) ==> r.wf(),
    ensures
        r is Ok <==> fits(self),
        r matches Ok(s) ==> says(s, self),
        r matches Err(p) ==> p == self,
//@end
/// the short form says everything the long one says
pub open spec fn fits(p: Port) -> bool {
    p.name is None && p.app_protocol is None && p.mode is None && p.extensions.empty
        && (p.published matches Some(r) ==> lo(r) == hi(r))
}
pub open spec fn says(s: ShortPort, p: Port) -> bool {
    s.ranges.wf() && s.host_ip == p.host_ip && s.protocol == p.protocol && s.ranges.host == p.published && bounds(s.ranges.container) == (p.target as int, p.target as int)
}
// ------------------------------------------------------------ lists of ports
//@type src/common/short_or_long.rs :: ShortOrLong
//@fn src/common/short_or_long.rs :: <Iterator for ShortOrLong<S,L>>::next | as=x_next | trait=XIterator | gen=<T, S: XIterator<Item = T>, L: XIterator<Item = T>> | retty=Option<T> | extra=type Item = T; open spec fn rest(self) -> Seq<T> { match self { ShortOrLong::Short(i) => i.rest(), ShortOrLong::Long(i) => i.rest() } }
//@end
impl<T> XIndexSet<T> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: XIter<T>) ensures r.rest() == self.list() { unimplemented!() }
}
pub fn x_once<T>(x: T) -> (r: XIter<T>) ensures r.rest() == seq![x] { let mut v = XIter::x_new(); v.push(x); assert(v.rest() =~= seq![x]); v }
pub type Ports = XIndexSet<ShortOrLong<ShortPort, Port>>;
pub type AnyPort = ShortOrLong<ShortPort, Port>;
pub open spec fn any_wf(p: AnyPort) -> bool { match p { ShortOrLong::Short(s) => s.ranges.wf(), ShortOrLong::Long(l) => l.published matches Some(r) ==> r.wf() } }
/// the short form of a port, or the long port it cannot say
pub open spec fn short_of(p: AnyPort, r: Result<ShortPort, Port>) -> bool {
    match p { ShortOrLong::Short(s) => r == Ok::<ShortPort, Port>(s), ShortOrLong::Long(l) => if fits(l) { r matches Ok(s) && says(s, l) } else { r == Err::<ShortPort, Port>(l) } }
}
//@fn src/service/ports.rs :: into_short_iter | retty=XIter<Result<ShortPort, Port>>
    requires forall|i: int| 0 <= i < ports.list().len() ==> any_wf(#[trigger] ports.list()[i]),
    ensures r.rest().len() == ports.list().len(), forall|i: int| 0 <= i < r.rest().len() ==> short_of(ports.list()[i], #[trigger] r.rest()[i]),
//@loop 0
    invariant
        it0.seq() == ports.list(), __o0.rest().len() == it0.index(),
        forall|i: int| 0 <= i < ports.list().len() ==> any_wf(#[trigger] ports.list()[i]),
        forall|i: int| 0 <= i < it0.index() ==> short_of(ports.list()[i], #[trigger] __o0.rest()[i]),
//@end
/// the long ports one port stands for
pub open spec fn long_of(p: AnyPort, q: Seq<Port>) -> bool { match p { ShortOrLong::Short(s) => longs(s, q), ShortOrLong::Long(l) => q == seq![l] } }
/// the long ports of the first `k` ports, one after another
pub open spec fn long_list(l: Seq<AnyPort>, k: int, q: Seq<Port>) -> bool decreases k {
    if k <= 0 { q.len() == 0 } else { exists|n: int| 0 <= n <= q.len() && long_list(l, k - 1, #[trigger] q.take(n)) && long_of(l[k - 1], q.skip(n)) }
}
pub proof fn lemma_one_more(l: Seq<AnyPort>, k: int, a: Seq<Port>, b: Seq<Port>)
    requires 0 <= k < l.len(), long_list(l, k, a), long_of(l[k], b),
    ensures long_list(l, k + 1, a + b)
{ let q = a + b; assert(q.take(a.len() as int) =~= a); assert(q.skip(a.len() as int) =~= b); assert(long_list(l, (k + 1) - 1, q.take(a.len() as int))); }
//@fn src/service/ports.rs :: into_long_iter | retty=XIter<Port>
    requires forall|i: int| 0 <= i < ports.list().len() ==> any_wf(#[trigger] ports.list()[i]),
    ensures long_list(ports.list(), ports.list().len() as int, r.rest()),
//@loop 0
    invariant
        it0.seq() == ports.list(),
        forall|i: int| 0 <= i < ports.list().len() ==> any_wf(#[trigger] ports.list()[i]),
        long_list(ports.list(), it0.index() as int, __o0.rest()),
//@proof loop 0 start
    let ghost base = __o0.rest();
    proof { assert(base + Seq::<Port>::empty() =~= base); }
//@loop 1
    invariant
        it0.index() < ports.list().len(),
        long_of(ports.list()[it0.index() as int], it1.seq()), __o0.rest() =~= base + it1.seq().take(it1.index() as int),
        it1.index() == it1.seq().len() ==> __o0.rest().skip(base.len() as int) =~= it1.seq(),
//@proof loop 0 end
    proof { lemma_one_more(ports.list(), it0.index() as int, base, __o0.rest().skip(base.len() as int)); assert(base + __o0.rest().skip(base.len() as int) =~= __o0.rest()); }
//@end
} // verus!
fn main() {}
