//@include prelude.vrs
verus! {
use core::num::ParseIntError;
use core::cmp::Ordering;
use std::net::{IpAddr, AddrParseError};
//@method next => x_next
//@rename Iterator::next => XRangeInc::x_next
//@rename Extensions => XExt
//@rename Extensions::default => XExt::x_default
//@include ports.inc
//@include ports_range.inc
//@include port_doc.inc
//@include range_doc.inc
//@include protocol.inc
//@fn src/service/ports.rs :: <IntoIterator for Range>::into_iter
    ensures r.a as int == lo(self), r.b as int == hi(self), !r.done,
//@end

// ------------------------------------------------------------ IP addresses (std, uninterpreted)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpAddr(IpAddr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExAddrParseError(AddrParseError);
pub uninterp spec fn ip_parse(s: Seq<char>) -> Option<IpAddr>;
pub uninterp spec fn ip_text(ip: IpAddr) -> Seq<char>;
pub open spec fn ip_char(c: char) -> bool { spec_is_ascii_hexdigit(c) || c == ':' || c == '.' }
/// std: an address prints as hexadecimal digits, `:` and `.`, and reads back
#[verifier::external_body]
pub proof fn x_ip_round_trip(ip: IpAddr)
    ensures ip_parse(ip_text(ip)) == Some(ip), ip_text(ip).len() > 0, forall|i: int| 0 <= i < ip_text(ip).len() ==> ip_char(#[trigger] ip_text(ip)[i])
{ }
impl XFromStr for IpAddr {
    type E = AddrParseError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool {
        match ip_parse(s) { Some(n) => r == Ok::<IpAddr, AddrParseError>(n), None => r is Err }
    }
    #[verifier::external_body]
    fn x_from_str(s: &str) -> (r: Result<Self, Self::E>) { s.parse() }
}
impl XDisplay for IpAddr {
    open spec fn x_disp(&self) -> Seq<char> { ip_text(*self) }
    #[verifier::external_body]
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { f.write_str(&self.to_string()) }
}

//@type src/service/ports.rs :: ShortRanges | derive=Clone, Copy
//@type src/service/ports.rs :: ShortRangesError | derive=Clone, Copy
//@type src/service/ports.rs :: ParseShortRangesError
//@type src/service/ports.rs :: ShortRangesIter
//@type src/service/ports.rs :: ShortPort
//@type src/service/ports.rs :: Port
//@type src/service/ports.rs :: Mode | derive=Clone, Copy
/// the extension map, seen only as empty or not
pub struct XExt { pub empty: bool }
impl XExt { pub fn is_empty(&self) -> (r: bool) ensures r == self.empty { self.empty } }
impl XDefault for XExt {
    open spec fn x_default_spec() -> XExt { XExt { empty: true } }
    fn x_default() -> (r: XExt) { XExt { empty: true } }
}
//@type src/service/ports.rs :: ParseShortPortError

// ------------------------------------------------------------ property-level definitions
pub open spec fn rsize(r: Range) -> int { hi(r) - lo(r) + 1 }
pub open spec fn size(b: (int, int)) -> int { b.1 - b.0 + 1 }
impl ShortRanges {
    /// a host range has as many ports as the container range
    pub open spec fn wf(self) -> bool {
        self.container.wf() && (self.host matches Some(h) ==> h.wf() && rsize(h) == rsize(self.container))
    }
}
pub open spec fn opt_bounds(h: Option<Range>) -> Option<(int, int)> { match h { Some(h) => Some(bounds(h)), None => None } }
pub open spec fn same_size(h: Option<Range>, c: Range) -> bool { h matches Some(h) ==> rsize(h) == rsize(c) }
/// (host, container) of `[[host]:]container`
pub open spec fn ranges_parse(s: Seq<char>) -> Option<(Option<(int, int)>, (int, int))> {
    let k = idx_c(s, ':') as int;
    if k >= s.len() {
        match range_parse(s) { Some(c) => Some((None, c)), None => None }
    } else if k == 0 {
        match range_parse(s.skip(1)) { Some(c) => Some((None, c)), None => None }
    } else {
        match (range_parse(s.take(k)), range_parse(s.skip(k + 1))) {
            (Some(h), Some(c)) => if size(h) == size(c) { Some((Some(h), c)) } else { None },
            _ => None,
        }
    }
}
pub open spec fn view_ranges(r: ShortRanges) -> (Option<(int, int)>, (int, int)) { (opt_bounds(r.host), bounds(r.container)) }
pub open spec fn ranges_post<E>(s: Seq<char>, r: Result<ShortRanges, E>) -> bool {
    &&& r is Ok <==> ranges_parse(s) is Some
    &&& r matches Ok(v) ==> v.wf() && ranges_parse(s) == Some(view_ranges(v))
}
pub open spec fn ranges_text(r: ShortRanges) -> Seq<char> {
    match r.host { Some(h) => disp_range(h) + seq![':'] + disp_range(r.container), None => disp_range(r.container) }
}
/// the second to last colon, or -1
pub open spec fn second_colon(s: Seq<char>) -> int {
    let k = ridx_c(s, ':');
    if k < 0 { -1 } else { ridx_c(s.take(k), ':') }
}
/// a bracketed address without its brackets
pub open spec fn unbracket(s: Seq<char>) -> Seq<char> {
    if s.len() >= 2 && s[0] == '[' && s.last() == ']' { s.skip(1).drop_last() } else { s }
}
pub struct Parts { pub ip: Option<IpAddr>, pub host: Option<(int, int)>, pub container: (int, int), pub protocol: Option<Seq<char>> }
/// `[ip:][[host]:]container`
pub open spec fn body_parse(s: Seq<char>, p: Option<Seq<char>>) -> Option<Parts> {
    let k = second_colon(s);
    if k < 0 {
        match ranges_parse(s) { Some((h, c)) => Some(Parts { ip: None, host: h, container: c, protocol: p }), None => None }
    } else {
        match (ip_parse(unbracket(s.take(k))), ranges_parse(s.skip(k + 1))) {
            (Some(ip), Some((h, c))) => Some(Parts { ip: Some(ip), host: h, container: c, protocol: p }),
            _ => None,
        }
    }
}
/// the short syntax: `[ip:][[host]:]container[/protocol]`
pub open spec fn short_parse(s: Seq<char>) -> Option<Parts> {
    let k = idx_c(s, '/') as int;
    if k >= s.len() { body_parse(s, None) } else { body_parse(s.take(k), Some(s.skip(k + 1))) }
}
pub open spec fn opt_proto(p: Option<Protocol>) -> Option<Seq<char>> { match p { Some(p) => Some(proto_text(p)), None => None } }
impl ShortPort {
    pub open spec fn wf(self) -> bool { self.ranges.wf() && opt_proto_wf(self.protocol) }
    pub open spec fn parts(self) -> Parts {
        Parts { ip: self.host_ip, host: opt_bounds(self.ranges.host), container: bounds(self.ranges.container), protocol: opt_proto(self.protocol) }
    }
}
pub open spec fn short_post<E>(s: Seq<char>, r: Result<ShortPort, E>) -> bool {
    &&& r is Ok <==> short_parse(s) is Some
    &&& r matches Ok(v) ==> v.wf() && short_parse(s) == Some(v.parts())
}
pub open spec fn body_text(p: ShortPort) -> Seq<char> {
    match p.host_ip {
        Some(ip) => (ip_text(ip) + seq![':']) + (if p.ranges.host is None { seq![':'] } else { seq![] }) + ranges_text(p.ranges),
        None => ranges_text(p.ranges),
    }
}
pub open spec fn short_text(p: ShortPort) -> Seq<char> {
    match p.protocol { Some(x) => body_text(p) + (seq!['/'] + proto_text(x)), None => body_text(p) }
}

// ------------------------------------------------------------ ranges
//@fn src/service/ports.rs :: range_size_eq
    requires container.wf(), host matches Some(h) ==> h.wf(),
    ensures r is Ok <==> same_size(host, container)
//@end
//@fn src/service/ports.rs :: ShortRanges::new
    requires container.wf(), host matches Some(h) ==> h.wf(),
    ensures
        r is Ok <==> same_size(host, container),
        r matches Ok(v) ==> v.wf() && v.host == host && v.container == container,
//@end
//@fn src/service/ports.rs :: ShortRanges::host
    ensures r == self.host
//@end
//@fn src/service/ports.rs :: ShortRanges::container
    ensures r == self.container
//@end
//@fn src/service/ports.rs :: ShortRanges::replace_host
    requires old(self).wf(), host.wf(),
    ensures
        final(self).wf(), final(self).container == old(self).container,
        r is Ok <==> rsize(host) == rsize(old(self).container),
        r matches Ok(o) ==> o == old(self).host && final(self).host == Some(host),
        r is Err ==> *final(self) == *old(self),
//@end
//@fn src/service/ports.rs :: ShortRanges::take_host
    requires old(self).wf(),
    ensures final(self).wf(), final(self).container == old(self).container, r == old(self).host, final(self).host is None,
//@end
//@fn src/service/ports.rs :: ShortRanges::replace_container
    requires old(self).wf(), container.wf(),
    ensures
        final(self).wf(), final(self).host == old(self).host,
        r is Ok <==> same_size(old(self).host, container),
        r matches Ok(o) ==> o == old(self).container && final(self).container == container,
        r is Err ==> *final(self) == *old(self),
//@end
// `From<Range> for ShortRanges` is generated by `FromShort`
//@fn expanded :: service::ports::<From<Range> for ShortRanges>::from | as=from_range
    ensures r.host is None, r.container == container
//@end
impl XInto<ShortRanges> for Range {
    open spec fn x_into_post(self, u: ShortRanges) -> bool { u.host is None && u.container == self }
    fn x_into(self) -> (u: ShortRanges) { ShortRanges::from_range(self) }
}
//@fn src/service/ports.rs :: <From<u16> for ShortRanges>::from | as=from_u16
    ensures r.wf(), view_ranges(r) == (None::<(int, int)>, (container as int, container as int))
//@end
//@fn src/service/ports.rs :: <FromStr for ShortRanges>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseShortRangesError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { ranges_post(s, r) }
//@proof start
    proof { lemma_idx(s@, ':'); x_str_bound(s); }
//@end
//@fn src/service/ports.rs :: <Display for ShortRanges>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { ranges_text(*self) }
//@end

// ------------------------------------------------------------ short ports
/// one step of the search for a colon from the end
pub proof fn lemma_second(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures
        s[k] == ':' ==> ridx_c(s.take(k + 1), ':') == k && second_colon(s.take(k + 1)) == ridx_c(s.take(k), ':'),
        s[k] != ':' ==> ridx_c(s.take(k + 1), ':') == ridx_c(s.take(k), ':') && second_colon(s.take(k + 1)) == second_colon(s.take(k)),
{
    let t = s.take(k + 1);
    assert(t.drop_last() =~= s.take(k));
    assert(t.take(k) =~= s.take(k));
    lemma_ridx(s.take(k), ':');
    let j = ridx_c(s.take(k), ':');
    if j >= 0 { assert(t.take(j) =~= s.take(k).take(j)); }
}
//@fn src/service.rs :: strip_brackets
    ensures r@ == unbracket(s@)
//@end
//@fn src/service/ports.rs :: ShortPort::new
    ensures r.ranges == ranges, r.host_ip is None, r.protocol is None
//@end
//@fn src/service/ports.rs :: <FromStr for ShortPort>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseShortPortError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { short_post(s, r) }
//@loop 0
    invariant_except_break
        __r is None,
        second_colon(s@) == if colon_seen { ridx_c(s@.take(__k as int), ':') } else { second_colon(s@.take(__k as int)) },
    invariant
        __t@ == s@, __cs@ == s@, __k <= __cs@.len(), s@ == body,
    ensures
        __r is None ==> second_colon(s@) < 0,
        __r matches Some((a, b)) ==> second_colon(s@) >= 0 && a@ == s@.take(second_colon(s@)) && b@ == s@.skip(second_colon(s@) + 1),
    decreases __k
//@proof start
    proof { lemma_idx(s@, '/'); }
    let ghost body = { let k = idx_c(s@, '/') as int; if k >= s@.len() { s@ } else { s@.take(k) } };
//@proof after let __t =
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@proof loop 0 start
    proof {
        let t = s@.take(__k as int);
        assert(t.drop_last() =~= s@.take(__k - 1));
        assert(t.take(t.len() - 1) =~= t.drop_last());
    }
//@proof after __k = __k - 1 ;
    proof { lemma_second(s@, __k as int); }
//@end
//@fn src/service/ports.rs :: <Display for ShortPort>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { short_text(*self) }
//@end

// ------------------------------------------------------------ listing the mappings
impl ShortRangesIter {
    /// host and container advance together
    pub open spec fn wf(self) -> bool { self.host matches Some(h) ==> h.left() == self.container.left() }
}
//@fn src/service/ports.rs :: <IntoIterator for ShortRanges>::into_iter
    requires self.wf(),
    ensures
        r.wf(), r.container.left() == rsize(self.container), r.container.a as int == lo(self.container),
        r.host is Some <==> self.host is Some,
        r.host matches Some(h) ==> h.a as int == lo(self.host->0),
//@end
//@fn src/service/ports.rs :: <Iterator for ShortRangesIter>::next | as=x_next
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).container.left() == 0 ==> r is None,
        old(self).container.left() > 0 ==> {
            &&& r == Some((match old(self).host { Some(h) => Some(h.a), None => None }, old(self).container.a))
            &&& final(self).container.left() == old(self).container.left() - 1
            &&& final(self).container.left() > 0 ==> final(self).container.a == old(self).container.a + 1
            &&& final(self).host is Some <==> old(self).host is Some
            &&& final(self).container.left() > 0 ==> (final(self).host matches Some(h) ==> h.a == old(self).host->0.a + 1)
        },
//@end

// ------------------------------------------------------------ long ports
/// a long port that says only the target
pub open spec fn bare(p: Port) -> bool {
    p.name is None && p.published is None && p.host_ip is None && p.protocol is None && p.app_protocol is None && p.mode is None && p.extensions.empty
}
//@fn src/service/ports.rs :: Port::new
    ensures bare(r), r.target == target
//@end
//@fn src/service/ports.rs :: <From<u16> for Port>::from | as=from_u16
    ensures bare(r), r.target == target
//@end
/// the short form says everything the long one says
pub open spec fn fits(p: Port) -> bool {
    p.name is None && p.app_protocol is None && p.mode is None && p.extensions.empty
        && (p.published matches Some(r) ==> lo(r) == hi(r))
}
//@fn src/service/ports.rs :: Port::into_short
    requires self.published matches Some(r) ==> r.wf(),
    ensures
        r is Ok <==> fits(self),
        r matches Ok(s) ==> s.ranges.wf() && s.host_ip == self.host_ip && s.protocol == self.protocol
            && s.ranges.host == self.published && bounds(s.ranges.container) == (self.target as int, self.target as int),
        r matches Err(p) ==> p == self,
//@end

pub proof fn lemma_no_colon_range(r: Range)
    requires r.wf(),
    ensures ({ let t = disp_range(r); range_parse(t) == Some(bounds(r)) && !has_c(t, ':') && !has_c(t, '/') && t.len() > 0 })
{
    theorem_range_round_trip(r);
    theorem_range_text(r);
}
pub proof fn theorem_ranges_round_trip(r: ShortRanges)
    requires r.wf(),
    ensures ranges_parse(ranges_text(r)) == Some(view_ranges(r)), !has_c(ranges_text(r), '/'), second_colon(ranges_text(r)) < 0,
{
    lemma_no_colon_range(r.container);
    let c = disp_range(r.container);
    let t = ranges_text(r);
    lemma_idx(t, ':'); lemma_ridx(t, ':');
    match r.host {
        Some(h) => {
            lemma_no_colon_range(h);
            let d = disp_range(h);
            let k = d.len() as int;
            assert(t[k] == ':');
            assert forall|i: int| 0 <= i < t.len() && i != k implies t[i] != ':' && t[i] != '/' by {
                if i < k { assert(t[i] == d[i]); } else { assert(t[i] == c[i - k - 1]); }
            }
            assert(t.take(k) =~= d);
            assert(t.skip(k + 1) =~= c);
            assert(ridx_c(t, ':') == k);
            lemma_ridx(t.take(k), ':');
        }
        None => {}
    }
}
/// what follows the address
pub open spec fn after_ip(r: ShortRanges) -> Seq<char> {
    if r.host is None { seq![':'] + ranges_text(r) } else { ranges_text(r) }
}
pub proof fn lemma_after_ip(r: ShortRanges) -> (m: int)
    requires r.wf(),
    ensures ({ let t = after_ip(r); 0 <= m < t.len() && t[m] == ':' && (forall|i: int| 0 <= i < t.len() && i != m ==> t[i] != ':')
        && !has_c(t, '/') && ranges_parse(t) == Some(view_ranges(r)) })
{
    hide(range_parse); hide(disp_range); hide(dec);
    theorem_ranges_round_trip(r);
    let rest = after_ip(r);
    lemma_no_colon_range(r.container);
    let c = disp_range(r.container);
    lemma_idx(rest, ':');
    match r.host {
        Some(h) => {
            lemma_no_colon_range(h);
            let d = disp_range(h);
            let m = d.len() as int;
            assert(rest[m] == ':');
            assert forall|i: int| 0 <= i < rest.len() && i != m implies rest[i] != ':' by {
                if i < m { assert(rest[i] == d[i]); } else { assert(rest[i] == c[i - m - 1]); }
            }
            m
        }
        None => {
            assert(rest[0] == ':');
            assert forall|i: int| 0 < i < rest.len() implies rest[i] != ':' && rest[i] != '/' by { assert(rest[i] == c[i - 1]); }
            assert(rest.skip(1) =~= c);
            0
        }
    }
}
pub proof fn lemma_body(p: ShortPort, proto: Option<Seq<char>>)
    requires p.wf(),
    ensures !has_c(body_text(p), '/'),
        body_parse(body_text(p), proto) == Some(Parts { protocol: proto, ..p.parts() }),
{
    hide(range_parse); hide(disp_range); hide(dec); hide(ranges_parse); hide(ranges_text); hide(view_ranges);
    theorem_ranges_round_trip(p.ranges);
    assert(view_ranges(p.ranges) == (opt_bounds(p.ranges.host), bounds(p.ranges.container))) by { reveal(view_ranges); }
    let b = body_text(p);
    match p.host_ip {
        Some(ip) => {
            x_ip_round_trip(ip);
            let a = ip_text(ip);
            let k = a.len() as int;
            let rest = after_ip(p.ranges);
            let m = lemma_after_ip(p.ranges);
            assert(b =~= a + seq![':'] + rest);
            assert(b[k] == ':');
            assert(b.take(k) =~= a);
            assert(b.skip(k + 1) =~= rest);
            assert(unbracket(a) == a) by { assert(ip_char(a[0])); }
            lemma_ridx(b, ':');
            assert forall|i: int| k < i < b.len() && i != k + 1 + m implies b[i] != ':' by { assert(b[i] == rest[i - k - 1]); }
            assert(b[k + 1 + m] == rest[m]);
            let t = b.take(k + 1 + m);
            lemma_ridx(t, ':');
            assert(t[k] == ':');
            assert forall|i: int| k < i < t.len() implies t[i] != ':' by { assert(t[i] == b[i]); }
            assert(second_colon(b) == k);
            assert forall|i: int| 0 <= i < b.len() implies b[i] != '/' by {
                if i < k { assert(b[i] == a[i]); assert(ip_char(a[i])); } else if i > k { assert(b[i] == rest[i - k - 1]); }
            }
        }
        None => {}
    }
}
pub proof fn theorem_short_round_trip(p: ShortPort)
    requires p.wf(),
    ensures short_parse(short_text(p)) == Some(p.parts())
{
    hide(body_parse); hide(body_text);
    let b = body_text(p);
    lemma_body(p, opt_proto(p.protocol));
    let t = short_text(p);
    lemma_idx(t, '/');
    if p.protocol is Some {
        let k = b.len() as int;
        assert(t[k] == '/');
        assert forall|i: int| 0 <= i < k implies t[i] != '/' by { assert(t[i] == b[i]); }
        assert(t.take(k) =~= b);
        assert(t.skip(k + 1) =~= proto_text(p.protocol->0));
    }
}
// ------------------------------------------------------------ in documents
impl XFromU16 for ShortRanges { open spec fn u16_post(n: u16, r: ShortRanges) -> bool { r.host is None && r.container.wf() && bounds(r.container) == (n as int, n as int) } fn x_from_u16(n: u16) -> (r: ShortRanges) { ShortRanges::from_u16(n) } }
//@fn src/service/ports.rs :: <Serialize for ShortRanges>::serialize | subst=S:XAnySer | retty=Result<XAnyOk, XErr> | trait=XSerAny | extra=open spec fn node(&self) -> XAnyNode { if self.host is Some { XAnyNode::Text(self.x_disp()) } else { self.container.node() } }
//@end
//@fn src/service/ports.rs :: <Deserialize for ShortRanges>::deserialize | subst=D:XAnyDe | retty=Result<Self, XErr>
    ensures port_doc::<ShortRanges>(deserializer.node(), r)
//@end
//@fn src/service/ports.rs :: <From<ShortRanges> for ShortPort>::from | as=from_ranges
    ensures r.ranges == ranges, r.host_ip is None, r.protocol is None
//@end
impl XInto<ShortPort> for ShortRanges { open spec fn x_into_post(self, u: ShortPort) -> bool { u.ranges == self && u.host_ip is None && u.protocol is None } fn x_into(self) -> (u: ShortPort) { ShortPort::from_ranges(self) } }
//@rename ShortRanges::from => ShortRanges::from_range
//@fn src/service/ports.rs :: <From<Range> for ShortPort>::from | as=from_range
    ensures r.ranges.container == container, r.ranges.host is None, r.host_ip is None, r.protocol is None
//@end
impl XInto<ShortPort> for Range { open spec fn x_into_post(self, u: ShortPort) -> bool { u.ranges.container == self && u.ranges.host is None && u.host_ip is None && u.protocol is None } fn x_into(self) -> (u: ShortPort) { ShortPort::from_range(self) } }
pub open spec fn bare_short(r: ShortPort, n: u16) -> bool { r.wf() && r.parts() == (Parts { ip: None, host: None, container: (n as int, n as int), protocol: None }) }
//@fn src/service/ports.rs :: <From<u16> for ShortPort>::from | as=from_u16
    ensures bare_short(r, container)
//@end
impl XFromU16 for ShortPort { open spec fn u16_post(n: u16, r: ShortPort) -> bool { bare_short(r, n) } fn x_from_u16(n: u16) -> (r: ShortPort) { ShortPort::from_u16(n) } }
//@fn src/service/ports.rs :: <Serialize for ShortPort>::serialize | subst=S:XAnySer | retty=Result<XAnyOk, XErr> | trait=XSerAny | extra=open spec fn node(&self) -> XAnyNode { if self.host_ip is None && self.protocol is None { self.ranges.node() } else { XAnyNode::Text(self.x_disp()) } }
//@end
//@fn src/service/ports.rs :: <Deserialize for ShortPort>::deserialize | subst=D:XAnyDe | retty=Result<Self, XErr>
    ensures port_doc::<ShortPort>(deserializer.node(), r)
//@end
} // verus!
fn main() {}
