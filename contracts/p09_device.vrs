//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method unwrap_or_default => x_unwrap_or_default
//@include std_more.inc
//@include paths.inc
//@include absolute_path.inc
//@type src/service/device.rs :: Device
//@type src/service/device.rs :: ParseDeviceError
//@type src/service/device.rs :: Permissions | derive=Clone, Copy
//@type src/service/device.rs :: ParsePermissionsError
//@type src/service/device.rs :: CgroupRule
//@type src/service/device.rs :: ParseCgroupRuleError
//@type src/service/device.rs :: Kind | derive=Clone, Copy
//@type src/service/device.rs :: ParseKindError
//@type src/service/device.rs :: MajorMinorNumber | derive=Clone, Copy

// ------------------------------------------------------------ property-level definitions
/// a string of the letters `r`, `w`, `m`
pub open spec fn perms_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 'r' || s[i] == 'w' || s[i] == 'm' }
pub open spec fn perms_of(s: Seq<char>) -> Permissions { Permissions { read: has_c(s, 'r'), write: has_c(s, 'w'), mknod: has_c(s, 'm') } }
pub open spec fn perms_parse(s: Seq<char>) -> Option<Permissions> { if perms_ok(s) { Some(perms_of(s)) } else { None } }
pub open spec fn opt_char(b: bool, c: char) -> Seq<char> { if b { seq![c] } else { seq![] } }
pub open spec fn perms_text(p: Permissions) -> Seq<char> { opt_char(p.read, 'r') + opt_char(p.write, 'w') + opt_char(p.mknod, 'm') }
pub open spec fn any(p: Permissions) -> bool { p.read || p.write || p.mknod }

//@fn src/service/device.rs :: Permissions::all
    ensures r == (Permissions { read: true, write: true, mknod: true })
//@end
//@fn src/service/device.rs :: Permissions::any
    ensures r == any(self)
//@end
//@fn src/service/device.rs :: <FromStr for Permissions>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParsePermissionsError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { &&& r is Ok <==> perms_parse(s) is Some &&& r matches Ok(v) ==> perms_parse(s) == Some(v) } | attr=verifier::loop_isolation(false)
//@loop 0
    invariant
        it0.seq() == s@,
        forall|i: int| 0 <= i < it0.index() ==> #[trigger] s@[i] == 'r' || s@[i] == 'w' || s@[i] == 'm',
        read <==> exists|i: int| 0 <= i < it0.index() && s@[i] == 'r',
        write <==> exists|i: int| 0 <= i < it0.index() && s@[i] == 'w',
        mknod <==> exists|i: int| 0 <= i < it0.index() && s@[i] == 'm',
//@end
//@fn src/service/device.rs :: <Display for Permissions>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { perms_text(*self) }
//@end
/// letters print in a fixed order and read back
pub proof fn theorem_perms_round_trip(p: Permissions)
    ensures perms_parse(perms_text(p)) == Some(p), any(p) <==> perms_text(p).len() > 0,
        forall|i: int| 0 <= i < perms_text(p).len() ==> #[trigger] perms_text(p)[i] == 'r' || perms_text(p)[i] == 'w' || perms_text(p)[i] == 'm',
{
    let t = perms_text(p);
    if p.read { assert(t[0] == 'r'); }
    if p.write { assert(t[opt_char(p.read, 'r').len() as int] == 'w'); }
    if p.mknod { assert(t.last() == 'm'); }
}

// ------------------------------------------------------------ kinds and numbers
pub open spec fn kind_char(k: Kind) -> char { match k { Kind::All => 'a', Kind::Char => 'c', Kind::Block => 'b' } }
pub open spec fn kind_of(c: char) -> Option<Kind> {
    if c == 'a' { Some(Kind::All) } else if c == 'c' { Some(Kind::Char) } else if c == 'b' { Some(Kind::Block) } else { None }
}
pub open spec fn kind_parse(s: Seq<char>) -> Option<Kind> { if s.len() == 1 { kind_of(s[0]) } else { None } }
pub open spec fn opt_post<T, E>(o: Option<T>, r: Result<T, E>) -> bool { &&& r is Ok <==> o is Some &&& r matches Ok(v) ==> o == Some(v) }
//@fn src/service/device.rs :: Kind::as_char
    ensures r == kind_char(self)
//@end
//@fn src/service/device.rs :: <TryFrom<char> for Kind>::try_from | as=try_from_char
    ensures opt_post(kind_of(value), r)
//@end
//@fn src/service/device.rs :: <FromStr for Kind>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseKindError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { opt_post(kind_parse(s), r) }
//@proof start
    proof { if s@.len() == 1 { assert(s@ =~= seq![s@[0]]); } }
//@end
//@fn src/service/device.rs :: <Display for Kind>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { seq![kind_char(*self)] }
//@end
//@fn src/service/device.rs :: <From<Kind> for char>::from | as=kind_into_char | free | retty=char
    ensures r == kind_char(value)
//@end
/// empty or `*`: all numbers; otherwise a 16-bit number
pub open spec fn num_parse(s: Seq<char>) -> Option<MajorMinorNumber> {
    if s.len() == 0 || s == seq!['*'] { Some(MajorMinorNumber::All) }
    else { match parse_uint(s, 65535) { Some(n) => Some(MajorMinorNumber::Integer(n as u16)), None => None } }
}
pub open spec fn num_text(n: MajorMinorNumber) -> Seq<char> { match n { MajorMinorNumber::All => seq!['*'], MajorMinorNumber::Integer(n) => dec(n as nat) } }
//@fn src/service/device.rs :: <PartialEq<u16> for MajorMinorNumber>::eq | as=eq_u16
    ensures r == (*self == MajorMinorNumber::Integer(*other))
//@end
//@fn src/service/device.rs :: <From<u16> for MajorMinorNumber>::from | as=from_u16
    ensures r == MajorMinorNumber::Integer(value)
//@end
//@fn src/service/device.rs :: <FromStr for MajorMinorNumber>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseIntError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { opt_post(num_parse(s), r) }
//@end
//@fn src/service/device.rs :: <Display for MajorMinorNumber>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { num_text(*self) }
//@end
pub proof fn theorem_num_round_trip(n: MajorMinorNumber)
    ensures num_parse(num_text(n)) == Some(n), !has_c(num_text(n), ':'), !has_c(num_text(n), ' '),
{
    if let MajorMinorNumber::Integer(i) = n {
        lemma_dec(i as nat);
        lemma_uint_digit(dec(i as nat), i as nat);
        assert(dec(i as nat)[0] != '*');
    }
}

// ------------------------------------------------------------ cgroup rules
/// `type major:minor[ permissions]`
pub open spec fn rule_parse(s: Seq<char>) -> Option<CgroupRule> {
    let p = split_n(s, 3, ' ');
    if p.len() < 2 { None } else {
        let k = idx_c(p[1], ':') as int;
        if k >= p[1].len() { None } else {
            match (kind_parse(p[0]), num_parse(p[1].take(k)), num_parse(p[1].skip(k + 1)), perms_parse(if p.len() > 2 { p[2] } else { seq![] })) {
                (Some(kind), Some(major), Some(minor), Some(permissions)) => Some(CgroupRule { kind, major, minor, permissions }),
                _ => None,
            }
        }
    }
}
pub open spec fn rule_text(r: CgroupRule) -> Seq<char> {
    seq![kind_char(r.kind)] + seq![' '] + num_text(r.major) + seq![':'] + num_text(r.minor)
        + (if any(r.permissions) { seq![' '] + perms_text(r.permissions) } else { seq![] })
}
//@fn src/service/device.rs :: <FromStr for CgroupRule>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseCgroupRuleError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { opt_post(rule_parse(s), r) }
//@proof start
    proof { reveal_with_fuel(split_n, 4); reveal_strlit(""); assert(""@ =~= seq![]); if split_n(s@, 3, ' ').len() > 1 { lemma_idx(split_n(s@, 3, ' ')[1], ':'); } }
//@end
//@fn src/service/device.rs :: <Display for CgroupRule>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { rule_text(*self) }
//@end

// ------------------------------------------------------------ devices
/// (host, container, permissions) of `host:container[:permissions]`
pub open spec fn device_parse(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, Permissions)> {
    let p = split_n(s, 3, ':');
    if p.len() < 2 || !absolute(p[1]) { None } else {
        match perms_parse(if p.len() > 2 { p[2] } else { seq![] }) { Some(m) => Some((p[0], p[1], m)), None => None }
    }
}
pub open spec fn device_view(d: Device) -> (Seq<char>, Seq<char>, Permissions) { (d.host_path@, d.container_path.0@, d.permissions) }
pub open spec fn device_text(d: Device) -> Seq<char> {
    d.host_path@ + seq![':'] + d.container_path.0@ + (if any(d.permissions) { seq![':'] + perms_text(d.permissions) } else { seq![] })
}
//@fn src/service/device.rs :: <FromStr for Device>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseDeviceError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { &&& r is Ok <==> device_parse(s) is Some &&& r matches Ok(v) ==> device_parse(s) == Some(device_view(v)) && v.container_path.wf() }
//@proof start
    proof { reveal_with_fuel(split_n, 4); reveal_strlit(""); assert(""@ =~= seq![]); }
//@end
//@fn src/service/device.rs :: <Display for Device>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { device_text(*self) }
//@end
//@include split.inc
/// the printed text of a device names the same device (a host path has no colon: it was cut at the first one)
pub proof fn theorem_device_round_trip(d: Device)
    requires d.container_path.wf(), !has_c(d.host_path@, ':'), !has_c(d.container_path.0@, ':'),
    ensures device_parse(device_text(d)) == Some(device_view(d))
{
    let (h, c, p) = device_view(d);
    theorem_perms_round_trip(p);
    let t = perms_text(p);
    assert(perms_parse(seq![]) == Some(perms_of(seq![])));
    if any(p) {
        assert(device_text(d) =~= h + seq![':'] + (c + seq![':'] + t));
        lemma_split_cat(h, c + seq![':'] + t, 3, ':');
        lemma_split_cat(c, t, 2, ':');
        assert(split_n(t, 1, ':') =~= seq![t]);
    } else {
        assert(device_text(d) =~= h + seq![':'] + c);
        lemma_split_cat(h, c, 3, ':');
        lemma_split_one(c, 2, ':');
    }
}
/// parsed devices meet the requirement of the round trip
pub proof fn theorem_device_parts(s: Seq<char>)
    ensures device_parse(s) matches Some((h, c, p)) ==> !has_c(h, ':') && !has_c(c, ':') && absolute(c)
{
    reveal_with_fuel(split_n, 4);
    lemma_idx(s, ':');
    let k = idx_c(s, ':') as int;
    if k < s.len() { lemma_idx(s.skip(k + 1), ':'); }
}
pub proof fn theorem_rule_round_trip(r: CgroupRule)
    ensures rule_parse(rule_text(r)) == Some(r)
{
    theorem_perms_round_trip(r.permissions);
    theorem_num_round_trip(r.major); theorem_num_round_trip(r.minor);
    let t = perms_text(r.permissions);
    let k = seq![kind_char(r.kind)];
    let (a, b) = (num_text(r.major), num_text(r.minor));
    let m = a + seq![':'] + b;
    assert(perms_parse(seq![]) == Some(perms_of(seq![])));
    assert(m[a.len() as int] == ':');
    assert forall|i: int| 0 <= i < m.len() implies m[i] != ' ' by { if i < a.len() { assert(m[i] == a[i]); } else if i > a.len() { assert(m[i] == b[i - a.len() - 1]); } }
    lemma_idx_at(m, ':', a.len() as int);
    assert(m.take(a.len() as int) =~= a);
    assert(m.skip(a.len() as int + 1) =~= b);
    if any(r.permissions) {
        assert(rule_text(r) =~= k + seq![' '] + (m + seq![' '] + t));
        lemma_split_cat(k, m + seq![' '] + t, 3, ' ');
        lemma_split_cat(m, t, 2, ' ');
        assert(split_n(t, 1, ' ') =~= seq![t]);
    } else {
        assert(rule_text(r) =~= k + seq![' '] + m);
        lemma_split_cat(k, m, 3, ' ');
        lemma_split_one(m, 2, ' ');
    }
}
//@fn src/service/device.rs :: <TryFrom<&str> for Device>::try_from | as=try_from_str
    ensures r is Ok <==> device_parse(value@) is Some, r matches Ok(v) ==> device_parse(value@) == Some(device_view(v)) && v.container_path.wf(),
//@end
//@fn src/service/device.rs :: <TryFrom<&str> for Permissions>::try_from | as=try_from_str
    ensures opt_post(perms_parse(value@), r)
//@end
//@fn src/service/device.rs :: <TryFrom<&str> for CgroupRule>::try_from | as=try_from_str
    ensures opt_post(rule_parse(value@), r)
//@end
//@fn src/service/device.rs :: <TryFrom<&str> for Kind>::try_from | as=try_from_str
    ensures opt_post(kind_parse(value@), r)
//@end
//@fn src/service/device.rs :: <TryFrom<&str> for MajorMinorNumber>::try_from | as=try_from_str
    ensures opt_post(num_parse(value@), r)
//@end
//@include to_string.inc
//@include text_doc.inc
//@include from_str_doc.inc
// ------------------------------------------------------------ the document form of Device
//@fn expanded :: service::device::<Serialize for Device>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::device::<Deserialize for Device>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<Device>(deserializer@, r)
//@end
// ------------------------------------------------------------ the document form of CgroupRule
//@fn expanded :: service::device::<Serialize for CgroupRule>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::device::<Deserialize for CgroupRule>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<CgroupRule>(deserializer@, r)
//@end
} // verus!
fn main() {}
