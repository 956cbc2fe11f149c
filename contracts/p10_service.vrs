//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@include std_more.inc
//@include to_string.inc
//@include text_doc.inc
//@include identifier.inc
//@include ident_arg.inc
//@type src/service.rs :: Ipc
//@type src/service.rs :: ParseIpcError
//@type src/service.rs :: Link
//@type src/service.rs :: VolumesFrom
//@type src/service.rs :: VolumesFromSource
impl XInto<InvalidIdentifierError> for InvalidIdentifierError {
    open spec fn x_into_post(self, u: InvalidIdentifierError) -> bool { u == self }
    fn x_into(self) -> (u: InvalidIdentifierError) { self }
}
impl XInto<ParseIpcError> for InvalidIdentifierError {
    open spec fn x_into_post(self, u: ParseIpcError) -> bool { u.0 == self }
    fn x_into(self) -> (u: ParseIpcError) { ParseIpcError(self) }
}
pub open spec fn SHAREABLE() -> Seq<char> { seq!['s', 'h', 'a', 'r', 'e', 'a', 'b', 'l', 'e'] }
pub open spec fn SERVICE() -> Seq<char> { seq!['s', 'e', 'r', 'v', 'i', 'c', 'e', ':'] }
pub open spec fn CONTAINER() -> Seq<char> { seq!['c', 'o', 'n', 't', 'a', 'i', 'n', 'e', 'r', ':'] }
pub open spec fn RO() -> Seq<char> { seq![':', 'r', 'o'] }
pub open spec fn RW() -> Seq<char> { seq![':', 'r', 'w'] }
pub proof fn lemma_prefix(p: Seq<char>, t: Seq<char>)
    ensures is_prefix(p, p + t), (p + t).skip(p.len() as int) == t, is_suffix(t, p + t), (p + t).take(p.len() as int) == p
{ assert((p + t).skip(p.len() as int) =~= t); assert((p + t).take(p.len() as int) =~= p); }

// ------------------------------------------------------------ IPC modes
pub open spec fn ipc_ok(s: Seq<char>) -> bool { is_prefix(SERVICE(), s) ==> ident_ok(s.skip(8)) }
/// the one variant a text selects
pub open spec fn ipc_wf(v: Ipc) -> bool {
    match v {
        Ipc::Shareable => true,
        Ipc::Service(i) => ident_ok(i.0@),
        Ipc::Other(o) => o@ != SHAREABLE() && !is_prefix(SERVICE(), o@),
    }
}
pub open spec fn ipc_text(v: Ipc) -> Seq<char> {
    match v { Ipc::Shareable => SHAREABLE(), Ipc::Service(i) => SERVICE() + i.0@, Ipc::Other(o) => o@ }
}
//@fn src/service.rs :: Ipc::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> ipc_ok(ipc.asv()), r matches Ok(v) ==> ipc_wf(v) && ipc_text(v) == ipc.asv(),
//@proof start
    proof { x_arg_law(ipc); assert(SHAREABLE()[1] != SERVICE()[1]); if is_prefix(SERVICE(), ipc.asv()) { assert(SERVICE() + ipc.asv().skip(8) =~= ipc.asv()); } }
//@end
//@fn src/service.rs :: <Display for Ipc>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { ipc_text(*self) }
//@end
//@fn src/service.rs :: Ipc::is_shareable
    ensures r == (*self is Shareable)
//@end
//@fn src/service.rs :: Ipc::is_service
    ensures r == (*self is Service)
//@end
//@fn src/service.rs :: Ipc::as_service
    ensures r is Some <==> *self is Service, r matches Some(i) ==> *self == Ipc::Service(*i)
//@end
//@fn src/service.rs :: Ipc::is_other
    ensures r == (*self is Other)
//@end
//@fn src/service.rs :: Ipc::as_other
    ensures r is Some <==> *self is Other, r matches Some(o) ==> *self == Ipc::Other(*o)
//@end
//@fn src/service.rs :: <From<Ipc> for String>::from | as=ipc_into_string | free | retty=String
    ensures r@ == ipc_text(value)
//@end
/// a well-formed mode prints a text that is accepted and selects the same variant with the same payload
pub proof fn theorem_ipc(a: Ipc, b: Ipc)
    requires ipc_wf(a),
    ensures ipc_ok(ipc_text(a)), ipc_wf(b) && ipc_text(a) == ipc_text(b) ==> match (a, b) {
        (Ipc::Shareable, Ipc::Shareable) => true,
        (Ipc::Service(i), Ipc::Service(j)) => i.0@ == j.0@,
        (Ipc::Other(i), Ipc::Other(j)) => i@ == j@,
        _ => false,
    }
{
    assert(SHAREABLE()[1] != SERVICE()[1]);
    if let Ipc::Service(i) = a { lemma_prefix(SERVICE(), i.0@); }
    if let Ipc::Service(i) = b { lemma_prefix(SERVICE(), i.0@); }
}

// ------------------------------------------------------------ links
/// `service[:alias]`, cut at the first `:`
pub open spec fn link_parse(s: Seq<char>) -> Option<(Seq<char>, Option<Seq<char>>)> {
    let k = idx_c(s, ':') as int;
    if k < s.len() {
        if ident_ok(s.take(k)) { Some((s.take(k), Some(s.skip(k + 1)))) } else { None }
    } else if ident_ok(s) { Some((s, None)) } else { None }
}
pub open spec fn opt_view(o: Option<String>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn link_view(l: Link) -> (Seq<char>, Option<Seq<char>>) { (l.service.0@, opt_view(l.alias)) }
pub open spec fn link_text(l: Link) -> Seq<char> {
    match l.alias { Some(a) => l.service.0@ + seq![':'] + a@, None => l.service.0@ }
}
//@fn src/service.rs :: <From<Identifier> for Link>::from | as=link_from_service
    ensures link_view(r) == (service.0@, None::<Seq<char>>)
//@end
impl XInto<Link> for Identifier {
    open spec fn x_into_post(self, u: Link) -> bool { link_view(u) == (self.0@, None::<Seq<char>>) }
    fn x_into(self) -> (u: Link) { Link::link_from_service(self) }
}
//@fn src/service.rs :: Link::parse | as=parse<T: XIdentArg> | subst=T:T | keepgen
    ensures r is Ok <==> link_parse(link.asv()) is Some, r matches Ok(v) ==> link_parse(link.asv()) == Some(link_view(v)),
//@proof start
    proof { x_arg_law(link); x_ident_law(link); lemma_idx(link.asv(), ':'); }
//@end
//@fn src/service.rs :: <Display for Link>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { link_text(*self) }
//@end
impl XInto<String> for Identifier {
    open spec fn x_into_post(self, u: String) -> bool { u@ == self.0@ }
    // `From<Identifier> for String` is generated by `key_impls!`: the inner text (trusted)
    #[verifier::external_body]
    fn x_into(self) -> (u: String) { self.0.into() }
}
//@fn src/service.rs :: <From<Link> for String>::from | as=link_into_string | free | retty=String
    ensures r@ == link_text(value)
//@end
pub proof fn theorem_link(l: Link)
    requires ident_ok(l.service.0@),
    ensures link_parse(link_text(l)) == Some(link_view(l)),
{
    let (a, t) = (l.service.0@, link_text(l));
    lemma_ident(a);
    lemma_idx(t, ':');
    if let Some(b) = l.alias {
        assert(t[a.len() as int] == ':');
        assert forall|i: int| 0 <= i < a.len() implies t[i] != ':' by { assert(t[i] == a[i]); }
        lemma_idx_at(t, ':', a.len() as int);
        assert(t.take(a.len() as int) =~= a);
        assert(t.skip(a.len() as int + 1) =~= b@);
    }
}

// ------------------------------------------------------------ volumes_from
pub open spec fn source_parse(s: Seq<char>) -> Option<(bool, Seq<char>)> {
    if is_prefix(CONTAINER(), s) { if ident_ok(s.skip(10)) { Some((true, s.skip(10))) } else { None } }
    else if ident_ok(s) { Some((false, s)) } else { None }
}
/// (is a container, name)
pub open spec fn source_view(v: VolumesFromSource) -> (bool, Seq<char>) {
    match v { VolumesFromSource::Service(i) => (false, i.0@), VolumesFromSource::Container(i) => (true, i.0@) }
}
pub open spec fn source_text(v: VolumesFromSource) -> Seq<char> {
    match v { VolumesFromSource::Service(i) => i.0@, VolumesFromSource::Container(i) => CONTAINER() + i.0@ }
}
pub open spec fn source_post<E>(s: Seq<char>, r: Result<VolumesFromSource, E>) -> bool {
    &&& r is Ok <==> source_parse(s) is Some
    &&& r matches Ok(v) ==> source_parse(s) == Some(source_view(v))
}
//@fn src/service.rs :: VolumesFromSource::parse | as=parse<T: XIdentArg> | subst=T:T | keepgen
    ensures source_post(source.asv(), r)
//@proof start
    proof { x_arg_law(source); x_ident_law(source); }
//@end
//@fn expanded :: service::<FromStr for VolumesFromSource>::from_str | trait=XFromStr | as=x_from_str | extra=type E = InvalidIdentifierError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { source_post(s, r) }
//@end
//@fn src/service.rs :: <Display for VolumesFromSource>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { source_text(*self) }
//@end
impl XInto<String> for VolumesFromSource {
    open spec fn x_into_post(self, u: String) -> bool { u@ == source_text(self) }
    fn x_into(self) -> (u: String) { source_into_string(self) }
}
//@fn src/service.rs :: <From<VolumesFromSource> for String>::from | as=source_into_string | free | retty=String
    ensures r@ == source_text(value)
//@end
pub open spec fn vf_parse(s: Seq<char>) -> Option<((bool, Seq<char>), bool)> {
    if is_suffix(RO(), s) { match source_parse(s.take(s.len() - 3)) { Some(v) => Some((v, true)), None => None } }
    else if is_suffix(RW(), s) { match source_parse(s.take(s.len() - 3)) { Some(v) => Some((v, false)), None => None } }
    else { match source_parse(s) { Some(v) => Some((v, false)), None => None } }
}
pub open spec fn vf_view(v: VolumesFrom) -> ((bool, Seq<char>), bool) { (source_view(v.source), v.read_only) }
//@fn src/service.rs :: <From<VolumesFromSource> for VolumesFrom>::from | as=vf_from_source
    ensures r == (VolumesFrom { source, read_only: false })
//@end
impl XInto<VolumesFrom> for VolumesFromSource {
    open spec fn x_into_post(self, u: VolumesFrom) -> bool { u == (VolumesFrom { source: self, read_only: false }) }
    fn x_into(self) -> (u: VolumesFrom) { VolumesFrom::vf_from_source(self) }
}
//@fn src/service.rs :: VolumesFrom::parse | as=parse<T: XIdentArg> | subst=T:T | keepgen
    ensures r is Ok <==> vf_parse(volumes_from.asv()) is Some, r matches Ok(v) ==> vf_parse(volumes_from.asv()) == Some(vf_view(v)),
//@proof start
    proof { x_arg_law(volumes_from); x_ident_law(volumes_from); }
//@end
//@fn src/service.rs :: VolumesFromSource::ends_like_suffix
    ensures r == (self matches VolumesFromSource::Container(c) && (c.0@ == seq!['r', 'o'] || c.0@ == seq!['r', 'w']))
//@end
pub open spec fn vf_text(v: VolumesFrom) -> Seq<char> {
    source_text(v.source) + (
        if v.read_only { RO() }
        else if v.source matches VolumesFromSource::Container(c) && (c.0@ == seq!['r', 'o'] || c.0@ == seq!['r', 'w']) { RW() }
        else { seq![] })
}
//@fn src/service.rs :: <Display for VolumesFrom>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { vf_text(*self) }
//@end
//@fn src/service.rs :: <From<VolumesFrom> for String>::from | as=vf_into_string | free | retty=String
    ensures r@ == vf_text(value)
//@end
pub proof fn theorem_source(v: VolumesFromSource)
    requires ident_ok(source_view(v).1),
    ensures source_parse(source_text(v)) == Some(source_view(v)),
{
    let n = source_view(v).1;
    lemma_ident(n);
    match v {
        VolumesFromSource::Container(i) => { lemma_prefix(CONTAINER(), n); }
        VolumesFromSource::Service(i) => { if is_prefix(CONTAINER(), n) { assert(CONTAINER()[9] == ':'); assert(n[9] == ':'); } }
    }
}
pub proof fn theorem_volumes_from(v: VolumesFrom)
    requires ident_ok(vf_view(v).0.1),
    ensures vf_parse(vf_text(v)) == Some(vf_view(v)),
{
    let n = vf_view(v).0.1;
    lemma_ident(n);
    theorem_source(v.source);
    let (a, t) = (source_text(v.source), vf_text(v));
    assert(RO()[2] != RW()[2] && RO()[0] == ':' && RW()[0] == ':' && CONTAINER()[9] == ':');
    if t.len() > a.len() {
        let suf = t.skip(a.len() as int);
        lemma_prefix(a, if v.read_only { RO() } else { RW() });
    } else {
        assert(t =~= a);
        if is_suffix(RO(), t) || is_suffix(RW(), t) {
            let k = t.len() - 3;
            assert(t[k] == ':') by { assert(t.skip(k)[0] == t[k]); }
            assert(t.skip(k)[1] == t[k + 1] && t.skip(k)[2] == t[k + 2]);
            match v.source {
                VolumesFromSource::Service(i) => { assert(n[k] == ':'); }
                VolumesFromSource::Container(i) => {
                    if k >= 10 { assert(t[k] == n[k - 10]); }
                    else if k == 9 { assert(t[10] == n[0] && t[11] == n[1]); if is_suffix(RO(), t) { assert(n =~= seq!['r', 'o']); } else { assert(n =~= seq!['r', 'w']); } }
                    else { assert(t[k] == CONTAINER()[k]); }
                }
            }
        }
    }
}
pub open spec fn link_out(s: Seq<char>, r: Option<Link>) -> bool { (r is Some <==> link_parse(s) is Some) && (r matches Some(v) ==> link_parse(s) == Some(link_view(v))) }
// ------------------------------------------------------------ Link: every conversion and document form
impl XTextOut for Link { open spec fn text_post(s: Seq<char>, r: Option<Link>) -> bool { link_out(s, r) } }
//@fn expanded :: service::<FromStr for Link>::from_str | as=from_text | retty=Result<Self, InvalidIdentifierError>
    ensures link_out(s@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<&str> for Link>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::<TryFrom<String> for Link>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::<TryFrom<Box<str>> for Link>::try_from | as=from_box | retty=Result<Self, InvalidIdentifierError>
    ensures link_out(value@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<::std::borrow::Cow<str>> for Link>::try_from | as=from_cow | retty=Result<Self, InvalidIdentifierError>
    ensures link_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::<Serialize for Link>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::<Deserialize for Link>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Link>(deserializer@, r)
//@end
pub open spec fn source_out(s: Seq<char>, r: Option<VolumesFromSource>) -> bool { (r is Some <==> source_parse(s) is Some) && (r matches Some(v) ==> source_parse(s) == Some(source_view(v))) }
// ------------------------------------------------------------ VolumesFromSource: every conversion and document form
impl XTextOut for VolumesFromSource { open spec fn text_post(s: Seq<char>, r: Option<VolumesFromSource>) -> bool { source_out(s, r) } }
//@fn expanded :: service::<TryFrom<&str> for VolumesFromSource>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::<TryFrom<String> for VolumesFromSource>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::<TryFrom<Box<str>> for VolumesFromSource>::try_from | as=from_box | retty=Result<Self, InvalidIdentifierError>
    ensures source_out(value@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<::std::borrow::Cow<str>> for VolumesFromSource>::try_from | as=from_cow | retty=Result<Self, InvalidIdentifierError>
    ensures source_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::<Serialize for VolumesFromSource>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::<Deserialize for VolumesFromSource>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<VolumesFromSource>(deserializer@, r)
//@end
pub open spec fn vf_out(s: Seq<char>, r: Option<VolumesFrom>) -> bool { (r is Some <==> vf_parse(s) is Some) && (r matches Some(v) ==> vf_parse(s) == Some(vf_view(v))) }
// ------------------------------------------------------------ VolumesFrom: every conversion and document form
impl XTextOut for VolumesFrom { open spec fn text_post(s: Seq<char>, r: Option<VolumesFrom>) -> bool { vf_out(s, r) } }
//@fn expanded :: service::<FromStr for VolumesFrom>::from_str | as=from_text | retty=Result<Self, InvalidIdentifierError>
    ensures vf_out(s@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<&str> for VolumesFrom>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::<TryFrom<String> for VolumesFrom>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidIdentifierError; | retty=Result<Self, InvalidIdentifierError>
//@end
//@fn expanded :: service::<TryFrom<Box<str>> for VolumesFrom>::try_from | as=from_box | retty=Result<Self, InvalidIdentifierError>
    ensures vf_out(value@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<::std::borrow::Cow<str>> for VolumesFrom>::try_from | as=from_cow | retty=Result<Self, InvalidIdentifierError>
    ensures vf_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::<Serialize for VolumesFrom>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::<Deserialize for VolumesFrom>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<VolumesFrom>(deserializer@, r)
//@end
pub open spec fn ipc_out(s: Seq<char>, r: Option<Ipc>) -> bool { (r is Some <==> ipc_ok(s)) && (r matches Some(v) ==> ipc_wf(v) && ipc_text(v) == s) }
// ------------------------------------------------------------ Ipc: every conversion and document form
impl XTextOut for Ipc { open spec fn text_post(s: Seq<char>, r: Option<Ipc>) -> bool { ipc_out(s, r) } }
//@fn expanded :: service::<FromStr for Ipc>::from_str | as=from_text | retty=Result<Self, ParseIpcError>
    ensures ipc_out(s@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<&str> for Ipc>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = ParseIpcError; | retty=Result<Self, ParseIpcError>
//@end
//@fn expanded :: service::<TryFrom<String> for Ipc>::try_from | as=x_from_string | trait=XFromString | extra=type EString = ParseIpcError; | retty=Result<Self, ParseIpcError>
//@end
//@fn expanded :: service::<TryFrom<Box<str>> for Ipc>::try_from | as=from_box | retty=Result<Self, ParseIpcError>
    ensures ipc_out(value@, got_ok(r))
//@end
//@fn expanded :: service::<TryFrom<::std::borrow::Cow<str>> for Ipc>::try_from | as=from_cow | retty=Result<Self, ParseIpcError>
    ensures ipc_out(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::<Serialize for Ipc>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::<Deserialize for Ipc>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Ipc>(deserializer@, r)
//@end
} // verus!
fn main() {}
