//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@method as_ref => x_as_ref
//@method fmt => x_fmt
//@method unwrap_or_default => x_unwrap_or_default
//@rename Path::new => XPath::x_of
//@include std_more.inc
//@include to_string.inc
//@include paths.inc
//@include path_edit.inc
//@include identifier.inc
//@include absolute_path.inc
//@include host_path.inc
//@type src/service/volumes.rs :: ShortVolume
//@type src/service/volumes.rs :: ShortOptions
//@type src/service/volumes.rs :: Source
//@type src/service/volumes.rs :: SELinux | derive=Clone, Copy
//@type src/service/volumes.rs :: ParseSourceError
//@type src/service/volumes.rs :: ParseShortVolumeError
impl XInto<ParseSourceError> for HostPathError {
    open spec fn x_into_post(self, u: ParseSourceError) -> bool { u == ParseSourceError::HostPath(self) }
    fn x_into(self) -> (u: ParseSourceError) { ParseSourceError::HostPath(self) }
}
impl XInto<ParseSourceError> for InvalidIdentifierError {
    open spec fn x_into_post(self, u: ParseSourceError) -> bool { u == ParseSourceError::Identifier(self) }
    fn x_into(self) -> (u: ParseSourceError) { ParseSourceError::Identifier(self) }
}
impl XInto<ParseShortVolumeError> for ParseSourceError {
    open spec fn x_into_post(self, u: ParseShortVolumeError) -> bool { u == ParseShortVolumeError::Source(self) }
    fn x_into(self) -> (u: ParseShortVolumeError) { ParseShortVolumeError::Source(self) }
}
// ------------------------------------------------------------ sources
pub enum SrcView { Host(Seq<char>), Named(Seq<char>) }
pub open spec fn src_view(s: Source) -> SrcView { match s { Source::HostPath(h) => SrcView::Host(h.0@), Source::Volume(i) => SrcView::Named(i.0@) } }
pub open spec fn src_wf(s: Source) -> bool { match s { Source::HostPath(h) => h.wf(), Source::Volume(i) => ident_ok(i.0@) } }
/// a text starting with `.` or `/` is a host path, any other a volume name
pub open spec fn src_parse(s: Seq<char>) -> Option<SrcView> {
    if absolute(s) || (s.len() > 0 && s[0] == '.') { if host(s) { Some(SrcView::Host(s)) } else { None } }
    else if ident_ok(s) { Some(SrcView::Named(s)) } else { None }
}
pub open spec fn src_text(v: SrcView) -> Seq<char> { match v { SrcView::Host(s) => s, SrcView::Named(s) => s } }
pub open spec fn src_post<E>(s: Seq<char>, r: Result<Source, E>) -> bool {
    &&& r is Ok <==> src_parse(s) is Some
    &&& r matches Ok(v) ==> src_parse(s) == Some(src_view(v)) && src_wf(v)
}
//@fn src/service/volumes.rs :: Source::parse
    ensures src_post(source@, r)
//@end
//@fn src/service/volumes.rs :: <FromStr for Source>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseSourceError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { src_post(s, r) }
//@end
//@fn src/service/volumes.rs :: <Display for Source>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { src_text(src_view(*self)) }
//@end
//@fn src/service/volumes.rs :: <From<HostPath> for Source>::from | as=source_from_host
    ensures r == Source::HostPath(value)
//@end
//@fn src/service/volumes.rs :: <From<Identifier> for Source>::from | as=source_from_identifier
    ensures r == Source::Volume(value)
//@end
pub proof fn lemma_host_start(s: Seq<char>)
    requires host(s),
    ensures s.len() > 0, s[0] == '/' || s[0] == '.'
{ lemma_idx(s, '/'); if !absolute(s) { let p = first_piece(s); assert(p.len() > 0) by { if first_piece(s) == DOT() { assert(p[0] == '.'); } else { assert(p[0] == '.'); } } assert(p[0] == s[0]); assert(p[0] == '.'); } }
/// a source prints as a text that names the same source
pub proof fn theorem_volume_source(s: Source)
    requires src_wf(s),
    ensures src_parse(src_text(src_view(s))) == Some(src_view(s))
{
    match s { Source::HostPath(h) => { lemma_host_start(h.0@); } Source::Volume(i) => { lemma_ident(i.0@); assert(ident_char(i.0@[0])); assert(spec_is_ascii_alphanumeric(i.0@[0])); } }
}
// ------------------------------------------------------------ SELinux labels and options
pub open spec fn se_char(s: SELinux) -> char { match s { SELinux::Shared => 'z', SELinux::Private => 'Z' } }
//@fn src/service/volumes.rs :: SELinux::as_char
    ensures r == se_char(self)
//@end
//@fn src/service/volumes.rs :: SELinux::as_str
    ensures r@ == seq![se_char(self)]
//@end
//@fn src/service/volumes.rs :: <Display for SELinux>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { seq![se_char(*self)] }
//@end
pub open spec fn RO() -> Seq<char> { seq!['r', 'o'] }
pub open spec fn RW() -> Seq<char> { seq!['r', 'w'] }
pub open spec fn ZS() -> Seq<char> { seq!['z'] }
pub open spec fn ZP() -> Seq<char> { seq!['Z'] }
pub type Opts = (Option<bool>, Option<SELinux>);
/// each of `ro`/`rw` and `z`/`Z` at most once
pub open spec fn opt_step(o: Opts, p: Seq<char>) -> Option<Opts> {
    if p == RO() || p == RW() { if o.0 is None { Some((Some(p == RO()), o.1)) } else { None } }
    else if p == ZS() || p == ZP() { if o.1 is None { Some((o.0, Some(if p == ZS() { SELinux::Shared } else { SELinux::Private }))) } else { None } }
    else { None }
}
pub open spec fn opts_of(ps: Seq<Seq<char>>) -> Option<Opts> decreases ps.len() {
    if ps.len() == 0 { Some((None, None)) } else { match opts_of(ps.drop_last()) { Some(o) => opt_step(o, ps.last()), None => None } }
}
pub proof fn lemma_opts_prefix(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len(), opts_of(ps.take(n)) is None,
    ensures opts_of(ps) is None
    decreases ps.len() - n
{
    if n < ps.len() {
        assert(ps.take(n + 1).drop_last() =~= ps.take(n));
        lemma_opts_prefix(ps, n + 1);
    } else { assert(ps.take(n) =~= ps); }
}
pub open spec fn opts_parse(s: Seq<char>) -> Option<(bool, Option<SELinux>)> {
    match opts_of(split_c(s, ',')) { Some(o) => Some((o.0 == Some(true), o.1)), None => None }
}
// ------------------------------------------------------------ short volumes
pub struct VolView { pub path: Seq<char>, pub opts: Option<(SrcView, bool, Option<SELinux>)> }
pub open spec fn vol_view(v: ShortVolume) -> VolView {
    VolView { path: v.container_path.0@, opts: match v.options { Some(o) => Some((src_view(o.source), o.read_only, o.selinux)), None => None } }
}
pub open spec fn vol_wf(v: ShortVolume) -> bool { v.container_path.wf() && (v.options matches Some(o) ==> src_wf(o.source)) }
/// `[source:]container_path[:options]`
pub open spec fn vol_parse(s: Seq<char>) -> Option<VolView> {
    let p = split_n(s, 3, ':');
    if p.len() == 1 { if absolute(s) { Some(VolView { path: s, opts: None }) } else { None } }
    else {
        match (src_parse(p[0]), if p.len() > 2 { opts_parse(p[2]) } else { Some((false, None)) }) {
            (Some(src), Some((ro, se))) => if absolute(p[1]) { Some(VolView { path: p[1], opts: Some((src, ro, se)) }) } else { None },
            _ => None,
        }
    }
}
pub open spec fn opts_text(ro: bool, se: Option<SELinux>) -> Seq<char> {
    (if ro { RO() } else { seq![] }) + (if ro && se is Some { seq![','] } else { seq![] }) + (match se { Some(l) => seq![se_char(l)], None => seq![] })
}
pub open spec fn vol_text(v: VolView) -> Seq<char> {
    match v.opts {
        None => v.path,
        Some((src, ro, se)) => src_text(src) + seq![':'] + v.path + (if ro || se is Some { seq![':'] + opts_text(ro, se) } else { seq![] }),
    }
}
//@fn src/service/volumes.rs :: ShortVolume::new
    ensures r == (ShortVolume { container_path, options: None })
//@end
//@fn src/service/volumes.rs :: ShortOptions::new
    ensures r == (ShortOptions { source, read_only: false, selinux: None })
//@end
//@fn src/service/volumes.rs :: parse_container_path
    ensures abs_post(container_path@, r)
//@end
//@fn src/service/volumes.rs :: <FromStr for ShortVolume>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseShortVolumeError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { &&& r is Ok <==> vol_parse(s) is Some &&& r matches Ok(v) ==> vol_parse(s) == Some(vol_view(v)) && vol_wf(v) } | attr=verifier::loop_isolation(false)
//@proof start
    proof { reveal_with_fuel(split_n, 4); }
//@loop 0
    invariant opts_of(split_c(options@, ',').take(it0.index())) == Some((read_only, selinux)), it0.seq().len() == split_c(options@, ',').len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i])@ == split_c(options@, ',')[i]
//@proof loop 0 start
    proof {
        let ps = split_c(options@, ','); let n = it0.index() as int;
        assert(option@ == ps[n]);
        assert(ps.take(n + 1).drop_last() =~= ps.take(n)); assert(ps.take(n + 1).last() == ps[n]);
        if opts_of(ps.take(n + 1)) is None { lemma_opts_prefix(ps, n + 1); }
    }
//@proof tail
    proof { let ps = split_c(options@, ','); assert(ps.take(ps.len() as int) =~= ps); }
//@end
//@fn src/service/volumes.rs :: <Display for ShortVolume>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { vol_text(vol_view(*self)) }
//@end
//@include split.inc
/// the printed options read back
pub proof fn theorem_volume_options(ro: bool, se: Option<SELinux>)
    requires ro || se is Some,
    ensures opts_parse(opts_text(ro, se)) == Some((ro, se))
{
    reveal_with_fuel(opts_of, 3); reveal_with_fuel(split_c, 3);
    let t = opts_text(ro, se);
    if ro && se is Some {
        let z = seq![se_char(se->0)];
        assert(t =~= RO() + seq![','] + z);
        assert(t[2] == ',' && t[0] == 'r' && t[1] == 'o');
        lemma_idx_at(t, ',', 2);
        assert(t.take(2) =~= RO()); assert(t.skip(3) =~= z);
        assert(z[0] != ','); lemma_idx(z, ',');
        assert(split_c(z, ',') =~= seq![z]);
        let ps = seq![RO(), z];
        assert(split_c(t, ',') =~= ps);
        assert(ps.drop_last() =~= seq![RO()]); assert(seq![RO()].drop_last() =~= seq![]);
        assert(z != RO() && z != RW()) by { assert(z.len() == 1); assert(RO().len() == 2); assert(RW().len() == 2); }
        assert(ZS()[0] == 'z'); assert(ZP()[0] == 'Z');
        assert(opts_of(seq![RO()]) == Some((Some(true), Option::<SELinux>::None)));
    } else if ro {
        assert(t =~= RO()); lemma_idx(t, ','); assert(t[0] == 'r' && t[1] == 'o'); assert(!has_c(t, ','));
        assert(split_c(t, ',') =~= seq![RO()]); assert(seq![RO()].drop_last() =~= seq![]);
    } else {
        let z = seq![se_char(se->0)];
        assert(t =~= z); lemma_idx(t, ','); assert(!has_c(t, ','));
        assert(split_c(t, ',') =~= seq![z]); assert(seq![z].drop_last() =~= seq![]);
        assert(z != RO() && z != RW()) by { assert(z.len() == 1); assert(RO().len() == 2); assert(RW().len() == 2); }
        assert(ZS()[0] == 'z'); assert(ZP()[0] == 'Z');
    }
}
/// what a volume's paths must be like for its text to say them: a `:` would end them
pub open spec fn vol_plain(v: VolView) -> bool {
    &&& absolute(v.path) && !has_c(v.path, ':')
    &&& v.opts matches Some((src, _, _)) ==> !has_c(src_text(src), ':') && src_parse(src_text(src)) == Some(src)
}
/// the printed text of a short volume names the same volume
pub proof fn theorem_volume_round_trip(v: VolView)
    requires vol_plain(v),
    ensures vol_parse(vol_text(v)) == Some(v)
{
    match v.opts {
        None => { lemma_split_one(v.path, 3, ':'); }
        Some((src, ro, se)) => {
            let s = src_text(src);
            if ro || se is Some {
                let t = opts_text(ro, se);
                theorem_volume_options(ro, se);
                assert(vol_text(v) =~= s + seq![':'] + (v.path + seq![':'] + t));
                lemma_split_cat(s, v.path + seq![':'] + t, 3, ':');
                lemma_split_cat(v.path, t, 2, ':');
                assert(split_n(t, 1, ':') =~= seq![t]);
            } else {
                assert(vol_text(v) =~= s + seq![':'] + v.path);
                lemma_split_cat(s, v.path, 3, ':');
                lemma_split_one(v.path, 2, ':');
            }
        }
    }
}
/// every volume that was parsed is of that kind
pub proof fn theorem_volume_parsed(s: Seq<char>)
    ensures vol_parse(s) matches Some(v) ==> vol_plain(v)
{
    reveal_with_fuel(split_n, 4);
    lemma_idx(s, ':');
    let k = idx_c(s, ':') as int;
    if k < s.len() { lemma_idx(s.skip(k + 1), ':'); }
}
//@include text_doc.inc
//@include from_str_doc.inc
// ------------------------------------------------------------ the document form of ShortVolume
//@fn expanded :: service::volumes::<Serialize for ShortVolume>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::volumes::<Deserialize for ShortVolume>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<ShortVolume>(deserializer@, r)
//@end
} // verus!
fn main() {}
