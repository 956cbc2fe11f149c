//@include prelude.vrs
verus! {
//@include values.inc
//@include serde.inc
//@rename ListOrMap::deserialize => ListOrMap::x_deserialize
//@include hostname.inc
use std::net::{IpAddr, AddrParseError};
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIpAddr(IpAddr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAddrParseError(AddrParseError);
pub uninterp spec fn ip_parse(s: Seq<char>) -> Option<IpAddr>;
impl XFromStr for IpAddr {
    type E = AddrParseError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { match ip_parse(s) { Some(n) => r == Ok::<IpAddr, AddrParseError>(n), None => r is Err } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<Self, Self::E>) { s.parse() }
}
impl XKey for Hostname { open spec fn key(&self) -> Seq<char> { self.0@ } }
impl XAsRefStr for MapKey { open spec fn asv(&self) -> Seq<char> { self.0@ } fn x_as_ref(&self) -> (r: &str) { self.as_str() } }
//@rename Hostname::new => x_hostname_new
// `Hostname::new` takes anything that is a text
pub fn x_hostname_new<T: XAsRefStr>(t: T) -> (r: Result<Hostname, InvalidHostnameError>) ensures r is Ok <==> hostname_ok(t.asv()), r matches Ok(k) ==> k.0@ == t.asv() { Hostname::new(t.x_as_ref()) }
// what a document reads as a list or a map is trusted
impl XDes for ListOrMap { uninterp spec fn rd(n: XNode) -> Option<ListOrMap>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Self, XErr>) { unimplemented!() } }
/// the entries of a document's map, or of its list split at the first delimiter
pub open spec fn doc_entries(n: XNode, d: Seq<char>) -> Option<Seq<(Seq<char>, Option<Scalar>)>> {
    match ListOrMap::rd(n) {
        Some(ListOrMap::List(l)) => if forall|i: int| 0 <= i < l.list().len() ==> map_key_ok((#[trigger] split_entry(l.list()[i]@, d)).0) { Some(put_all(entries_of(l.list(), d))) } else { None },
        Some(ListOrMap::Map(m)) => Some(evs(m.entries())),
        None => None,
    }
}
/// without a pair of brackets
pub open spec fn stripped(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == '[' && s.last() == ']' { s.subrange(1, s.len() - 1) } else { s } }
//@fn src/service.rs :: strip_brackets
    ensures r@ =~= stripped(s@)
//@end
/// a host name and an address
pub open spec fn host_of(e: (Seq<char>, Option<Scalar>)) -> Option<(Seq<char>, IpAddr)> {
    match e.1 { Some(Scalar::Text(t)) => if hostname_ok(e.0) && ip_parse(stripped(t)) is Some { Some((e.0, ip_parse(stripped(t))->0)) } else { None }, _ => None }
}
pub open spec fn hv(es: Seq<(Hostname, IpAddr)>) -> Seq<(Seq<char>, IpAddr)> { Seq::new(es.len(), |i: int| (es[i].0.0@, es[i].1)) }
pub open spec fn it_hv(v: XIter<(Hostname, IpAddr)>) -> Seq<(Seq<char>, IpAddr)> { hv(v.rest()) }
pub open spec fn hosts_of(es: Seq<(Seq<char>, Option<Scalar>)>) -> Seq<(Seq<char>, IpAddr)> { Seq::new(es.len(), |i: int| host_of(es[i])->0) }
pub open spec fn hosts_post<E>(n: XNode, r: Result<XIndexMap<Hostname, IpAddr>, E>) -> bool {
    match doc_entries(n, seq!['=', ':']) {
        None => r is Err,
        Some(es) => (r is Ok <==> forall|i: int| 0 <= i < es.len() ==> host_of(#[trigger] es[i]) is Some) && (r matches Ok(m) ==> hv(m.entries()) == put_all(hosts_of(es))),
    }
}
pub proof fn lemma_hv(es: Seq<(Hostname, IpAddr)>) ensures hv(put_all(es)) =~= put_all(hv(es)) {
    let fk = |k: Hostname| k.0@; let fv = |v: IpAddr| v;
    lemma_mapped(es, fk, fv);
    assert(hv(es) =~= mapped(es, fk, fv));
    assert(hv(put_all(es)) =~= mapped(put_all(es), fk, fv));
}
//@fn src/service.rs :: extra_hosts | subst=D:XDe | retty=Result<XIndexMap<Hostname, IpAddr>, XErr> | noreveal | attr=verifier::loop_isolation(false)
    ensures hosts_post(deserializer@, r)
//@proof start
    proof { assert(['=', ':']@ =~= seq!['=', ':']); }
//@loop 0
    invariant
        doc_entries(deserializer@, seq!['=', ':']) == Some(evs(it0.seq())),
        it_hv(__v1) =~= hosts_of(evs(it0.seq()).take(it0.index() as int)),
        forall|i: int| 0 <= i < it0.index() ==> host_of(#[trigger] evs(it0.seq())[i]) is Some,
//@proof loop 0 start
    let ghost __e = evs(it0.seq())[it0.index() as int];
//@proof loop 0 end
    proof {
        let i = it0.index() as int;
        let es = evs(it0.seq());
        assert(hosts_of(es.take(i + 1)) =~= hosts_of(es.take(i)).push(host_of(__e)->0));
    }
//@proof before __v1 . x_collect ()
    proof { lemma_hv(__v1.rest()); let es = doc_entries(deserializer@, seq!['=', ':'])->0; assert(es.take(es.len() as int) =~= es); }
//@end
// ------------------------------------------------------------ additional contexts
/// what a text is as a context (a URL or a path), and the default
#[verifier::external_body] pub struct Context { s: String }
pub uninterp spec fn context_of(s: Seq<char>) -> Context;
pub uninterp spec fn context_default() -> Context;
//@rename Context::from => x_context_from
//@rename Context::default => x_context_default
//@rename String::from => string_from_value
#[verifier::external_body] pub fn x_context_from(s: String) -> (r: Context) ensures r == context_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn x_context_default() -> (r: Context) ensures r == context_default() { unimplemented!() }
pub open spec fn context_entry(e: (Seq<char>, Option<Scalar>)) -> (Seq<char>, Context) { (e.0, match e.1 { Some(v) => context_of(scalar_disp(v)), None => context_default() }) }
pub open spec fn cv(es: Seq<(MapKey, Context)>) -> Seq<(Seq<char>, Context)> { Seq::new(es.len(), |i: int| (es[i].0.0@, es[i].1)) }
pub open spec fn it_cv(v: XIter<(MapKey, Context)>) -> Seq<(Seq<char>, Context)> { cv(v.rest()) }
pub open spec fn contexts_of(es: Seq<(Seq<char>, Option<Scalar>)>) -> Seq<(Seq<char>, Context)> { Seq::new(es.len(), |i: int| context_entry(es[i])) }
pub proof fn lemma_cv(es: Seq<(MapKey, Context)>) ensures cv(put_all(es)) =~= put_all(cv(es)) {
    let fk = |k: MapKey| k.0@; let fv = |v: Context| v;
    lemma_mapped(es, fk, fv);
    assert(cv(es) =~= mapped(es, fk, fv));
    assert(cv(put_all(es)) =~= mapped(put_all(es), fk, fv));
}
//@fn src/service/build.rs :: additional_contexts | subst=D:XDe | retty=Result<XIndexMap<MapKey, Context>, XErr> | attr=verifier::loop_isolation(false)
    ensures match doc_entries(deserializer@, seq!['=']) { None => r is Err, Some(es) => r is Ok && cv(r->Ok_0.entries()) == put_all(contexts_of(es)) }
//@loop 0
    invariant
        doc_entries(deserializer@, seq!['=']) == Some(evs(it0.seq())),
        it_cv(__v1) =~= contexts_of(evs(it0.seq()).take(it0.index() as int)),
//@proof loop 0 start
    let ghost __e = evs(it0.seq())[it0.index() as int];
//@proof loop 0 end
    proof {
        let i = it0.index() as int;
        let es = evs(it0.seq());
        assert(contexts_of(es.take(i + 1)) =~= contexts_of(es.take(i)).push(context_entry(__e)));
    }
//@proof before __v1 . x_collect ()
    proof { lemma_cv(__v1.rest()); let es = doc_entries(deserializer@, seq!['='])->0; assert(es.take(es.len() as int) =~= es); }
//@end
} // verus!
fn main() {}
