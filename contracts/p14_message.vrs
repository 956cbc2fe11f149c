//@include prelude.vrs
verus! {
//@method fmt => x_fmt
//@method as_ref => x_as_ref
//@include identifier.inc
/// `w` stands in `t`, at or after `n`
pub open spec fn has(t: Seq<char>, n: nat, w: Seq<char>) -> bool { exists|i: int| n <= i && #[trigger] at(t, i, w) }
pub open spec fn at(t: Seq<char>, i: int, w: Seq<char>) -> bool { 0 <= i && i + w.len() <= t.len() && t.subrange(i, i + w.len()) == w }
pub broadcast proof fn lemma_has(a: Seq<char>, b: Seq<char>, n: nat, w: Seq<char>)
    requires has(a, n, w) || (b == w && n <= a.len()),
    ensures #[trigger] has(a + b, n, w)
{
    if has(a, n, w) {
        let i = choose|i: int| n <= i && #[trigger] at(a, i, w);
        assert((a + b).subrange(i, i + w.len()) =~= w);
        assert(at(a + b, i, w));
    } else {
        assert((a + b).subrange(a.len() as int, (a.len() + w.len()) as int) =~= w);
        assert(at(a + b, a.len() as int, w));
    }
}
//@type src/lib.rs :: ResourceKind | derive=Clone, Copy
//@type src/lib.rs :: ValidationError
pub open spec fn word(k: ResourceKind) -> Seq<char> { match k { ResourceKind::Network => "network"@, ResourceKind::Volume => "volume"@, ResourceKind::Config => "config"@, ResourceKind::Secret => "secret"@ } }
//@fn src/lib.rs :: ResourceKind::as_str
    ensures r@ == word(self)
//@end
//@fn src/lib.rs :: <Display for ResourceKind>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { word(*self) }
//@end
/// the message names the kind, the resource and, where it is known, the service
//@fn src/lib.rs :: <Display for ValidationError>::fmt | as=show
    ensures r is Ok,
        has(final(f)@, old(f)@.len(), word(self.kind)),
        has(final(f)@, old(f)@.len(), self.resource.0@),
        (self.service matches Some(s) ==> has(final(f)@, old(f)@.len(), s.0@)),
//@proof start
    broadcast use lemma_has;
//@end
} // verus!
fn main() {}
