//@include prelude.vrs
verus! {
//@method fmt => x_fmt
//@rename IndexMap => XIndexMap
//@include std_more.inc
//@include collections.inc
//@include serde.inc
//@include serde_ext.inc
// ------------------------------------------------------------ what the choices hold
#[verifier::external_body]
pub struct PathBuf { s: String }
impl XDes for PathBuf { uninterp spec fn rd(n: XNode) -> Option<PathBuf>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<PathBuf, XErr>) { unimplemented!() } }
impl XSer for PathBuf { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
#[verifier::external_body]
pub struct Identifier { s: String }
impl XDes for Identifier { uninterp spec fn rd(n: XNode) -> Option<Identifier>; #[verifier::external_body] fn x_deserialize(d: XDe) -> (r: Result<Identifier, XErr>) { unimplemented!() } }
impl XSer for Identifier { uninterp spec fn node(&self) -> XNode; #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
// ------------------------------------------------------------ credential specs
//@serde src/service/credential_spec.rs :: Kind | ser
//@serde src/service/credential_spec.rs :: Field | de
//@serde src/service/credential_spec.rs :: CredentialSpec | ser
//@type src/service/credential_spec.rs :: Visitor
/// the kind a key and its value give, if the key is one of the three
pub open spec fn kind_key(k: Seq<char>) -> bool { k == "config"@ || k == "file"@ || k == "registry"@ }
pub open spec fn kind_rd(k: Seq<char>, n: XNode) -> Option<Kind> {
    if k == "config"@ { match Identifier::rd(n) { Some(v) => Some(Kind::Config(v)), None => None } }
    else if k == "file"@ { match PathBuf::rd(n) { Some(v) => Some(Kind::File(v)), None => None } }
    else { match String::rd(n) { Some(v) => Some(Kind::Registry(v)), None => None } }
}
pub struct Cred { pub kind: Option<Kind>, pub ext: Seq<(ExtensionKey, YamlValue)> }
/// what the first `n` entries of a document give: one kind, extension keys none of them twice
pub open spec fn cred_fold(m: Seq<Entry>, n: nat) -> Option<Cred>
    decreases n
{
    if n == 0 { Some(Cred { kind: None, ext: seq![] }) }
    else {
        let (k, v) = m[n - 1];
        match cred_fold(m, (n - 1) as nat) {
            None => None,
            Some(c) => {
                if kind_key(k) {
                    if c.kind is Some || kind_rd(k, v) is None { None } else { Some(Cred { kind: kind_rd(k, v), ext: c.ext }) }
                } else {
                    match (ExtensionKey::rd(XNode::Text(k)), YamlValue::rd(v)) {
                        (Some(e), Some(y)) => if ext_has(c.ext, e.key()) { None } else { Some(Cred { kind: c.kind, ext: c.ext.push((e, y)) }) },
                        _ => None,
                    }
                }
            }
        }
    }
}
pub proof fn lemma_stuck(m: Seq<Entry>, i: nat, n: nat)
    requires i <= n <= m.len(), cred_fold(m, i) is None,
    ensures cred_fold(m, n) is None,
    decreases n
{ if i < n { lemma_stuck(m, i, (n - 1) as nat); } }
//@fn src/service/credential_spec.rs :: <Visitor for Visitor>::visit_map | as=visit_map | subst=A:XMapAccess | retty=Result<CredentialSpec, XErr> | attr=verifier::loop_isolation(false)
    requires map.pending() is None
    ensures
        r is Ok <==> (cred_fold(map.rest(), map.rest().len()) is Some && cred_fold(map.rest(), map.rest().len())->0.kind is Some),
        r matches Ok(c) ==> Some(c.kind) == cred_fold(map.rest(), map.rest().len())->0.kind && c.extensions.entries() == cred_fold(map.rest(), map.rest().len())->0.ext,
//@loop 0
        invariant
            map.pending() is None, 0 <= gi <= gm.len(), gi == gm.len() - map.rest().len(), map.rest() == gm.skip(gi),
            cred_fold(gm, gi as nat) == Some(Cred { kind, ext: extensions.entries() }),
        decreases map.rest().len(),
//@proof start
    let ghost gm = map.rest();
    let ghost mut gi: int = 0;
    broadcast use axiom_extension_key;
    proof {
    reveal_strlit("config"); reveal_strlit("file"); reveal_strlit("registry");
    assert("config"@.len() != "file"@.len() && "config"@.len() != "registry"@.len() && "file"@.len() != "registry"@.len());
    assert("config"@[0] != 'x' && "file"@[0] != 'x' && "registry"@[0] != 'x');
    assert(gm.skip(0) =~= gm);
    }
//@proof loop 0 start
        let ghost before = extensions.entries();
        proof {
            if gi < gm.len() && cred_fold(gm, (gi + 1) as nat) is None { lemma_stuck(gm, (gi + 1) as nat, gm.len()); }
            if gi < gm.len() { assert(gm.skip(gi)[0] == gm[gi]); assert(gm.skip(gi).skip(1) =~= gm.skip(gi + 1)); }
        }
//@proof loop 0 end
        proof { gi = gi + 1; }
//@end
// ------------------------------------------------------------ one choice
pub open spec fn kinds_before(m: Seq<Entry>, n: nat) -> nat decreases n { if n == 0 { 0 } else { kinds_before(m, (n - 1) as nat) + (if kind_key(m[n - 1].0) { 1nat } else { 0 }) } }
/// an accepted document gives exactly one of the three keys, and the kind is that one
pub proof fn theorem_one_kind(m: Seq<Entry>, n: nat)
    requires n <= m.len(), cred_fold(m, n) is Some,
    ensures
        kinds_before(m, n) == (if cred_fold(m, n)->0.kind is Some { 1nat } else { 0 }),
        cred_fold(m, n)->0.ext.len() + kinds_before(m, n) == n,
        forall|i: int| 0 <= i < n && kind_key((#[trigger] m[i]).0) ==> cred_fold(m, n)->0.kind == kind_rd(m[i].0, m[i].1),
    decreases n
{ if n > 0 { theorem_one_kind(m, (n - 1) as nat); lemma_kinds(m, (n - 1) as nat); } }
pub proof fn lemma_kinds(m: Seq<Entry>, n: nat)
    requires n <= m.len()
    ensures kinds_before(m, n) == 0 ==> forall|i: int| 0 <= i < n ==> !kind_key((#[trigger] m[i]).0)
    decreases n
{ if n > 0 { lemma_kinds(m, (n - 1) as nat); } }
/// what is written reads back as the same kind and extensions
pub proof fn theorem_credential(c: CredentialSpec)
    requires
        ext_ok(c.extensions.entries()),
        match c.kind { Kind::Config(v) => rt(v), Kind::File(v) => rt(v), Kind::Registry(v) => rt(v) },
    ensures ({
        let m = c.node()->Map_0;
        &&& c.node() is Map
        &&& cred_fold(m, m.len()) == Some(Cred { kind: Some(c.kind), ext: c.extensions.entries() })
    })
{
    broadcast use axiom_extension_key;
    reveal_strlit("config"); reveal_strlit("file"); reveal_strlit("registry");
    assert("config"@.len() != "file"@.len() && "config"@.len() != "registry"@.len() && "file"@.len() != "registry"@.len());
    assert("config"@[0] != 'x' && "file"@[0] != 'x' && "registry"@[0] != 'x');
    let m = c.node()->Map_0;
    let x = c.extensions.entries();
    assert(m.len() == x.len() + 1);
    assert(kind_key(m[0].0) && kind_rd(m[0].0, m[0].1) == Some(c.kind));
    assert(cred_fold(m, 0) == Some(Cred { kind: None, ext: seq![] }));
    assert(cred_fold(m, 1) == Some(Cred { kind: Some(c.kind), ext: seq![] }));
    lemma_ext_fold(m, c, x.len());
    assert(x.take(x.len() as int) =~= x);
}
pub proof fn lemma_ext_fold(m: Seq<Entry>, c: CredentialSpec, n: nat)
    requires
        ext_ok(c.extensions.entries()), n <= c.extensions.entries().len(), m.len() == c.extensions.entries().len() + 1,
        cred_fold(m, 1) == Some(Cred { kind: Some(c.kind), ext: seq![] }),
        forall|i: int| 0 <= i < c.extensions.entries().len() ==> m[i + 1] == (#[trigger] ext_entries(c.extensions.entries())[i]),
    ensures cred_fold(m, (n + 1) as nat) == Some(Cred { kind: Some(c.kind), ext: c.extensions.entries().take(n as int) })
    decreases n
{
    broadcast use axiom_extension_key;
    let x = c.extensions.entries();
    if n == 0 { assert(x.take(0) =~= seq![]); }
    else {
        lemma_ext_fold(m, c, (n - 1) as nat);
        reveal_strlit("config"); reveal_strlit("file"); reveal_strlit("registry");
        assert("config"@[0] != 'x' && "file"@[0] != 'x' && "registry"@[0] != 'x');
        let i = n - 1;
        assert(m[i + 1] == ext_entries(x)[i]);
        assert(x[i].0.key()[0] == 'x');
        assert(!kind_key(m[i + 1].0));
        let t = x.take(i);
        assert(!ext_has(t, x[i].0.key())) by { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0.key() != x[i].0.key() by { assert(t[j] == x[j]); } }
        assert(x.take(n as int) =~= t.push(x[i]));
        assert(t.push((x[i].0, x[i].1)) =~= t.push(x[i]));
    }
}
} // verus!
fn main() {}
