//@method as_ref => x_as_ref
//@method len => x_len
//@method truncate => x_truncate
//@method push => x_push
//@method push_str => x_push_str
//@rename String::with_capacity => x_string_with_capacity
use std::cmp::Ordering;
use std::num::ParseIntError;
use std::ops::{AddAssign, SubAssign};

// ------------------------------------------------------------ the grammar (property level)
pub open spec fn alnum(c: char) -> bool { spec_is_ascii_lowercase(c) || spec_is_ascii_digit(c) }
pub open spec fn tag_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '.' || c == '_' || c == '-' }
pub open spec fn tag_ok(s: Seq<char>) -> bool { 0 < s.len() <= 128 && forall|i: int| 0 <= i < s.len() ==> tag_char(#[trigger] s[i]) }

pub open spec fn alg_sep(c: char) -> bool { c == '+' || c == '.' || c == '_' || c == '-' }
pub open spec fn enc_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '=' || c == '_' || c == '-' }
/// components of lower-case letters and digits joined by single separators
pub open spec fn alg_ok(s: Seq<char>) -> bool {
    &&& s.len() > 0 && alnum(s[0]) && alnum(s.last())
    &&& forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || alg_sep(s[i])
    &&& forall|i: int| 0 < i < s.len() ==> !(alg_sep(#[trigger] s[i]) && alg_sep(s[i - 1]))
}
pub open spec fn enc_ok(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> enc_char(#[trigger] s[i]) }
/// `algorithm:encoded`
pub open spec fn digest_ok(s: Seq<char>) -> bool {
    let k = idx_c(s, ':') as int;
    has_c(s, ':') && alg_ok(s.take(k)) && enc_ok(s.skip(k + 1))
}

pub open spec fn sep(c: char) -> bool { c == '.' || c == '_' || c == '-' }
/// runs of lower-case letters and digits joined by `.`, `_`, `__` or dashes
pub open spec fn part_ok(s: Seq<char>) -> bool {
    &&& s.len() > 0 && alnum(s[0]) && alnum(s.last())
    &&& seps_ok(s)
}
pub open spec fn seps_ok(s: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || sep(s[i])
    &&& forall|i: int| 0 < i < s.len() && sep(#[trigger] s[i]) && sep(s[i - 1]) ==> s[i] == s[i - 1] && s[i] != '.'
    &&& forall|i: int| 1 < i < s.len() && (#[trigger] s[i]) == '_' && s[i - 1] == '_' ==> s[i - 2] != '_'
}
/// a first part with a dot is a registry and may have a port
pub open spec fn first_ok(s: Seq<char>) -> bool {
    if has_c(s, '.') && has_c(s, ':') {
        let k = idx_c(s, ':') as int;
        part_ok(s.take(k)) && parse_uint(s.skip(k + 1), u16::MAX as nat) is Some
    } else { part_ok(s) }
}
pub open spec fn name_ok(s: Seq<char>) -> bool {
    first_ok(split_c(s, '/')[0]) && forall|i: int| 1 <= i < split_c(s, '/').len() ==> part_ok(#[trigger] split_c(s, '/')[i])
}
/// where the registry of a name ends
pub open spec fn reg_end(s: Seq<char>) -> Option<nat> {
    let f = split_c(s, '/')[0];
    if has_c(f, '.') { Some(f.len()) } else { None }
}
pub proof fn lemma_first_ascii(s: Seq<char>)
    ensures first_ok(split_c(s, '/')[0]) ==> ascii(split_c(s, '/')[0])
{
    let f = split_c(s, '/')[0];
    lemma_idx(f, ':');
    lemma_uint_ascii(f.skip(idx_c(f, ':') as int + 1), u16::MAX as nat);
    if first_ok(f) && has_c(f, '.') && has_c(f, ':') {
        let k = idx_c(f, ':') as int;
        assert forall|i: int| 0 <= i < f.len() implies spec_is_ascii(#[trigger] f[i]) by {
            if i < k { assert(f.take(k)[i] == f[i]); } else if i > k { assert(f.skip(k + 1)[i - k - 1] == f[i]); }
        }
    }
}
pub proof fn lemma_split_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < split_c(s, '/').len() ==> ascii(#[trigger] split_c(s, '/')[i]),
    ensures ascii(s),
    decreases s.len()
{
    lemma_idx(s, '/');
    let k = idx_c(s, '/') as int;
    let p = split_c(s, '/');
    assert(ascii(p[0]));
    if k < s.len() {
        let t = s.skip(k + 1);
        assert forall|i: int| 0 <= i < split_c(t, '/').len() implies ascii(#[trigger] split_c(t, '/')[i]) by { assert(p[i + 1] == split_c(t, '/')[i]); }
        lemma_split_ascii(t);
        assert(p[0] == s.take(k));
        assert forall|i: int| 0 <= i < s.len() implies spec_is_ascii(#[trigger] s[i]) by {
            if i < k { assert(s.take(k)[i] == s[i]); } else if i > k { assert(t[i - k - 1] == s[i]); }
        }
    }
}
pub proof fn lemma_name_ascii(s: Seq<char>)
    ensures name_ok(s) ==> ascii(s), split_c(s, '/')[0] == s.take(idx_c(s, '/') as int), split_c(s, '/').len() > 0, idx_c(s, '/') <= s.len(),
{
    lemma_idx(s, '/');
    assert(s.take(s.len() as int) =~= s);
    if name_ok(s) { lemma_first_ascii(s); lemma_split_ascii(s); }
}

//@type src/service/image/tag.rs :: Tag | derive=Clone, Copy
//@type src/service/image/tag.rs :: InvalidTagError
//@type src/service/image/digest.rs :: Digest | derive=Clone, Copy
//@type src/service/image/digest.rs :: InvalidDigestError
//@type src/service/image/name.rs :: Name | derive=Clone, Copy
//@type src/service/image/name.rs :: InvalidNamePartError

//@fn src/service/image/tag.rs :: Tag::new | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> tag_ok(tag@), r matches Ok(t) ==> t.0@ == tag@,
//@loop 0
    invariant forall|i: int| 0 <= i < it0.index() ==> tag_char(#[trigger] tag@[i]),
//@proof start
    proof { lemma_blen(tag@); assert(ascii(tag@) ==> blen(tag@) == tag@.len());
        assert((forall|i: int| 0 <= i < tag@.len() ==> tag_char(#[trigger] tag@[i])) ==> ascii(tag@)); }
//@end
//@fn src/service/image/tag.rs :: Tag::new_unchecked
    ensures r.0@ == tag@
//@end
//@fn src/service/image/tag.rs :: Tag::into_inner
    ensures r@ == self.0@
//@end
//@fn src/service/image/tag.rs :: <AsRef<str> for Tag>::as_ref | trait=XAsRefStr | self=Tag<'_> | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn src/service/image.rs :: char_is_alnum  | spec=alnum
    ensures r == alnum(char)
//@end
//@fn src/service/image/digest.rs :: Digest::new | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> digest_ok(digest@), r matches Ok(t) ==> t.0@ == digest@,
//@loop 0
    invariant
        separators == (if it0.index() > 0 && alg_sep(algorithm@[it0.index() - 1]) { 1u8 } else { 0u8 }),
        forall|i: int| 0 <= i < it0.index() ==> alnum(#[trigger] algorithm@[i]) || alg_sep(algorithm@[i]),
        forall|i: int| 0 < i < it0.index() ==> !(alg_sep(#[trigger] algorithm@[i]) && alg_sep(algorithm@[i - 1])),
//@loop 1
    invariant forall|i: int| 0 <= i < it1.index() ==> enc_char(#[trigger] encoded@[i]),
//@end
//@fn src/service/image/digest.rs :: Digest::new_unchecked
    ensures r.0@ == digest@
//@end
//@fn src/service/image/digest.rs :: Digest::into_inner
    ensures r@ == self.0@
//@end
//@fn src/service/image/digest.rs :: <AsRef<str> for Digest>::as_ref | trait=XAsRefStr | self=Digest<'_> | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn src/service/image/name.rs :: validate_part | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> part_ok(part@)
//@loop 0
    invariant
        dots == (if it0.index() > 0 && part@[it0.index() - 1] == '.' { 1u8 } else { 0u8 }),
        underscores == (if it0.index() > 0 && part@[it0.index() - 1] == '_' { if it0.index() > 1 && part@[it0.index() - 2] == '_' { 2u8 } else { 1u8 } } else { 0u8 }),
        prev_char_dash == (it0.index() > 0 && part@[it0.index() - 1] == '-'),
        seps_ok(part@.take(it0.index())),
//@proof before if part . is_empty
    proof { assert(part@.take(part@.len() as int) =~= part@); }
//@end
//@fn src/service/image/name.rs :: Name::new | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> name_ok(name@), r matches Ok(n) ==> n.inner@ == name@ && n.wf(),
//@loop 0
    invariant forall|i: int| 1 <= i < it0.index() + 1 ==> part_ok(#[trigger] split_c(name@, '/')[i]),
//@proof start
    proof { lemma_first_ascii(name@); lemma_name_ascii(name@); lemma_blen(split_c(name@, '/')[0]); }
//@end
//@fn src/service/image/name.rs :: Name::new_unchecked
    ensures r.inner@ == name@, r.registry_end == registry_end,
//@end
//@fn src/service/image/name.rs :: Name::registry_end
    ensures r == self.registry_end
//@end
//@fn src/service/image/name.rs :: Name::registry
    requires self.wf(),
    ensures opt_text(r) == name_reg(self.inner@),
//@proof start
    proof { lemma_name_ascii(self.inner@); lemma_ascii(self.inner@); }
//@end
//@fn src/service/image/name.rs :: Name::into_inner
    ensures r@ == self.inner@
//@end
//@fn src/service/image/name.rs :: <AsRef<str> for Name>::as_ref | trait=XAsRefStr | self=Name<'_> | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.inner@ }
//@end

pub open spec fn opt_nat(o: Option<usize>) -> Option<nat> { match o { Some(n) => Some(n as nat), None => None } }
pub open spec fn opt_text(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// the registry of a name
pub open spec fn name_reg(s: Seq<char>) -> Option<Seq<char>> { match reg_end(s) { Some(n) => Some(s.take(n as int)), None => None } }
impl<'a> Name<'a> {
    /// what the constructor establishes
    pub open spec fn wf(&self) -> bool { name_ok(self.inner@) && opt_nat(self.registry_end) == reg_end(self.inner@) }
}
