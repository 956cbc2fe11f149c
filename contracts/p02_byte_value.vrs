//@include prelude.vrs
verus! {
use core::num::ParseIntError;
//@rename error_chain => x_error_chain
//@rename crate::serde::error_chain => x_error_chain

//@type src/service/byte_value.rs :: ByteValue
//@type src/service/byte_value.rs :: ParseByteValueError

// ------------------------------------------------------------ property-level definitions
/// the 64-bit count written before unit `u`
pub open spec fn num_with(s: Seq<char>, u: Seq<char>) -> Option<nat> {
    if is_suffix(u, s) { parse_uint(s.take(s.len() - u.len()), u64::MAX as nat) } else { None }
}
pub open spec fn count_of(v: ByteValue) -> nat {
    match v { ByteValue::Bytes(n) => n as nat, ByteValue::Kilobytes(n) => n as nat,
              ByteValue::Megabytes(n) => n as nat, ByteValue::Gigabytes(n) => n as nat }
}
pub open spec fn bytes_of(v: ByteValue) -> nat {
    match v { ByteValue::Bytes(n) => n as nat, ByteValue::Kilobytes(n) => n as nat * 1_000,
              ByteValue::Megabytes(n) => n as nat * 1_000_000, ByteValue::Gigabytes(n) => n as nat * 1_000_000_000 }
}
pub open spec fn unit_of(v: ByteValue) -> Seq<char> {
    match v { ByteValue::Bytes(n) => seq!['b'], ByteValue::Kilobytes(n) => seq!['k', 'b'],
              ByteValue::Megabytes(n) => seq!['m', 'b'], ByteValue::Gigabytes(n) => seq!['g', 'b'] }
}
/// `s` is one of the texts that denote `v`
pub open spec fn denotes(s: Seq<char>, v: ByteValue) -> bool {
    let n = Some(count_of(v));
    match v {
        ByteValue::Bytes(_) => num_with(s, seq![]) == n || num_with(s, seq!['b']) == n || num_with(s, seq!['B']) == n,
        ByteValue::Kilobytes(_) => num_with(s, seq!['k', 'b']) == n || num_with(s, seq!['k']) == n || num_with(s, seq!['K']) == n,
        ByteValue::Megabytes(_) => num_with(s, seq!['m', 'b']) == n || num_with(s, seq!['m']) == n || num_with(s, seq!['M']) == n,
        ByteValue::Gigabytes(_) => num_with(s, seq!['g', 'b']) == n || num_with(s, seq!['g']) == n || num_with(s, seq!['G']) == n,
    }
}
pub open spec fn bv_post<E>(s: Seq<char>, r: Result<ByteValue, E>) -> bool {
    &&& r matches Ok(v) ==> denotes(s, v)
    &&& r is Err ==> forall|v: ByteValue| !denotes(s, v)
}
pub open spec fn bv_text(v: ByteValue) -> Seq<char> { dec(count_of(v)) + unit_of(v) }

/// the last character of a count is a digit
pub broadcast proof fn lemma_num_last(s: Seq<char>, max: nat)
    requires (#[trigger] parse_uint(s, max)) is Some
    ensures s.len() > 0, spec_is_ascii_digit(s.last())
{
    let d = uint_digits(s);
    assert(spec_is_ascii_digit(d[d.len() - 1]));
    assert(d.last() == s.last());
}
pub broadcast proof fn lemma_suffix12(s: Seq<char>, u: Seq<char>)
    requires 1 <= u.len() <= 2
    ensures #[trigger] is_suffix(u, s) == (s.len() >= u.len() && s.last() == u.last() && (u.len() == 2 ==> s[s.len() - 2] == u[0]))
{
    if s.len() >= u.len() {
        let t = s.skip(s.len() - u.len());
        assert(t[t.len() - 1] == s.last());
        if u.len() == 2 { assert(t[0] == s[s.len() - 2]); }
        if s.last() == u.last() && (u.len() == 2 ==> s[s.len() - 2] == u[0]) { assert(t =~= u); }
    }
}
pub broadcast proof fn lemma_suffix0(s: Seq<char>)
    ensures is_suffix(Seq::<char>::empty(), s), #[trigger] num_with(s, Seq::<char>::empty()) == parse_uint(s, u64::MAX as nat)
{ assert(s.skip(s.len() as int) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s); }
pub broadcast group group_bv { lemma_num_last, lemma_suffix12, lemma_suffix0 }

//@fn src/service/byte_value.rs :: parse_u64
    requires forall|n: u64| f.requires((n,)),
    ensures
        r is Ok <==> parse_uint(value@, u64::MAX as nat) is Some,
        r matches Ok(v) ==> f.ensures((parse_uint(value@, u64::MAX as nat)->0 as u64,), v),
//@end

//@fn src/service/byte_value.rs :: ByteValue::into_bytes
    ensures
        r is Some <==> bytes_of(self) <= u64::MAX,
        r matches Some(b) ==> b as nat == bytes_of(self),
//@end

//@fn src/service/byte_value.rs :: ByteValue::unit
    ensures r@ == unit_of(*self)
//@end

//@fn src/service/byte_value.rs :: <Default for ByteValue>::default | as=bv_default
    ensures r == ByteValue::Bytes(0)
//@end

//@fn src/service/byte_value.rs :: <FromStr for ByteValue>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseByteValueError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { bv_post(s, r) }
//@proof start
    broadcast use group_bv;
//@end

//@fn src/service/byte_value.rs :: <Display for ByteValue>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { bv_text(*self) }
//@end

//@type src/service/byte_value.rs :: Visitor
//@fn src/service/byte_value.rs :: <Visitor for Visitor>::visit_u64 | subst=E:XErr
    ensures r matches Ok(b) && b == ByteValue::Bytes(v)
//@end
//@fn src/service/byte_value.rs :: <Visitor for Visitor>::visit_str | subst=E:XErr
    ensures r matches Ok(b) ==> denotes(v@, b), r is Err ==> forall|b: ByteValue| !denotes(v@, b)
//@end

/// a text denotes at most one value
pub proof fn theorem_unique(s: Seq<char>, v: ByteValue, w: ByteValue)
    requires denotes(s, v), denotes(s, w),
    ensures v == w
{
    broadcast use group_bv;
}
/// the printed text denotes the printed value (so parsing it gives the same value back)
pub proof fn theorem_round_trip(v: ByteValue)
    ensures denotes(bv_text(v), v)
{
    broadcast use group_bv;
    let n = count_of(v);
    lemma_dec(n);
    let t = bv_text(v);
    let u = unit_of(v);
    assert(t.skip(t.len() - u.len()) =~= u);
    assert(t.take(t.len() - u.len()) =~= dec(n));
    let d = dec(n);
    assert(spec_is_ascii_digit(d[0]));
    assert(uint_digits(d) == d);
}
} // verus!
fn main() {}
