//@include prelude.vrs
verus! {
use core::num::ParseIntError;
use vstd::std_specs::iter::IteratorSpec;
/// what `str::split` gives (as in the prelude): the pieces yet to come
pub type XSplitIt<'a> = std::vec::IntoIter<&'a str>;
//@include std_more.inc
//@include to_string.inc
//@rename u8::from_str_radix => x_u8_from_radix
//@rename LowerHex::fmt => x_fmt_x
//@rename Split<char> => XSplitIt
// ------------------------------------------------------------ std's hexadecimal integers (trusted, as documented)
pub open spec fn hex_digit(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn hex_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hex_digit(#[trigger] s[i]) >= 0 }
pub open spec fn hex_num(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hex_num(s.drop_last()) * 16 + hex_digit(s.last()) } }
/// an optional sign and hexadecimal digits, of a number that fits in a byte
pub open spec fn hex_byte(s: Seq<char>) -> Option<u8> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && hex_chars(d) && hex_num(d) <= 255 { Some(hex_num(d) as u8) } else { None }
}
#[verifier::external_body]
pub fn x_u8_from_radix(s: &str, radix: u32) -> (r: Result<u8, ParseIntError>)
    requires radix == 16
    ensures match hex_byte(s@) { Some(n) => r matches Ok(v) && v == n, None => r is Err }
{ u8::from_str_radix(s, radix) }
pub open spec fn low_hex(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' }
    else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
}
pub open spec fn hex_min(b: u8) -> Seq<char> { if b < 16 { seq![low_hex(b as int)] } else { hex_two(b) } }
pub open spec fn hex_two(b: u8) -> Seq<char> { seq![low_hex(b as int / 16), low_hex(b as int % 16)] }
/// `{:x}` of a byte, without flags on the formatter
#[verifier::external_body]
pub fn x_fmt_x(b: &u8, f: &mut Fmt) -> (r: FmtResult) ensures r is Ok, final(f)@ == old(f)@ + hex_min(*b) { unimplemented!() }
/// `{:02x}` of a byte
#[verifier::external_body]
pub fn x_fmt_02x(b: &&u8, f: &mut Fmt) -> (r: FmtResult) ensures r is Ok, final(f)@ == old(f)@ + hex_two(**b) { unimplemented!() }
// ------------------------------------------------------------ MAC addresses: six bytes in hexadecimal between colons
//@type src/service/network_config.rs :: MacAddress | derive=Clone, Copy
//@type src/service/network_config.rs :: ParseMacAddressError
pub open spec fn mac_ok(s: Seq<char>) -> bool {
    let p = split_c(s, ':');
    p.len() == 6 && forall|i: int| 0 <= i < 6 ==> hex_byte(#[trigger] p[i]) is Some
}
pub open spec fn mac_post(s: Seq<char>, r: Result<MacAddress, ParseMacAddressError>) -> bool {
    &&& r is Ok <==> mac_ok(s)
    &&& r matches Ok(m) ==> forall|i: int| 0 <= i < 6 ==> hex_byte(split_c(s, ':')[i]) == Some(#[trigger] m.0@[i])
}
/// every byte but the first has two digits
pub open spec fn mac_rest(b: Seq<u8>) -> Seq<char> decreases b.len() { if b.len() <= 1 { if b.len() == 0 { seq![] } else { hex_min(b[0]) } } else { mac_rest(b.drop_last()) + (seq![':'] + hex_two(b.last())) } }
//@fn src/service/network_config.rs :: parse_next_hex
    ensures
        old(split).remaining().len() == 0 ==> r is Err && (*final(split)).remaining() == old(split).remaining(),
        old(split).remaining().len() > 0 ==> (*final(split)).remaining() == old(split).remaining().skip(1) && (match hex_byte(old(split).remaining()[0]@) { Some(n) => r matches Ok(v) && v == n, None => r is Err }),
//@end
//@fn src/service/network_config.rs :: <FromStr for MacAddress>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseMacAddressError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { mac_post(s, r) }
//@end
//@fn src/service/network_config.rs :: <TryFrom<&str> for MacAddress>::try_from | as=try_from_text
    ensures mac_post(value@, r)
//@end
//@fn src/service/network_config.rs :: <Display for MacAddress>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { mac_rest(self.0@) }
//@proof start
    let ghost l = self.0@;
//@loop 0
    invariant
        l == self.0@, l.len() == 6,
        it0.seq().len() == 5, forall|i: int| 0 <= i < 5 ==> *(#[trigger] it0.seq()[i]) == l[i + 1],
        f@ == old(f)@ + mac_rest(l.take(it0.index() + 1)),
//@proof loop 0 start
    proof {
        let k = it0.index() + 1;
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        assert(l.take(k + 1).last() == l[k]);
        reveal_strlit(":"); assert(":"@ =~= seq![':']);
        assert(*byte == l[k]);
    }
//@proof loop 0 end
    proof { assert(f@ =~= old(f)@ + mac_rest(l.take(it0.index() + 2))); }
//@proof tail
    proof { assert(l.take(6) =~= l); }
//@end
//@fn src/service/network_config.rs :: <From<[u8;6]> for MacAddress>::from | as=from_bytes
    ensures r.0 == value
//@end
//@fn src/service/network_config.rs :: <From<MacAddress> for [u8;6]>::from | as=mac_to_bytes | free | retty=[u8; 6]
    ensures r == value.0
//@end
// ------------------------------------------------------------ printing and reading back
pub proof fn lemma_low(n: int)
    requires 0 <= n < 16
    ensures hex_digit(low_hex(n)) == n, low_hex(n) != ':', low_hex(n) != '+'
{ }
pub proof fn lemma_byte(b: u8)
    ensures
        hex_byte(hex_min(b)) == Some(b), hex_byte(hex_two(b)) == Some(b),
        !has_c(hex_min(b), ':'), !has_c(hex_two(b), ':'),
{
    let (x, y) = (b as int / 16, b as int % 16);
    lemma_low(x); lemma_low(y);
    let t = hex_two(b);
    assert(t.drop_last() =~= seq![low_hex(x)]);
    assert(t.drop_last().drop_last() =~= Seq::<char>::empty());
    assert(hex_num(t.drop_last().drop_last()) == 0);
    assert(hex_num(t.drop_last()) == x);
    assert(hex_num(t) == b);
    assert(hex_chars(t));
    if b < 16 {
        lemma_low(b as int);
        let m = hex_min(b);
        assert(m.drop_last() =~= Seq::<char>::empty());
        assert(hex_num(m.drop_last()) == 0);
        assert(hex_num(m) == b);
        assert(hex_chars(m));
    }
}
pub proof fn lemma_cat_split(a: Seq<char>, b: Seq<char>, c: char)
    ensures split_c(a + seq![c] + b, c) == split_c(a, c) + split_c(b, c)
    decreases a.len()
{
    let s = a + seq![c] + b;
    lemma_idx(a, c);
    let k = idx_c(a, c) as int;
    if k >= a.len() {
        assert(s[a.len() as int] == c);
        assert forall|i: int| 0 <= i < a.len() implies s[i] != c by { assert(s[i] == a[i]); }
        lemma_idx_at(s, c, a.len() as int);
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int + 1) =~= b);
    } else {
        assert(s[k] == c);
        assert forall|i: int| 0 <= i < k implies s[i] != c by { assert(s[i] == a[i]); }
        lemma_idx_at(s, c, k);
        assert(s.take(k) =~= a.take(k));
        assert(s.skip(k + 1) =~= a.skip(k + 1) + seq![c] + b);
        lemma_cat_split(a.skip(k + 1), b, c);
        assert(split_c(s, c) =~= split_c(a, c) + split_c(b, c));
    }
}
pub proof fn lemma_pieces(b: Seq<u8>)
    requires b.len() > 0
    ensures
        split_c(mac_rest(b), ':').len() == b.len(),
        forall|i: int| 0 <= i < b.len() ==> hex_byte(#[trigger] split_c(mac_rest(b), ':')[i]) == Some(b[i]),
    decreases b.len()
{
    if b.len() == 1 {
        lemma_byte(b[0]);
        lemma_idx(hex_min(b[0]), ':');
        assert(split_c(hex_min(b[0]), ':') =~= seq![hex_min(b[0])]);
    } else {
        let t = hex_two(b.last());
        lemma_byte(b.last());
        lemma_idx(t, ':');
        assert(split_c(t, ':') =~= seq![t]);
        lemma_pieces(b.drop_last());
        lemma_cat_split(mac_rest(b.drop_last()), t, ':');
        assert(mac_rest(b) =~= mac_rest(b.drop_last()) + seq![':'] + t);
    }
}
/// what is printed reads back as the same address
pub proof fn theorem_mac(m: MacAddress, r: Result<MacAddress, ParseMacAddressError>)
    requires mac_post(m.x_disp(), r)
    ensures r is Ok, r->Ok_0 == m
{
    lemma_pieces(m.0@);
    let p = split_c(m.x_disp(), ':');
    assert(p.len() == 6);
    assert forall|i: int| 0 <= i < 6 implies hex_byte(#[trigger] p[i]) is Some by { assert(hex_byte(p[i]) == Some(m.0@[i])); }
    let q = r->Ok_0;
    assert forall|i: int| 0 <= i < 6 implies q.0@[i] == m.0@[i] by { assert(hex_byte(p[i]) == Some(m.0@[i])); assert(hex_byte(p[i]) == Some(q.0@[i])); }
    assert(q.0@ =~= m.0@);
    assert(q.0 =~= m.0);
}
//@include text_doc.inc
//@include from_str_doc.inc
//@fn expanded :: service::network_config::<Serialize for MacAddress>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::network_config::<Deserialize for MacAddress>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<MacAddress>(deserializer@, r)
//@end
} // verus!
fn main() {}
