// Shared prelude: models and trusted contracts of the std items the extracted code calls.
// Everything marked `external_body` / `assume_specification` here is part of the trusted base and
// is listed in the evidence by a mechanical scan.
//@rename Formatter => Fmt
//@rename fmt::Formatter => Fmt
//@rename std::fmt::Formatter => Fmt
//@rename fmt::Result => FmtResult
//@rename std::fmt::Result => FmtResult
//@rename fmt::Error => FmtError
//@rename mem::replace => x_replace
//@rename std::mem::replace => x_replace
//@rename mem::take => x_take
//@rename std::mem::take => x_take
#![allow(unused)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::cmp::*;

verus! {

// ------------------------------------------------------------------ characters
pub open spec fn spec_is_ascii_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn spec_is_ascii_lowercase(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn spec_is_ascii_uppercase(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn spec_is_ascii_alphabetic(c: char) -> bool { spec_is_ascii_lowercase(c) || spec_is_ascii_uppercase(c) }
pub open spec fn spec_is_ascii_alphanumeric(c: char) -> bool { spec_is_ascii_alphabetic(c) || spec_is_ascii_digit(c) }
pub open spec fn spec_is_ascii_hexdigit(c: char) -> bool { spec_is_ascii_digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn spec_is_ascii(c: char) -> bool { (c as u32) < 128 }
pub open spec fn spec_is_whitespace(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub uninterp spec fn spec_is_alphanumeric(c: char) -> bool;
pub uninterp spec fn spec_is_alphabetic(c: char) -> bool;
pub uninterp spec fn spec_is_numeric(c: char) -> bool;
pub uninterp spec fn spec_is_control(c: char) -> bool;
pub uninterp spec fn spec_is_lowercase(c: char) -> bool;
pub uninterp spec fn spec_is_uppercase(c: char) -> bool;
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == spec_is_ascii_digit(*c);
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == spec_is_ascii_lowercase(*c);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == spec_is_ascii_uppercase(*c);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == spec_is_ascii_alphabetic(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == spec_is_ascii_alphanumeric(*c);
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool) ensures r == spec_is_ascii_hexdigit(*c);
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == spec_is_ascii(*c);
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == spec_is_alphanumeric(c);
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == spec_is_alphabetic(c);
pub assume_specification [char::is_numeric] (c: char) -> (r: bool) ensures r == spec_is_numeric(c);
pub assume_specification [char::is_control] (c: char) -> (r: bool) ensures r == spec_is_control(c);
pub assume_specification [char::is_lowercase] (c: char) -> (r: bool) ensures r == spec_is_lowercase(c);
pub assume_specification [char::is_uppercase] (c: char) -> (r: bool) ensures r == spec_is_uppercase(c);

// ------------------------------------------------------------------ UTF-8 offsets
pub open spec fn clen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// byte length of a text
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
/// byte offset `b` of `s` is the boundary before character `k`
pub open spec fn is_bnd(s: Seq<char>, b: nat, k: int) -> bool {
    0 <= k <= s.len() && blen(s.take(k)) == b
}
pub open spec fn bnd_ok(s: Seq<char>, b: nat) -> bool { exists|k: int| is_bnd(s, b, k) }
pub open spec fn has_c(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
/// `k` is the first position of `c` in `s`
pub open spec fn first_c(s: Seq<char>, c: char, k: int) -> bool {
    0 <= k < s.len() && s[k] == c && forall|j: int| 0 <= j < k ==> s[j] != c
}
/// `k` is the last position of `c` in `s`
pub open spec fn last_c(s: Seq<char>, c: char, k: int) -> bool {
    0 <= k < s.len() && s[k] == c && forall|j: int| k < j < s.len() ==> s[j] != c
}
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool {
    p.len() <= s.len() && s.skip(s.len() - p.len()) == p
}
/// `k` is the first position where `p` occurs in `s`
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, k: int) -> bool {
    0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p
}
pub open spec fn first_s(s: Seq<char>, p: Seq<char>, k: int) -> bool {
    occurs_at(s, p, k) && forall|j: int| 0 <= j < k ==> !occurs_at(s, p, j)
}

/// index of the first `c`, or the length
pub open spec fn idx_c(s: Seq<char>, c: char) -> nat decreases s.len() {
    if s.len() == 0 || s[0] == c { 0 } else { 1 + idx_c(s.skip(1), c) }
}
/// index of the last `c`, or -1
pub open spec fn ridx_c(s: Seq<char>, c: char) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { ridx_c(s.drop_last(), c) }
}
/// the pieces between the separators
pub open spec fn split_c(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = idx_c(s, c) as int;
    if k >= s.len() { seq![s] } else { seq![s.take(k)] + split_c(s.skip(k + 1), c) }
}
/// the pieces, without an empty last one
pub open spec fn split_t(s: Seq<char>, c: char) -> Seq<Seq<char>> {
    let p = split_c(s, c);
    if p.last().len() == 0 { p.drop_last() } else { p }
}
/// at most `n` pieces, the last one holding the rest
pub open spec fn split_n(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>> decreases n {
    let k = idx_c(s, c) as int;
    if n == 0 { seq![] } else if n == 1 || k >= s.len() { seq![s] } else { seq![s.take(k)] + split_n(s.skip(k + 1), (n - 1) as nat, c) }
}
pub proof fn lemma_idx(s: Seq<char>, c: char)
    ensures idx_c(s, c) <= s.len(), forall|i: int| 0 <= i < idx_c(s, c) ==> s[i] != c,
        has_c(s, c) <==> idx_c(s, c) < s.len(), idx_c(s, c) < s.len() ==> s[idx_c(s, c) as int] == c,
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1);
        lemma_idx(t, c);
        assert forall|i: int| 0 <= i < idx_c(s, c) implies s[i] != c by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if has_c(s, c) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
            assert(t[i - 1] == c);
        }
        if idx_c(t, c) < t.len() { assert(t[idx_c(t, c) as int] == s[idx_c(s, c) as int]); }
    }
}
pub proof fn lemma_idx_at(s: Seq<char>, c: char, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|i: int| 0 <= i < k ==> s[i] != c,
    ensures idx_c(s, c) == k
{
    lemma_idx(s, c);
}
pub proof fn lemma_ridx(s: Seq<char>, c: char)
    ensures -1 <= ridx_c(s, c) < s.len(), forall|i: int| ridx_c(s, c) < i < s.len() ==> s[i] != c,
        has_c(s, c) <==> ridx_c(s, c) >= 0, ridx_c(s, c) >= 0 ==> s[ridx_c(s, c)] == c,
    decreases s.len()
{
    if s.len() > 0 && s.last() != c {
        let t = s.drop_last();
        lemma_ridx(t, c);
        if has_c(s, c) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
            assert(t[i] == c);
        }
        if ridx_c(t, c) >= 0 { assert(s[ridx_c(t, c)] == c); }
        assert forall|i: int| ridx_c(s, c) < i < s.len() implies s[i] != c by { if i < s.len() - 1 { assert(t[i] == s[i]); } }
    }
}
pub proof fn lemma_ridx_at(s: Seq<char>, c: char, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|i: int| k < i < s.len() ==> s[i] != c,
    ensures ridx_c(s, c) == k
{
    lemma_ridx(s, c);
}
/// std `str` methods (trusted contracts).
pub trait XStr {
    spec fn sv(&self) -> Seq<char>;
    fn x_find_c(&self, c: char) -> (r: Option<usize>)
        ensures
            r is None <==> !has_c(self.sv(), c),
            r matches Some(b) ==> exists|k: int| #[trigger] is_bnd(self.sv(), b as nat, k) && first_c(self.sv(), c, k);
    fn x_rfind_c(&self, c: char) -> (r: Option<usize>)
        ensures
            r is None <==> !has_c(self.sv(), c),
            r matches Some(b) ==> exists|k: int| #[trigger] is_bnd(self.sv(), b as nat, k) && last_c(self.sv(), c, k);
    fn x_find_c2(&self, c: char, d: char) -> (r: Option<usize>)
        ensures
            r is None <==> !has_c(self.sv(), c) && !has_c(self.sv(), d),
            r matches Some(b) ==> exists|k: int| #[trigger] is_bnd(self.sv(), b as nat, k)
                && 0 <= k < self.sv().len() && (self.sv()[k] == c || self.sv()[k] == d)
                && forall|j: int| 0 <= j < k ==> self.sv()[j] != c && self.sv()[j] != d;
    fn x_find_f<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|c: char| f.requires((c,)),
        ensures
            r is None ==> forall|j: int| 0 <= j < self.sv().len() ==> f.ensures((#[trigger] self.sv()[j],), false),
            r matches Some(b) ==> exists|k: int| #[trigger] is_bnd(self.sv(), b as nat, k) && 0 <= k < self.sv().len()
                && f.ensures((self.sv()[k],), true)
                && forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] self.sv()[j],), false);
    fn x_contains_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,)),
        ensures
            !r ==> forall|j: int| 0 <= j < self.sv().len() ==> f.ensures((#[trigger] self.sv()[j],), false),
            r ==> exists|k: int| 0 <= k < self.sv().len() && f.ensures((#[trigger] self.sv()[k],), true);
    fn x_starts_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,)),
        ensures
            self.sv().len() == 0 ==> !r,
            self.sv().len() > 0 ==> f.ensures((self.sv()[0],), r);
    fn x_ends_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,)),
        ensures
            self.sv().len() == 0 ==> !r,
            self.sv().len() > 0 ==> f.ensures((self.sv().last(),), r);
    fn x_contains_c(&self, c: char) -> (r: bool)
        ensures r == has_c(self.sv(), c);
    fn x_contains_s(&self, p: &str) -> (r: bool)
        ensures r == exists|k: int| #[trigger] occurs_at(self.sv(), p@, k);
    fn x_starts_with_c(&self, c: char) -> (r: bool)
        ensures r == (self.sv().len() > 0 && self.sv()[0] == c);
    fn x_ends_with_c(&self, c: char) -> (r: bool)
        ensures r == (self.sv().len() > 0 && self.sv().last() == c);
    fn x_starts_with_s(&self, p: &str) -> (r: bool)
        ensures r == is_prefix(p@, self.sv());
    fn x_ends_with_s(&self, p: &str) -> (r: bool)
        ensures r == is_suffix(p@, self.sv());
    fn x_split_at(&self, b: usize) -> (r: (&str, &str))
        requires bnd_ok(self.sv(), b as nat),
        ensures forall|k: int| #[trigger] is_bnd(self.sv(), b as nat, k) ==> r.0@ == self.sv().take(k) && r.1@ == self.sv().skip(k);
    fn x_split_once_c(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r is None <==> !has_c(self.sv(), c),
            r matches Some((a, b)) ==> !has_c(a@, c) && self.sv() == a@ + seq![c] + b@
                && a@ == self.sv().take(idx_c(self.sv(), c) as int) && b@ == self.sv().skip(idx_c(self.sv(), c) as int + 1);
    fn x_rsplit_once_c(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r is None <==> !has_c(self.sv(), c),
            r matches Some((a, b)) ==> !has_c(b@, c) && self.sv() == a@ + seq![c] + b@
                && a@ == self.sv().take(ridx_c(self.sv(), c)) && b@ == self.sv().skip(ridx_c(self.sv(), c) + 1);
    fn x_split_once_s(&self, p: &str) -> (r: Option<(&str, &str)>)
        ensures
            r is None <==> forall|k: int| !occurs_at(self.sv(), p@, k),
            r matches Some((a, b)) ==> self.sv() == a@ + p@ + b@ && first_s(self.sv(), p@, a@.len() as int);
    fn x_split_c(&self, c: char) -> (r: Vec<&str>)
        ensures
            r@.len() == split_c(self.sv(), c).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_c(self.sv(), c)[i];
    fn x_split_terminator_c(&self, c: char) -> (r: Vec<&str>)
        ensures
            r@.len() == split_t(self.sv(), c).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_t(self.sv(), c)[i];
    fn x_splitn_c(&self, n: usize, c: char) -> (r: Vec<&str>)
        ensures
            r@.len() == split_n(self.sv(), n as nat, c).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_n(self.sv(), n as nat, c)[i];
    fn x_strip_prefix_c(&self, c: char) -> (r: Option<&str>)
        ensures
            r is Some <==> self.sv().len() > 0 && self.sv()[0] == c,
            r matches Some(t) ==> t@ == self.sv().skip(1) && self.sv() == seq![c] + t@;
    fn x_strip_prefix_s(&self, p: &str) -> (r: Option<&str>)
        ensures
            r is Some <==> is_prefix(p@, self.sv()),
            r matches Some(t) ==> self.sv() == p@ + t@ && t@ == self.sv().skip(p@.len() as int);
    fn x_strip_suffix_c(&self, c: char) -> (r: Option<&str>)
        ensures
            r is Some <==> self.sv().len() > 0 && self.sv().last() == c,
            r matches Some(t) ==> t@ == self.sv().drop_last();
    fn x_strip_suffix_c2(&self, c: char, d: char) -> (r: Option<&str>)
        ensures
            r is Some <==> self.sv().len() > 0 && (self.sv().last() == c || self.sv().last() == d),
            r matches Some(t) ==> t@ == self.sv().drop_last();
    fn x_strip_suffix_s(&self, p: &str) -> (r: Option<&str>)
        ensures
            r is Some <==> is_suffix(p@, self.sv()),
            r matches Some(t) ==> self.sv() == t@ + p@ && t@ == self.sv().take(self.sv().len() - p@.len());
    fn x_slice_to(&self, b: usize) -> (r: &str)
        requires bnd_ok(self.sv(), b as nat),
        ensures forall|k: int| #[trigger] is_bnd(self.sv(), b as nat, k) ==> r@ == self.sv().take(k),
            ascii(self.sv()) ==> r@ == self.sv().take(b as int);
    fn x_slice_from(&self, b: usize) -> (r: &str)
        requires bnd_ok(self.sv(), b as nat),
        ensures forall|k: int| #[trigger] is_bnd(self.sv(), b as nat, k) ==> r@ == self.sv().skip(k),
            ascii(self.sv()) ==> r@ == self.sv().skip(b as int);
    fn x_slice(&self, a: usize, b: usize) -> (r: &str)
        requires
            a <= b,
            bnd_ok(self.sv(), a as nat),
            bnd_ok(self.sv(), b as nat),
        ensures forall|j: int, k: int| #[trigger] is_bnd(self.sv(), a as nat, j) && #[trigger] is_bnd(self.sv(), b as nat, k) ==> r@ == self.sv().subrange(j, k);
    fn x_to_owned(&self) -> (r: String)
        ensures r@ == self.sv();
    fn x_len(&self) -> (r: usize)
        ensures r as nat == blen(self.sv()), r <= isize::MAX;
    fn x_chars_vec(&self) -> (r: Vec<char>)
        ensures r@ == self.sv();
    fn x_take_chars(&self, k: usize) -> (r: &str)
        requires k <= self.sv().len(),
        ensures r@ == self.sv().take(k as int);
    fn x_skip_chars(&self, k: usize) -> (r: &str)
        requires k <= self.sv().len(),
        ensures r@ == self.sv().skip(k as int);
    fn x_parse<T: XFromStr>(&self) -> (r: Result<T, T::E>)
        ensures T::x_parse_post(self.sv(), r);
}

impl XStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_find_c(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body] fn x_rfind_c(&self, c: char) -> (r: Option<usize>) { self.rfind(c) }
    #[verifier::external_body] fn x_find_c2(&self, c: char, d: char) -> (r: Option<usize>) { self.find([c, d]) }
    #[verifier::external_body] fn x_find_f<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) { self.find(f) }
    #[verifier::external_body] fn x_contains_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { self.contains(f) }
    #[verifier::external_body] fn x_starts_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { self.starts_with(f) }
    #[verifier::external_body] fn x_ends_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_contains_c(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body] fn x_contains_s(&self, p: &str) -> (r: bool) { self.contains(p) }
    #[verifier::external_body] fn x_starts_with_c(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body] fn x_ends_with_c(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn x_starts_with_s(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn x_ends_with_s(&self, p: &str) -> (r: bool) { self.ends_with(p) }
    #[verifier::external_body] fn x_split_at(&self, b: usize) -> (r: (&str, &str)) { self.split_at(b) }
    #[verifier::external_body] fn x_split_once_c(&self, c: char) -> (r: Option<(&str, &str)>) { self.split_once(c) }
    #[verifier::external_body] fn x_rsplit_once_c(&self, c: char) -> (r: Option<(&str, &str)>) { self.rsplit_once(c) }
    #[verifier::external_body] fn x_split_once_s(&self, p: &str) -> (r: Option<(&str, &str)>) { self.split_once(p) }
    #[verifier::external_body] fn x_split_c(&self, c: char) -> (r: Vec<&str>) { self.split(c).collect() }
    #[verifier::external_body] fn x_split_terminator_c(&self, c: char) -> (r: Vec<&str>) { self.split_terminator(c).collect() }
    #[verifier::external_body] fn x_splitn_c(&self, n: usize, c: char) -> (r: Vec<&str>) { self.splitn(n, c).collect() }
    #[verifier::external_body] fn x_strip_prefix_c(&self, c: char) -> (r: Option<&str>) { self.strip_prefix(c) }
    #[verifier::external_body] fn x_strip_prefix_s(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body] fn x_strip_suffix_c(&self, c: char) -> (r: Option<&str>) { self.strip_suffix(c) }
    #[verifier::external_body] fn x_strip_suffix_c2(&self, c: char, d: char) -> (r: Option<&str>) { self.strip_suffix([c, d]) }
    #[verifier::external_body] fn x_strip_suffix_s(&self, p: &str) -> (r: Option<&str>) { self.strip_suffix(p) }
    #[verifier::external_body] fn x_slice_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body] fn x_slice_from(&self, b: usize) -> (r: &str) { &self[b..] }
    #[verifier::external_body] fn x_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn x_to_owned(&self) -> (r: String) { self.to_owned() }
    #[verifier::external_body] fn x_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn x_chars_vec(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn x_take_chars(&self, k: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_skip_chars(&self, k: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn x_parse<T: XFromStr>(&self) -> (r: Result<T, T::E>) { T::x_from_str(self) }
}

/// `String` edits (trusted contracts)
pub trait XString {
    spec fn ssv(&self) -> Seq<char>;
    fn x_replace_to(&mut self, b: usize, t: &str)
        requires bnd_ok(old(self).ssv(), b as nat),
        ensures forall|k: int| #[trigger] is_bnd(old(self).ssv(), b as nat, k) ==> final(self).ssv() == t@ + old(self).ssv().skip(k),
            ascii(old(self).ssv()) ==> final(self).ssv() == t@ + old(self).ssv().skip(b as int);
    fn x_replace_from(&mut self, b: usize, t: &str)
        requires bnd_ok(old(self).ssv(), b as nat),
        ensures forall|k: int| #[trigger] is_bnd(old(self).ssv(), b as nat, k) ==> final(self).ssv() == old(self).ssv().take(k) + t@,
            ascii(old(self).ssv()) ==> final(self).ssv() == old(self).ssv().take(b as int) + t@;
    fn x_truncate(&mut self, b: usize)
        requires b > blen(old(self).ssv()) || bnd_ok(old(self).ssv(), b as nat),
        ensures
            b > blen(old(self).ssv()) ==> final(self).ssv() == old(self).ssv(),
            forall|k: int| #[trigger] is_bnd(old(self).ssv(), b as nat, k) ==> final(self).ssv() == old(self).ssv().take(k),
            ascii(old(self).ssv()) && b <= old(self).ssv().len() ==> final(self).ssv() == old(self).ssv().take(b as int);
    fn x_push(&mut self, c: char)
        ensures final(self).ssv() == old(self).ssv().push(c);
    fn x_push_str(&mut self, t: &str)
        ensures final(self).ssv() == old(self).ssv() + t@;
}
impl XString for String {
    open spec fn ssv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_replace_to(&mut self, b: usize, t: &str) { self.replace_range(..b, t) }
    #[verifier::external_body] fn x_replace_from(&mut self, b: usize, t: &str) { self.replace_range(b.., t) }
    #[verifier::external_body] fn x_truncate(&mut self, b: usize) { self.truncate(b) }
    #[verifier::external_body] fn x_push(&mut self, c: char) { self.push(c) }
    #[verifier::external_body] fn x_push_str(&mut self, t: &str) { self.push_str(t) }
}
#[verifier::external_body]
pub fn x_string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n.min(1 << 20)) }
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
#[verifier::external_body]
pub fn x_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
pub trait XDefault: Sized {
    spec fn x_default_spec() -> Self;
    fn x_default() -> (r: Self) ensures r == Self::x_default_spec();
}
impl XDefault for usize {
    open spec fn x_default_spec() -> usize { 0 }
    fn x_default() -> (r: usize) { 0 }
}
/// byte and character positions agree in a text of ASCII characters
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> spec_is_ascii(#[trigger] s[i]) }
pub proof fn lemma_ascii(s: Seq<char>)
    requires ascii(s),
    ensures blen(s) == s.len(), forall|b: nat, k: int| #[trigger] is_bnd(s, b, k) <==> (b == k && 0 <= k <= s.len()),
        forall|b: nat| (#[trigger] bnd_ok(s, b) <==> b <= s.len()) && (b <= s.len() ==> is_bnd(s, b, b as int)),
{
    lemma_blen(s);
    assert forall|b: nat, k: int| #[trigger] is_bnd(s, b, k) <==> (b == k && 0 <= k <= s.len()) by {
        if 0 <= k <= s.len() {
            assert forall|i: int| 0 <= i < s.take(k).len() implies spec_is_ascii(#[trigger] s.take(k)[i]) by { assert(s.take(k)[i] == s[i]); }
            lemma_blen(s.take(k));
        }
    }
    assert forall|b: nat| (#[trigger] bnd_ok(s, b) <==> b <= s.len()) && (b <= s.len() ==> is_bnd(s, b, b as int)) by { if b <= s.len() { assert(is_bnd(s, b, b as int)); } }
}

/// every text fits in memory, and a character takes at least one byte
#[verifier::external_body]
pub proof fn x_str_bound(s: &str) ensures s@.len() <= blen(s@) <= isize::MAX { }
#[verifier::external_body]
pub proof fn x_string_bound(s: &String) ensures s@.len() <= blen(s@) <= isize::MAX { }
pub proof fn lemma_blen(s: Seq<char>)
    ensures s.len() <= blen(s), (forall|i: int| 0 <= i < s.len() ==> spec_is_ascii(#[trigger] s[i])) ==> blen(s) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_blen(s.drop_last());
        if forall|i: int| 0 <= i < s.len() ==> spec_is_ascii(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies spec_is_ascii(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); }
            assert(spec_is_ascii(s.last()));
        }
    }
}
/// a string-literal pattern matches by content (trusted: Verus encodes the pattern as value equality)
#[verifier::external_body]
pub proof fn x_str_lit(l: &str) ensures forall|u: &str| #[trigger] u@ == l@ ==> u == l { }
#[verifier::external_body]
pub fn x_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }

/// `FromStr` (trusted contracts for the std integer parsers; proved for the crate's own types).
pub trait XFromStr: Sized {
    type E;
    spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool;
    fn x_from_str(s: &str) -> (r: Result<Self, Self::E>)
        ensures Self::x_parse_post(s@, r);
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);

// ------------------------------------------------------------------ decimal numbers
pub open spec fn dig(c: char) -> nat { if spec_is_ascii_digit(c) { (c as u32 - '0' as u32) as nat } else { 0 } }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> spec_is_ascii_digit(#[trigger] s[i]) }
/// value of a run of digits
pub open spec fn dval(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + dig(s.last()) }
}
pub open spec fn digit_char(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
/// decimal text of a number
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit_char(n)] } else { dec(n / 10).push(digit_char(n % 10)) }
}
/// what the std unsigned parsers accept: an optional `+`, then at least one digit, value in range
pub open spec fn uint_digits(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s }
}
pub open spec fn parse_uint(s: Seq<char>, max: nat) -> Option<nat> {
    let d = uint_digits(s);
    if d.len() > 0 && all_digits(d) && dval(d) <= max { Some(dval(d)) } else { None }
}
pub proof fn lemma_uint_ascii(s: Seq<char>, max: nat)
    ensures parse_uint(s, max) is Some ==> ascii(s) && s.len() > 0 && !has_c(s, '-') && !has_c(s, ':') && !has_c(s, '/') && !has_c(s, '.')
{
    if parse_uint(s, max) is Some {
        assert forall|i: int| 0 <= i < s.len() implies (spec_is_ascii_digit(#[trigger] s[i]) || s[i] == '+') by {
            let d = uint_digits(s);
            if d.len() < s.len() { if i > 0 { assert(d[i - 1] == s[i]); } } else { assert(d[i] == s[i]); }
        }
    }
}
pub proof fn lemma_uint_digit(s: Seq<char>, max: nat)
    ensures parse_uint(s, max) is Some ==> forall|i: int| 0 <= i < s.len() ==> spec_is_ascii_digit(#[trigger] s[i]) || s[i] == '+'
{
    if parse_uint(s, max) is Some {
        assert forall|i: int| 0 <= i < s.len() implies (spec_is_ascii_digit(#[trigger] s[i]) || s[i] == '+') by {
            let d = uint_digits(s);
            if d.len() < s.len() { if i > 0 { assert(d[i - 1] == s[i]); } } else { assert(d[i] == s[i]); }
        }
    }
}
pub proof fn lemma_dec(n: nat)
    ensures all_digits(dec(n)), dec(n).len() > 0, dval(dec(n)) == n, n > 0 ==> dec(n)[0] != '0',
            parse_uint(dec(n), n) == Some(n),
            !has_c(dec(n), '+'), !has_c(dec(n), '-'), !has_c(dec(n), ':'),
    decreases n,
{
    lemma_dec0(n);
    let d = dec(n);
    assert(spec_is_ascii_digit(d[0]));
}
pub proof fn lemma_dec0(n: nat)
    ensures all_digits(dec(n)), dec(n).len() > 0, dval(dec(n)) == n, n > 0 ==> dec(n)[0] != '0',
    decreases n,
{
    reveal_with_fuel(dval, 2);
    if n >= 10 {
        lemma_dec0(n / 10);
        let d = dec(n / 10);
        let e = dec(n);
        assert(e == d.push(digit_char(n % 10)));
        assert(e.drop_last() =~= d);
        assert(e[0] == d[0]);
        assert forall|i: int| 0 <= i < e.len() implies spec_is_ascii_digit(#[trigger] e[i]) by {
            if i < d.len() { assert(e[i] == d[i]); } else { assert(e[i] == digit_char(n % 10)); }
        }
    } else {
        let e = dec(n);
        assert(e.drop_last() =~= Seq::<char>::empty());
        assert(e.last() == digit_char(n));
    }
}
pub proof fn lemma_dval_append(s: Seq<char>, c: char)
    ensures dval(s.push(c)) == dval(s) * 10 + dig(c)
{
    assert(s.push(c).drop_last() =~= s);
}
macro_rules! uint_from_str {
    ($($t:ident),*) => { verus! { $(
        impl XFromStr for $t {
            type E = core::num::ParseIntError;
            open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool {
                match parse_uint(s, $t::MAX as nat) {
                    Some(n) => r matches Ok(v) && v as nat == n,
                    None => r is Err,
                }
            }
            #[verifier::external_body]
            fn x_from_str(s: &str) -> (r: Result<Self, Self::E>) { s.parse() }
        }
    )* } }
}
uint_from_str!(u8, u16, u32, u64);

#[verifier::external_body]
pub fn x_itoa(v: u64) -> (r: String) ensures r@ == dec(v as nat) { v.to_string() }

// ------------------------------------------------------------------ formatting
/// A text sink (`fmt::Formatter` writing into a growing buffer; trusted: it does not fail).
#[verifier::external_body]
pub struct Fmt { s: String }
impl View for Fmt {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
impl Fmt {
    #[verifier::external_body]
    pub fn x_new() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { Fmt { s: String::new() } }
    #[verifier::external_body]
    pub fn write_str(&mut self, t: &str) -> (r: FmtResult) ensures r is Ok, final(self)@ == old(self)@ + t@ { self.s.push_str(t); Ok(()) }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult) ensures r is Ok, final(self)@ == old(self)@.push(c) { self.s.push(c); Ok(()) }
    #[verifier::external_body]
    pub fn x_into_string(self) -> (r: String) ensures r@ == self@ { self.s }
}
pub fn x_fmt_ok() -> (r: FmtResult) ensures r is Ok { Ok(()) }
pub trait XDisplay {
    spec fn x_disp(&self) -> Seq<char>;
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult)
        ensures r is Ok, final(f)@ == old(f)@ + self.x_disp();
}
impl XDisplay for str {
    open spec fn x_disp(&self) -> Seq<char> { self@ }
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { f.write_str(self) }
}
impl XDisplay for String {
    open spec fn x_disp(&self) -> Seq<char> { self@ }
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { f.write_str(self.as_str()) }
}
impl XDisplay for char {
    open spec fn x_disp(&self) -> Seq<char> { seq![*self] }
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { let r = f.write_char(*self); proof { assert(old(f)@.push(*self) =~= old(f)@ + seq![*self]); } r }
}
impl<T: XDisplay + ?Sized> XDisplay for &T {
    open spec fn x_disp(&self) -> Seq<char> { (**self).x_disp() }
    fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { (**self).x_fmt(f) }
}
macro_rules! uint_display {
    ($($t:ident),*) => { verus! { $(
        impl XDisplay for $t {
            open spec fn x_disp(&self) -> Seq<char> { dec(*self as nat) }
            #[verifier::external_body]
            fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { f.s.push_str(&self.to_string()); Ok(()) }
        }
    )* } }
}
uint_display!(u8, u16, u32, u64, usize);

#[verifier::external_body]
pub fn x_unreachable<T>() -> T requires false { unreachable!() }
pub fn x_assert(b: bool) requires b { }

/// `AsRef<str>` of the std string types
pub trait XAsRefStr {
    spec fn asv(&self) -> Seq<char>;
    fn x_as_ref(&self) -> (r: &str) ensures r@ == self.asv();
}
impl XAsRefStr for str {
    open spec fn asv(&self) -> Seq<char> { self@ }
    fn x_as_ref(&self) -> (r: &str) { self }
}
impl XAsRefStr for String {
    open spec fn asv(&self) -> Seq<char> { self@ }
    fn x_as_ref(&self) -> (r: &str) { self.as_str() }
}
impl XAsRefStr for Box<str> {
    open spec fn asv(&self) -> Seq<char> { self@ }
    fn x_as_ref(&self) -> (r: &str) { &**self }
}

pub trait XOptRef<T> {
    spec fn ov(&self) -> Option<T>;
    fn x_as_ref(&self) -> (r: Option<&T>)
        ensures r is Some <==> self.ov() is Some, r matches Some(x) ==> Some(*x) == self.ov();
}
impl<T> XOptRef<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    fn x_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}

/// an error built from a parse error by the serde layer (content irrelevant to the contracts)
pub struct XErr;
pub fn x_error_chain<T>(e: T) -> (r: XErr) { XErr }

// ------------------------------------------------------------------ conversions
pub trait XInto<U> {
    spec fn x_into_post(self, u: U) -> bool;
    fn x_into(self) -> (u: U) where Self: Sized ensures self.x_into_post(u);
}
pub trait XTryInto<U, E> {
    spec fn x_try_post(self, r: Result<U, E>) -> bool;
    fn x_try_into(self) -> (r: Result<U, E>) where Self: Sized ensures self.x_try_post(r);
}
impl XInto<u64> for u32 {
    open spec fn x_into_post(self, u: u64) -> bool { u == self as u64 }
    fn x_into(self) -> (u: u64) { self as u64 }
}
impl XInto<String> for &str {
    open spec fn x_into_post(self, u: String) -> bool { u@ == self@ }
    fn x_into(self) -> (u: String) { self.x_to_owned() }
}
impl XInto<Box<str>> for &str {
    open spec fn x_into_post(self, u: Box<str>) -> bool { u@ == self@ }
    #[verifier::external_body]
    fn x_into(self) -> (u: Box<str>) { self.into() }
}
impl XInto<String> for String {
    open spec fn x_into_post(self, u: String) -> bool { u@ == self@ }
    fn x_into(self) -> (u: String) { self }
}

} // prelude
