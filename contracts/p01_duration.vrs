//@include prelude.vrs
verus! {
//@rename Duration::ZERO => x_dur_zero()
//@rename Duration::from_secs => x_dur_from_secs
//@rename Duration::from_millis => x_dur_from_millis
//@rename Duration::from_micros => x_dur_from_micros
use std::time::Duration;

/// total nanoseconds of a duration
pub uninterp spec fn nanos(d: Duration) -> nat;
pub open spec fn MAXN() -> nat { u64::MAX as nat * 1_000_000_000 + 999_999_999 }
#[verifier::external_body]
pub fn x_dur_zero() -> (r: Duration) ensures nanos(r) == 0 { Duration::ZERO }
#[verifier::external_body]
pub fn x_dur_from_secs(v: u64) -> (r: Duration) ensures nanos(r) == v as nat * 1_000_000_000 { Duration::from_secs(v) }
#[verifier::external_body]
pub fn x_dur_from_millis(v: u64) -> (r: Duration) ensures nanos(r) == v as nat * 1_000_000 { Duration::from_millis(v) }
#[verifier::external_body]
pub fn x_dur_from_micros(v: u64) -> (r: Duration) ensures nanos(r) == v as nat * 1_000 { Duration::from_micros(v) }
pub assume_specification [Duration::as_secs] (d: &Duration) -> (r: u64)
    ensures r as nat == nanos(*d) / 1_000_000_000, nanos(*d) <= MAXN();
pub assume_specification [Duration::subsec_micros] (d: &Duration) -> (r: u32)
    ensures r as nat == (nanos(*d) % 1_000_000_000) / 1_000;
pub assume_specification [Duration::checked_add] (d: Duration, e: Duration) -> (r: Option<Duration>)
    ensures r is Some <==> nanos(d) + nanos(e) <= MAXN(), r matches Some(x) ==> nanos(x) == nanos(d) + nanos(e);

//@const src/duration.rs :: MICROSECONDS_PER_MILLISECOND
//@const src/duration.rs :: SECONDS_PER_MINUTE
//@const src/duration.rs :: MINUTES_PER_HOUR
//@const src/duration.rs :: SECONDS_PER_HOUR
//@type src/duration.rs :: ParseDurationError

// ------------------------------------------------------------ property-level definitions
/// nanoseconds of `v` units, `None` when the text is not a unit
pub open spec fn group_nanos(v: nat, u: Seq<char>) -> Option<nat> {
    if u =~= seq!['h'] { Some(v * 3_600_000_000_000) }
    else if u =~= seq!['m'] { Some(v * 60_000_000_000) }
    else if u =~= seq!['s'] { Some(v * 1_000_000_000) }
    else if u =~= seq!['m', 's'] { Some(v * 1_000_000) }
    else if u =~= seq!['u', 's'] { Some(v * 1_000) }
    else { None }
}
/// length of the maximal digit / non-digit prefix
pub open spec fn ndig(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 || !spec_is_ascii_digit(s[0]) { 0 } else { 1 + ndig(s.skip(1)) }
}
pub open spec fn nnon(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 || spec_is_ascii_digit(s[0]) { 0 } else { 1 + nnon(s.skip(1)) }
}
/// The duration format: groups of a 64-bit count and a unit; the value is the exact sum.
pub open spec fn dur_parse(s: Seq<char>, acc: nat) -> Option<nat> decreases s.len() {
    if s.len() == 0 { Some(acc) } else {
        let k = ndig(s) as int;
        if k <= 0 || k >= s.len() { None } else {
            let v = dval(s.take(k));
            let rest = s.skip(k);
            let m = nnon(rest) as int;
            if v > u64::MAX || m > rest.len() { None } else {
                match group_nanos(v, rest.take(m)) {
                    None => None,
                    Some(n) => if acc + n > MAXN() { None } else { dur_parse(rest.skip(m), acc + n) },
                }
            }
        }
    }
}
pub open spec fn piece(v: nat, u: Seq<char>) -> Seq<char> { if v == 0 { Seq::empty() } else { dec(v) + u } }
/// canonical text of a duration, largest unit first, sub-microsecond part dropped
pub open spec fn dur_fmt(n: nat) -> Seq<char> {
    let s = n / 1_000_000_000;
    let us = (n % 1_000_000_000) / 1_000;
    let t = piece(s / 3600, seq!['h']) + piece(s % 3600 / 60, seq!['m']) + piece(s % 60, seq!['s'])
        + piece(us / 1000, seq!['m', 's']) + piece(us % 1000, seq!['u', 's']);
    if t.len() == 0 { seq!['0', 's'] } else { t }
}

pub proof fn lemma_ndig(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> spec_is_ascii_digit(#[trigger] s[j]),
             k < s.len() ==> !spec_is_ascii_digit(s[k]),
    ensures ndig(s) == k
    decreases s.len()
{
    if k > 0 {
        assert(spec_is_ascii_digit(s[0]));
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < k - 1 implies spec_is_ascii_digit(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        lemma_ndig(t, k - 1);
    }
}
pub proof fn lemma_nnon(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !spec_is_ascii_digit(#[trigger] s[j]),
             k < s.len() ==> spec_is_ascii_digit(s[k]),
    ensures nnon(s) == k
    decreases s.len()
{
    if k > 0 {
        assert(!spec_is_ascii_digit(s[0]));
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < k - 1 implies !spec_is_ascii_digit(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        lemma_nnon(t, k - 1);
    }
}

pub broadcast proof fn lemma_ndig_b(s: Seq<char>, b: nat, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> spec_is_ascii_digit(#[trigger] s[j]),
             k < s.len() ==> !spec_is_ascii_digit(s[k]),
    ensures #![trigger is_bnd(s, b, k), ndig(s)] ndig(s) == k
{ lemma_ndig(s, k); }
pub broadcast proof fn lemma_nnon_b(s: Seq<char>, b: nat, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !spec_is_ascii_digit(#[trigger] s[j]),
             k < s.len() ==> spec_is_ascii_digit(s[k]),
    ensures #![trigger is_bnd(s, b, k), nnon(s)] nnon(s) == k
{ lemma_nnon(s, k); }
pub broadcast proof fn lemma_ndig_all(s: Seq<char>)
    requires all_digits(s)
    ensures #[trigger] ndig(s) == s.len()
{ lemma_ndig(s, s.len() as int); }
pub broadcast proof fn lemma_nnon_all(s: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> !spec_is_ascii_digit(#[trigger] s[j]),
    ensures #[trigger] nnon(s) == s.len()
{ lemma_nnon(s, s.len() as int); }
pub broadcast proof fn lemma_take_all(s: Seq<char>)
    ensures #[trigger] s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn lemma_skip_all(s: Seq<char>)
    ensures #[trigger] s.skip(s.len() as int) == Seq::<char>::empty()
{ assert(s.skip(s.len() as int) =~= Seq::<char>::empty()); }
pub broadcast group group_ndig { lemma_ndig_b, lemma_nnon_b, lemma_ndig_all, lemma_nnon_all, lemma_take_all, lemma_skip_all }

/// one group: `k` digits, then `m` other characters, then a digit or the end
pub proof fn lemma_group(s: Seq<char>, acc: nat, k: int, m: int)
    requires
        0 < k < s.len(), 0 <= m, k + m <= s.len(), !spec_is_ascii_digit(s[k]),
        forall|j: int| 0 <= j < k ==> spec_is_ascii_digit(#[trigger] s[j]),
        forall|j: int| k <= j < k + m ==> !spec_is_ascii_digit(#[trigger] s[j]),
        k + m < s.len() ==> spec_is_ascii_digit(s[k + m]),
    ensures
        ndig(s) == k, nnon(s.skip(k)) == m, m > 0,
        s.skip(k).take(m) == s.subrange(k, k + m), s.skip(k).skip(m) == s.skip(k + m),
{
    let t = s.skip(k);
    lemma_ndig(s, k);
    assert(t[0] == s[k]);
    assert forall|j: int| 0 <= j < m implies !spec_is_ascii_digit(#[trigger] t[j]) by { assert(t[j] == s[k + j]); }
    if m < t.len() { assert(t[m] == s[k + m]); }
    lemma_nnon(t, m);
    assert(t.take(m) =~= s.subrange(k, k + m));
    assert(t.skip(m) =~= s.skip(k + m));
}
//@fn src/duration.rs :: push_value
    ensures final(string)@ == old(string)@ + piece(value as nat, unit@)
//@proof start
    let ghost s0 = string@;
    proof { assert(s0 + Seq::<char>::empty() =~= s0); assert((s0 + dec(value as nat)) + unit@ =~= s0 + (dec(value as nat) + unit@)); }
//@end

//@fn src/duration.rs :: to_string
    ensures r@ == dur_fmt(nanos(duration))
//@proof before if string . is_empty
    proof {
        let n = nanos(duration);
        let s = n / 1_000_000_000;
        assert((s % 3600) % 60 == s % 60) by (nonlinear_arith);
        assert(string@ =~= piece(s / 3600, seq!['h']) + piece(s % 3600 / 60, seq!['m']) + piece(s % 60, seq!['s'])
            + piece((n % 1_000_000_000) / 1_000 / 1000, seq!['m', 's']) + piece((n % 1_000_000_000) / 1_000 % 1000, seq!['u', 's']));
    }
//@end

//@fn src/duration.rs :: add_duration
    ensures
        r is Ok <==> nanos(*old(duration)) + nanos(rhs) <= MAXN(),
        r is Ok ==> nanos(*final(duration)) == nanos(*old(duration)) + nanos(rhs),
        r is Err ==> *final(duration) == *old(duration),
//@end

//@fn src/duration.rs :: parse | attr=verifier::loop_isolation(false)
    ensures
        r is Ok <==> (s@.len() > 0 && dur_parse(s@, 0) is Some),
        r matches Ok(d) ==> nanos(d) == dur_parse(s@, 0)->0,
//@loop 0
        invariant dur_parse(s0, 0) == dur_parse(s@, nanos(duration)), s0.len() > 0,
        decreases s@.len(),
//@proof start
    let ghost s0 = s@;
//@proof loop 0 start
    broadcast use group_ndig;
//@proof before s = rest ;
    proof {
        let k = s@.len() - unit@.len() - rest@.len();
        let t = s@.skip(k);
        assert(unit@ =~= t.take(unit@.len() as int));
        assert(rest@ =~= t.skip(unit@.len() as int));
        assert forall|j: int| k <= j < k + unit@.len() implies !spec_is_ascii_digit(#[trigger] s@[j]) by { assert(s@[j] == t[j - k]); }
        if rest@.len() > 0 { assert(s@[k + unit@.len()] == t[unit@.len() as int]); }
        lemma_group(s@, nanos(duration), k, unit@.len() as int);
    }
//@end

pub proof fn lemma_step(v: nat, u: Seq<char>, rest: Seq<char>, acc: nat)
    requires
        v > 0 || u =~= seq!['s'], v <= u64::MAX,
        group_nanos(v, u) is Some,
        acc + group_nanos(v, u)->0 <= MAXN(),
        rest.len() > 0 ==> spec_is_ascii_digit(rest[0]),
    ensures dur_parse(dec(v) + u + rest, acc) == dur_parse(rest, acc + group_nanos(v, u)->0)
{
    lemma_dec(v);
    let d = dec(v);
    let t = d + u + rest;
    assert forall|j: int| 0 <= j < d.len() implies spec_is_ascii_digit(#[trigger] t[j]) by { assert(t[j] == d[j]); }
    assert(t[d.len() as int] == u[0]);
    lemma_ndig(t, d.len() as int);
    assert(t.take(d.len() as int) =~= d);
    let r = t.skip(d.len() as int);
    assert(r =~= u + rest);
    assert forall|j: int| 0 <= j < u.len() implies !spec_is_ascii_digit(#[trigger] r[j]) by { assert(r[j] == u[j]); }
    if rest.len() > 0 { assert(r[u.len() as int] == rest[0]); }
    lemma_nnon(r, u.len() as int);
    assert(r.take(u.len() as int) =~= u);
    assert(r.skip(u.len() as int) =~= rest);
}
pub open spec fn starts_digit(s: Seq<char>) -> bool { s.len() > 0 ==> spec_is_ascii_digit(s[0]) }
pub proof fn lemma_piece(v: nat, u: Seq<char>, rest: Seq<char>, acc: nat)
    requires v <= u64::MAX, group_nanos(v, u) is Some, acc + group_nanos(v, u)->0 <= MAXN(), starts_digit(rest),
    ensures
        dur_parse(piece(v, u) + rest, acc) == dur_parse(rest, acc + group_nanos(v, u)->0),
        starts_digit(piece(v, u) + rest),
{
    if v > 0 {
        lemma_step(v, u, rest, acc);
        lemma_dec(v);
        assert((dec(v) + u + rest)[0] == dec(v)[0]);
    } else {
        assert(piece(v, u) + rest =~= rest);
        }
}
/// Round trip: parsing the printed text gives the duration back (to the microsecond).
pub proof fn theorem_round_trip(n: nat)
    requires n <= MAXN(),
    ensures dur_fmt(n).len() > 0, dur_parse(dur_fmt(n), 0) == Some((n / 1000 * 1000) as nat),
{
    let s = n / 1_000_000_000;
    let us = (n % 1_000_000_000) / 1_000;
    let h = s / 3600; let m = s % 3600 / 60; let sec = s % 60; let ms = us / 1000; let u = us % 1000;
    assert(h * 3600 + m * 60 + sec == s) by (nonlinear_arith) requires h == s / 3600, m == s % 3600 / 60, sec == s % 60;
    assert(ms * 1000 + u == us);
    assert(s * 1_000_000_000 + us * 1000 == n / 1000 * 1000);
    let p4 = piece(u, seq!['u', 's']);
    let p3 = piece(ms, seq!['m', 's']) + p4;
    let p2 = piece(sec, seq!['s']) + p3;
    let p1 = piece(m, seq!['m']) + p2;
    let p0 = piece(h, seq!['h']) + p1;
    let t = piece(h, seq!['h']) + piece(m, seq!['m']) + piece(sec, seq!['s']) + piece(ms, seq!['m', 's']) + piece(u, seq!['u', 's']);
    assert(t =~= p0);
    let e = Seq::<char>::empty();
    assert(p4 + e =~= p4);
    let a1 = h * 3_600_000_000_000; let a2 = a1 + m * 60_000_000_000; let a3 = a2 + sec * 1_000_000_000;
    let a4 = a3 + ms * 1_000_000; let a5 = a4 + u * 1000;
    assert(a5 == n / 1000 * 1000);
    assert(seq!['h'][0] == 'h' && seq!['m'][0] == 'm' && seq!['s'][0] == 's');
    assert(seq!['m', 's'].len() == 2 && seq!['u','s'].len() == 2);
    assert(seq!['m', 's'][1] == 's');
    assert(seq!['u', 's'][0] == 'u');
    assert(group_nanos(u, seq!['u', 's']) == Some((u * 1_000) as nat));
    assert(group_nanos(ms, seq!['m', 's']) == Some((ms * 1_000_000) as nat));
    assert(group_nanos(sec, seq!['s']) == Some((sec * 1_000_000_000) as nat));
    assert(group_nanos(m, seq!['m']) == Some((m * 60_000_000_000) as nat));
    assert(group_nanos(h, seq!['h']) == Some((h * 3_600_000_000_000) as nat));
    lemma_piece(u, seq!['u', 's'], e, a4);
    lemma_piece(ms, seq!['m', 's'], p4, a3);
    lemma_piece(sec, seq!['s'], p3, a2);
    lemma_piece(m, seq!['m'], p2, a1);
    lemma_piece(h, seq!['h'], p1, 0);
    if t.len() == 0 {
        lemma_step(0, seq!['s'], e, 0);
        assert(dec(0) + seq!['s'] + e =~= seq!['0', 's']);
        assert(p0.len() == 0);
        assert(h == 0 && m == 0 && sec == 0 && ms == 0 && u == 0) by {
            if h > 0 { lemma_dec(h); } if m > 0 { lemma_dec(m); } if sec > 0 { lemma_dec(sec); }
            if ms > 0 { lemma_dec(ms); } if u > 0 { lemma_dec(u); }
        }
    }
}
} // verus!
fn main() {}
