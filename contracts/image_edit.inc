//@include image_parts.inc
//@include to_string.inc
//@include text_doc.inc
//@include image_whole.inc

impl<'a> TagOrDigest<'a> {
    pub open spec fn wf(self) -> bool { tod_ok(tod(self)) }
}
pub open spec fn opt_wf(t: Option<TagOrDigest>) -> bool { t matches Some(x) ==> x.wf() }
/// the name left when the registry of `n` is set
pub open spec fn with_reg(n: Seq<char>, r: Option<Seq<char>>) -> Seq<char> {
    match (r, reg_end(n)) {
        (Some(r), Some(e)) => r + n.skip(e as int),
        (Some(r), None) => r + seq!['/'] + n,
        (None, Some(e)) => if e == n.len() { n } else { n.skip(e as int + 1) },
        (None, None) => n,
    }
}
/// an image whose parts are put together has exactly these parts
pub proof fn lemma_join_text(i: &Image, n: Seq<char>, t: Option<Tod>)
    requires
        name_ok(n), t matches Some(x) ==> tod_ok(x),
        i.inner@ == (match t { Some(x) => n + tod_text(x), None => n }),
        i.tag_or_digest_start == start_of(n, t),
    ensures i.wf_text(), i.name_s() == n, i.tod_s() == t,
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    x_string_bound(&i.inner);
    match t {
        Some(x) => {
            let y = match x { Tod::Tag(y) => y, Tod::Digest(y) => y };
            assert(i.inner@.len() == n.len() + 1 + y.len());
            assert(i.inner@.take(n.len() as int) =~= n);
            assert(i.inner@.skip(n.len() as int + 1) =~= y);
        }
        None => { assert(i.inner@.take(n.len() as int) =~= n); }
    }
}
pub proof fn lemma_join(i: &Image, n: Seq<char>, t: Option<Tod>)
    requires
        name_ok(n), t matches Some(x) ==> tod_ok(x),
        i.inner@ == (match t { Some(x) => n + tod_text(x), None => n }),
        i.tag_or_digest_start == start_of(n, t),
        opt_nat(i.registry_end) == reg_end(n),
    ensures i.wf(), i.name_s() == n, i.tod_s() == t,
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    lemma_join_text(i, n, t);
}
/// what follows the name
pub proof fn lemma_rest(o: &Image)
    requires o.wf_text(),
    ensures o.inner@.skip(o.end_s()) == (match o.tod_s() { Some(x) => tod_text(x), None => Seq::empty() }), o.tod_s() matches Some(x) ==> tod_ok(x),
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    lemma_wf(o);
    match o.tod_s() {
        Some(x) => {
            let n = o.name_s();
            assert(o.inner@ == n + tod_text(x));
            assert((n + tod_text(x)).skip(n.len() as int) =~= tod_text(x));
        }
        None => { assert(o.inner@.skip(o.end_s()) =~= Seq::<char>::empty()); }
    }
}
pub open spec fn tod_raw(t: Tod) -> Seq<char> { match t { Tod::Tag(x) => x, Tod::Digest(x) => x } }
/// the text of an image whose registry is set
pub proof fn lemma_reg_text(o: &Image, r: Option<Seq<char>>)
    requires o.wf(),
    ensures ({
        let n = o.name_s();
        let w = with_reg(n, r) + o.inner@.skip(o.end_s());
        match (r, reg_end(n)) {
            (Some(r), Some(e)) => r + o.inner@.skip(e as int) == w,
            (Some(r), None) => r + seq!['/'] + o.inner@ == w && seq!['/'] + o.inner@ == seq!['/'] + n + o.inner@.skip(o.end_s()),
            (None, Some(e)) => if e == n.len() { o.inner@ == w } else { Seq::empty() + o.inner@.skip(e as int + 1) == w },
            (None, None) => o.inner@ == w,
        }
    }),
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    lemma_wf(o);
    let n = o.name_s();
    let w = with_reg(n, r) + o.inner@.skip(o.end_s());
    match (r, reg_end(n)) {
        (Some(r), Some(e)) => { assert(r + o.inner@.skip(e as int) =~= w); }
        (Some(r), None) => { assert(r + seq!['/'] + o.inner@ =~= w); assert(seq!['/'] + o.inner@ =~= seq!['/'] + n + o.inner@.skip(o.end_s())); }
        (None, Some(e)) => { if e == n.len() { assert(o.inner@ =~= w); } else { assert(Seq::empty() + o.inner@.skip(e as int + 1) =~= w); } }
        (None, None) => { assert(o.inner@ =~= w); }
    }
}
/// replacing the end of the text
pub proof fn lemma_set_tod(o: &Image, i: &Image, t: Option<Tod>)
    requires
        o.wf(), t matches Some(x) ==> tod_ok(x),
        i.inner@ == (match t { Some(x) => o.name_s() + tod_text(x), None => o.name_s() })
            || (t matches Some(x) && o.tod_s() is Some && (x is Tag <==> o.tod_s()->0 is Tag) && i.inner@ == o.inner@.take(o.end_s() + 1) + tod_raw(x))
            || (t is None && o.tod_s() is None && i.inner@ == o.inner@),
        i.tag_or_digest_start == start_of(o.name_s(), t),
        i.registry_end == o.registry_end,
    ensures i.wf(), i.name_s() == o.name_s(), i.tod_s() == t,
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    lemma_wf(o);
    let n = o.name_s();
    match t {
        Some(x) => {
            if i.inner@ != n + tod_text(x) {
                let y = o.tod_s()->0;
                assert(o.inner@ == n + tod_text(y));
                assert(o.inner@.take(o.end_s() + 1) + tod_raw(x) =~= n + tod_text(x));
            }
        }
        None => { assert(o.inner@.take(o.inner@.len() as int) =~= o.inner@); }
    }
    lemma_join(i, n, t);
}
/// replacing the start of the text
pub proof fn lemma_set_name_text(o: &Image, i: &Image, n: Seq<char>)
    requires
        o.wf_text(), name_ok(n),
        i.inner@ == n + o.inner@.skip(o.end_s()),
        i.tag_or_digest_start == start_of(n, o.tod_s()),
    ensures i.wf_text(), i.name_s() == n, i.tod_s() == o.tod_s(),
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    lemma_rest(o);
    assert(n + Seq::<char>::empty() =~= n);
    lemma_join_text(i, n, o.tod_s());
}
pub proof fn lemma_set_name(o: &Image, i: &Image, n: Seq<char>)
    requires
        o.wf(), name_ok(n),
        i.inner@ == n + o.inner@.skip(o.end_s()),
        i.tag_or_digest_start == start_of(n, o.tod_s()),
        opt_nat(i.registry_end) == reg_end(n),
    ensures i.wf(), i.name_s() == n, i.tod_s() == o.tod_s(),
{
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
    lemma_set_name_text(o, i, n);
}
/// cutting and joining at a slash
pub proof fn lemma_cat_split(a: Seq<char>, b: Seq<char>)
    ensures split_c(a + seq!['/'] + b, '/') == split_c(a, '/') + split_c(b, '/')
    decreases a.len()
{
    let s = a + seq!['/'] + b;
    lemma_idx(a, '/');
    let k = idx_c(a, '/') as int;
    if k >= a.len() {
        assert(s[a.len() as int] == '/');
        assert forall|i: int| 0 <= i < a.len() implies s[i] != '/' by { assert(s[i] == a[i]); }
        lemma_idx_at(s, '/', a.len() as int);
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int + 1) =~= b);
    } else {
        assert(s[k] == '/');
        assert forall|i: int| 0 <= i < k implies s[i] != '/' by { assert(s[i] == a[i]); }
        lemma_idx_at(s, '/', k);
        assert(s.take(k) =~= a.take(k));
        assert(s.skip(k + 1) =~= a.skip(k + 1) + seq!['/'] + b);
        lemma_cat_split(a.skip(k + 1), b);
        assert(split_c(s, '/') =~= split_c(a, '/') + split_c(b, '/'));
    }
}
pub open spec fn rest_ok(n: Seq<char>) -> bool { forall|i: int| 0 <= i < split_c(n, '/').len() ==> part_ok(#[trigger] split_c(n, '/')[i]) }
/// a name and components after it
pub proof fn lemma_cat(r: Seq<char>, b: Seq<char>)
    requires name_ok(r), rest_ok(b),
    ensures name_ok(r + seq!['/'] + b), reg_end(r + seq!['/'] + b) == reg_end(r)
{
    lemma_cat_split(r, b);
    lemma_name_ascii(r);
    let s = r + seq!['/'] + b;
    assert forall|i: int| 1 <= i < split_c(s, '/').len() implies part_ok(#[trigger] split_c(s, '/')[i]) by {
        let m = split_c(r, '/').len();
        if i < m { assert(split_c(s, '/')[i] == split_c(r, '/')[i]); } else { assert(split_c(s, '/')[i] == split_c(b, '/')[i - m]); }
    }
}
pub proof fn lemma_part_first(p: Seq<char>)
    ensures part_ok(p) ==> first_ok(p) && !has_c(p, ':')
{ }
/// what is left of a name without its registry
pub proof fn lemma_cut(n: Seq<char>)
    requires name_ok(n),
    ensures
        reg_end(n) is None ==> rest_ok(n),
        reg_end(n) matches Some(e) ==> e == idx_c(n, '/') && e <= n.len() && (e < n.len() ==> n[e as int] == '/' && rest_ok(n.skip(e as int + 1)) && name_ok(n.skip(e as int + 1))
            && n == n.take(e as int) + seq!['/'] + n.skip(e as int + 1)),
{
    lemma_name_ascii(n);
    lemma_idx(n, '/');
    let k = idx_c(n, '/') as int;
    let p = split_c(n, '/');
    if reg_end(n) is None {
        assert forall|i: int| 0 <= i < p.len() implies part_ok(#[trigger] p[i]) by { }
    } else if k < n.len() {
        let b = n.skip(k + 1);
        assert forall|i: int| 0 <= i < split_c(b, '/').len() implies part_ok(#[trigger] split_c(b, '/')[i]) by { assert(p[i + 1] == split_c(b, '/')[i]); }
        lemma_name_ascii(b);
        lemma_part_first(split_c(b, '/')[0]);
        assert(n =~= n.take(k) + seq!['/'] + b);
    }
}
/// setting a registry gives a valid name, with that registry
pub proof fn lemma_with_reg(n: Seq<char>, r: Option<Seq<char>>)
    requires name_ok(n), r matches Some(x) ==> name_ok(x),
    ensures name_ok(with_reg(n, r)), r matches Some(x) ==> reg_end(with_reg(n, r)) == reg_end(x)
{
    lemma_cut(n);
    match r {
        Some(x) => match reg_end(n) {
            Some(e) => {
                if e < n.len() {
                    lemma_cat(x, n.skip(e as int + 1));
                    assert(x + n.skip(e as int) =~= x + seq!['/'] + n.skip(e as int + 1));
                } else { assert(x + n.skip(e as int) =~= x); }
            }
            None => { lemma_cat(x, n); }
        },
        None => {}
    }
}
/// an image text that can be read is read back as the same parts
pub proof fn theorem_reparse(i: &Image, j: &Image)
    requires i.wf(), (i.tod_s() matches Some(Tod::Tag(_))) || no_tag(i.name_s()),
        j.inner@ == i.inner@, j.wf(), img(j.inner@, j.name_s(), j.tod_s()),
    ensures j.name_s() == i.name_s(), j.tod_s() == i.tod_s(), opt_nat(j.registry_end) == opt_nat(i.registry_end),
        img(i.inner@, i.name_s(), i.tod_s()),
{
    theorem_unique(i.inner@, i.name_s(), i.tod_s(), j.name_s(), j.tod_s());
}
/// a name which has a path after its registry never looks like it has a tag
pub proof fn theorem_path(n: Seq<char>)
    requires name_ok(n), reg_end(n) matches Some(e) ==> e < n.len(),
    ensures no_tag(n)
{
    lemma_cut(n);
    lemma_ridx(n, ':');
    lemma_idx(n, '/');
    let k = ridx_c(n, ':');
    if k >= 0 {
        let p = split_c(n, '/');
        lemma_no_colon(n);
        let e = idx_c(n, '/') as int;
        assert(k < e);
        assert(n.skip(k + 1)[e - k - 1] == '/');
    }
}
pub proof fn lemma_no_colon(n: Seq<char>)
    requires name_ok(n),
    ensures forall|i: int| idx_c(n, '/') <= i < n.len() ==> n[i] != ':', reg_end(n) is None ==> !has_c(n, ':')
{
    lemma_cut(n);
    lemma_idx(n, '/');
    let e = idx_c(n, '/') as int;
    if reg_end(n) is None { lemma_rest_no_colon(n); }
    else if e < n.len() {
        let b = n.skip(e + 1);
        lemma_rest_no_colon(b);
        assert forall|i: int| e <= i < n.len() implies n[i] != ':' by { if i > e { assert(b[i - e - 1] == n[i]); } }
    }
}
pub proof fn lemma_rest_no_colon(s: Seq<char>)
    requires rest_ok(s),
    ensures !has_c(s, ':')
    decreases s.len()
{
    lemma_idx(s, '/');
    let k = idx_c(s, '/') as int;
    let p = split_c(s, '/');
    lemma_part_first(p[0]);
    if k < s.len() {
        let t = s.skip(k + 1);
        assert forall|i: int| 0 <= i < split_c(t, '/').len() implies part_ok(#[trigger] split_c(t, '/')[i]) by { assert(p[i + 1] == split_c(t, '/')[i]); }
        lemma_rest_no_colon(t);
        assert(p[0] == s.take(k));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != ':' by {
            if i < k { assert(s.take(k)[i] == s[i]); } else if i > k { assert(t[i - k - 1] == s[i]); }
        }
    }
}
pub open spec fn shift(t: Option<TagOrDigestStart>, a: usize, b: usize) -> Option<TagOrDigestStart> {
    match t {
        None => None,
        Some(TagOrDigestStart::Tag(p)) => Some(TagOrDigestStart::Tag((p - a + b) as usize)),
        Some(TagOrDigestStart::Digest(p)) => Some(TagOrDigestStart::Digest((p - a + b) as usize)),
    }
}

//@fn src/service/image.rs :: TagOrDigest::into_tag
    ensures (match r { Some(t) => Some(Tod::Tag(t.0@)), None => None }) == (match tod(self) { Tod::Tag(x) => Some(tod(self)), _ => None }),
//@end
//@fn src/service/image.rs :: TagOrDigest::into_digest
    ensures (match r { Some(t) => Some(Tod::Digest(t.0@)), None => None }) == (match tod(self) { Tod::Digest(x) => Some(tod(self)), _ => None }),
//@end
//@fn src/service/image.rs :: TagOrDigest::separator
    ensures seq![r] == tod_text(tod(*self)).take(1),
//@proof start
    proof { assert(tod_text(tod(*self)).take(1) =~= seq![tod_text(tod(*self))[0]]); }
//@end
//@fn src/service/image.rs :: TagOrDigest::len
    requires self.wf(),
    ensures r == tod_text(tod(*self)).len(), r <= isize::MAX + 1,
//@proof start
    proof { match tod(*self) { Tod::Tag(x) => { lemma_tag_chars(x); lemma_blen(x); } Tod::Digest(x) => { lemma_digest_chars(x); lemma_blen(x); } } }
//@end
//@fn src/service/image.rs :: TagOrDigest::as_start
    requires name_end <= isize::MAX,
    ensures r.pos() == name_end + 1, r is Tag <==> self is Tag,
//@end
//@fn src/service/image.rs :: <AsRef<str> for TagOrDigest>::as_ref | trait=XAsRefStr | self=TagOrDigest<'_> | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { tod_text(tod(*self)).skip(1) }
//@proof start
    proof { match tod(*self) { Tod::Tag(x) => { assert(tod_text(tod(*self)).skip(1) =~= x); } Tod::Digest(x) => { assert(tod_text(tod(*self)).skip(1) =~= x); } } }
//@end
//@fn src/service/image.rs :: TagOrDigest::push_to_string
    ensures final(string)@ == old(string)@ + tod_text(tod(*self)),
//@proof start
    proof { let t = tod_text(tod(*self)); let o = old(string)@; assert(t.take(1) + t.skip(1) =~= t);
        assert forall|c: char| seq![c] == t.take(1) implies #[trigger] o.push(c) + t.skip(1) =~= o + t by { assert(seq![c][0] == t[0]); } }
//@end
//@method as_mut => x_as_mut
//@fn src/service/image.rs :: <AsMut<usize> for TagOrDigestStart>::as_mut | as=x_as_mut
    ensures *r == old(self).pos(), final(self).pos() == *final(r), (*old(self)) is Tag <==> (*final(self)) is Tag,
//@end
impl vstd::std_specs::ops::AddAssignSpecImpl<usize> for TagOrDigestStart {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: usize) -> bool { self.pos() + rhs <= usize::MAX }
    open spec fn add_assign_spec(&self, rhs: usize) -> &TagOrDigestStart { &shift(Some(*self), 0, rhs)->0 }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<usize> for TagOrDigestStart {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: usize) -> bool { self.pos() >= rhs }
    open spec fn sub_assign_spec(&self, rhs: usize) -> &TagOrDigestStart { &shift(Some(*self), rhs, 0)->0 }
}
//@fn src/service/image.rs :: <AddAssign<usize> for TagOrDigestStart>::add_assign | trait=AddAssign<usize>
//@end
//@fn src/service/image.rs :: <SubAssign<usize> for TagOrDigestStart>::sub_assign | trait=SubAssign<usize>
//@end
//@fn src/service/image.rs :: <From<Tag> for TagOrDigest>::from | as=from_tag
    ensures tod(r) == Tod::Tag(value.0@)
//@end
//@fn src/service/image.rs :: <From<Digest> for TagOrDigest>::from | as=from_digest
    ensures tod(r) == Tod::Digest(value.0@)
//@end
// `Into::into` of std is `From::from`
impl<'a> XInto<TagOrDigest<'a>> for Tag<'a> {
    open spec fn x_into_post(self, u: TagOrDigest<'a>) -> bool { tod(u) == Tod::Tag(self.0@) }
    fn x_into(self) -> (u: TagOrDigest<'a>) { TagOrDigest::from_tag(self) }
}
impl<'a> XInto<TagOrDigest<'a>> for Digest<'a> {
    open spec fn x_into_post(self, u: TagOrDigest<'a>) -> bool { tod(u) == Tod::Digest(self.0@) }
    fn x_into(self) -> (u: TagOrDigest<'a>) { TagOrDigest::from_digest(self) }
}
//@fn src/service/image.rs :: Image::update_tag_or_digest_start
    requires old(self).tag_or_digest_start matches Some(p) ==> 0 <= p.pos() - old_len + new_len <= usize::MAX,
    ensures *final(self) == (Image { tag_or_digest_start: shift(old(self).tag_or_digest_start, old_len, new_len), ..*old(self) }),
//@end
//@fn src/service/image.rs :: Image::set_tag_or_digest
    requires old(self).wf(), opt_wf(tag_or_digest),
    ensures final(self).wf(), final(self).name_s() == old(self).name_s(), final(self).tod_s() == opt_tod(tag_or_digest),
//@proof start
    let ghost t0 = opt_tod(tag_or_digest);
    proof { lemma_wf(self); lemma_ascii(self.inner@); lemma_blen(self.name_s()); }
//@proof tail
    proof { assert(old(self).inner@.take(old(self).end_s()) == old(self).name_s());
        lemma_set_tod(old(self), self, t0); }
//@end
//@fn src/service/image.rs :: Image::set_tag
    requires old(self).wf(), tag matches Some(t) ==> tag_ok(t.0@),
    ensures final(self).wf(), final(self).name_s() == old(self).name_s(),
        final(self).tod_s() == (match tag { Some(t) => Some(Tod::Tag(t.0@)), None => None }),
//@end
//@fn src/service/image.rs :: Image::set_digest
    requires old(self).wf(), digest matches Some(t) ==> digest_ok(t.0@),
    ensures final(self).wf(), final(self).name_s() == old(self).name_s(),
        final(self).tod_s() == (match digest { Some(t) => Some(Tod::Digest(t.0@)), None => None }),
//@end
//@fn src/service/image.rs :: Image::set_name
    requires old(self).wf(), name.wf(),
    ensures final(self).wf(), final(self).name_s() == name.inner@, final(self).tod_s() == old(self).tod_s(),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); lemma_name_chars(name.inner@); lemma_blen(name.inner@); }
//@proof tail
    proof { lemma_set_name(old(self), self, name.inner@); }
//@end
//@fn src/service/image.rs :: Image::set_registry
    requires old(self).wf(), registry matches Some(n) ==> n.wf(),
    ensures final(self).wf(), final(self).tod_s() == old(self).tod_s(),
        final(self).name_s() == with_reg(old(self).name_s(), match registry { Some(n) => Some(n.inner@), None => None }),
//@proof header
    hide(name_ok); hide(reg_end); hide(tag_ok); hide(digest_ok); hide(no_tag);
//@proof start
    let ghost r0 = match registry { Some(n) => Some(n.inner@), None => None };
    proof {
        lemma_wf(self); lemma_ascii(self.inner@); lemma_with_reg(self.name_s(), r0); lemma_cut(self.name_s()); lemma_reg_text(self, r0);
        match r0 { Some(n) => { lemma_name_chars(n); lemma_blen(n); } None => {} }
    }
//@proof after self . update_tag_or_digest_start (end , 0) ;
    proof { lemma_set_name_text(old(self), self, with_reg(old(self).name_s(), r0)); lemma_wf(self); }
//@proof after self . update_tag_or_digest_start (end , registry . x_len ()) ;
    proof { lemma_set_name(old(self), self, with_reg(old(self).name_s(), r0)); }
//@proof after self . update_tag_or_digest_start (0 , registry . x_len () + 1) ;
    proof { lemma_set_name(old(self), self, with_reg(old(self).name_s(), r0)); }
//@proof tail
    proof { if r0 is None { lemma_set_name(old(self), self, with_reg(old(self).name_s(), r0)); } }
//@end
//@fn src/service/image.rs :: Image::from_parts
    requires name.wf(), opt_wf(tag_or_digest),
    ensures r.wf(), r.name_s() == name.inner@, r.tod_s() == opt_tod(tag_or_digest),
//@proof start
    let ghost n0 = name.inner@;
    let ghost t0 = opt_tod(tag_or_digest);
    proof { lemma_name_chars(n0); lemma_blen(n0); x_str_bound(name.inner); }
//@proof tail
    proof { assert(Seq::<char>::empty() + n0 =~= n0); lemma_join(&__tail, n0, t0); }
//@end
