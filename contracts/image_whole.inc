//@type src/service/image.rs :: Image
//@type src/service/image.rs :: TagOrDigestStart | derive=Clone, Copy
//@type src/service/image.rs :: TagOrDigest | derive=Clone, Copy
//@type src/service/image.rs :: InvalidImageError

// ------------------------------------------------------------ whole references (property level)
pub enum Tod { Tag(Seq<char>), Digest(Seq<char>) }
pub open spec fn tod_ok(t: Tod) -> bool { match t { Tod::Tag(x) => tag_ok(x), Tod::Digest(x) => digest_ok(x) } }
pub open spec fn tod_text(t: Tod) -> Seq<char> { match t { Tod::Tag(x) => seq![':'] + x, Tod::Digest(x) => seq!['@'] + x } }
/// a colon with no later slash always starts a tag, so a name standing without one has none
pub open spec fn no_tag(n: Seq<char>) -> bool { has_c(n, ':') ==> has_c(n.skip(ridx_c(n, ':') + 1), '/') }
/// `s` is the image of name `n` and tag or digest `t`
pub open spec fn parts(s: Seq<char>, n: Seq<char>, t: Option<Tod>) -> bool {
    name_ok(n) && match t { None => s == n, Some(x) => tod_ok(x) && s == n + tod_text(x) }
}
pub open spec fn img(s: Seq<char>, n: Seq<char>, t: Option<Tod>) -> bool {
    parts(s, n, t) && (t matches Some(Tod::Tag(_)) || no_tag(n))
}
pub open spec fn tod(t: TagOrDigest) -> Tod { match t { TagOrDigest::Tag(x) => Tod::Tag(x.0@), TagOrDigest::Digest(x) => Tod::Digest(x.0@) } }
pub open spec fn opt_tod(t: Option<TagOrDigest>) -> Option<Tod> { match t { Some(x) => Some(tod(x)), None => None } }
/// where the tag or digest of an image of name `n` starts
pub open spec fn start_of(n: Seq<char>, t: Option<Tod>) -> Option<TagOrDigestStart> {
    match t {
        None => None,
        Some(Tod::Tag(_)) => Some(TagOrDigestStart::Tag((n.len() + 1) as usize)),
        Some(Tod::Digest(_)) => Some(TagOrDigestStart::Digest((n.len() + 1) as usize)),
    }
}
impl TagOrDigestStart {
    pub open spec fn pos(self) -> usize { match self { TagOrDigestStart::Tag(p) => p, TagOrDigestStart::Digest(p) => p } }
}
impl Image {
    pub open spec fn end_s(&self) -> int { match self.tag_or_digest_start { Some(p) => p.pos() - 1, None => self.inner@.len() as int } }
    /// the name, tag and digest the image reports
    pub open spec fn name_s(&self) -> Seq<char> { self.inner@.take(self.end_s()) }
    pub open spec fn tod_s(&self) -> Option<Tod> {
        match self.tag_or_digest_start {
            Some(TagOrDigestStart::Tag(p)) => Some(Tod::Tag(self.inner@.skip(p as int))),
            Some(TagOrDigestStart::Digest(p)) => Some(Tod::Digest(self.inner@.skip(p as int))),
            None => None,
        }
    }
    /// the parts reported are valid, and are those of the text
    pub open spec fn wf_text(&self) -> bool {
        &&& self.tag_or_digest_start matches Some(p) ==> 1 <= p.pos() <= self.inner@.len()
        &&& parts(self.inner@, self.name_s(), self.tod_s())
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.wf_text()
        &&& opt_nat(self.registry_end) == reg_end(self.name_s())
    }
}
pub proof fn lemma_tag_chars(s: Seq<char>)
    ensures tag_ok(s) ==> ascii(s) && s.len() > 0 && !has_c(s, ':') && !has_c(s, '/') && !has_c(s, '@')
{ }
pub proof fn lemma_digest_chars(s: Seq<char>)
    ensures digest_ok(s) ==> ascii(s) && s.len() > 0 && !has_c(s, '/') && !has_c(s, '@')
{
    if digest_ok(s) {
        lemma_idx(s, ':');
        let k = idx_c(s, ':') as int;
        assert forall|i: int| 0 <= i < s.len() implies spec_is_ascii(#[trigger] s[i]) && s[i] != '/' && s[i] != '@' by {
            if i < k { assert(s.take(k)[i] == s[i]); } else if i > k { assert(s.skip(k + 1)[i - k - 1] == s[i]); }
        }
    }
}
pub open spec fn no_at(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '@' }
pub proof fn lemma_split_no_at(s: Seq<char>)
    requires forall|i: int| 0 <= i < split_c(s, '/').len() ==> no_at(#[trigger] split_c(s, '/')[i]),
    ensures no_at(s),
    decreases s.len()
{
    lemma_idx(s, '/');
    let k = idx_c(s, '/') as int;
    let p = split_c(s, '/');
    assert(no_at(p[0]));
    if k < s.len() {
        let t = s.skip(k + 1);
        assert forall|i: int| 0 <= i < split_c(t, '/').len() implies no_at(#[trigger] split_c(t, '/')[i]) by { assert(p[i + 1] == split_c(t, '/')[i]); }
        lemma_split_no_at(t);
        assert(p[0] == s.take(k));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '@' by {
            if i < k { assert(s.take(k)[i] == s[i]); } else if i > k { assert(t[i - k - 1] == s[i]); }
        }
    }
}
/// the characters of a name
pub proof fn lemma_name_chars(s: Seq<char>)
    ensures name_ok(s) ==> ascii(s) && !has_c(s, '@') && s.len() > 0
{
    lemma_name_ascii(s);
    if name_ok(s) {
        let f = split_c(s, '/')[0];
        lemma_idx(f, ':');
        lemma_uint_ascii(f.skip(idx_c(f, ':') as int + 1), u16::MAX as nat);
        let k = idx_c(f, ':') as int;
        assert(f.len() > 0);
        assert(no_at(f)) by {
            if has_c(f, '.') && has_c(f, ':') {
                assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] != '@' by {
                    if i < k { assert(f.take(k)[i] == f[i]); } else if i > k { assert(f.skip(k + 1)[i - k - 1] == f[i]); lemma_uint_digit(f.skip(k + 1), u16::MAX as nat); }
                }
            }
        }
        lemma_split_no_at(s);
    }
}
/// a valid image splits at its first `@` and at its last `:` with no later slash
pub proof fn lemma_shape(s: Seq<char>, n: Seq<char>, t: Option<Tod>)
    requires img(s, n, t),
    ensures
        ascii(s),
        t matches Some(Tod::Digest(d)) ==> has_c(s, '@') && s.take(idx_c(s, '@') as int) == n && s.skip(idx_c(s, '@') as int + 1) == d,
        !(t matches Some(Tod::Digest(_))) ==> !has_c(s, '@'),
        t matches Some(Tod::Tag(x)) ==> has_c(s, ':') && s.take(ridx_c(s, ':')) == n && s.skip(ridx_c(s, ':') + 1) == x,
        t is None ==> s == n,
{
    lemma_name_chars(n);
    match t {
        None => { }
        Some(Tod::Tag(x)) => {
            lemma_tag_chars(x);
            let k = n.len() as int;
            assert(s[k] == ':');
            assert forall|i: int| k < i < s.len() implies s[i] != ':' && s[i] != '@' by { assert(s[i] == x[i - k - 1]); }
            lemma_ridx_at(s, ':', k);
            assert(s.take(k) =~= n);
            assert(s.skip(k + 1) =~= x);
            assert forall|i: int| 0 <= i < s.len() implies spec_is_ascii(#[trigger] s[i]) && s[i] != '@' by {
                if i < k { assert(s[i] == n[i]); } else if i > k { assert(s[i] == x[i - k - 1]); }
            }
        }
        Some(Tod::Digest(d)) => {
            lemma_digest_chars(d);
            let k = n.len() as int;
            assert(s[k] == '@');
            assert forall|i: int| 0 <= i < k implies s[i] != '@' by { assert(s[i] == n[i]); }
            lemma_idx_at(s, '@', k);
            assert(s.take(k) =~= n);
            assert(s.skip(k + 1) =~= d);
            assert forall|i: int| 0 <= i < s.len() implies spec_is_ascii(#[trigger] s[i]) by {
                if i < k { assert(s[i] == n[i]); } else if i > k { assert(s[i] == d[i - k - 1]); }
            }
        }
    }
}
/// a text is an image in at most one way
pub proof fn theorem_unique(s: Seq<char>, n: Seq<char>, t: Option<Tod>, n2: Seq<char>, t2: Option<Tod>)
    requires img(s, n, t), img(s, n2, t2),
    ensures n == n2, t == t2,
{
    lemma_shape(s, n, t);
    lemma_shape(s, n2, t2);
    match t { Some(Tod::Tag(x)) => lemma_tag_chars(x), _ => {} }
    match t2 { Some(Tod::Tag(x)) => lemma_tag_chars(x), _ => {} }
}
/// the two places where a text can be split
pub open spec fn at_s(s: Seq<char>) -> Seq<char> { if has_c(s, '@') { s.take(idx_c(s, '@') as int) } else { s } }
pub open spec fn colon_s(b: Seq<char>) -> bool { has_c(b, ':') && !has_c(b.skip(ridx_c(b, ':') + 1), '/') }
pub open spec fn name_part(b: Seq<char>) -> Seq<char> { if colon_s(b) { b.take(ridx_c(b, ':')) } else { b } }
/// the only name and tag or digest a text can have
pub open spec fn only_tod(s: Seq<char>) -> Option<Tod> {
    if has_c(s, '@') { Some(Tod::Digest(s.skip(idx_c(s, '@') as int + 1))) }
    else if colon_s(s) { Some(Tod::Tag(s.skip(ridx_c(s, ':') + 1))) } else { None }
}
pub proof fn lemma_only(s: Seq<char>)
    ensures
        forall|n: Seq<char>, t: Option<Tod>| #[trigger] img(s, n, t) ==> n == name_part(at_s(s)) && t == only_tod(s) && !(has_c(s, '@') && colon_s(at_s(s)))
            && (t matches Some(x) ==> tod_ok(x)) && name_ok(n),
        name_ok(name_part(at_s(s))) && (only_tod(s) matches Some(x) ==> tod_ok(x)) && !(has_c(s, '@') && colon_s(at_s(s)))
            ==> img(s, name_part(at_s(s)), only_tod(s)),
{
    lemma_idx(s, '@');
    let b = at_s(s);
    lemma_ridx(b, ':');
    assert forall|n: Seq<char>, t: Option<Tod>| #[trigger] img(s, n, t) implies n == name_part(b) && t == only_tod(s) && !(has_c(s, '@') && colon_s(b)) by {
        lemma_shape(s, n, t);
        match t { Some(Tod::Tag(x)) => lemma_tag_chars(x), _ => {} }
    }
    if has_c(s, '@') {
        let k = idx_c(s, '@') as int;
        assert(s =~= s.take(k) + (seq!['@'] + s.skip(k + 1)));
    } else if colon_s(s) {
        let k = ridx_c(s, ':');
        assert(s =~= s.take(k) + (seq![':'] + s.skip(k + 1)));
    }
}
/// what a well formed image's own text says
pub proof fn lemma_wf(i: &Image)
    requires i.wf_text(),
    ensures ascii(i.inner@), ascii(i.name_s()), 0 <= i.end_s() <= i.inner@.len(), i.name_s().len() == i.end_s(), i.end_s() > 0,
        i.wf() ==> (opt_nat(i.registry_end) matches Some(e) ==> e <= i.end_s() && e == idx_c(i.name_s(), '/')),
        i.inner@.len() <= isize::MAX,
{
    lemma_name_chars(i.name_s());
    lemma_name_ascii(i.name_s());
    x_string_bound(&i.inner);
    match i.tod_s() { Some(Tod::Tag(x)) => lemma_tag_chars(x), Some(Tod::Digest(x)) => lemma_digest_chars(x), None => {} }
    let n = i.name_s();
    assert forall|k: int| 0 <= k < i.inner@.len() implies spec_is_ascii(#[trigger] i.inner@[k]) by {
        if k < n.len() { assert(i.inner@[k] == n[k]); }
        else { match i.tod_s() { Some(Tod::Tag(x)) => { if k > n.len() { assert(i.inner@[k] == x[k - n.len() - 1]); } else { assert(i.inner@[k] == ':'); } }
                Some(Tod::Digest(x)) => { if k > n.len() { assert(i.inner@[k] == x[k - n.len() - 1]); } else { assert(i.inner@[k] == '@'); } }
                None => {} } }
    }
}

pub open spec fn take_end(s: Seq<char>, st: Option<TagOrDigestStart>) -> Seq<char> { match st { Some(p) => s.take(p.pos() - 1), None => s } }
pub open spec fn skip_start(s: Seq<char>, st: Option<TagOrDigestStart>) -> Option<Tod> {
    match st {
        Some(TagOrDigestStart::Tag(p)) => Some(Tod::Tag(s.skip(p as int))),
        Some(TagOrDigestStart::Digest(p)) => Some(Tod::Digest(s.skip(p as int))),
        None => None,
    }
}
pub proof fn lemma_parsed(s: Seq<char>)
    ensures s.take(s.len() as int) == s, s.len() <= isize::MAX ==> forall|n: Seq<char>, t: Option<Tod>| #[trigger] img(s, n, t) ==>
        take_end(s, start_of(n, t)) == n && skip_start(s, start_of(n, t)) == t
        && (start_of(n, t) matches Some(p) ==> 1 <= p.pos() <= s.len()),
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() <= isize::MAX {
        assert forall|n: Seq<char>, t: Option<Tod>| #[trigger] img(s, n, t) implies
            take_end(s, start_of(n, t)) == n && skip_start(s, start_of(n, t)) == t
            && (start_of(n, t) matches Some(p) ==> 1 <= p.pos() <= s.len()) by {
            match t { Some(x) => { let y = match x { Tod::Tag(y) => y, Tod::Digest(y) => y };
                assert(s.len() == n.len() + 1 + y.len());
                assert(s.take(n.len() as int) =~= n); assert(s.skip(n.len() as int + 1) =~= y); } None => {} }
        }
    }
}

//@fn src/service/image.rs :: Image::parse_impl
    ensures
        r matches Ok((re, st)) ==> exists|n: Seq<char>, t: Option<Tod>| #[trigger] img(image@, n, t) && opt_nat(re) == reg_end(n) && st == start_of(n, t),
        r is Err ==> forall|n: Seq<char>, t: Option<Tod>| !img(image@, n, t),
//@proof start
    proof { lemma_only(image@); lemma_name_chars(name_part(at_s(image@))); x_str_bound(image);
        lemma_blen(name_part(at_s(image@))); lemma_idx(image@, '@'); }
    let ghost s0 = image@;
//@end
/// reading an image
pub open spec fn image_post(s: Seq<char>, r: Option<Image>) -> bool {
    &&& r matches Some(i) ==> i.inner@ == s && i.wf() && img(s, i.name_s(), i.tod_s())
    &&& r is None ==> forall|n: Seq<char>, t: Option<Tod>| !img(s, n, t)
}
//@fn src/service/image.rs :: Image::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures image_post(image.asv(), got_ok(r))
//@proof start
    proof { x_arg_law(image); x_arg_bound(image); lemma_parsed(image.asv()); }
//@end
//@fn src/service/image.rs :: Image::as_str
    ensures r@ == self.inner@
//@end
//@fn src/service/image.rs :: Image::into_inner
    ensures r@ == self.inner@
//@end
//@fn src/service/image.rs :: TagOrDigestStart::into_inner
    ensures r == self.pos()
//@end
//@fn src/service/image.rs :: Image::name_end
    requires self.wf_text(),
    ensures r == self.end_s(), bnd_ok(self.inner@, r as nat),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); }
//@end
//@fn src/service/image.rs :: Image::registry
    requires self.wf(),
    ensures opt_text(r) == name_reg(self.name_s()),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); lemma_name_ascii(self.name_s()); }
//@end
//@fn src/service/image.rs :: Image::name
    requires self.wf_text(),
    ensures r@ == self.name_s(),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); }
//@end
//@fn src/service/image.rs :: Image::as_name
    requires self.wf(),
    ensures r.inner@ == self.name_s(), r.wf(),
//@end
//@fn src/service/image.rs :: Image::tag
    requires self.wf_text(),
    ensures opt_text(r) == (match self.tod_s() { Some(Tod::Tag(x)) => Some(x), _ => None }),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); }
//@end
//@fn src/service/image.rs :: Image::as_tag
    requires self.wf_text(),
    ensures (match r { Some(t) => Some(t.0@), None => None }) == (match self.tod_s() { Some(Tod::Tag(x)) => Some(x), _ => None }),
//@end
//@fn src/service/image.rs :: Image::digest
    requires self.wf_text(),
    ensures opt_text(r) == (match self.tod_s() { Some(Tod::Digest(x)) => Some(x), _ => None }),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); }
//@end
//@fn src/service/image.rs :: Image::as_digest
    requires self.wf_text(),
    ensures (match r { Some(t) => Some(t.0@), None => None }) == (match self.tod_s() { Some(Tod::Digest(x)) => Some(x), _ => None }),
//@end
//@fn src/service/image.rs :: Image::as_tag_or_digest
    requires self.wf_text(),
    ensures opt_tod(r) == self.tod_s(),
//@proof start
    proof { lemma_wf(self); lemma_ascii(self.inner@); }
//@end
//@fn src/service/image.rs :: Image::as_parts
    requires self.wf(),
    ensures r.0.inner@ == self.name_s(), r.0.wf(), opt_tod(r.1) == self.tod_s(),
//@end
//@fn src/service/image.rs :: <AsRef<str> for Image>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.inner@ }
//@end
//@fn src/service/image.rs :: <Display for Image>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.inner@ }
//@end
