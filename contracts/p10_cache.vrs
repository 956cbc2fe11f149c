//@include prelude.vrs
verus! {
//@rename IndexMap => XIndexMap
//@rename IndexMap::default => XIndexMap::new
//@method as_ref => x_as_ref
//@method next => x_next
//@method fmt => x_fmt
//@include image_parts.inc
//@include to_string.inc
//@include text_doc.inc
//@include image_whole.inc
//@flag xfor
//@include collections.inc
//@include collect.inc
impl XKey for Seq<char> { open spec fn key(&self) -> Seq<char> { *self } }
pub open spec fn is_img(s: Seq<char>) -> bool { exists|n: Seq<char>, t: Option<Tod>| #[trigger] img(s, n, t) }
impl XTextOut for Image { open spec fn text_post(s: Seq<char>, r: Option<Image>) -> bool { image_post(s, r) } }
//@fn expanded :: service::image::<TryFrom<Box<str>> for Image>::try_from | as=from_box | retty=Result<Self, InvalidImageError>
    ensures image_post(value@, got_ok(r))
//@end
impl XTextInto<Image> for Box<str> { type E = InvalidImageError; open spec fn ti_post(self, r: Option<Image>) -> bool { image_post(self@, r) } fn x_text_into(self) -> (r: Result<Image, InvalidImageError>) { Image::from_box(self) } }
impl<T> XIter<T> { pub fn x_push(&mut self, x: T) ensures final(self).rest() == old(self).rest().push(x) { self.push(x) } }
impl<T> XIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    { unimplemented!() }
}
/// std's `split`, read piece by piece
#[verifier::external_body] pub struct XPieces<'a> { v: Vec<&'a str> }
impl<'a> XPieces<'a> { pub uninterp spec fn view(&self) -> Seq<&'a str>; #[verifier::external_body] pub fn into_iter(self) -> (r: XIter<&'a str>) ensures r.rest() == self.view() { unimplemented!() } }
#[verifier::external_body]
pub fn x_pieces<'a>(s: &'a str, c: char) -> (r: XPieces<'a>) ensures r.view().len() == split_c(s@, c).len(), forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i])@ == split_c(s@, c)[i] { unimplemented!() }
pub trait XSplitList { fn x_split_l(&self, c: char) -> (r: XPieces<'_>) ensures r.view().len() == split_c(self.xs(), c).len(), forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i])@ == split_c(self.xs(), c)[i]; spec fn xs(&self) -> Seq<char>; }
impl XSplitList for str { open spec fn xs(&self) -> Seq<char> { self@ } fn x_split_l(&self, c: char) -> (r: XPieces<'_>) { x_pieces(self, c) } }
impl<K: XKey, V> XIndexMap<K, V> {
    /// taking an entry out keeps the order of the others
    #[verifier::external_body]
    pub fn shift_remove(&mut self, k: &str) -> (r: Option<V>)
        ensures ({ let i = key_at(old(self).entries(), k@); if i >= 0 { r == Some(old(self).entries()[i].1) && final(self).entries() == old(self).entries().remove(i) } else { r is None && final(self).entries() == old(self).entries() } })
    { unimplemented!() }
    /// … and `swap_remove` puts the last one in its place
    #[verifier::external_body]
    pub fn swap_remove(&mut self, k: &str) -> (r: Option<V>)
        ensures ({ let e = old(self).entries(); let i = key_at(e, k@); if i >= 0 { r == Some(e[i].1) && final(self).entries() == (if i == e.len() - 1 { e.drop_last() } else { e.drop_last().update(i, e.last()) }) } else { r is None && final(self).entries() == e } })
    { unimplemented!() }
}
// ------------------------------------------------------------ options: texts without white space
//@type src/service/build/cache.rs :: CacheOption
//@type src/service/build/cache.rs :: InvalidCacheOptionError
/// non-empty, no white space
pub open spec fn cache_option_ok(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> !spec_is_whitespace(#[trigger] s[i])
}
pub open spec fn cacheoption_post(s: Seq<char>, r: Option<CacheOption>) -> bool { &&& r is Some <==> cache_option_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for CacheOption { open spec fn text_post(s: Seq<char>, r: Option<CacheOption>) -> bool { cacheoption_post(s, r) } }
impl XKey for CacheOption { open spec fn key(&self) -> Seq<char> { self.0@ } }
//@fn expanded :: service::build::cache::CacheOption::as_str
    ensures r@ == self.0@
//@end
//@fn src/service/build/cache.rs :: CacheOption::new | as=new<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> cache_option_ok(option.asv()), r matches Ok(k) ==> k.0@ == option.asv(),
//@proof start
    proof { x_arg_law(option); }
//@end
//@fn expanded :: service::build::cache::<TryFrom<&str> for CacheOption>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidCacheOptionError;
//@end
//@fn expanded :: service::build::cache::<FromStr for CacheOption>::from_str | trait=XFromStr | as=x_from_str | meth=try_into:x_text_into | retty=Result<Self, Self::E> | extra=type E = InvalidCacheOptionError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { cacheoption_post(s, got_ok(r)) }
//@end
//@fn expanded :: service::build::cache::<Display for CacheOption>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
// ------------------------------------------------------------ caches
//@type src/service/build/cache.rs :: CacheType
//@type src/service/build/cache.rs :: Cache
//@type src/service/build/cache.rs :: ParseCacheError
pub open spec fn TYPE() -> Seq<char> { seq!['t', 'y', 'p', 'e', '='] }
pub open spec fn REGISTRY() -> Seq<char> { seq!['r', 'e', 'g', 'i', 's', 't', 'r', 'y'] }
pub open spec fn REF() -> Seq<char> { seq!['r', 'e', 'f'] }
pub type Opts = Seq<(Seq<char>, Seq<char>)>;
pub enum CKind { Image(Seq<char>), Other(Seq<char>) }
pub struct CView { pub kind: CKind, pub opts: Opts }
pub open spec fn kind(t: CacheType) -> CKind { match t { CacheType::Registry(i) => CKind::Image(i.inner@), CacheType::Other(o) => CKind::Other(o.0@) } }
pub open spec fn ov(es: Seq<(CacheOption, CacheOption)>) -> Opts { Seq::new(es.len(), |i: int| (es[i].0.0@, es[i].1.0@)) }
pub open spec fn it_ov(v: XIter<(CacheOption, CacheOption)>) -> Opts { ov(v.rest()) }
pub open spec fn cv(c: Cache) -> CView { CView { kind: kind(c.cache_type), opts: ov(c.options.entries()) } }
/// `key=value`
pub open spec fn opt_of(p: Seq<char>) -> (Seq<char>, Seq<char>) { let k = idx_c(p, '=') as int; if k >= p.len() { (p, seq![]) } else { (p.take(k), p.skip(k + 1)) } }
pub open spec fn opt_ok(e: (Seq<char>, Seq<char>)) -> bool { cache_option_ok(e.0) && cache_option_ok(e.1) }
pub open spec fn opts_of(p: Seq<Seq<char>>) -> Opts { Seq::new((p.len() - 1) as nat, |i: int| opt_of(p[i + 1])) }
pub open spec fn opts_ok(o: Opts) -> bool { forall|i: int| 0 <= i < o.len() ==> opt_ok(#[trigger] o[i]) }
/// an image, or `type=TYPE[,KEY=VALUE..]`, where the type `registry` needs a `ref`
pub open spec fn listed(s: Seq<char>) -> Option<CView> {
    let p = split_c(s, ',');
    let t = p[0].skip(5);
    let m = put_all(opts_of(p));
    let i = key_at(m, REF());
    if !is_prefix(TYPE(), p[0]) || !opts_ok(opts_of(p)) { None }
    else if t == REGISTRY() { if i >= 0 && is_img(m[i].1) { Some(CView { kind: CKind::Image(m[i].1), opts: m.remove(i) }) } else { None } }
    else if cache_option_ok(t) { Some(CView { kind: CKind::Other(t), opts: m }) } else { None }
}
pub open spec fn cache_parse(s: Seq<char>) -> Option<CView> {
    if has_c(s, ',') || is_prefix(TYPE(), s) { listed(s) }
    else if is_img(s) { Some(CView { kind: CKind::Image(s), opts: seq![] }) } else { None }
}
pub open spec fn is_view(v: Option<CView>, r: Option<Cache>) -> bool { &&& r is Some <==> v is Some &&& r matches Some(c) ==> v == Some(cv(c)) && (c.cache_type matches CacheType::Registry(i) ==> i.wf()) }
pub open spec fn cache_post(s: Seq<char>, r: Option<Cache>) -> bool { is_view(cache_parse(s), r) }
pub proof fn lemma_ov(es: Seq<(CacheOption, CacheOption)>) ensures ov(put_all(es)) =~= put_all(ov(es)) {
    let fk = |k: CacheOption| k.0@; let fv = |v: CacheOption| v.0@;
    lemma_mapped(es, fk, fv);
    assert(ov(es) =~= mapped(es, fk, fv));
    assert(ov(put_all(es)) =~= mapped(put_all(es), fk, fv));
}
pub proof fn lemma_ov_at(es: Seq<(CacheOption, CacheOption)>, k: Seq<char>) ensures key_at(es, k) == key_at(ov(es), k), -1 <= key_at(es, k) < es.len(), key_at(es, k) >= 0 ==> ov(es.remove(key_at(es, k))) =~= ov(es).remove(key_at(es, k)) {
    let fk = |k: CacheOption| k.0@; let fv = |v: CacheOption| v.0@;
    lemma_mapped_at(es, k, fk, fv);
    assert(ov(es) =~= mapped(es, fk, fv));
}
pub proof fn lemma_split_some(s: Seq<char>) ensures split_c(s, ',').len() > 0 { }
//@fn src/service/build/cache.rs :: <From<Image> for CacheType>::from | as=from_image_type
    ensures r == CacheType::Registry(image)
//@end
//@rename CacheType::from => CacheType::from_image_type
//@fn src/service/build/cache.rs :: <From<CacheType> for Cache>::from | as=from_type
    ensures r.cache_type == cache_type, ov(r.options.entries()) =~= Opts::empty(),
//@end
impl XInto<Cache> for CacheType { open spec fn x_into_post(self, u: Cache) -> bool { u.cache_type == self && ov(u.options.entries()) =~= Opts::empty() } fn x_into(self) -> (u: Cache) { Cache::from_type(self) } }
//@fn src/service/build/cache.rs :: Cache::from_image
    ensures r.cache_type == CacheType::Registry(image), ov(r.options.entries()) =~= Opts::empty(),
//@end
impl XInto<ParseCacheError> for InvalidImageError { open spec fn x_into_post(self, u: ParseCacheError) -> bool { u == ParseCacheError::Image(self) } fn x_into(self) -> (u: ParseCacheError) { ParseCacheError::Image(self) } }
impl XInto<ParseCacheError> for InvalidCacheOptionError { open spec fn x_into_post(self, u: ParseCacheError) -> bool { u == ParseCacheError::CacheOption(self) } fn x_into(self) -> (u: ParseCacheError) { ParseCacheError::CacheOption(self) } }
//@fn src/service/build/cache.rs :: Cache::parse_str | meth=try_into:x_text_into,x_split_c:x_split_l | attr=verifier::loop_isolation(false)
    ensures is_view(listed(cache@), got_ok(r))
//@proof start
    let ghost p = split_c(cache@, ',');
    let ghost o = opts_of(p);
    proof { lemma_split_some(cache@); }
//@loop 0
    invariant
        it0.seq().len() == o.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] it0.seq()[i])@ == p[i + 1],
        it_ov(__o0) =~= o.take(it0.index() as int),
        forall|i: int| 0 <= i < it0.index() ==> opt_ok(#[trigger] o[i]),
//@proof loop 0 start
    proof { assert(it0.seq()[it0.index() as int]@ == p[it0.index() + 1]); assert(o[it0.index() as int] == opt_of(p[it0.index() + 1])); lemma_idx(p[it0.index() + 1], '='); }
//@proof loop 0 end
    proof { let i = it0.index() as int; assert(o.take(i + 1) =~= o.take(i).push(o[i])); }
//@proof before __o0 . x_collect ()
    proof { assert(o.take(o.len() as int) =~= o); lemma_ov(__o0.rest()); }
//@proof before let cache_type = match
    proof { lemma_ov_at(options.entries(), REF()); }
//@end
//@fn src/service/build/cache.rs :: Cache::parse | as=parse<T: XTextArg> | subst=T:T | keepgen
    ensures cache_post(cache.asv(), got_ok(r))
//@proof start
    proof { x_arg_law(cache); }
//@end
//@fn expanded :: service::build::cache::<FromStr for Cache>::from_str | as=from_text | retty=Result<Self, ParseCacheError>
    ensures cache_post(s@, got_ok(r))
//@end
// ------------------------------------------------------------ printing
pub open spec fn kv(e: (Seq<char>, Seq<char>)) -> Seq<char> { e.0 + seq!['='] + e.1 }
pub open spec fn tail(o: Opts) -> Seq<char> decreases o.len() { if o.len() == 0 { seq![] } else { tail(o.drop_last()) + (seq![','] + kv(o.last())) } }
pub open spec fn kind_text(k: CKind) -> Seq<char> { match k { CKind::Image(i) => TYPE() + REGISTRY() + seq![',', 'r', 'e', 'f', '='] + i, CKind::Other(t) => TYPE() + t } }
pub open spec fn cache_text(v: CView) -> Seq<char> { if v.kind is Image && v.opts.len() == 0 { v.kind->Image_0 } else { kind_text(v.kind) + tail(v.opts) } }
//@fn src/service/build/cache.rs :: <Display for CacheType>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { kind_text(kind(*self)) }
//@end
//@fn src/service/build/cache.rs :: <Display for Cache>::fmt | trait=XDisplay | as=x_fmt | attr=verifier::loop_isolation(false) | extra=open spec fn x_disp(&self) -> Seq<char> { cache_text(cv(*self)) }
//@proof start
    let ghost o = ov(self.options.entries());
    let ghost f0 = f@;
//@loop 0
    invariant
        it0.seq().len() == o.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] it0.seq()[i]).0.0@ == o[i].0 && it0.seq()[i].1.0@ == o[i].1,
        f@ =~= f0 + kind_text(kind(self.cache_type)) + tail(o.take(it0.index() as int)),
//@proof loop 0 end
    proof { let i = it0.index() as int; assert(o.take(i + 1).drop_last() =~= o.take(i)); assert(it0.seq()[i].0.0@ == o[i].0); }
//@proof tail
    proof { assert(o.take(o.len() as int) =~= o); }
//@end
//@fn expanded :: service::build::cache::<Serialize for Cache>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(cache_text(cv(*self)))
//@end
impl XTextOut for Cache { open spec fn text_post(s: Seq<char>, r: Option<Cache>) -> bool { cache_post(s, r) } }
//@fn expanded :: service::build::cache::<TryFrom<&str> for Cache>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = ParseCacheError; | retty=Result<Self, ParseCacheError>
//@end
//@fn expanded :: service::build::cache::<TryFrom<String> for Cache>::try_from | as=x_from_string | trait=XFromString | extra=type EString = ParseCacheError; | retty=Result<Self, ParseCacheError>
//@end
//@fn expanded :: service::build::cache::<TryFrom<Box<str>> for Cache>::try_from | as=from_box | retty=Result<Self, ParseCacheError>
    ensures cache_post(value@, got_ok(r))
//@end
//@fn expanded :: service::build::cache::<TryFrom<::std::borrow::Cow<str>> for Cache>::try_from | as=from_cow | retty=Result<Self, ParseCacheError>
    ensures cache_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::build::cache::<Deserialize for Cache>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Cache>(deserializer@, r)
//@end
// ------------------------------------------------------------ the kinds
//@fn src/service/build/cache.rs :: CacheType::is_registry
    ensures r == (*self is Registry)
//@end
//@fn src/service/build/cache.rs :: CacheType::is_other
    ensures r == (*self is Other)
//@end
//@fn src/service/build/cache.rs :: CacheType::as_registry
    ensures r is Some <==> *self is Registry, r matches Some(i) ==> *self == CacheType::Registry(*i),
//@end
//@fn src/service/build/cache.rs :: CacheType::as_other
    ensures r is Some <==> *self is Other, r matches Some(o) ==> *self == CacheType::Other(*o),
//@end
// ------------------------------------------------------------ every part as an option
pub open spec fn without<K: XKey, V>(es: Seq<(K, V)>, k: Seq<char>) -> Seq<(K, V)> { let i = key_at(es, k); if i >= 0 { es.remove(i) } else { es } }
pub open spec fn TYPEKEY() -> Seq<char> { seq!['t', 'y', 'p', 'e'] }
pub open spec fn front(e: (Seq<char>, Seq<char>), o: Opts) -> Opts { seq![e] + without(o, e.0) }
impl XIndexMap<CacheOption, CacheOption> {
    /// a known key is moved there and gets the new value
    #[verifier::external_body]
    pub fn shift_insert(&mut self, at: usize, k: CacheOption, v: CacheOption) -> (r: Option<CacheOption>)
        requires at == 0
        ensures ov(final(self).entries()) == front((k.0@, v.0@), ov(old(self).entries()))
    { unimplemented!() }
}
/// `type` first, then the image of a registry
pub open spec fn all_options(v: CView) -> Opts {
    match v.kind { CKind::Image(i) => front((TYPEKEY(), REGISTRY()), front((REF(), i), v.opts)), CKind::Other(t) => front((TYPEKEY(), t), v.opts) }
}
pub assume_specification[ std::string::String::into_boxed_str ](s: String) -> (r: Box<str>) ensures r@ == s@;
//@fn src/service/build/cache.rs :: <From<Image> for CacheOption>::from | as=from_image
    ensures r.0@ == value.inner@
//@end
impl XInto<CacheOption> for Image { open spec fn x_into_post(self, u: CacheOption) -> bool { u.0@ == self.inner@ } fn x_into(self) -> (u: CacheOption) { CacheOption::from_image(self) } }
//@fn src/service/build/cache.rs :: CacheOption::pair_from_image
    ensures r.0.0@ == REF(), r.1.0@ == image.inner@
//@end
//@fn src/service/build/cache.rs :: Cache::into_options
    ensures ov(r.entries()) =~= all_options(cv(self))
//@end
// ------------------------------------------------------------ a printed cache reads back
pub open spec fn plain(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '.' || c == '_' || c == '-' || c == '/' || c == ':' || c == '@' || c == '=' || c == '+' }
pub open spec fn all_plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
pub open spec fn no_eq(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '=' }
pub proof fn lemma_split_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < split_c(s, '/').len() ==> all_plain(#[trigger] split_c(s, '/')[i]) && no_eq(split_c(s, '/')[i]),
    ensures all_plain(s), no_eq(s),
    decreases s.len()
{
    lemma_idx(s, '/');
    let k = idx_c(s, '/') as int;
    let p = split_c(s, '/');
    assert(all_plain(p[0]) && no_eq(p[0]));
    if k < s.len() {
        let t = s.skip(k + 1);
        assert forall|i: int| 0 <= i < split_c(t, '/').len() implies all_plain(#[trigger] split_c(t, '/')[i]) && no_eq(split_c(t, '/')[i]) by { assert(p[i + 1] == split_c(t, '/')[i]); }
        lemma_split_plain(t);
        assert(p[0] == s.take(k));
        assert forall|i: int| 0 <= i < s.len() implies plain(#[trigger] s[i]) && s[i] != '=' by {
            if i < k { assert(s.take(k)[i] == s[i]); } else if i > k { assert(t[i - k - 1] == s[i]); }
        }
    }
}
pub proof fn lemma_name_plain(s: Seq<char>)
    ensures name_ok(s) ==> all_plain(s) && no_eq(s) && s.len() > 0 && (alnum(s[0]))
{
    if name_ok(s) {
        let f = split_c(s, '/')[0];
        lemma_idx(f, ':'); lemma_idx(s, '/');
        let k = idx_c(f, ':') as int;
        assert(all_plain(f) && no_eq(f)) by {
            if has_c(f, '.') && has_c(f, ':') {
                let d = f.skip(k + 1);
                lemma_uint_digit(d, u16::MAX as nat);
                assert forall|i: int| 0 <= i < f.len() implies plain(#[trigger] f[i]) && f[i] != '=' by {
                    if i < k { assert(f.take(k)[i] == f[i]); } else if i > k { assert(d[i - k - 1] == f[i]); }
                }
            }
        }
        lemma_split_plain(s);
        assert(f.len() > 0 && alnum(f[0])) by { if has_c(f, '.') && has_c(f, ':') { assert(f.take(k)[0] == f[0]); } }
        assert(s[0] == f[0]);
    }
}
/// an image has no comma and no white space, and is not a list of options
pub proof fn lemma_img_plain(s: Seq<char>)
    requires is_img(s),
    ensures all_plain(s), s.len() > 0, !has_c(s, ','), cache_option_ok(s), !is_prefix(TYPE(), s),
{
    let (n, t) = choose|n: Seq<char>, t: Option<Tod>| #[trigger] img(s, n, t);
    lemma_name_plain(n);
    match t {
        None => {}
        Some(x) => {
            let y = match x { Tod::Tag(y) => y, Tod::Digest(y) => y };
            match x { Tod::Tag(y) => {} Tod::Digest(y) => {
                lemma_idx(y, ':');
                let k = idx_c(y, ':') as int;
                assert forall|i: int| 0 <= i < y.len() implies plain(#[trigger] y[i]) by { if i < k { assert(y.take(k)[i] == y[i]); } else if i > k { assert(y.skip(k + 1)[i - k - 1] == y[i]); } }
            } }
            assert forall|i: int| 0 <= i < s.len() implies plain(#[trigger] s[i]) by { if i < n.len() { assert(s[i] == n[i]); } else if i > n.len() { assert(s[i] == y[i - n.len() - 1]); } }
        }
    }
    lemma_idx(s, ',');
    if is_prefix(TYPE(), s) {
        assert(forall|i: int| 0 <= i < 5 ==> s[i] == TYPE()[i]);
        if n.len() > 4 { assert(n[4] == s[4]); assert(s[4] == '='); }
        else if n.len() == 4 { assert(s[4] == TYPE()[4]); }
        else { let j = n.len() as int; assert(s[j] == TYPE()[j]); assert(s[0] == n[0]); }
    }
}
pub open spec fn distinct(o: Opts) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0 }
pub open spec fn opt_plain(e: (Seq<char>, Seq<char>)) -> bool { opt_ok(e) && !has_c(e.0, ',') && !has_c(e.0, '=') && !has_c(e.1, ',') }
pub open spec fn opts_plain(o: Opts) -> bool { forall|i: int| 0 <= i < o.len() ==> opt_plain(#[trigger] o[i]) }
/// the values parsing gives
pub open spec fn cache_wf(v: CView) -> bool {
    &&& distinct(v.opts) && opts_plain(v.opts)
    &&& match v.kind { CKind::Image(i) => is_img(i) && key_at(v.opts, REF()) < 0, CKind::Other(t) => cache_option_ok(t) && !has_c(t, ',') && t != REGISTRY() }
}
pub proof fn lemma_key_at(o: Opts, k: Seq<char>)
    ensures -1 <= key_at(o, k) < o.len(), key_at(o, k) >= 0 ==> o[key_at(o, k)].0 == k, key_at(o, k) < 0 ==> forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 != k,
    decreases o.len()
{ if o.len() > 0 { lemma_key_at(o.drop_last(), k); let i = key_at(o, k); if i >= 0 && i < o.len() - 1 { assert(o.drop_last()[i] == o[i]); }
    assert forall|i: int| 0 <= i < o.len() && key_at(o, k) < 0 implies (#[trigger] o[i]).0 != k by { if i < o.len() - 1 { assert(o.drop_last()[i] == o[i]); } } } }
pub proof fn lemma_put_all(o: Opts)
    ensures distinct(put_all(o)), opts_plain(o) ==> opts_plain(put_all(o)), distinct(o) ==> put_all(o) == o,
    decreases o.len()
{
    if o.len() > 0 {
        let d = o.drop_last();
        lemma_put_all(d);
        let a = put_all(d);
        let e = o.last();
        lemma_key_at(a, e.0);
        let i = key_at(a, e.0);
        if opts_plain(o) { assert forall|j: int| 0 <= j < d.len() implies opt_plain(#[trigger] d[j]) by { assert(o[j] == d[j]); } assert(opt_plain(o[o.len() - 1])); if i >= 0 { assert(opt_plain(a[i])); } }
        if distinct(o) {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(o[i] == d[i] && o[j] == d[j]); }
            if i >= 0 { assert(d[i] == o[i] && o[o.len() - 1] == e); }
            assert(d.push(e) =~= o);
        }
    }
}
/// a last piece
pub proof fn lemma_split_last(a: Seq<char>, b: Seq<char>)
    requires !has_c(b, ','),
    ensures split_c(a + seq![','] + b, ',') == split_c(a, ',').push(b)
    decreases a.len()
{
    let s = a + seq![','] + b;
    lemma_idx(a, ','); lemma_idx(b, ',');
    let k = idx_c(a, ',') as int;
    if k >= a.len() {
        assert forall|i: int| 0 <= i < a.len() implies s[i] != ',' by { assert(s[i] == a[i]); }
        assert(s[a.len() as int] == ',');
        lemma_idx_at(s, ',', a.len() as int);
        assert(s.take(k) =~= a);
        assert(s.skip(k + 1) =~= b);
        assert(split_c(b, ',') =~= seq![b]);
        assert(split_c(s, ',') =~= seq![a] + seq![b]);
        assert(split_c(a, ',') =~= seq![a]);
    } else {
        assert forall|i: int| 0 <= i < k implies s[i] != ',' by { assert(s[i] == a[i]); }
        assert(s[k] == a[k]);
        lemma_idx_at(s, ',', k);
        let a2 = a.skip(k + 1);
        lemma_split_last(a2, b);
        assert(s.take(k) =~= a.take(k));
        assert(s.skip(k + 1) =~= a2 + seq![','] + b);
        assert(split_c(s, ',') =~= seq![a.take(k)] + split_c(a2, ',').push(b));
        assert(split_c(a, ',') =~= seq![a.take(k)] + split_c(a2, ','));
    }
}
pub open spec fn kvs(o: Opts) -> Seq<Seq<char>> { Seq::new(o.len(), |i: int| kv(o[i])) }
pub proof fn lemma_kv(e: (Seq<char>, Seq<char>))
    requires opt_plain(e),
    ensures !has_c(kv(e), ','), opt_of(kv(e)) == e,
{
    let t = kv(e);
    let k = e.0.len() as int;
    lemma_idx(e.0, '='); lemma_idx(e.0, ','); lemma_idx(e.1, ',');
    assert forall|i: int| 0 <= i < t.len() implies t[i] != ',' by { if i < k { assert(t[i] == e.0[i]); } else if i > k { assert(t[i] == e.1[i - k - 1]); } }
    lemma_idx(t, ',');
    assert forall|i: int| 0 <= i < k implies t[i] != '=' by { assert(t[i] == e.0[i]); }
    assert(t[k] == '=');
    lemma_idx_at(t, '=', k);
    assert(t.take(k) =~= e.0);
    assert(t.skip(k + 1) =~= e.1);
}
pub proof fn lemma_split_list(h: Seq<char>, o: Opts)
    requires !has_c(h, ','), opts_plain(o),
    ensures split_c(h + tail(o), ',') =~= seq![h] + kvs(o), o.len() > 0 ==> has_c(h + tail(o), ','),
    decreases o.len()
{
    if o.len() == 0 { lemma_idx(h, ','); assert(h + tail(o) =~= h); assert(split_c(h, ',') =~= seq![h]); }
    else {
        let d = o.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies opt_plain(#[trigger] d[j]) by { assert(o[j] == d[j]); }
        assert(opt_plain(o[o.len() - 1]));
        lemma_split_list(h, d);
        lemma_kv(o.last());
        let b = kv(o.last());
        assert(h + tail(o) =~= (h + tail(d)) + seq![','] + b);
        lemma_split_last(h + tail(d), b);
        assert(kvs(o) =~= kvs(d).push(b));
        let s = h + tail(o);
        lemma_idx(s, ',');
        assert(s[(h + tail(d)).len() as int] == ',');
    }
}
pub proof fn lemma_tail_front(e: (Seq<char>, Seq<char>), o: Opts)
    ensures tail(seq![e] + o) =~= seq![','] + kv(e) + tail(o)
    decreases o.len()
{
    let q = seq![e] + o;
    if o.len() == 0 { assert(q.drop_last() =~= Opts::empty()); assert(tail(q.drop_last()) =~= seq![]); }
    else { lemma_tail_front(e, o.drop_last()); assert(q.drop_last() =~= seq![e] + o.drop_last()); assert(q.last() == o.last()); }
}
/// the pieces of a text with a piece in front
pub proof fn lemma_pieces_plain(s: Seq<char>)
    ensures forall|i: int| 0 <= i < split_c(s, ',').len() ==> !has_c(#[trigger] split_c(s, ',')[i], ',')
    decreases s.len()
{
    lemma_idx(s, ',');
    let k = idx_c(s, ',') as int;
    if k < s.len() {
        lemma_pieces_plain(s.skip(k + 1));
        lemma_idx(s.take(k), ',');
        let p = split_c(s, ',');
        assert forall|i: int| 0 <= i < p.len() implies !has_c(#[trigger] p[i], ',') by { if i > 0 { assert(p[i] == split_c(s.skip(k + 1), ',')[i - 1]); } }
    }
}
/// a parsed cache is printable
pub proof fn theorem_parsed(s: Seq<char>)
    requires cache_parse(s) is Some,
    ensures cache_wf(cache_parse(s)->0)
{
    if has_c(s, ',') || is_prefix(TYPE(), s) {
        let p = split_c(s, ',');
        lemma_pieces_plain(s);
        let o = opts_of(p);
        assert forall|i: int| 0 <= i < o.len() implies opt_plain(#[trigger] o[i]) by {
            let q = p[i + 1];
            lemma_idx(q, '='); lemma_idx(q, ',');
            let k = idx_c(q, '=') as int;
            assert(opt_ok(o[i]));
            lemma_idx(o[i].0, ','); lemma_idx(o[i].0, '='); lemma_idx(o[i].1, ',');
        }
        lemma_put_all(o);
        let m = put_all(o);
        lemma_key_at(m, REF());
        let i = key_at(m, REF());
        let t = p[0].skip(5);
        lemma_idx(p[0], ','); lemma_idx(t, ',');
        if t == REGISTRY() { let r = m.remove(i); lemma_key_at(r, REF());
            assert forall|j: int| 0 <= j < r.len() implies r[j].0 != REF() && opt_plain(#[trigger] r[j]) by { assert(r[j] == m[if j < i { j } else { j + 1 }]); }
            assert forall|a: int, b: int| 0 <= a < b < r.len() implies (#[trigger] r[a]).0 != (#[trigger] r[b]).0 by { assert(r[a] == m[if a < i { a } else { a + 1 }]); assert(r[b] == m[if b < i { b } else { b + 1 }]); }
        }
    }
}
pub proof fn lemma_opts_of(h: Seq<char>, o: Opts)
    requires opts_plain(o),
    ensures opts_of(seq![h] + kvs(o)) =~= o
{ let p = seq![h] + kvs(o); assert forall|i: int| 0 <= i < o.len() implies opts_of(p)[i] == #[trigger] o[i] by { lemma_kv(o[i]); assert(p[i + 1] == kvs(o)[i]); } }
/// printing and parsing again
proof fn lemma_round_image(v: CView, i: Seq<char>)
    requires cache_wf(v), v.kind == CKind::Image(i),
    ensures cache_parse(cache_text(v)) == Some(v)
{
    let s = cache_text(v);
    lemma_img_plain(i);
    if v.opts.len() == 0 { assert(v.opts =~= seq![]); assert(s == i); assert(cache_parse(s)->0 == v); }
    else {
        let h = TYPE() + REGISTRY();
        let e = (REF(), i);
        let o = seq![e] + v.opts;
        lemma_tail_front(e, v.opts);
        assert(seq![','] + kv(e) =~= seq![',', 'r', 'e', 'f', '='] + i);
        assert(s =~= h + tail(o));
        lemma_idx(REF(), ','); lemma_idx(REF(), '='); lemma_idx(h, ',');
        assert(opt_plain(e));
        lemma_key_at(v.opts, REF());
        assert forall|j: int| 0 <= j < o.len() implies opt_plain(#[trigger] o[j]) by { if j > 0 { assert(o[j] == v.opts[j - 1]); } }
        assert forall|a: int, b: int| 0 <= a < b < o.len() implies (#[trigger] o[a]).0 != (#[trigger] o[b]).0 by { assert(o[b] == v.opts[b - 1]); if a > 0 { assert(o[a] == v.opts[a - 1]); } }
        lemma_split_list(h, o);
        lemma_opts_of(h, o);
        lemma_put_all(o);
        lemma_key_at(o, REF());
        let k = key_at(o, REF());
        assert(k == 0) by { if k != 0 { assert(o[0].0 == o[k].0); } }
        assert(o.remove(0) =~= v.opts);
        assert(h.skip(5) =~= REGISTRY());
        assert(split_c(s, ',')[0] == h);
        assert(h.take(5) =~= TYPE());
        assert(s.take(5) =~= TYPE());
        assert(is_prefix(TYPE(), s));
        assert(put_all(opts_of(split_c(s, ','))) == o);
        assert(opts_ok(o));
        assert(o[0].1 == i);
        assert(listed(s)->0 == v);
    }
}
proof fn lemma_round_other(v: CView, t: Seq<char>)
    requires cache_wf(v), v.kind == CKind::Other(t),
    ensures cache_parse(cache_text(v)) == Some(v)
{
    hide(is_img);
    let s = cache_text(v);
    let h = TYPE() + t;
    lemma_idx(t, ','); lemma_idx(h, ',');
    assert forall|i: int| 0 <= i < h.len() implies h[i] != ',' by { if i >= 5 { assert(h[i] == t[i - 5]); } }
    lemma_split_list(h, v.opts);
    lemma_opts_of(h, v.opts);
    lemma_put_all(v.opts);
    assert(h.skip(5) =~= t);
    assert(s =~= h + tail(v.opts));
    assert(split_c(s, ',')[0] == h);
    assert(h.take(5) =~= TYPE());
    assert(s.take(5) =~= TYPE());
    assert(is_prefix(TYPE(), s));
}
pub proof fn theorem_round_trip(v: CView)
    requires cache_wf(v),
    ensures cache_parse(cache_text(v)) == Some(v)
{
    match v.kind { CKind::Image(i) => lemma_round_image(v, i), CKind::Other(t) => lemma_round_other(v, t) }
}
} // verus!
fn main() {}
