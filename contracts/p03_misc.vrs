//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@include text_doc.inc
//@type src/service/ulimit.rs :: Resource
//@type src/service/ulimit.rs :: InvalidResourceError
//@type src/service/build/cache.rs :: CacheOption
//@type src/service/build/cache.rs :: InvalidCacheOptionError

/// one or more lower case letters
pub open spec fn resource_ok(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> spec_is_ascii_lowercase(#[trigger] s[i])
}
/// non-empty, no white space
pub open spec fn cache_option_ok(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> !spec_is_whitespace(#[trigger] s[i])
}
//@fn src/service/ulimit.rs :: Resource::new | as=new<T: XTextArg> | subst=T:T | keepgen | attr=verifier::loop_isolation(false)
    ensures r is Ok <==> resource_ok(resource.asv()), r matches Ok(k) ==> k.0@ == resource.asv(),
//@loop 0
    invariant it0.seq() == resource.asv(), forall|i: int| 0 <= i < it0.index() ==> spec_is_ascii_lowercase(#[trigger] resource.asv()[i]),
//@proof start
    proof { x_arg_law(resource); }
//@end
//@fn src/service/build/cache.rs :: CacheOption::new | as=new<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> cache_option_ok(option.asv()), r matches Ok(k) ==> k.0@ == option.asv(),
//@proof start
    proof { x_arg_law(option); }
//@end
// ------------------------------------------------------------ Resource: every conversion and document form
pub open spec fn resource_post(s: Seq<char>, r: Option<Resource>) -> bool { &&& r is Some <==> resource_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for Resource { open spec fn text_post(s: Seq<char>, r: Option<Resource>) -> bool { resource_post(s, r) } }
//@fn expanded :: service::ulimit::Resource::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: service::ulimit::<AsRef<str> for Resource>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::ulimit::<Borrow<str> for Resource>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: service::ulimit::<Display for Resource>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::ulimit::<PartialEq<str> for Resource>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: service::ulimit::<PartialEq<&str> for Resource>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: service::ulimit::<PartialEq for Resource>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: service::ulimit::<FromStr for Resource>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidResourceError>
    ensures resource_post(s@, got_ok(r))
//@end
//@fn expanded :: service::ulimit::<TryFrom<&str> for Resource>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidResourceError;
//@end
//@fn expanded :: service::ulimit::<TryFrom<String> for Resource>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidResourceError;
//@end
//@fn expanded :: service::ulimit::<TryFrom<Box<str>> for Resource>::try_from | as=from_box
    ensures resource_post(value@, got_ok(r))
//@end
//@fn expanded :: service::ulimit::<TryFrom<::std::borrow::Cow<str>> for Resource>::try_from | as=from_cow
    ensures resource_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::ulimit::<From<Resource> for Box<str>>::from | as=resource_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: service::ulimit::<From<Resource> for String>::from | as=resource_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: service::ulimit::<Serialize for Resource>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: service::ulimit::<Deserialize for Resource>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Resource>(deserializer@, r)
//@end
// ------------------------------------------------------------ CacheOption: every conversion and document form
pub open spec fn cacheoption_post(s: Seq<char>, r: Option<CacheOption>) -> bool { &&& r is Some <==> cache_option_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for CacheOption { open spec fn text_post(s: Seq<char>, r: Option<CacheOption>) -> bool { cacheoption_post(s, r) } }
//@fn expanded :: service::build::cache::CacheOption::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: service::build::cache::<AsRef<str> for CacheOption>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::build::cache::<Borrow<str> for CacheOption>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: service::build::cache::<Display for CacheOption>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: service::build::cache::<PartialEq<str> for CacheOption>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: service::build::cache::<PartialEq<&str> for CacheOption>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: service::build::cache::<PartialEq for CacheOption>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: service::build::cache::<FromStr for CacheOption>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidCacheOptionError>
    ensures cacheoption_post(s@, got_ok(r))
//@end
//@fn expanded :: service::build::cache::<TryFrom<&str> for CacheOption>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidCacheOptionError;
//@end
//@fn expanded :: service::build::cache::<TryFrom<String> for CacheOption>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidCacheOptionError;
//@end
//@fn expanded :: service::build::cache::<TryFrom<Box<str>> for CacheOption>::try_from | as=from_box
    ensures cacheoption_post(value@, got_ok(r))
//@end
//@fn expanded :: service::build::cache::<TryFrom<::std::borrow::Cow<str>> for CacheOption>::try_from | as=from_cow
    ensures cacheoption_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: service::build::cache::<From<CacheOption> for Box<str>>::from | as=cacheoption_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: service::build::cache::<From<CacheOption> for String>::from | as=cacheoption_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: service::build::cache::<Serialize for CacheOption>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: service::build::cache::<Deserialize for CacheOption>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<CacheOption>(deserializer@, r)
//@end
} // verus!
fn main() {}
