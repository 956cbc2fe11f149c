//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@include text_doc.inc
//@type src/common/keys.rs :: Identifier
//@type src/common/keys.rs :: InvalidIdentifierError
//@type src/common/keys.rs :: MapKey
//@type src/common/keys.rs :: InvalidMapKeyError
//@type src/common/keys.rs :: ExtensionKey
//@type src/common/keys.rs :: InvalidExtensionKeyError

// ------------------------------------------------------------ property-level definitions
pub open spec fn ident_char(c: char) -> bool { spec_is_ascii_alphanumeric(c) || c == '.' || c == '_' || c == '-' }
/// `[a-zA-Z0-9][a-zA-Z0-9._-]*`
pub open spec fn ident_ok(s: Seq<char>) -> bool {
    s.len() > 0 && spec_is_ascii_alphanumeric(s[0])
        && forall|i: int| 0 <= i < s.skip(1).len() ==> ident_char(#[trigger] s.skip(1)[i])
}
/// one non-empty line
pub open spec fn map_key_ok(s: Seq<char>) -> bool { s.len() > 0 && !has_c(s, '\n') }
/// one line starting with `x-`
pub open spec fn ext_key_ok(s: Seq<char>) -> bool { is_prefix(seq!['x', '-'], s) && !has_c(s, '\n') }

//@fn src/common/keys.rs :: Identifier::new | as=new<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> ident_ok(identifier.asv()), r matches Ok(k) ==> k.0@ == identifier.asv(),
//@loop 0
    invariant forall|i: int| 0 <= i < it0.index() ==> ident_char(#[trigger] it0.seq()[i]), it0.seq() == identifier.asv().skip(1),
//@proof start
    proof { x_arg_law(identifier); }
//@end

//@fn src/common/keys.rs :: MapKey::new | as=new<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> map_key_ok(key.asv()), r matches Ok(k) ==> k.0@ == key.asv(),
//@proof start
    proof { x_arg_law(key); }
//@end

//@fn src/common/keys.rs :: ExtensionKey::new | as=new<T: XTextArg> | subst=T:T | keepgen
    ensures r is Ok <==> ext_key_ok(key.asv()), r matches Ok(k) ==> k.0@ == key.asv(),
//@proof start
    proof { x_arg_law(key); }
//@end

//@fn src/common/keys.rs :: ExtensionKey::strip_prefix
    requires ext_key_ok(self.0@)
    ensures self.0@ == seq!['x', '-'] + r@
//@end

// ------------------------------------------------------------ Identifier: every conversion and document form
pub open spec fn identifier_post(s: Seq<char>, r: Option<Identifier>) -> bool { &&& r is Some <==> ident_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for Identifier { open spec fn text_post(s: Seq<char>, r: Option<Identifier>) -> bool { identifier_post(s, r) } }
//@fn expanded :: common::keys::Identifier::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<AsRef<str> for Identifier>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: common::keys::<Borrow<str> for Identifier>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<Display for Identifier>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: common::keys::<PartialEq<str> for Identifier>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: common::keys::<PartialEq<&str> for Identifier>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: common::keys::<PartialEq for Identifier>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: common::keys::<FromStr for Identifier>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidIdentifierError>
    ensures identifier_post(s@, got_ok(r))
//@end
//@fn expanded :: common::keys::<TryFrom<&str> for Identifier>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidIdentifierError;
//@end
//@fn expanded :: common::keys::<TryFrom<String> for Identifier>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidIdentifierError;
//@end
//@fn expanded :: common::keys::<TryFrom<Box<str>> for Identifier>::try_from | as=from_box
    ensures identifier_post(value@, got_ok(r))
//@end
//@fn expanded :: common::keys::<TryFrom<::std::borrow::Cow<str>> for Identifier>::try_from | as=from_cow
    ensures identifier_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: common::keys::<From<Identifier> for Box<str>>::from | as=identifier_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: common::keys::<From<Identifier> for String>::from | as=identifier_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: common::keys::<Serialize for Identifier>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: common::keys::<Deserialize for Identifier>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<Identifier>(deserializer@, r)
//@end
// ------------------------------------------------------------ MapKey: every conversion and document form
pub open spec fn mapkey_post(s: Seq<char>, r: Option<MapKey>) -> bool { &&& r is Some <==> map_key_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for MapKey { open spec fn text_post(s: Seq<char>, r: Option<MapKey>) -> bool { mapkey_post(s, r) } }
//@fn expanded :: common::keys::MapKey::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<AsRef<str> for MapKey>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: common::keys::<Borrow<str> for MapKey>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<Display for MapKey>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: common::keys::<PartialEq<str> for MapKey>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: common::keys::<PartialEq<&str> for MapKey>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: common::keys::<PartialEq for MapKey>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: common::keys::<FromStr for MapKey>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidMapKeyError>
    ensures mapkey_post(s@, got_ok(r))
//@end
//@fn expanded :: common::keys::<TryFrom<&str> for MapKey>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidMapKeyError;
//@end
//@fn expanded :: common::keys::<TryFrom<String> for MapKey>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidMapKeyError;
//@end
//@fn expanded :: common::keys::<TryFrom<Box<str>> for MapKey>::try_from | as=from_box
    ensures mapkey_post(value@, got_ok(r))
//@end
//@fn expanded :: common::keys::<TryFrom<::std::borrow::Cow<str>> for MapKey>::try_from | as=from_cow
    ensures mapkey_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: common::keys::<From<MapKey> for Box<str>>::from | as=mapkey_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: common::keys::<From<MapKey> for String>::from | as=mapkey_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: common::keys::<Serialize for MapKey>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: common::keys::<Deserialize for MapKey>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<MapKey>(deserializer@, r)
//@end
// ------------------------------------------------------------ ExtensionKey: every conversion and document form
pub open spec fn extensionkey_post(s: Seq<char>, r: Option<ExtensionKey>) -> bool { &&& r is Some <==> ext_key_ok(s) &&& r matches Some(k) ==> k.0@ == s }
impl XTextOut for ExtensionKey { open spec fn text_post(s: Seq<char>, r: Option<ExtensionKey>) -> bool { extensionkey_post(s, r) } }
//@fn expanded :: common::keys::ExtensionKey::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<AsRef<str> for ExtensionKey>::as_ref | trait=XAsRefStr | as=x_as_ref | extra=open spec fn asv(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: common::keys::<Borrow<str> for ExtensionKey>::borrow | as=borrow_text
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<Display for ExtensionKey>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
//@fn expanded :: common::keys::<PartialEq<str> for ExtensionKey>::eq | as=eq_text
    ensures r == (self.0@ == other@)
//@end
//@fn expanded :: common::keys::<PartialEq<&str> for ExtensionKey>::eq | as=eq_text_ref
    ensures r == (self.0@ == (*other)@)
//@end
//@fn expanded :: common::keys::<PartialEq for ExtensionKey>::eq | as=eq_value
    ensures r == (self.0@ == other.0@)
//@proof start
    proof { axiom_box_text_eq(self.0, other.0); }
//@end
//@fn expanded :: common::keys::<FromStr for ExtensionKey>::from_str | meth=try_into:x_text_into | retty=Result<Self, InvalidExtensionKeyError>
    ensures extensionkey_post(s@, got_ok(r))
//@end
//@fn expanded :: common::keys::<TryFrom<&str> for ExtensionKey>::try_from | as=x_from_ref | trait=XFromRef | extra=type ERef = InvalidExtensionKeyError;
//@end
//@fn expanded :: common::keys::<TryFrom<String> for ExtensionKey>::try_from | as=x_from_string | trait=XFromString | extra=type EString = InvalidExtensionKeyError;
//@end
//@fn expanded :: common::keys::<TryFrom<Box<str>> for ExtensionKey>::try_from | as=from_box
    ensures extensionkey_post(value@, got_ok(r))
//@end
//@fn expanded :: common::keys::<TryFrom<::std::borrow::Cow<str>> for ExtensionKey>::try_from | as=from_cow
    ensures extensionkey_post(value.asv(), got_ok(r))
//@end
//@fn expanded :: common::keys::<From<ExtensionKey> for Box<str>>::from | as=extensionkey_to_box | free | retty=Box<str>
    ensures r@ == value.0@
//@end
//@fn expanded :: common::keys::<From<ExtensionKey> for String>::from | as=extensionkey_to_string | free | retty=String
    ensures r@ == value.0@
//@end
//@fn expanded :: common::keys::<Serialize for ExtensionKey>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.0@)
//@end
//@fn expanded :: common::keys::<Deserialize for ExtensionKey>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures doc_post::<ExtensionKey>(deserializer@, r)
//@end
} // verus!
fn main() {}
