// ------------------------------------------------------------ documents of types read through `FromStr` (after text_doc.inc)
/// the outcome of reading a text `s` agrees with what parsing `s` may give
pub open spec fn parsed<T: XFromStr>(s: Seq<char>, r: Option<T>) -> bool { exists|q: Result<T, T::E>| #[trigger] T::x_parse_post(s, q) && got_ok(q) == r }
/// a document holds a text which parses to the value; everything else is refused
pub open spec fn str_doc<T: XFromStr>(n: XTextNode, r: Result<T, XErr>) -> bool {
    match n { XTextNode::Text(s) => parsed::<T>(s, got_ok(r)), XTextNode::Other => r is Err }
}
//@type src/serde.rs :: FromStrVisitor
//@fn src/serde.rs :: FromStrVisitor::new
    ensures true
//@end
//@fn src/serde.rs :: <Default for FromStrVisitor<V>>::default
    ensures true
//@end
//@fn src/serde.rs :: <Visitor for FromStrVisitor<V>>::visit_str | subst=E:XErr | retty=Result<V, XErr> | trait=XVisitStr | gen=<V: XFromStr> | extra=type Value = V; open spec fn visit_post(s: Seq<char>, r: Result<V, XErr>) -> bool { parsed::<V>(s, got_ok(r)) }
//@end
//@fn src/serde.rs :: FromStrVisitor::deserialize | subst=D:XTextDe | retty=Result<V, XErr> | noimplgen | gen=<V: XFromStr> | self=FromStrVisitor<V>
    ensures str_doc::<V>(deserializer@, r)
//@end
