impl XFromU16 for Range { open spec fn u16_post(n: u16, r: Range) -> bool { r.wf() && bounds(r) == (n as int, n as int) } fn x_from_u16(n: u16) -> (r: Range) { Range::from_u16(n) } }
//@fn src/service/ports.rs :: <Serialize for Range>::serialize | subst=S:XAnySer | retty=Result<XAnyOk, XErr> | trait=XSerAny | extra=open spec fn node(&self) -> XAnyNode { if self.end is Some { XAnyNode::Text(self.x_disp()) } else { XAnyNode::Int(self.start as int) } }
//@end
//@fn src/service/ports.rs :: <Deserialize for Range>::deserialize | subst=D:XAnyDe | retty=Result<Self, XErr>
    ensures port_doc::<Range>(deserializer.node(), r)
//@end
/// a written range reads back as the same range
pub proof fn theorem_range_doc(a: Range, r: Result<Range, XErr>)
    requires a.wf(), port_doc::<Range>(a.node(), r)
    ensures r == Ok::<Range, XErr>(a)
{
    theorem_range_text(a); theorem_range_round_trip(a);
    if r is Ok { theorem_canonical(a, r->Ok_0); }
}
