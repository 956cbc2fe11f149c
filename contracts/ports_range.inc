//@fn src/service/ports.rs :: Range::new
    ensures new_post(start as int, opt_int(end), r)
//@end
//@fn src/service/ports.rs :: Range::start
    ensures r == self.start
//@end
//@fn src/service/ports.rs :: Range::end
    ensures r == self.end
//@end
//@fn src/service/ports.rs :: Range::size
    requires self.wf()
    ensures r == hi(*self) - lo(*self) + 1
//@end
//@fn src/service/ports.rs :: <From<u16> for Range>::from | as=from_u16
    ensures r.wf(), bounds(r) == (start as int, start as int)
//@end
impl XInto<Range> for u16 {
    open spec fn x_into_post(self, u: Range) -> bool { u.wf() && bounds(u) == (self as int, self as int) }
    fn x_into(self) -> (u: Range) { Range::from_u16(self) }
}
//@fn src/service/ports.rs :: parse_range_int
    ensures r is Ok <==> port(value@) is Some, r matches Ok(v) ==> v as nat == port(value@)->0
//@end
//@fn src/service/ports.rs :: <FromStr for Range>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseRangeError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { range_post(s, r) }
//@proof start
    proof { lemma_idx(s@, '-'); }
//@end
//@fn src/service/ports.rs :: <Display for Range>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { disp_range(*self) }
//@end
/// the printed text of any stored value
pub open spec fn disp_range(r: Range) -> Seq<char> {
    match r.end { Some(e) => dec(r.start as nat) + seq!['-'] + dec(e as nat), None => dec(r.start as nat) }
}
/// the stored values print as their bounds
pub proof fn theorem_range_text(r: Range)
    requires r.wf(),
    ensures disp_range(r) == range_text(bounds(r)),
{ }
