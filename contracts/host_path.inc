//@type src/service/volumes.rs :: HostPath
//@type src/service/volumes.rs :: HostPathError | derive=Clone, Copy
/// absolute, or starting with the component `.` or `..`
pub open spec fn host(s: Seq<char>) -> bool { absolute(s) || first_piece(s) == DOT() || first_piece(s) == DOTS() }
impl HostPath {
    pub open spec fn wf(self) -> bool { host(self.0@) }
}
pub open spec fn host_post<E>(s: Seq<char>, r: Result<HostPath, E>) -> bool {
    &&& r is Ok <==> host(s)
    &&& r matches Ok(p) ==> p.wf() && p.0@ == s
}
//@fn src/service/volumes.rs :: HostPath::new
    ensures host_post(path@, r)
//@end
// `TryFrom<&str> for HostPath` is generated by `impl_try_from!`, which calls `new`
impl XTryInto<HostPath, HostPathError> for &str {
    open spec fn x_try_post(self, r: Result<HostPath, HostPathError>) -> bool { host_post(self@, r) }
    fn x_try_into(self) -> (r: Result<HostPath, HostPathError>) { HostPath::new(XPath::x_of(self)) }
}
//@fn expanded :: service::volumes::<FromStr for HostPath>::from_str | trait=XFromStr | as=x_from_str | extra=type E = HostPathError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { host_post(s, r) }
//@end
//@fn expanded :: service::volumes::HostPath::as_path
    ensures r@ == self.0@
//@end
