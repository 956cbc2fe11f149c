//@type src/service/volumes.rs :: AbsolutePath
//@type src/service/volumes.rs :: AbsolutePathError | derive=Clone, Copy
impl AbsolutePath {
    /// always absolute
    pub open spec fn wf(self) -> bool { absolute(self.0@) }
}
pub open spec fn abs_post<E>(s: Seq<char>, r: Result<AbsolutePath, E>) -> bool {
    &&& r is Ok <==> absolute(s)
    &&& r matches Ok(p) ==> p.wf() && p.0@ == s
}
//@fn src/service/volumes.rs :: AbsolutePath::new
    ensures abs_post(path@, r)
//@end
// `TryFrom<&str> for AbsolutePath` is generated by `impl_try_from!`, which calls `new`
impl XTryInto<AbsolutePath, AbsolutePathError> for &str {
    open spec fn x_try_post(self, r: Result<AbsolutePath, AbsolutePathError>) -> bool { abs_post(self@, r) }
    fn x_try_into(self) -> (r: Result<AbsolutePath, AbsolutePathError>) { AbsolutePath::new(XPath::x_of(self)) }
}
//@fn expanded :: service::volumes::<FromStr for AbsolutePath>::from_str | trait=XFromStr | as=x_from_str | extra=type E = AbsolutePathError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { abs_post(s, r) }
//@end
//@fn expanded :: service::volumes::AbsolutePath::as_path
    ensures r@ == self.0@
//@end
