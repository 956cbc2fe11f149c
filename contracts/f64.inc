pub uninterp spec fn fpos(f: f64) -> bool;
pub uninterp spec fn ffin(f: f64) -> bool;
pub trait XF64 { spec fn fv(self) -> f64; fn x_is_sign_positive(self) -> (r: bool) ensures r == fpos(self.fv()); fn x_is_finite(self) -> (r: bool) ensures r == ffin(self.fv()); }
impl XF64 for f64 {
    open spec fn fv(self) -> f64 { self }
    #[verifier::external_body] fn x_is_sign_positive(self) -> (r: bool) { self.is_sign_positive() }
    #[verifier::external_body] fn x_is_finite(self) -> (r: bool) { self.is_finite() }
}
pub uninterp spec fn of_int(n: int) -> f64;
#[verifier::external_body]
/// `n as f64`
pub broadcast proof fn axiom_of_int(n: int) requires i64::MIN <= n <= u64::MAX ensures ffin(#[trigger] of_int(n)), fpos(of_int(n)) <==> n >= 0 { }
pub trait XAsF64: Sized { spec fn nv(self) -> int; fn x_as_f64(self) -> (r: f64) ensures r == of_int(self.nv()); }
impl XAsF64 for u64 { open spec fn nv(self) -> int { self as int } #[verifier::external_body] fn x_as_f64(self) -> (r: f64) { self as f64 } }
impl XAsF64 for i64 { open spec fn nv(self) -> int { self as int } #[verifier::external_body] fn x_as_f64(self) -> (r: f64) { self as f64 } }
impl XInto<f64> for f64 { open spec fn x_into_post(self, u: f64) -> bool { u == self } fn x_into(self) -> (u: f64) { self } }
impl XInto<f64> for u32 { open spec fn x_into_post(self, u: f64) -> bool { u == of_int(self as int) } #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
impl XInto<f64> for i32 { open spec fn x_into_post(self, u: f64) -> bool { u == of_int(self as int) } #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
//@type src/service/deploy/resources.rs :: Cpus | derive=Clone, Copy
//@type src/service/deploy/resources.rs :: InvalidCpusError | derive=Clone, Copy
impl Cpus { pub open spec fn num(&self) -> f64 { self.0 } pub open spec fn wf(&self) -> bool { fpos(self.num()) && ffin(self.num()) } }
pub open spec fn cpus_post(n: f64, r: Result<Cpus, InvalidCpusError>) -> bool { (r is Ok <==> fpos(n) && ffin(n)) && (r matches Ok(p) ==> p.wf() && p.num() == n) }
//@method is_sign_positive => x_is_sign_positive
//@method is_finite => x_is_finite
