//@include prelude.vrs
verus! {
//@rename NonZeroU16 => XNonZeroU16
//@rename Self::new => Weight::new_nonzero
//@rename Self::DEFAULT => WEIGHT_DEFAULT
//@method fmt => x_fmt
//@include std_more.inc
// ------------------------------------------------------------ std's `NonZeroU16` (trusted)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct XNonZeroU16 { v: u16 }
use core::num::TryFromIntError;
impl XNonZeroU16 {
    pub uninterp spec fn num(&self) -> u16;
    #[verifier::external_body]
    pub fn get(self) -> (r: u16) ensures r == self.num(), r != 0 { unimplemented!() }
    /// unsafe: the number must not be 0
    #[verifier::external_body]
    pub const unsafe fn new_unchecked(n: u16) -> (r: XNonZeroU16) requires n != 0 ensures r.num() == n { XNonZeroU16 { v: n } }
    #[verifier::external_body]
    pub fn new(n: u16) -> (r: Option<XNonZeroU16>) ensures r is Some <==> n != 0, r matches Some(v) ==> v.num() == n { unimplemented!() }
}
impl XDisplay for XNonZeroU16 { open spec fn x_disp(&self) -> Seq<char> { dec(self.num() as nat) } #[verifier::external_body] fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() } }
/// std's `Infallible` has no values; that none occurs is part of the contracts below
pub struct Infallible;
impl XTryInto<XNonZeroU16, Infallible> for XNonZeroU16 {
    open spec fn x_try_post(self, r: Result<XNonZeroU16, Infallible>) -> bool { r == Ok::<XNonZeroU16, Infallible>(self) }
    fn x_try_into(self) -> (r: Result<XNonZeroU16, Infallible>) { Ok(self) }
}
//@type src/service/blkio_config.rs :: Weight | derive=Clone, Copy
//@type src/service/blkio_config.rs :: WeightRangeError | derive=Clone, Copy
impl Weight { pub open spec fn num(&self) -> u16 { self.0.num() } pub open spec fn wf(&self) -> bool { 10 <= self.num() <= 1000 } }
pub open spec fn weight_post(n: u16, r: Result<Weight, WeightRangeError>) -> bool { (r is Ok <==> 10 <= n <= 1000) && (r matches Ok(p) ==> p.wf() && p.num() == n) }
// `From<Infallible>` has no cases
impl From<Infallible> for WeightRangeError { #[verifier::external_body] fn from(e: Infallible) -> WeightRangeError { unimplemented!() } }
//@fn src/service/blkio_config.rs :: Weight::new | as=new_nonzero | subst=T:NonZeroU16
    ensures weight_post(weight.num(), r)
//@end
//@fn src/service/blkio_config.rs :: <TryFrom<NonZeroU16> for Weight>::try_from | as=weight_try_from_nonzero | retty=Result<Self, WeightRangeError>
    ensures weight_post(value.num(), r)
//@end
//@const src/service/blkio_config.rs :: Weight::DEFAULT | as=WEIGHT_DEFAULT | exec=WEIGHT_DEFAULT.wf() && WEIGHT_DEFAULT.num() == 500
//@fn src/service/blkio_config.rs :: <Default for Weight>::default | as=weight_default
    ensures r.wf(), r.num() == 500
//@end
/// shown as the number
//@fn src/service/blkio_config.rs :: <Display for Weight>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { dec(self.num() as nat) }
//@end
} // verus!
fn main() {}
