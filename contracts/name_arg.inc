// ------------------------------------------------------------ any string type as a user name (`TryFrom` of the owned types: decided by P03)
impl XTryInto<Name, InvalidNameError> for String { open spec fn x_try_post(self, r: Result<Name, InvalidNameError>) -> bool { user_post(self@, r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<Name, InvalidNameError>) { unimplemented!() } }
impl XTryInto<Name, InvalidNameError> for Box<str> { open spec fn x_try_post(self, r: Result<Name, InvalidNameError>) -> bool { user_post(self@, r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<Name, InvalidNameError>) { unimplemented!() } }
impl<'a> XTryInto<Name, InvalidNameError> for XTCow<'a, str> { open spec fn x_try_post(self, r: Result<Name, InvalidNameError>) -> bool { user_post(tcow_text(self), r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<Name, InvalidNameError>) { unimplemented!() } }
pub trait XNameArg: XTextArg + XTryInto<Name, InvalidNameError> { proof fn law_name(self, r: Result<Name, InvalidNameError>) requires self.x_try_post(r) ensures user_post(self.asv(), r); }
impl<'b> XNameArg for &'b str { proof fn law_name(self, r: Result<Name, InvalidNameError>) { } }
impl XNameArg for String { proof fn law_name(self, r: Result<Name, InvalidNameError>) { } }
impl XNameArg for Box<str> { proof fn law_name(self, r: Result<Name, InvalidNameError>) { } }
impl<'a> XNameArg for XTCow<'a, str> { proof fn law_name(self, r: Result<Name, InvalidNameError>) { } }
pub proof fn x_name_law<T: XNameArg>(t: T) ensures forall|r: Result<Name, InvalidNameError>| #[trigger] t.x_try_post(r) ==> user_post(t.asv(), r)
{ assert forall|r: Result<Name, InvalidNameError>| #[trigger] t.x_try_post(r) implies user_post(t.asv(), r) by { t.law_name(r); } }
