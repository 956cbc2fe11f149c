// ------------------------------------------------------------ any string type as an identifier (`TryFrom` of the owned types: decided by P03)
impl XTryInto<Identifier, InvalidIdentifierError> for String { open spec fn x_try_post(self, r: Result<Identifier, InvalidIdentifierError>) -> bool { ident_post(self@, r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<Identifier, InvalidIdentifierError>) { unimplemented!() } }
impl XTryInto<Identifier, InvalidIdentifierError> for Box<str> { open spec fn x_try_post(self, r: Result<Identifier, InvalidIdentifierError>) -> bool { ident_post(self@, r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<Identifier, InvalidIdentifierError>) { unimplemented!() } }
impl<'a> XTryInto<Identifier, InvalidIdentifierError> for XTCow<'a, str> { open spec fn x_try_post(self, r: Result<Identifier, InvalidIdentifierError>) -> bool { ident_post(tcow_text(self), r) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<Identifier, InvalidIdentifierError>) { unimplemented!() } }
pub trait XIdentArg: XTextArg + XTryInto<Identifier, InvalidIdentifierError> { proof fn law_id(self, r: Result<Identifier, InvalidIdentifierError>) requires self.x_try_post(r) ensures ident_post(self.asv(), r); }
impl<'b> XIdentArg for &'b str { proof fn law_id(self, r: Result<Identifier, InvalidIdentifierError>) { } }
impl XIdentArg for String { proof fn law_id(self, r: Result<Identifier, InvalidIdentifierError>) { } }
impl XIdentArg for Box<str> { proof fn law_id(self, r: Result<Identifier, InvalidIdentifierError>) { } }
impl<'a> XIdentArg for XTCow<'a, str> { proof fn law_id(self, r: Result<Identifier, InvalidIdentifierError>) { } }
pub proof fn x_ident_law<T: XIdentArg>(t: T) ensures forall|r: Result<Identifier, InvalidIdentifierError>| #[trigger] t.x_try_post(r) ==> ident_post(t.asv(), r)
{ assert forall|r: Result<Identifier, InvalidIdentifierError>| #[trigger] t.x_try_post(r) implies ident_post(t.asv(), r) by { t.law_id(r); } }
