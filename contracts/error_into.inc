impl XInto<InvalidIdentifierError> for InvalidIdentifierError {
    open spec fn x_into_post(self, u: InvalidIdentifierError) -> bool { u == self }
    fn x_into(self) -> (u: InvalidIdentifierError) { self }
}
