//@flag xfor
//@method fmt => x_fmt
//@method as_ref => x_as_ref
//@method into_iter => x_into_iter
//@method collect => x_collect
//@method to_string => x_to_string
//@method to_owned => x_to_owned
//@rename IndexSet => XIndexSet
//@rename IndexMap => XIndexMap
//@rename bool::try_from => x_bool_try_from
use core::num::{ParseIntError, ParseFloatError, TryFromIntError};
use core::str::ParseBoolError;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseFloatError(ParseFloatError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseBoolError(ParseBoolError);
//@include std_more.inc
//@include collections.inc
//@include to_string.inc
//@include cow.inc
/// the first position of any of the characters, or the length
pub open spec fn idx_any(s: Seq<char>, d: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || has_c(d, s[0]) { 0 } else { 1 + idx_any(s.skip(1), d) } }
pub trait XStr2 {
    spec fn sv2(&self) -> Seq<char>;
    fn x_strip_prefix_c2(&self, c: char, d: char) -> (r: Option<&str>)
        ensures r is Some <==> self.sv2().len() > 0 && (self.sv2()[0] == c || self.sv2()[0] == d), r matches Some(t) ==> t@ == self.sv2().skip(1);
    fn x_split_once_any(&self, d: &[char]) -> (r: Option<(&str, &str)>)
        ensures
            r is None <==> idx_any(self.sv2(), d@) == self.sv2().len(),
            r matches Some((a, b)) ==> a@ == self.sv2().take(idx_any(self.sv2(), d@) as int) && b@ == self.sv2().skip(idx_any(self.sv2(), d@) as int + 1);
}
impl XStr2 for str {
    open spec fn sv2(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn x_strip_prefix_c2(&self, c: char, d: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn x_split_once_any(&self, d: &[char]) -> (r: Option<(&str, &str)>) { unimplemented!() }
}
// ------------------------------------------------------------ std numbers (trusted)
/// what std's float parser reads, and what a float prints as
pub uninterp spec fn float_rd(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn float_disp(f: f64) -> Seq<char>;
impl XFromStr for f64 {
    type E = ParseFloatError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { match float_rd(s) { Some(f) => r == Ok::<f64, ParseFloatError>(f), None => r is Err } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<Self, Self::E>) { s.parse() }
}
impl XDisplay for f64 {
    open spec fn x_disp(&self) -> Seq<char> { float_disp(*self) }
    #[verifier::external_body] fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
/// digits with an optional `+`, or with `-` and then no more than the magnitude of the least value
pub open spec fn parse_int(s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { if s.len() > 1 && all_digits(s.skip(1)) && dval(s.skip(1)) <= 0x8000_0000_0000_0000 { Some(-(dval(s.skip(1)) as int)) } else { None } }
    else { match parse_uint(s, i64::MAX as nat) { Some(n) => Some(n as int), None => None } }
}
impl XFromStr for i64 {
    type E = ParseIntError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { match parse_int(s) { Some(n) => r matches Ok(v) && v == n, None => r is Err } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<Self, Self::E>) { s.parse() }
}
pub open spec fn int_disp(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec((-n) as nat) } else { dec(n as nat) } }
impl XDisplay for i64 {
    open spec fn x_disp(&self) -> Seq<char> { int_disp(*self as int) }
    #[verifier::external_body] fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
impl XFromStr for bool {
    type E = ParseBoolError;
    open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { match bool_rd(s) { Some(b) => r == Ok::<bool, ParseBoolError>(b), None => r is Err } }
    #[verifier::external_body] fn x_from_str(s: &str) -> (r: Result<Self, Self::E>) { s.parse() }
}
pub open spec fn bool_rd(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } }
pub open spec fn bool_disp(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
impl XDisplay for bool {
    open spec fn x_disp(&self) -> Seq<char> { bool_disp(*self) }
    #[verifier::external_body] fn x_fmt(&self, f: &mut Fmt) -> (r: FmtResult) { unimplemented!() }
}
pub uninterp spec fn of_int(n: int) -> f64;
impl XTryInto<u64, TryFromIntError> for i64 { open spec fn x_try_post(self, r: Result<u64, TryFromIntError>) -> bool { (r is Ok <==> self >= 0) && (r matches Ok(n) ==> n == self) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<u64, TryFromIntError>) { unimplemented!() } }
impl XTryInto<i64, TryFromIntError> for u64 { open spec fn x_try_post(self, r: Result<i64, TryFromIntError>) -> bool { (r is Ok <==> self <= i64::MAX) && (r matches Ok(n) ==> n == self) } #[verifier::external_body] fn x_try_into(self) -> (r: Result<i64, TryFromIntError>) { unimplemented!() } }
//@rename u32::try_from => x_u32_try_from
//@rename i32::try_from => x_i32_try_from
//@rename u64::from => x_u64_from
#[verifier::external_body] pub fn x_u32_try_from(n: u64) -> (r: Result<u32, TryFromIntError>) ensures r is Ok <==> n <= u32::MAX, r matches Ok(v) ==> v == n { unimplemented!() }
#[verifier::external_body] pub fn x_i32_try_from(n: i64) -> (r: Result<i32, TryFromIntError>) ensures r is Ok <==> i32::MIN <= n <= i32::MAX, r matches Ok(v) ==> v == n { unimplemented!() }
pub fn x_u64_from(b: bool) -> (r: u64) ensures r == if b { 1u64 } else { 0 } { if b { 1 } else { 0 } }
impl XInto<f64> for u32 { open spec fn x_into_post(self, u: f64) -> bool { u == of_int(self as int) } #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
impl XInto<f64> for i32 { open spec fn x_into_post(self, u: f64) -> bool { u == of_int(self as int) } #[verifier::external_body] fn x_into(self) -> (u: f64) { self.into() } }
// ------------------------------------------------------------ numbers
//@type src/common.rs :: Number | derive=Clone, Copy
//@type src/common.rs :: ParseNumberError
//@type src/common.rs :: TryFromNumberError
//@type src/common.rs :: TryFromValueError
//@type src/common.rs :: Value
//@type src/common.rs :: StringOrNumber
impl XInto<TryFromNumberError> for TryFromIntError { open spec fn x_into_post(self, u: TryFromNumberError) -> bool { true } #[verifier::external_body] fn x_into(self) -> (u: TryFromNumberError) { unimplemented!() } }
impl XInto<TryFromValueError> for TryFromNumberError { open spec fn x_into_post(self, u: TryFromValueError) -> bool { true } #[verifier::external_body] fn x_into(self) -> (u: TryFromValueError) { unimplemented!() } }
impl XInto<TryFromValueError> for TryFromIntError { open spec fn x_into_post(self, u: TryFromValueError) -> bool { true } #[verifier::external_body] fn x_into(self) -> (u: TryFromValueError) { unimplemented!() } }
/// a text without sign has only digits
pub open spec fn int_text(s: Seq<char>) -> bool { all_digits(if s.len() > 0 && (s[0] == '+' || s[0] == '-') { s.skip(1) } else { s }) }
/// digits after an optional sign are exactly that integer (or none); any other text is what std's float parser reads
pub open spec fn num_rd(s: Seq<char>) -> Option<Number> {
    if !int_text(s) { match float_rd(s) { Some(f) => Some(Number::Float(f)), None => None } }
    else if s.len() > 0 && s[0] == '-' { match parse_int(s) { Some(n) => Some(Number::SignedInt(n as i64)), None => None } }
    else { match parse_uint(s, u64::MAX as nat) { Some(n) => Some(Number::UnsignedInt(n as u64)), None => None } }
}
pub open spec fn num_disp(n: Number) -> Seq<char> { match n { Number::UnsignedInt(n) => dec(n as nat), Number::SignedInt(n) => int_disp(n as int), Number::Float(f) => float_disp(f) } }
//@fn src/common.rs :: <FromStr for Number>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseNumberError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { match num_rd(s) { Some(n) => r == Ok::<Number, ParseNumberError>(n), None => r is Err } }
//@end
//@fn src/common.rs :: <Display for Number>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { num_disp(*self) }
//@end
//@fn src/common.rs :: Number::is_unsigned_int
    ensures r == (*self is UnsignedInt)
//@end
//@fn src/common.rs :: Number::as_unsigned_int
    ensures match *self { Number::UnsignedInt(n) => r == Some(n), _ => r is None }
//@end
//@fn src/common.rs :: Number::is_signed_int
    ensures r == (*self is SignedInt)
//@end
//@fn src/common.rs :: Number::as_signed_int
    ensures match *self { Number::SignedInt(n) => r == Some(n), _ => r is None }
//@end
//@fn src/common.rs :: Number::is_float
    ensures r == (*self is Float)
//@end
//@fn src/common.rs :: Number::as_float
    ensures match *self { Number::Float(n) => r == Some(n), _ => r is None }
//@end
// ------------------------------------------------------------ conversions of numbers
pub open spec fn num_u64(n: Number) -> Option<u64> { match n { Number::UnsignedInt(v) => Some(v), Number::SignedInt(v) => if v >= 0 { Some(v as u64) } else { None }, Number::Float(_) => None } }
pub open spec fn num_i64(n: Number) -> Option<i64> { match n { Number::UnsignedInt(v) => if v <= i64::MAX { Some(v as i64) } else { None }, Number::SignedInt(v) => Some(v), Number::Float(_) => None } }
/// whole numbers of 32 bits are floats exactly; larger ones are refused
pub open spec fn num_f64(n: Number) -> Option<f64> { match n { Number::UnsignedInt(v) => if v <= u32::MAX { Some(of_int(v as int)) } else { None }, Number::SignedInt(v) => if i32::MIN <= v <= i32::MAX { Some(of_int(v as int)) } else { None }, Number::Float(f) => Some(f) } }
pub open spec fn got<T, E>(o: Option<T>, r: Result<T, E>) -> bool { match o { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err } }
//@fn src/common.rs :: <TryFrom<Number> for u64>::try_from | as=u64_from_number | free | retty=Result<u64, TryFromNumberError>
    ensures got(num_u64(value), r)
//@end
//@fn src/common.rs :: <TryFrom<Number> for i64>::try_from | as=i64_from_number | free | retty=Result<i64, TryFromNumberError>
    ensures got(num_i64(value), r)
//@end
//@fn src/common.rs :: <TryFrom<Number> for f64>::try_from | as=f64_from_number | free | retty=Result<f64, TryFromIntError>
    ensures got(num_f64(value), r)
//@end
//@fn src/common.rs :: <From<u64> for Number>::from | as=number_from_u64
    ensures r == Number::UnsignedInt(value)
//@end
//@fn src/common.rs :: <From<i64> for Number>::from | as=number_from_i64
    ensures r == Number::SignedInt(value)
//@end
//@fn src/common.rs :: <From<f64> for Number>::from | as=number_from_f64
    ensures r == Number::Float(value)
//@end
//@fn src/common.rs :: <TryFrom<&str> for Number>::try_from | as=number_try_from_str | retty=Result<Number, ParseNumberError>
    ensures got(num_rd(value@), r)
//@end
impl XTryInto<u64, TryFromNumberError> for Number { open spec fn x_try_post(self, r: Result<u64, TryFromNumberError>) -> bool { got(num_u64(self), r) } fn x_try_into(self) -> (r: Result<u64, TryFromNumberError>) { u64_from_number(self) } }
impl XTryInto<i64, TryFromNumberError> for Number { open spec fn x_try_post(self, r: Result<i64, TryFromNumberError>) -> bool { got(num_i64(self), r) } fn x_try_into(self) -> (r: Result<i64, TryFromNumberError>) { i64_from_number(self) } }
impl XTryInto<f64, TryFromIntError> for Number { open spec fn x_try_post(self, r: Result<f64, TryFromIntError>) -> bool { got(num_f64(self), r) } fn x_try_into(self) -> (r: Result<f64, TryFromIntError>) { f64_from_number(self) } }
impl XInto<Number> for u64 { open spec fn x_into_post(self, u: Number) -> bool { u == Number::UnsignedInt(self) } fn x_into(self) -> (u: Number) { Number::number_from_u64(self) } }
impl XInto<Number> for i64 { open spec fn x_into_post(self, u: Number) -> bool { u == Number::SignedInt(self) } fn x_into(self) -> (u: Number) { Number::number_from_i64(self) } }
impl XInto<Number> for f64 { open spec fn x_into_post(self, u: Number) -> bool { u == Number::Float(self) } fn x_into(self) -> (u: Number) { Number::number_from_f64(self) } }
//@rename Number::from => x_number_from
pub fn x_number_from<T: XInto<Number>>(t: T) -> (r: Number) ensures t.x_into_post(r) { t.x_into() }
// ------------------------------------------------------------ scalar values
/// a value, by its content
pub enum Scalar { Text(Seq<char>), Num(Number), Bool(bool) }
pub open spec fn sc(v: Value) -> Scalar { match v { Value::String(s) => Scalar::Text(s@), Value::Number(n) => Scalar::Num(n), Value::Bool(b) => Scalar::Bool(b) } }
pub open spec fn scalar_disp(v: Scalar) -> Seq<char> { match v { Scalar::Text(s) => s, Scalar::Num(n) => num_disp(n), Scalar::Bool(b) => bool_disp(b) } }
/// a boolean, else a number, else a text
pub open spec fn scalar_rd(s: Seq<char>) -> Scalar { match bool_rd(s) { Some(b) => Scalar::Bool(b), None => match num_rd(s) { Some(n) => Scalar::Num(n), None => Scalar::Text(s) } } }
/// ... kept a text unless it prints back the same
pub open spec fn scalar_exact(s: Seq<char>) -> Scalar { if scalar_disp(scalar_rd(s)) == s { scalar_rd(s) } else { Scalar::Text(s) } }
//@fn src/common.rs :: Value::parse
    ensures sc(r) == scalar_rd(string@)
//@end
//@fn src/common.rs :: <Display for Value>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { scalar_disp(sc(*self)) }
//@end
//@fn src/common.rs :: Value::parse_exact
    ensures sc(r) == scalar_exact(string@)
//@end
//@fn src/common.rs :: Value::is_string
    ensures r == (sc(*self) is Text)
//@end
//@fn src/common.rs :: Value::as_string
    ensures match sc(*self) { Scalar::Text(s) => r is Some && r->0@ == s, _ => r is None }
//@end
//@fn src/common.rs :: Value::is_number
    ensures r == (sc(*self) is Num)
//@end
//@fn src/common.rs :: Value::as_number
    ensures match sc(*self) { Scalar::Num(n) => r is Some && *r->0 == n, _ => r is None }
//@end
//@fn src/common.rs :: Value::is_bool
    ensures r == (sc(*self) is Bool)
//@end
//@fn src/common.rs :: Value::as_bool
    ensures match sc(*self) { Scalar::Bool(n) => r == Some(n), _ => r is None }
//@end
//@fn src/common.rs :: <From<String> for Value>::from | as=value_from_string
    ensures sc(r) == Scalar::Text(value@)
//@end
//@fn src/common.rs :: <From<&str> for Value>::from | as=value_from_str
    ensures sc(r) == Scalar::Text(value@)
//@end
//@fn src/common.rs :: <From<Number> for Value>::from | as=value_from_number
    ensures sc(r) == Scalar::Num(value)
//@end
impl XInto<Value> for Number { open spec fn x_into_post(self, u: Value) -> bool { sc(u) == Scalar::Num(self) } fn x_into(self) -> (u: Value) { Value::value_from_number(self) } }
impl XInto<Value> for &str { open spec fn x_into_post(self, u: Value) -> bool { sc(u) == Scalar::Text(self@) } fn x_into(self) -> (u: Value) { Value::value_from_str(self) } }
//@fn src/common.rs :: <From<u64> for Value>::from | as=value_from_u64
    ensures sc(r) == Scalar::Num(Number::UnsignedInt(value))
//@end
//@fn src/common.rs :: <From<i64> for Value>::from | as=value_from_i64
    ensures sc(r) == Scalar::Num(Number::SignedInt(value))
//@end
//@fn src/common.rs :: <From<f64> for Value>::from | as=value_from_f64
    ensures sc(r) == Scalar::Num(Number::Float(value))
//@end
//@fn src/common.rs :: <From<bool> for Value>::from | as=value_from_bool
    ensures sc(r) == Scalar::Bool(value)
//@end
//@fn src/common.rs :: <From<Value> for String>::from | as=string_from_value | free | retty=String
    ensures r@ == scalar_disp(sc(value))
//@end
pub open spec fn scalar_num(v: Scalar) -> Option<Number> { match v { Scalar::Text(s) => num_rd(s), Scalar::Num(n) => Some(n), Scalar::Bool(b) => Some(Number::UnsignedInt(if b { 1 } else { 0 })) } }
pub open spec fn then<A, B>(a: Option<A>, f: spec_fn(A) -> Option<B>) -> Option<B> { match a { Some(x) => f(x), None => None } }
//@fn src/common.rs :: <TryFrom<Value> for Number>::try_from | as=number_from_value | retty=Result<Number, ParseNumberError>
    ensures got(scalar_num(sc(value)), r)
//@end
//@rename Number::try_from => Number::number_from_value
//@fn src/common.rs :: <TryFrom<Value> for u64>::try_from | as=u64_from_value | free | retty=Result<u64, TryFromValueError>
    ensures got(then(scalar_num(sc(value)), |n: Number| num_u64(n)), r)
//@end
//@fn src/common.rs :: <TryFrom<Value> for i64>::try_from | as=i64_from_value | free | retty=Result<i64, TryFromValueError>
    ensures got(then(scalar_num(sc(value)), |n: Number| num_i64(n)), r)
//@end
//@fn src/common.rs :: <TryFrom<Value> for f64>::try_from | as=f64_from_value | free | retty=Result<f64, TryFromValueError>
    ensures got(then(scalar_num(sc(value)), |n: Number| num_f64(n)), r)
//@end
//@fn src/common.rs :: <TryFrom<Value> for bool>::try_from | as=bool_from_value | free | retty=Result<bool, TryFromValueError>
    ensures got(match sc(value) { Scalar::Bool(b) => Some(b), _ => None }, r)
//@end
// ------------------------------------------------------------ text or number
pub open spec fn sn(v: StringOrNumber) -> Scalar { match v { StringOrNumber::String(s) => Scalar::Text(s@), StringOrNumber::Number(n) => Scalar::Num(n) } }
//@fn src/common.rs :: StringOrNumber::parse
    ensures sn(r) == (match num_rd(value@) { Some(n) => Scalar::Num(n), None => Scalar::Text(value@) })
//@end
//@fn src/common.rs :: StringOrNumber::is_string
    ensures r == (sn(*self) is Text)
//@end
//@fn src/common.rs :: StringOrNumber::as_string
    ensures match sn(*self) { Scalar::Text(s) => r is Some && r->0@ == s, _ => r is None }
//@end
//@fn src/common.rs :: StringOrNumber::is_number
    ensures r == (sn(*self) is Num)
//@end
//@fn src/common.rs :: StringOrNumber::as_number
    ensures match sn(*self) { Scalar::Num(n) => r == Some(n), _ => r is None }
//@end
//@fn src/common.rs :: <From<String> for StringOrNumber>::from | as=sn_from_string
    ensures sn(r) == Scalar::Text(value@)
//@end
impl XInto<StringOrNumber> for String { open spec fn x_into_post(self, u: StringOrNumber) -> bool { sn(u) == Scalar::Text(self@) } fn x_into(self) -> (u: StringOrNumber) { StringOrNumber::sn_from_string(self) } }
//@fn src/common.rs :: <From<&str> for StringOrNumber>::from | as=sn_from_str
    ensures sn(r) == Scalar::Text(value@)
//@end
//@fn src/common.rs :: <From<Number> for StringOrNumber>::from | as=sn_from_number
    ensures sn(r) == Scalar::Num(value)
//@end
impl XInto<StringOrNumber> for Number { open spec fn x_into_post(self, u: StringOrNumber) -> bool { sn(u) == Scalar::Num(self) } fn x_into(self) -> (u: StringOrNumber) { StringOrNumber::sn_from_number(self) } }
//@fn src/common.rs :: <From<u64> for StringOrNumber>::from | as=sn_from_u64
    ensures sn(r) == Scalar::Num(Number::UnsignedInt(value))
//@end
//@fn src/common.rs :: <From<i64> for StringOrNumber>::from | as=sn_from_i64
    ensures sn(r) == Scalar::Num(Number::SignedInt(value))
//@end
//@fn src/common.rs :: <From<f64> for StringOrNumber>::from | as=sn_from_f64
    ensures sn(r) == Scalar::Num(Number::Float(value))
//@end
//@fn src/common.rs :: <Display for StringOrNumber>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { scalar_disp(sn(*self)) }
//@end
//@fn src/common.rs :: <From<StringOrNumber> for String>::from | as=string_from_sn | free | retty=String
    ensures r@ == scalar_disp(sn(value))
//@end
//@fn src/common.rs :: <TryFrom<StringOrNumber> for Number>::try_from | as=number_from_sn | retty=Result<Number, ParseNumberError>
    ensures got(scalar_num(sn(value)), r)
//@end
// ------------------------------------------------------------ lists and maps
//@type src/common/keys.rs :: MapKey
//@type src/common/keys.rs :: InvalidMapKeyError | derive=Clone, Copy
impl XKey for MapKey { open spec fn key(&self) -> Seq<char> { self.0@ } }
impl XKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
/// one non-empty line
pub open spec fn map_key_ok(s: Seq<char>) -> bool { s.len() > 0 && !has_c(s, '\n') }
pub open spec fn map_key_post<E>(s: Seq<char>, r: Result<MapKey, E>) -> bool { (r is Ok <==> map_key_ok(s)) && (r matches Ok(k) ==> k.0@ == s) }
//@fn src/common/keys.rs :: MapKey::new
    ensures map_key_post(key@, r)
//@end
// `TryFrom<&str> for MapKey` is generated by `key_impls!`, which calls `new`
impl XTryInto<MapKey, InvalidMapKeyError> for &str {
    open spec fn x_try_post(self, r: Result<MapKey, InvalidMapKeyError>) -> bool { map_key_post(self@, r) }
    fn x_try_into(self) -> (r: Result<MapKey, InvalidMapKeyError>) { MapKey::new(self) }
}
//@fn expanded :: common::keys::<FromStr for MapKey>::from_str | trait=XFromStr | as=x_from_str | extra=type E = InvalidMapKeyError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { map_key_post(s, r) }
//@end
//@fn expanded :: common::keys::MapKey::as_str
    ensures r@ == self.0@
//@end
//@fn expanded :: common::keys::<Display for MapKey>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { self.0@ }
//@end
impl XInto<String> for Box<str> { open spec fn x_into_post(self, u: String) -> bool { u@ == self@ } #[verifier::external_body] fn x_into(self) -> (u: String) { self.into() } }
//@fn expanded :: common::keys::<From<MapKey> for String>::from | as=string_from_map_key | free | retty=String
    ensures r@ == value.0@
//@end
impl XInto<String> for MapKey { open spec fn x_into_post(self, u: String) -> bool { u@ == self.0@ } fn x_into(self) -> (u: String) { string_from_map_key(self) } }
//@include collect.inc
//@rename Map => XMap
pub type XMap = XIndexMap<MapKey, Option<Value>>;
//@type src/common.rs :: ListOrMap
/// a map entry, by its content
pub open spec fn ev(e: (MapKey, Option<Value>)) -> (Seq<char>, Option<Scalar>) { (e.0.0@, match e.1 { Some(v) => Some(sc(v)), None => None }) }
/// what an entry is in a list
pub open spec fn joined(e: (Seq<char>, Option<Scalar>)) -> Seq<char> { match e.1 { Some(v) => e.0 + seq!['='] + scalar_disp(v), None => e.0 } }
/// what a text of a list is in a map: its part up to the first delimiter, and the value after it
pub open spec fn split_entry(s: Seq<char>, d: Seq<char>) -> (Seq<char>, Option<Scalar>) {
    let i = idx_any(s, d);
    if i + 1 >= s.len() { (s.take(i as int), None) } else { (s.take(i as int), Some(scalar_exact(s.skip(i as int + 1)))) }
}
//@fn src/common.rs :: ListOrMap::is_empty
    ensures r == (match *self { ListOrMap::List(l) => l.list().len() == 0, ListOrMap::Map(m) => m.entries().len() == 0 })
//@end
//@fn src/common.rs :: ListOrMap::as_list
    ensures match *self { ListOrMap::List(l) => r is Some && *r->0 == l, ListOrMap::Map(_) => r is None }
//@end
//@fn src/common.rs :: ListOrMap::as_map
    ensures match *self { ListOrMap::Map(l) => r is Some && *r->0 == l, ListOrMap::List(_) => r is None }
//@end
//@method x_split_once_s => x_split_once_any
pub open spec fn texts(l: Seq<String>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn joined_all(es: Seq<(MapKey, Option<Value>)>) -> Seq<Seq<char>> { Seq::new(es.len(), |i: int| joined(ev(es[i]))) }
impl XKey for Seq<char> { open spec fn key(&self) -> Seq<char> { *self } }
pub proof fn lemma_entry(s: Seq<char>, d: Seq<char>)
    ensures idx_any(s, d) <= s.len(), s.take(s.len() as int) =~= s,
    decreases s.len()
{ if s.len() > 0 { lemma_entry(s.skip(1), d); } }
pub open spec fn entries_of(l: Seq<String>, d: Seq<char>) -> Seq<(Seq<char>, Option<Scalar>)> { Seq::new(l.len(), |i: int| split_entry(l[i]@, d)) }
pub open spec fn evs(es: Seq<(MapKey, Option<Value>)>) -> Seq<(Seq<char>, Option<Scalar>)> { Seq::new(es.len(), |i: int| ev(es[i])) }
pub open spec fn it_texts(v: XIter<String>) -> Seq<Seq<char>> { texts(v.rest()) }
pub open spec fn it_evs(v: XIter<(MapKey, Option<Value>)>) -> Seq<(Seq<char>, Option<Scalar>)> { evs(v.rest()) }
/// the content of a map depends on the content of its entries
pub proof fn lemma_evs(es: Seq<(MapKey, Option<Value>)>)
    ensures evs(put_all(es)) =~= put_all(evs(es))
    decreases es.len()
{
    if es.len() > 0 {
        lemma_evs(es.drop_last());
        assert(evs(es).drop_last() =~= evs(es.drop_last()));
        let a = put_all(es.drop_last());
        lemma_key_at(a, es.last().0.key());
        assert(evs(a).len() == a.len());
        assert(ev(es.last()).0.key() == es.last().0.key());
    }
}
pub proof fn lemma_key_at(es: Seq<(MapKey, Option<Value>)>, k: Seq<char>)
    ensures key_at(es, k) == key_at(evs(es), k), -1 <= key_at(es, k) < es.len(), key_at(es, k) >= 0 ==> es[key_at(es, k)].0.key() == k
    decreases es.len()
{
    if es.len() > 0 {
        lemma_key_at(es.drop_last(), k);
        assert(evs(es).drop_last() =~= evs(es.drop_last()));
        assert(evs(es).last().0.key() == es.last().0.key());
    }
}
pub proof fn lemma_texts(l: Seq<String>)
    ensures texts(uniq(l)) =~= uniq(texts(l))
    decreases l.len()
{
    if l.len() > 0 {
        lemma_texts(l.drop_last());
        assert(texts(l).drop_last() =~= texts(l.drop_last()));
        let u = uniq(l.drop_last());
        let k = l.last()@;
        assert(text_in(u, k) == text_in(texts(u), k)) by {
            if text_in(u, k) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).key() == k; assert(texts(u)[i].key() == k); }
            if text_in(texts(u), k) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] texts(u)[i]).key() == k; assert(u[i].key() == k); }
        }
    }
}
pub open spec fn split_post(l: Seq<String>, d: Seq<char>, r: Result<XMap, InvalidMapKeyError>) -> bool {
    (r is Ok <==> forall|i: int| 0 <= i < l.len() ==> map_key_ok((#[trigger] split_entry(l[i]@, d)).0))
    && (r matches Ok(m) ==> evs(m.entries()) == put_all(entries_of(l, d)))
}
//@fn src/common.rs :: ListOrMap::into_map_split_on | attr=verifier::loop_isolation(false)
    ensures match self { ListOrMap::List(l) => split_post(l.list(), delimiters@, r), ListOrMap::Map(m) => r == Ok::<XMap, InvalidMapKeyError>(m) }
//@loop 0
    invariant
        it0.seq() =~= list.list(),
        it_evs(__v1) =~= entries_of(list.list().take(it0.index() as int), delimiters@),
        forall|i: int| 0 <= i < it0.index() ==> map_key_ok((#[trigger] split_entry(list.list()[i]@, delimiters@)).0),
//@proof loop 0 start
    let ghost __e = list.list()[it0.index() as int]@;
    let ghost __s = split_entry(list.list()[it0.index() as int]@, delimiters@);
    proof { lemma_entry(__e, delimiters@); assert(__s.0 =~= __e.take(idx_any(__e, delimiters@) as int)); }
//@proof loop 0 end
    proof {
        let i = it0.index() as int;
        assert(list.list().take(i + 1).drop_last() =~= list.list().take(i));
        assert(entries_of(list.list().take(i + 1), delimiters@) =~= entries_of(list.list().take(i), delimiters@).push(split_entry(__e, delimiters@)));
        assert(ev(__v1.rest().last()) == split_entry(__e, delimiters@));
    }
//@proof before __v1 . x_collect ()
    proof { lemma_evs(__v1.rest()); assert(list.list().take(list.list().len() as int) =~= list.list()); }
//@end
//@fn src/common.rs :: ListOrMap::into_map
    ensures match self { ListOrMap::List(l) => split_post(l.list(), seq!['='], r), ListOrMap::Map(m) => r == Ok::<XMap, InvalidMapKeyError>(m) }
//@proof start
    proof { assert(['=']@ =~= seq!['=']); }
//@end
//@fn src/common.rs :: ListOrMap::into_list
    ensures match self { ListOrMap::List(l) => r == l, ListOrMap::Map(m) => texts(r.list()) == uniq(joined_all(m.entries())) }
//@loop 0
    invariant
        it0.seq() =~= map.entries(),
        it_texts(__v1) =~= joined_all(map.entries().take(it0.index() as int)),
//@proof loop 0 start
    proof { reveal_strlit("="); assert("="@ =~= seq!['=']); }
//@proof loop 0 end
    proof {
        let i = it0.index() as int;
        assert(joined_all(map.entries().take(i + 1)) =~= joined_all(map.entries().take(i)).push(joined(ev(map.entries()[i]))));
        assert(__v1.rest().last()@ =~= joined(ev(map.entries()[i])));
    }
//@proof before __v1 . x_collect ()
    proof { lemma_texts(__v1.rest()); assert(map.entries().take(map.entries().len() as int) =~= map.entries()); }
//@end
