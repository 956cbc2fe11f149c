//@include prelude.vrs
verus! {
//@include values.inc
//@include serde.inc
//@rename Into::into => XInto::x_into
//@method deserialize_any => x_deserialize_scalar
//@method deserialize => deserialize
// ------------------------------------------------------------ a scalar handed to a visitor (trusted model of serde and of the formats: which method is called for which scalar)
/// integers of 0 and more are handed over as `u64`, negative ones as `i64`, and no others exist; a float as `f64`
pub enum XScalar { U64(u64), I64(i64), F64(f64), Bool(bool), Str(String), String(String), Other }
pub enum Sc { Num(Number), Bool(bool), Text(Seq<char>), Other }
pub uninterp spec fn float_at(c: int) -> Option<f64>;
pub open spec fn handed(n: XNode) -> Sc {
    match n {
        XNode::Int(i) => if 0 <= i <= u64::MAX { Sc::Num(Number::UnsignedInt(i as u64)) } else if i64::MIN <= i < 0 { Sc::Num(Number::SignedInt(i as i64)) } else { Sc::Other },
        XNode::Bool(b) => Sc::Bool(b),
        XNode::Text(s) => Sc::Text(s),
        XNode::Scalar(c) => match float_at(c) { Some(f) => Sc::Num(Number::Float(f)), None => Sc::Other },
        _ => Sc::Other,
    }
}
impl XDe {
    #[verifier::external_body] pub fn x_scalar(self) -> (r: XScalar)
        ensures handed(self@) == (match r { XScalar::U64(v) => Sc::Num(Number::UnsignedInt(v)), XScalar::I64(v) => Sc::Num(Number::SignedInt(v)), XScalar::F64(v) => Sc::Num(Number::Float(v)), XScalar::Bool(v) => Sc::Bool(v), XScalar::Str(v) => Sc::Text(v@), XScalar::String(v) => Sc::Text(v@), XScalar::Other => Sc::Other })
    { unimplemented!() }
}
/// a visitor made of functions: when its methods may be called, and what they give
pub trait XScalars: Sized {
    type Value;
    spec fn may(self, n: Sc) -> bool;
    spec fn gives(self, n: Sc, r: Result<Self::Value, XErr>) -> bool;
}
pub trait XScalarU64: XScalars { fn visit_u64(self, v: u64) -> (r: Result<Self::Value, XErr>) requires self.may(Sc::Num(Number::UnsignedInt(v))) ensures self.gives(Sc::Num(Number::UnsignedInt(v)), r); }
pub trait XScalarI64: XScalars { fn visit_i64(self, v: i64) -> (r: Result<Self::Value, XErr>) requires self.may(Sc::Num(Number::SignedInt(v))) ensures self.gives(Sc::Num(Number::SignedInt(v)), r); }
pub trait XScalarF64: XScalars { fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) requires self.may(Sc::Num(Number::Float(v))) ensures self.gives(Sc::Num(Number::Float(v)), r); }
pub trait XScalarBool: XScalars { fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) requires self.may(Sc::Bool(v)) ensures self.gives(Sc::Bool(v), r); }
pub trait XScalarString: XScalars { fn visit_string(self, v: String) -> (r: Result<Self::Value, XErr>) requires self.may(Sc::Text(v@)) ensures self.gives(Sc::Text(v@), r); }
pub trait XScalarStr: XScalars { fn visit_str(self, v: &str) -> (r: Result<Self::Value, XErr>) requires self.may(Sc::Text(v@)) ensures self.gives(Sc::Text(v@), r); }
pub trait XScalarOther: XScalars { fn x_other(self) -> (r: Result<Self::Value, XErr>) ensures self.gives(Sc::Other, r); }
pub trait XScalarVisitor: XScalarU64 + XScalarI64 + XScalarF64 + XScalarBool + XScalarString + XScalarStr + XScalarOther { }
impl XDe {
    pub fn x_deserialize_scalar<T: XScalarVisitor>(self, v: T) -> (r: Result<T::Value, XErr>)
        requires v.may(handed(self@))
        ensures v.gives(handed(self@), r)
    {
        match self.x_scalar() { XScalar::U64(x) => v.visit_u64(x), XScalar::I64(x) => v.visit_i64(x), XScalar::F64(x) => v.visit_f64(x), XScalar::Bool(x) => v.visit_bool(x), XScalar::Str(x) => v.visit_str(x.as_str()), XScalar::String(x) => v.visit_string(x), XScalar::Other => v.x_other() }
    }
}
// ------------------------------------------------------------ the visitor made of functions
pub open spec fn of_text<S: FnOnce(String) -> V, V>(f: S, x: Seq<char>, y: V) -> bool { exists|s: String| s@ == x && #[trigger] call_ensures(f, (s,), y) }
//@type src/serde.rs :: ValueEnumVisitor
//@fn src/serde.rs :: ValueEnumVisitor::new
    ensures r.visit_u64 == (), r.visit_i64 == (), r.visit_f64 == (), r.visit_bool == (), r.visit_string == ()
//@end
//@fn src/serde.rs :: ValueEnumVisitor::u64
    ensures r == (ValueEnumVisitor { expecting: self.expecting, visit_u64, visit_i64: self.visit_i64, visit_f64: self.visit_f64, visit_bool: self.visit_bool, visit_string: self.visit_string })
//@end
//@fn src/serde.rs :: ValueEnumVisitor::i64
    ensures r == (ValueEnumVisitor { expecting: self.expecting, visit_u64: self.visit_u64, visit_i64, visit_f64: self.visit_f64, visit_bool: self.visit_bool, visit_string: self.visit_string })
//@end
//@fn src/serde.rs :: ValueEnumVisitor::f64
    ensures r == (ValueEnumVisitor { expecting: self.expecting, visit_u64: self.visit_u64, visit_i64: self.visit_i64, visit_f64, visit_bool: self.visit_bool, visit_string: self.visit_string })
//@end
//@fn src/serde.rs :: ValueEnumVisitor::bool
    ensures r == (ValueEnumVisitor { expecting: self.expecting, visit_u64: self.visit_u64, visit_i64: self.visit_i64, visit_f64: self.visit_f64, visit_bool, visit_string: self.visit_string })
//@end
//@fn src/serde.rs :: ValueEnumVisitor::string
    ensures r == (ValueEnumVisitor { expecting: self.expecting, visit_u64: self.visit_u64, visit_i64: self.visit_i64, visit_f64: self.visit_f64, visit_bool: self.visit_bool, visit_string })
//@end
pub trait Visitor<'de>: XScalarVisitor { }
impl<'de, T: XScalarVisitor> Visitor<'de> for T { }
//@fn src/serde.rs :: ValueEnumVisitor::deserialize | subst=D:XDe | retty=Result<V, XErr>
    requires self.may(handed(deserializer@))
    ensures self.gives(handed(deserializer@), r)
//@end
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V> XScalars for ValueEnumVisitor<U,I,F,B,S> { type Value = V;
    open spec fn may(self, n: Sc) -> bool { match n { Sc::Num(Number::UnsignedInt(x)) => call_requires(self.visit_u64, (x,)), Sc::Num(Number::SignedInt(x)) => call_requires(self.visit_i64, (x,)), Sc::Num(Number::Float(x)) => call_requires(self.visit_f64, (x,)), Sc::Bool(x) => call_requires(self.visit_bool, (x,)), Sc::Text(x) => forall|s: String| s.view() == x ==> call_requires(self.visit_string, (s,)), Sc::Other => true } }
    open spec fn gives(self, n: Sc, r: Result<V, XErr>) -> bool { match n { Sc::Num(Number::UnsignedInt(x)) => (r matches Ok(y) && call_ensures(self.visit_u64, (x,), y)), Sc::Num(Number::SignedInt(x)) => (r matches Ok(y) && call_ensures(self.visit_i64, (x,), y)), Sc::Num(Number::Float(x)) => (r matches Ok(y) && call_ensures(self.visit_f64, (x,), y)), Sc::Bool(x) => (r matches Ok(y) && call_ensures(self.visit_bool, (x,), y)), Sc::Text(x) => (r matches Ok(y) && of_text(self.visit_string, x, y)), Sc::Other => r is Err } }
}
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,B,S>>::visit_u64 | trait=XScalarU64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,B,S>>::visit_i64 | trait=XScalarI64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,B,S>>::visit_f64 | trait=XScalarF64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,B,S>>::visit_bool | trait=XScalarBool | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,B,S>>::visit_string | trait=XScalarString | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,B,S>>::visit_str | trait=XScalarStr | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V>
//@end
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V> XScalarOther for ValueEnumVisitor<U,I,F,B,S> { fn x_other(self) -> (r: Result<V, XErr>) { Err(XErr) } }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, B: FnOnce(bool) -> V, S: FnOnce(String) -> V, V> XScalarVisitor for ValueEnumVisitor<U,I,F,B,S> { }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V> XScalars for ValueEnumVisitor<U,I,F> { type Value = V;
    open spec fn may(self, n: Sc) -> bool { match n { Sc::Num(Number::UnsignedInt(x)) => call_requires(self.visit_u64, (x,)), Sc::Num(Number::SignedInt(x)) => call_requires(self.visit_i64, (x,)), Sc::Num(Number::Float(x)) => call_requires(self.visit_f64, (x,)), Sc::Bool(x) => true, Sc::Text(x) => true, Sc::Other => true } }
    open spec fn gives(self, n: Sc, r: Result<V, XErr>) -> bool { match n { Sc::Num(Number::UnsignedInt(x)) => (r matches Ok(y) && call_ensures(self.visit_u64, (x,), y)), Sc::Num(Number::SignedInt(x)) => (r matches Ok(y) && call_ensures(self.visit_i64, (x,), y)), Sc::Num(Number::Float(x)) => (r matches Ok(y) && call_ensures(self.visit_f64, (x,), y)), Sc::Bool(x) => r is Err, Sc::Text(x) => r is Err, Sc::Other => r is Err } }
}
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F>>::visit_u64 | trait=XScalarU64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F>>::visit_i64 | trait=XScalarI64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F>>::visit_f64 | trait=XScalarF64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V>
//@end
/// not written there: serde's own answer, an error
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V> XScalarBool for ValueEnumVisitor<U,I,F> { fn visit_bool(self, v: bool) -> (r: Result<V, XErr>) { Err(XErr) } }
/// not written there: serde's own answer, an error
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V> XScalarString for ValueEnumVisitor<U,I,F> { fn visit_string(self, v: String) -> (r: Result<V, XErr>) { Err(XErr) } }
/// not written there: serde's own answer, an error
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V> XScalarStr for ValueEnumVisitor<U,I,F> { fn visit_str(self, v: &str) -> (r: Result<V, XErr>) { Err(XErr) } }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V> XScalarOther for ValueEnumVisitor<U,I,F> { fn x_other(self) -> (r: Result<V, XErr>) { Err(XErr) } }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, V> XScalarVisitor for ValueEnumVisitor<U,I,F> { }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V> XScalars for ValueEnumVisitor<U,I,F,(),S> { type Value = V;
    open spec fn may(self, n: Sc) -> bool { match n { Sc::Num(Number::UnsignedInt(x)) => call_requires(self.visit_u64, (x,)), Sc::Num(Number::SignedInt(x)) => call_requires(self.visit_i64, (x,)), Sc::Num(Number::Float(x)) => call_requires(self.visit_f64, (x,)), Sc::Bool(x) => true, Sc::Text(x) => forall|s: String| s.view() == x ==> call_requires(self.visit_string, (s,)), Sc::Other => true } }
    open spec fn gives(self, n: Sc, r: Result<V, XErr>) -> bool { match n { Sc::Num(Number::UnsignedInt(x)) => (r matches Ok(y) && call_ensures(self.visit_u64, (x,), y)), Sc::Num(Number::SignedInt(x)) => (r matches Ok(y) && call_ensures(self.visit_i64, (x,), y)), Sc::Num(Number::Float(x)) => (r matches Ok(y) && call_ensures(self.visit_f64, (x,), y)), Sc::Bool(x) => r is Err, Sc::Text(x) => (r matches Ok(y) && of_text(self.visit_string, x, y)), Sc::Other => r is Err } }
}
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,(),S>>::visit_u64 | trait=XScalarU64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,(),S>>::visit_i64 | trait=XScalarI64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,(),S>>::visit_f64 | trait=XScalarF64 | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,(),S>>::visit_string | trait=XScalarString | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V>
//@end
//@fn src/serde.rs :: <Visitor for ValueEnumVisitor<U,I,F,(),S>>::visit_str | trait=XScalarStr | subst=E:XErr | retty=Result<V, XErr> | gen=<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V>
//@end
/// not written there: serde's own answer, an error
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V> XScalarBool for ValueEnumVisitor<U,I,F,(),S> { fn visit_bool(self, v: bool) -> (r: Result<V, XErr>) { Err(XErr) } }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V> XScalarOther for ValueEnumVisitor<U,I,F,(),S> { fn x_other(self) -> (r: Result<V, XErr>) { Err(XErr) } }
impl<U: FnOnce(u64) -> V, I: FnOnce(i64) -> V, F: FnOnce(f64) -> V, S: FnOnce(String) -> V, V> XScalarVisitor for ValueEnumVisitor<U,I,F,(),S> { }
// ------------------------------------------------------------ what each kind of value reads as
impl XInto<Value> for u64 { open spec fn x_into_post(self, u: Value) -> bool { sc(u) == Scalar::Num(Number::UnsignedInt(self)) } fn x_into(self) -> (u: Value) { Value::value_from_u64(self) } }
impl XInto<Value> for i64 { open spec fn x_into_post(self, u: Value) -> bool { sc(u) == Scalar::Num(Number::SignedInt(self)) } fn x_into(self) -> (u: Value) { Value::value_from_i64(self) } }
impl XInto<Value> for f64 { open spec fn x_into_post(self, u: Value) -> bool { sc(u) == Scalar::Num(Number::Float(self)) } fn x_into(self) -> (u: Value) { Value::value_from_f64(self) } }
impl XInto<StringOrNumber> for u64 { open spec fn x_into_post(self, u: StringOrNumber) -> bool { sn(u) == Scalar::Num(Number::UnsignedInt(self)) } fn x_into(self) -> (u: StringOrNumber) { StringOrNumber::sn_from_u64(self) } }
impl XInto<StringOrNumber> for i64 { open spec fn x_into_post(self, u: StringOrNumber) -> bool { sn(u) == Scalar::Num(Number::SignedInt(self)) } fn x_into(self) -> (u: StringOrNumber) { StringOrNumber::sn_from_i64(self) } }
impl XInto<StringOrNumber> for f64 { open spec fn x_into_post(self, u: StringOrNumber) -> bool { sn(u) == Scalar::Num(Number::Float(self)) } fn x_into(self) -> (u: StringOrNumber) { StringOrNumber::sn_from_f64(self) } }
pub open spec fn as_value(n: Sc) -> Option<Scalar> { match n { Sc::Num(x) => Some(Scalar::Num(x)), Sc::Bool(b) => Some(Scalar::Bool(b)), Sc::Text(s) => Some(Scalar::Text(s)), Sc::Other => None } }
pub open spec fn as_number(n: Sc) -> Option<Number> { match n { Sc::Num(x) => Some(x), _ => None } }
pub open spec fn as_text_or_number(n: Sc) -> Option<Scalar> { match n { Sc::Num(x) => Some(Scalar::Num(x)), Sc::Text(s) => Some(Scalar::Text(s)), _ => None } }
//@fn src/common.rs :: <Deserialize for Value>::deserialize | as=value_deserialize | subst=D:XDe | retty=Result<Value, XErr> | eta=string~String~Value~sc(__b) == Scalar::Text(x.view());u64~u64~Value~sc(__b) == Scalar::Num(Number::UnsignedInt(x));i64~i64~Value~sc(__b) == Scalar::Num(Number::SignedInt(x));f64~f64~Value~sc(__b) == Scalar::Num(Number::Float(x));bool~bool~Value~sc(__b) == Scalar::Bool(x)
    ensures match as_value(handed(deserializer@)) { Some(s) => r matches Ok(v) && sc(v) == s, None => r is Err }
//@end
//@fn src/common.rs :: <Deserialize for Number>::deserialize | as=number_deserialize | subst=D:XDe | retty=Result<Number, XErr> | eta=u64~u64~Number~__b == Number::UnsignedInt(x);i64~i64~Number~__b == Number::SignedInt(x);f64~f64~Number~__b == Number::Float(x)
    ensures match as_number(handed(deserializer@)) { Some(s) => r matches Ok(v) && v == s, None => r is Err }
//@end
//@fn src/common.rs :: <Deserialize for StringOrNumber>::deserialize | as=sn_deserialize | subst=D:XDe | retty=Result<StringOrNumber, XErr> | eta=string~String~StringOrNumber~sn(__b) == Scalar::Text(x.view());u64~u64~StringOrNumber~sn(__b) == Scalar::Num(Number::UnsignedInt(x));i64~i64~StringOrNumber~sn(__b) == Scalar::Num(Number::SignedInt(x));f64~f64~StringOrNumber~sn(__b) == Scalar::Num(Number::Float(x))
    ensures match as_text_or_number(handed(deserializer@)) { Some(s) => r matches Ok(v) && sn(v) == s, None => r is Err }
//@end
// ------------------------------------------------------------ made from other kinds of text
pub assume_specification [str::into_string] (b: Box<str>) -> (r: String) ensures r@ == b@;
//@fn src/common.rs :: <From<Box<str>> for Value>::from | as=value_from_box
    ensures sc(r) == Scalar::Text(value@)
//@end
//@fn src/common.rs :: <From<Cow<str>> for Value>::from | as=value_from_cow
    ensures sc(r) == Scalar::Text(cow_text(value))
//@end
//@fn src/common.rs :: <From<Box<str>> for StringOrNumber>::from | as=sn_from_box
    ensures sn(r) == Scalar::Text(value@)
//@end
//@fn src/common.rs :: <From<Cow<str>> for StringOrNumber>::from | as=sn_from_cow
    ensures sn(r) == Scalar::Text(cow_text(value))
//@end
// ------------------------------------------------------------ what is written reads back
pub uninterp spec fn float_code(f: f64) -> int;
/// a float that is written is a float when read (trusted: the formats)
#[verifier::external_body] pub broadcast proof fn axiom_float(f: f64) ensures #[trigger] float_at(float_code(f)) == Some(f) { }
impl XSer for u64 { open spec fn node(&self) -> XNode { XNode::Int(*self as int) } #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
impl XSer for i64 { open spec fn node(&self) -> XNode { XNode::Int(*self as int) } #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
impl XSer for f64 { open spec fn node(&self) -> XNode { XNode::Scalar(float_code(*self)) } #[verifier::external_body] fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) { unimplemented!() } }
//@serde src/common.rs :: Number | ser | notype
//@serde src/common.rs :: Value | ser | notype
//@serde src/common.rs :: StringOrNumber | ser | notype
/// a whole number of 0 and more reads as the unsigned kind, whichever kind it was written from
pub open spec fn plain_num(n: Number) -> Number { match n { Number::SignedInt(i) => if i >= 0 { Number::UnsignedInt(i as u64) } else { n }, _ => n } }
pub open spec fn plain(s: Scalar) -> Scalar { match s { Scalar::Num(n) => Scalar::Num(plain_num(n)), s => s } }
pub proof fn theorem_number_written(n: Number) ensures as_number(handed(n.node())) == Some(plain_num(n)) { broadcast use axiom_float; }
pub proof fn theorem_value_written(v: Value) ensures as_value(handed(v.node())) == Some(plain(sc(v))) { broadcast use axiom_float; if let Value::Number(n) = v { theorem_number_written(n); } }
pub proof fn theorem_text_or_number_written(v: StringOrNumber) ensures as_text_or_number(handed(v.node())) == Some(plain(sn(v))) { broadcast use axiom_float; if let StringOrNumber::Number(n) = v { theorem_number_written(n); } }
} // verus!
fn main() {}
