@assume types.vspec
@source expanded:types
@call <StationIdas::aliri_braid::Normalizer>::normalize => StationId::normalize
@call <StationIdas::aliri_braid::Validator>::validate => validate
@call .to_owned => &own
@call Self::from_str_unchecked => ref_unchecked
@call StationIdRef::from_str_unchecked => ref_unchecked
@call .into_owned => cow_owned
@call ::std::ops::Deref::deref => id_deref
@type <StationId as ::aliri_braid::Normalizer>::Error => InvalidStationId
@type <StationId as ::aliri_braid::Validator>::Error => NotNormal
@type ::std::borrow::Cow<Self> => Cow<&StationIdRef, StationId>
@type ::std::borrow::Cow<str> => Cow<&str, String>
@type ::std::borrow::Cow<'a, StationIdRef> => Cow<&'a StationIdRef, StationId>
@type ::std::borrow::Cow => Cow
@type AsRef<str> => AsText
@type Into<String> => IntoText
@type Self::Err => InvalidStationId
@type Self::Owned => StationId
@type Self::Target => StationIdRef
@include StationIdRef
@prelude
pub enum NotNormal { ValueNotNormal, ValidatorError(InvalidStationId) }
pub trait AsText: Sized {
    spec fn said(&self) -> Seq<char>;
    fn as_ref(&self) -> (ret: &str) ensures ret@ == self.said();
}
impl AsText for &str {
    open spec fn said(&self) -> Seq<char> { self@ }
    fn as_ref(&self) -> (ret: &str) { *self }
}
impl AsText for String {
    open spec fn said(&self) -> Seq<char> { self@ }
    fn as_ref(&self) -> (ret: &str) { self.as_str() }
}
pub trait IntoText: Sized {
    spec fn held(&self) -> Seq<char>;
    fn into(self) -> (ret: String) ensures ret@ == self.held();
}
impl IntoText for String {
    open spec fn held(&self) -> Seq<char> { self@ }
    fn into(self) -> (ret: String) { self }
}
/// aliri_braid's blanket implementation (assumed): what normalize lends back as it is
#[verifier::external_body]
fn validate(s: &str) -> (ret: Result<(), NotNormal>) ensures ret is Ok ==> is_callsign(s@) && upper(s@) == s@ { unimplemented!() }
/// reinterprets a text (the pointer cast is assumed to keep it)
#[verifier::external_body]
fn ref_unchecked(s: &str) -> (ret: &StationIdRef) ensures ret.0@ == s@ { unimplemented!() }
#[verifier::external_body]
fn cow_owned(c: Cow<&str, String>) -> (ret: String) ensures ret@ == c.text() { unimplemented!() }
pub trait Own {
    type O;
    spec fn same(&self, o: &Self::O) -> bool;
    fn own_it(&self) -> (ret: Self::O) ensures self.same(&ret);
}
impl Own for str {
    type O = String;
    open spec fn same(&self, o: &String) -> bool { self@ == o@ }
    fn own_it(&self) -> (ret: String) { str_owned(self) }
}
impl Own for StationIdRef {
    type O = StationId;
    open spec fn same(&self, o: &StationId) -> bool { self.0@ == o.0@ }
    fn own_it(&self) -> (ret: StationId) { self.to_owned() }
}
impl<T: Own + ?Sized> Own for &T {
    type O = T::O;
    open spec fn same(&self, o: &T::O) -> bool { (**self).same(o) }
    fn own_it(&self) -> (ret: T::O) { (**self).own_it() }
}
fn own<T: Own + ?Sized>(t: &T) -> (ret: T::O) ensures t.same(&ret) { t.own_it() }
pub open spec fn is_id(s: Seq<char>, id: Seq<char>) -> bool { identifier(s) == Some(id) }
impl Cow<&StationIdRef, StationId> {
    spec fn id(&self) -> Seq<char> { match *self { Cow::Borrowed(b) => b.0@, Cow::Owned(o) => o.0@ } }
}
@fn StationId::new(s) ret=ret
ensures
    ret is Ok <==> is_callsign(s.said()),
    ret matches Ok(id) ==> is_id(s.said(), id.0@),
@fn StationId::new_unchecked(s) ret=ret
ensures ret.0@ == s.held(),
@fn StationId::<TryFrom>::try_from(s) ret=ret
ensures
    ret is Ok <==> is_callsign(s@),
    ret matches Ok(id) ==> is_id(s@, id.0@),
@fn StationId::<FromStr>::from_str(s) ret=ret
ensures
    ret is Ok <==> is_callsign(s@),
    ret matches Ok(id) ==> is_id(s@, id.0@),
@fn StationIdRef::from_str(s) ret=ret
ensures
    ret is Ok <==> is_callsign(s@),
    ret matches Ok(c) ==> is_id(s@, c.id()),
@fn StationIdRef::from_cow_str_unchecked(cow) ret=ret
ensures ret.id() == cow.text(),
@fn StationIdRef::from_normalized_str(s) ret=ret
ensures ret matches Ok(r) ==> is_id(s@, r.0@) && r.0@ == s@,
@fn StationIdRef::as_str() ret=ret
ensures ret@ == self.0@,
@fn StationIdRef::<ToOwned>::to_owned() ret=ret
ensures ret.0@ == self.0@,
@fn StationId::<Deref>::deref() ret=ret
ensures ret.0@ == self.0@,
@fn StationId::into_string() ret=ret
ensures ret@ == self.0@,
@fn StationId::<From>::from(s) ret=ret
ensures ret.0@ == s.0@,
@fn StationId::<TryFrom<&'_str>>::try_from(s) ret=ret
ensures
    ret is Ok <==> is_callsign(s@),
    ret matches Ok(id) ==> is_id(s@, id.0@),
