@source src/types.rs
@opt regex
@call .as_bytes => str_bytes
@call .to_ascii_uppercase => str_upper
@call .to_ascii_lowercase => str_lower
@call .to_owned => str_owned
@call .to_string => str_owned
@call .is_ascii_lowercase => is_lower_code
@type Self::Error => InvalidStationId
@type Cow<str> => Cow<&str, String>
@prelude text_bytes.rs
@prelude re.rs
@prelude types_id.rs
// ---- Cow: borrowed or owned ----
pub enum Cow<B, O> { Borrowed(B), Owned(O) }
impl Cow<&str, String> {
    pub open spec fn text(&self) -> Seq<char> { match *self { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<String> for Cow<&'a str, String> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: String) -> Self { Cow::Owned(x) } }
impl<'a> From<String> for Cow<&'a str, String> { fn from(x: String) -> (ret: Self) { Cow::Owned(x) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Cow<&'a str, String> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &'a str) -> Self { Cow::Borrowed(x) } }
impl<'a> From<&'a str> for Cow<&'a str, String> { fn from(x: &'a str) -> (ret: Self) { Cow::Borrowed(x) } }
@fn StationId::<Normalizer>::normalize(s) ret=ret loops=0|1
ensures
    ret is Ok <==> is_callsign(s@),
    ret matches Ok(c) ==> c.text() == upper(s@),
@hint start
proof { lemma_station(s@); lemma_plain_callsign(s@); lemma_upper_same(s@); lemma_upper_bytes(s@); }
@loop 0
invariant
    0 <= __ai1 <= __ab1@.len(),
    !__any1 ==> forall|j: int| 0 <= j < __ai1 ==> !lower_code(#[trigger] __ab1@[j] as int),
    __any1 ==> 0 < __ai1 && lower_code(__ab1@[__ai1 - 1] as int),
decreases __ab1@.len() - __ai1
@local
/// the expression in the sources is that of a call sign
proof fn lemma_station(s: Seq<char>)
    ensures found(STATION__re(), s) <==> is_callsign(s)
{
    lemma_parts(STATION__class0(), STATION__class1(), STATION__class2(), STATION__class3(), STATION__class4(), s);
    assert(STATION__re() == parts(STATION__class0(), STATION__class1(), STATION__class2(), STATION__class3(), STATION__class4()));
}
@epilogue
proof fn property_c12_only_upper_case(s: Seq<char>)
    requires identifier(s) is Some
    ensures forall|i: int| 0 <= i < identifier(s)->0.len() ==> is_upper(#[trigger] identifier(s)->0[i]) || is_digit(identifier(s)->0[i])
{
    lemma_chars(s);
}
/// creating it again changes nothing
proof fn property_c12_idempotent(s: Seq<char>)
    requires identifier(s) is Some
    ensures identifier(identifier(s)->0) == identifier(s)
{
    lemma_same_up_to_case(s, upper(s));
    lemma_chars(s);
    assert(upper(upper(s)) =~= upper(s));
}
/// two spellings that differ in letter case only: both are refused, or both give the same identifier
proof fn property_c12_case_insensitive(s: Seq<char>, t: Seq<char>)
    requires same_up_to_case(s, t)
    ensures identifier(s) == identifier(t)
{
    lemma_same_up_to_case(s, t);
    assert(upper(s) =~= upper(t));
}
