// ---- str as bytes and characters (assumed) ----
/// the bytes of a text; those of an ASCII text are its characters
pub uninterp spec fn utf8_of(t: Seq<char>) -> Seq<u8>;
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < '\u{80}' }
#[verifier::external_body]
proof fn axiom_plain(t: Seq<char>)
    requires plain(t)
    ensures utf8_of(t) == Seq::new(t.len(), |i: int| t[i] as u8)
{}
#[verifier::external_body]
fn str_bytes(s: &str) -> (ret: &[u8]) ensures ret@ == utf8_of(s@) { unimplemented!() }
#[verifier::external_body]
fn chars_of(s: &str) -> (ret: Vec<char>) ensures ret@ == s@ { unimplemented!() }
#[verifier::external_body]
fn str_upper(s: &str) -> (ret: String) ensures ret@ == upper(s@) { unimplemented!() }
#[verifier::external_body]
fn str_lower(s: &str) -> (ret: String) ensures ret@ == lower(s@) { unimplemented!() }
#[verifier::external_body]
fn str_owned(s: &str) -> (ret: String) ensures ret@ == s@ { unimplemented!() }
/// lower-case letters, of bytes and of characters alike
pub open spec fn lower_code(c: int) -> bool { 97 <= c <= 122 }
pub trait Letter: Copy { spec fn code(&self) -> int; fn low(&self) -> (ret: bool) ensures ret == lower_code(self.code()); }
impl Letter for u8 { open spec fn code(&self) -> int { *self as int } fn low(&self) -> (ret: bool) { b'a' <= *self && *self <= b'z' } }
impl Letter for char { open spec fn code(&self) -> int { *self as int } fn low(&self) -> (ret: bool) { 'a' <= *self && *self <= 'z' } }
fn is_lower_code<T: Letter>(c: T) -> (ret: bool) ensures ret == lower_code(c.code()) { c.low() }
