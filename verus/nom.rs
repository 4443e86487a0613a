// ---- nom 7.1.0: leaf parsers, as contracts (assumed; compared with the real nom by the harness) ----
use vstd::slice::*;
pub enum Needed { Unknown, Size(usize) }
pub enum PErr { Incomplete(Needed), Error, Failure }
fn needed_new(n: usize) -> (ret: Needed) ensures ret == (if n == 0 { Needed::Unknown } else { Needed::Size(n) }) { if n == 0 { Needed::Unknown } else { Needed::Size(n) } }
impl PErr {
    fn is_incomplete(&self) -> (ret: bool) ensures ret == (self is Incomplete) { match self { PErr::Incomplete(_) => true, _ => false } }
}
/// outcome of a parser on a byte string: rest and value; bytes missing (0: unknown); no match; broken off
pub enum Pr<T> { Yes(Seq<u8>, T), More(int), No, Stop }
pub open spec fn need(n: Needed) -> int { match n { Needed::Unknown => 0, Needed::Size(k) => k as int } }
/// the failure side of an outcome
pub open spec fn fails<T, U>(ret: Result<T, PErr>, s: Pr<U>) -> bool {
    match ret {
        Ok(_) => s is Yes,
        Err(PErr::Error) => s is No,
        Err(PErr::Failure) => s is Stop,
        Err(PErr::Incomplete(n)) => s is More && s->More_0 == need(n),
    }
}
pub open spec fn bytes_is(ret: Result<(&[u8], &[u8]), PErr>, s: Pr<Seq<u8>>) -> bool {
    fails(ret, s) && (ret matches Ok((r, o)) ==> s == Pr::Yes(r@, o@))
}
pub open spec fn val_is<T>(ret: Result<(&[u8], T), PErr>, s: Pr<T>) -> bool {
    fails(ret, s) && (ret matches Ok((r, o)) ==> s == Pr::Yes(r@, o))
}
pub open spec fn then<A, B>(p: Pr<A>, f: spec_fn(Seq<u8>, A) -> Pr<B>) -> Pr<B> {
    match p { Pr::Yes(r, a) => f(r, a), Pr::More(n) => Pr::More(n), Pr::No => Pr::No, Pr::Stop => Pr::Stop }
}
pub open spec fn split<T>(d: Seq<u8>, k: int) -> Pr<Seq<u8>> { Pr::Yes(d.skip(k), d.take(k)) }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
/// the available bytes agree with the tag
pub open spec fn agrees(d: Seq<u8>, t: Seq<u8>) -> bool {
    let n = least(d.len() as int, t.len() as int);
    d.take(n) == t.take(n)
}
pub open spec fn tag_s(d: Seq<u8>, t: Seq<u8>) -> Pr<Seq<u8>> {
    if !agrees(d, t) { Pr::No } else if d.len() < t.len() { Pr::More(t.len() - d.len()) } else { split::<u8>(d, t.len() as int) }
}
pub open spec fn tag_c(d: Seq<u8>, t: Seq<u8>) -> Pr<Seq<u8>> {
    if !agrees(d, t) || d.len() < t.len() { Pr::No } else { split::<u8>(d, t.len() as int) }
}
pub open spec fn agrees_fold(d: Seq<u8>, t: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < t.len() && i < d.len() ==> folded(#[trigger] d[i]) == folded(t[i])
}
pub open spec fn tag_no_case_s(d: Seq<u8>, t: Seq<u8>) -> Pr<Seq<u8>> {
    if !agrees_fold(d, t) { Pr::No } else if d.len() < t.len() { Pr::More(t.len() - d.len()) } else { split::<u8>(d, t.len() as int) }
}
pub open spec fn tag_no_case_c(d: Seq<u8>, t: Seq<u8>) -> Pr<Seq<u8>> {
    if !agrees_fold(d, t) || d.len() < t.len() { Pr::No } else { split::<u8>(d, t.len() as int) }
}
pub open spec fn take_s(d: Seq<u8>, n: int) -> Pr<Seq<u8>> {
    if d.len() < n { Pr::More(n - d.len()) } else { split::<u8>(d, n) }
}
pub open spec fn be_u8_s(d: Seq<u8>) -> Pr<u8> {
    if d.len() < 1 { Pr::More(1) } else { Pr::Yes(d.skip(1), d[0]) }
}
pub open spec fn le16(d: Seq<u8>) -> u16 { (d[0] as u16) | ((d[1] as u16) << 8) }
pub open spec fn le32(d: Seq<u8>) -> u32 { (d[0] as u32) | ((d[1] as u32) << 8) | ((d[2] as u32) << 16) | ((d[3] as u32) << 24) }
/// k: number of leading bytes the predicate accepts
pub open spec fn while_m_n_s(d: Seq<u8>, m: int, n: int, k: int) -> Pr<Seq<u8>> {
    if k < d.len() {
        if k >= m { split::<u8>(d, least(k, n)) } else { Pr::No }
    } else if d.len() >= n { split::<u8>(d, n) } else { Pr::More(if m > d.len() { m - d.len() } else { 1 }) }
}
pub open spec fn while_m_n_c(d: Seq<u8>, m: int, n: int, k: int) -> Pr<Seq<u8>> {
    if k < m { Pr::No } else { split::<u8>(d, least(k, n)) }
}
#[verifier::external_body]
fn nom_tag_no_case_s<'a, const N: usize>(i: &'a [u8], t: [u8; N]) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, tag_no_case_s(i@, t@))
{ unimplemented!() }
#[verifier::external_body]
fn nom_tag_no_case_c<'a, const N: usize>(i: &'a [u8], t: [u8; N]) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, tag_no_case_c(i@, t@))
{ unimplemented!() }
#[verifier::external_body]
fn nom_tag_s<'a, const N: usize>(i: &'a [u8], t: [u8; N]) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, tag_s(i@, t@))
{ unimplemented!() }
#[verifier::external_body]
fn nom_tag_c<'a, const N: usize>(i: &'a [u8], t: [u8; N]) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, tag_c(i@, t@))
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_s<'a>(i: &'a [u8], n: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, take_s(i@, n as int))
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_c<'a>(i: &'a [u8], n: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, if i@.len() < n { Pr::No } else { split::<u8>(i@, n as int) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_be_u8_s<'a>(i: &'a [u8]) -> (ret: Result<(&'a [u8], u8), PErr>)
    ensures val_is(ret, be_u8_s(i@))
{ unimplemented!() }
#[verifier::external_body]
fn nom_be_u8_c<'a>(i: &'a [u8]) -> (ret: Result<(&'a [u8], u8), PErr>)
    ensures val_is(ret, if i@.len() < 1 { Pr::No } else { Pr::Yes(i@.skip(1), i@[0]) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_le_u16_s<'a>(i: &'a [u8]) -> (ret: Result<(&'a [u8], u16), PErr>)
    ensures val_is(ret, if i@.len() < 2 { Pr::More(2 - i@.len()) } else { Pr::Yes(i@.skip(2), le16(i@)) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_le_u32_s<'a>(i: &'a [u8]) -> (ret: Result<(&'a [u8], u32), PErr>)
    ensures val_is(ret, if i@.len() < 4 { Pr::More(4 - i@.len()) } else { Pr::Yes(i@.skip(4), le32(i@)) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_le_u16_c<'a>(i: &'a [u8]) -> (ret: Result<(&'a [u8], u16), PErr>)
    ensures val_is(ret, if i@.len() < 2 { Pr::No } else { Pr::Yes(i@.skip(2), le16(i@)) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_le_u32_c<'a>(i: &'a [u8]) -> (ret: Result<(&'a [u8], u32), PErr>)
    ensures val_is(ret, if i@.len() < 4 { Pr::No } else { Pr::Yes(i@.skip(4), le32(i@)) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_while_c<'a>(i: &'a [u8], k: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    requires k <= i@.len()
    ensures bytes_is(ret, split::<u8>(i@, k as int))
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_while_s<'a>(i: &'a [u8], k: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    requires k <= i@.len()
    ensures bytes_is(ret, if k < i@.len() { split::<u8>(i@, k as int) } else { Pr::More(1) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_while1_c<'a>(i: &'a [u8], k: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    requires k <= i@.len()
    ensures bytes_is(ret, if k == 0 { Pr::No } else { split::<u8>(i@, k as int) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_while1_s<'a>(i: &'a [u8], k: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    requires k <= i@.len()
    ensures bytes_is(ret, if k == i@.len() { Pr::More(1) } else if k == 0 { Pr::No } else { split::<u8>(i@, k as int) })
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_while_m_n_s<'a>(i: &'a [u8], m: usize, n: usize, k: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    requires k <= i@.len(), m <= n
    ensures bytes_is(ret, while_m_n_s(i@, m as int, n as int, k as int))
{ unimplemented!() }
#[verifier::external_body]
fn nom_take_while_m_n_c<'a>(i: &'a [u8], m: usize, n: usize, k: usize) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    requires k <= i@.len(), m <= n
    ensures bytes_is(ret, while_m_n_c(i@, m as int, n as int, k as int))
{ unimplemented!() }
pub open spec fn digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
#[verifier::external_body]
fn nom_is_digit(b: u8) -> (ret: bool)
    ensures ret == digit(b)
{ unimplemented!() }

// ---- spans and decimal numbers ----
pub open spec fn span(d: Seq<u8>, f: spec_fn(u8) -> bool) -> int
    decreases d.len()
{
    if d.len() == 0 || !f(d[0]) { 0 } else { 1 + span(d.skip(1), f) }
}
proof fn lemma_span(d: Seq<u8>, f: spec_fn(u8) -> bool, k: int)
    requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> f(#[trigger] d[j]), k < d.len() ==> !f(d[k])
    ensures span(d, f) == k
    decreases k
{
    if k > 0 {
        assert(d.skip(1).len() == d.len() - 1);
        assert forall|j: int| 0 <= j < k - 1 implies f(#[trigger] d.skip(1)[j]) by { assert(d.skip(1)[j] == d[j + 1]); }
        lemma_span(d.skip(1), f, k - 1);
    }
}
proof fn lemma_span_is(d: Seq<u8>, f: spec_fn(u8) -> bool)
    ensures 0 <= span(d, f) <= d.len(), forall|j: int| 0 <= j < span(d, f) ==> f(#[trigger] d[j]), span(d, f) < d.len() ==> !f(d[span(d, f)])
    decreases d.len()
{
    if d.len() > 0 && f(d[0]) {
        lemma_span_is(d.skip(1), f);
        assert forall|j: int| 0 <= j < span(d, f) implies f(#[trigger] d[j]) by { if j > 0 { assert(d.skip(1)[j - 1] == d[j]); } }
    }
}
pub open spec fn decimal(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { decimal(s.drop_last()) * 10 + (s.last() - 0x30) as nat }
}
pub open spec fn digits(s: Seq<u8>) -> bool { forall|j: int| 0 <= j < s.len() ==> digit(#[trigger] s[j]) }

/// position of the first byte b, or the length
pub open spec fn other_than(b: u8) -> spec_fn(u8) -> bool { |x: u8| x != b }
pub open spec fn upto(d: Seq<u8>, b: u8) -> int { span(d, other_than(b)) }
/// everything before the first b, which must be there and not at once
pub open spec fn until1_s(d: Seq<u8>, b: u8) -> Pr<Seq<u8>> {
    let k = upto(d, b);
    if k == d.len() { Pr::More(0) } else if k == 0 { Pr::No } else { split::<u8>(d, k) }
}
#[verifier::external_body]
fn nom_take_until1_s<'a>(i: &'a [u8], t: [u8; 1]) -> (ret: Result<(&'a [u8], &'a [u8]), PErr>)
    ensures bytes_is(ret, until1_s(i@, t@[0]))
{ unimplemented!() }

// ---- text ----
/// the bytes of a str
pub uninterp spec fn text(s: &str) -> Seq<u8>;
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) < 0x80 }
#[verifier::external_body]
proof fn axiom_ascii_utf8(s: Seq<u8>)
    requires ascii(s)
    ensures utf8(s)
{}
/// the text must be valid UTF-8: this is what makes the unsafe call sound
#[verifier::external_body]
fn str_unchecked<'a>(b: &'a [u8]) -> (ret: &'a str)
    requires ascii(b@)
    ensures text(ret) == b@
{ unimplemented!() }
#[verifier::external_body]
fn str_checked<'a>(b: &'a [u8]) -> (ret: Result<&'a str, ()>)
    ensures ret is Ok == utf8(b@), ret matches Ok(s) ==> text(s) == b@
{ unimplemented!() }
#[verifier::external_body]
fn u32_radix(s: &str, radix: u32) -> (ret: Result<u32, ()>)
    requires radix == 10, digits(text(s))
    ensures ret is Ok == (text(s).len() > 0 && decimal(text(s)) <= u32::MAX), ret matches Ok(v) ==> v == decimal(text(s))
{ unimplemented!() }
#[verifier::external_body]
fn u16_radix(s: &str, radix: u32) -> (ret: Result<u16, ()>)
    requires radix == 10, digits(text(s))
    ensures ret is Ok == (text(s).len() > 0 && decimal(text(s)) <= u16::MAX), ret matches Ok(v) ==> v == decimal(text(s))
{ unimplemented!() }
#[verifier::external_body]
fn usize_radix(s: &str, radix: u32) -> (ret: Result<usize, ()>)
    requires radix == 10, digits(text(s))
    ensures ret is Ok == (text(s).len() > 0 && decimal(text(s)) <= usize::MAX), ret matches Ok(v) ==> v == decimal(text(s))
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_graphic(b: &u8) -> (ret: bool)
    ensures ret == (0x21 <= *b <= 0x7e)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_upper(b: &u8) -> (ret: bool)
    ensures ret == (0x41 <= *b <= 0x5a)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_digit(b: &u8) -> (ret: bool)
    ensures ret == digit(*b)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_lower(b: &u8) -> (ret: bool)
    ensures ret == (0x61 <= *b <= 0x7a)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_alpha(b: &u8) -> (ret: bool)
    ensures ret == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_alnum(b: &u8) -> (ret: bool)
    ensures ret == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a || digit(*b))
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_hexdigit(b: &u8) -> (ret: bool)
    ensures ret == (0x41 <= *b <= 0x46 || 0x61 <= *b <= 0x66 || digit(*b))
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_ascii(b: &u8) -> (ret: bool)
    ensures ret == (*b <= 0x7f)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_control(b: &u8) -> (ret: bool)
    ensures ret == (*b <= 0x1f || *b == 0x7f)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_space(b: &u8) -> (ret: bool)
    ensures ret == (*b == 0x20 || *b == 0x09 || *b == 0x0a || *b == 0x0c || *b == 0x0d)
{ unimplemented!() }
#[verifier::external_body]
fn u8_is_punct(b: &u8) -> (ret: bool)
    ensures ret == (0x21 <= *b <= 0x2f || 0x3a <= *b <= 0x40 || 0x5b <= *b <= 0x60 || 0x7b <= *b <= 0x7e)
{ unimplemented!() }
pub open spec fn folded(b: u8) -> u8 { if 0x61 <= b <= 0x7a { (b - 32) as u8 } else { b } }
#[verifier::external_body]
fn u8_to_upper(b: &u8) -> (ret: u8)
    ensures ret == folded(*b)
{ unimplemented!() }
#[verifier::external_body]
fn u8_to_lower(b: &u8) -> (ret: u8)
    ensures ret == (if 0x41 <= *b <= 0x5a { (*b + 32) as u8 } else { *b })
{ unimplemented!() }
#[verifier::external_body]
fn u8_eq_fold(b: &u8, c: &u8) -> (ret: bool)
    ensures ret == (folded(*b) == folded(*c))
{ unimplemented!() }
proof fn lemma_skip_skip(d: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= d.len()
    ensures d.skip(a).skip(b) =~= d.skip(a + b)
{}
