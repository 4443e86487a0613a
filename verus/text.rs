// ---- text being written: String and fmt::Formatter, as a sequence of characters (assumed; writing to a String never fails) ----
#[derive(Debug)]
pub struct FmtError;
#[verifier::external_body] pub struct Text { x: u8 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Text {
    #[verifier::external_body]
    fn new() -> (ret: Text) ensures ret@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (ret: Text) ensures ret@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (ret: Result<(), FmtError>) ensures ret is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (ret: Result<(), FmtError>) ensures ret is Ok, final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (ret: &[u8]) ensures ret@ == utf8_of(self@) { unimplemented!() }
}
/// the bytes of a text; those of an ASCII text are its characters
pub uninterp spec fn utf8_of(t: Seq<char>) -> Seq<u8>;
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < '\u{80}' }
#[verifier::external_body]
proof fn axiom_plain(t: Seq<char>)
    requires plain(t)
    ensures utf8_of(t) == Seq::new(t.len(), |i: int| t[i] as u8)
{}
/// UTF-8 encodes a text character by character
#[verifier::external_body]
proof fn axiom_utf8_concat(a: Seq<char>, b: Seq<char>)
    ensures utf8_of(a + b) == utf8_of(a) + utf8_of(b)
{}
broadcast proof fn lemma_concat(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + b + c) == a + (b + c)
{
    assert(a + b + c =~= a + (b + c));
}
broadcast proof fn lemma_concat_none(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{
    assert(a + Seq::<char>::empty() =~= a);
}
broadcast proof fn lemma_concat_one(a: Seq<char>, c: char)
    ensures #[trigger] a.push(c) == a + seq![c]
{
    assert(a.push(c) =~= a + seq![c]);
}
broadcast group group_concat { lemma_concat, lemma_concat_none, lemma_concat_one }
