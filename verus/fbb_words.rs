// ---- words and numbers of a line ----
pub open spec fn word_byte() -> spec_fn(u8) -> bool { |b: u8| !(b == 0x20 || b == 0x0d) }
pub open spec fn digit_byte() -> spec_fn(u8) -> bool { |b: u8| digit(b) }
/// a word of 1 to n bytes
pub open spec fn word_f(d: Seq<u8>, n: int) -> Pr<Seq<u8>> { while_m_n_s(d, 1, n, span(d, word_byte())) }
pub open spec fn text_f(p: Pr<Seq<u8>>) -> Pr<Seq<u8>> { then(p, |r: Seq<u8>, t: Seq<u8>| if utf8(t) { Pr::Yes(r, t) } else { Pr::No }) }
pub open spec fn field_f(d: Seq<u8>, n: int) -> Pr<Seq<u8>> { text_f(word_f(d, n)) }
/// a number of 1 to 6 digits, at most 65535
pub open spec fn number_f(d: Seq<u8>) -> Pr<u16> {
    then(while_m_n_s(d, 1, 6, span(d, digit_byte())), |r: Seq<u8>, t: Seq<u8>| if decimal(t) <= 65535 { Pr::Yes(r, decimal(t) as u16) } else { Pr::No })
}
pub open spec fn space_f(d: Seq<u8>) -> Pr<Seq<u8>> { tag_s(d, seq![32u8]) }
/// a tag of one byte
proof fn lemma_sign(d: Seq<u8>)
    ensures forall|b: u8| #[trigger] tag_s(d, seq![b]) == if d.len() == 0 { Pr::<Seq<u8>>::More(1) } else if d[0] == b { Pr::Yes(d.skip(1), d.take(1)) } else { Pr::No }
{
    assert forall|b: u8| #[trigger] tag_s(d, seq![b]) == if d.len() == 0 { Pr::<Seq<u8>>::More(1) } else if d[0] == b { Pr::Yes(d.skip(1), d.take(1)) } else { Pr::No } by {
        let t = seq![b];
        if d.len() == 0 { assert(d.take(0) =~= t.take(0)); }
        else {
            assert(t.take(1)[0] == b && d.take(1)[0] == d[0]);
            if d[0] == b { assert(d.take(1) =~= t.take(1)); }
        }
    }
}
proof fn lemma_digit_span(d: Seq<u8>, k: int)
    requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> digit_byte()(#[trigger] d[j])
    ensures forall|m: int| 0 <= m <= k ==> digits(#[trigger] d.take(m)) && utf8(d.take(m))
{
    assert forall|m: int| 0 <= m <= k implies digits(#[trigger] d.take(m)) && utf8(d.take(m)) by {
        assert forall|j: int| 0 <= j < m implies digit(#[trigger] d.take(m)[j]) by { assert(digit_byte()(d[j])); }
        assert forall|j: int| 0 <= j < m implies #[trigger] d.take(m)[j] < 0x80 by { assert(digit_byte()(d[j])); }
        axiom_ascii_utf8(d.take(m));
    }
}

