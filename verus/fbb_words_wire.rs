// ---- what is on the wire ----
/// p is the outcome of a parser on the first k bytes of w + tail, where w carries the value v
pub open spec fn cut<T>(w: Seq<u8>, tail: Seq<u8>, k: int, p: Pr<T>, v: T) -> bool {
    if k > w.len() { p == Pr::Yes(tail.take(k - w.len()), v) }
    else if k == w.len() { p is More || p == Pr::Yes(Seq::<u8>::empty(), v) }
    else { p is More }
}
pub open spec fn word(t: Seq<u8>, n: int) -> bool { 1 <= t.len() <= n && utf8(t) && forall|j: int| 0 <= j < t.len() ==> word_byte()(#[trigger] t[j]) }
pub open spec fn number(t: Seq<u8>) -> bool { 1 <= t.len() <= 6 && digits(t) && decimal(t) <= 65535 }
pub open spec fn has_cr(d: Seq<u8>) -> bool { exists|j: int| 0 <= j < d.len() && #[trigger] d[j] == 0x0d }
/// answers definitely, and leaves the end of the line
pub open spec fn definite<T>(p: Pr<T>) -> bool { !(p is More) && (p is Yes ==> has_cr(p->Yes_0)) }

proof fn lemma_tag_cut(t: Seq<u8>, tail: Seq<u8>, k: int)
    requires 0 <= k <= t.len() + tail.len()
    ensures
        k >= t.len() ==> tag_s((t + tail).take(k), t) == Pr::Yes(tail.take(k - t.len()), t),
        k < t.len() ==> tag_s((t + tail).take(k), t) is More,
{
    let d = (t + tail).take(k);
    let n = least(d.len() as int, t.len() as int);
    assert(d.take(n) =~= t.take(n));
    if k >= t.len() {
        assert(d.skip(t.len() as int) =~= tail.take(k - t.len()));
        assert(d.take(t.len() as int) =~= t);
    }
}
proof fn lemma_tag_sound(d: Seq<u8>, t: Seq<u8>)
    ensures tag_s(d, t) matches Pr::Yes(r, o) ==> d == t + r && o == t
{
    if tag_s(d, t) is Yes {
        assert(t.take(t.len() as int) =~= t);
        assert(d =~= d.take(t.len() as int) + d.skip(t.len() as int));
    }
}
/// a tag without the line end cannot be left waiting in front of one, and cannot eat it
proof fn lemma_tag_definite(d: Seq<u8>, t: Seq<u8>)
    requires has_cr(d), !has_cr(t)
    ensures definite(tag_s(d, t))
{
    let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == 0x0d;
    if agrees(d, t) {
        let n = least(d.len() as int, t.len() as int);
        if j < n { assert(d.take(n)[j] == t.take(n)[j]); assert(t[j] == 0x0d); assert(false); }
        if d.len() >= t.len() { assert(d.skip(t.len() as int)[j - t.len()] == 0x0d); }
    }
}
proof fn lemma_no_cr()
    ensures !has_cr(seq![32u8]), !has_cr(seq![70u8, 65u8]), !has_cr(seq![70u8, 66u8]), !has_cr(seq![70u8, 67u8]), !has_cr(seq![70u8, 83u8]), !has_cr(seq![69u8, 77u8]),
        !has_cr(seq![80u8]), !has_cr(seq![66u8]), !has_cr(seq![84u8]),
{}
// words
proof fn lemma_word_cut(t: Seq<u8>, tail: Seq<u8>, k: int, n: int)
    requires word(t, n), 0 <= k <= t.len() + tail.len(), tail.len() > 0, !word_byte()(tail[0])
    ensures cut(t, tail, k, field_f((t + tail).take(k), n), t)
{
    let d = (t + tail).take(k);
    let m = least(k, t.len() as int);
    assert forall|j: int| 0 <= j < m implies word_byte()(#[trigger] d[j]) by { assert(d[j] == t[j]); }
    if k > t.len() { assert(d[t.len() as int] == tail[0]); }
    lemma_span(d, word_byte(), m);
    if k >= t.len() {
        assert(d.skip(t.len() as int) =~= tail.take(k - t.len()));
        assert(d.take(t.len() as int) =~= t);
        assert(tail.take(0) =~= Seq::<u8>::empty());
    }
}
proof fn lemma_word_sound(d: Seq<u8>, n: int)
    requires n >= 1
    ensures field_f(d, n) matches Pr::Yes(r, t) ==> d == t + r && word(t, n)
{
    lemma_span_is(d, word_byte());
    if field_f(d, n) is Yes {
        let t = field_f(d, n)->Yes_1;
        assert(d =~= d.take(t.len() as int) + d.skip(t.len() as int));
        assert forall|j: int| 0 <= j < t.len() implies word_byte()(#[trigger] t[j]) by { assert(t[j] == d[j]); }
    }
}
proof fn lemma_word_definite(d: Seq<u8>, n: int)
    requires has_cr(d), n >= 1
    ensures definite(field_f(d, n))
{
    let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == 0x0d;
    lemma_span_is(d, word_byte());
    let k = span(d, word_byte());
    if j < k { assert(word_byte()(d[j])); assert(false); }
    let c = least(k, n);
    assert(d.skip(c)[j - c] == 0x0d);
}
// numbers
proof fn lemma_number_cut(t: Seq<u8>, tail: Seq<u8>, k: int)
    requires number(t), 0 <= k <= t.len() + tail.len(), tail.len() > 0, !digit(tail[0])
    ensures cut(t, tail, k, number_f((t + tail).take(k)), decimal(t) as u16)
{
    let d = (t + tail).take(k);
    let m = least(k, t.len() as int);
    assert forall|j: int| 0 <= j < m implies digit_byte()(#[trigger] d[j]) by { assert(d[j] == t[j]); assert(digit(t[j])); }
    if k > t.len() { assert(d[t.len() as int] == tail[0]); }
    lemma_span(d, digit_byte(), m);
    if k >= t.len() {
        assert(d.skip(t.len() as int) =~= tail.take(k - t.len()));
        assert(d.take(t.len() as int) =~= t);
        assert(tail.take(0) =~= Seq::<u8>::empty());
    }
}
proof fn lemma_number_sound(d: Seq<u8>)
    ensures number_f(d) matches Pr::Yes(r, v) ==> exists|t: Seq<u8>| #[trigger] number(t) && v == decimal(t) && d == t + r
{
    lemma_span_is(d, digit_byte());
    if number_f(d) is Yes {
        let k = span(d, digit_byte());
        let c = if k < d.len() { least(k, 6) } else { 6 };
        let t = d.take(c);
        assert(d =~= t + d.skip(c));
        assert forall|j: int| 0 <= j < t.len() implies digit(#[trigger] t[j]) by { assert(t[j] == d[j]); assert(digit_byte()(d[j])); }
        assert(number(t));
    }
}
proof fn lemma_number_definite(d: Seq<u8>)
    requires has_cr(d)
    ensures definite(number_f(d))
{
    let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == 0x0d;
    lemma_span_is(d, digit_byte());
    let k = span(d, digit_byte());
    if j < k { assert(digit_byte()(d[j])); assert(false); }
    let c = least(k, 6);
    assert(d.skip(c)[j - c] == 0x0d);
}
