// ---- C12: what a call sign is, as a whole: an optional digit, letters, digits, a letter, then letters or digits
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn is_letter(c: char) -> bool { is_upper(c) || is_lower(c) }
pub open spec fn letter() -> spec_fn(char) -> bool { |c: char| is_letter(c) }
pub open spec fn digit() -> spec_fn(char) -> bool { |c: char| is_digit(c) }
pub open spec fn alnum() -> spec_fn(char) -> bool { |c: char| is_letter(c) || is_digit(c) }
pub open spec fn cut(s: Seq<char>, d: int, a: int, n: int) -> bool {
    &&& 0 <= d <= 1 && d < a < n < s.len()
    &&& all(s, digit(), 0, d)
    &&& all(s, letter(), d, a)
    &&& all(s, digit(), a, n)
    &&& is_letter(s[n])
    &&& all(s, alnum(), n + 1, s.len() as int)
}
pub open spec fn is_callsign(s: Seq<char>) -> bool { exists|d: int, a: int, n: int| #[trigger] cut(s, d, a, n) }
pub open spec fn up(c: char) -> char { if is_lower(c) { ((c as u8) - 32) as u8 as char } else { c } }
pub open spec fn down(c: char) -> char { if is_upper(c) { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn upper(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| up(c)) }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| down(c)) }
/// what becomes of a text
pub open spec fn identifier(s: Seq<char>) -> Option<Seq<char>> { if is_callsign(s) { Some(upper(s)) } else { None } }

/// an expression of the call sign's parts, anchored at both ends, is found exactly in the texts that can be so cut
proof fn lemma_parts(f1: spec_fn(char) -> bool, f2: spec_fn(char) -> bool, f3: spec_fn(char) -> bool, f4: spec_fn(char) -> bool, f5: spec_fn(char) -> bool, s: Seq<char>)
    requires
        forall|c: char| #[trigger] f1(c) == is_digit(c),
        forall|c: char| #[trigger] f2(c) == is_letter(c),
        forall|c: char| #[trigger] f3(c) == is_digit(c),
        forall|c: char| #[trigger] f4(c) == is_letter(c),
        forall|c: char| #[trigger] f5(c) == (is_letter(c) || is_digit(c)),
    ensures
        found(parts(f1, f2, f3, f4, f5), s) <==> is_callsign(s),
{
    let len = s.len() as int;
    let (r1, r2, r3, r5) = (some(f1, 0, Some(1)), some(f2, 1, None), some(f3, 1, None), some(f5, 0, None));
    let r4 = Re::Class(f4);
    let t5 = then(r5, Re::End);
    let t4 = then(r4, t5);
    let t3 = then(r3, t4);
    let t2 = then(r2, t3);
    let t1 = then(r1, t2);
    let t0 = then(Re::Start, t1);
    assert(parts(f1, f2, f3, f4, f5) == t0);
    assert(spans(t0, s) == cat(spans(Re::Start, s), spans(t1, s)));
    assert(spans(t1, s) == cat(spans(r1, s), spans(t2, s)));
    assert(spans(t2, s) == cat(spans(r2, s), spans(t3, s)));
    assert(spans(t3, s) == cat(spans(r3, s), spans(t4, s)));
    assert(spans(t4, s) == cat(spans(r4, s), spans(t5, s)));
    assert(spans(t5, s) == cat(spans(r5, s), spans(Re::End, s)));
    if found(t0, s) {
        let (i, j) = choose|i: int, j: int| #[trigger] within(spans(t0, s), s, i, j);
        let k0 = choose|k: int| #[trigger] joined(spans(Re::Start, s), spans(t1, s), i, k, j);
        let d = choose|k: int| #[trigger] joined(spans(r1, s), spans(t2, s), k0, k, j);
        let a = choose|k: int| #[trigger] joined(spans(r2, s), spans(t3, s), d, k, j);
        let n = choose|k: int| #[trigger] joined(spans(r3, s), spans(t4, s), a, k, j);
        let m = choose|k: int| #[trigger] joined(spans(r4, s), spans(t5, s), n, k, j);
        let e = choose|k: int| #[trigger] joined(spans(r5, s), spans(Re::End, s), m, k, j);
        lemma_run(f1, 0, Some(1), s, k0, d);
        lemma_run(f2, 1, None, s, d, a);
        lemma_run(f3, 1, None, s, a, n);
        lemma_run(f5, 0, None, s, m, e);
        assert(cut(s, d, a, n));
    }
    if is_callsign(s) {
        let (d, a, n) = choose|d: int, a: int, n: int| #[trigger] cut(s, d, a, n);
        lemma_run(f1, 0, Some(1), s, 0, d);
        lemma_run(f2, 1, None, s, d, a);
        lemma_run(f3, 1, None, s, a, n);
        lemma_run(f5, 0, None, s, n + 1, len);
        assert(all(s, f1, 0, d)) by { assert forall|k: int| 0 <= k < d implies f1(#[trigger] s[k]) by { assert(digit()(s[k])); } }
        assert(all(s, f2, d, a)) by { assert forall|k: int| d <= k < a implies f2(#[trigger] s[k]) by { assert(letter()(s[k])); } }
        assert(all(s, f3, a, n)) by { assert forall|k: int| a <= k < n implies f3(#[trigger] s[k]) by { assert(digit()(s[k])); } }
        assert(all(s, f5, n + 1, len)) by { assert forall|k: int| n + 1 <= k < len implies f5(#[trigger] s[k]) by { assert(alnum()(s[k])); } }
        assert(joined(spans(r5, s), spans(Re::End, s), n + 1, len, len));
        assert(joined(spans(r4, s), spans(t5, s), n, n + 1, len));
        assert(joined(spans(r3, s), spans(t4, s), a, n, len));
        assert(joined(spans(r2, s), spans(t3, s), d, a, len));
        assert(joined(spans(r1, s), spans(t2, s), 0, d, len));
        assert(joined(spans(Re::Start, s), spans(t1, s), 0, 0, len));
        assert(within(spans(t0, s), s, 0, len));
    }
}
pub open spec fn then(a: Re, b: Re) -> Re { Re::Cat(Box::new(a), Box::new(b)) }
pub open spec fn some(f: spec_fn(char) -> bool, min: nat, max: Option<nat>) -> Re { Re::Rep(Box::new(Re::Class(f)), min, max) }
pub open spec fn parts(f1: spec_fn(char) -> bool, f2: spec_fn(char) -> bool, f3: spec_fn(char) -> bool, f4: spec_fn(char) -> bool, f5: spec_fn(char) -> bool) -> Re {
    then(Re::Start, then(some(f1, 0, Some(1)), then(some(f2, 1, None), then(some(f3, 1, None), then(Re::Class(f4), then(some(f5, 0, None), Re::End))))))
}
proof fn lemma_chars(s: Seq<char>)
    requires is_callsign(s)
    ensures
        s.len() > 0,
        forall|i: int| 0 <= i < s.len() ==> is_letter(#[trigger] s[i]) || is_digit(s[i]),
{
    let (d, a, n) = choose|d: int, a: int, n: int| #[trigger] cut(s, d, a, n);
    assert forall|i: int| 0 <= i < s.len() implies is_letter(#[trigger] s[i]) || is_digit(s[i]) by {
        if i < d { assert(digit()(s[i])); } else if i < a { assert(letter()(s[i])); } else if i < n { assert(digit()(s[i])); } else if i > n { assert(alnum()(s[i])); }
    }
}
proof fn lemma_plain_callsign(s: Seq<char>)
    ensures is_callsign(s) ==> plain(s) && utf8_of(s) == Seq::new(s.len(), |i: int| s[i] as u8)
{
    if is_callsign(s) {
        lemma_chars(s);
        axiom_plain(s);
    }
}
/// a text without lower-case letters is its own upper-casing
proof fn lemma_upper_same(s: Seq<char>)
    ensures (forall|i: int| 0 <= i < s.len() ==> !is_lower(#[trigger] s[i])) ==> upper(s) == s
{
    if forall|i: int| 0 <= i < s.len() ==> !is_lower(#[trigger] s[i]) { assert(upper(s) =~= s); }
}
/// the same, of the bytes
proof fn lemma_upper_bytes(s: Seq<char>)
    ensures is_callsign(s) && (forall|i: int| 0 <= i < s.len() ==> !lower_code(#[trigger] utf8_of(s)[i] as int)) ==> upper(s) == s
{
    if is_callsign(s) && (forall|i: int| 0 <= i < s.len() ==> !lower_code(#[trigger] utf8_of(s)[i] as int)) {
        lemma_plain_callsign(s);
        assert forall|i: int| 0 <= i < s.len() implies !is_lower(#[trigger] s[i]) by {
            assert(utf8_of(s)[i] == s[i] as u8);
        }
        lemma_upper_same(s);
    }
}
pub open spec fn same_up_to_case(s: Seq<char>, t: Seq<char>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> up(#[trigger] s[i]) == up(t[i])
}
proof fn lemma_cut_case(s: Seq<char>, t: Seq<char>, d: int, a: int, n: int)
    requires same_up_to_case(s, t), cut(s, d, a, n)
    ensures cut(t, d, a, n)
{
    assert forall|i: int| 0 <= i < s.len() implies (is_letter(#[trigger] t[i]) == is_letter(s[i])) && (is_digit(t[i]) == is_digit(s[i])) by { assert(up(s[i]) == up(t[i])); }
    assert(all(t, digit(), 0, d)) by { assert forall|k: int| 0 <= k < d implies digit()(#[trigger] t[k]) by { assert(digit()(s[k])); } }
    assert(all(t, letter(), d, a)) by { assert forall|k: int| d <= k < a implies letter()(#[trigger] t[k]) by { assert(letter()(s[k])); } }
    assert(all(t, digit(), a, n)) by { assert forall|k: int| a <= k < n implies digit()(#[trigger] t[k]) by { assert(digit()(s[k])); } }
    assert(all(t, alnum(), n + 1, t.len() as int)) by { assert forall|k: int| n + 1 <= k < t.len() implies alnum()(#[trigger] t[k]) by { assert(alnum()(s[k])); } }
}
proof fn lemma_same_up_to_case(s: Seq<char>, t: Seq<char>)
    ensures
        same_up_to_case(s, t) ==> is_callsign(s) == is_callsign(t),
        same_up_to_case(s, upper(s)),
{
    if same_up_to_case(s, t) {
        if is_callsign(s) {
            let (d, a, n) = choose|d: int, a: int, n: int| #[trigger] cut(s, d, a, n);
            lemma_cut_case(s, t, d, a, n);
        }
        if is_callsign(t) {
            let (d, a, n) = choose|d: int, a: int, n: int| #[trigger] cut(t, d, a, n);
            assert(same_up_to_case(t, s));
            lemma_cut_case(t, s, d, a, n);
        }
    }
}
