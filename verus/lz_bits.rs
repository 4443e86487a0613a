// ---------------------------------------------------------------------------------------------
// Bytes as bits, most significant first
// ---------------------------------------------------------------------------------------------
pub open spec fn bit8(b: u8, k: int) -> bool { (b >> ((7 - k) as u8)) & 1u8 == 1u8 }
pub open spec fn bits_of(m: Seq<u8>) -> Seq<bool> { Seq::new(8 * m.len(), |k: int| bit8(m[k / 8], k % 8)) }
pub open spec fn val(bits: Seq<bool>) -> int
    decreases bits.len()
{
    if bits.len() == 0 { 0 } else { 2 * val(bits.drop_last()) + (if bits.last() { 1int } else { 0int }) }
}
proof fn lemma_bits_push(m: Seq<u8>, b: u8)
    ensures bits_of(m.push(b)) =~= bits_of(m) + bits_of(seq![b])
{
    assert forall|k: int| 0 <= k < 8 * m.len() + 8 implies bits_of(m.push(b))[k] == (bits_of(m) + bits_of(seq![b]))[k] by {
        if k < 8 * m.len() {
            assert(k / 8 < m.len());
        } else {
            assert(k / 8 == m.len());
            assert((k - 8 * m.len()) / 8 == 0 && (k - 8 * m.len()) % 8 == k % 8);
        }
    }
}
proof fn lemma_bits_cons(m: Seq<u8>)
    requires m.len() > 0
    ensures bits_of(m) =~= bits_of(seq![m[0]]) + bits_of(m.skip(1))
{
    assert forall|k: int| 0 <= k < 8 * m.len() implies bits_of(m)[k] == (bits_of(seq![m[0]]) + bits_of(m.skip(1)))[k] by {
        if k >= 8 {
            assert((k - 8) / 8 == k / 8 - 1 && (k - 8) % 8 == k % 8);
        } else { assert(k / 8 == 0); }
    }
}
proof fn lemma_val_bound(bits: Seq<bool>)
    ensures 0 <= val(bits) < pow2(bits.len() as int)
    decreases bits.len()
{
    if bits.len() > 0 { lemma_val_bound(bits.drop_last()); }
}
pub open spec fn pow2(n: int) -> int
    decreases n
{
    if n <= 0 { 1 } else { 2 * pow2(n - 1) }
}
proof fn lemma_val_byte(b: u8)
    ensures val(bits_of(seq![b])) == b
{
    let s = bits_of(seq![b]);
    assert(s.len() == 8);
    lemma_val8(s);
    assert(b == 128 * ((b >> 7) & 1) + 64 * ((b >> 6) & 1) + 32 * ((b >> 5) & 1) + 16 * ((b >> 4) & 1) + 8 * ((b >> 3) & 1) + 4 * ((b >> 2) & 1) + 2 * ((b >> 1) & 1) + ((b >> 0) & 1)
        && (b >> 7) & 1 <= 1 && (b >> 6) & 1 <= 1 && (b >> 5) & 1 <= 1 && (b >> 4) & 1 <= 1 && (b >> 3) & 1 <= 1 && (b >> 2) & 1 <= 1 && (b >> 1) & 1 <= 1 && (b >> 0) & 1 <= 1) by (bit_vector);
}
pub open spec fn b01(b: bool) -> int { if b { 1 } else { 0 } }
proof fn lemma_val8(s: Seq<bool>)
    requires s.len() == 8
    ensures val(s) == 128 * b01(s[0]) + 64 * b01(s[1]) + 32 * b01(s[2]) + 16 * b01(s[3]) + 8 * b01(s[4]) + 4 * b01(s[5]) + 2 * b01(s[6]) + b01(s[7])
{
    let s7 = s.drop_last();
    let s6 = s7.drop_last();
    let s5 = s6.drop_last();
    let s4 = s5.drop_last();
    let s3 = s4.drop_last();
    let s2 = s3.drop_last();
    let s1 = s2.drop_last();
    assert(s1.drop_last().len() == 0);
    assert(val(s1.drop_last()) == 0);
    assert(val(s1) == 2 * val(s1.drop_last()) + b01(s1.last()));
    assert(val(s1) == b01(s[0]));
    assert(val(s2) == 2 * val(s1) + b01(s[1]));
    assert(val(s3) == 2 * val(s2) + b01(s[2]));
    assert(val(s4) == 2 * val(s3) + b01(s[3]));
    assert(val(s5) == 2 * val(s4) + b01(s[4]));
    assert(val(s6) == 2 * val(s5) + b01(s[5]));
    assert(val(s7) == 2 * val(s6) + b01(s[6]));
}
// ---------------------------------------------------------------------------------------------
// The published code of a match position: 6 high bits by a fixed prefix code, 6 low bits verbatim
// ---------------------------------------------------------------------------------------------
/// length of the prefix for high part h
pub open spec fn plen(h: int) -> int {
    if h < 1 { 3 } else if h < 4 { 4 } else if h < 12 { 5 } else if h < 24 { 6 } else if h < 48 { 7 } else { 8 }
}
/// the prefix for high part h, left aligned in 8 bits
pub open spec fn pcode(h: int) -> int {
    if h < 1 { 0 } else if h < 4 { 0x20 + 16 * (h - 1) } else if h < 12 { 0x50 + 8 * (h - 4) } else if h < 24 { 0x90 + 4 * (h - 12) }
    else if h < 48 { 0xc0 + 2 * (h - 24) } else { 0xf0 + (h - 48) }
}
/// the high part whose prefix starts the byte b
pub open spec fn phigh(b: int) -> int {
    if b < 0x20 { 0 } else if b < 0x50 { 1 + (b - 0x20) / 16 } else if b < 0x90 { 4 + (b - 0x50) / 8 } else if b < 0xc0 { 12 + (b - 0x90) / 4 }
    else if b < 0xf0 { 24 + (b - 0xc0) / 2 } else { 48 + (b - 0xf0) }
}
/// position and number of bits used
pub open spec fn read_pos(bits: Seq<bool>) -> Option<(int, int)> {
    if bits.len() < 8 { None } else {
        let h = phigh(val(bits.take(8)));
        let n = plen(h) + 6;
        if bits.len() < n { None } else { Some((64 * h + val(bits.subrange(plen(h), n)), n)) }
    }
}
proof fn lemma_val_cat(a: Seq<bool>, b: Seq<bool>)
    ensures val(a + b) == val(a) * pow2(b.len() as int) + val(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_val_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        let p = pow2(b.len() - 1);
        assert(2 * (val(a) * p) == val(a) * (2 * p)) by (nonlinear_arith);
    }
}
proof fn lemma_pow2_small()
    ensures pow2(0) == 1, pow2(1) == 2, pow2(6) == 64, pow2(8) == 256, pow2(14) == 16384
{
    assert(pow2(0) == 1 && pow2(1) == 2 && pow2(6) == 64 && pow2(8) == 256 && pow2(14) == 16384) by (compute_only);
}
proof fn lemma_pow2_mono(a: int, b: int)
    requires 0 <= a <= b
    ensures 1 <= pow2(a) <= pow2(b)
    decreases b
{
    if b > 0 { if a < b { lemma_pow2_mono(a, b - 1); } else { lemma_pow2_mono(a - 1, b - 1); } }
}
