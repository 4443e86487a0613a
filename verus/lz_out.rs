// ---------------------------------------------------------------------------------------------
// The bits written, and the published code of positions as bits
// ---------------------------------------------------------------------------------------------
/// the n leftmost bits of a 32-bit word
pub open spec fn top_bits(w: u32, n: int) -> Seq<bool> { Seq::new(n as nat, |k: int| (w >> ((31 - k) as u32)) & 1u32 == 1u32) }
/// no bit set but the n leftmost
pub open spec fn only_top(w: u32, n: int) -> bool { w & ((0xffff_ffffu32 >> (n as u32)) as u32) == 0u32 }
/// the code of position c: prefix of the high part, then the low part verbatim
pub open spec fn pos_code(c: int) -> Seq<bool> {
    bits_of(seq![pcode(c / 64) as u8]).take(plen(c / 64)) + bits_of(seq![(c % 64) as u8]).skip(2)
}
proof fn lemma_put(buf: u32, pos: u32, c: u32, l: u32, nb: u32)
    requires pos < 8, l <= 24, only_top(buf, pos as int), only_top(c, l as int), nb == buf | (c >> pos)
    ensures only_top(nb, pos + l), top_bits(nb, pos + l) =~= top_bits(buf, pos as int) + top_bits(c, l as int)
{
    assert(nb & (0xffff_ffffu32 >> add(pos, l)) == 0) by (bit_vector)
        requires pos < 8, l <= 24, buf & (0xffff_ffffu32 >> pos) == 0, c & (0xffff_ffffu32 >> l) == 0, nb == buf | (c >> pos);
    assert forall|k: int| 0 <= k < pos + l implies top_bits(nb, pos + l)[k] == (top_bits(buf, pos as int) + top_bits(c, l as int))[k] by {
        let k32 = k as u32;
        if k < pos {
            assert((nb >> sub(31, k32)) & 1 == (buf >> sub(31, k32)) & 1) by (bit_vector)
                requires pos < 8, k32 < pos, nb == buf | (c >> pos);
        } else {
            let j = (k - pos) as u32;
            assert((nb >> sub(31, k32)) & 1 == (c >> sub(31, j)) & 1) by (bit_vector)
                requires pos < 8, l <= 24, pos <= k32 < add(pos, l), j == sub(k32, pos), buf & (0xffff_ffffu32 >> pos) == 0, nb == buf | (c >> pos);
        }
    }
}
proof fn lemma_emit(buf: u32, pos: u32, nb: u32, b: u8)
    requires 8 <= pos < 32, only_top(buf, pos as int), nb == buf << 8, b == (buf >> 24) as u8
    ensures only_top(nb, pos - 8), bits_of(seq![b]) + top_bits(nb, pos - 8) =~= top_bits(buf, pos as int)
{
    assert(nb & (0xffff_ffffu32 >> sub(pos, 8)) == 0) by (bit_vector)
        requires 8 <= pos < 32, buf & (0xffff_ffffu32 >> pos) == 0, nb == buf << 8;
    assert forall|k: int| 0 <= k < pos implies (bits_of(seq![b]) + top_bits(nb, pos - 8))[k] == top_bits(buf, pos as int)[k] by {
        let k32 = k as u32;
        if k < 8 {
            let k8 = k as u8;
            assert(((buf >> sub(31, k32)) & 1 == 1) == ((b >> sub(7, k8)) & 1 == 1)) by (bit_vector)
                requires k32 < 8, k8 as u32 == k32, b == (buf >> 24) as u8;
            assert(k / 8 == 0 && k % 8 == k);
        } else {
            assert((nb >> sub(31, sub(k32, 8))) & 1 == (buf >> sub(31, k32)) & 1) by (bit_vector)
                requires 8 <= k32 < 32, nb == buf << 8;
        }
    }
}
/// the last byte: what is left, padded with zeros
proof fn lemma_pad(buf: u32, pos: u32, b: u8)
    requires pos < 8, only_top(buf, pos as int), b == (buf >> 24) as u8
    ensures bits_of(seq![b]).take(pos as int) =~= top_bits(buf, pos as int)
{
    assert forall|k: int| 0 <= k < pos implies bits_of(seq![b])[k] == top_bits(buf, pos as int)[k] by {
        let k32 = k as u32;
        let k8 = k as u8;
        assert(((buf >> sub(31, k32)) & 1 == 1) == ((b >> sub(7, k8)) & 1 == 1)) by (bit_vector)
            requires k32 < 8, k8 as u32 == k32, b == (buf >> 24) as u8;
        assert(k / 8 == 0 && k % 8 == k);
    }
}
/// one more bit in front
proof fn lemma_shift_in(w: u32, n: u32, odd: bool, nw: u32)
    requires n < 31, only_top(w, n as int), nw == if odd { (w >> 1u32) | 0x8000_0000u32 } else { w >> 1u32 }
    ensures only_top(nw, n + 1), top_bits(nw, n + 1) =~= seq![odd] + top_bits(w, n as int)
{
    assert(nw & (0xffff_ffffu32 >> add(n, 1)) == 0) by (bit_vector)
        requires n < 31, w & (0xffff_ffffu32 >> n) == 0, nw == (if odd { (w >> 1u32) | 0x8000_0000u32 } else { w >> 1u32 });
    assert forall|k: int| 0 <= k < n + 1 implies top_bits(nw, n + 1)[k] == (seq![odd] + top_bits(w, n as int))[k] by {
        let k32 = k as u32;
        if k == 0 {
            assert(((nw >> 31u32) & 1 == 1) == odd) by (bit_vector)
                requires nw == (if odd { (w >> 1u32) | 0x8000_0000u32 } else { w >> 1u32 });
        } else {
            assert((nw >> sub(31, k32)) & 1 == (w >> sub(31, sub(k32, 1))) & 1) by (bit_vector)
                requires 1 <= k32 < 32, nw == (if odd { (w >> 1u32) | 0x8000_0000u32 } else { w >> 1u32 });
        }
    }
}
proof fn lemma_top_of_byte(b: u8, n: u32, w: u32)
    requires n <= 8, w == (b as u32) << 24
    ensures top_bits(w, n as int) =~= bits_of(seq![b]).take(n as int)
{
    assert forall|k: int| 0 <= k < n implies top_bits(w, n as int)[k] == bits_of(seq![b])[k] by {
        let k32 = k as u32;
        let k8 = k as u8;
        assert(((w >> sub(31, k32)) & 1 == 1) == ((b >> sub(7, k8)) & 1 == 1)) by (bit_vector)
            requires k32 < 8, k8 as u32 == k32, w == (b as u32) << 24;
        assert(k / 8 == 0 && k % 8 == k);
    }
}
proof fn lemma_low6(b: u8, w: u32)
    requires b < 64, w == (b as u32) << 26
    ensures only_top(w, 6), top_bits(w, 6) =~= bits_of(seq![b]).skip(2)
{
    assert(w & (0xffff_ffffu32 >> 6u32) == 0) by (bit_vector) requires w == (b as u32) << 26;
    assert forall|k: int| 0 <= k < 6 implies top_bits(w, 6)[k] == bits_of(seq![b]).skip(2)[k] by {
        let k32 = k as u32;
        let k8 = k as u8;
        assert(((w >> sub(31, k32)) & 1 == 1) == ((b >> sub(5, k8)) & 1 == 1)) by (bit_vector)
            requires k32 < 6, k8 as u32 == k32, w == (b as u32) << 26;
        assert((k + 2) / 8 == 0 && (k + 2) % 8 == k + 2);
    }
}
/// the encoder's tables against the published code: the bits beyond the prefix are zero
spec fn ptab_ok(n: int) -> bool
    decreases n
{
    if n <= 0 { true } else {
        p_len@[n - 1] == plen(n - 1) && p_code@[n - 1] == pcode(n - 1) && 3 <= plen(n - 1) <= 8 && pcode(n - 1) < 256
        && pcode(n - 1) as u8 & (0xffu8 >> (plen(n - 1) as u8)) == 0 && ptab_ok(n - 1)
    }
}
proof fn lemma_ptab(i: int)
    requires 0 <= i < 64
    ensures p_len@[i] == plen(i), p_code@[i] == pcode(i), 3 <= plen(i) <= 8, 0 <= pcode(i) < 256,
        only_top((((p_code@[i] as u32) << 24u32) as u32), plen(i)),
{
    assert(ptab_ok(64)) by (compute_only);
    lemma_ptab_ix(64, i);
    let b = p_code@[i];
    let n = plen(i) as u8;
    let n32 = plen(i) as u32;
    assert(((b as u32) << 24u32) & (0xffff_ffffu32 >> n32) == 0) by (bit_vector) requires n <= 8, n32 == n as u32, b & (0xffu8 >> n) == 0;
}
proof fn lemma_ptab_ix(n: int, i: int)
    requires 0 <= i < n <= 64, ptab_ok(n)
    ensures p_len@[i] == plen(i), p_code@[i] == pcode(i), 3 <= plen(i) <= 8, 0 <= pcode(i) < 256, pcode(i) as u8 & (0xffu8 >> (plen(i) as u8)) == 0
    decreases n
{
    if i < n - 1 { lemma_ptab_ix(n - 1, i); }
}
/// a position's code reads as that position, whatever follows
proof fn lemma_pos_reads(c: int, rest: Seq<bool>)
    requires 0 <= c < 4096
    ensures read_pos(pos_code(c) + rest) == Some((c, pos_code(c).len() as int)), pos_code(c).len() == plen(c / 64) + 6
{
    let h = c / 64;
    let n = plen(h);
    lemma_plen(h);
    let full = bits_of(seq![pcode(h) as u8]);
    let hi = full.take(n);
    let low = bits_of(seq![(c % 64) as u8]);
    let bits = pos_code(c) + rest;
    let x = bits.subrange(n, 8);
    assert(bits.take(8) =~= hi + x);
    lemma_val_cat(hi, x);
    lemma_val_bound(x);
    lemma_val_byte(pcode(h) as u8);
    assert(full =~= hi + full.skip(n));
    lemma_val_cat(hi, full.skip(n));
    lemma_val_bound(full.skip(n));
    assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16 && pow2(5) == 32 && pow2(6) == 64) by (compute_only);
    let v = val(hi);
    let q = pow2(8 - n);
    assert(pcode(h) == v * q + val(full.skip(n)));
    assert(pcode(h) == v * q) by {
        assert(pcode(h) % q == 0) by { lemma_pcode_mul(h); }
        assert(0 <= val(full.skip(n)) < q);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(pcode(h), q, v, val(full.skip(n)));
    }
    lemma_phigh(h, val(x));
    assert(bits.subrange(n, n + 6) =~= low.skip(2));
    assert(low =~= low.take(2) + low.skip(2));
    lemma_val_cat(low.take(2), low.skip(2));
    lemma_val_byte((c % 64) as u8);
    lemma_val_bound(low.take(2));
    lemma_val_bound(low.skip(2));
    assert(val(low.take(2)) * 64 + val(low.skip(2)) == c % 64);
}
proof fn lemma_plen(h: int)
    requires 0 <= h < 64
    ensures 3 <= plen(h) <= 8, 0 <= pcode(h) < 256
{
}
proof fn lemma_pcode_mul(h: int)
    requires 0 <= h < 64
    ensures pcode(h) % pow2(8 - plen(h)) == 0, pow2(8 - plen(h)) >= 1
{
    assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16 && pow2(5) == 32) by (compute_only);
}
proof fn lemma_phigh(h: int, x: int)
    requires 0 <= h < 64, 0 <= x < pow2(8 - plen(h))
    ensures phigh(pcode(h) + x) == h
{
    assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16 && pow2(5) == 32) by (compute_only);
}
