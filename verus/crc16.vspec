@source src/crc16.rs
@prelude
// The published definition: shift register of 16 bits, polynomial 0x1021, most significant bit first.
pub open spec fn crc_bit(s: u16) -> u16 {
    if s & 0x8000 != 0 { (s << 1) ^ 0x1021u16 } else { s << 1 }
}
pub open spec fn crc_bits8(s: u16) -> u16 {
    crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(s))))))))
}
pub open spec fn crc_byte(s: u16, b: u8) -> u16 {
    crc_bits8(s ^ ((b as u16) << 8))
}
/// CRC-16/XMODEM of a byte string: initial value 0, no final inversion.
pub open spec fn crc_of(m: Seq<u8>) -> u16
    decreases m.len()
{
    if m.len() == 0 { 0 } else { crc_byte(crc_of(m.drop_last()), m.last()) }
}
/// The register after feeding m to a register holding s.
pub open spec fn crc_from(s: u16, m: Seq<u8>) -> u16
    decreases m.len()
{
    if m.len() == 0 { s } else { crc_byte(crc_from(s, m.drop_last()), m.last()) }
}
/// Any split of the input gives the same value.
pub proof fn crc_split(s: u16, a: Seq<u8>, b: Seq<u8>)
    ensures crc_from(crc_from(s, a), b) == crc_from(s, a + b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        crc_split(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn crc_from_zero(m: Seq<u8>)
    ensures crc_from(0, m) == crc_of(m)
    decreases m.len()
{
    if m.len() > 0 { crc_from_zero(m.drop_last()); }
}
pub proof fn crc_push(m: Seq<u8>, b: u8)
    ensures crc_of(m.push(b)) == crc_byte(crc_of(m), b)
{
    assert(m.push(b).drop_last() =~= m);
}
@local
spec fn table_ok(n: int) -> bool
    decreases n
{
    if n <= 0 { true } else { CRC_TABLE@[n - 1] == crc_bits8(((n - 1) as u16) << 8) && table_ok(n - 1) }
}
proof fn lemma_table_ok()
    ensures table_ok(256)
{
    assert(table_ok(256)) by (compute_only);
}
proof fn lemma_table_ix(n: int, i: int)
    requires 0 <= i < n <= 256, table_ok(n)
    ensures CRC_TABLE@[i] == crc_bits8((i as u16) << 8)
    decreases n
{
    if i < n - 1 { lemma_table_ix(n - 1, i); }
}
/// The register step is linear in its low byte, so one table of 256 entries is enough.
proof fn lemma_split(x: u16)
    ensures crc_bits8(x) == (x << 8) ^ crc_bits8(((x >> 8) as u16) << 8)
{
    assert(crc_bits8(x) == (x << 8) ^ crc_bits8(((x >> 8) as u16) << 8)) by {
        reveal(crc_bits8); reveal(crc_bit);
        let y = (x >> 8) << 8;
        let lo = x & 0xff;
        lemma_linear(y, lo);
        assert(y ^ lo == x && lo <= 0xff && x << 8 == lo << 8) by (bit_vector) requires y == (x >> 8) << 8, lo == x & 0xff;
        lemma_low(lo);
        assert(forall|a: u16, b: u16| a ^ b == b ^ a) by (bit_vector);
    }
}
proof fn lemma_bit_linear(a: u16, b: u16)
    ensures crc_bit(a ^ b) == crc_bit(a) ^ crc_bit(b)
{
    assert((if (a ^ b) & 0x8000 != 0 { ((a ^ b) << 1) ^ 0x1021u16 } else { (a ^ b) << 1 })
        == (if a & 0x8000 != 0 { (a << 1) ^ 0x1021u16 } else { a << 1 }) ^ (if b & 0x8000 != 0 { (b << 1) ^ 0x1021u16 } else { b << 1 })) by (bit_vector);
}
proof fn lemma_linear(a: u16, b: u16)
    ensures crc_bits8(a ^ b) == crc_bits8(a) ^ crc_bits8(b)
{
    let (a0, b0) = (a, b);
    lemma_bit_linear(a0, b0);
    let (a1, b1) = (crc_bit(a0), crc_bit(b0));
    lemma_bit_linear(a1, b1);
    let (a2, b2) = (crc_bit(a1), crc_bit(b1));
    lemma_bit_linear(a2, b2);
    let (a3, b3) = (crc_bit(a2), crc_bit(b2));
    lemma_bit_linear(a3, b3);
    let (a4, b4) = (crc_bit(a3), crc_bit(b3));
    lemma_bit_linear(a4, b4);
    let (a5, b5) = (crc_bit(a4), crc_bit(b4));
    lemma_bit_linear(a5, b5);
    let (a6, b6) = (crc_bit(a5), crc_bit(b5));
    lemma_bit_linear(a6, b6);
    let (a7, b7) = (crc_bit(a6), crc_bit(b6));
    lemma_bit_linear(a7, b7);
}
proof fn lemma_low(lo: u16)
    requires lo <= 0xff
    ensures crc_bits8(lo) == lo << 8
{
    let r1 = crc_bit(lo);
    assert(lo & 0x8000 == 0 && lo << 1 <= 0x1fe) by (bit_vector) requires lo <= 0xff;
    let r2 = crc_bit(r1);
    assert(r1 & 0x8000 == 0 && r1 << 1 <= 0x3fc) by (bit_vector) requires r1 <= 0x1fe;
    let r3 = crc_bit(r2);
    assert(r2 & 0x8000 == 0 && r2 << 1 <= 0x7f8) by (bit_vector) requires r2 <= 0x3fc;
    let r4 = crc_bit(r3);
    assert(r3 & 0x8000 == 0 && r3 << 1 <= 0xff0) by (bit_vector) requires r3 <= 0x7f8;
    let r5 = crc_bit(r4);
    assert(r4 & 0x8000 == 0 && r4 << 1 <= 0x1fe0) by (bit_vector) requires r4 <= 0xff0;
    let r6 = crc_bit(r5);
    assert(r5 & 0x8000 == 0 && r5 << 1 <= 0x3fc0) by (bit_vector) requires r5 <= 0x1fe0;
    let r7 = crc_bit(r6);
    assert(r6 & 0x8000 == 0 && r6 << 1 <= 0x7f80) by (bit_vector) requires r6 <= 0x3fc0;
    assert(r7 & 0x8000 == 0) by (bit_vector) requires r7 <= 0x7f80;
    assert((((((((lo << 1) << 1) << 1) << 1) << 1) << 1) << 1) << 1 == lo << 8) by (bit_vector);
}
proof fn lemma_update(s: u16, c: u8)
    ensures
        (c ^ ((s >> 8) as u8)) as int == ((s ^ ((c as u16) << 8)) >> 8) as int,
        CRC_TABLE@[(c ^ ((s >> 8) as u8)) as int] ^ (s << 8) == crc_byte(s, c),
        (s << 8) ^ CRC_TABLE@[(c ^ ((s >> 8) as u8)) as int] == crc_byte(s, c),
        ((s >> 8) as u8) ^ c == c ^ ((s >> 8) as u8),
        ((s >> 8) ^ (c as u16)) as int == (c ^ ((s >> 8) as u8)) as int,
        ((c as u16) ^ (s >> 8)) as int == (c ^ ((s >> 8) as u8)) as int,
        (((s >> 8) ^ (c as u16)) & 0xff) as int == (c ^ ((s >> 8) as u8)) as int,
        (((c as u16) ^ (s >> 8)) & 0xff) as int == (c ^ ((s >> 8) as u8)) as int,
        ((s >> 8) & 0xff) == s >> 8,
{
    assert(((s >> 8) as u8) ^ c == c ^ ((s >> 8) as u8)
        && (s >> 8) ^ (c as u16) == (c ^ ((s >> 8) as u8)) as u16
        && (c as u16) ^ (s >> 8) == (c ^ ((s >> 8) as u8)) as u16
        && ((s >> 8) ^ (c as u16)) & 0xff == (c ^ ((s >> 8) as u8)) as u16
        && ((c as u16) ^ (s >> 8)) & 0xff == (c ^ ((s >> 8) as u8)) as u16
        && (s >> 8) & 0xff == s >> 8) by (bit_vector);
    let x = s ^ ((c as u16) << 8);
    let i = c ^ ((s >> 8) as u8);
    assert(i as u16 == x >> 8) by (bit_vector) requires x == s ^ ((c as u16) << 8), i == c ^ ((s >> 8) as u8);
    assert(x << 8 == s << 8) by (bit_vector) requires x == s ^ ((c as u16) << 8);
    lemma_table_ok();
    lemma_table_ix(256, i as int);
    lemma_split(x);
    assert(((i as int) as u16) << 8 == (x >> 8) << 8);
    let t = CRC_TABLE@[i as int];
    assert(t ^ (s << 8) == (s << 8) ^ t) by (bit_vector);
}
@fn Crc16::new()
ensures ret.state == crc_of(Seq::<u8>::empty()),
@fn Crc16::update(c)
ensures final(self).state == crc_byte(old(self).state, c),
@hint start
proof { lemma_update(self.state, c); }
@fn Crc16::finish()
ensures ret == self.state,
@epilogue
/// C06: feeding any pieces one byte at a time from a new register yields the CRC-16/XMODEM of their concatenation.
fn property_c06(pieces: &Vec<Vec<u8>>) -> (r: u16)
    ensures r == crc_of(concat(pieces@))
{
    let mut crc = Crc16::new();
    let mut i = 0;
    assert(concat(pieces@.take(0)) =~= Seq::<u8>::empty());
    while i < pieces.len()
        invariant i <= pieces.len(), crc.state == crc_of(concat(pieces@.take(i as int))),
        decreases pieces.len() - i
    {
        let ghost before = concat(pieces@.take(i as int));
        let mut j = 0;
        assert(before + pieces@[i as int]@.take(0) =~= before);
        while j < pieces[i].len()
            invariant i < pieces.len(), j <= pieces@[i as int]@.len(), before == concat(pieces@.take(i as int)),
                crc.state == crc_of(before + pieces@[i as int]@.take(j as int)),
            decreases pieces@[i as int]@.len() - j
        {
            proof {
                let m = before + pieces@[i as int]@.take(j as int);
                crc_push(m, pieces@[i as int]@[j as int]);
                assert(m.push(pieces@[i as int]@[j as int]) =~= before + pieces@[i as int]@.take(j + 1));
            }
            crc.update(pieces[i][j]);
            j = j + 1;
        }
        proof {
            let p = pieces@.take(i + 1);
            assert(p.drop_last() =~= pieces@.take(i as int));
            assert(pieces@[i as int]@.take(j as int) =~= pieces@[i as int]@);
        }
        i = i + 1;
    }
    assert(pieces@.take(i as int) =~= pieces@);
    crc.finish()
}
spec fn concat(p: Seq<Vec<u8>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { Seq::<u8>::empty() } else { concat(p.drop_last()) + p.last()@ }
}
