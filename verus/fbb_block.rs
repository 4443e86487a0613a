// ---- the binary message block: what the parser functions compute ----
pub trait WrapNeg: Sized { spec fn neg_of(self) -> Self; fn wneg(self) -> (ret: Self) ensures ret == self.neg_of(); }
impl WrapNeg for i8 { open spec fn neg_of(self) -> i8 { if self == i8::MIN { self } else { (-self) as i8 } } #[verifier::external_body] fn wneg(self) -> i8 { unimplemented!() } }
impl WrapNeg for u8 { open spec fn neg_of(self) -> u8 { if self == 0 { 0 } else { (256 - self) as u8 } } #[verifier::external_body] fn wneg(self) -> u8 { unimplemented!() } }
impl WrapNeg for u16 { open spec fn neg_of(self) -> u16 { if self == 0 { 0 } else { (65536 - self) as u16 } } #[verifier::external_body] fn wneg(self) -> u16 { unimplemented!() } }
impl WrapNeg for u32 { open spec fn neg_of(self) -> u32 { if self == 0 { 0 } else { (0x1_0000_0000 - self) as u32 } } #[verifier::external_body] fn wneg(self) -> u32 { unimplemented!() } }
fn wneg<T: WrapNeg>(v: T) -> (ret: T)
    ensures ret == v.neg_of()
{ v.wneg() }
pub trait LeBytes: Sized { type Bytes; spec fn le(self, b: Self::Bytes) -> bool; fn in_le(self) -> (ret: Self::Bytes) ensures self.le(ret); }
impl LeBytes for u16 {
    type Bytes = [u8; 2];
    open spec fn le(self, b: [u8; 2]) -> bool { b@ == seq![(self & 0xff) as u8, ((self >> 8) & 0xff) as u8] }
    #[verifier::external_body] fn in_le(self) -> [u8; 2] { unimplemented!() }
}
impl LeBytes for u32 {
    type Bytes = [u8; 4];
    open spec fn le(self, b: [u8; 4]) -> bool { b@ == le_bytes(self) }
    #[verifier::external_body] fn in_le(self) -> [u8; 4] { unimplemented!() }
}
fn le_of<T: LeBytes>(v: T) -> (ret: T::Bytes)
    ensures v.le(ret)
{ v.in_le() }
#[verifier::external_body]
fn vec_first_mut<T>(v: &mut Vec<T>) -> (ret: Option<&mut T>)
    ensures match ret {
        Some(x) => 0 < old(v)@.len() && *x == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(x)),
        None => 0 >= old(v)@.len() && final(v)@ == old(v)@,
    }
{ unimplemented!() }
#[verifier::external_body]
fn vec_get_mut<T>(v: &mut Vec<T>, k: usize) -> (ret: Option<&mut T>)
    ensures match ret {
        Some(x) => k < old(v)@.len() && *x == old(v)@[k as int] && final(v)@ == old(v)@.update(k as int, *final(x)),
        None => k >= old(v)@.len() && final(v)@ == old(v)@,
    }
{ unimplemented!() }
pub open spec fn le_bytes(v: u32) -> Seq<u8> {
    seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8]
}
pub open spec fn block_len(len: u8) -> int { if len == 0 { 256 } else { len as int } }
pub open spec fn data_block_f(d: Seq<u8>) -> Pr<Seq<u8>> {
    then(tag_s(d, seq![2u8]), |r: Seq<u8>, t: Seq<u8>| then(be_u8_s(r), |q: Seq<u8>, len: u8| take_s(q, block_len(len))))
}
pub open spec fn checksum_f(d: Seq<u8>) -> Pr<u8> {
    then(tag_s(d, seq![4u8]), |r: Seq<u8>, t: Seq<u8>| be_u8_s(r))
}
pub open spec fn first_f(d: Seq<u8>) -> Pr<(u16, u32)> {
    if d.len() < 6 { Pr::No } else { Pr::Yes(d.skip(6), (le16(d), le32(d.skip(2)))) }
}
proof fn lemma_first(d: Seq<u8>)
    ensures d.len() >= 6 ==> d.skip(2).skip(4) =~= d.skip(6)
{}
/// the sub-blocks up to the end mark, and the checksum byte
pub open spec fn blocks_f(d: Seq<u8>) -> Pr<(Seq<Seq<u8>>, u8)>
    decreases d.len()
{
    match checksum_f(d) {
        Pr::Yes(r, k) => Pr::Yes(r, (Seq::<Seq<u8>>::empty(), k)),
        Pr::No => match data_block_f(d) {
            Pr::Yes(r, b) => if r.len() < d.len() { prepend(seq![b], blocks_f(r)) } else { Pr::No },
            Pr::More(n) => Pr::More(n),
            Pr::No => Pr::No,
            Pr::Stop => Pr::Stop,
        },
        Pr::More(n) => Pr::More(n),
        Pr::Stop => Pr::Stop,
    }
}
pub open spec fn prepend(b: Seq<Seq<u8>>, p: Pr<(Seq<Seq<u8>>, u8)>) -> Pr<(Seq<Seq<u8>>, u8)> {
    match p { Pr::Yes(r, (bs, k)) => Pr::Yes(r, (b + bs, k)), Pr::More(n) => Pr::More(n), Pr::No => Pr::No, Pr::Stop => Pr::Stop }
}
pub open spec fn views(b: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(b.len(), |i: int| b[i]@) }
proof fn lemma_prepend_none(p: Pr<(Seq<Seq<u8>>, u8)>)
    ensures prepend(Seq::<Seq<u8>>::empty(), p) == p
{
    if p is Yes { assert(Seq::<Seq<u8>>::empty() + p->Yes_1.0 =~= p->Yes_1.0); }
}
/// one turn of the loop over sub-blocks
proof fn lemma_blocks_step(d: Seq<u8>)
    ensures
        checksum_f(d) is No && data_block_f(d) is Yes ==> data_block_f(d)->Yes_0.len() < d.len(),
        forall|v: Seq<Seq<u8>>| checksum_f(d) is No && data_block_f(d) is Yes ==>
            #[trigger] prepend(v, blocks_f(d)) == prepend(v.push(data_block_f(d)->Yes_1), blocks_f(data_block_f(d)->Yes_0)),
        forall|v: Seq<Seq<u8>>| checksum_f(d) is Yes ==> #[trigger] prepend(v, blocks_f(d)) == Pr::Yes(checksum_f(d)->Yes_0, (v, checksum_f(d)->Yes_1)),
{
    if checksum_f(d) is No && data_block_f(d) is Yes {
        let (r, b) = (data_block_f(d)->Yes_0, data_block_f(d)->Yes_1);
        assert(r.len() < d.len());
        assert forall|v: Seq<Seq<u8>>| #[trigger] prepend(v, blocks_f(d)) == prepend(v.push(b), blocks_f(r)) by {
            if blocks_f(r) is Yes {
                let bs = blocks_f(r)->Yes_1.0;
                assert(v + (seq![b] + bs) =~= v.push(b) + bs);
            }
        }
    }
    if checksum_f(d) is Yes {
        assert forall|v: Seq<Seq<u8>>| #[trigger] prepend(v, blocks_f(d)) == Pr::Yes(checksum_f(d)->Yes_0, (v, checksum_f(d)->Yes_1)) by {
            assert(v + Seq::<Seq<u8>>::empty() =~= v);
        }
    }
}
proof fn lemma_views(v: Seq<&[u8]>)
    ensures forall|b: &[u8]| #[trigger] views(v.push(b)) =~= views(v).push(b@)
{}
/// CRC and size are the first six bytes of the first sub-block
pub open spec fn data_blocks_f(d: Seq<u8>) -> Pr<(u16, u32, Seq<Seq<u8>>, u8)> {
    match blocks_f(d) {
        Pr::Yes(r, (bs, k)) =>
            if bs.len() == 0 { Pr::Yes(r, (0, 0, bs, k)) }
            else if bs[0].len() < 6 { Pr::No }
            else { Pr::Yes(r, (le16(bs[0]), le32(bs[0].skip(2)), bs.update(0, bs[0].skip(6)), k)) },
        Pr::More(n) => Pr::More(n),
        Pr::No => Pr::No,
        Pr::Stop => Pr::Stop,
    }
}
proof fn lemma_views_update(v: Seq<&[u8]>, x: &[u8])
    requires v.len() > 0
    ensures views(v.update(0, x)) =~= views(v).update(0, x@)
{}
// header
pub open spec fn title_byte() -> spec_fn(u8) -> bool { |b: u8| 0x20 <= b <= 0x7e }
pub open spec fn digit_byte() -> spec_fn(u8) -> bool { |b: u8| digit(b) }
pub open spec fn fields_f(h: Seq<u8>) -> Option<(Seq<u8>, nat)> {
    let k = span(h, title_byte());
    let h2 = h.skip(k + 1);
    let j = span(h2, digit_byte());
    if k < h.len() && h[k] == 0 && 0 < j && j + 1 == h2.len() && h2[j] == 0 && decimal(h2.take(j)) <= u32::MAX {
        Some((h.take(k), decimal(h2.take(j))))
    } else {
        None
    }
}
pub open spec fn head_len_f(d: Seq<u8>) -> Pr<u8> {
    then(tag_s(d, seq![1u8]), |r: Seq<u8>, t: Seq<u8>| then(be_u8_s(r), |q: Seq<u8>, n: u8| if n <= 88 { Pr::Yes(q, n) } else { Pr::No }))
}
pub open spec fn header_f(d: Seq<u8>) -> Pr<(Seq<u8>, nat)> {
    then(head_len_f(d), |r: Seq<u8>, n: u8| then(take_s(r, n as int), |q: Seq<u8>, h: Seq<u8>| match fields_f(h) { Some(x) => Pr::Yes(q, x), None => Pr::No }))
}
proof fn lemma_title_ascii(d: Seq<u8>, k: int)
    requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> title_byte()(#[trigger] d[j])
    ensures ascii(d.take(k))
{
    assert forall|j: int| 0 <= j < k implies #[trigger] d.take(k)[j] < 0x80 by { assert(title_byte()(d[j])); }
}
proof fn lemma_digit_ascii(d: Seq<u8>, k: int)
    requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> digit_byte()(#[trigger] d[j])
    ensures ascii(d.take(k)), digits(d.take(k))
{
    assert forall|j: int| 0 <= j < k implies #[trigger] d.take(k)[j] < 0x80 by { assert(digit_byte()(d[j])); }
    assert forall|j: int| 0 <= j < k implies digit(#[trigger] d.take(k)[j]) by { assert(digit_byte()(d[j])); }
}
pub open spec fn flat(bs: Seq<Seq<u8>>) -> Seq<u8>
    decreases bs.len()
{
    if bs.len() == 0 { Seq::<u8>::empty() } else { flat(bs.drop_last()) + bs.last() }
}
pub open spec fn sum(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() }
}
pub open spec fn crc_bytes(c: u16) -> Seq<u8> { seq![(c & 0xff) as u8, ((c >> 8) & 0xff) as u8] }
#[verifier::opaque]
pub open spec fn head_sum(c: u16, s: u32) -> int { sum(crc_bytes(c)) + sum(le_bytes(s)) }
/// the checks of a block: all payload bytes and the checksum byte add up to 0 modulo 256; the CRC is that of size and data
#[verifier::opaque]
pub open spec fn sound(c: u16, s: u32, bs: Seq<Seq<u8>>, k: u8) -> bool {
    (head_sum(c, s) + sum(flat(bs)) + k) % 256 == 0 && c == crc_of(le_bytes(s) + flat(bs))
}
pub struct Msg { pub title: Seq<u8>, pub offset: nat, pub crc: u16, pub size: u32, pub blocks: Seq<Seq<u8>> }
impl<'a> CompressedMessage<'a> {
    pub open spec fn msg(&self) -> Msg {
        Msg { title: text(self.title), offset: self.offset as nat, crc: self.crc16, size: self.uncompressed_size, blocks: views(self.blocks@) }
    }
}
pub open spec fn message_f(d: Seq<u8>) -> Pr<Msg> {
    then(header_f(d), |r: Seq<u8>, h: (Seq<u8>, nat)| then(data_blocks_f(r), |q: Seq<u8>, x: (u16, u32, Seq<Seq<u8>>, u8)|
        if sound(x.0, x.1, x.2, x.3) { Pr::Yes(q, Msg { title: h.0, offset: h.1, crc: x.0, size: x.1, blocks: x.2 }) } else { Pr::No }))
}
#[verifier::opaque]
pub open spec fn wadd16(a: int, b: int) -> int { (a + b) % 0x10000 }
#[verifier::opaque]
pub open spec fn wadd32(a: int, b: int) -> int { (a + b) % 0x1_0000_0000 }
#[verifier::opaque]
pub open spec fn check_word(c: u16, s: u32) -> int {
    wadd32(wadd16(c as int, (c >> 8) as int), wadd32(wadd32(wadd32(s as int, (s >> 8) as int), (s >> 16) as int), (s >> 24) as int))
}
proof fn lemma_head_sum(c: u16, s: u32)
    ensures head_sum(c, s) == (c & 0xff) as u8 + ((c >> 8) & 0xff) as u8 + (s & 0xff) as u8 + ((s >> 8) & 0xff) as u8 + ((s >> 16) & 0xff) as u8 + ((s >> 24) & 0xff) as u8
{
    reveal(head_sum);
    reveal_with_fuel(sum, 5);
    let (c0, c1) = ((c & 0xff) as u8, ((c >> 8) & 0xff) as u8);
    let (s0, s1, s2, s3) = ((s & 0xff) as u8, ((s >> 8) & 0xff) as u8, ((s >> 16) & 0xff) as u8, ((s >> 24) & 0xff) as u8);
    assert(crc_bytes(c).drop_last() =~= seq![c0]);
    assert(seq![c0].drop_last() =~= Seq::<u8>::empty());
    assert(sum(crc_bytes(c)) == c0 + c1);
    assert(le_bytes(s).drop_last() =~= seq![s0, s1, s2]);
    assert(seq![s0, s1, s2].drop_last() =~= seq![s0, s1]);
    assert(seq![s0, s1].drop_last() =~= seq![s0]);
    assert(seq![s0].drop_last() =~= Seq::<u8>::empty());
    assert(sum(le_bytes(s)) == s0 + s1 + s2 + s3);
}
proof fn lemma_head(c: u16, s: u32)
    ensures
        0 <= check_word(c, s) <= u32::MAX,
        ((check_word(c, s) as u32) & 0xff) as u8 as int == head_sum(c, s) % 256,
{
    reveal(check_word);
    lemma_head_sum(c, s);
    let (c0, c1) = ((c & 0xff) as u8, ((c >> 8) & 0xff) as u8);
    let (s0, s1, s2, s3) = ((s & 0xff) as u8, ((s >> 8) & 0xff) as u8, ((s >> 16) & 0xff) as u8, ((s >> 24) & 0xff) as u8);
    assert(c % 256 == (c & 0xff) && (c & 0xff) <= 0xff) by (bit_vector);
    assert((c >> 8) % 256 == ((c >> 8) & 0xff) && ((c >> 8) & 0xff) <= 0xff) by (bit_vector);
    assert(s % 256 == (s & 0xff) && (s & 0xff) <= 0xff) by (bit_vector);
    assert((s >> 8) % 256 == ((s >> 8) & 0xff) && ((s >> 8) & 0xff) <= 0xff) by (bit_vector);
    assert((s >> 16) % 256 == ((s >> 16) & 0xff) && ((s >> 16) & 0xff) <= 0xff) by (bit_vector);
    assert((s >> 24) % 256 == ((s >> 24) & 0xff) && ((s >> 24) & 0xff) <= 0xff) by (bit_vector);
    let a = wadd16(c as int, (c >> 8) as int);
    let b1 = wadd32(s as int, (s >> 8) as int);
    let b2 = wadd32(b1, (s >> 16) as int);
    let b3 = wadd32(b2, (s >> 24) as int);
    lemma_wadd(c as int, (c >> 8) as int, c0 as int, c1 as int);
    lemma_wadd(s as int, (s >> 8) as int, s0 as int, s1 as int);
    lemma_wadd(b1, (s >> 16) as int, s0 + s1, s2 as int);
    lemma_wadd(b2, (s >> 24) as int, s0 + s1 + s2, s3 as int);
    lemma_wadd(a, b3, c0 + c1, s0 + s1 + s2 + s3);
    let w = check_word(c, s);
    assert(w % 256 == (c0 + c1 + (s0 + s1 + s2 + s3)) % 256);
    lemma_low_byte(w as u32);
}
proof fn lemma_low_byte(w: u32)
    ensures (w & 0xff) as u8 as int == w as int % 256
{
    assert(w % 256 == (w & 0xff) && (w & 0xff) <= 0xff) by (bit_vector);
}
proof fn lemma_mod_of(n: int, m: int)
    requires m > 0
    ensures (n % (256 * m)) % 256 == n % 256
{
    vstd::arithmetic::div_mod::lemma_mod_mod(n, 256, m);
}
proof fn lemma_wadd(a: int, b: int, x: int, y: int)
    requires a % 256 == x % 256, b % 256 == y % 256
    ensures wadd16(a, b) % 256 == (x + y) % 256, wadd32(a, b) % 256 == (x + y) % 256, 0 <= wadd32(a, b) <= u32::MAX
{
    reveal(wadd16); reveal(wadd32);
    lemma_mod_of(a + b, 0x100);
    lemma_mod_of(a + b, 0x100_0000);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, 256);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(x, y, 256);
}
proof fn lemma_take_none<T>(s: Seq<T>)
    ensures s.take(0) =~= Seq::<T>::empty()
{}
proof fn lemma_sum_take(s: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures sum(s.take(k + 1)) == sum(s.take(k)) + s[k]
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
proof fn lemma_sum_cat(a: Seq<u8>, b: Seq<u8>)
    ensures sum(a + b) == sum(a) + sum(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_sum_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_flat_take(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k < s.len()
    ensures
        flat(s.take(k + 1)) == flat(s.take(k)) + s[k],
        sum(flat(s.take(k + 1))) == sum(flat(s.take(k))) + sum(s[k]),
        s[k].take(s[k].len() as int) == s[k],
        forall|p: Seq<u8>| #[trigger] (p + flat(s.take(k)) + s[k]) == p + flat(s.take(k + 1)),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    lemma_sum_cat(flat(s.take(k)), s[k]);
    assert(s[k].take(s[k].len() as int) =~= s[k]);
    assert forall|p: Seq<u8>| #[trigger] (p + flat(s.take(k)) + s[k]) == p + flat(s.take(k + 1)) by {
        assert(p + flat(s.take(k)) + s[k] =~= p + (flat(s.take(k)) + s[k]));
    }
}
proof fn lemma_none(p: Seq<u8>)
    ensures
        crc_of(Seq::<u8>::empty()) == 0, sum(Seq::<u8>::empty()) == 0, flat(Seq::<Seq<u8>>::empty()) == Seq::<u8>::empty(),
        p + Seq::<u8>::empty() == p,
{
    assert(p + Seq::<u8>::empty() =~= p);
}
proof fn lemma_crc_take(p: Seq<u8>, s: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures crc_of(p + s.take(k + 1)) == crc_byte(crc_of(p + s.take(k)), s[k]), Seq::<u8>::empty() + s.take(k) == s.take(k), Seq::<u8>::empty() + s.take(k + 1) == s.take(k + 1)
{
    crc_push(p + s.take(k), s[k]);
    assert((p + s.take(k)).push(s[k]) =~= p + s.take(k + 1));
    assert(Seq::<u8>::empty() + s.take(k) =~= s.take(k));
    assert(Seq::<u8>::empty() + s.take(k + 1) =~= s.take(k + 1));
}
pub open spec fn till_is(res: Option<Result<(&[u8], u8), PErr>>, v: Seq<Seq<u8>>, s: Pr<(Seq<Seq<u8>>, u8)>) -> bool {
    match res {
        None => false,
        Some(Ok((r, k))) => s == Pr::Yes(r@, (v, k)),
        Some(Err(PErr::Error)) => s is No,
        Some(Err(PErr::Failure)) => s is Stop,
        Some(Err(PErr::Incomplete(n))) => s is More && s->More_0 == need(n),
    }
}
proof fn lemma_tag_c1(b: u8)
    ensures forall|d: Seq<u8>| #[trigger] tag_c(d, seq![b]) == if d.len() > 0 && d[0] == b { split::<u8>(d, 1) } else { Pr::No }
{
    assert forall|d: Seq<u8>| #[trigger] tag_c(d, seq![b]) == if d.len() > 0 && d[0] == b { split::<u8>(d, 1) } else { Pr::No } by {
        if d.len() > 0 {
            assert(d.take(1)[0] == d[0]);
            assert(seq![b].take(1)[0] == b);
            if d[0] == b { assert(d.take(1) =~= seq![b].take(1)); }
        }
    }
}
proof fn lemma_skip1(d: Seq<u8>)
    ensures forall|k: int| 0 <= k < d.len() ==> #[trigger] d.skip(k).skip(1) == d.skip(k + 1), forall|k: int| 0 <= k < d.len() ==> (#[trigger] d.skip(k))[0] == d[k]
{
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] d.skip(k).skip(1) == d.skip(k + 1) by { assert(d.skip(k).skip(1) =~= d.skip(k + 1)); }
}
