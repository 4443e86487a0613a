@assume lzstate.vspec
@prelude lz_bits.rs
@prelude lz_dec.rs
@prelude lz_iter.rs
@prelude
pub open spec fn buf_bits(buf: u32, n: int) -> Seq<bool> { Seq::new(n as nat, |k: int| (buf >> ((15 - k) as u32)) & 1u32 == 1u32) }
impl Biterator {
    pub open spec fn bits(&self) -> Seq<bool> { buf_bits(self.bit_buffer, self.bit_pos as int) + bits_of(self.input.rest()) }
    pub open spec fn ok(&self) -> bool {
        self.input.ok() && self.bit_pos <= 16 && self.bit_buffer & (((1u32 << ((16 - self.bit_pos) as u32)) - 1) as u32) == 0
    }
}
proof fn lemma_fill(buf: u32, pos: u32, b: u8, nb: u32)
    requires pos <= 8, buf & (((1u32 << ((16 - pos) as u32)) - 1) as u32) == 0, nb == buf | ((b as u32) << ((8 - pos) as u32))
    ensures
        nb & (((1u32 << ((8 - pos) as u32)) - 1) as u32) == 0,
        buf_bits(nb, pos + 8) =~= buf_bits(buf, pos as int) + bits_of(seq![b]),
{
    assert(nb & sub(1u32 << sub(8, pos), 1) == 0) by (bit_vector)
        requires pos <= 8, buf & sub(1u32 << sub(16, pos), 1) == 0, nb == buf | ((b as u32) << sub(8, pos));
    assert(1u32 << sub(16, pos) >= 1 && 1u32 << sub(8, pos) >= 1) by (bit_vector) requires pos <= 8;
    assert forall|k: int| 0 <= k < pos + 8 implies buf_bits(nb, pos + 8)[k] == (buf_bits(buf, pos as int) + bits_of(seq![b]))[k] by {
        let k32 = k as u32;
        if k < pos {
            assert((nb >> sub(15, k32)) & 1 == (buf >> sub(15, k32)) & 1) by (bit_vector)
                requires pos <= 8, k32 < pos, nb == buf | ((b as u32) << sub(8, pos));
        } else {
            let k8 = (k - pos) as u8;
            assert((nb >> sub(15, k32)) & 1 == (b >> sub(7, k8)) as u32 & 1) by (bit_vector)
                requires pos <= 8, pos <= k32 < pos + 8, k8 as u32 == sub(k32, pos), k8 < 8, buf & sub(1u32 << sub(16, pos), 1) == 0, nb == buf | ((b as u32) << sub(8, pos));
            assert(((b >> sub(7, k8)) as u32 & 1 == 1) == ((b >> sub(7, k8)) & 1 == 1)) by (bit_vector);
            assert((k - pos) / 8 == 0 && (k - pos) % 8 == k - pos);
        }
    }
}
proof fn lemma_take1(buf: u32, pos: u32, nb: u32)
    requires 1 <= pos <= 16, buf & (((1u32 << ((16 - pos) as u32)) - 1) as u32) == 0, nb == buf << 1
    ensures
        nb & (((1u32 << ((17 - pos) as u32)) - 1) as u32) == 0,
        buf_bits(buf, pos as int)[0] == (((buf & 0x8000) >> 15) == 1),
        ((buf & 0x8000) >> 15) <= 1, (buf >> 15) & 1 == ((buf & 0x8000) >> 15), (buf & 0x8000 != 0) == ((buf & 0x8000) >> 15 == 1),
        buf_bits(nb, pos - 1) =~= buf_bits(buf, pos as int).skip(1),
{
    assert(nb & sub(1u32 << sub(17, pos), 1) == 0) by (bit_vector)
        requires 1 <= pos <= 16, buf & sub(1u32 << sub(16, pos), 1) == 0, nb == buf << 1;
    assert(1u32 << sub(16, pos) >= 1 && 1u32 << sub(17, pos) >= 1) by (bit_vector) requires 1 <= pos <= 16;
    assert((buf & 0x8000) >> 15 == (buf >> 15) & 1 && (buf & 0x8000) >> 15 <= 1 && ((buf & 0x8000 != 0) == ((buf & 0x8000) >> 15 == 1))) by (bit_vector);
    assert forall|k: int| 0 <= k < pos - 1 implies buf_bits(nb, pos - 1)[k] == buf_bits(buf, pos as int).skip(1)[k] by {
        let k32 = k as u32;
        assert((nb >> sub(15, k32)) & 1 == (buf >> sub(15, add(k32, 1))) & 1) by (bit_vector)
            requires k32 < 15, nb == buf << 1;
    }
}
proof fn lemma_take8(buf: u32, pos: u32, nb: u32)
    requires 8 <= pos <= 16, buf & (((1u32 << ((16 - pos) as u32)) - 1) as u32) == 0, nb == buf << 8
    ensures
        nb & (((1u32 << ((24 - pos) as u32)) - 1) as u32) == 0,
        val(buf_bits(buf, pos as int).take(8)) == ((buf & 0xff00) >> 8),
        ((buf & 0xff00) >> 8) <= 255, (buf >> 8) & 0xff == ((buf & 0xff00) >> 8), (buf >> 8) as u8 == ((buf & 0xff00) >> 8),
        buf_bits(nb, pos - 8) =~= buf_bits(buf, pos as int).skip(8),
{
    assert(nb & sub(1u32 << sub(24, pos), 1) == 0) by (bit_vector)
        requires 8 <= pos <= 16, buf & sub(1u32 << sub(16, pos), 1) == 0, nb == buf << 8;
    assert(1u32 << sub(16, pos) >= 1 && 1u32 << sub(24, pos) >= 1) by (bit_vector) requires 8 <= pos <= 16;
    let b = ((buf & 0xff00) >> 8) as u8;
    assert((buf & 0xff00) >> 8 <= 255 && (buf >> 8) & 0xff == ((buf & 0xff00) >> 8) && (buf >> 8) as u8 == ((buf & 0xff00) >> 8)) by (bit_vector);
    assert(buf_bits(buf, pos as int).take(8) =~= bits_of(seq![b])) by {
        assert forall|k: int| 0 <= k < 8 implies buf_bits(buf, pos as int).take(8)[k] == bits_of(seq![b])[k] by {
            let k32 = k as u32;
            let k8 = k as u8;
            assert(((buf >> sub(15, k32)) & 1 == 1) == ((b >> sub(7, k8)) & 1 == 1)) by (bit_vector)
                requires k32 < 8, k8 as u32 == k32, b == ((buf & 0xff00) >> 8) as u8;
            assert(k / 8 == 0 && k % 8 == k);
        }
    }
    lemma_val_byte(b);
    assert forall|k: int| 0 <= k < pos - 8 implies buf_bits(nb, pos - 8)[k] == buf_bits(buf, pos as int).skip(8)[k] by {
        let k32 = k as u32;
        assert((nb >> sub(15, k32)) & 1 == (buf >> sub(15, add(k32, 8))) & 1) by (bit_vector)
            requires k32 < 8, nb == buf << 8;
    }
}
impl Decoder {
    pub open spec fn ok(&self) -> bool { wf(self.state.tree()) && self.state.r < 2048 && self.stream.ok() }
    pub open spec fn window(&self) -> Seq<u8> { window(self.state.text_buffer@, self.state.r as int) }
}
@local
/// one step of the format
proof fn lemma_dec_step(t: Tree, bits: Seq<bool>, hist: Seq<u8>, n: int)
    ensures
        n <= 0 ==> dec_run(t, bits, hist, n) == Some(hist),
        n > 0 ==> (match read_sym(t, bits) {
            None => dec_run(t, bits, hist, n) is None,
            Some((s, k)) => {
                let rest = bits.skip(k);
                if s < 256 { dec_run(t, bits, hist, n) == dec_run(upd(t, s), rest, hist.push(s as u8), n - 1) } else {
                    match read_pos(rest) {
                        None => dec_run(t, bits, hist, n) is None,
                        Some((pos, k2)) => dec_run(t, bits, hist, n) == if s - 253 > n { None } else {
                            dec_run(upd(t, s), rest.skip(k2), copy_back(hist, pos % 2048 + 1, s - 253), n - (s - 253))
                        },
                    }
                }
            }
        })
{
}
proof fn lemma_copy_step(h: Seq<u8>, d: int, n: int)
    ensures copy_back(h, d, n) == if n <= 0 { h } else { copy_back(h.push(h[h.len() - d]), d, n - 1) }
{
}
/// the bits read so far, put together
#[verifier::spinoff_prover]
proof fn lemma_pos_value(bits0: Seq<bool>, b0: int, i: u16)
    requires bits0.len() >= 14 || bits0.len() >= plen(phigh(b0)) + 6, bits0.len() >= 8, b0 == val(bits0.take(8)), 0 <= b0 < 256, i == val(bits0.take(plen(phigh(b0)) + 6))
    ensures read_pos(bits0) == Some((64 * phigh(b0) + i % 64, plen(phigh(b0)) + 6)), 0 <= phigh(b0) < 64, i & 0x3f == i % 64,
        ((phigh(b0) as u16) << 6u16) | (i & 0x3f) == 64 * phigh(b0) + i % 64,
{
    let pl = plen(phigh(b0));
    let hi = bits0.take(pl);
    let lo = bits0.subrange(pl, pl + 6);
    assert(bits0.take(pl + 6) =~= hi + lo);
    lemma_val_cat(hi, lo);
    lemma_val_bound(lo);
    lemma_val_bound(hi);
    lemma_pow2_small();
    assert(i & 0x3f == i % 64) by (bit_vector);
    let h = phigh(b0) as u16;
    let low = i & 0x3f;
    assert((h << 6) | low == 64 * h + low) by (bit_vector) requires h < 64, low < 64;
}
spec fn dtab_ok(n: int) -> bool
    decreases n
{
    if n <= 0 { true } else { DECODE_CODE@[n - 1] == phigh(n - 1) && DECODE_LEN@[n - 1] == plen(phigh(n - 1)) && dtab_ok(n - 1) }
}
proof fn lemma_dtab(i: int)
    requires 0 <= i < 256
    ensures DECODE_CODE@[i] == phigh(i), DECODE_LEN@[i] == plen(phigh(i)), 0 <= phigh(i) < 64
{
    assert(dtab_ok(256)) by (compute_only);
    lemma_dtab_ix(256, i);
}
proof fn lemma_dtab_ix(n: int, i: int)
    requires 0 <= i < n <= 256, dtab_ok(n)
    ensures DECODE_CODE@[i] == phigh(i), DECODE_LEN@[i] == plen(phigh(i))
    decreases n
{
    if i < n - 1 { lemma_dtab_ix(n - 1, i); }
}
@fn Biterator::new(input)
requires input.ok()
ensures ret.ok(), ret.bits() =~= bits_of(input.rest()),
@hint start
proof { assert(0u32 & (((1u32 << 16u32) - 1) as u32) == 0) by (bit_vector); }
@fn Biterator::fill_buffer()
requires old(self).ok(),
ensures final(self).ok(), final(self).bits() =~= old(self).bits(), final(self).bit_pos > 8 || final(self).input.rest().len() == 0,
@loop 0
invariant_except_break self.ok(), self.bits() =~= old(self).bits(),
ensures self.ok(), self.bits() =~= old(self).bits(), self.bit_pos > 8 || self.input.rest().len() == 0,
decreases self.input.rest().len(), 
@hint loop0.start
let ghost buf0 = self.bit_buffer;
let ghost pos0 = self.bit_pos as u32;
let ghost rest0 = self.input.rest();
proof {
    if rest0.len() > 0 {
        let b = rest0[0];
        lemma_bits_cons(rest0);
        lemma_fill(buf0, pos0, b, buf0 | ((b as u32) << ((8 - pos0) as u32)));
    }
}
@fn Biterator::get_bit()
requires old(self).ok(),
ensures final(self).ok(),
    match ret {
        None => old(self).bits().len() == 0 && final(self).bits() =~= old(self).bits(),
        Some(b) => old(self).bits().len() > 0 && b <= 1 && (b == 1) == old(self).bits()[0] && final(self).bits() =~= old(self).bits().skip(1),
    },
@hint after call fill_buffer 0
proof {
    if self.bit_pos > 0 { lemma_take1(self.bit_buffer, self.bit_pos as u32, self.bit_buffer << 1); }
}
@fn Biterator::get_byte()
requires old(self).ok(),
ensures final(self).ok(),
    match ret {
        None => old(self).bits().len() < 8 && final(self).bits() =~= old(self).bits(),
        Some(b) => old(self).bits().len() >= 8 && b == val(old(self).bits().take(8)) && final(self).bits() =~= old(self).bits().skip(8),
    },
@hint after call fill_buffer 0
proof {
    if self.bit_pos >= 8 {
        lemma_take8(self.bit_buffer, self.bit_pos as u32, self.bit_buffer << 8);
        assert(old(self).bits().take(8) =~= buf_bits(self.bit_buffer, self.bit_pos as int).take(8));
    }
}
@fn Decoder::new(input)
requires input.ok()
ensures ret.ok(), ret.stream.bits() =~= bits_of(input.rest()), ret.state.tree() == init_tree(), window(ret.state.text_buffer@, ret.state.r as int) =~= spaces(),
@hint start
proof { lemma_init(); }
@fn Decoder::decode_char()
requires old(self).ok(),
ensures
    final(self).ok(), final(self).state.text_buffer == old(self).state.text_buffer, final(self).state.r == old(self).state.r,
    match ret {
        None => read_sym(old(self).state.tree(), old(self).stream.bits()) is None,
        Some(s) => s < 314 && (match read_sym(old(self).state.tree(), old(self).stream.bits()) {
            Some((s1, k)) => s1 == s && 0 <= k <= old(self).stream.bits().len() && final(self).stream.bits() =~= old(self).stream.bits().skip(k) && final(self).state.tree() == upd(old(self).state.tree(), s as int),
            None => false,
        }),
    },
@hint start
let ghost t = self.state.tree();
let ghost bits0 = self.stream.bits();
let ghost mut n: int = 626;
let ghost mut used: int = 0;
proof { assert(bits0.skip(0) =~= bits0); assert(kid_ok(t, 626)); lemma_walk_is_code(t, 626, bits0); }
@loop 0
invariant
    self.ok(), self.state == old(self).state, t == self.state.tree(), t == old(self).state.tree(), bits0 == old(self).stream.bits(), wf(t),
    0 <= n < 627, c == t.c[n], kid_ok(t, n), 0 <= used <= bits0.len(),
    self.stream.bits() =~= bits0.skip(used),
    read_sym(t, bits0) == (match walk(t, n, bits0.skip(used)) { Some((s, k)) => Some((s, k + used)), None => None::<(int, int)> }),
decreases n
@hint loop0.start
proof {
    let bits = bits0.skip(used);
    if bits.len() > 0 {
        assert(bits.skip(1) =~= bits0.skip(used + 1));
        n = t.c[n] + (if bits[0] { 1int } else { 0int });
        used = used + 1;
        assert(kid_ok(t, n));
    }
}
@hint before call update 0
proof { lemma_walk_is_code(t, n, bits0.skip(used)); }
@fn Decoder::decode_position()
requires old(self).ok(),
ensures
    final(self).ok(), final(self).state == old(self).state,
    match ret {
        None => read_pos(old(self).stream.bits()) is None,
        Some(p) => (match read_pos(old(self).stream.bits()) {
            Some((p1, k)) => p1 == p && p < 4096 && 0 <= k <= old(self).stream.bits().len() && final(self).stream.bits() =~= old(self).stream.bits().skip(k),
            None => false,
        }),
    },
@hint start
let ghost bits0 = self.stream.bits();
@hint after call get_byte 0
let ghost b0 = i as int;
let ghost pl = plen(phigh(b0));
let ghost mut used: int = 8;
proof { lemma_dtab(b0); }
@loop 0
invariant
    self.ok(), self.state == old(self).state, bits0 == old(self).stream.bits(),
    3 <= pl <= 8, pl == plen(phigh(b0)), b0 == val(bits0.take(8)), bits0.len() >= 8, 0 <= __left1 <= j, j == pl - 2,
    used == 8 + (j - __left1), used <= bits0.len(),
    i == val(bits0.take(used)),
    self.stream.bits() =~= bits0.skip(used),
decreases __left1
@hint loop0.start
proof {
    lemma_val_bound(bits0.take(used));
    lemma_pow2_small();
    lemma_pow2_mono(used, 14);
    assert((i << 1) == 2 * i) by (bit_vector) requires i < 0x4000;
    if used < bits0.len() {
        assert(bits0.take(used + 1).drop_last() =~= bits0.take(used));
        assert(bits0.skip(used).skip(1) =~= bits0.skip(used + 1));
        used = used + 1;
    }
}
@hint after loop0
proof { assert(used == pl + 6); lemma_pos_value(bits0, b0, i); }
@fn Decoder::decode(buffer)
requires old(self).ok(),
ensures
    final(self).ok(), final(buffer)@.len() == old(buffer)@.len(),
    match ret {
        Ok(_) => dec_run(old(self).state.tree(), old(self).stream.bits(), old(self).window(), old(buffer)@.len() as int) == Some(old(self).window() + final(buffer)@),
        Err(_) => dec_run(old(self).state.tree(), old(self).stream.bits(), old(self).window(), old(buffer)@.len() as int) is None,
    },
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@hint start
hide(wf);
hide(upd);
hide(read_pos);
hide(read_sym);
hide(dec_run);
hide(copy_back);

let ghost total = buffer@.len() as int;
let ghost win = self.window();
let ghost goal = dec_run(self.state.tree(), self.stream.bits(), win, total);
proof { lemma_ring_window(self.state.text_buffer@, self.state.r as int); assert(win + buffer@.take(0) =~= win); }
@loop 0
invariant
    self.ok(), 0 <= count <= total, buffer@.len() == total, win.len() == 2048,
    total == old(buffer)@.len(), win == old(self).window(),
    goal == dec_run(old(self).state.tree(), old(self).stream.bits(), win, total),
    ring(self.state.text_buffer@, self.state.r as int, win + buffer@.take(count as int)),
    goal == dec_run(self.state.tree(), self.stream.bits(), win + buffer@.take(count as int), total - count),
decreases total - count
@hint loop0.start
let ghost hist = win + buffer@.take(count as int);
let ghost count0 = count as int;
proof { lemma_dec_step(self.state.tree(), self.stream.bits(), hist, total - count); }
@hint before call update_text_buffer 0
proof {
    lemma_ring_push(self.state.text_buffer@, self.state.r as int, hist, c);
}
@hint loop0.end
proof { if count == count0 + 1 { assert(win + buffer@.take(count0 + 1) =~= hist.push(buffer@[count0])); } }
@hint after loop0
proof {
    assert(win + buffer@.take(count as int) =~= win + buffer@);
    lemma_dec_step(self.state.tree(), self.stream.bits(), win + buffer@, 0);
}
@hint before loop1
let ghost r0 = self.state.r as int;
let ghost d = ((self.state.r - i) % 2048 + 2047) % 2048 + 1;
let ghost fin = copy_back(hist, d, j as int);
let ghost mid_tree = self.state.tree();
let ghost mid_stream = self.stream;
proof {
    assert(forall|x: u16| x & 2047 == x % 2048) by (bit_vector);
    assert(1 <= d <= 2048 && i < 2048 && i == (r0 - d) % 2048);
}
@loop 1
invariant
    self.ok(), __end1 == j, 0 <= __i1 <= j, 3 <= j <= 60, count == count0 + __i1, count0 + j <= total, buffer@.len() == total, win.len() == 2048,
    1 <= d <= 2048, i < 2048, 0 <= r0 < 2048, i == (r0 - d) % 2048, self.state.r == (r0 + __i1) % 2048,
    self.state.tree() == mid_tree, self.stream == mid_stream,
    ring(self.state.text_buffer@, self.state.r as int, win + buffer@.take(count as int)),
    fin == copy_back(win + buffer@.take(count as int), d, j - __i1),
decreases j - __i1
@hint loop1.start
let ghost h1 = win + buffer@.take(count as int);
let ghost b1 = h1[h1.len() - d];
proof {
    lemma_mask((i + __i1) as u16);
    lemma_copy_ix(r0, d - 1, i as int, __i1 as int);
    lemma_ring_get(self.state.text_buffer@, self.state.r as int, h1, d);
    lemma_ring_push(self.state.text_buffer@, self.state.r as int, h1, b1);
    lemma_copy_step(h1, d, j - __i1);
}
@hint loop1.end
proof { assert(win + buffer@.take(count as int) =~= h1.push(b1)); }
@hint after loop1
proof { lemma_copy_step(win + buffer@.take(count as int), d, 0); assert(fin == win + buffer@.take(count as int)); }
@epilogue
/// C02, C03: for every stream and every size, decoding returns what the format says and nothing else
fn property_c03(stream: Vec<u8>, buffer: &mut [u8]) -> (ok: bool)
    ensures
        final(buffer)@.len() == old(buffer)@.len(),
        ok ==> lzhuf_decodes(stream@, old(buffer)@.len() as int) == Some(final(buffer)@),
        !ok ==> lzhuf_decodes(stream@, old(buffer)@.len() as int) is None,
{
    let mut dec = Decoder::new(ByteIter { data: stream, pos: 0 });
    let ghost bits = dec.stream.bits();
    proof {
        assert(stream@.skip(0) =~= stream@);
        assert(dec.window() =~= spaces());
    }
    match dec.decode(buffer) {
        Ok(_) => {
            proof { assert((spaces() + buffer@).skip(2048) =~= buffer@); }
            true
        }
        Err(_) => false,
    }
}
