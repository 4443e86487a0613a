@assume lzdec.vspec
@prelude lz_out.rs
@prelude lz_links.rs
@prelude
impl<'a> Bitbuffer<'a> {
    /// everything written so far
    pub open spec fn bits(&self) -> Seq<bool> { bits_of(self.output@) + top_bits(self.bit_buffer, self.bit_pos as int) }
    pub open spec fn ok(&self) -> bool { self.bit_pos < 8 && only_top(self.bit_buffer, self.bit_pos as int) }
    /// still writing to the same vector
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Bitbuffer<'a>) -> bool { *final(self.output) == *final(o.output) }
}
@fn Bitbuffer::new(output)
ensures ret.ok(), ret.bits() =~= bits_of(old(output)@), *final(ret.output) == *final(output),
@hint start
proof { assert(0u32 & (0xffff_ffffu32 >> 0u32) == 0) by (bit_vector); }
@fn Bitbuffer::put_code(l, c)
requires old(self).ok(), l <= 24, only_top(c, l as int),
ensures final(self).ok(), final(self).bits() =~= old(self).bits() + top_bits(c, l as int), final(self).same(old(self)),
@hint start
proof { lemma_put(self.bit_buffer, self.bit_pos as u32, c, l as u32, self.bit_buffer | (c >> (self.bit_pos as u32))); }
@loop 0
invariant
    self.bit_pos < 32, only_top(self.bit_buffer, self.bit_pos as int),
    self.bits() =~= old(self).bits() + top_bits(c, l as int),
    *final(self.output) == *final(old(self).output),
decreases self.bit_pos
@hint loop0.start
let ghost b = (self.bit_buffer >> 24) as u8;
proof { lemma_emit(self.bit_buffer, self.bit_pos as u32, self.bit_buffer << 8, b); lemma_bits_push(self.output@, b); }
@fn Bitbuffer::<Drop>::drop()
requires old(self).ok(),
ensures
    final(self).same(old(self)),
    padded(old(self).bits(), final(self).output@),
@hint start
proof { let b = (self.bit_buffer >> 24) as u8; lemma_pad(self.bit_buffer, self.bit_pos as u32, b); lemma_bits_push(self.output@, b); }
@prelude
/// the bits, and fewer than eight zeros or ones to fill the last byte
pub open spec fn padded(bits: Seq<bool>, bytes: Seq<u8>) -> bool {
    bits.len() <= 8 * bytes.len() < bits.len() + 8 && bits_of(bytes).take(bits.len() as int) =~= bits
}
impl<'a> Encoder<'a> {
    pub open spec fn ok(&self) -> bool { wf(self.state.tree()) && self.output.ok() }
    pub open spec fn links(&self) -> Links { Links { l: self.lson@, r: self.rson@, d: self.dad@ } }
    pub open spec fn text(&self) -> Seq<u8> { self.state.text_buffer@ }
    /// nothing encoded yet
    pub open spec fn unused(&self) -> bool { self.unlinked() && (forall|i: int| 0 <= i < 2107 ==> self.text()[i] == 0x20) }
    pub open spec fn unlinked(&self) -> bool {
        self.ok() && self.state.tree() == init_tree()
        && (forall|p: int| !live(self.links(), p)) && (forall|q: int| head(q) ==> self.links().r[q] == 2048)
    }
    /// apart from what is found and linked, as before
    #[verifier::prophetic]
    pub open spec fn kept(&self, o: &Encoder<'a>) -> bool { self.state == o.state && self.output.bits() == o.output.bits() && self.output.ok() && self.output.same(&o.output) }
}
@fn Encoder::encode_char(c)
requires old(self).ok(), c < 314,
ensures final(self).ok(), final(self).output.bits() =~= old(self).output.bits() + code(old(self).state.tree(), c as int), final(self).output.same(&old(self).output),
    final(self).state.tree() == upd(old(self).state.tree(), c as int),
    final(self).state.text_buffer == old(self).state.text_buffer, final(self).links() == old(self).links(),
    final(self).match_length == old(self).match_length, final(self).match_position == old(self).match_position,
@hint start
let ghost t = self.state.tree();
let ghost all = code(t, c as int);
proof {
    lemma_code_len(t, c as int);
    assert(leafpar_ok(t, 627 + c));
    assert(0u32 & (0xffff_ffffu32 >> 0u32) == 0) by (bit_vector);
    assert(all =~= path(t, t.p[627 + c] as int) + top_bits(0, 0));
}
@loop 0
invariant_except_break
    __while || k < 626, k <= 626, path(t, k as int) + top_bits(i, j as int) == all,
invariant
    *self == *old(self), wf(t), t == self.state.tree(), all == code(t, c as int), c < 314, 1 <= all.len() <= 21,
    only_top(i, j as int), j <= 21,
ensures
    k == 626, path(t, k as int) + top_bits(i, j as int) == all, only_top(i, j as int), j <= 21,
decreases 626 - k
@hint after loop0
proof { assert(path(t, 626) + top_bits(i, j as int) =~= top_bits(i, j as int)); }
@hint loop0.start
let ghost i0 = i;
let ghost k0 = k as int;
proof {
    assert(par_ok(t, k0));
    assert(path(t, k0) == path(t, t.p[k0] as int).push(k0 % 2 == 1));
    assert((k & 1 != 0) == (k % 2 == 1)) by (bit_vector);
    lemma_shift_in(i0, j as u32, k0 % 2 == 1, if k0 % 2 == 1 { (i0 >> 1u32) | 0x8000_0000u32 } else { i0 >> 1u32 });
    assert((i0 >> 1) | 0x8000_0000 == add(i0 >> 1, 0x8000_0000)) by (bit_vector);
    assert((i0 >> 1) < 0x8000_0000) by (bit_vector);
    assert(path(t, k0) + top_bits(i0, j as int) =~= path(t, t.p[k0] as int) + (seq![k0 % 2 == 1] + top_bits(i0, j as int)));
}
@fn Encoder::encode_position(c)
requires old(self).ok(), c < 4096,
ensures final(self).ok(), final(self).output.bits() =~= old(self).output.bits() + pos_code(c as int), final(self).output.same(&old(self).output),
    final(self).state == old(self).state, final(self).links() == old(self).links(),
    final(self).match_length == old(self).match_length, final(self).match_position == old(self).match_position,
@hint start
proof {
    assert(c >> 6 == c / 64 && c & 0x3f == c % 64) by (bit_vector);
    let h = c as int / 64;
    lemma_ptab(h);
    lemma_top_of_byte(p_code@[h], p_len@[h] as u32, (p_code@[h] as u32) << 24);
    lemma_low6((c % 64) as u8, ((c % 64) as u32) << 26);
}
@fn Encoder::new(output) loops=1
ensures ret.unused(), ret.output.bits() =~= bits_of(old(output)@), *final(ret.output.output) == *final(output),
@loop 0
invariant
?0     2049 <= __i1 <= __end1 == 2305,
?0     forall|q: int| 2049 <= q < __i1 ==> rson@[q] == 2048,
?1     0 <= __i1 <= __end1 == 256,
?1     forall|q: int| 2049 <= q < 2049 + __i1 ==> rson@[q] == 2048,
decreases __end1 - __i1
@hint end
proof {
    lemma_init();
}
@fn Encoder::insert_node(r) loops=2
requires old(self).output.ok(), chained(old(self).links()), grouped(old(self).links(), old(self).text()), r < 2048, !live(old(self).links(), r as int), mirrored(old(self).text()),
ensures
    final(self).kept(old(self)), chained(final(self).links()), grouped(final(self).links(), old(self).text()),
    forall|p: int| live(final(self).links(), p) ==> p == r || live(old(self).links(), p),
    found(old(self).links(), old(self).text(), r as int, final(self).match_length as int, final(self).match_position as int),
@hint start
let ghost k0 = self.links();
let ghost tb = self.text();
let ghost k1 = fresh(k0, r as int);
let ghost mut rank: Seq<int> = Seq::empty();
let ghost mut m: int = 0;
proof {
    let w = lemma_witness(k0);
    rank = w.0;
    m = w.1;
    lemma_fresh(k0, rank, m, r as int);
}
@loop 0
invariant_except_break
    live(k1, p as int) || head(p as int), byte_at(tb, p as int) == tb[r as int],
invariant
    self.links() =~= k1,
    self.kept(old(self)),
    k0 == old(self).links(), tb == old(self).text(), mirrored(tb), key@ == tb.skip(r as int), r < 2048, !live(k0, r as int), k1 == fresh(k0, r as int),
    in_chains(k1, rank, m), grouped(k1, tb), forall|x: int| live(k1, x) <==> live(k0, x),
    found(k0, tb, r as int, self.match_length as int, self.match_position as int),
ensures
    live(k1, p as int), tb[p as int] == tb[r as int],
decreases m - rank[p as int]
@hint loop0.start
proof {
    if live(k1, p as int) { assert(node_ok(k1, rank, m, p as int)); } else { assert(head_ok(k1, rank, m, p as int)); }
    if k1.r[p as int] == 2048 { lemma_appended(k1, rank, m, p as int, r as int, tb); } else {
        assert(node_ok(k1, rank, m, k1.r[p as int] as int));
        assert(keyed(k1, tb, k1.r[p as int] as int));
    }
}
@hint before loop1
proof {
    assert(live(k1, p as int));
    lemma_dist(r, p, if r >= p { (r - p) as u16 } else { (r - p + 0x10000) as u16 });
}
@loop 1
invariant
    1 <= i <= 60, same_bytes(tb, r as int, p as int, i as int),
    tb == self.text(), mirrored(tb), key@ == tb.skip(r as int), r < 2048, p < 2048,
decreases 60 - i
@hint after loop0
proof {
    assert(node_ok(k1, rank, m, p as int));
    lemma_swapped(k1, rank, m, p as int, r as int, tb);
}
@hint end
proof { assert(self.links() =~= swapped(k1, p as int, r as int)); }
@fn Encoder::delete_node(p) loops=1
requires old(self).output.ok(), chained(old(self).links()), grouped(old(self).links(), old(self).text()), p < 2048,
ensures
    final(self).kept(old(self)), chained(final(self).links()), grouped(final(self).links(), old(self).text()),
    final(self).match_length == old(self).match_length, final(self).match_position == old(self).match_position,
    forall|x: int| live(final(self).links(), x) ==> x != p && live(old(self).links(), x),
@hint start
let ghost k0 = self.links();
proof {
    let (rank, m) = lemma_witness(k0);
    if live(k0, p as int) {
        assert(node_ok(k0, rank, m, p as int));
        lemma_cut(k0, rank, m, p as int, self.text());
    }
}
@loop 0
invariant false
decreases 0int
@hint end
proof { assert(self.links() =~= cut(k0, p as int)); }
@prelude
/// the encoder at a byte of the message: r is where byte base is, len of them lie ready in the window
pub open spec fn at(e: &Encoder, r: int, s: int, hist: Seq<u8>, base: int, len: int) -> bool {
    &&& chained(e.links()) && grouped(e.links(), e.text()) && near(e.links(), r) && mirrored(e.text())
    &&& e.output.ok() && wf(e.state.tree())
    &&& holds(e.text(), r, hist, base, len) && s == (r + 60) % 2048 && 2048 <= base && len <= 60
}
/// the message is spaces (the window at the start) and the input
pub open spec fn message(input: Seq<u8>) -> Seq<u8> { spaces() + input }
/// the bits from before to after are a stream of tokens that stand for the input
pub open spec fn encodes(before: Seq<bool>, after: Seq<bool>, input: Seq<u8>) -> bool {
    exists|ks: Seq<Tok>| stands_for(before, after, input, ks)
}
pub open spec fn stands_for(before: Seq<bool>, after: Seq<bool>, input: Seq<u8>, ks: Seq<Tok>) -> bool {
    toks_ok(ks) && after == before + enc_toks(init_tree(), ks) && expand(spaces(), ks) == message(input)
}
@fn Encoder::encode(input) loops=5
requires old(self).unused(), input.ok(),
ensures
    final(self).ok(), final(self).output.same(&old(self).output),
    encodes(old(self).output.bits(), final(self).output.bits(), input.rest()),
@hint start
let ghost all = input.rest();
let ghost hist = message(all);
let ghost bits0 = self.output.bits();
let ghost mut toks: Seq<Tok> = Seq::empty();
let ghost mut base: int = 2048;
proof {
    lemma_init();
    assert(all.skip(0) =~= all);
    assert(bits0 + enc_toks(init_tree(), toks) =~= bits0);
    assert(hist.take(2048) =~= spaces());
    if all.len() == 0 { assert(hist =~= spaces()); assert(stands_for(bits0, bits0, all, toks)); }
}
@loop 0
invariant
    self.unlinked(), self.output.bits() == bits0, self.output.same(&old(self).output), iterator.ok(), r == 1988, len <= 60, s == 0,
    len <= all.len(), iterator.rest() =~= all.skip(len as int),
    forall|i: int| 0 <= i < 2107 ==> self.text()[i] == (if 1988 <= i < 1988 + len { all[i - 1988] } else { 0x20u8 }),
ensures
    len == 60 || iterator.rest().len() == 0,
decreases 60 - len
@hint loop0.start
let ghost was = *self;
proof { if len < all.len() { assert(all.skip(len as int)[0] == all[len as int]); } }
@hint loop0.end
proof {
    assert(self.state.tree() == was.state.tree());
    assert(self.links() == was.links());
    assert(self.output.ok());
    assert(self.ok());
    assert(forall|p: int| !live(self.links(), p));
    assert(forall|q: int| head(q) ==> self.links().r[q] == 2048);
    assert(self.text() == was.text().update(1988 + len - 1, all[len - 1]));
}
@hint before loop1
let ghost st = self.state;
proof {
    lemma_empty(self.links());
    assert(grouped(self.links(), self.text()));
    assert(hist.skip(2048 + len as int) =~= all.skip(len as int));
    assert(holds(self.text(), 1988, hist, 2048, len as int));
}
@loop 1
invariant
    1 <= __i1 <= 61, __end1 == 60, r == 1988, self.state == st, self.output.ok(), self.output.bits() == bits0, self.output.same(&old(self).output),
    chained(self.links()), grouped(self.links(), self.text()), mirrored(self.text()),
    forall|p: int| live(self.links(), p) ==> 1988 - __i1 < p < 1988,
decreases 61 - __i1
@hint before call insert_node 1
let ghost k9 = self.links();
proof { assert(near(k9, 1988)); }
@hint after call insert_node 1
proof {
    lemma_hit(k9, self.text(), 1988, self.match_length as int, self.match_position as int);
    lemma_near_insert(k9, self.links(), 1988);
}
@loop 2
invariant_except_break
    len > 0 ==> hit(self.text(), r as int, self.match_length as int, self.match_position as int), __while || len > 0,
invariant
    at(self, r as int, s as int, hist, base, len as int), hist == message(all), all == input.rest(),
    self.output.same(&old(self).output), bits0 == old(self).output.bits(),
    self.output.bits() == bits0 + enc_toks(init_tree(), toks), self.state.tree() == tree_toks(init_tree(), toks), toks_ok(toks),
    expand(spaces(), toks) == hist.take(base),
    iterator.ok(), iterator.rest() =~= hist.skip(base + len), len == 60 || iterator.rest().len() == 0,
ensures
    len == 0,
decreases hist.len() - base
@hint loop2.start
let ghost base0 = base;
let ghost ml = if self.match_length > len { len as int } else { self.match_length as int };
let ghost tok = if ml <= 2 { Tok { sym: self.text()[r as int] as int, pos: 0 } } else { Tok { sym: 253 + ml, pos: self.match_position as int } };
let ghost toks2 = toks.push(tok);
let ghost tree0 = self.state.tree();
let ghost tree2 = upd(tree0, tok.sym);
let ghost n = if ml <= 2 { 1int } else { ml };
let ghost out0 = self.output.bits();
let ghost out2 = bits0 + enc_toks(init_tree(), toks2);
proof {
    assert(toks2.drop_last() =~= toks);
    assert(tok_ok(tok));
    assert(toks_ok(toks2));
    assert(out2 =~= out0 + tok_bits(tree0, tok));
    if ml <= 2 {
        assert(self.text()[(r + (base - base)) % 2048] == hist[base]);
        assert(hist.take(base + 1) =~= hist.take(base).push(hist[base]));
    } else {
        lemma_copy(self.text(), r as int, hist, base, len as int, self.match_length as int, self.match_position as int, ml);
    }
    assert(expand(spaces(), toks2) == hist.take(base + n));
}
@hint before loop3
proof {
    toks = toks2;
    assert(self.output.bits() =~= out2);
}
@loop 3
invariant
    i <= last_match_len, last_match_len == n, n <= len, base == base0 + i,
    at(self, r as int, s as int, hist, base, len as int),
    self.output.same(&old(self).output), self.output.bits() == out2, self.state.tree() == tree2,
    iterator.ok(), iterator.rest() =~= hist.skip(base + len), len == 60 || iterator.rest().len() == 0,
    i > 0 ==> hit(self.text(), r as int, self.match_length as int, self.match_position as int),
ensures
    i == last_match_len || iterator.rest().len() == 0,
decreases last_match_len - i
@hint loop3.start
let ghost k3 = self.links();
let ghost tb3 = self.text();
let ghost r3 = r;
let ghost s3 = s;
let ghost coming = iterator.rest();
proof { lemma_mask((r + 1) as u16); lemma_mask((s + 1) as u16); if coming.len() > 0 { assert(coming[0] == hist[base + len]); } }
@hint before call insert_node 2
let ghost k4 = self.links();
proof {
    lemma_near(k3, k4, r3 as int);
    lemma_slide(tb3, r3 as int, hist, base, coming[0]);
    lemma_grouped_text(k4, tb3, self.text(), s3 as int);
}
@hint after call insert_node 2
proof {
    lemma_hit(k4, self.text(), r as int, self.match_length as int, self.match_position as int);
    lemma_near_insert(k4, self.links(), r as int);
    base = base + 1;
    assert(coming.skip(1) =~= hist.skip(base + len));
}
@loop 4
invariant
    i <= last_match_len, last_match_len == n, n - i <= len, base == base0 + i,
    at(self, r as int, s as int, hist, base, len as int),
    self.output.same(&old(self).output), self.output.bits() == out2, self.state.tree() == tree2,
    i == last_match_len || iterator.rest().len() == 0,
    iterator.ok(), iterator.rest() =~= hist.skip(base + len), len == 60 || iterator.rest().len() == 0,
    i > 0 && len > 0 ==> hit(self.text(), r as int, self.match_length as int, self.match_position as int),
decreases last_match_len - i
@hint loop4.start
let ghost k3 = self.links();
let ghost r3 = r;
proof { lemma_mask((r + 1) as u16); lemma_mask((s + 1) as u16); }
@hint before call insert_node 3
let ghost k4 = self.links();
@hint after call delete_node 1
proof {
    lemma_near(k3, self.links(), r3 as int);
    lemma_shrink(self.text(), r3 as int, hist, base, len as int);
    base = base + 1;
}
@hint after call insert_node 3
proof {
    lemma_hit(k4, self.text(), r as int, self.match_length as int, self.match_position as int);
    lemma_near_insert(k4, self.links(), r as int);
}
@hint after loop2
proof {
    assert(len == 0);
    assert(iterator.rest().len() == hist.len() - base);
    assert(hist.take(base) =~= hist);
    assert(stands_for(bits0, self.output.bits(), all, toks));
}
@fn Encoder::finish()
requires self.output.ok()
ensures padded(self.output.bits(), final(self.output.output)@)
@epilogue
/// a stream of tokens that stand for the message, with fewer than eight bits of padding
pub open spec fn is_stream_of(out: Seq<u8>, message: Seq<u8>) -> bool {
    exists|ks: Seq<Tok>| #[trigger] stream_of(out, message, ks)
}
pub open spec fn stream_of(out: Seq<u8>, message: Seq<u8>, ks: Seq<Tok>) -> bool {
    toks_ok(ks) && expand(spaces(), ks) == spaces() + message && padded(enc_toks(init_tree(), ks), out)
}
/// C04: what is written for a message is a stream of tokens that stand for it, and the format decodes it to exactly that message
fn property_c04(input: Vec<u8>) -> (out: Vec<u8>)
    ensures is_stream_of(out@, input@), lzhuf_decodes(out@, input@.len() as int) == Some(input@),
{
    let ghost msg = input@;
    let mut out: Vec<u8> = Vec::new();
    let mut enc = Encoder::new(&mut out);
    let ghost before = enc.output.bits();
    enc.encode(ByteIter { data: input, pos: 0 });
    let ghost after = enc.output.bits();
    proof { assert(msg.skip(0) =~= msg); }
    enc.finish();
    proof {
        let ks = choose|ks: Seq<Tok>| stands_for(before, after, msg, ks);
        assert(before =~= Seq::<bool>::empty());
        assert(after =~= enc_toks(init_tree(), ks));
        assert(stream_of(out@, msg, ks));
        lemma_stream_decodes(out@, msg, ks);
    }
    out
}
proof fn lemma_stream_decodes(out: Seq<u8>, msg: Seq<u8>, ks: Seq<Tok>)
    requires stream_of(out, msg, ks)
    ensures lzhuf_decodes(out, msg.len() as int) == Some(msg)
{
    lemma_init();
    let e = enc_toks(init_tree(), ks);
    let rest = bits_of(out).skip(e.len() as int);
    assert(bits_of(out) =~= e + rest);
    lemma_round(init_tree(), ks, spaces(), rest, msg.len() as int);
    assert((spaces() + msg).skip(2048) =~= msg);
}
/// C01: compressing and decompressing into a buffer of the original length gives the original bytes
fn property_c01(input: Vec<u8>, buffer: &mut [u8]) -> (ok: bool)
    requires old(buffer)@.len() == input@.len()
    ensures ok, final(buffer)@ == input@
{
    let ghost msg = input@;
    let out = property_c04(input);
    let mut dec = Decoder::new(ByteIter { data: out, pos: 0 });
    proof { assert(out@.skip(0) =~= out@); assert(dec.window() =~= spaces()); }
    match dec.decode(buffer) {
        Ok(_) => {
            proof {
                assert((spaces() + buffer@).skip(2048) =~= buffer@);
            }
            true
        }
        Err(_) => false,
    }
}
