/// append the byte d back, n times
pub open spec fn copy_back(hist: Seq<u8>, d: int, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { hist } else { copy_back(hist.push(hist[hist.len() - d]), d, n - 1) }
}
/// the published format: what decoding n bytes appends to hist (the window before the first byte
/// is 2048 spaces); None: the stream ends early or its last copy overruns n
pub open spec fn dec_run(t: Tree, bits: Seq<bool>, hist: Seq<u8>, n: int) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { Some(hist) } else {
        match read_sym(t, bits) {
            None => None,
            Some((s, k)) => {
                let t2 = upd(t, s);
                let rest = bits.skip(k);
                if s < 256 { dec_run(t2, rest, hist.push(s as u8), n - 1) } else {
                    match read_pos(rest) {
                        None => None,
                        Some((pos, k2)) => {
                            let len = s - 253;
                            if len > n { None } else {
                                dec_run(t2, rest.skip(k2), copy_back(hist, pos % 2048 + 1, len), n - len)
                            }
                        }
                    }
                }
            }
        }
    }
}
/// the window of a state, oldest byte first
pub open spec fn window(tb: Seq<u8>, r: int) -> Seq<u8> { Seq::new(2048, |i: int| tb[(r + i) % 2048]) }
/// the ring holds the last 2048 bytes of hist
#[verifier::opaque]
pub open spec fn ring(tb: Seq<u8>, r: int, hist: Seq<u8>) -> bool {
    &&& tb.len() == 2107 && 0 <= r < 2048 && hist.len() >= 2048
    &&& forall|d: int| 1 <= d <= 2048 ==> tb[(r - d) % 2048] == #[trigger] hist[hist.len() - d]
}
proof fn lemma_ring_push(tb: Seq<u8>, r: int, hist: Seq<u8>, b: u8)
    requires ring(tb, r, hist)
    ensures ring(tb.update(r, b), (r + 1) % 2048, hist.push(b))
{
    reveal(ring);
    let r2 = (r + 1) % 2048;
    let h2 = hist.push(b);
    assert forall|d: int| 1 <= d <= 2048 implies tb.update(r, b)[(r2 - d) % 2048] == #[trigger] h2[h2.len() - d] by {
        if d == 1 {
            assert((r2 - 1) % 2048 == r);
        } else {
            assert((r2 - d) % 2048 == (r - (d - 1)) % 2048);
            assert((r - (d - 1)) % 2048 != r);
            assert(hist[hist.len() - (d - 1)] == h2[h2.len() - d]);
        }
    }
}
proof fn lemma_ring_window(tb: Seq<u8>, r: int)
    requires tb.len() == 2107, 0 <= r < 2048
    ensures ring(tb, r, window(tb, r))
{
    reveal(ring);
    let h = window(tb, r);
    assert forall|d: int| 1 <= d <= 2048 implies tb[(r - d) % 2048] == #[trigger] h[h.len() - d] by {
        assert((r + (2048 - d)) % 2048 == (r - d) % 2048);
    }
}
proof fn lemma_ring_get(tb: Seq<u8>, r: int, hist: Seq<u8>, d: int)
    requires ring(tb, r, hist), 1 <= d <= 2048
    ensures tb[(r - d) % 2048] == hist[hist.len() - d], tb.len() == 2107, 0 <= r < 2048, hist.len() >= 2048
{
    reveal(ring);
    assert(hist[hist.len() - d] == tb[(r - d) % 2048]);
}
/// index arithmetic of a copy: i is where the match starts, x its k-th byte
proof fn lemma_copy_ix(r0: int, pos: int, i: int, k: int)
    requires 0 <= r0 < 2048, 0 <= pos < 4096, i == (r0 - pos - 1) % 2048, 0 <= k < 60
    ensures
        0 <= i < 2048, 1 <= pos % 2048 + 1 <= 2048,
        i == (r0 - (pos % 2048 + 1)) % 2048,
        ((r0 + k) % 2048 - (pos % 2048 + 1)) % 2048 == (i + k) % 2048,
        ((r0 + k) % 2048 + 1) % 2048 == (r0 + k + 1) % 2048,
{
}
proof fn lemma_mask(x: u16)
    ensures x & 2047 == x % 2048
{
    assert(x & 2047 == x % 2048) by (bit_vector);
}
/// the window before the first byte
pub open spec fn spaces() -> Seq<u8> { Seq::new(2048, |i: int| 0x20u8) }
/// what the published format says a stream decodes to
pub open spec fn lzhuf_decodes(stream: Seq<u8>, n: int) -> Option<Seq<u8>> {
    match dec_run(init_tree(), bits_of(stream), spaces(), n) {
        Some(h) => Some(h.skip(2048)),
        None => None,
    }
}
