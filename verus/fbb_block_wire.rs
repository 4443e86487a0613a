// ---- the wire format, and what it implies ----
pub struct Wire { pub title: Seq<u8>, pub offset: Seq<u8>, pub subs: Seq<Seq<u8>>, pub check: u8 }
pub open spec fn head_of(w: Wire) -> Seq<u8> { w.title + seq![0u8] + w.offset + seq![0u8] }
pub open spec fn sub_of(b: Seq<u8>) -> Seq<u8> { seq![2u8, (b.len() % 256) as u8] + b }
pub open spec fn subs_of(bs: Seq<Seq<u8>>) -> Seq<u8>
    decreases bs.len()
{
    if bs.len() == 0 { Seq::<u8>::empty() } else { sub_of(bs[0]) + subs_of(bs.skip(1)) }
}
pub open spec fn lead_of(w: Wire) -> Seq<u8> { seq![1u8, head_of(w).len() as u8] + head_of(w) }
pub open spec fn body_of(bs: Seq<Seq<u8>>, check: u8) -> Seq<u8> { subs_of(bs) + seq![4u8, check] }
/// SOH, header length, title, NUL, offset in decimal, NUL; sub-blocks STX, length (0: 256), bytes; EOT, checksum
pub open spec fn wire(w: Wire) -> Seq<u8> { lead_of(w) + body_of(w.subs, w.check) }
pub open spec fn sizes(bs: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < bs.len() ==> 1 <= (#[trigger] bs[i]).len() <= 256 }
pub open spec fn framed(w: Wire) -> bool {
    head_of(w).len() <= 88
    && (forall|j: int| 0 <= j < w.title.len() ==> 0x20 <= #[trigger] w.title[j] <= 0x7e)
    && w.offset.len() > 0 && digits(w.offset) && decimal(w.offset) <= u32::MAX
    && sizes(w.subs)
    && (w.subs.len() > 0 ==> w.subs[0].len() >= 6)
}
pub open spec fn content(w: Wire) -> Msg {
    Msg {
        title: w.title,
        offset: decimal(w.offset),
        crc: if w.subs.len() == 0 { 0 } else { le16(w.subs[0]) },
        size: if w.subs.len() == 0 { 0 } else { le32(w.subs[0].skip(2)) },
        blocks: if w.subs.len() == 0 { w.subs } else { w.subs.update(0, w.subs[0].skip(6)) },
    }
}
pub open spec fn intact(w: Wire) -> bool {
    framed(w) && sound(content(w).crc, content(w).size, content(w).blocks, w.check)
}
proof fn lemma_tag_s1(b: u8, d: Seq<u8>)
    ensures tag_s(d, seq![b]) == if d.len() == 0 { Pr::More(1) } else if d[0] == b { split::<u8>(d, 1) } else { Pr::No }
{
    if d.len() > 0 {
        assert(d.take(1)[0] == d[0]);
        assert(seq![b].take(1)[0] == b);
        if d[0] == b { assert(d.take(1) =~= seq![b].take(1)); }
    } else {
        assert(d.take(0) =~= seq![b].take(0));
    }
}
proof fn lemma_sub(b: Seq<u8>, x: Seq<u8>)
    requires 1 <= b.len() <= 256
    ensures checksum_f(sub_of(b) + x) is No, data_block_f(sub_of(b) + x) == Pr::Yes(x, b), block_len((b.len() % 256) as u8) == b.len()
{
    let d = sub_of(b) + x;
    lemma_tag_s1(4, d);
    lemma_tag_s1(2, d);
    assert(d.skip(1).skip(1) =~= b + x);
    assert((b + x).take(b.len() as int) =~= b);
    assert((b + x).skip(b.len() as int) =~= x);
}
proof fn lemma_sub_cut(b: Seq<u8>, k: int)
    requires 1 <= b.len() <= 256, 0 < k < b.len() + 2
    ensures checksum_f(sub_of(b).take(k)) is No, data_block_f(sub_of(b).take(k)) is More, 0 < data_block_f(sub_of(b).take(k))->More_0 <= b.len() + 2 - k
{
    let d = sub_of(b).take(k);
    lemma_tag_s1(4, d);
    lemma_tag_s1(2, d);
    if k >= 2 { assert(d.skip(1).skip(1) =~= b.take(k - 2)); }
}
proof fn lemma_end(c: u8, x: Seq<u8>)
    ensures checksum_f(seq![4u8, c] + x) == Pr::Yes(x, c)
{
    let d = seq![4u8, c] + x;
    lemma_tag_s1(4, d);
    assert(d.skip(1).skip(1) =~= x);
}
proof fn lemma_blocks_read(bs: Seq<Seq<u8>>, c: u8, x: Seq<u8>)
    requires sizes(bs)
    ensures blocks_f(body_of(bs, c) + x) == Pr::Yes(x, (bs, c))
    decreases bs.len()
{
    if bs.len() == 0 {
        assert(body_of(bs, c) + x =~= seq![4u8, c] + x);
        lemma_end(c, x);
        assert(bs =~= Seq::<Seq<u8>>::empty());
    } else {
        let r = body_of(bs.skip(1), c) + x;
        assert(body_of(bs, c) + x =~= sub_of(bs[0]) + r);
        lemma_sub(bs[0], r);
        assert forall|i: int| 0 <= i < bs.skip(1).len() implies 1 <= (#[trigger] bs.skip(1)[i]).len() <= 256 by { assert(bs.skip(1)[i] == bs[i + 1]); }
        lemma_blocks_read(bs.skip(1), c, x);
        assert(seq![bs[0]] + bs.skip(1) =~= bs);
    }
}
proof fn lemma_blocks_cut(bs: Seq<Seq<u8>>, c: u8, k: int)
    requires sizes(bs), 0 <= k < body_of(bs, c).len()
    ensures blocks_f(body_of(bs, c).take(k)) is More, 0 < blocks_f(body_of(bs, c).take(k))->More_0 <= body_of(bs, c).len() - k
    decreases bs.len()
{
    let y = body_of(bs, c);
    let d = y.take(k);
    lemma_tag_s1(4, d);
    if k == 0 {
        assert(d.len() == 0);
    } else if bs.len() == 0 {
        assert(y =~= seq![4u8, c]);
    } else {
        let z = body_of(bs.skip(1), c);
        let n = bs[0].len() + 2;
        assert(y =~= sub_of(bs[0]) + z);
        assert forall|i: int| 0 <= i < bs.skip(1).len() implies 1 <= (#[trigger] bs.skip(1)[i]).len() <= 256 by { assert(bs.skip(1)[i] == bs[i + 1]); }
        if k < n {
            assert(d =~= sub_of(bs[0]).take(k));
            lemma_sub_cut(bs[0], k);
        } else {
            assert(d =~= sub_of(bs[0]) + z.take(k - n));
            lemma_sub(bs[0], z.take(k - n));
            lemma_blocks_cut(bs.skip(1), c, k - n);
        }
    }
}
proof fn lemma_blocks_inverse(d: Seq<u8>)
    ensures blocks_f(d) matches Pr::Yes(r, x) ==> sizes(x.0) && d == body_of(x.0, x.1) + r
    decreases d.len()
{
    lemma_tag_s1(4, d);
    lemma_tag_s1(2, d);
    match checksum_f(d) {
        Pr::Yes(r, c) => {
            assert(d =~= body_of(Seq::<Seq<u8>>::empty(), c) + r);
        }
        Pr::No => match data_block_f(d) {
            Pr::Yes(r, b) => if r.len() < d.len() {
                lemma_blocks_inverse(r);
                if blocks_f(r) is Yes {
                    let (q, x) = (blocks_f(r)->Yes_0, blocks_f(r)->Yes_1);
                    let bs = seq![b] + x.0;
                    assert(bs.skip(1) =~= x.0);
                    assert(d.skip(1)[0] == d[1]);
                    assert(d.skip(1).skip(1) =~= d.skip(2));
                    let n = b.len() as int;
                    assert(d =~= sub_of(b) + r) by {
                        assert(b =~= d.skip(2).take(n));
                        assert(r =~= d.skip(2).skip(n));
                        assert forall|i: int| 0 <= i < d.len() implies d[i] == (sub_of(b) + r)[i] by {
                            if i >= 2 && i < n + 2 { assert(d.skip(2).take(n)[i - 2] == d[i]); }
                            if i >= n + 2 { assert(d.skip(2).skip(n)[i - 2 - n] == d[i]); }
                        }
                    }
                    assert(d =~= body_of(bs, x.1) + q);
                }
            },
            _ => {}
        },
        _ => {}
    }
}
proof fn lemma_head_len(n: u8, x: Seq<u8>)
    requires n <= 88
    ensures head_len_f(seq![1u8, n] + x) == Pr::Yes(x, n)
{
    let d = seq![1u8, n] + x;
    lemma_tag_s1(1, d);
    assert(d.skip(1).skip(1) =~= x);
}
proof fn lemma_fields(w: Wire)
    requires framed(w)
    ensures fields_f(head_of(w)) == Some((w.title, decimal(w.offset)))
{
    let h = head_of(w);
    let k = w.title.len() as int;
    assert forall|j: int| 0 <= j < k implies title_byte()(#[trigger] h[j]) by { assert(h[j] == w.title[j]); }
    lemma_span(h, title_byte(), k);
    let h2 = h.skip(k + 1);
    let j = w.offset.len() as int;
    assert(h2 =~= w.offset + seq![0u8]);
    assert forall|i: int| 0 <= i < j implies digit_byte()(#[trigger] h2[i]) by { assert(h2[i] == w.offset[i]); }
    lemma_span(h2, digit_byte(), j);
    assert(h.take(k) =~= w.title);
    assert(h2.take(j) =~= w.offset);
}
proof fn lemma_fields_inverse(h: Seq<u8>) -> (o: Seq<u8>)
    ensures fields_f(h) matches Some(x) ==> x.1 == decimal(o) && digits(o) && o.len() > 0 && decimal(o) <= u32::MAX
        && h == x.0 + seq![0u8] + o + seq![0u8] && (forall|j: int| 0 <= j < x.0.len() ==> 0x20 <= #[trigger] x.0[j] <= 0x7e)
{
    let k = span(h, title_byte());
    let h2 = h.skip(k + 1);
    let j = span(h2, digit_byte());
    lemma_span_is(h, title_byte());
    lemma_span_is(h2, digit_byte());
    let o = h2.take(j);
    if fields_f(h) is Some {
        let t = h.take(k);
        assert forall|i: int| 0 <= i < t.len() implies 0x20 <= #[trigger] t[i] <= 0x7e by { assert(title_byte()(h[i])); }
        assert forall|i: int| 0 <= i < o.len() implies digit(#[trigger] o[i]) by { assert(digit_byte()(h2[i])); }
        assert(h =~= t + seq![0u8] + o + seq![0u8]) by {
            assert forall|i: int| 0 <= i < h.len() implies h[i] == (t + seq![0u8] + o + seq![0u8])[i] by {
                if i > k { assert(h2[i - k - 1] == h[i]); }
            }
        }
    }
    o
}
proof fn lemma_header_read(w: Wire, x: Seq<u8>)
    requires framed(w)
    ensures header_f(lead_of(w) + x) == Pr::Yes(x, (w.title, decimal(w.offset)))
{
    let h = head_of(w);
    assert(lead_of(w) + x =~= seq![1u8, h.len() as u8] + (h + x));
    lemma_head_len(h.len() as u8, h + x);
    assert((h + x).take(h.len() as int) =~= h);
    assert((h + x).skip(h.len() as int) =~= x);
    lemma_fields(w);
}
proof fn lemma_header_cut(w: Wire, k: int)
    requires framed(w), 0 <= k < lead_of(w).len()
    ensures header_f(lead_of(w).take(k)) is More, 0 < header_f(lead_of(w).take(k))->More_0 <= lead_of(w).len() - k
{
    let d = lead_of(w).take(k);
    let h = head_of(w);
    lemma_tag_s1(1, d);
    if k >= 2 {
        assert(d =~= seq![1u8, h.len() as u8] + h.take(k - 2));
        lemma_head_len(h.len() as u8, h.take(k - 2));
    }
}
proof fn lemma_header_inverse(d: Seq<u8>) -> (w: Wire)
    ensures header_f(d) matches Pr::Yes(r, x) ==> {
        &&& head_of(w).len() <= 88 && w.title == x.0 && decimal(w.offset) == x.1 && d == lead_of(w) + r
        &&& forall|j: int| 0 <= j < w.title.len() ==> 0x20 <= #[trigger] w.title[j] <= 0x7e
        &&& w.offset.len() > 0 && digits(w.offset) && decimal(w.offset) <= u32::MAX
    }
{
    lemma_tag_s1(1, d);
    if header_f(d) is Yes {
        let n = head_len_f(d)->Yes_1 as int;
        let q = d.skip(1).skip(1);
        assert(q =~= d.skip(2));
        let h = q.take(n);
        let o = lemma_fields_inverse(h);
        let t = fields_f(h)->Some_0.0;
        let w = Wire { title: t, offset: o, subs: Seq::<Seq<u8>>::empty(), check: 0 };
        assert(head_of(w) == h);
        let r = q.skip(n);
        assert(d =~= lead_of(w) + r) by {
            assert(d.skip(1)[0] == d[1]);
            assert forall|i: int| 0 <= i < d.len() implies d[i] == (lead_of(w) + r)[i] by {
                if i >= 2 && i < n + 2 { assert(q.take(n)[i - 2] == q[i - 2]); }
                if i >= n + 2 { assert(q.skip(n)[i - 2 - n] == q[i - 2]); }
            }
        }
        w
    } else {
        Wire { title: d, offset: d, subs: Seq::<Seq<u8>>::empty(), check: 0 }
    }
}
/// C07: what is accepted is an intact block on the wire, followed by what is left unread.
fn property_c07<'a>(data: &'a [u8]) -> (ret: Result<(&'a [u8], CompressedMessage<'a>), PErr>)
    ensures ret matches Ok((r, m)) ==> exists|w: Wire| intact(w) && data@ == #[trigger] wire(w) + r@ && m.msg() == content(w)
{
    let ret = b2_message_block(data);
    proof {
        if ret is Ok {
            let d = data@;
            let (r, m) = ret->Ok_0;
            let w0 = lemma_header_inverse(d);
            let q = header_f(d)->Yes_0;
            lemma_blocks_inverse(q);
            let (bs, c) = blocks_f(q)->Yes_1;
            let w = Wire { title: w0.title, offset: w0.offset, subs: bs, check: c };
            assert(head_of(w) == head_of(w0));
            assert(lead_of(w) == lead_of(w0));
            assert(d =~= wire(w) + r@);
            assert(content(w).blocks =~= m.msg().blocks);
            assert(intact(w) && m.msg() == content(w));
        }
    }
    ret
}
/// C08: an intact block, whatever follows it, is read exactly, and nothing that follows is consumed.
fn property_c08<'a>(data: &'a [u8], Ghost(w): Ghost<Wire>, Ghost(x): Ghost<Seq<u8>>) -> (ret: Result<(&'a [u8], CompressedMessage<'a>), PErr>)
    requires intact(w), data@ == wire(w) + x
    ensures ret matches Ok((r, m)) && r@ == x && m.msg() == content(w)
{
    let ret = b2_message_block(data);
    proof {
        let y = body_of(w.subs, w.check) + x;
        assert(data@ =~= lead_of(w) + y);
        lemma_header_read(w, y);
        lemma_blocks_read(w.subs, w.check, x);
        assert(content(w).blocks =~= data_blocks_f(y)->Yes_1.2);
        assert(message_f(data@) == Pr::Yes(x, content(w)));
        assert(ret is Ok);
    }
    ret
}
/// C09: every proper prefix of a well-formed block is incomplete, and never asks for more than what is missing.
fn property_c09<'a>(data: &'a [u8], Ghost(w): Ghost<Wire>) -> (ret: Result<(&'a [u8], CompressedMessage<'a>), PErr>)
    requires framed(w), data@.len() < wire(w).len(), data@ == wire(w).take(data@.len() as int)
    ensures ret matches Err(PErr::Incomplete(n)) && need(n) <= wire(w).len() - data@.len()
{
    let ret = b2_message_block(data);
    proof {
        let k = data@.len() as int;
        let n = lead_of(w).len() as int;
        if k < n {
            assert(data@ =~= lead_of(w).take(k));
            lemma_header_cut(w, k);
        } else {
            let y = body_of(w.subs, w.check).take(k - n);
            assert(data@ =~= lead_of(w) + y);
            lemma_header_read(w, y);
            lemma_blocks_cut(w.subs, w.check, k - n);
        }
        assert(message_f(data@) is More);
    }
    ret
}
