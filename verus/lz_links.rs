// ---------------------------------------------------------------------------------------------
// The search structure: for every first byte a chain of window positions (links in r, back in d;
// 2048 is no node, 2049.. are the heads). rank witnesses that chains end.
// ---------------------------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct Links { pub l: Seq<u16>, pub r: Seq<u16>, pub d: Seq<u16> }
pub open spec fn live(k: Links, p: int) -> bool { 0 <= p < 2048 && k.d[p] != 2048 }
pub open spec fn head(q: int) -> bool { 2049 <= q < 2305 }
pub open spec fn next_ok(k: Links, p: int) -> bool {
    k.r[p] == 2048 || (live(k, k.r[p] as int) && k.d[k.r[p] as int] == p)
}
pub open spec fn node_ok(k: Links, rank: Seq<int>, m: int, p: int) -> bool {
    let u = k.d[p] as int;
    (live(k, u) || head(u)) && k.r[u] == p && rank[u] < rank[p] < m && k.l[p] == 2048 && next_ok(k, p)
}
pub open spec fn head_ok(k: Links, rank: Seq<int>, m: int, q: int) -> bool { rank[q] < m && next_ok(k, q) }
pub open spec fn in_chains(k: Links, rank: Seq<int>, m: int) -> bool {
    &&& k.l.len() == 2049 && k.r.len() == 2305 && k.d.len() == 2049 && rank.len() == 2305
    &&& forall|p: int| live(k, p) ==> #[trigger] node_ok(k, rank, m, p)
    &&& forall|q: int| head(q) ==> #[trigger] head_ok(k, rank, m, q)
}
pub open spec fn chained(k: Links) -> bool { exists|rank: Seq<int>, m: int| in_chains(k, rank, m) }
/// the byte a chain is for, seen from position or head u
pub open spec fn byte_at(tb: Seq<u8>, u: int) -> int { if u >= 2049 { u - 2049 } else { tb[u] as int } }
pub open spec fn keyed(k: Links, tb: Seq<u8>, p: int) -> bool { byte_at(tb, k.d[p] as int) == tb[p] }
/// the positions of a chain have its first byte
pub open spec fn grouped(k: Links, tb: Seq<u8>) -> bool { forall|p: int| live(k, p) ==> #[trigger] keyed(k, tb, p) }
pub open spec fn witness(k: Links, w: (Seq<int>, int)) -> bool { in_chains(k, w.0, w.1) }
proof fn lemma_witness(k: Links) -> (w: (Seq<int>, int))
    requires chained(k)
    ensures in_chains(k, w.0, w.1)
{
    let (a, b) = choose|rank: Seq<int>, m: int| in_chains(k, rank, m);
    assert(witness(k, (a, b)));
    choose|w: (Seq<int>, int)| #[trigger] witness(k, w)
}
/// nothing linked yet
proof fn lemma_empty(k: Links)
    requires k.l.len() == 2049, k.r.len() == 2305, k.d.len() == 2049, forall|p: int| !live(k, p), forall|q: int| head(q) ==> k.r[q] == 2048
    ensures chained(k)
{
    let rank = Seq::new(2305, |i: int| 0int);
    assert forall|q: int| head(q) implies #[trigger] head_ok(k, rank, 1, q) by {}
    assert(in_chains(k, rank, 1));
}
/// what is not linked may be overwritten
proof fn lemma_grouped_text(k: Links, tb: Seq<u8>, t2: Seq<u8>, s: int)
    requires chained(k), grouped(k, tb), !live(k, s), tb.len() == 2107, t2.len() == 2107, forall|i: int| 0 <= i < 2048 && i != s ==> t2[i] == tb[i]
    ensures grouped(k, t2)
{
    let w = lemma_witness(k);
    assert forall|p: int| live(k, p) implies #[trigger] keyed(k, t2, p) by {
        assert(node_ok(k, w.0, w.1, p) && keyed(k, tb, p));
    }
}
/// r alone, in no chain
pub open spec fn fresh(k: Links, r: int) -> Links { Links { l: k.l.update(r, 2048), r: k.r.update(r, 2048), d: k.d } }
/// r after p
pub open spec fn appended(k: Links, p: int, r: int) -> Links { Links { l: k.l, r: k.r.update(p, r as u16), d: k.d.update(r, p as u16) } }
/// r in p's place
pub open spec fn swapped(k: Links, p: int, r: int) -> Links {
    let d1 = k.d.update(r, k.d[p]).update(2048, r as u16).update(k.r[p] as int, r as u16);
    Links { l: k.l.update(r, k.l[p]), r: k.r.update(r, k.r[p]).update(k.d[p] as int, r as u16), d: d1.update(p, 2048) }
}
/// p taken out
pub open spec fn cut(k: Links, p: int) -> Links {
    let q = k.r[p];
    Links { l: k.l, r: k.r.update(k.d[p] as int, q), d: k.d.update(q as int, k.d[p]).update(p, 2048) }
}
proof fn lemma_fresh(k: Links, rank: Seq<int>, m: int, r: int)
    requires in_chains(k, rank, m), 0 <= r < 2048, !live(k, r)
    ensures in_chains(fresh(k, r), rank, m), forall|p: int| live(fresh(k, r), p) <==> live(k, p), forall|tb: Seq<u8>| grouped(k, tb) ==> #[trigger] grouped(fresh(k, r), tb)
{
    let n = fresh(k, r);
    assert forall|p: int| live(n, p) implies #[trigger] node_ok(n, rank, m, p) by { assert(node_ok(k, rank, m, p)); }
    assert forall|q: int| head(q) implies #[trigger] head_ok(n, rank, m, q) by { assert(head_ok(k, rank, m, q)); }
    assert forall|tb: Seq<u8>| grouped(k, tb) implies #[trigger] grouped(n, tb) by {
        assert forall|p: int| live(n, p) implies #[trigger] keyed(n, tb, p) by { assert(keyed(k, tb, p)); }
    }
}
proof fn lemma_appended(k: Links, rank: Seq<int>, m: int, p: int, r: int, tb: Seq<u8>)
    requires grouped(k, tb), byte_at(tb, p) == tb[r], in_chains(k, rank, m), 0 <= r < 2048, !live(k, r), live(k, p) || head(p), k.r[p] == 2048, k.l[r] == 2048, k.r[r] == 2048
    ensures in_chains(appended(k, p, r), rank.update(r, m), m + 1), forall|x: int| live(appended(k, p, r), x) ==> x == r || live(k, x), chained(appended(k, p, r)), grouped(appended(k, p, r), tb)
{
    let n = appended(k, p, r);
    let rk = rank.update(r, m);
    if live(k, p) { assert(node_ok(k, rank, m, p)); } else { assert(head_ok(k, rank, m, p)); }
    assert forall|x: int| live(n, x) implies #[trigger] node_ok(n, rk, m + 1, x) by { if x != r { assert(node_ok(k, rank, m, x)); } }
    assert forall|q: int| head(q) implies #[trigger] head_ok(n, rk, m + 1, q) by { assert(head_ok(k, rank, m, q)); }
    assert(in_chains(n, rk, m + 1));
    assert forall|x: int| live(n, x) implies #[trigger] keyed(n, tb, x) by { if x != r { assert(keyed(k, tb, x)); } }
}
proof fn lemma_swapped(k: Links, rank: Seq<int>, m: int, p: int, r: int, tb: Seq<u8>)
    requires grouped(k, tb), tb[p] == tb[r], in_chains(k, rank, m), 0 <= r < 2048, !live(k, r), live(k, p)
    ensures in_chains(swapped(k, p, r), rank.update(r, rank[p]), m), forall|x: int| live(swapped(k, p, r), x) ==> x == r || live(k, x), chained(swapped(k, p, r)), grouped(swapped(k, p, r), tb)
{
    let n = swapped(k, p, r);
    let rk = rank.update(r, rank[p]);
    assert(node_ok(k, rank, m, p));
    let u = k.d[p] as int;
    if live(k, u) { assert(node_ok(k, rank, m, u)); } else { assert(head_ok(k, rank, m, u)); }
    let y = k.r[p] as int;
    if y != 2048 { assert(node_ok(k, rank, m, y)); }
    assert forall|x: int| live(n, x) implies #[trigger] node_ok(n, rk, m, x) by { if x != r { assert(live(k, x)); assert(node_ok(k, rank, m, x)); } }
    assert forall|q: int| head(q) implies #[trigger] head_ok(n, rk, m, q) by { assert(head_ok(k, rank, m, q)); }
    assert(in_chains(n, rk, m));
    assert forall|x: int| live(n, x) implies #[trigger] keyed(n, tb, x) by { assert(keyed(k, tb, p)); if x != r { assert(live(k, x)); assert(keyed(k, tb, x)); } }
}
proof fn lemma_cut(k: Links, rank: Seq<int>, m: int, p: int, tb: Seq<u8>)
    requires grouped(k, tb), in_chains(k, rank, m), live(k, p)
    ensures in_chains(cut(k, p), rank, m), forall|x: int| live(cut(k, p), x) ==> x != p && live(k, x), chained(cut(k, p)), grouped(cut(k, p), tb)
{
    let n = cut(k, p);
    assert(node_ok(k, rank, m, p));
    let u = k.d[p] as int;
    if live(k, u) { assert(node_ok(k, rank, m, u)); } else { assert(head_ok(k, rank, m, u)); }
    let y = k.r[p] as int;
    if y != 2048 { assert(node_ok(k, rank, m, y)); }
    assert forall|x: int| live(n, x) implies #[trigger] node_ok(n, rank, m, x) by { assert(live(k, x)); assert(node_ok(k, rank, m, x)); }
    assert forall|q: int| head(q) implies #[trigger] head_ok(n, rank, m, q) by { assert(head_ok(k, rank, m, q)); }
    assert(in_chains(n, rank, m));
    assert forall|x: int| live(n, x) implies #[trigger] keyed(n, tb, x) by { assert(keyed(k, tb, p)); assert(live(k, x)); assert(keyed(k, tb, x)); }
}
proof fn lemma_dist(r: u16, p: u16, x: u16)
    requires r < 2048, p < 2048, r != p, x == (if r >= p { r - p } else { r - p + 0x10000 })
    ensures x & 2047 == (r - p) % 2048, 1 <= x & 2047 <= 2047, (r - ((x & 2047) - 1) - 1) % 2048 == p
{
    assert(x & 2047 == x % 2048) by (bit_vector);
}
// ---- the window ----
/// the first 59 bytes are repeated behind the ring, so that 60 bytes can be read from anywhere
pub open spec fn mirrored(tb: Seq<u8>) -> bool { tb.len() == 2107 && forall|i: int| 0 <= i < 59 ==> tb[2048 + i] == #[trigger] tb[i] }
/// n bytes from r and from p are the same
pub open spec fn same_bytes(tb: Seq<u8>, r: int, p: int, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] tb[r + j] == tb[p + j] }
/// a match found for r: none worth using, or what starts at a live position before r, as far as stated
pub open spec fn found(k: Links, tb: Seq<u8>, r: int, len: int, pos: int) -> bool {
    len > 2 ==> len <= 60 && 0 <= pos < 2047 && live(k, (r - pos - 1) % 2048) && same_bytes(tb, r, (r - pos - 1) % 2048, len)
}
/// every live position is at most 1988 before r
pub open spec fn near(k: Links, r: int) -> bool { forall|p: int| #[trigger] live(k, p) ==> (r - p) % 2048 <= 1988 }
/// the ring holds hist from 1988 bytes before base (which is at r) up to len bytes behind it
pub open spec fn holds(tb: Seq<u8>, r: int, hist: Seq<u8>, base: int, len: int) -> bool {
    &&& 1988 <= base && 0 <= len && base + len <= hist.len() && 0 <= r < 2048
    &&& forall|j: int| base - 1988 <= j < base + len ==> tb[(r + (j - base)) % 2048] == #[trigger] hist[j]
}
pub open spec fn hit(tb: Seq<u8>, r: int, len: int, pos: int) -> bool {
    len > 2 ==> len <= 60 && 0 <= pos < 1988 && same_bytes(tb, r, (r - pos - 1) % 2048, len)
}
proof fn lemma_hit(k: Links, tb: Seq<u8>, r: int, len: int, pos: int)
    requires found(k, tb, r, len, pos), near(k, r), 0 <= r < 2048
    ensures hit(tb, r, len, pos)
{
    if len > 2 {
        let p = (r - pos - 1) % 2048;
        assert(live(k, p));
        assert((r - p) % 2048 == pos + 1);
    }
}
/// taking a byte at the end of the window in, the oldest out
proof fn lemma_slide(tb: Seq<u8>, r: int, hist: Seq<u8>, base: int, c: u8)
    requires mirrored(tb), holds(tb, r, hist, base, 60), base + 60 < hist.len(), c == hist[base + 60]
    ensures ({
        let s = (r + 60) % 2048;
        let t1 = tb.update(s, c);
        let t2 = if s < 59 { t1.update(s + 2048, c) } else { t1 };
        mirrored(t2) && holds(t2, (r + 1) % 2048, hist, base + 1, 60)
    })
{
    let s = (r + 60) % 2048;
    let t1 = tb.update(s, c);
    let t2 = if s < 59 { t1.update(s + 2048, c) } else { t1 };
    assert forall|i: int| 0 <= i < 59 implies t2[2048 + i] == #[trigger] t2[i] by { assert(tb[2048 + i] == tb[i]); }
    assert forall|j: int| base + 1 - 1988 <= j < base + 61 implies t2[((r + 1) % 2048 + (j - base - 1)) % 2048] == #[trigger] hist[j] by {
        assert(((r + 1) % 2048 + (j - base - 1)) % 2048 == (r + (j - base)) % 2048);
        let x = (r + (j - base)) % 2048;
        if j < base + 60 {
            assert(tb[x] == hist[j]);
            assert(x != s);
        }
    }
}
proof fn lemma_shrink(tb: Seq<u8>, r: int, hist: Seq<u8>, base: int, len: int)
    requires holds(tb, r, hist, base, len), len > 0
    ensures holds(tb, (r + 1) % 2048, hist, base + 1, len - 1)
{
    assert forall|j: int| base + 1 - 1988 <= j < base + len implies tb[((r + 1) % 2048 + (j - base - 1)) % 2048] == #[trigger] hist[j] by {
        assert(((r + 1) % 2048 + (j - base - 1)) % 2048 == (r + (j - base)) % 2048);
    }
}
/// moving on: the oldest position is gone, so the others stay near
proof fn lemma_near(k: Links, k1: Links, r: int)
    requires near(k, r), 0 <= r < 2048, forall|x: int| live(k1, x) ==> x != (r + 60) % 2048 && live(k, x)
    ensures near(k1, (r + 1) % 2048), !live(k1, (r + 1) % 2048), forall|p: int| live(k1, p) ==> 1 <= ((r + 1) % 2048 - p) % 2048
{
    assert forall|p: int| #[trigger] live(k1, p) implies 1 <= ((r + 1) % 2048 - p) % 2048 <= 1988 by {
        assert(live(k, p));
        let o = (r - p) % 2048;
        if o == 1988 { assert(p == (r + 60) % 2048); }
        assert(((r + 1) % 2048 - p) % 2048 == o + 1);
    }
    if live(k1, (r + 1) % 2048) { assert(((r + 1) % 2048 - (r + 1) % 2048) % 2048 == 0); }
}
proof fn lemma_near_insert(k1: Links, k2: Links, r: int)
    requires near(k1, r), forall|x: int| live(k2, x) ==> x == r || live(k1, x)
    ensures near(k2, r)
{
    assert forall|p: int| #[trigger] live(k2, p) implies (r - p) % 2048 <= 1988 by { if p != r { assert(live(k1, p)); } }
}
/// ring index with the repeated part
proof fn lemma_mirror(tb: Seq<u8>, i: int)
    requires mirrored(tb), 0 <= i < 2107
    ensures tb[i] == tb[i % 2048]
{
    if i >= 2048 { assert(tb[2048 + (i - 2048)] == tb[i - 2048]); }
}
/// what a hit stands for: copying from there gives what comes next
proof fn lemma_copy(tb: Seq<u8>, r: int, hist: Seq<u8>, base: int, len: int, ml: int, pos: int, n: int)
    requires mirrored(tb), holds(tb, r, hist, base, len), hit(tb, r, ml, pos), 2 < ml, 0 <= n <= ml, n <= len
    ensures copy_back(hist.take(base), pos + 1, n) == hist.take(base + n)
    decreases n
{
    if n == 0 { } else {
        lemma_copy(tb, r, hist, base, len, ml, pos, n - 1);
        lemma_copy_last(hist.take(base), pos + 1, n);
        let d = pos + 1;
        let h = hist.take(base + n - 1);
        let k = n - 1;
        let p = (r - d) % 2048;
        assert(tb[r + k] == tb[p + k]);
        lemma_mirror(tb, r + k);
        lemma_mirror(tb, p + k);
        let j = base + k - d;
        assert(tb[(r + (j - base)) % 2048] == hist[j]);
        assert((r + (j - base)) % 2048 == (p + k) % 2048);
        assert(tb[(r + k) % 2048] == hist[base + k]) by { assert((r + ((base + k) - base)) % 2048 == (r + k) % 2048); }
        assert(h[h.len() - d] == hist[base + k]);
        assert(hist.take(base + n) =~= h.push(hist[base + k]));
    }
}
proof fn lemma_copy_last(h: Seq<u8>, d: int, n: int)
    requires n >= 1, 1 <= d <= h.len()
    ensures ({ let c = copy_back(h, d, n - 1); copy_back(h, d, n) == c.push(c[c.len() - d]) }), copy_back(h, d, n).len() == h.len() + n
    decreases n
{
    let h1 = h.push(h[h.len() - d]);
    if n == 1 {
        assert(copy_back(h1, d, 0) == h1);
        assert(copy_back(h, d, 0) == h);
    } else { lemma_copy_last(h1, d, n - 1); }
}
// ---- tokens ----
/// a literal byte (sym < 256), or a copy of sym - 253 bytes from pos + 1 back
pub struct Tok { pub sym: int, pub pos: int }
pub open spec fn tok_ok(k: Tok) -> bool { 0 <= k.sym < 256 || (256 <= k.sym < 314 && 0 <= k.pos < 2048) }
pub open spec fn toks_ok(ks: Seq<Tok>) -> bool { forall|i: int| 0 <= i < ks.len() ==> #[trigger] tok_ok(ks[i]) }
pub open spec fn tree_toks(t: Tree, ks: Seq<Tok>) -> Tree
    decreases ks.len()
{
    if ks.len() == 0 { t } else { upd(tree_toks(t, ks.drop_last()), ks.last().sym) }
}
pub open spec fn tok_bits(t: Tree, k: Tok) -> Seq<bool> { if k.sym < 256 { code(t, k.sym) } else { code(t, k.sym) + pos_code(k.pos) } }
/// the stream of the tokens ks
pub open spec fn enc_toks(t: Tree, ks: Seq<Tok>) -> Seq<bool>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() } else { enc_toks(t, ks.drop_last()) + tok_bits(tree_toks(t, ks.drop_last()), ks.last()) }
}
/// what the tokens stand for, after hist
pub open spec fn expand(hist: Seq<u8>, ks: Seq<Tok>) -> Seq<u8>
    decreases ks.len()
{
    if ks.len() == 0 { hist } else {
        let h = expand(hist, ks.drop_last());
        let k = ks.last();
        if k.sym < 256 { h.push(k.sym as u8) } else { copy_back(h, k.pos + 1, k.sym - 253) }
    }
}
proof fn lemma_tree_toks(t: Tree, ks: Seq<Tok>)
    requires wf(t), toks_ok(ks)
    ensures wf(tree_toks(t, ks))
    decreases ks.len()
{
    if ks.len() > 0 {
        assert forall|i: int| 0 <= i < ks.drop_last().len() implies #[trigger] tok_ok(ks.drop_last()[i]) by { assert(ks.drop_last()[i] == ks[i]); }
        lemma_tree_toks(t, ks.drop_last());
        assert(tok_ok(ks[ks.len() - 1]));
        lemma_upd(tree_toks(t, ks.drop_last()), ks.last().sym);
    }
}
/// decoding the stream of some tokens yields what they stand for, and goes on with what follows
proof fn lemma_round(t: Tree, ks: Seq<Tok>, hist: Seq<u8>, rest: Seq<bool>, n: int)
    requires wf(t), toks_ok(ks), hist.len() >= 2048, expand(hist, ks).len() <= hist.len() + n
    ensures
        expand(hist, ks).len() >= hist.len(),
        dec_run(t, enc_toks(t, ks) + rest, hist, n) == dec_run(tree_toks(t, ks), rest, expand(hist, ks), n - (expand(hist, ks).len() - hist.len())),
    decreases ks.len()
{
    if ks.len() == 0 {
        assert(enc_toks(t, ks) + rest =~= rest);
    } else {
        let init = ks.drop_last();
        let k = ks.last();
        assert forall|i: int| 0 <= i < init.len() implies #[trigger] tok_ok(init[i]) by { assert(init[i] == ks[i]); }
        assert(tok_ok(ks[ks.len() - 1]));
        lemma_tree_toks(t, init);
        let t1 = tree_toks(t, init);
        let h1 = expand(hist, init);
        lemma_expand_len(hist, init);
        if k.sym >= 256 { lemma_copy_last(h1, k.pos + 1, k.sym - 253); }
        let rest1 = tok_bits(t1, k) + rest;
        lemma_round(t, init, hist, rest1, n);
        assert(enc_toks(t, ks) + rest =~= enc_toks(t, init) + rest1);
        let cd = code(t1, k.sym);
        if k.sym < 256 {
            lemma_code_reads(t1, k.sym, rest);
            assert(rest1.skip(cd.len() as int) =~= rest);
        } else {
            let after = pos_code(k.pos) + rest;
            assert(rest1 =~= cd + after);
            lemma_code_reads(t1, k.sym, after);
            assert(rest1.skip(cd.len() as int) =~= after);
            lemma_pos_reads(k.pos, rest);
            assert(after.skip(pos_code(k.pos).len() as int) =~= rest);
        }
    }
}
proof fn lemma_expand_len(hist: Seq<u8>, ks: Seq<Tok>)
    requires toks_ok(ks), hist.len() >= 2048
    ensures expand(hist, ks).len() >= hist.len()
    decreases ks.len()
{
    if ks.len() > 0 {
        let init = ks.drop_last();
        assert forall|i: int| 0 <= i < init.len() implies #[trigger] tok_ok(init[i]) by { assert(init[i] == ks[i]); }
        assert(tok_ok(ks[ks.len() - 1]));
        lemma_expand_len(hist, init);
        if ks.last().sym >= 256 { lemma_copy_last(expand(hist, init), ks.last().pos + 1, ks.last().sym - 253); }
    }
}
