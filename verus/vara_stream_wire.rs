// ---- C15: fragmentation ----
/// what a sequence of reads amounts to, by the contract of do_a_thing: each read is processed with what the last one left
pub open spec fn session(left: Seq<u8>, chunks: Seq<Seq<u8>>) -> Feed
    decreases chunks.len()
{
    if chunks.len() == 0 { Feed { said: Seq::<Said>::empty(), rest: left, ok: true } }
    else if chunks[0].len() == 0 { session(left, chunks.drop_first()) }
    else {
        let f = feed(left + chunks[0]);
        if !f.ok { f } else {
            let g = session(f.rest, chunks.drop_first());
            Feed { said: f.said + g.said, rest: g.rest, ok: g.ok }
        }
    }
}
pub open spec fn joined(chunks: Seq<Seq<u8>>) -> Seq<u8>
    decreases chunks.len()
{
    if chunks.len() == 0 { Seq::<u8>::empty() } else { chunks[0] + joined(chunks.drop_first()) }
}
/// left is the unfinished beginning of a line
pub open spec fn partial(left: Seq<u8>) -> bool { upto(left, 13) == left.len() }
proof fn lemma_rest_is_partial(d: Seq<u8>)
    ensures feed(d).ok ==> partial(feed(d).rest)
    decreases d.len()
{
    lemma_line_f(d);
    lemma_span_is(d, other_than(13));
    if line_f(d) is Yes { lemma_rest_is_partial(line_f(d)->Yes_0); }
}
/// However the stream is cut into reads, the same is said, and the same is left, as if it had come in one piece.
proof fn property_c15_fragmentation(left: Seq<u8>, chunks: Seq<Seq<u8>>)
    requires partial(left)
    ensures ({
        let (f, g) = (session(left, chunks), feed(left + joined(chunks)));
        f.said == g.said && f.ok == g.ok && (f.ok ==> f.rest == g.rest)
    })
    decreases chunks.len()
{
    let e = Seq::<u8>::empty();
    assert(left + e =~= left);
    if chunks.len() > 0 {
        let (c, t) = (chunks[0], chunks.drop_first());
        assert(left + joined(chunks) =~= (left + c) + joined(t));
        if c.len() == 0 {
            assert(left + c =~= left);
            property_c15_fragmentation(left, t);
        } else {
            lemma_feed_more(left + c, joined(t));
            if feed(left + c).ok {
                lemma_rest_is_partial(left + c);
                property_c15_fragmentation(feed(left + c).rest, t);
            }
        }
    }
}
pub open spec fn lines(ls: Seq<Seq<u8>>) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::<u8>::empty() } else { ls[0] + seq![13u8] + lines(ls.drop_first()) }
}
/// no line is lost, repeated or merged, and no partial line is acted on: what is said is said by the lines, one each, in order
pub open spec fn said_by(ls: Seq<Seq<u8>>, d: Seq<u8>, f: Feed) -> bool {
    &&& ls.len() == f.said.len() && d == lines(ls) + f.rest
    &&& forall|i: int| 0 <= i < ls.len() ==> #[trigger] reading(ls[i]) == Some(f.said[i]) && partial(ls[i]) && ls[i].len() > 0
}
proof fn property_c15_lines(d: Seq<u8>)
    ensures exists|ls: Seq<Seq<u8>>| said_by(ls, d, feed(d)), feed(d).ok ==> partial(feed(d).rest),
        !feed(d).ok ==> line_f(feed(d).rest) is No || (line_f(feed(d).rest) is Yes && reading(line_f(feed(d).rest)->Yes_1) is None),
    decreases d.len()
{
    hide(reading);
    lemma_rest_is_partial(d);
    lemma_line_f(d);
    lemma_span_is(d, other_than(13));
    if line_f(d) is Yes && reading(line_f(d)->Yes_1) is Some {
        let (r, l) = (line_f(d)->Yes_0, line_f(d)->Yes_1);
        property_c15_lines(r);
        let t = choose|t: Seq<Seq<u8>>| said_by(t, r, feed(r));
        let ls = seq![l] + t;
        let k = upto(d, 13);
        assert(ls.drop_first() =~= t);
        assert(d =~= (l + seq![13u8]) + r);
        assert(d =~= lines(ls) + feed(d).rest);
        assert(partial(l)) by {
            assert forall|j: int| 0 <= j < l.len() implies other_than(13)(#[trigger] l[j]) by { assert(other_than(13)(d[j])); }
            lemma_span(l, other_than(13), l.len() as int);
        }
        assert forall|i: int| 0 <= i < ls.len() implies #[trigger] reading(ls[i]) == Some(feed(d).said[i]) && partial(ls[i]) && ls[i].len() > 0 by {
            if i > 0 { assert(ls[i] == t[i - 1]); assert(reading(t[i - 1]) == Some(feed(r).said[i - 1])); }
        }
        assert(said_by(ls, d, feed(d)));
    } else {
        let ls = Seq::<Seq<u8>>::empty();
        assert(d =~= lines(ls) + d);
        assert(said_by(ls, d, feed(d)));
    }
}
