// ---- reading on ----
proof fn lemma_upto_more(a: Seq<u8>, b: Seq<u8>)
    ensures upto(a, 13) < a.len() ==> upto(a + b, 13) == upto(a, 13), 0 <= upto(a, 13) <= a.len()
{
    lemma_span_is(a, other_than(13));
    let k = upto(a, 13);
    if k < a.len() {
        let d = a + b;
        assert forall|j: int| 0 <= j < k implies other_than(13)(#[trigger] d[j]) by { assert(other_than(13)(a[j])); }
        assert(d[k] == a[k]);
        lemma_span(d, other_than(13), k);
    }
}
proof fn lemma_line_more(a: Seq<u8>, b: Seq<u8>)
    ensures
        line_f(a) is No ==> line_f(a + b) is No,
        line_f(a) matches Pr::Yes(r, l) ==> line_f(a + b) == Pr::Yes(r + b, l),
        !(line_f(a) is Stop),
{
    lemma_upto_more(a, b);
    let k = upto(a, 13);
    if 0 < k < a.len() {
        assert((a + b).skip(k + 1) =~= a.skip(k + 1) + b);
        assert((a + b).take(k) =~= a.take(k));
    }
}
proof fn lemma_feed_more(a: Seq<u8>, b: Seq<u8>)
    ensures
        feed(a).ok ==> {
            let g = feed(feed(a).rest + b);
            feed(a + b).said == feed(a).said + g.said && feed(a + b).ok == g.ok && feed(a + b).rest == g.rest
        },
        !feed(a).ok ==> feed(a + b).said == feed(a).said && !feed(a + b).ok,
    decreases a.len()
{
    lemma_line_more(a, b);
    lemma_line_f(a);
    let e = Seq::<Said>::empty();
    match line_f(a) {
        Pr::Yes(r, l) => {
            match reading(l) {
                Some(s) => {
                    lemma_feed_more(r, b);
                    if feed(r).ok {
                        let g = feed(feed(r).rest + b);
                        assert(seq![s] + (feed(r).said + g.said) =~= (seq![s] + feed(r).said) + g.said);
                    }
                }
                None => {}
            }
        }
        Pr::More(_) => { assert(e + feed(a + b).said =~= feed(a + b).said); }
        _ => {}
    }
}
