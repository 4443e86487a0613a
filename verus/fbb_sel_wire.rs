// ---- C11: answers ----
pub struct Answer { pub sign: u8, pub offset: Seq<u8> }
impl Answer {
    pub open spec fn wf(self) -> bool { match sign(self.sign) { Sign::None => false, Sign::From => number(self.offset), _ => self.offset.len() == 0 } }
    pub open spec fn wire(self) -> Seq<u8> { seq![self.sign] + self.offset }
    pub open spec fn meaning(self) -> MessageChoice {
        match sign(self.sign) {
            Sign::Accept => MessageChoice::Accept { offset: 0 },
            Sign::From => MessageChoice::Accept { offset: decimal(self.offset) as u16 },
            Sign::Defer => MessageChoice::Defer,
            _ => MessageChoice::Reject,
        }
    }
}
pub open spec fn wires(a: Seq<Answer>) -> Seq<u8>
    decreases a.len()
{
    if a.len() == 0 { Seq::<u8>::empty() } else { a[0].wire() + wires(a.drop_first()) }
}
pub open spec fn meanings(a: Seq<Answer>) -> Seq<MessageChoice> { Seq::new(a.len(), |i: int| a[i].meaning()) }
pub open spec fn answers(a: Seq<Answer>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).wf() }
proof fn lemma_element_cut(a: Answer, tail: Seq<u8>, k: int)
    requires a.wf(), tail.len() > 0, !digit(tail[0]), 0 <= k <= a.wire().len() + tail.len()
    ensures cut(a.wire(), tail, k, element_f((a.wire() + tail).take(k)), a.meaning())
{
    let d = (a.wire() + tail).take(k);
    assert(tail.take(0) =~= Seq::<u8>::empty());
    if k > 0 {
        assert(d[0] == a.sign);
        assert(d.skip(1) =~= (a.offset + tail).take(k - 1));
        if sign(a.sign) is From {
            lemma_number_cut(a.offset, tail, k - 1);
        } else {
            assert(d.skip(1) =~= tail.take(k - 1));
        }
    }
}
proof fn lemma_elements_cut(a: Seq<Answer>, tail: Seq<u8>, k: int)
    requires answers(a), tail.len() > 0, !digit(tail[0]), 0 <= k <= wires(a).len() + tail.len()
    ensures cut(wires(a), tail, k, elements_f((wires(a) + tail).take(k), a.len()), meanings(a))
    decreases a.len()
{
    let d = (wires(a) + tail).take(k);
    if a.len() == 0 {
        assert(wires(a) + tail =~= tail);
        assert(meanings(a) =~= Seq::<MessageChoice>::empty());
        if k == 0 { assert(d =~= Seq::<u8>::empty()); }
    } else {
        let b = a.drop_first();
        let t = wires(b) + tail;
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).wf() by { assert(b[i] == a[i + 1]); }
        assert(wires(a) + tail =~= a[0].wire() + t);
        assert(!digit(t[0])) by { if b.len() > 0 { assert(b[0].wf()); assert(wires(b)[0] == b[0].sign); } }
        assert(a[0].wf());
        lemma_element_cut(a[0], t, k);
        let j = k - a[0].wire().len();
        if j >= 0 {
            lemma_elements_cut(b, tail, j);
            assert(t.take(0) =~= Seq::<u8>::empty());
            assert(tail.take(0) =~= Seq::<u8>::empty());
            assert(seq![a[0].meaning()] + meanings(b) =~= meanings(a));
        }
    }
}
/// Every line of answers reads as what its signs and offsets say, one by one; every proper prefix of it asks for more.
proof fn property_c11_answers_are_read(a: Seq<Answer>, tail: Seq<u8>, k: int)
    requires answers(a), tail.len() > 0, !digit(tail[0]), 0 <= k <= 3 + wires(a).len() + tail.len()
    ensures cut(seq![70u8, 83u8, 32u8] + wires(a), tail, k, selection_f((seq![70u8, 83u8, 32u8] + wires(a) + tail).take(k), a.len()), meanings(a))
{
    let (t2, t1) = (wires(a) + tail, seq![32u8] + (wires(a) + tail));
    assert(seq![70u8, 83u8, 32u8] + wires(a) + tail =~= seq![70u8, 83u8] + t1);
    lemma_tag_cut(seq![70u8, 83u8], t1, k);
    if k >= 2 {
        lemma_tag_cut(seq![32u8], t2, k - 2);
        if k >= 3 { lemma_elements_cut(a, tail, k - 3); }
    }
}
proof fn lemma_answer_sound(d: Seq<u8>) -> (h: Answer)
    ensures element_f(d) matches Pr::Yes(r, c) ==> h.wf() && h.meaning() == c && d == h.wire() + r
{
    if element_f(d) is Yes {
        let r = element_f(d)->Yes_0;
        assert(d =~= seq![d[0]] + d.skip(1));
        if sign(d[0]) is From {
            lemma_number_sound(d.skip(1));
            let v = number_f(d.skip(1))->Yes_1;
            let t = choose|t: Seq<u8>| #[trigger] number(t) && v == decimal(t) && d.skip(1) == t + r;
            let h = Answer { sign: d[0], offset: t };
            assert(seq![d[0]] + (t + r) =~= h.wire() + r);
            h
        } else {
            let h = Answer { sign: d[0], offset: Seq::<u8>::empty() };
            assert(d =~= h.wire() + r);
            h
        }
    } else { Answer { sign: 0, offset: Seq::empty() } }
}
proof fn lemma_answers_cons(h: Answer, b: Seq<Answer>)
    requires h.wf(), answers(b)
    ensures answers(seq![h] + b), meanings(seq![h] + b) == seq![h.meaning()] + meanings(b), wires(seq![h] + b) == h.wire() + wires(b)
{
    let a = seq![h] + b;
    assert(a.drop_first() =~= b);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).wf() by { if i > 0 { assert(a[i] == b[i - 1]); } }
    assert(meanings(a) =~= seq![h.meaning()] + meanings(b));
}
proof fn lemma_elements_sound(d: Seq<u8>, n: nat) -> (a: Seq<Answer>)
    ensures elements_f(d, n) matches Pr::Yes(r, c) ==> a.len() == n && answers(a) && meanings(a) == c && d == wires(a) + r
    decreases n
{
    hide(element_f);
    hide(answers);
    hide(meanings);
    hide(Answer::wf);
    hide(Answer::wire);
    hide(Answer::meaning);
    if n == 0 {
        let a = Seq::<Answer>::empty();
        assert(answers(a) && meanings(a) =~= Seq::<MessageChoice>::empty()) by { reveal(answers); reveal(meanings); }
        assert(d =~= wires(a) + d);
        a
    } else if elements_f(d, n) is Yes {
        let (r, c) = (element_f(d)->Yes_0, element_f(d)->Yes_1);
        let h = lemma_answer_sound(d);
        let b = lemma_elements_sound(r, (n - 1) as nat);
        lemma_answers_cons(h, b);
        let a = seq![h] + b;
        assert(d =~= wires(a) + elements_f(d, n)->Yes_0);
        a
    } else { Seq::<Answer>::empty() }
}
/// Nothing else is accepted: unknown signs and offsets above 65535 are not, and exactly n answers are consumed.
proof fn property_c11_only_answers(d: Seq<u8>, n: nat)
    ensures selection_f(d, n) matches Pr::Yes(r, c) ==> exists|a: Seq<Answer>| a.len() == n && answers(a) && #[trigger] meanings(a) == c && d == seq![70u8, 83u8, 32u8] + wires(a) + r
{
    if selection_f(d, n) is Yes {
        lemma_tag_sound(d, seq![70u8, 83u8]);
        let d1 = tag_s(d, seq![70u8, 83u8])->Yes_0;
        lemma_tag_sound(d1, seq![32u8]);
        let d2 = space_f(d1)->Yes_0;
        let a = lemma_elements_sound(d2, n);
        let (r, c) = (selection_f(d, n)->Yes_0, selection_f(d, n)->Yes_1);
        assert(d =~= seq![70u8, 83u8, 32u8] + wires(a) + r);
        assert(meanings(a) == c);
    }
}
proof fn lemma_elements_definite(d: Seq<u8>, n: nat)
    requires has_cr(d)
    ensures definite(elements_f(d, n)), !(elements_f(d, n) is Stop)
    decreases n
{
    if n > 0 {
        let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == 0x0d;
        if !(sign(d[0]) is None) {
            assert(j > 0);
            assert(d.skip(1)[j - 1] == 0x0d);
            lemma_number_definite(d.skip(1));
            if element_f(d) is Yes { lemma_elements_definite(element_f(d)->Yes_0, (n - 1) as nat); }
        }
    }
}
/// A line whose end has arrived is accepted or rejected, never left waiting.
proof fn property_c11_finished_line_is_decided(d: Seq<u8>, n: nat)
    requires has_cr(d)
    ensures !(selection_f(d, n) is More), !(selection_f(d, n) is Stop)
{
    lemma_no_cr();
    lemma_tag_definite(d, seq![70u8, 83u8]);
    if tag_s(d, seq![70u8, 83u8]) is Yes {
        let d1 = tag_s(d, seq![70u8, 83u8])->Yes_0;
        lemma_tag_definite(d1, seq![32u8]);
        if space_f(d1) is Yes { lemma_elements_definite(space_f(d1)->Yes_0, n); }
    }
}
