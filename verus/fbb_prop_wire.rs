proof fn lemma_cr_tag(d: Seq<u8>)
    requires has_cr(d)
    ensures !(cr_f(d) is More)
{
    lemma_sign(d);
}

// one space and a field
pub open spec fn sp(t: Seq<u8>) -> Seq<u8> { seq![32u8] + t }
proof fn lemma_space(t: Seq<u8>, tail: Seq<u8>, k: int)
    requires 0 <= k <= 1 + t.len() + tail.len()
    ensures
        k == 0 ==> space_f((sp(t) + tail).take(k)) is More,
        k > 0 ==> space_f((sp(t) + tail).take(k)) == Pr::Yes((t + tail).take(k - 1), seq![32u8]),
{
    lemma_tag_cut(seq![32u8], t + tail, k);
    assert(sp(t) + tail =~= seq![32u8] + (t + tail));
}
proof fn lemma_sp_word(t: Seq<u8>, tail: Seq<u8>, k: int, n: int)
    requires word(t, n), 0 <= k <= 1 + t.len() + tail.len(), tail.len() > 0, !word_byte()(tail[0])
    ensures cut(sp(t), tail, k, spaced((sp(t) + tail).take(k), field_p(n)), t)
{
    lemma_space(t, tail, k);
    if k > 0 { lemma_word_cut(t, tail, k - 1, n); }
}
proof fn lemma_sp_number(t: Seq<u8>, tail: Seq<u8>, k: int)
    requires number(t), 0 <= k <= 1 + t.len() + tail.len(), tail.len() > 0, !digit(tail[0])
    ensures cut(sp(t), tail, k, spaced((sp(t) + tail).take(k), number_p()), decimal(t) as u16)
{
    lemma_space(t, tail, k);
    if k > 0 { lemma_number_cut(t, tail, k - 1); }
}
proof fn lemma_sp_addressee(at: Seq<u8>, to: Seq<u8>, tail: Seq<u8>, k: int)
    requires word(at, 40), word(to, 6), 0 <= k <= 2 + at.len() + to.len() + tail.len(), tail.len() > 0, !word_byte()(tail[0])
    ensures cut(sp(at) + sp(to), tail, k, spaced((sp(at) + sp(to) + tail).take(k), addressee_p()), (at, to))
{
    let t2 = sp(to) + tail;
    lemma_space(at, t2, k);
    assert(sp(at) + sp(to) + tail =~= sp(at) + t2);
    if k > 0 {
        let d1 = (at + t2).take(k - 1);
        lemma_word_cut(at, t2, k - 1, 40);
        if k - 1 >= at.len() {
            let k2 = k - 1 - at.len();
            assert(t2.take(0) =~= Seq::<u8>::empty());
            lemma_space(to, tail, k2);
            if k2 > 0 { lemma_word_cut(to, tail, k2 - 1, 6); }
        }
    }
}
pub open spec fn type_byte(t: MessageType) -> u8 { match t { MessageType::Private => 80u8, MessageType::Bulletin => 66u8, MessageType::Traffic => 84u8 } }
proof fn lemma_sp_type(ty: MessageType, tail: Seq<u8>, k: int)
    requires 0 <= k <= 2 + tail.len()
    ensures cut(sp(seq![type_byte(ty)]), tail, k, spaced((sp(seq![type_byte(ty)]) + tail).take(k), type_p()), ty)
{
    let t = seq![type_byte(ty)];
    lemma_space(t, tail, k);
    if k > 0 {
        let d = (t + tail).take(k - 1);
        lemma_sign(d);
        if k > 1 { assert(d[0] == type_byte(ty)); assert(d.skip(1) =~= tail.take(k - 2)); assert(tail.take(0) =~= Seq::<u8>::empty()); }
    }
}
proof fn lemma_space_sound(d: Seq<u8>)
    ensures space_f(d) matches Pr::Yes(r, o) ==> d == seq![32u8] + r
{ lemma_tag_sound(d, seq![32u8]); }

// ---- C10: the basic proposal ----
pub struct BasicLine { pub kind: u8, pub ty: MessageType, pub from: Seq<u8>, pub at: Seq<u8>, pub to: Seq<u8>, pub id: Seq<u8>, pub size: Seq<u8> }
impl BasicLine {
    pub open spec fn wf(self) -> bool {
        (self.kind == 65 || self.kind == 66) && word(self.from, 6) && word(self.at, 40) && word(self.to, 6) && word(self.id, 12) && number(self.size)
    }
    /// FA or FB, type, sender, mailbox, recipient, id, size, end of line
    pub open spec fn wire(self) -> Seq<u8> {
        seq![70u8, self.kind] + sp(seq![type_byte(self.ty)]) + sp(self.from) + sp(self.at) + sp(self.to) + sp(self.id) + sp(self.size) + seq![13u8]
    }
    pub open spec fn meaning(self) -> Prop { Prop { ty: self.ty, from: self.from, at: self.at, to: self.to, id: self.id, size: decimal(self.size) as u16 } }
}
proof fn lemma_fa_fb(kind: u8, tail: Seq<u8>, k: int)
    requires kind == 65 || kind == 66, 0 <= k <= 2 + tail.len()
    ensures
        k >= 2 ==> fa_fb_f((seq![70u8, kind] + tail).take(k)) == Pr::Yes(tail.take(k - 2), seq![70u8, kind]),
        k < 2 ==> fa_fb_f((seq![70u8, kind] + tail).take(k)) is More,
{
    let d = (seq![70u8, kind] + tail).take(k);
    lemma_tag_cut(seq![70u8, kind], tail, k);
    if k >= 2 {
        assert(d.take(2)[1] == kind);
        assert(seq![70u8, 65u8].take(2)[1] == 65u8);
    } else {
        assert(d.take(k) =~= seq![70u8, 65u8].take(k));
    }
}
proof fn lemma_empties()
    ensures
        forall|s: Seq<u8>| #[trigger] s.take(0) == Seq::<u8>::empty(),
        forall|p: spec_fn(Seq<u8>) -> Pr<MessageType>| #[trigger] spaced(Seq::<u8>::empty(), p) is More,
        forall|p: spec_fn(Seq<u8>) -> Pr<Seq<u8>>| #[trigger] spaced(Seq::<u8>::empty(), p) is More,
        forall|p: spec_fn(Seq<u8>) -> Pr<(Seq<u8>, Seq<u8>)>| #[trigger] spaced(Seq::<u8>::empty(), p) is More,
        forall|p: spec_fn(Seq<u8>) -> Pr<u16>| #[trigger] spaced(Seq::<u8>::empty(), p) is More,
        cr_f(Seq::<u8>::empty()) is More,
{
    assert forall|s: Seq<u8>| #[trigger] s.take(0) == Seq::<u8>::empty() by { assert(s.take(0) =~= Seq::<u8>::empty()); }
    lemma_sign(Seq::<u8>::empty());
}
/// the whole of w is needed and is enough
pub open spec fn reads<T>(w: Seq<u8>, tail: Seq<u8>, k: int, p: Pr<T>, v: T) -> bool {
    if k >= w.len() { p == Pr::Yes(tail.take(k - w.len()), v) } else { p is More }
}
impl BasicLine {
    pub open spec fn w6(self) -> Seq<u8> { seq![13u8] }
    pub open spec fn w5(self) -> Seq<u8> { sp(self.size) + self.w6() }
    pub open spec fn w4(self) -> Seq<u8> { sp(self.id) + self.w5() }
    pub open spec fn w3(self) -> Seq<u8> { sp(self.at) + sp(self.to) + self.w4() }
    pub open spec fn w2(self) -> Seq<u8> { sp(self.from) + self.w3() }
    pub open spec fn w1(self) -> Seq<u8> { sp(seq![type_byte(self.ty)]) + self.w2() }
}
proof fn lemma_wire(l: BasicLine)
    ensures l.wire() =~= seq![70u8, l.kind] + l.w1()
{}
proof fn lemma_first_bytes(l: BasicLine)
    ensures
        l.w6()[0] == 13u8, l.w6().len() > 0,
        l.w5()[0] == 32u8, l.w5().len() > 0,
        l.w4()[0] == 32u8, l.w4().len() > 0,
        l.w3()[0] == 32u8, l.w3().len() > 0,
        l.w2()[0] == 32u8, l.w2().len() > 0,
{}
proof fn lemma_p6(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w6().len() + rest.len()
    ensures reads(l.w6(), rest, k, proposal6_f((l.w6() + rest).take(k), l.ty, l.from, (l.at, l.to), l.id, decimal(l.size) as u16), l.meaning())
{ lemma_tag_cut(seq![13u8], rest, k); }
proof fn lemma_p5(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w5().len() + rest.len()
    ensures reads(l.w5(), rest, k, proposal5_f((l.w5() + rest).take(k), l.ty, l.from, (l.at, l.to), l.id), l.meaning())
{
    hide(proposal6_f); hide(BasicLine::w6); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w6() + rest, k - sp(l.size).len());
    lemma_first_bytes(l);
    assert(l.w5() + rest =~= sp(l.size) + t);
    lemma_sp_number(l.size, t, k);
    lemma_empties();
    if j >= 0 { lemma_p6(l, rest, j); }
}
proof fn lemma_p4(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w4().len() + rest.len()
    ensures reads(l.w4(), rest, k, proposal4_f((l.w4() + rest).take(k), l.ty, l.from, (l.at, l.to)), l.meaning())
{
    hide(proposal5_f); hide(BasicLine::w5); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w5() + rest, k - sp(l.id).len());
    lemma_first_bytes(l);
    assert(l.w4() + rest =~= sp(l.id) + t);
    lemma_sp_word(l.id, t, k, 12);
    lemma_empties();
    if j >= 0 { lemma_p5(l, rest, j); }
}
proof fn lemma_p3(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w3().len() + rest.len()
    ensures reads(l.w3(), rest, k, proposal3_f((l.w3() + rest).take(k), l.ty, l.from), l.meaning())
{
    hide(proposal4_f); hide(BasicLine::w4); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w4() + rest, k - sp(l.at).len() - sp(l.to).len());
    lemma_first_bytes(l);
    assert(l.w3() + rest =~= sp(l.at) + sp(l.to) + t);
    lemma_sp_addressee(l.at, l.to, t, k);
    lemma_empties();
    if j >= 0 { lemma_p4(l, rest, j); }
}
proof fn lemma_p2(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w2().len() + rest.len()
    ensures reads(l.w2(), rest, k, proposal2_f((l.w2() + rest).take(k), l.ty), l.meaning())
{
    hide(proposal3_f); hide(BasicLine::w3); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w3() + rest, k - sp(l.from).len());
    lemma_first_bytes(l);
    assert(l.w2() + rest =~= sp(l.from) + t);
    lemma_sp_word(l.from, t, k, 6);
    lemma_empties();
    if j >= 0 { lemma_p3(l, rest, j); }
}
proof fn lemma_p1(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w1().len() + rest.len()
    ensures reads(l.w1(), rest, k, proposal1_f((l.w1() + rest).take(k)), l.meaning())
{
    hide(proposal2_f); hide(BasicLine::w2); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w2() + rest, k - 2);
    lemma_first_bytes(l);
    assert(l.w1() + rest =~= sp(seq![type_byte(l.ty)]) + t);
    lemma_sp_type(l.ty, t, k);
    lemma_empties();
    if j >= 0 { lemma_p2(l, rest, j); }
}
/// Every well-formed line reads as its own tokens, whatever follows; every proper prefix of it asks for more.
proof fn property_c10_proposal_is_read(l: BasicLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.wire().len() + rest.len()
    ensures
        k >= l.wire().len() ==> proposal_f((l.wire() + rest).take(k)) == Pr::Yes(rest.take(k - l.wire().len()), l.meaning()),
        k < l.wire().len() ==> proposal_f((l.wire() + rest).take(k)) is More,
{
    hide(proposal1_f); hide(field_f); hide(number_f); hide(word); hide(number); hide(BasicLine::w1); hide(BasicLine::wire);
    let t = l.w1() + rest;
    lemma_wire(l);
    assert(l.wire() + rest =~= seq![70u8, l.kind] + t);
    lemma_fa_fb(l.kind, t, k);
    lemma_empties();
    if k >= 2 { lemma_p1(l, rest, k - 2); }
}
// soundness: what is accepted is a well-formed line
proof fn lemma_sp_word_sound(d: Seq<u8>, n: int)
    requires n >= 1
    ensures spaced(d, field_p(n)) matches Pr::Yes(r, t) ==> d == sp(t) + r && word(t, n)
{
    lemma_space_sound(d);
    if spaced(d, field_p(n)) is Yes {
        let q = space_f(d)->Yes_0;
        lemma_word_sound(q, n);
        let (r, t) = (field_f(q, n)->Yes_0, field_f(q, n)->Yes_1);
        assert(seq![32u8] + (t + r) =~= sp(t) + r);
    }
}
proof fn lemma_sp_number_sound(d: Seq<u8>)
    ensures spaced(d, number_p()) matches Pr::Yes(r, v) ==> exists|t: Seq<u8>| #[trigger] number(t) && v == decimal(t) && d == sp(t) + r
{
    lemma_space_sound(d);
    if spaced(d, number_p()) is Yes {
        let q = space_f(d)->Yes_0;
        lemma_number_sound(q);
        let (r, v) = (number_f(q)->Yes_0, number_f(q)->Yes_1);
        let t = choose|t: Seq<u8>| #[trigger] number(t) && v == decimal(t) && q == t + r;
        assert(seq![32u8] + (t + r) =~= sp(t) + r);
        assert(number(t));
    }
}
proof fn lemma_sp_addressee_sound(d: Seq<u8>)
    ensures spaced(d, addressee_p()) matches Pr::Yes(r, a) ==> d == sp(a.0) + sp(a.1) + r && word(a.0, 40) && word(a.1, 6)
{
    lemma_space_sound(d);
    if spaced(d, addressee_p()) is Yes {
        let q = space_f(d)->Yes_0;
        lemma_word_sound(q, 40);
        let (q2, at) = (field_f(q, 40)->Yes_0, field_f(q, 40)->Yes_1);
        lemma_space_sound(q2);
        let q3 = space_f(q2)->Yes_0;
        lemma_word_sound(q3, 6);
        let (r, to) = (field_f(q3, 6)->Yes_0, field_f(q3, 6)->Yes_1);
        assert(seq![32u8] + (at + (seq![32u8] + (to + r))) =~= sp(at) + sp(to) + r);
    }
}
proof fn lemma_sp_type_sound(d: Seq<u8>)
    ensures spaced(d, type_p()) matches Pr::Yes(r, ty) ==> d == sp(seq![type_byte(ty)]) + r
{
    lemma_space_sound(d);
    if spaced(d, type_p()) is Yes {
        let q = space_f(d)->Yes_0;
        lemma_sign(q);
        let (r, ty) = (type_f(q)->Yes_0, type_f(q)->Yes_1);
        assert(seq![32u8] + q =~= sp(seq![type_byte(ty)]) + r);
    }
}
// from the end of the line back, as above
proof fn lemma_s5(d: Seq<u8>, ty: MessageType, from: Seq<u8>, a: (Seq<u8>, Seq<u8>), id: Seq<u8>) -> (size: Seq<u8>)
    ensures proposal5_f(d, ty, from, a, id) matches Pr::Yes(r, p) ==>
        number(size) && p == (Prop { ty, from, at: a.0, to: a.1, id, size: decimal(size) as u16 }) && d == sp(size) + seq![13u8] + r
{
    if proposal5_f(d, ty, from, a, id) is Yes {
        lemma_sp_number_sound(d);
        let (q, v) = (spaced(d, number_p())->Yes_0, spaced(d, number_p())->Yes_1);
        let size = choose|t: Seq<u8>| #[trigger] number(t) && v == decimal(t) && d == sp(t) + q;
        lemma_tag_sound(q, seq![13u8]);
        let r = cr_f(q)->Yes_0;
        assert(sp(size) + (seq![13u8] + r) =~= sp(size) + seq![13u8] + r);
        size
    } else { d }
}
proof fn lemma_s3(d: Seq<u8>, ty: MessageType, from: Seq<u8>) -> (l: BasicLine)
    ensures proposal3_f(d, ty, from) matches Pr::Yes(r, p) ==> l.kind == 65 && l.ty == ty && l.from == from && word(l.at, 40) && word(l.to, 6) && word(l.id, 12) && number(l.size) && p == l.meaning() && d == l.w3() + r
{
    if proposal3_f(d, ty, from) is Yes {
        lemma_sp_addressee_sound(d);
        let (q, a) = (spaced(d, addressee_p())->Yes_0, spaced(d, addressee_p())->Yes_1);
        lemma_sp_word_sound(q, 12);
        let (q2, id) = (spaced(q, field_p(12))->Yes_0, spaced(q, field_p(12))->Yes_1);
        let size = lemma_s5(q2, ty, from, a, id);
        let r = proposal3_f(d, ty, from)->Yes_0;
        let l = BasicLine { kind: 65, ty, from, at: a.0, to: a.1, id, size };
        assert(d =~= l.w3() + r);
        l
    } else { BasicLine { kind: 65, ty, from, at: d, to: d, id: d, size: d } }
}
proof fn lemma_s1(d: Seq<u8>) -> (l: BasicLine)
    ensures proposal1_f(d) matches Pr::Yes(r, p) ==> l.kind == 65 && l.wf() && p == l.meaning() && d == l.w1() + r
{
    hide(proposal3_f); hide(BasicLine::w3); hide(field_f); hide(number_f); hide(word); hide(number);
    if proposal1_f(d) is Yes {
        lemma_sp_type_sound(d);
        let (q, ty) = (spaced(d, type_p())->Yes_0, spaced(d, type_p())->Yes_1);
        lemma_sp_word_sound(q, 6);
        let (q2, from) = (spaced(q, field_p(6))->Yes_0, spaced(q, field_p(6))->Yes_1);
        let l = lemma_s3(q2, ty, from);
        let r = proposal1_f(d)->Yes_0;
        assert(d =~= l.w1() + r);
        l
    } else { BasicLine { kind: 65, ty: MessageType::Private, from: d, at: d, to: d, id: d, size: d } }
}
/// Nothing else is accepted: too long or missing fields, numbers above 65535 and wrong separators are not.
proof fn lemma_w1_same(l: BasicLine, m: BasicLine)
    requires m.kind == 65, l == (BasicLine { kind: l.kind, ..m }), m.wf(), l.kind == 65 || l.kind == 66
    ensures l.w1() == m.w1(), l.wf(), l.meaning() == m.meaning()
{}
proof fn property_c10_only_proposals(d: Seq<u8>)
    ensures proposal_f(d) matches Pr::Yes(r, p) ==> exists|l: BasicLine| l.wf() && #[trigger] l.meaning() == p && d == l.wire() + r
{
    hide(proposal1_f); hide(field_f); hide(number_f); hide(word); hide(number); hide(BasicLine::w1); hide(BasicLine::wire);
    if proposal_f(d) is Yes {
        lemma_tag_sound(d, seq![70u8, 65u8]);
        lemma_tag_sound(d, seq![70u8, 66u8]);
        let kind = if tag_s(d, seq![70u8, 65u8]) is Yes { 65u8 } else { 66u8 };
        let d1 = fa_fb_f(d)->Yes_0;
        assert(d == seq![70u8, kind] + d1);
        let m = lemma_s1(d1);
        let l = BasicLine { kind, ty: m.ty, from: m.from, at: m.at, to: m.to, id: m.id, size: m.size };
        lemma_w1_same(l, m);
        lemma_wire(l);
        assert(l.wf() && l.meaning() == proposal_f(d)->Yes_1);
        assert(d =~= l.wire() + proposal_f(d)->Yes_0);
    }
}
// a finished line gets a definite answer
proof fn lemma_sp_word_definite(d: Seq<u8>, n: int)
    requires has_cr(d), n >= 1
    ensures definite(spaced(d, field_p(n)))
{
    lemma_no_cr(); lemma_tag_definite(d, seq![32u8]);
    if space_f(d) is Yes { lemma_word_definite(space_f(d)->Yes_0, n); }
}
proof fn lemma_sp_number_definite(d: Seq<u8>)
    requires has_cr(d)
    ensures definite(spaced(d, number_p()))
{
    lemma_no_cr(); lemma_tag_definite(d, seq![32u8]);
    if space_f(d) is Yes { lemma_number_definite(space_f(d)->Yes_0); }
}
proof fn lemma_sp_addressee_definite(d: Seq<u8>)
    requires has_cr(d)
    ensures definite(spaced(d, addressee_p()))
{
    lemma_no_cr(); lemma_tag_definite(d, seq![32u8]);
    if space_f(d) is Yes {
        let q = space_f(d)->Yes_0;
        lemma_word_definite(q, 40);
        if field_f(q, 40) is Yes {
            let q2 = field_f(q, 40)->Yes_0;
            lemma_tag_definite(q2, seq![32u8]);
            if space_f(q2) is Yes { lemma_word_definite(space_f(q2)->Yes_0, 6); }
        }
    }
}
proof fn lemma_sp_type_definite(d: Seq<u8>)
    requires has_cr(d)
    ensures definite(spaced(d, type_p()))
{
    lemma_no_cr(); lemma_tag_definite(d, seq![32u8]);
    if space_f(d) is Yes {
        let q = space_f(d)->Yes_0;
        lemma_tag_definite(q, seq![80u8]); lemma_tag_definite(q, seq![66u8]); lemma_tag_definite(q, seq![84u8]);
    }
}
/// A line whose end has arrived is accepted or rejected, never left waiting.
proof fn property_c10_finished_line_is_decided(d: Seq<u8>)
    requires has_cr(d)
    ensures !(proposal_f(d) is More), !(proposal_f(d) is Stop)
{
    lemma_no_cr();
    lemma_tag_definite(d, seq![70u8, 65u8]); lemma_tag_definite(d, seq![70u8, 66u8]);
    if fa_fb_f(d) is Yes {
        let d1 = fa_fb_f(d)->Yes_0;
        lemma_sp_type_definite(d1);
        if spaced(d1, type_p()) is Yes {
            let (d2, ty) = (spaced(d1, type_p())->Yes_0, spaced(d1, type_p())->Yes_1);
            lemma_sp_word_definite(d2, 6);
            if spaced(d2, field_p(6)) is Yes {
                let (d3, from) = (spaced(d2, field_p(6))->Yes_0, spaced(d2, field_p(6))->Yes_1);
                lemma_sp_addressee_definite(d3);
                if spaced(d3, addressee_p()) is Yes {
                    let (d4, a) = (spaced(d3, addressee_p())->Yes_0, spaced(d3, addressee_p())->Yes_1);
                    lemma_sp_word_definite(d4, 12);
                    if spaced(d4, field_p(12)) is Yes {
                        let (d5, id) = (spaced(d4, field_p(12))->Yes_0, spaced(d4, field_p(12))->Yes_1);
                        lemma_sp_number_definite(d5);
                        if spaced(d5, number_p()) is Yes { lemma_cr_tag(spaced(d5, number_p())->Yes_0); }
                    }
                }
            }
        }
    }
}

// ---- C10: the extended proposal ----
pub struct ExtLine { pub from: Seq<u8>, pub at: Seq<u8>, pub to: Seq<u8> }
impl ExtLine {
    pub open spec fn wf(self) -> bool { word(self.from, 6) && word(self.at, 40) && word(self.to, 6) }
    pub open spec fn meaning(self) -> Ext { Ext { from: self.from, at: self.at, to: self.to } }
    pub open spec fn wire(self) -> Seq<u8> { sp(self.from) + (sp(self.at) + sp(self.to)) }
}
pub struct FcLine { pub id: Seq<u8>, pub size: Seq<u8>, pub compressed: Seq<u8>, pub ext: Option<ExtLine> }
impl FcLine {
    pub open spec fn wf(self) -> bool {
        word(self.id, 12) && number(self.size) && number(self.compressed) && (self.ext matches Some(x) ==> x.wf())
    }
    pub open spec fn ext_wire(self) -> Seq<u8> { match self.ext { Some(x) => x.wire(), None => Seq::<u8>::empty() } }
    pub open spec fn ext_meaning(self) -> Option<Ext> { match self.ext { Some(x) => Some(x.meaning()), None => None } }
    pub open spec fn w6(self) -> Seq<u8> { seq![13u8] }
    pub open spec fn w5(self) -> Seq<u8> { self.ext_wire() + self.w6() }
    pub open spec fn w4(self) -> Seq<u8> { sp(self.compressed) + self.w5() }
    pub open spec fn w3(self) -> Seq<u8> { sp(self.size) + self.w4() }
    pub open spec fn w2(self) -> Seq<u8> { sp(self.id) + self.w3() }
    pub open spec fn w1(self) -> Seq<u8> { sp(seq![69u8, 77u8]) + self.w2() }
    /// FC, EM, id, uncompressed size, compressed size, and sender, mailbox, recipient or nothing, end of line
    pub open spec fn wire(self) -> Seq<u8> {
        seq![70u8, 67u8] + sp(seq![69u8, 77u8]) + sp(self.id) + sp(self.size) + sp(self.compressed) + self.ext_wire() + seq![13u8]
    }
    pub open spec fn meaning(self) -> Fc { Fc { id: self.id, size: decimal(self.size) as u16, compressed: decimal(self.compressed) as u16, ext: self.ext_meaning() } }
}
proof fn lemma_ext_cut(l: ExtLine, tail: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.wire().len() + tail.len(), tail.len() > 0, !word_byte()(tail[0])
    ensures cut(l.wire(), tail, k, ext_f((l.wire() + tail).take(k)), l.meaning())
{
    let (t, j) = (sp(l.at) + sp(l.to) + tail, k - sp(l.from).len());
    assert(l.wire() + tail =~= sp(l.from) + t);
    lemma_sp_word(l.from, t, k, 6);
    lemma_empties();
    if j >= 0 { lemma_sp_addressee(l.at, l.to, tail, j); }
}
proof fn lemma_fc_wire(l: FcLine)
    ensures l.wire() =~= seq![70u8, 67u8] + (sp(seq![69u8, 77u8]) + (sp(l.id) + l.w3())), l.w1() =~= sp(seq![69u8, 77u8]) + (sp(l.id) + l.w3())
{}
proof fn lemma_fc_first5(l: FcLine)
    ensures l.w5().len() > 0, l.w5()[0] == 32u8 || l.w5()[0] == 13u8
{
    if let Some(x) = l.ext { assert(x.wire()[0] == 32u8); }
}
proof fn lemma_fc_first(l: FcLine)
    ensures l.w4()[0] == 32u8, l.w4().len() > 0, l.w3()[0] == 32u8, l.w3().len() > 0, l.w2()[0] == 32u8, l.w2().len() > 0
{}
proof fn lemma_f6(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w6().len() + rest.len()
    ensures reads(l.w6(), rest, k, fc6_f((l.w6() + rest).take(k), l.id, decimal(l.size) as u16, decimal(l.compressed) as u16, l.ext_meaning()), l.meaning())
{ lemma_tag_cut(seq![13u8], rest, k); }
proof fn lemma_f5(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w5().len() + rest.len()
    ensures reads(l.w5(), rest, k, fc5_f((l.w5() + rest).take(k), l.id, decimal(l.size) as u16, decimal(l.compressed) as u16), l.meaning())
{
    let d = (l.w5() + rest).take(k);
    lemma_empties();
    lemma_sign(d);
    match l.ext {
        Some(x) => {
            let (t, j) = (l.w6() + rest, k - x.wire().len());
            assert(l.w5() + rest =~= x.wire() + t);
            lemma_ext_cut(x, t, k);
            if j >= 0 { lemma_f6(l, rest, j); }
        }
        None => {
            assert(l.w5() + rest =~= l.w6() + rest);
            if k > 0 { assert(d[0] == 13u8); assert(ext_f(d) is No); lemma_f6(l, rest, k); } else { assert(d =~= Seq::<u8>::empty()); }
        }
    }
}
proof fn lemma_f4(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w4().len() + rest.len()
    ensures reads(l.w4(), rest, k, fc4_f((l.w4() + rest).take(k), l.id, decimal(l.size) as u16), l.meaning())
{
    hide(fc5_f); hide(FcLine::w5); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w5() + rest, k - sp(l.compressed).len());
    assert(l.w4() + rest =~= sp(l.compressed) + t);
    lemma_fc_first5(l);
    lemma_sp_number(l.compressed, t, k);
    lemma_empties();
    lemma_sign(Seq::<u8>::empty());
    if j >= 0 { lemma_f5(l, rest, j); }
}
proof fn lemma_f3(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w3().len() + rest.len()
    ensures reads(l.w3(), rest, k, fc3_f((l.w3() + rest).take(k), l.id), l.meaning())
{
    hide(fc4_f); hide(FcLine::w4); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w4() + rest, k - sp(l.size).len());
    lemma_fc_first(l);
    assert(l.w3() + rest =~= sp(l.size) + t);
    lemma_sp_number(l.size, t, k);
    lemma_empties();
    if j >= 0 { lemma_f4(l, rest, j); }
}
proof fn lemma_f2(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w2().len() + rest.len()
    ensures reads(l.w2(), rest, k, fc2_f((l.w2() + rest).take(k)), l.meaning())
{
    hide(fc3_f); hide(FcLine::w3); hide(word); hide(number); hide(field_f); hide(number_f);
    let (t, j) = (l.w3() + rest, k - sp(l.id).len());
    lemma_fc_first(l);
    assert(l.w2() + rest =~= sp(l.id) + t);
    lemma_sp_word(l.id, t, k, 12);
    lemma_empties();
    if j >= 0 { lemma_f3(l, rest, j); }
}
proof fn lemma_f1(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.w1().len() + rest.len()
    ensures reads(l.w1(), rest, k, fc1_f((l.w1() + rest).take(k)), l.meaning())
{
    hide(fc2_f); hide(FcLine::w2); hide(word); hide(number); hide(field_f); hide(number_f);
    let em = seq![69u8, 77u8];
    let (t, j) = (l.w2() + rest, k - 3);
    assert(l.w1() + rest =~= sp(em) + t);
    lemma_space(em, t, k);
    lemma_empties();
    if k > 0 { lemma_tag_cut(em, t, k - 1); }
    if j >= 0 { lemma_f2(l, rest, j); }
}
proof fn property_c10_extended_proposal_is_read(l: FcLine, rest: Seq<u8>, k: int)
    requires l.wf(), 0 <= k <= l.wire().len() + rest.len()
    ensures
        k >= l.wire().len() ==> fc_f((l.wire() + rest).take(k)) == Pr::Yes(rest.take(k - l.wire().len()), l.meaning()),
        k < l.wire().len() ==> fc_f((l.wire() + rest).take(k)) is More,
{
    hide(fc1_f); hide(field_f); hide(number_f); hide(word); hide(number); hide(FcLine::w1); hide(FcLine::wire);
    let t = l.w1() + rest;
    lemma_fc_wire(l);
    assert(l.wire() + rest =~= seq![70u8, 67u8] + t);
    lemma_tag_cut(seq![70u8, 67u8], t, k);
    lemma_empties();
    if k >= 2 { lemma_f1(l, rest, k - 2); }
}
proof fn lemma_ext_sound(d: Seq<u8>)
    ensures ext_f(d) matches Pr::Yes(r, e) ==> exists|l: ExtLine| l.wf() && #[trigger] l.meaning() == e && d == l.wire() + r
{
    if ext_f(d) is Yes {
        lemma_sp_word_sound(d, 6);
        let (d1, from) = (spaced(d, field_p(6))->Yes_0, spaced(d, field_p(6))->Yes_1);
        lemma_sp_addressee_sound(d1);
        let (d2, a) = (spaced(d1, addressee_p())->Yes_0, spaced(d1, addressee_p())->Yes_1);
        let l = ExtLine { from, at: a.0, to: a.1 };
        assert(l.wf() && l.meaning() == ext_f(d)->Yes_1);
        assert(d =~= l.wire() + d2);
    }
}
proof fn lemma_e5(d: Seq<u8>, id: Seq<u8>, size: u16, compressed: u16) -> (ext: Option<ExtLine>)
    ensures fc5_f(d, id, size, compressed) matches Pr::Yes(r, p) ==> {
        let l = FcLine { id, size: id, compressed: id, ext };
        (ext matches Some(x) ==> x.wf()) && p == (Fc { id, size, compressed, ext: l.ext_meaning() }) && d == l.ext_wire() + seq![13u8] + r
    }
{
    if fc5_f(d, id, size, compressed) is Yes {
        lemma_ext_sound(d);
        let q = opt_ext_f(d)->Yes_0;
        let x = choose|l: ExtLine| l.wf() && #[trigger] l.meaning() == ext_f(d)->Yes_1 && d == l.wire() + q;
        let ext = if ext_f(d) is Yes { Some(x) } else { None };
        lemma_tag_sound(q, seq![13u8]);
        let l = FcLine { id, size: id, compressed: id, ext };
        assert(d =~= l.ext_wire() + q);
        let r = fc5_f(d, id, size, compressed)->Yes_0;
        assert(q == seq![13u8] + r);
        assert(d =~= l.ext_wire() + seq![13u8] + r);
        ext
    } else { None }
}
proof fn lemma_e3(d: Seq<u8>, id: Seq<u8>) -> (l: FcLine)
    ensures fc3_f(d, id) matches Pr::Yes(r, p) ==> l.id == id && number(l.size) && number(l.compressed) && (l.ext matches Some(x) ==> x.wf()) && p == l.meaning() && d == l.w3() + r
{
    if fc3_f(d, id) is Yes {
        lemma_sp_number_sound(d);
        let (q, v) = (spaced(d, number_p())->Yes_0, spaced(d, number_p())->Yes_1);
        let size = choose|t: Seq<u8>| #[trigger] number(t) && v == decimal(t) && d == sp(t) + q;
        lemma_sp_number_sound(q);
        let (q2, w) = (spaced(q, number_p())->Yes_0, spaced(q, number_p())->Yes_1);
        let compressed = choose|t: Seq<u8>| #[trigger] number(t) && w == decimal(t) && q == sp(t) + q2;
        let ext = lemma_e5(q2, id, v, w);
        let l = FcLine { id, size, compressed, ext };
        let m = FcLine { id, size: id, compressed: id, ext };
        assert(l.ext_wire() == m.ext_wire() && l.ext_meaning() == m.ext_meaning());
        let r = fc3_f(d, id)->Yes_0;
        assert(d =~= l.w3() + r);
        l
    } else { FcLine { id, size: d, compressed: d, ext: None } }
}
proof fn property_c10_only_extended_proposals(d: Seq<u8>)
    ensures fc_f(d) matches Pr::Yes(r, p) ==> exists|l: FcLine| l.wf() && #[trigger] l.meaning() == p && d == l.wire() + r
{
    hide(fc3_f); hide(field_f); hide(number_f); hide(word); hide(number); hide(FcLine::w3); hide(FcLine::wire);
    if fc_f(d) is Yes {
        let em = seq![69u8, 77u8];
        lemma_tag_sound(d, seq![70u8, 67u8]);
        let d1 = tag_s(d, seq![70u8, 67u8])->Yes_0;
        lemma_space_sound(d1);
        let e1 = space_f(d1)->Yes_0;
        lemma_tag_sound(e1, em);
        let d2 = spaced(d1, em_p())->Yes_0;
        assert(d1 =~= sp(em) + d2);
        lemma_sp_word_sound(d2, 12);
        let (d3, id) = (spaced(d2, field_p(12))->Yes_0, spaced(d2, field_p(12))->Yes_1);
        let l = lemma_e3(d3, id);
        let r = fc_f(d)->Yes_0;
        lemma_fc_wire(l);
        assert(l.wf() && l.meaning() == fc_f(d)->Yes_1);
        assert(d =~= l.wire() + r);
    }
}
proof fn lemma_ext_definite(d: Seq<u8>)
    requires has_cr(d)
    ensures definite(ext_f(d)), definite(opt_ext_f(d))
{
    lemma_sp_word_definite(d, 6);
    if spaced(d, field_p(6)) is Yes { lemma_sp_addressee_definite(spaced(d, field_p(6))->Yes_0); }
}
proof fn lemma_fc3_definite(d3: Seq<u8>, id: Seq<u8>)
    requires has_cr(d3)
    ensures !(fc3_f(d3, id) is More), !(fc3_f(d3, id) is Stop)
{
    lemma_sp_number_definite(d3);
    if spaced(d3, number_p()) is Yes {
        let d4 = spaced(d3, number_p())->Yes_0;
        lemma_sp_number_definite(d4);
        if spaced(d4, number_p()) is Yes {
            let d5 = spaced(d4, number_p())->Yes_0;
            lemma_ext_definite(d5);
            lemma_cr_tag(opt_ext_f(d5)->Yes_0);
        }
    }
}
proof fn property_c10_finished_extended_line_is_decided(d: Seq<u8>)
    requires has_cr(d)
    ensures !(fc_f(d) is More), !(fc_f(d) is Stop)
{
    let em = seq![69u8, 77u8];
    lemma_no_cr();
    lemma_tag_definite(d, seq![70u8, 67u8]);
    if tag_s(d, seq![70u8, 67u8]) is Yes {
        let d1 = tag_s(d, seq![70u8, 67u8])->Yes_0;
        lemma_tag_definite(d1, seq![32u8]);
        if space_f(d1) is Yes {
            let e1 = space_f(d1)->Yes_0;
            lemma_tag_definite(e1, em);
            if tag_s(e1, em) is Yes {
                let d2 = tag_s(e1, em)->Yes_0;
                lemma_sp_word_definite(d2, 12);
                if spaced(d2, field_p(12)) is Yes { lemma_fc3_definite(spaced(d2, field_p(12))->Yes_0, spaced(d2, field_p(12))->Yes_1); }
            }
        }
    }
}

