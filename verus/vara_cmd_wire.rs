// ---- C13: what a line says, read from the line alone ----
/// a line cut at every space
pub open spec fn words(t: Seq<char>) -> Seq<Word>
    decreases t.len()
{
    if t.len() == 0 { seq![Seq::<char>::empty()] }
    else {
        let w = words(t.drop_first());
        if t[0] == ' ' { seq![Seq::<char>::empty()] + w } else { seq![seq![t[0]] + w[0]] + w.drop_first() }
    }
}
pub open spec fn one_word(w: Word) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != ' ' && w[i] != '\r' }
/// identifiers are single words (C12: letters and digits)
pub open spec fn named(c: Cmd) -> bool {
    match c {
        Cmd::Connect(a, b, p) => one_word(a) && one_word(b) && match p { Path::Direct => true, Path::One(x) => one_word(x), Path::Two(x, y) => one_word(x) && one_word(y) },
        Cmd::SetCall(v) => v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> one_word(#[trigger] v[i]),
        _ => true,
    }
}
proof fn lemma_words_some(t: Seq<char>)
    ensures words(t).len() > 0
    decreases t.len()
{
    if t.len() > 0 { lemma_words_some(t.drop_first()); }
}
proof fn lemma_words_one(w: Word)
    requires one_word(w)
    ensures words(w) == seq![w]
    decreases w.len()
{
    if w.len() > 0 {
        assert(forall|i: int| 0 <= i < w.drop_first().len() ==> w.drop_first()[i] == w[i + 1]);
        lemma_words_one(w.drop_first());
        assert(seq![w[0]] + w.drop_first() =~= w);
        assert(words(w) =~= seq![w]);
    } else {
        assert(w =~= Seq::<char>::empty());
    }
}
proof fn lemma_words_first(w: Word, t: Seq<char>)
    requires one_word(w)
    ensures words(w + seq![' '] + t) == seq![w] + words(t)
    decreases w.len()
{
    let l = w + seq![' '] + t;
    if w.len() > 0 {
        assert(l.drop_first() =~= w.drop_first() + seq![' '] + t);
        assert(forall|i: int| 0 <= i < w.drop_first().len() ==> w.drop_first()[i] == w[i + 1]);
        lemma_words_first(w.drop_first(), t);
        let r = words(l.drop_first());
        assert(r == seq![w.drop_first()] + words(t));
        assert(r.drop_first() =~= words(t));
        assert(l[0] == w[0]);
        assert(seq![w[0]] + r[0] =~= w);
        assert(words(l) =~= seq![w] + words(t));
    } else {
        assert(l[0] == ' ');
        assert(l.drop_first() =~= t);
        assert(words(l) == seq![Seq::<char>::empty()] + words(t));
        assert(w =~= Seq::<char>::empty());
    }
}
proof fn lemma_words_of_spaced(ws: Seq<Word>)
    requires ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> one_word(#[trigger] ws[i])
    ensures words(spaced(ws).skip(1)) == ws
    decreases ws.len()
{
    let r = ws.drop_first();
    assert(spaced(ws) == seq![' '] + ws[0] + spaced(r));
    assert(spaced(ws).skip(1) =~= ws[0] + spaced(r));
    if r.len() == 0 {
        assert(spaced(ws).skip(1) =~= ws[0]);
        lemma_words_one(ws[0]);
        assert(ws =~= seq![ws[0]]);
    } else {
        assert(forall|i: int| 0 <= i < r.len() ==> r[i] == ws[i + 1]);
        lemma_words_of_spaced(r);
        let t = spaced(r).skip(1);
        assert(spaced(r) == seq![' '] + r[0] + spaced(r.drop_first()));
        assert(spaced(r) =~= seq![' '] + t);
        assert(ws[0] + spaced(r) =~= ws[0] + seq![' '] + t);
        lemma_words_first(ws[0], t);
        assert(seq![ws[0]] + r =~= ws);
    }
}
proof fn lemma_one_words(c: Cmd)
    requires named(c)
    ensures words_of(c).len() > 0, forall|i: int| 0 <= i < words_of(c).len() ==> one_word(#[trigger] words_of(c)[i])
{
    let w = words_of(c);
    match c {
        Cmd::SetCall(v) => { assert(forall|i: int| 1 <= i < w.len() ==> w[i] == v[i - 1]); assert(one_word(w[0])); }
        Cmd::Connect(a, b, p) => {
            assert(w.len() == 3 + via_words(p).len());
            assert(w[0] == seq!['C', 'O', 'N', 'N', 'E', 'C', 'T'] && w[1] == a && w[2] == b);
            match p {
                Path::Direct => {}
                Path::One(x) => { assert(w[3] == seq!['v', 'i', 'a'] && w[4] == x); }
                Path::Two(x, y) => { assert(w[3] == seq!['v', 'i', 'a'] && w[4] == x && w[5] == y); }
            }
        }
        _ => {}
    }
}
/// the space-separated words of the line are the command word and its arguments, in order
proof fn property_c13_words(c: &Command, t: Text)
    requires named(c.cmd()), t@ == line_of(c.cmd())
    ensures words(t@) == words_of(c.cmd())
{
    lemma_one_words(c.cmd());
    lemma_words_of_spaced(words_of(c.cmd()));
}
/// and it is one line
proof fn property_c13_one_line(c: &Command, i: int)
    requires named(c.cmd()), 0 <= i < line_of(c.cmd()).len()
    ensures line_of(c.cmd())[i] != '\r'
{
    lemma_one_words(c.cmd());
    lemma_no_cr(words_of(c.cmd()));
    assert(line_of(c.cmd())[i] == spaced(words_of(c.cmd()))[i + 1]);
}
proof fn lemma_no_cr(ws: Seq<Word>)
    requires forall|i: int| 0 <= i < ws.len() ==> one_word(#[trigger] ws[i])
    ensures forall|i: int| 0 <= i < spaced(ws).len() ==> #[trigger] spaced(ws)[i] != '\r'
    decreases ws.len()
{
    if ws.len() > 0 {
        let r = ws.drop_first();
        assert(forall|i: int| 0 <= i < r.len() ==> r[i] == ws[i + 1]);
        lemma_no_cr(r);
        let s = spaced(ws);
        let w0 = ws[0];
        assert(s == seq![' '] + w0 + spaced(r));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\r' by {
            if i > 0 && i <= w0.len() { assert(s[i] == w0[i - 1]); }
            if i > w0.len() { assert(s[i] == spaced(r)[i - 1 - w0.len()]); }
        }
    }
}
/// distinct commands have distinct lines
proof fn property_c13_distinct(a: &Command, b: &Command)
    requires named(a.cmd()), named(b.cmd()), line_of(a.cmd()) == line_of(b.cmd())
    ensures a.cmd() == b.cmd()
{
    lemma_one_words(a.cmd());
    lemma_words_of_spaced(words_of(a.cmd()));
    lemma_one_words(b.cmd());
    lemma_words_of_spaced(words_of(b.cmd()));
    lemma_words_of_distinct(a.cmd(), b.cmd());
}
proof fn lemma_words_of_distinct(a: Cmd, b: Cmd)
    requires words_of(a) == words_of(b)
    ensures a == b
{
    let (w, x) = (words_of(a), words_of(b));
    // the command words differ in their length or in their first or second letter
    assert(w[0].len() == x[0].len() && w[0][0] == x[0][0] && w[0][1] == x[0][1]);
    assert(w.len() == x.len());
    match a {
        Cmd::Listen(m) => {
            assert(w[0][0] == 'L');
            assert(b is Listen);
            assert(w[1] == x[1] && w[1].len() == x[1].len() && w[1][1] == x[1][1]);
        }
        Cmd::Connect(p, q, v) => {
            assert(w[0][0] == 'C' && w[0].len() == 7);
            assert(b is Connect);
            let c = b->Connect_2;
            assert(w.len() == 3 + via_words(v).len() && x.len() == 3 + via_words(c).len());
            assert(w[1] == p && w[2] == q && x[1] == b->Connect_0 && x[2] == b->Connect_1);
            match v {
                Path::Direct => { assert(c is Direct); }
                Path::One(e) => { assert(c is One); assert(w[4] == e && x[4] == c->One_0); }
                Path::Two(e, f) => { assert(c is Two); assert(w[4] == e && x[4] == c->Two_0 && w[5] == f && x[5] == c->Two_1); }
            }
        }
        Cmd::Disconnect => { assert(w[0][0] == 'D'); }
        Cmd::Abort => { assert(w[0][0] == 'A'); }
        Cmd::SetCall(v) => {
            assert(w[0][0] == 'M');
            assert(b is SetCall);
            assert(w.drop_first() =~= v);
            assert(x.drop_first() =~= b->SetCall_0);
        }
        Cmd::SetCompression(m) => {
            assert(w[0][0] == 'C' && w[0].len() == 11);
            assert(b is SetCompression);
            assert(w[1] == x[1] && w[1].len() == x[1].len() && w[1][0] == x[1][0]);
        }
        Cmd::SetBandwidth(m) => {
            assert(w[0][0] == 'B');
            assert(b is SetBandwidth);
            assert(w[0][2] == x[0][2] && w[0][3] == x[0][3] && w[0].len() == x[0].len());
        }
    }
}
