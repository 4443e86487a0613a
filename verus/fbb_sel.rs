// answers
pub enum Sign { Accept, From, Defer, Reject, None }
pub open spec fn sign(b: u8) -> Sign {
    if b == 0x2b || b == 0x59 || b == 0x48 { Sign::Accept }        // + Y H
    else if b == 0x21 || b == 0x41 { Sign::From }                   // ! A
    else if b == 0x3d || b == 0x4c { Sign::Defer }                  // = L
    else if b == 0x2d || b == 0x4e || b == 0x52 || b == 0x45 { Sign::Reject } // - N R E
    else { Sign::None }
}
pub open spec fn element_f(d: Seq<u8>) -> Pr<MessageChoice> {
    if d.len() == 0 { Pr::More(1) } else {
        let r = d.skip(1);
        match sign(d[0]) {
            Sign::Accept => Pr::Yes(r, MessageChoice::Accept { offset: 0 }),
            Sign::From => then(number_f(r), |q: Seq<u8>, v: u16| Pr::Yes(q, MessageChoice::Accept { offset: v })),
            Sign::Defer => Pr::Yes(r, MessageChoice::Defer),
            Sign::Reject => Pr::Yes(r, MessageChoice::Reject),
            Sign::None => Pr::No,
        }
    }
}
pub open spec fn pre(a: Seq<MessageChoice>, p: Pr<Seq<MessageChoice>>) -> Pr<Seq<MessageChoice>> {
    match p { Pr::Yes(r, b) => Pr::Yes(r, a + b), Pr::More(n) => Pr::More(n), Pr::No => Pr::No, Pr::Stop => Pr::Stop }
}
pub open spec fn elements_f(d: Seq<u8>, n: nat) -> Pr<Seq<MessageChoice>>
    decreases n
{
    if n == 0 { Pr::Yes(d, Seq::<MessageChoice>::empty()) } else {
        match element_f(d) {
            Pr::Yes(r, c) => pre(seq![c], elements_f(r, (n - 1) as nat)),
            Pr::More(k) => Pr::More(k), Pr::No => Pr::No, Pr::Stop => Pr::Stop,
        }
    }
}
pub open spec fn selection_f(d: Seq<u8>, n: nat) -> Pr<Seq<MessageChoice>> {
    then(tag_s(d, seq![70u8, 83u8]), |r: Seq<u8>, t: Seq<u8>| then(space_f(r), |q: Seq<u8>, u: Seq<u8>| elements_f(q, n)))
}
proof fn lemma_pre_none(p: Pr<Seq<MessageChoice>>)
    ensures pre(Seq::<MessageChoice>::empty(), p) == p
{
    if p is Yes { assert(Seq::<MessageChoice>::empty() + p->Yes_1 =~= p->Yes_1); }
}
proof fn lemma_pre_end(v: Seq<MessageChoice>, d: Seq<u8>)
    ensures pre(v.take(v.len() as int), elements_f(d, 0)) == Pr::Yes(d, v)
{
    assert(v.take(v.len() as int) + Seq::<MessageChoice>::empty() =~= v);
}
proof fn lemma_elements_step(d: Seq<u8>, n: nat)
    requires n > 0
    ensures
        forall|v: Seq<MessageChoice>| element_f(d) is Yes ==> #[trigger] pre(v, elements_f(d, n)) == pre(v.push(element_f(d)->Yes_1), elements_f(element_f(d)->Yes_0, (n - 1) as nat)),
        forall|v: Seq<MessageChoice>| !(element_f(d) is Yes) ==> #[trigger] pre(v, elements_f(d, n)) == elements_f(d, n),
        element_f(d) is No ==> elements_f(d, n) is No,
        element_f(d) is Stop ==> elements_f(d, n) is Stop,
        element_f(d) is More ==> elements_f(d, n) == Pr::<Seq<MessageChoice>>::More(element_f(d)->More_0),
{
    if element_f(d) is Yes {
        let (r, c) = (element_f(d)->Yes_0, element_f(d)->Yes_1);
        let e = elements_f(r, (n - 1) as nat);
        assert forall|v: Seq<MessageChoice>| #[trigger] pre(v, elements_f(d, n)) == pre(v.push(c), e) by {
            if e is Yes { assert(v + (seq![c] + e->Yes_1) =~= v.push(c) + e->Yes_1); }
        }
    }
}
