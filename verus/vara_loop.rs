// ---- the session loop: channels and the socket, as contracts (assumed) ----
/// oneshot::Sender<CommandResult>: `answer` is what will ever be sent through it (sending consumes it)
#[verifier::external_body] pub struct Reply { x: u8 }
impl Reply {
    pub uninterp spec fn answer(&self) -> Option<CommandResult>;
    #[verifier::external_body]
    fn send(self, r: CommandResult) -> (ret: Result<(), CommandResult>) ensures self.answer() == Some(r) { unimplemented!() }
}
/// mpsc::Receiver<(Command, Reply)>: what has been taken from it, in order
#[verifier::external_body] pub struct Orders { x: u8 }
impl Orders {
    pub uninterp spec fn taken(&self) -> Seq<(Command, Reply)>;
    pub uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    fn recv(&mut self) -> (ret: Option<(Command, Reply)>)
        ensures match ret {
            Some(c) => final(self).taken() == old(self).taken().push(c) && final(self).ended() == old(self).ended(),
            None => final(self).taken() == old(self).taken() && final(self).ended(),
        }
    { unimplemented!() }
}
/// VecDeque
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Queue<T> { x: Vec<T> }
impl<T> View for Queue<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Queue<T> {
    #[verifier::external_body]
    fn new() -> (ret: Queue<T>) ensures ret@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (ret: Queue<T>) ensures ret@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (ret: usize) ensures ret == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (ret: bool) ensures ret == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (ret: Option<T>)
        ensures match ret { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_back(&mut self) -> (ret: Option<T>)
        ensures match ret { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
/// s is what there was and some beginning of b
pub open spec fn grown(was: Seq<u8>, b: Seq<u8>, s: Seq<u8>) -> bool { exists|k: int| 0 <= k <= b.len() && s == was + #[trigger] b.take(k) }
pub open spec fn only_sent(a: &TcpStream, b: &TcpStream) -> bool { a.received() == b.received() && a.ended() == b.ended() }
impl TcpStream {
    #[verifier::external_body]
    fn readable(&self) -> (ret: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn writable(&self) -> (ret: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (ret: Result<(), IoError>)
        ensures only_sent(old(self), final(self)), ret is Ok ==> final(self).sent() == old(self).sent() + b@, ret is Err ==> grown(old(self).sent(), b@, final(self).sent())
    { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (ret: Result<usize, IoError>)
        ensures only_sent(old(self), final(self)), match ret { Ok(n) => n <= b@.len() && final(self).sent() == old(self).sent() + b@.take(n as int), Err(_) => final(self).sent() == old(self).sent() }
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (ret: Result<(), IoError>) ensures only_sent(old(self), final(self)), final(self).sent() == old(self).sent() { unimplemented!() }
}
// ---- C13: commands on the wire ----
pub open spec fn on_wire(o: (Command, Reply)) -> Seq<u8> { utf8_of(line_of(o.0.cmd()) + seq!['\r']) }
pub open spec fn all_on_wire(c: Seq<(Command, Reply)>) -> Seq<u8>
    decreases c.len()
{
    if c.len() == 0 { Seq::<u8>::empty() } else { all_on_wire(c.drop_last()) + on_wire(c.last()) }
}
/// sent is exactly the lines of these orders, or a part of them if the connection failed during the last one
pub open spec fn part_sent(was: Seq<u8>, c: Seq<(Command, Reply)>, s: Seq<u8>) -> bool {
    s == was + all_on_wire(c) || (c.len() > 0 && grown(was + all_on_wire(c.drop_last()), on_wire(c.last()), s))
}
pub open spec fn since(was: Seq<(Command, Reply)>, now: Seq<(Command, Reply)>) -> Seq<(Command, Reply)> { now.skip(was.len() as int) }
proof fn lemma_since(was: Seq<(Command, Reply)>, now: Seq<(Command, Reply)>, c: (Command, Reply), s: Seq<u8>)
    requires now == was + since(was, now)
    ensures
        since(was, now.push(c)) == since(was, now).push(c), now.push(c) == was + since(was, now.push(c)),
        all_on_wire(since(was, now.push(c))) == all_on_wire(since(was, now)) + on_wire(c),
        since(was, now.push(c)).drop_last() == since(was, now), since(was, now.push(c)).last() == c,
        s + (all_on_wire(since(was, now)) + on_wire(c)) == s + all_on_wire(since(was, now)) + on_wire(c),
{
    let o = since(was, now);
    assert(since(was, now.push(c)) =~= o.push(c));
    assert(now.push(c) =~= was + o.push(c));
    assert(o.push(c).drop_last() =~= o);
    assert(s + (all_on_wire(o) + on_wire(c)) =~= s + all_on_wire(o) + on_wire(c));
}
proof fn lemma_since_none(was: Seq<(Command, Reply)>, s: Seq<u8>)
    ensures since(was, was) == Seq::<(Command, Reply)>::empty(), was == was + since(was, was), s + all_on_wire(since(was, was)) == s
{
    assert(since(was, was) =~= Seq::<(Command, Reply)>::empty());
    assert(was =~= was + Seq::<(Command, Reply)>::empty());
    assert(s + Seq::<u8>::empty() =~= s);
}
/// a line may be written in two parts
proof fn lemma_two_writes(s: Seq<u8>, o: (Command, Reply))
    ensures
        ({
            let l = utf8_of(line_of(o.0.cmd()));
            &&& on_wire(o) == l + seq![13u8] && s + on_wire(o) == s + l + seq![13u8]
            &&& forall|t: Seq<u8>| #[trigger] grown(s, l, t) ==> grown(s, on_wire(o), t)
            &&& forall|t: Seq<u8>| #[trigger] grown(s + l, seq![13u8], t) ==> grown(s, on_wire(o), t)
            &&& grown(s, on_wire(o), s + l)
            &&& [13u8]@ == seq![13u8]
        })
{
    let l = utf8_of(line_of(o.0.cmd()));
    axiom_utf8_concat(line_of(o.0.cmd()), seq!['\r']);
    axiom_plain(seq!['\r']);
    assert(utf8_of(seq!['\r']) =~= seq![13u8]);
    assert([13u8]@ =~= seq![13u8]);
    assert(s + (l + seq![13u8]) =~= s + l + seq![13u8]);
    let b = on_wire(o);
    assert forall|t: Seq<u8>| #[trigger] grown(s, l, t) implies grown(s, b, t) by {
        let k = choose|k: int| 0 <= k <= l.len() && t == s + #[trigger] l.take(k);
        assert(b.take(k) =~= l.take(k));
    }
    assert forall|t: Seq<u8>| #[trigger] grown(s + l, seq![13u8], t) implies grown(s, b, t) by {
        let k = choose|k: int| 0 <= k <= 1 && t == s + l + #[trigger] seq![13u8].take(k);
        assert(s + b.take(l.len() + k) =~= s + l + seq![13u8].take(k));
    }
    assert(b.take(l.len() as int) =~= l);
}
proof fn lemma_cr() ensures "\r"@ == seq!['\r'] { reveal_strlit("\r"); assert("\r"@ =~= seq!['\r']); }

// ---- C16: whose reply is it ----
/// what happens in a session, in order: a command is handed over, a result arrives
pub enum Event { Order((Command, Reply)), Result(CommandResult) }
/// commands still without a reply, oldest first, and the replies given
pub struct Desk { pub owed: Seq<Reply>, pub given: Seq<(Reply, CommandResult)> }
/// a result goes to the oldest command without one
pub open spec fn desk(ev: Seq<Event>) -> Desk
    decreases ev.len()
{
    if ev.len() == 0 { Desk { owed: Seq::<Reply>::empty(), given: Seq::<(Reply, CommandResult)>::empty() } }
    else {
        let d = desk(ev.drop_last());
        match ev.last() {
            Event::Order(o) => Desk { owed: d.owed.push(o.1), ..d },
            Event::Result(r) => if d.owed.len() == 0 { d } else { Desk { owed: d.owed.drop_first(), given: d.given.push((d.owed[0], r)) } },
        }
    }
}
pub open spec fn orders_of(ev: Seq<Event>) -> Seq<(Command, Reply)>
    decreases ev.len()
{
    if ev.len() == 0 { Seq::<(Command, Reply)>::empty() }
    else { match ev.last() { Event::Order(o) => orders_of(ev.drop_last()).push(o), Event::Result(_) => orders_of(ev.drop_last()) } }
}
pub open spec fn results_of(ev: Seq<Event>) -> Seq<CommandResult>
    decreases ev.len()
{
    if ev.len() == 0 { Seq::<CommandResult>::empty() }
    else { match ev.last() { Event::Order(_) => results_of(ev.drop_last()), Event::Result(r) => results_of(ev.drop_last()).push(r) } }
}
pub open spec fn kept(given: Seq<(Reply, CommandResult)>) -> bool { forall|i: int| 0 <= i < given.len() ==> (#[trigger] given[i]).0.answer() == Some(given[i].1) }
proof fn lemma_event(ev: Seq<Event>, e: Event)
    ensures
        desk(ev.push(e)) == (match e {
            Event::Order(o) => Desk { owed: desk(ev).owed.push(o.1), ..desk(ev) },
            Event::Result(r) => if desk(ev).owed.len() == 0 { desk(ev) } else { Desk { owed: desk(ev).owed.drop_first(), given: desk(ev).given.push((desk(ev).owed[0], r)) } },
        }),
        orders_of(ev.push(e)) == (match e { Event::Order(o) => orders_of(ev).push(o), Event::Result(_) => orders_of(ev) }),
        results_of(ev.push(e)) == (match e { Event::Order(_) => results_of(ev), Event::Result(r) => results_of(ev).push(r) }),
{
    assert(ev.push(e).drop_last() =~= ev);
}
pub open spec fn arrive(ev: Seq<Event>, r: Seq<CommandResult>) -> Seq<Event>
    decreases r.len()
{
    if r.len() == 0 { ev } else { arrive(ev, r.drop_last()).push(Event::Result(r.last())) }
}
proof fn lemma_arrive(ev: Seq<Event>, r: Seq<CommandResult>)
    ensures orders_of(arrive(ev, r)) == orders_of(ev), results_of(arrive(ev, r)) == results_of(ev) + r
    decreases r.len()
{
    if r.len() == 0 {
        assert(results_of(ev) + r =~= results_of(ev));
    } else {
        lemma_arrive(ev, r.drop_last());
        lemma_event(arrive(ev, r.drop_last()), Event::Result(r.last()));
        assert(results_of(ev) + r.drop_last().push(r.last()) =~= (results_of(ev) + r.drop_last()).push(r.last()));
        assert(r.drop_last().push(r.last()) =~= r);
    }
}
proof fn lemma_arrive_push(ev: Seq<Event>, r: Seq<CommandResult>, x: CommandResult)
    ensures arrive(ev, r.push(x)) == arrive(ev, r).push(Event::Result(x))
{
    assert(r.push(x).drop_last() =~= r);
}
/// the session so far, as one history: what was published and answered is what everything received says
pub open spec fn served(ev: Seq<Event>, orders: Seq<(Command, Reply)>, before: Heard, after: Heard, got: Seq<u8>) -> bool {
    &&& orders_of(ev) == orders
    &&& after == hear_all(before, feed(got).said)
    &&& results_of(ev) == after.acks
    &&& kept(desk(ev).given)
}
pub open spec fn news(was: Seq<u8>, now: Seq<u8>) -> Seq<u8> { now.skip(was.len() as int) }
proof fn lemma_acks_prefix(h: Heard, p: Seq<CommandResult>, s: Seq<Said>)
    ensures hear_all(Heard { acks: p + h.acks, ..h }, s) == (Heard { acks: p + hear_all(h, s).acks, ..hear_all(h, s) })
    decreases s.len()
{
    if s.len() > 0 {
        let (a, b) = (hear(Heard { acks: p + h.acks, ..h }, s[0]), hear(h, s[0]));
        assert(a.acks =~= p + b.acks);
        assert(a == (Heard { acks: p + b.acks, ..b }));
        lemma_acks_prefix(b, p, s.drop_first());
    }
}
proof fn lemma_hear_all_concat(h: Heard, s: Seq<Said>, t: Seq<Said>)
    ensures hear_all(h, s + t) == hear_all(hear_all(h, s), t)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s + t =~= t);
    } else {
        assert((s + t).drop_first() =~= s.drop_first() + t);
        lemma_hear_all_concat(hear(h, s[0]), s.drop_first(), t);
    }
}
/// one more read: what it says follows on what was said before
/// (h: everything so far; a, b: what do_a_thing saw before and after, with no results collected before)
proof fn lemma_more(h0: Heard, h: Heard, a: Heard, b: Heard, got: Seq<u8>, c: Seq<u8>)
    requires
        h == hear_all(h0, feed(got).said), feed(got).ok,
        a == (Heard { acks: Seq::<CommandResult>::empty(), ..h }),
        b == hear_all(a, feed(feed(got).rest + c).said),
    ensures
        (Heard { acks: h.acks + b.acks, ..b }) == hear_all(h0, feed(got + c).said),
        feed(got + c).ok == feed(feed(got).rest + c).ok,
        feed(got + c).rest == feed(feed(got).rest + c).rest,
{
    lemma_feed_more(got, c);
    let g = feed(feed(got).rest + c);
    lemma_hear_all_concat(h0, feed(got).said, g.said);
    assert(h.acks + a.acks =~= h.acks);
    lemma_acks_prefix(a, h.acks, g.said);
    assert(h == (Heard { acks: h.acks + a.acks, ..a }));
}
