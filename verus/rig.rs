// ---- the radio's control port ----
/// mpsc::Receiver<Command>: the orders taken from it, in order
#[verifier::external_body] pub struct Orders { x: u8 }
impl Orders {
    pub uninterp spec fn taken(&self) -> Seq<Command>;
    pub uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    fn recv(&mut self) -> (ret: Option<Command>)
        ensures match ret {
            Some(c) => final(self).taken() == old(self).taken().push(c) && final(self).ended() == old(self).ended(),
            None => final(self).taken() == old(self).taken() && final(self).ended(),
        }
    { unimplemented!() }
}
/// the serial port: what has been written to it
#[verifier::external_body] pub struct Port { x: u8 }
/// s is what there was and some beginning of b
pub open spec fn grown(was: Seq<u8>, b: Seq<u8>, s: Seq<u8>) -> bool { exists|k: int| 0 <= k <= b.len() && s == was + #[trigger] b.take(k) }
impl Port {
    pub uninterp spec fn sent(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (ret: Result<(), IoError>)
        ensures ret is Ok ==> final(self).sent() == old(self).sent() + b@, ret is Err ==> grown(old(self).sent(), b@, final(self).sent())
    { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (ret: Result<usize, IoError>)
        ensures match ret { Ok(n) => n <= b@.len() && final(self).sent() == old(self).sent() + b@.take(n as int), Err(_) => final(self).sent() == old(self).sent() }
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (ret: Result<(), IoError>) ensures final(self).sent() == old(self).sent() { unimplemented!() }
    #[verifier::external_body]
    fn read_buf(&mut self, buf: &mut BytesMut) -> (ret: Result<usize, IoError>)
        ensures final(self).sent() == old(self).sent()
    { unimplemented!() }
}
impl PErr {
    fn to_owned(self) -> (ret: PErr) ensures ret == self { self }
}
/// a complete frame and what follows it
pub open spec fn frame_f(d: Seq<u8>) -> Pr<Seq<u8>> { then(until1_s(d, 59), |r: Seq<u8>, l: Seq<u8>| then(tag_s(r, seq![59u8]), |q: Seq<u8>, t: Seq<u8>| Pr::Yes(q, l))) }

// ---- C17: orders as frames ----
/// TX; to transmit, RX; to receive
pub open spec fn code(t: TransmitState) -> Seq<char> { match t { TransmitState::Transmit => seq!['T', 'X'], TransmitState::Receive => seq!['R', 'X'] } }
pub open spec fn frame(c: Command) -> Seq<u8> {
    match c { Command::SetTransmitState(t) => match t { TransmitState::Transmit => seq![84u8, 88u8, 59u8], TransmitState::Receive => seq![82u8, 88u8, 59u8] } }
}
pub open spec fn frames(c: Seq<Command>) -> Seq<u8>
    decreases c.len()
{
    if c.len() == 0 { Seq::<u8>::empty() } else { frames(c.drop_last()) + frame(c.last()) }
}
proof fn lemma_frame(c: Command, t: Seq<char>)
    requires t == code(c->SetTransmitState_0).push(';') || t == code(c->SetTransmitState_0) + seq![';']
    ensures utf8_of(t) == frame(c)
{
    axiom_plain(t);
    assert(utf8_of(t) =~= frame(c));
}
/// a frame may be written in two parts
proof fn lemma_two_writes(s: Seq<u8>, c: Command)
    ensures
        ({
            let l = utf8_of(code(c->SetTransmitState_0));
            &&& frame(c) == l + seq![59u8] && s + frame(c) == s + l + seq![59u8]
            &&& forall|t: Seq<u8>| #[trigger] grown(s, l, t) ==> grown(s, frame(c), t)
            &&& forall|t: Seq<u8>| #[trigger] grown(s + l, seq![59u8], t) ==> grown(s, frame(c), t)
            &&& grown(s, frame(c), s + l)
            &&& [59u8]@ == seq![59u8]
        })
{
    let l = utf8_of(code(c->SetTransmitState_0));
    let b = frame(c);
    axiom_plain(code(c->SetTransmitState_0));
    assert(b =~= l + seq![59u8]);
    assert([59u8]@ =~= seq![59u8]);
    assert(s + (l + seq![59u8]) =~= s + l + seq![59u8]);
    assert forall|t: Seq<u8>| #[trigger] grown(s, l, t) implies grown(s, b, t) by {
        let k = choose|k: int| 0 <= k <= l.len() && t == s + #[trigger] l.take(k);
        assert(b.take(k) =~= l.take(k));
    }
    assert forall|t: Seq<u8>| #[trigger] grown(s + l, seq![59u8], t) implies grown(s, b, t) by {
        let k = choose|k: int| 0 <= k <= 1 && t == s + l + #[trigger] seq![59u8].take(k);
        assert(s + b.take(l.len() + k) =~= s + l + seq![59u8].take(k));
    }
    assert(b.take(l.len() as int) =~= l);
}
proof fn lemma_frames_push(c: Seq<Command>, x: Command)
    ensures frames(c.push(x)) == frames(c) + frame(x)
{
    assert(c.push(x).drop_last() =~= c);
}
/// sent is exactly the frames of these orders, or a part of them if the port failed during the last one
pub open spec fn part_sent(was: Seq<u8>, c: Seq<Command>, s: Seq<u8>) -> bool {
    s == was + frames(c) || (c.len() > 0 && grown(was + frames(c.drop_last()), frame(c.last()), s))
}
pub open spec fn since(was: Seq<Command>, now: Seq<Command>) -> Seq<Command> { now.skip(was.len() as int) }
proof fn lemma_since(was: Seq<Command>, now: Seq<Command>, c: Command, s: Seq<u8>)
    requires now == was + since(was, now)
    ensures
        since(was, now.push(c)) == since(was, now).push(c), now.push(c) == was + since(was, now.push(c)),
        frames(since(was, now.push(c))) == frames(since(was, now)) + frame(c),
        since(was, now.push(c)).drop_last() == since(was, now), since(was, now.push(c)).last() == c,
        s + (frames(since(was, now)) + frame(c)) == s + frames(since(was, now)) + frame(c),
{
    let o = since(was, now);
    assert(since(was, now.push(c)) =~= o.push(c));
    assert(now.push(c) =~= was + o.push(c));
    lemma_frames_push(o, c);
    assert(o.push(c).drop_last() =~= o);
    assert(s + (frames(o) + frame(c)) =~= s + frames(o) + frame(c));
}
proof fn lemma_since_none(was: Seq<Command>, s: Seq<u8>)
    ensures since(was, was) == Seq::<Command>::empty(), was == was + since(was, was), s + frames(since(was, was)) == s
{
    assert(since(was, was) =~= Seq::<Command>::empty());
    assert(was =~= was + Seq::<Command>::empty());
    assert(s + Seq::<u8>::empty() =~= s);
}
proof fn lemma_literals()
    ensures "RX"@ == seq!['R', 'X'], "TX"@ == seq!['T', 'X'], ";"@ == seq![';']
{
    reveal_strlit("RX"); reveal_strlit("TX"); reveal_strlit(";");
    assert("RX"@ =~= seq!['R', 'X']); assert("TX"@ =~= seq!['T', 'X']); assert(";"@ =~= seq![';']);
}
proof fn lemma_frame_f(d: Seq<u8>)
    ensures frame_f(d) matches Pr::Yes(r, l) ==> r.len() < d.len()
{
    lemma_span_is(d, other_than(59));
}
#[verifier::external_body]
fn opt_replace<T>(o: &mut Option<T>, x: T) -> (ret: Option<T>) ensures ret == *old(o), *final(o) == Some(x) { unimplemented!() }
#[verifier::external_body]
fn opt_take<T>(o: &mut Option<T>) -> (ret: Option<T>) ensures ret == *old(o), *final(o) == None::<T> { unimplemented!() }
