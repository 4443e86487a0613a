// ---- the control stream ----
// tokio, bytes and the standard library, as contracts (assumed).
impl StationIdRef {
    #[verifier::external_body]
    fn to_owned(&self) -> (ret: StationId) ensures name(&ret) == station(self) { unimplemented!() }
}
#[verifier::external_body] pub struct Instant { x: u8 }
impl Instant {
    #[verifier::external_body]
    fn now() -> Instant { unimplemented!() }
}
/// HashSet<StationId>, as the set of the names in it
#[verifier::external_body] pub struct Stations { x: u8 }
impl Stations {
    pub uninterp spec fn names(&self) -> Set<Seq<u8>>;
    #[verifier::external_body]
    fn insert(&mut self, s: StationId) -> (ret: bool) ensures final(self).names() == old(self).names().insert(name(&s)) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (ret: Stations) ensures ret.names() == self.names() { unimplemented!() }
}
/// watch::Sender<T>: every value ever published through it, in order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { x: Vec<T> }
impl<T> Sender<T> {
    pub uninterp spec fn log(&self) -> Seq<T>;
    // the real ones take &self; publishing is the only thing that changes the log
    #[verifier::external_body]
    fn send_replace(&mut self, v: T) -> (ret: T) ensures final(self).log() == old(self).log().push(v) { unimplemented!() }
}

/// a connected socket: what has been read from it, what has been written to it, whether reading has ended
#[verifier::external_body] pub struct TcpStream { x: u8 }
impl TcpStream {
    pub uninterp spec fn received(&self) -> Seq<u8>;
    pub uninterp spec fn sent(&self) -> Seq<u8>;
    pub uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    fn try_read_buf(&mut self, buf: &mut BytesMut) -> (ret: Result<usize, IoError>)
        ensures
            final(self).sent() == old(self).sent(),
            match ret {
                Ok(n) => chunk(old(self), final(self)).len() == n && final(self).received() == old(self).received() + chunk(old(self), final(self)) && final(buf)@ == old(buf)@ + chunk(old(self), final(self)) && final(self).ended() == (n == 0),
                Err(e) => final(self).received() == old(self).received() && final(buf)@ == old(buf)@ && final(self).ended() == (e.kind != ErrorKind::WouldBlock),
            }
    { unimplemented!() }
}
/// what the last read brought
pub open spec fn chunk(a: &TcpStream, b: &TcpStream) -> Seq<u8> { b.received().skip(a.received().len() as int) }
// error payloads are dropped: both only rewrite the payload
fn try_map_into_str<T>(r: Result<T, PErr>) -> (ret: Result<T, PErr>) ensures ret == r { r }
pub struct Stringify;
pub const stringify_input: Stringify = Stringify;
fn map_err_text<T>(r: Result<T, PErr>, f: Stringify) -> (ret: Result<T, PErr>) ensures ret == r { r }
/// nom's finish panics on Incomplete
#[verifier::external_body]
fn nom_finish<T>(r: Result<T, PErr>) -> (ret: Result<T, PErr>)
    requires !(r is Err && r->Err_0 is Incomplete)
    ensures ret == r
{ unimplemented!() }

// ---- what the stream says ----
/// a complete line and what follows it; lines end in a carriage return and are not empty
pub open spec fn line_f(d: Seq<u8>) -> Pr<Seq<u8>> {
    let k = upto(d, 13);
    if k == d.len() { Pr::More(0) } else if k == 0 { Pr::No } else { Pr::Yes(d.skip(k + 1), d.take(k)) }
}
/// what a whole line says, if anything
pub open spec fn reading(l: Seq<u8>) -> Option<Said> {
    match response_f(l) { Pr::Yes(r, s) => if r.len() == 0 { Some(s) } else { None }, _ => None }
}
pub struct Feed { pub said: Seq<Said>, pub rest: Seq<u8>, pub ok: bool }
/// everything the bytes say, up to the first line that cannot be read; what is left is the beginning of a line
pub open spec fn feed(d: Seq<u8>) -> Feed
    decreases d.len() via feed_decreases
{
    match line_f(d) {
        Pr::Yes(r, l) => match reading(l) {
            Some(s) => { let f = feed(r); Feed { said: seq![s] + f.said, rest: f.rest, ok: f.ok } },
            None => Feed { said: Seq::<Said>::empty(), rest: d, ok: false },
        },
        Pr::More(_) => Feed { said: Seq::<Said>::empty(), rest: d, ok: true },
        _ => Feed { said: Seq::<Said>::empty(), rest: d, ok: false },
    }
}
#[via_fn]
proof fn feed_decreases(d: Seq<u8>) {
    lemma_span_is(d, other_than(13));
}
/// what has been published, and the command results collected
pub struct Heard {
    pub beats: nat, pub buffer: Seq<usize>, pub busy: Seq<BusyState>, pub links: Seq<Link>, pub ptt: Seq<TransceiverCommand>,
    pub remote: Seq<Registration>, pub calls: Set<Seq<u8>>, pub registered: Seq<Set<Seq<u8>>>, pub acks: Seq<CommandResult>,
}
impl ConnectionStateOwned {
    pub open spec fn link(&self) -> Link {
        match self {
            ConnectionStateOwned::Disconnected => Link::Disconnected,
            ConnectionStateOwned::Pending => Link::Pending,
            ConnectionStateOwned::Canceled => Link::Canceled,
            ConnectionStateOwned::Connected { my_station, other_station } => Link::Connected(name(my_station), name(other_station)),
        }
    }
}
pub open spec fn heard(tx: &TncStatusSender, acks: Seq<CommandResult>) -> Heard {
    Heard {
        beats: tx.last_heartbeat.log().len(), buffer: tx.buffer.log(), busy: tx.busy_state.log(),
        links: Seq::new(tx.connection.log().len(), |i: int| tx.connection.log()[i].link()),
        ptt: tx.transceiver_control.log(), remote: tx.remote_registration.log(), calls: tx.calls.names(),
        registered: Seq::new(tx.registered_calls.log().len(), |i: int| tx.registered_calls.log()[i].names()), acks,
    }
}
/// the effect of one line
pub open spec fn hear(h: Heard, s: Said) -> Heard {
    match s {
        Said::Result(r) => Heard { acks: h.acks.push(r), ..h },
        Said::Alive => Heard { beats: h.beats + 1, ..h },
        Said::Buffer(n) => Heard { buffer: h.buffer.push(n), ..h },
        Said::Busy(b) => Heard { busy: h.busy.push(b), ..h },
        Said::Link(c) => Heard { links: h.links.push(c), ..h },
        Said::Ptt(t) => Heard { ptt: h.ptt.push(t), ..h },
        Said::Registered(c) => Heard { calls: h.calls.insert(c), registered: h.registered.push(h.calls.insert(c)), ..h },
        Said::Remote(r) => Heard { remote: h.remote.push(r), ..h },
    }
}
pub open spec fn hear_all(h: Heard, s: Seq<Said>) -> Heard
    decreases s.len()
{
    if s.len() == 0 { h } else { hear_all(hear(h, s[0]), s.drop_first()) }
}
proof fn lemma_hear_step(h: Heard, s: Said, t: Seq<Said>)
    ensures hear_all(h, seq![s] + t) == hear_all(hear(h, s), t)
{
    assert((seq![s] + t).drop_first() =~= t);
}
proof fn lemma_line_f(d: Seq<u8>)
    ensures
        line_f(d) == then(until1_s(d, 13), |r: Seq<u8>, l: Seq<u8>| then(tag_s(r, seq![13u8]), |q: Seq<u8>, t: Seq<u8>| Pr::Yes(q, l))),
        line_f(d) matches Pr::Yes(r, l) ==> r.len() < d.len() && r == d.skip(d.len() - r.len()),
{
    lemma_span_is(d, other_than(13));
    let k = upto(d, 13);
    if 0 < k < d.len() {
        let r = d.skip(k);
        assert(r[0] == 13);
        assert(r.take(1) =~= seq![13u8].take(1));
        assert(r.skip(1) =~= d.skip(k + 1));
    }
}
proof fn lemma_feed_step(d: Seq<u8>)
    ensures
        line_f(d) is More ==> feed(d) == (Feed { said: Seq::<Said>::empty(), rest: d, ok: true }),
        line_f(d) is No ==> feed(d) == (Feed { said: Seq::<Said>::empty(), rest: d, ok: false }),
        line_f(d) matches Pr::Yes(r, l) ==> match reading(l) {
            Some(s) => feed(d).rest == feed(r).rest && feed(d).ok == feed(r).ok && forall|h: Heard| #[trigger] hear_all(h, feed(d).said) == hear_all(hear(h, s), feed(r).said),
            None => feed(d) == (Feed { said: Seq::<Said>::empty(), rest: d, ok: false }),
        },
        d.len() == 0 ==> line_f(d) is More,
{
    if line_f(d) is Yes {
        let (r, l) = (line_f(d)->Yes_0, line_f(d)->Yes_1);
        if reading(l) is Some {
            let s = reading(l)->Some_0;
            assert forall|h: Heard| #[trigger] hear_all(h, feed(d).said) == hear_all(hear(h, s), feed(r).said) by { lemma_hear_step(h, s, feed(r).said); }
        }
    }
}
proof fn lemma_hear_none()
    ensures forall|h: Heard| #[trigger] hear_all(h, Seq::<Said>::empty()) == h
{}
