// ---- the world outside: what the modem has reported, and what has been done by this thread of control ----
/// a change that has been noticed: how many states had been published, how many when it was first looked at, and the last of those
pub struct Notice { pub woken: nat, pub at: nat, pub link: Link }
pub struct Own {
    /// every command handed over to the session, with the sender of its reply
    pub asked: Seq<(Command, OneSender<CommandResult>)>,
    /// every address connected to
    pub dialed: Seq<(IpAddr, u16)>,
    /// how many of those could not be reached
    pub unreached: nat,
    /// signals given
    pub signals: nat,
    /// woken by a change of the connection state and not looked at it yet
    pub woken: Option<nat>,
    /// changes it was woken by and then looked at, each by its first look
    pub notices: Seq<Notice>,
    /// woken again without having looked
    pub missed: bool,
    /// the last look at the connection state, whatever led to it
    pub look: Option<Link>,
    /// tasks started, by what they were given
    pub closers: Seq<OneReceiver<()>>,
    pub watchers: Seq<(LinkWatch, OneSender<()>)>,
    /// sessions started, by their control connection
    pub sessions: Seq<(IpAddr, u16)>,
}
#[verifier::external_body] pub struct World { x: u8 }
impl World {
    pub uninterp spec fn own(&self) -> Own;
    /// every connection state published so far, by whomever
    pub uninterp spec fn links(&self) -> Seq<Link>;
    /// the session is over: it takes no more commands and reports no more
    pub uninterp spec fn over(&self) -> bool;
    pub open spec fn asked(&self) -> Seq<(Command, OneSender<CommandResult>)> { self.own().asked }
    pub open spec fn signals(&self) -> nat { self.own().signals }
}
pub open spec fn grows<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> b[i] == a[i] }
/// time has passed, and meanwhile others may have published
pub open spec fn onward(a: &World, b: &World) -> bool { grows(a.links(), b.links()) && (a.over() ==> b.over()) }
/// the last state published is this one, and it is looked at
pub open spec fn looked(a: &World, b: &World, l: Link) -> bool {
    &&& onward(a, b) && b.links().len() > 0 && l == b.links().last()
    &&& b.own() == Own {
        woken: None, look: Some(l), ..match a.own().woken {
            Some(n) => Own { notices: a.own().notices.push(Notice { woken: n, at: b.links().len(), link: l }), ..a.own() },
            None => a.own(),
        } }
}
/// oneshot channels: `answer` is what will ever be sent through this one (sending consumes it)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct OneSender<T> { x: Vec<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct OneReceiver<T> { x: Vec<T> }
#[derive(Debug)]
pub struct Gone;
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (ret: T)
    where T: core::marker::Destruct, E: core::marker::Destruct
    ensures ret == match r { Ok(v) => v, Err(_) => d }
;
impl<T> OneSender<T> {
    pub uninterp spec fn answer(&self) -> Option<T>;
    #[verifier::external_body]
    fn send(self, r: T, w: &mut World) -> (ret: Result<(), T>)
        ensures self.answer() == Some(r), onward(old(w), final(w)), final(w).own() == (Own { signals: old(w).signals() + 1, ..old(w).own() })
    { unimplemented!() }
}
pub enum Poll<T> { Ready(T), Pending }
impl<T> Poll<T> {
    fn is_ready(&self) -> (ret: bool) ensures ret == (self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } }
    fn is_pending(&self) -> (ret: bool) ensures ret == (self is Pending) { match self { Poll::Ready(_) => false, Poll::Pending => true } }
}
#[verifier::external_body] pub struct Context { x: u8 }
impl<T> OneReceiver<T> {
    pub uninterp spec fn answer(&self) -> Option<T>;
    /// it has been polled to completion
    pub uninterp spec fn done(&self) -> bool;
    #[verifier::external_body]
    fn wait(self, w: &mut World) -> (ret: Result<T, Gone>)
        requires !self.done()
        ensures onward(old(w), final(w)), final(w).own() == old(w).own(), match ret { Ok(r) => self.answer() == Some(r), Err(_) => self.answer() is None }
    { unimplemented!() }
    // tokio panics when a receiver is polled again after it has completed
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut Context) -> (ret: Poll<Result<T, Gone>>)
        requires !old(self).done()
        ensures final(self).done() == (ret is Ready), final(self).answer() == old(self).answer()
    { unimplemented!() }
}
#[verifier::external_body]
fn oneshot<T>() -> (ret: (OneSender<T>, OneReceiver<T>)) ensures ret.0.answer() == ret.1.answer(), !ret.1.done() { unimplemented!() }
/// mpsc::Sender<(Command, oneshot::Sender<CommandResult>)>
#[verifier::external_body] pub struct Channel { x: u8 }
impl Channel {
    #[verifier::external_body]
    fn send(&self, m: (Command, OneSender<CommandResult>), w: &mut World) -> (ret: Result<(), Gone>)
        ensures
            onward(old(w), final(w)),
            match ret { Ok(_) => final(w).own() == (Own { asked: old(w).asked().push(m), ..old(w).own() }), Err(_) => final(w).own() == old(w).own() && final(w).over() },
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> Channel { unimplemented!() }
    #[verifier::external_body]
    fn is_closed(&self) -> bool { unimplemented!() }
}
impl From<Gone> for Report {
    #[verifier::external_body]
    fn from(e: Gone) -> (ret: Report) { unimplemented!() }
}
#[verifier::external_body]
fn new_report() -> Report { unimplemented!() }
/// watch::Receiver<ConnectionStateOwned>: how many states it has marked as seen
#[verifier::external_body] pub struct LinkWatch { x: u8 }
impl LinkWatch {
    pub uninterp spec fn seen(&self) -> nat;
    #[verifier::external_body]
    fn borrow(&self, w: &mut World) -> (ret: ConnectionStateOwned)
        ensures looked(old(w), final(w), ret.link()), final(w).links().len() >= self.seen()
    { unimplemented!() }
    #[verifier::external_body]
    fn borrow_and_update(&mut self, w: &mut World) -> (ret: ConnectionStateOwned)
        ensures looked(old(w), final(w), ret.link()), final(self).seen() == final(w).links().len()
    { unimplemented!() }
    #[verifier::external_body]
    fn changed(&mut self, w: &mut World) -> (ret: Result<(), Gone>)
        ensures onward(old(w), final(w)), match ret {
            Ok(_) => {
                &&& final(w).links().len() > old(self).seen() && final(self).seen() == final(w).links().len()
                &&& final(w).own() == Own { woken: Some(final(w).links().len()), missed: old(w).own().missed || old(w).own().woken is Some, ..old(w).own() }
            },
            Err(_) => final(w).over() && final(self).seen() == old(self).seen() && final(w).own() == old(w).own(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (ret: LinkWatch) ensures ret.seen() == self.seen() { unimplemented!() }
}
/// other watches
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Watch<T> { x: Vec<T> }
#[verifier::external_body] pub struct Handle { x: u8 }
// starting a task: what it does then is under its own contract
#[verifier::external_body]
fn spawn_connect_0(f: OneReceiver<()>, c: Channel, w: &mut World) -> (ret: Handle)
    requires !f.done()
    ensures onward(old(w), final(w)), final(w).own() == (Own { closers: old(w).own().closers.push(f), ..old(w).own() })
{ unimplemented!() }
#[verifier::external_body]
fn spawn_connect_1(s: LinkWatch, t: OneSender<()>, w: &mut World) -> (ret: Handle)
    ensures onward(old(w), final(w)), final(w).own() == (Own { watchers: old(w).own().watchers.push((s, t)), ..old(w).own() })
{ unimplemented!() }

// ---- the data socket: what each operation does to it is its own affair ----
#[verifier::external_body] pub struct ReadBuf { x: u8 }
#[verifier::external_body] pub struct IoSlice { x: u8 }
pub uninterp spec fn data_read(a: TcpStream, b: TcpStream, x: ReadBuf, y: ReadBuf, ret: Poll<Result<(), IoError>>) -> bool;
pub uninterp spec fn data_written(a: TcpStream, b: TcpStream, x: Seq<u8>, ret: Poll<Result<usize, IoError>>) -> bool;
pub uninterp spec fn data_written_v(a: TcpStream, b: TcpStream, x: Seq<IoSlice>, ret: Poll<Result<usize, IoError>>) -> bool;
pub uninterp spec fn data_flushed(a: TcpStream, b: TcpStream, ret: Poll<Result<(), IoError>>) -> bool;
pub uninterp spec fn data_shut(a: TcpStream, b: TcpStream, ret: Poll<Result<(), IoError>>) -> bool;
impl TcpStream { pub uninterp spec fn peer(&self) -> (IpAddr, u16); }
/// both ends of the status watches, and of the command channel
#[verifier::external_body]
fn new_status() -> (TncStatusSender, TncStatusReceiver) { unimplemented!() }
#[verifier::external_body] pub struct Orders { x: u8 }
#[verifier::external_body]
fn new_orders(n: usize) -> (Channel, Orders) requires n > 0 { unimplemented!() }
/// the session on a control connection: under contract in varaloop.vspec
#[verifier::external_body]
fn spawn_manage_modem_thread(rx: Orders, tx: TncStatusSender, s: TcpStream, w: &mut World) -> (ret: Handle)
    ensures onward(old(w), final(w)), final(w).own() == (Own { sessions: old(w).own().sessions.push(s.peer()), ..old(w).own() })
{ unimplemented!() }
pub uninterp spec fn vectored(a: TcpStream) -> bool;
impl TcpStream {
    #[verifier::external_body]
    fn poll_read(&mut self, cx: &mut Context, buf: &mut ReadBuf) -> (ret: Poll<Result<(), IoError>>) ensures data_read(*old(self), *final(self), *old(buf), *final(buf), ret) { unimplemented!() }
    #[verifier::external_body]
    fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (ret: Poll<Result<usize, IoError>>) ensures data_written(*old(self), *final(self), buf@, ret) { unimplemented!() }
    #[verifier::external_body]
    fn poll_write_vectored(&mut self, cx: &mut Context, bufs: &[IoSlice]) -> (ret: Poll<Result<usize, IoError>>) ensures data_written_v(*old(self), *final(self), bufs@, ret) { unimplemented!() }
    #[verifier::external_body]
    fn poll_flush(&mut self, cx: &mut Context) -> (ret: Poll<Result<(), IoError>>) ensures data_flushed(*old(self), *final(self), ret) { unimplemented!() }
    #[verifier::external_body]
    fn poll_shutdown(&mut self, cx: &mut Context) -> (ret: Poll<Result<(), IoError>>) ensures data_shut(*old(self), *final(self), ret) { unimplemented!() }
    #[verifier::external_body]
    fn is_write_vectored(&self) -> (ret: bool) ensures ret == vectored(*self) { unimplemented!() }
    #[verifier::external_body]
    fn connect(at: (IpAddr, u16), w: &mut World) -> (ret: Result<TcpStream, IoError>)
        ensures ret matches Ok(s) ==> s.peer() == at, onward(old(w), final(w)), final(w).own() == (Own { dialed: old(w).own().dialed.push(at), unreached: old(w).own().unreached + (if ret is Ok { 0nat } else { 1nat }), ..old(w).own() })
    { unimplemented!() }
}
// ---- addresses and ports ----
#[derive(Clone, Copy)] #[verifier::external_body] pub struct IpAddr { x: u8 }
pub uninterp spec fn localhost() -> IpAddr;
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Ipv4Addr { x: u8 }
#[derive(Clone, Copy)] pub struct Port { pub n: u16 }
impl Port {
    pub open spec fn ok(&self) -> bool { self.n > 0 }
    fn get(self) -> (ret: u16) ensures ret == self.n { self.n }
    fn new(n: u16) -> (ret: Option<Port>) ensures match ret { Some(p) => p.n == n && n > 0, None => n == 0 } { if n == 0 { None } else { Some(Port { n }) } }
    fn checked_add(self, k: u16) -> (ret: Option<Port>) ensures match ret { Some(p) => p.n == self.n + k, None => self.n + k > 65535 } { if self.n as u32 + k as u32 > 65535 { None } else { Some(Port { n: (self.n + k) as u16 }) } }
}
pub type EyreResult<T> = Result<T, Report>;
pub type IoResult<T> = Result<T, IoError>;

// ---- one command and its reply ----
pub open spec fn handed(a: &World, b: &World, c: Cmd) -> bool {
    b.asked().len() == a.asked().len() + 1 && b.asked().take(a.asked().len() as int) == a.asked() && b.asked().last().0.cmd() == c
}
/// the reply to the last command handed over
pub open spec fn reply(b: &World) -> Option<CommandResult> { b.asked().last().1.answer() }
/// the command was handed over, once, and it was its own reply that was waited for; or the session was over
pub open spec fn did(a: &World, b: &World, c: Cmd, ok: bool) -> bool {
    &&& onward(a, b) && b.own() == Own { asked: b.asked(), ..a.own() }
    &&& (handed(a, b, c) && (ok <==> reply(b) == Some(CommandResult::Ok)))
        || (b.asked() == a.asked() && b.over() && !ok)
}
proof fn lemma_pushed<T>(a: Seq<T>, b: Seq<T>)
    ensures b.len() == a.len() + 1 && b == a.push(b.last()) ==> b.take(a.len() as int) == a
{
    if b.len() == a.len() + 1 && b == a.push(b.last()) { assert(b.take(a.len() as int) =~= a); }
}
/// the signal was given through this sender, and nothing else was signalled
pub open spec fn answered(a: &World, b: &World, o: OneSender<()>) -> bool { b.signals() == a.signals() + 1 && o.answer() == Some(()) }
// ---- an attempt to connect ----
/// woken once, by a change published after the request was made; what was then looked at first decided
pub open spec fn decided_by(a: &World, b: &World, up: bool) -> bool {
    &&& b.own().notices == a.own().notices.push(b.own().notices.last()) && b.own().woken is None && b.own().missed == a.own().missed
    &&& { let n = b.own().notices.last(); a.links().len() < n.woken <= n.at <= b.links().len() && n.link == b.links()[n.at - 1] && (n.link is Connected) == up }
}
pub open spec fn tried(a: &World, b: &World, from: Word, to: Word, ok: bool) -> bool {
    if handed(a, b, Cmd::Connect(from, to, Path::Direct)) {
        if reply(b) == Some(CommandResult::Ok) { decided_by(a, b, ok) || (!ok && b.over() && b.own().notices == a.own().notices) } else { !ok }
    } else { !ok && b.asked() == a.asked() && b.over() }
}
impl<'a> VaraStream<'a> {
    /// nothing has happened on it yet
    pub open spec fn fresh(&self) -> bool { self.force_disconnect is Some && !self.remote_disconnect.resolved && !self.remote_disconnect.signal.done() }
}
/// one task waits for the stream's signal, one signals to it; what that one has yet to see starts after the state that decided
pub open spec fn watched(a: &World, b: &World, f: OneSender<()>, r: OneReceiver<()>) -> bool {
    &&& b.own().closers.len() == a.own().closers.len() + 1 && b.own().closers.last().answer() == f.answer() && !b.own().closers.last().done()
    &&& b.own().watchers.len() == a.own().watchers.len() + 1 && b.own().watchers.last().1.answer() == r.answer() && b.own().watchers.last().0.seen() > a.links().len()
}
// ---- the data stream ----
impl RemoteDisconnect {
    /// resolved exactly when the signal has been taken
    pub open spec fn ok(&self) -> bool { self.resolved == self.signal.done() }
}
pub open spec fn same_but_data(a: VaraTnc, b: VaraTnc) -> bool { a.control_channel == b.control_channel && a.status == b.status && a.managing_thread == b.managing_thread }
pub open spec fn refused<T>(r: Poll<Result<T, IoError>>) -> bool { r matches Poll::Ready(Err(e)) && e.kind == ErrorKind::ConnectionAborted }
/// an operation on the stream leaves the rest of it as it is, and never makes a closed one open again
pub open spec fn kept<'a>(a: VaraStream<'a>, b: VaraStream<'a>) -> bool {
    &&& b.remote_disconnect.ok() && b.remote_disconnect.signal.answer() == a.remote_disconnect.signal.answer()
    &&& a.remote_disconnect.resolved ==> b.remote_disconnect.resolved
    &&& b.force_disconnect == a.force_disconnect && same_but_data(*a.tnc, *b.tnc)
}
/// dropping it looks at the state; the closing task is signalled, once, if that is not disconnected
pub open spec fn dropped(a: &World, b: &World, f: Option<OneSender<()>>) -> bool {
    &&& onward(a, b) && b.asked() == a.asked()
    &&& if b.signals() == a.signals() { f is None || b.own().look == Some(Link::Disconnected) }
        else { f is Some && answered(a, b, f->Some_0) && b.own().look is Some && !(b.own().look->Some_0 is Disconnected) }
}
// ---- building ----
impl VaraTncBuilder {
    pub open spec fn ok(&self) -> bool { self.control_port.ok() && (self.data_port matches Some(p) ==> p.ok()) }
    /// the port of the data connection
    pub open spec fn data_at(&self) -> Option<u16> {
        match self.data_port { Some(p) => Some(p.n), None => if self.control_port.n == 65535 { None } else { Some((self.control_port.n + 1) as u16) } }
    }
}
#[verifier::external_body]
pub const LOCALHOST: Ipv4Addr = Ipv4Addr { x: 0 };
fn onto_port(n: u16) -> (ret: Result<Port, Gone>) ensures match ret { Ok(p) => p.n == n && n > 0, Err(_) => n == 0 } { if n == 0 { Err(Gone) } else { Ok(Port { n }) } }
/// Into
pub trait Onto<U> {
    spec fn becomes(&self, u: &U) -> bool;
    fn onto(self) -> (ret: U) where Self: Sized ensures self.becomes(&ret);
}
fn onto<T: Onto<U>, U>(x: T) -> (ret: U) ensures x.becomes(&ret) { x.onto() }
impl Onto<IpAddr> for Ipv4Addr {
    open spec fn becomes(&self, u: &IpAddr) -> bool { *u == localhost() }
    #[verifier::external_body]
    fn onto(self) -> IpAddr { unimplemented!() }
}
/// what can be made into call signs: which ones
pub trait Called {
    spec fn called(&self) -> Seq<Word>;
    fn calls(self) -> (ret: MyCallSigns) where Self: Sized ensures ret.calls() == self.called();
}
impl<T: Called> Onto<MyCallSigns> for T {
    open spec fn becomes(&self, u: &MyCallSigns) -> bool { u.calls() == self.called() }
    fn onto(self) -> MyCallSigns { self.calls() }
}
// ---- watching for the end ----
pub open spec fn since_then(a: &World, b: &World) -> Seq<Notice> { b.own().notices.skip(a.own().notices.len() as int) }
pub open spec fn no_end(l: Seq<Notice>) -> bool { forall|i: int| 0 <= i < l.len() ==> !((#[trigger] l[i]).link is Disconnected) }
/// every change is looked at; the end is signalled when it is first noticed, and not before
pub open spec fn told(a: &World, b: &World, o: OneSender<()>) -> bool {
    &&& grows(a.own().notices, b.own().notices) && b.own().woken is None && b.own().missed == a.own().missed
    &&& if b.signals() == a.signals() { b.over() && no_end(since_then(a, b)) }
        else { answered(a, b, o) && since_then(a, b).len() > 0 && since_then(a, b).last().link is Disconnected && no_end(since_then(a, b).drop_last()) }
}
proof fn lemma_since_then(a: Seq<Notice>, l: Seq<Notice>)
    requires grows(a, l)
    ensures forall|x: Notice| {
        let (n, s) = (#[trigger] l.push(x), l.skip(a.len() as int));
        let t = n.skip(a.len() as int);
        grows(a, n) && t.len() > 0 && t.last() == x && t.drop_last() == s && (no_end(s) && !(x.link is Disconnected) ==> no_end(t))
    }
{
    assert forall|x: Notice| {
        let (n, s) = (#[trigger] l.push(x), l.skip(a.len() as int));
        let t = n.skip(a.len() as int);
        grows(a, n) && t.len() > 0 && t.last() == x && t.drop_last() == s && (no_end(s) && !(x.link is Disconnected) ==> no_end(t))
    } by {
        let (n, s) = (l.push(x), l.skip(a.len() as int));
        let t = n.skip(a.len() as int);
        assert(t =~= s.push(x));
        assert(t.drop_last() =~= s);
        if no_end(s) && !(x.link is Disconnected) {
            assert forall|i: int| 0 <= i < t.len() implies !((#[trigger] t[i]).link is Disconnected) by { if i < s.len() { assert(!(s[i].link is Disconnected)); } }
        }
    }
}
