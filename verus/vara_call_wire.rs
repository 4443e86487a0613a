// ---- C18: once closed, a stream stays closed ----
pub enum Use<'b> { Read(ReadBuf), Write(&'b [u8]), WriteV(&'b [IoSlice]), Flush, Shutdown }
/// any number of uses, in any order, of a stream the far end of which has gone
fn property_c18_stays_closed<'a, 'b>(s: &mut VaraStream<'a>, uses: Vec<Use<'b>>, cx: &mut Context)
    requires old(s).remote_disconnect.ok(), old(s).remote_disconnect.resolved
    ensures final(s).remote_disconnect.ok(), final(s).remote_disconnect.resolved, final(s).tnc.data == old(s).tnc.data
{
    let mut uses = uses;
    let ghost data = s.tnc.data;
    while uses.len() > 0
        invariant s.remote_disconnect.ok(), s.remote_disconnect.resolved, s.tnc.data == data
        decreases uses.len()
    {
        match uses.pop().unwrap() {
            // the end of the stream is a read that succeeds and brings nothing
            Use::Read(b) => { let mut b = b; let ghost was = b; let r = s.poll_read(cx, &mut b); assert(r == Poll::Ready(Ok::<(), IoError>(())) && b == was); }
            Use::Write(b) => { let r = s.poll_write(cx, b); assert(refused(r)); }
            Use::WriteV(b) => { let r = s.poll_write_vectored(cx, b); assert(refused(r)); }
            Use::Flush => { let r = s.poll_flush(cx); assert(refused(r)); }
            Use::Shutdown => { let r = s.poll_shutdown(cx); assert(refused(r)); }
        }
    }
}
/// until then every use is that of the data socket, and the first use after the signal closes the stream
fn property_c18_one_use<'a>(s: &mut VaraStream<'a>, b: &[u8], cx: &mut Context) -> (ret: Poll<Result<usize, IoError>>)
    requires old(s).remote_disconnect.ok()
    ensures
        !final(s).remote_disconnect.signal.done() ==> data_written(old(s).tnc.data, final(s).tnc.data, b@, ret),
        final(s).remote_disconnect.signal.done() ==> refused(ret) && final(s).remote_disconnect.resolved,
{
    s.poll_write(cx, b)
}
/// dropping a stream that is not disconnected: one disconnect is asked for by the task that was waiting for it
fn property_c18_drop<'a>(s: &mut VaraStream<'a>, waiting: OneReceiver<()>, control: Channel, w: &mut World, v: &mut World)
    requires old(s).force_disconnect matches Some(f) ==> f.answer() == waiting.answer(), !waiting.done()
    ensures
        final(w).asked() == old(w).asked(),
        final(w).signals() == old(w).signals() || final(w).signals() == old(w).signals() + 1,
        old(s).force_disconnect is Some && !(final(w).own().look == Some(Link::Disconnected)) ==> {
            handed(old(v), final(v), Cmd::Disconnect) || (final(v).asked() == old(v).asked() && final(v).over())
        },
        waiting.answer() is None ==> final(v).asked() == old(v).asked() && final(w).signals() == old(w).signals() || old(s).force_disconnect is None,
{
    s.drop(w);
    VaraTnc__connect__task0(waiting, control, v);
}
// ---- C18, C19: the attempt ----
fn property_c19_outcome<'a>(t: &'a mut VaraTnc, from: StationId, to: StationId, w: &mut World) -> (ret: Result<VaraStream<'a>, Report>)
    requires old(w).own().woken is None
    ensures
        // only if the request was made, and was answered with OK
        ret is Ok ==> handed(old(w), final(w), Cmd::Connect(shown(&from), shown(&to), Path::Direct)) && reply(final(w)) == Some(CommandResult::Ok),
        // and what was noticed first, published since, was a connection
        ret is Ok ==> decided_by(old(w), final(w), true),
        // always, then, unless the session ended first
        handed(old(w), final(w), Cmd::Connect(shown(&from), shown(&to), Path::Direct)) && reply(final(w)) == Some(CommandResult::Ok)
            && decided_by(old(w), final(w), true) ==> ret is Ok,
        // the stream starts open, with one task for each of its two signals
        ret matches Ok(s) ==> s.remote_disconnect.ok() && !s.remote_disconnect.resolved && s.force_disconnect is Some
            && watched(old(w), final(w), s.force_disconnect->Some_0, s.remote_disconnect.signal),
{
    t.connect(from, to, w)
}
// ---- C20 ----
pub enum Setting { Host(IpAddr), Control(Port), Data(Port) }
pub open spec fn host_of(s: Seq<Setting>) -> IpAddr decreases s.len() {
    if s.len() == 0 { localhost() } else { match s.last() { Setting::Host(h) => h, _ => host_of(s.drop_last()) } }
}
pub open spec fn control_of(s: Seq<Setting>) -> int decreases s.len() {
    if s.len() == 0 { 8300 } else { match s.last() { Setting::Control(p) => p.n as int, _ => control_of(s.drop_last()) } }
}
pub open spec fn data_of(s: Seq<Setting>) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else { match s.last() { Setting::Data(p) => Some(p.n as int), _ => data_of(s.drop_last()) } }
}
pub open spec fn good(s: Setting) -> bool { match s { Setting::Host(_) => true, Setting::Control(p) => p.ok(), Setting::Data(p) => p.ok() } }
/// whatever is set, and in whatever order: the last of each counts
fn property_c20_ports(s: Vec<Setting>, w: &mut World) -> (ret: Result<VaraTnc, IoError>)
    requires forall|i: int| 0 <= i < s@.len() ==> good(#[trigger] s@[i])
    ensures
        data_of(s@) is None && control_of(s@) == 65535 ==> ret is Err && final(w).own().dialed == old(w).own().dialed,
        // and refused for no other reason than that one of the two could not be reached
        !(data_of(s@) is None && control_of(s@) == 65535) && ret is Err ==> final(w).own().unreached > old(w).own().unreached,
        ret matches Ok(t) ==> {
            let d = match data_of(s@) { Some(p) => p, None => control_of(s@) + 1 };
            &&& 0 < control_of(s@) <= 65535 && 0 < d <= 65535
            &&& final(w).own().dialed == old(w).own().dialed + seq![(host_of(s@), control_of(s@) as u16), (host_of(s@), d as u16)]
            &&& t.data.peer() == (host_of(s@), d as u16)
            &&& final(w).own().sessions == old(w).own().sessions.push((host_of(s@), control_of(s@) as u16))
        },
{
    let mut b = VaraTnc::builder();
    let mut k: usize = 0;
    assert(s@.take(0) =~= Seq::<Setting>::empty());
    while k < s.len()
        invariant
            k <= s@.len(), b.ok(), forall|i: int| 0 <= i < s@.len() ==> good(#[trigger] s@[i]),
            b.host == host_of(s@.take(k as int)), b.control_port.n == control_of(s@.take(k as int)),
            match b.data_port { Some(p) => data_of(s@.take(k as int)) == Some(p.n as int), None => data_of(s@.take(k as int)) is None },
        decreases s@.len() - k
    {
        assert(good(s@[k as int]));
        assert(s@.take(k + 1).drop_last() =~= s@.take(k as int));
        assert(s@.take(k + 1).last() == s@[k as int]);
        match &s[k] {
            Setting::Host(h) => { b.host(*h); }
            Setting::Control(p) => { b.control_port(*p); }
            Setting::Data(p) => { b.data_port(*p); }
        }
        k += 1;
    }
    assert(s@.take(k as int) =~= s@);
    b.build(w)
}
