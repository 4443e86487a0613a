@assume varastream.vspec
@assume varacmd.vspec
@opt async
@opt fmt
@opt pin
@opt world
@opt lazily
@type Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)> => Channel
@type tokio::sync::oneshot::Sender => OneSender
@type tokio::sync::oneshot::Receiver => OneReceiver
@type tokio::sync::oneshot::channel => oneshot
@type tokio::sync::watch::Receiver<ConnectionStateOwned> => LinkWatch
@type tokio::sync::watch::Receiver => Watch
@type tokio::task::JoinHandle<color_eyre::Result<()>> => Handle
@type color_eyre::Result => EyreResult
@type std::io::Result => IoResult
@type NonZeroU16 => Port
@type Context<'_> => Context
@type ReadBuf<'_> => ReadBuf
@type IoSlice<'_> => IoSlice
@type Pin<&mut TcpStream> => &mut TcpStream
@type std::net::IpAddr => IpAddr
@type std::io::Error => IoError
@type Error => IoError
@call .into => onto
@type T: Into<MyCallSigns> + Debug => T: Called
@type std::net::Ipv4Addr::LOCALHOST => LOCALHOST
@call .try_into => onto_port
@call channel => new_status
@call NonZeroU16::new => Port::new
@type tokio::sync::mpsc::channel => new_orders
@type std::io::ErrorKind => ErrorKind
@prelude vara_call.rs
@timed .send .changed .borrow .borrow_and_update .wait spawn_connect_0 spawn_connect_1 spawn_manage_modem_thread TcpStream::connect
@task VaraTnc::connect#0 => OneReceiver<()>; Channel
@task VaraTnc::connect#1 => LinkWatch; OneSender<()>
@fn ConnectionStateOwned::is_connected() ret=ret
ensures ret == (self.link() is Connected),
@fn ConnectionStateOwned::is_disconnected() ret=ret
ensures ret == (self.link() is Disconnected),
@fn VaraTnc::send_command(command, w) ret=ret
ensures did(old(w), final(w), command.cmd(), ret is Ok),
@hint after call send 0
proof { lemma_pushed(old(w).asked(), w.asked()); }
@fn VaraTnc::send_callsign(cs, w) ret=ret
ensures did(old(w), final(w), Cmd::SetCall(cs.called()), ret is Ok),
@fn VaraTnc::send_compression(mode, w) ret=ret
ensures did(old(w), final(w), Cmd::SetCompression(mode), ret is Ok),
@fn VaraTnc::send_bandwidth(mode, w) ret=ret
ensures did(old(w), final(w), Cmd::SetBandwidth(mode), ret is Ok),
@fn VaraTnc::send_disconnect(w) ret=ret
ensures did(old(w), final(w), Cmd::Disconnect, ret is Ok),
@fn VaraTnc::send_abort(w) ret=ret
ensures did(old(w), final(w), Cmd::Abort, ret is Ok),
@fn VaraTnc::connect#0(force_disconnect, cloned_control, w)
requires !force_disconnect.done(),
ensures
    match force_disconnect.answer() {
        Some(_) => handed(old(w), final(w), Cmd::Disconnect) || (final(w).asked() == old(w).asked() && final(w).over()),
        None => final(w).asked() == old(w).asked(),
    },
@hint after call send 0
proof { lemma_pushed(old(w).asked(), w.asked()); }
@fn VaraTnc::connect#1(subscriber, remote_dc, w) loops=1
requires old(w).own().woken is None,
ensures told(old(w), final(w), remote_dc),
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
@loop 0
invariant_except_break
    w.signals() == old(w).signals(), onward(old(w), w), grows(old(w).own().notices, w.own().notices),
    w.own().woken is None, w.own().missed == old(w).own().missed, no_end(since_then(old(w), w)),
ensures
    onward(old(w), w), told(old(w), w, remote_dc),
@hint loop0.start
proof { lemma_since_then(old(w).own().notices, w.own().notices); }
@fn VaraTnc::connect(from, to, w) ret=ret
requires old(w).own().woken is None,
ensures
    final(w).own().dialed == old(w).own().dialed, onward(old(w), final(w)), final(w).signals() == old(w).signals(),
    final(w).own().woken is None,
    tried(old(w), final(w), shown(&from), shown(&to), ret is Ok),
    ret matches Ok(s) ==> s.fresh() && watched(old(w), final(w), s.force_disconnect->Some_0, s.remote_disconnect.signal),
@fn VaraTnc::pinned_data() ret=ret
ensures *ret == old(self).data, final(self).data == *final(ret), same_but_data(*old(self), *final(self)),
@fn RemoteDisconnect::<Future>::poll(cx) ret=ret
requires old(self).ok(),
ensures
    final(self).ok(), final(self).signal.answer() == old(self).signal.answer(),
    old(self).resolved ==> final(self).resolved,
    ret is Ready == final(self).resolved,
@fn VaraStream::<AsyncRead>::poll_read(cx, buf) ret=ret
requires old(self).remote_disconnect.ok(),
ensures
    kept(*old(self), *final(self)),
    if final(self).remote_disconnect.resolved { ret == Poll::Ready(Ok::<(), IoError>(())) && *final(buf) == *old(buf) && final(self).tnc.data == old(self).tnc.data } else { data_read(old(self).tnc.data, final(self).tnc.data, *old(buf), *final(buf), ret) },
@fn VaraStream::<AsyncWrite>::poll_write(cx, buf) ret=ret
requires old(self).remote_disconnect.ok(),
ensures
    kept(*old(self), *final(self)),
    if final(self).remote_disconnect.resolved { refused(ret) && final(self).tnc.data == old(self).tnc.data } else { data_written(old(self).tnc.data, final(self).tnc.data, buf@, ret) },
@fn VaraStream::<AsyncWrite>::poll_flush(cx) ret=ret
requires old(self).remote_disconnect.ok(),
ensures
    kept(*old(self), *final(self)),
    if final(self).remote_disconnect.resolved { refused(ret) && final(self).tnc.data == old(self).tnc.data } else { data_flushed(old(self).tnc.data, final(self).tnc.data, ret) },
@fn VaraStream::<AsyncWrite>::poll_shutdown(cx) ret=ret
requires old(self).remote_disconnect.ok(),
ensures
    kept(*old(self), *final(self)),
    if final(self).remote_disconnect.resolved { refused(ret) && final(self).tnc.data == old(self).tnc.data } else { data_shut(old(self).tnc.data, final(self).tnc.data, ret) },
@fn VaraStream::<AsyncWrite>::poll_write_vectored(cx, bufs) ret=ret
requires old(self).remote_disconnect.ok(),
ensures
    kept(*old(self), *final(self)),
    if final(self).remote_disconnect.resolved { refused(ret) && final(self).tnc.data == old(self).tnc.data } else { data_written_v(old(self).tnc.data, final(self).tnc.data, bufs@, ret) },
@fn VaraStream::<AsyncWrite>::is_write_vectored() ret=ret
ensures ret == vectored(old(self.tnc).data),
@fn VaraStream::<PinnedDrop>::drop(w)
ensures dropped(old(w), final(w), old(self).force_disconnect),
@fn VaraTncBuilder::build(w) ret=ret
requires old(self).ok(),
ensures
    *final(self) == *old(self), onward(old(w), final(w)), final(w).asked() == old(w).asked(),
    old(self).data_at() is None ==> ret is Err && ret->Err_0.kind == ErrorKind::InvalidInput && final(w).own().dialed == old(w).own().dialed,
    (old(self).data_at() is Some && ret is Err) == (final(w).own().unreached > old(w).own().unreached),
    old(self).data_at() matches Some(d) ==> {
        &&& grows(final(w).own().dialed, old(w).own().dialed + seq![(old(self).host, old(self).control_port.n), (old(self).host, d)])
        &&& ret matches Ok(t) ==> {
            &&& final(w).own().dialed == old(w).own().dialed + seq![(old(self).host, old(self).control_port.n), (old(self).host, d)]
            &&& t.data.peer() == (old(self).host, d) && final(w).own().sessions == old(w).own().sessions.push((old(self).host, old(self).control_port.n))
        }
    },
@fn VaraTncBuilder::host(host) ret=ret
ensures ret.host == host, ret.control_port == old(self).control_port, ret.data_port == old(self).data_port, *final(self) == *final(ret),
@fn VaraTncBuilder::control_port(port) ret=ret
ensures ret.host == old(self).host, ret.control_port == port, ret.data_port == old(self).data_port, *final(self) == *final(ret),
@fn VaraTncBuilder::data_port(port) ret=ret
ensures ret.host == old(self).host, ret.control_port == old(self).control_port, ret.data_port == Some(port), *final(self) == *final(ret),
@fn VaraTnc::builder() ret=ret
ensures ret.host == localhost(), ret.control_port.n == 8300, ret.data_port is None, ret.ok(), ret.data_at() == Some(8301u16),
@fn VaraStream::disconnect(w) ret=ret
ensures did(old(w), final(w), Cmd::Disconnect, ret is Ok),
@fn VaraStream::abort(w) ret=ret
ensures did(old(w), final(w), Cmd::Abort, ret is Ok),
@epilogue vara_call_wire.rs
