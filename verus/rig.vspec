@source src/rig/elecraft/kx3.rs
@mono Port
@opt nom
@opt async
@opt fmt
@opt owned
@opt derive
@call .into => into_report
@call .replace => &mut opt_replace
@call .take => &mut opt_take
@type mpsc::Receiver<Command> => Orders
@type fmt::Formatter<'_> => Text
@type fmt::Result => Result<(), FmtError>
@type String => Text
@type std::io::Error::new => IoError::new
@type std::io::ErrorKind => ErrorKind
@type color_eyre::Result<()> => Result<(), Report>
@type bytes::BytesMut => BytesMut
@prelude nom.rs
@prelude io.rs
@prelude text.rs
@prelude rig.rs
@fn TransmitState::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + code(*self),
@hint start
proof { lemma_literals(); }
@fn Command::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + code(self->SetTransmitState_0),
@fn line(data) ret=ret
ensures bytes_is(ret, frame_f(data@)),
@hint start
proof { assert([59u8]@ =~= seq![59u8]); }
@fn manage_rig_thread(rx, stream) ret=ret loops=2
ensures
    final(rx).taken() == old(rx).taken() + since(old(rx).taken(), final(rx).taken()),
    part_sent(old(stream).sent(), since(old(rx).taken(), final(rx).taken()), final(stream).sent()),
    ret is Ok ==> final(rx).ended() && final(stream).sent() == old(stream).sent() + frames(since(old(rx).taken(), final(rx).taken())),
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
@hint start
let ghost (__t0, __s0) = (rx.taken(), stream.sent());
proof { lemma_since_none(__t0, __s0); lemma_literals(); }
@loop 0
invariant
    __t0 == old(rx).taken(), __s0 == old(stream).sent(),
    rx.taken() == __t0 + since(__t0, rx.taken()), stream.sent() == __s0 + frames(since(__t0, rx.taken())),
?035 !command_active ==> rx.ended(),
?34 cmd_buffer@ == Seq::<char>::empty(),
?245 ensures rx.ended(),
@hint loop0.start
let ghost (__t, __s) = (rx.taken(), stream.sent());
@hint after call recv 0
proof {
    if rx.taken() != __t {
        let __c = rx.taken().last();
        lemma_since(__t0, __t, __c, __s0);
        lemma_two_writes(__s, __c);
        assert forall|t: Seq<char>| t =~= code(__c->SetTransmitState_0) + seq![';'] implies #[trigger] utf8_of(t) == frame(__c) by { lemma_frame(__c, t); }
    }
}
@loop 1
invariant
    data@.len() <= upd_buffer@.len(), stream.sent() == __s, rx.taken() == __t,
decreases data@.len()
@hint loop1.start
proof { lemma_frame_f(data@); }
@epilogue rig_wire.rs
