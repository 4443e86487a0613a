@assume varastream.vspec
@assume varacmd.vspec
@opt async
@opt fmt
@opt owned
@type Receiver<(Command, tokio::sync::oneshot::Sender<CommandResult>)> => Orders
@type tokio::sync::oneshot::Sender<CommandResult> => Reply
@type VecDeque<Reply> => Queue
@type VecDeque => Queue
@type String => Text
@prelude vara_loop.rs
@fn manage_modem_thread(rx, tx, stream) ret=ret loops=4
ensures
    final(rx).taken() == old(rx).taken() + since(old(rx).taken(), final(rx).taken()),
    part_sent(old(stream).sent(), since(old(rx).taken(), final(rx).taken()), final(stream).sent()),
    final(stream).received() == old(stream).received() + news(old(stream).received(), final(stream).received()),
    exists|ev: Seq<Event>| {
        &&& #[trigger] served(ev, since(old(rx).taken(), final(rx).taken()), heard(old(tx), Seq::<CommandResult>::empty()), heard(final(tx), results_of(ev)), news(old(stream).received(), final(stream).received()))
        &&& ret is Ok ==> desk(ev).owed.len() == 0
    },
    ret is Ok ==> {
        &&& final(rx).ended()
        &&& feed(news(old(stream).received(), final(stream).received())).ok
        &&& final(stream).sent() == old(stream).sent() + all_on_wire(since(old(rx).taken(), final(rx).taken()))
    },
    final(stream).ended() && !old(stream).ended() ==> ret is Err,
    !feed(news(old(stream).received(), final(stream).received())).ok ==> ret is Err,
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
@hint start
hide(feed); hide(hear_all); hide(Command::cmd);
broadcast use group_concat;
let ghost (__t0, __s0, __r0, __h0) = (rx.taken(), stream.sent(), stream.received(), heard(tx, Seq::<CommandResult>::empty()));
let ghost mut __ev: Seq<Event> = Seq::<Event>::empty();
proof {
    lemma_since_none(__t0, __s0);
    lemma_cr();
    assert(news(__r0, __r0) =~= Seq::<u8>::empty());
    assert(__r0 =~= __r0 + Seq::<u8>::empty());
    lemma_feed_step(Seq::<u8>::empty());
    lemma_hear_none();
}
@loop 0
invariant
    __t0 == old(rx).taken(), __s0 == old(stream).sent(), __r0 == old(stream).received(), __h0 == heard(old(tx), Seq::<CommandResult>::empty()),
    rx.taken() == __t0 + since(__t0, rx.taken()),
    stream.sent() == __s0 + all_on_wire(since(__t0, rx.taken())),
    stream.received() == __r0 + news(__r0, stream.received()),
    served(__ev, since(__t0, rx.taken()), __h0, heard(tx, results_of(__ev)), news(__r0, stream.received())),
    feed(news(__r0, stream.received())).ok, upd_buffer@ == feed(news(__r0, stream.received())).rest,
    response_queue@ == desk(__ev).owed,
?035 !command_active ==> rx.ended(),
    stream.ended() ==> old(stream).ended(),
?34 cmd_buffer@ == Seq::<char>::empty(),
?245 ensures rx.ended(),
@hint loop0.start
let ghost (__t, __s, __q) = (rx.taken(), stream.sent(), response_queue@);
@hint after call recv 0
proof {
    if rx.taken() != __t {
        let __c = rx.taken().last();
        lemma_since(__t0, __t, __c, __s0);
        lemma_event(__ev, Event::Order(__c));
        lemma_two_writes(__s, __c);
        __ev = __ev.push(Event::Order(__c));
        assert(grown(__s, on_wire(__c), __s)) by { assert(on_wire(__c).take(0) =~= Seq::<u8>::empty()); assert(__s =~= __s + on_wire(__c).take(0)); }
        assert(served(__ev, since(__t0, rx.taken()), __h0, heard(tx, results_of(__ev)), news(__r0, stream.received())));
    }
}
@hint before call do_a_thing 0
let ghost (__ev0, __rcv0, __left0, __hrd0) = (__ev, stream.received(), upd_buffer@, heard(tx, results_of(__ev)));
let ghost (__str0, __a0) = (*stream, heard(tx, Seq::<CommandResult>::empty()));
@hint before loop1
proof {
    assert(results@.take(0) =~= Seq::<CommandResult>::empty());
    reveal_with_fuel(arrive, 2);
}
@loop 1
invariant
    0 <= __i1 <= results@.len(),
    response_queue@ == desk(arrive(__ev0, results@.take(__i1 as int))).owed,
    kept(desk(arrive(__ev0, results@.take(__i1 as int))).given),
decreases results@.len() - __i1
@hint loop1.start
let ghost __n = __i1 as int;
proof {
    lemma_arrive_push(__ev0, results@.take(__n), results@[__n]);
    lemma_event(arrive(__ev0, results@.take(__n)), Event::Result(results@[__n]));
    assert(results@.take(__n + 1) =~= results@.take(__n).push(results@[__n]));
}
@hint after loop1
proof {
    assert(results@.take(results@.len() as int) =~= results@);
    __ev = arrive(__ev0, results@);
    lemma_arrive(__ev0, results@);
    let (__c, __got) = (chunk(&__str0, stream), news(__r0, __rcv0));
    assert(stream.received() == __rcv0 + __c);
    assert(news(__r0, stream.received()) =~= __got + __c);
    assert(stream.received() =~= __r0 + news(__r0, stream.received()));
    if __c.len() == 0 {
        assert(__got + __c =~= __got);
        assert(heard(tx, results@).acks =~= Seq::<CommandResult>::empty());
        assert(results_of(__ev0) + results@ =~= results_of(__ev0));
        assert(heard(tx, results_of(__ev)) == __hrd0);
    } else {
        lemma_more(__h0, __hrd0, __a0, heard(tx, results@), __got, __c);
        assert(heard(tx, results_of(__ev)) == (Heard { acks: __hrd0.acks + heard(tx, results@).acks, ..heard(tx, results@) }));
    }
    assert(served(__ev, since(__t0, rx.taken()), __h0, heard(tx, results_of(__ev)), news(__r0, stream.received())));
}
@loop 2
invariant
    rx.ended(),
    __t0 == old(rx).taken(), __s0 == old(stream).sent(), __r0 == old(stream).received(), __h0 == heard(old(tx), Seq::<CommandResult>::empty()),
    rx.taken() == __t0 + since(__t0, rx.taken()),
    stream.sent() == __s0 + all_on_wire(since(__t0, rx.taken())),
    stream.received() == __r0 + news(__r0, stream.received()),
    served(__ev, since(__t0, rx.taken()), __h0, heard(tx, results_of(__ev)), news(__r0, stream.received())),
    feed(news(__r0, stream.received())).ok, upd_buffer@ == feed(news(__r0, stream.received())).rest,
    response_queue@ == desk(__ev).owed,
    stream.ended() ==> old(stream).ended(),
@hint before call do_a_thing 1
let ghost (__ev1, __rcv1, __left1, __hrd1) = (__ev, stream.received(), upd_buffer@, heard(tx, results_of(__ev)));
let ghost (__str1, __a1) = (*stream, heard(tx, Seq::<CommandResult>::empty()));
@hint before loop3
proof {
    assert(results@.take(0) =~= Seq::<CommandResult>::empty());
    reveal_with_fuel(arrive, 2);
}
@loop 3
invariant
    0 <= __i2 <= results@.len(),
    response_queue@ == desk(arrive(__ev1, results@.take(__i2 as int))).owed,
    kept(desk(arrive(__ev1, results@.take(__i2 as int))).given),
decreases results@.len() - __i2
@hint loop3.start
let ghost __n = __i2 as int;
proof {
    lemma_arrive_push(__ev1, results@.take(__n), results@[__n]);
    lemma_event(arrive(__ev1, results@.take(__n)), Event::Result(results@[__n]));
    assert(results@.take(__n + 1) =~= results@.take(__n).push(results@[__n]));
}
@hint after loop3
proof {
    assert(results@.take(results@.len() as int) =~= results@);
    __ev = arrive(__ev1, results@);
    lemma_arrive(__ev1, results@);
    let (__c, __got) = (chunk(&__str1, stream), news(__r0, __rcv1));
    assert(stream.received() == __rcv1 + __c);
    assert(news(__r0, stream.received()) =~= __got + __c);
    assert(stream.received() =~= __r0 + news(__r0, stream.received()));
    if __c.len() == 0 {
        assert(__got + __c =~= __got);
        assert(heard(tx, results@).acks =~= Seq::<CommandResult>::empty());
        assert(results_of(__ev1) + results@ =~= results_of(__ev1));
        assert(heard(tx, results_of(__ev)) == __hrd1);
    } else {
        lemma_more(__h0, __hrd1, __a1, heard(tx, results@), __got, __c);
        assert(heard(tx, results_of(__ev)) == (Heard { acks: __hrd1.acks + heard(tx, results@).acks, ..heard(tx, results@) }));
    }
    assert(served(__ev, since(__t0, rx.taken()), __h0, heard(tx, results_of(__ev)), news(__r0, stream.received())));
}
@epilogue vara_loop_wire.rs
