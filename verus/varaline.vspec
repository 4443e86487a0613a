@source src/types.rs
@source src/modem/vara.rs
@opt nom
@opt derive
@call std::str::from_utf8_unchecked => str_unchecked
@call StationIdRef::from_str_unchecked => station_unchecked
@call usize::from_str_radix => usize_radix
@type crate::types::callsign => callsign
@prelude nom.rs
@prelude vara_line.rs
@fn callsign(s) ret=ret loops=1
ensures fails(ret, call_f(s@)), ret matches Ok((r, o)) ==> call_f(s@) == Pr::Yes(r@, station(o)),
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> call_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !call_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof { lemma_span(__t1@, call_byte(), __k1 as int); lemma_call(__t1@, __k1 as int); }
@fn on_or_off(data) ret=ret
ensures val_is(ret, on_f(data@)),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_one_word(data@); }
@fn command_result(data) ret=ret
ensures val_is(ret, result_f(data@)),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_one_word(data@); }
@fn busy_state(data) ret=ret
ensures val_is(ret, busy_f(data@)),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_switches(data@); }
@fn transmit_state(data) ret=ret
ensures val_is(ret, ptt_f(data@)),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_switches(data@); }
@fn buffer(data) ret=ret loops=1
ensures fails(ret, buffer_f(data@)), ret matches Ok((r, o)) ==> buffer_f(data@) == Pr::Yes(r@, o.said()),
@hint start
proof { lemma_words(); lemma_after(data@); }
@loop 0
invariant 0 <= __k1 <= __t1@.len(), forall|j: int| 0 <= j < __k1 ==> digit_byte()(#[trigger] __t1@[j]),
ensures __k1 < __t1@.len() ==> !digit_byte()(__t1@[__k1 as int]),
decreases __t1@.len() - __k1
@hint after loop0
proof {
    lemma_span(__t1@, digit_byte(), __k1 as int);
    assert forall|j: int| 0 <= j < __k1 implies digit(#[trigger] __t1@.take(__k1 as int)[j]) by { assert(digit_byte()(__t1@[j])); }
}
@fn registered(data) ret=ret
ensures fails(ret, registered_f(data@)), ret matches Ok((r, o)) ==> registered_f(data@) == Pr::Yes(r@, o.said()),
@hint start
proof { lemma_words(); lemma_after(data@); }
@fn disconnected(data) ret=ret
ensures fails(ret, says(after(data@, w_disconnected()), Link::Disconnected)), ret matches Ok((r, o)) ==> says(after(data@, w_disconnected()), Link::Disconnected) == Pr::Yes(r@, o.link()),
@hint start
proof { lemma_words(); lemma_after(data@); }
@fn pending(data) ret=ret
ensures fails(ret, says(after(data@, w_pending()), Link::Pending)), ret matches Ok((r, o)) ==> says(after(data@, w_pending()), Link::Pending) == Pr::Yes(r@, o.link()),
@hint start
proof { lemma_words(); lemma_after(data@); }
@fn canceled(data) ret=ret
ensures fails(ret, says(after(data@, w_canceled()), Link::Canceled)), ret matches Ok((r, o)) ==> says(after(data@, w_canceled()), Link::Canceled) == Pr::Yes(r@, o.link()),
@hint start
proof { lemma_words(); lemma_after(data@); }
@fn connected(data) ret=ret
ensures fails(ret, connected_f(data@)), ret matches Ok((r, o)) ==> connected_f(data@) == Pr::Yes(r@, o.link()),
@hint start
proof { lemma_words(); lemma_after(data@); if starts(data@, w_connected()) { let r = data@.skip(10); if call_f(r) is Yes { lemma_after(call_f(r)->Yes_0); } } }
@fn connection_state(data) ret=ret
ensures fails(ret, link_f(data@)), ret matches Ok((r, o)) ==> link_f(data@) == Pr::Yes(r@, o.link()),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_one_word(data@); }
@fn update(data) ret=ret
ensures fails(ret, update_f(data@)), ret matches Ok((r, o)) ==> update_f(data@) == Pr::Yes(r@, o.said()),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_one_word(data@); }
@fn tnc_response(data) ret=ret
ensures fails(ret, response_f(data@)), ret matches Ok((r, o)) ==> response_f(data@) == Pr::Yes(r@, o.said()),
@hint start
proof { lemma_words(); lemma_after(data@); lemma_one_word(data@); }
@epilogue vara_line_wire.rs
