@assume varaline.vspec
@call .try_map_into_str => try_map_into_str
@call .map_err => map_err_text
@call .finish => nom_finish
@call .into => into_report
@type std::io::Error::new => IoError::new
@type std::io::ErrorKind => ErrorKind
@type std::time::Instant => Instant
@type std::collections::HashSet<StationId> => Stations
@type tokio::sync::watch::Sender => Sender
@type color_eyre::Result<()> => Result<(), Report>
@type bytes::BytesMut => BytesMut
@exclude StationId
@prelude vara_id.rs
@prelude io.rs
@prelude vara_stream.rs
@prelude vara_feed.rs
@fn line(data) ret=ret
ensures bytes_is(ret, line_f(data@)),
@hint start
proof { assert([13u8]@ =~= seq![13u8]); lemma_line_f(data@); }
@fn ConnectionState::into_owned() ret=ret
ensures ret.link() == self.link(),
@fn do_a_thing(stream, upd_buffer, tx, to_acknowledge) ret=ret loops=1
ensures
    final(stream).sent() == old(stream).sent(),
    final(stream).received() == old(stream).received() + chunk(old(stream), final(stream)),
    chunk(old(stream), final(stream)).len() == 0 ==> {
        &&& heard(final(tx), final(to_acknowledge)@) == heard(old(tx), old(to_acknowledge)@)
        &&& final(upd_buffer)@ == old(upd_buffer)@
        &&& ret is Err == final(stream).ended()
    },
    chunk(old(stream), final(stream)).len() > 0 ==> {
        let f = feed(old(upd_buffer)@ + chunk(old(stream), final(stream)));
        &&& heard(final(tx), final(to_acknowledge)@) == hear_all(heard(old(tx), old(to_acknowledge)@), f.said)
        &&& ret is Ok == f.ok
        &&& ret is Ok ==> final(upd_buffer)@ == f.rest
        &&& !final(stream).ended()
    },
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@hint start
hide(feed); hide(hear_all); hide(response_f); hide(line_f); hide(heard);
@hint loop0.start
proof { lemma_hear_none(); lemma_feed_step(data@); lemma_line_f(data@); if line_f(data@) is Yes { lemma_decided(line_f(data@)->Yes_1); } }
let ghost (__before, __d0) = (heard(tx, to_acknowledge@), data@);
@hint before loop0
proof { assert(upd_buffer@ =~= old(upd_buffer)@ + chunk(old(stream), stream)); lemma_feed_step(data@); lemma_hear_none(); assert(data@.skip(0) =~= data@); }
let ghost __all = upd_buffer@;
let ghost __h0 = heard(tx, to_acknowledge@);
@loop 0
invariant_except_break
    feed(__all).ok == feed(data@).ok, feed(__all).rest == feed(data@).rest,
    hear_all(__h0, feed(__all).said) == hear_all(heard(tx, to_acknowledge@), feed(data@).said),
invariant
    data@.len() <= __all.len(), data@ == __all.skip(__all.len() - data@.len()), upd_buffer@ == __all,
ensures
    feed(__all).ok, feed(__all).rest == data@, hear_all(__h0, feed(__all).said) == heard(tx, to_acknowledge@),
decreases data@.len()
@hint loop0.end
proof {
    reveal(heard);
    let __n = hear(__before, reading(line_f(__d0)->Yes_1)->Some_0);
    let __m = heard(tx, to_acknowledge@);
    assert(__m.links =~= __n.links);
    assert(__m.registered =~= __n.registered);
    assert(__m == __n);
}
@hint after loop0
proof { lemma_feed_step(data@); lemma_hear_none(); }
@epilogue vara_stream_wire.rs
