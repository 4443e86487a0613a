@source src/modem/vara.rs
@opt fmt
@opt derive
@type fmt::Formatter<'_> => Text
@type Formatter<'_> => Text
@type fmt::Result => Result<(), FmtError>
@exclude StationId
@prelude vara_id.rs
@prelude text.rs
@prelude vara_cmd.rs
@fn ListenMode::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + listen_word(*self),
@hint start
proof { lemma_literals(); }
@fn CompressionMode::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + compression_word(*self),
@hint start
proof { lemma_literals(); }
@fn BandwidthMode::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + bandwidth_word(*self),
@hint start
proof { lemma_literals(); }
@fn MyCallSigns::<Display>::fmt(f) ret=ret loops=1
ensures ret is Ok, final(f)@ == old(f)@ + (self.calls()[0] + spaced(self.calls().drop_first())),
@hint start
proof { lemma_literals(); assert(self.calls().drop_first() =~= names_of(self.1@)); }
@hint before loop0
proof { assert(names_of(self.1@).take(0) =~= Seq::<Word>::empty()); assert(f@ =~= old(f)@ + (shown(&self.0) + spaced(names_of(self.1@).take(0)))); }
@loop 0
invariant
    0 <= __i1 <= self.1@.len(), " "@ == seq![' '],
    f@ == old(f)@ + (shown(&self.0) + spaced(names_of(self.1@).take(__i1 as int))),
decreases self.1@.len() - __i1
@hint loop0.start
let ghost __k = __i1 as int;
@hint loop0.end
proof {
    let v = names_of(self.1@);
    lemma_spaced_last(v.take(__k), v[__k]);
    assert(v.take(__k + 1) =~= v.take(__k).push(v[__k]));
    assert(f@ =~= old(f)@ + (shown(&self.0) + spaced(v.take(__k + 1))));
}
@hint after loop0
proof { assert(names_of(self.1@).take(self.1@.len() as int) =~= names_of(self.1@)); }
@fn ConnectPath::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + spaced(via_words(self.path())),
@hint start
proof { lemma_literals(); lemma_via(self.path()); broadcast use group_concat; }
@fn ConnectCommand::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + (shown(&self.origin) + seq![' '] + shown(&self.target) + spaced(via_words(self.path.path()))),
@hint start
proof { lemma_literals(); broadcast use group_concat; }
@fn Command::<Display>::fmt(f) ret=ret
ensures ret is Ok, final(f)@ == old(f)@ + line_of(self.cmd()),
@hint start
proof { lemma_literals(); lemma_line_of(self.cmd()); broadcast use group_concat; }
@fn MyCallSigns::<From>::from(s) ret=ret
ensures ret.calls() == seq![shown(&s)],
@hint start
proof { assert(forall|v: Seq<Word>| v.len() == 0 ==> #[trigger] (seq![shown(&s)] + v) =~= seq![shown(&s)]); }
@epilogue vara_cmd_wire.rs
