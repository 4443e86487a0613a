// ---- C14: what a status line says ----
pub open spec fn on_word(on: bool) -> Seq<u8> { if on { w_on() } else { w_off() } }
/// the whole line d is the status line that says s
pub open spec fn line_says(d: Seq<u8>, s: Said) -> bool {
    match s {
        Said::Result(CommandResult::Ok) => d == w_ok(),
        Said::Result(CommandResult::Wrong) => d == w_wrong(),
        Said::Alive => d == w_alive(),
        Said::Buffer(n) => exists|t: Seq<u8>| #[trigger] number_says(t, n) && d == w_buffer() + t,
        Said::Busy(b) => d == w_busy() + on_word(b == BusyState::Busy),
        Said::Ptt(t) => d == w_ptt() + on_word(t == TransceiverCommand::Transmit),
        Said::Link(Link::Disconnected) => d == w_disconnected(),
        Said::Link(Link::Pending) => d == w_pending(),
        Said::Link(Link::Canceled) => d == w_canceled(),
        Said::Link(Link::Connected(a, b)) => call(a) && call(b) && d == w_connected() + a + w_space() + b,
        Said::Registered(a) => call(a) && d == w_registered() + a,
        Said::Remote(_) => false,
    }
}
/// the line is read, as a whole, as s
pub open spec fn read_as(d: Seq<u8>, s: Said) -> bool { response_f(d) == Pr::Yes(Seq::<u8>::empty(), s) }

proof fn lemma_starts(w: Seq<u8>, t: Seq<u8>)
    ensures starts(w + t, w), after(w + t, w) == Pr::Yes(t, w), w + Seq::<u8>::empty() == w
{
    assert((w + t).take(w.len() as int) =~= w);
    assert((w + t).skip(w.len() as int) =~= t);
    assert(w + Seq::<u8>::empty() =~= w);
}
proof fn lemma_after_sound(d: Seq<u8>, w: Seq<u8>)
    ensures after(d, w) matches Pr::Yes(r, t) ==> d == w + r && t == w
{
    if starts(d, w) { assert(d =~= d.take(w.len() as int) + d.skip(w.len() as int)); }
}
proof fn lemma_on(on: bool)
    ensures on_f(on_word(on)) == Pr::Yes(Seq::<u8>::empty(), on)
{
    lemma_starts(w_on(), Seq::<u8>::empty());
    lemma_starts(w_off(), Seq::<u8>::empty());
    lemma_one_word(on_word(on));
}
proof fn lemma_on_sound(d: Seq<u8>)
    ensures on_f(d) matches Pr::Yes(r, on) ==> d == on_word(on) + r
{
    lemma_after_sound(d, w_on());
    lemma_after_sound(d, w_off());
}
proof fn lemma_call_read(t: Seq<u8>, tail: Seq<u8>)
    requires call(t), tail.len() > 0 ==> !call_byte()(tail[0])
    ensures call_f(t + tail) == Pr::Yes(tail, t)
{
    let d = t + tail;
    assert forall|j: int| 0 <= j < t.len() implies call_byte()(#[trigger] d[j]) by { assert(d[j] == t[j]); }
    if tail.len() > 0 { assert(d[t.len() as int] == tail[0]); }
    lemma_span(d, call_byte(), t.len() as int);
    assert(d.take(t.len() as int) =~= t);
    assert(d.skip(t.len() as int) =~= tail);
}
proof fn lemma_count_read(t: Seq<u8>, n: usize)
    requires number_says(t, n)
    ensures count_f(t) == Pr::Yes(Seq::<u8>::empty(), n)
{
    assert forall|j: int| 0 <= j < t.len() implies digit_byte()(#[trigger] t[j]) by { assert(digit(t[j])); }
    lemma_span(t, digit_byte(), t.len() as int);
    assert(t.take(t.len() as int) =~= t);
    assert(t.skip(t.len() as int) =~= Seq::<u8>::empty());
}
/// Every known status line, as a whole, is read as exactly what it says.
proof fn property_c14_status_lines_are_read(d: Seq<u8>, s: Said)
    requires line_says(d, s)
    ensures read_as(d, s)
{
    let e = Seq::<u8>::empty();
    lemma_one_word(d);
    match s {
        Said::Result(CommandResult::Ok) => { lemma_starts(w_ok(), e); }
        Said::Result(CommandResult::Wrong) => { lemma_starts(w_wrong(), e); }
        Said::Alive => { lemma_starts(w_alive(), e); }
        Said::Buffer(n) => {
            let t = choose|t: Seq<u8>| #[trigger] number_says(t, n) && d == w_buffer() + t;
            lemma_starts(w_buffer(), t);
            lemma_count_read(t, n);
        }
        Said::Busy(b) => { lemma_starts(w_busy(), on_word(b == BusyState::Busy)); lemma_on(b == BusyState::Busy); }
        Said::Ptt(t) => { lemma_starts(w_ptt(), on_word(t == TransceiverCommand::Transmit)); lemma_on(t == TransceiverCommand::Transmit); }
        Said::Link(Link::Disconnected) => { lemma_starts(w_disconnected(), e); }
        Said::Link(Link::Pending) => { lemma_starts(w_pending(), e); }
        Said::Link(Link::Canceled) => { lemma_starts(w_canceled(), e); }
        Said::Link(Link::Connected(a, b)) => {
            let t = a + (w_space() + b);
            assert(d =~= w_connected() + t);
            lemma_starts(w_connected(), t);
            lemma_call_read(a, w_space() + b);
            lemma_starts(w_space(), b);
            lemma_call_read(b, e);
            assert(b + e =~= b);
        }
        Said::Registered(a) => { lemma_starts(w_registered(), a); lemma_call_read(a, e); assert(a + e =~= a); }
        Said::Remote(_) => {}
    }
}
/// Nothing else is read as anything: a line is accepted, as a whole, only if it is the status line that says so.
proof fn property_c14_only_status_lines(d: Seq<u8>, s: Said)
    requires read_as(d, s)
    ensures line_says(d, s)
{
    let e = Seq::<u8>::empty();
    lemma_one_word(d);
    lemma_after_sound(d, w_ok()); lemma_after_sound(d, w_wrong()); lemma_after_sound(d, w_alive()); lemma_after_sound(d, w_buffer());
    lemma_after_sound(d, w_busy()); lemma_after_sound(d, w_ptt()); lemma_after_sound(d, w_registered()); lemma_after_sound(d, w_disconnected());
    lemma_after_sound(d, w_pending()); lemma_after_sound(d, w_canceled()); lemma_after_sound(d, w_connected());
    assert forall|w: Seq<u8>| #[trigger] (w + e) == w by { assert(w + e =~= w); }
    if starts(d, w_buffer()) { lemma_count_sound(d.skip(7)); }
    if starts(d, w_busy()) { lemma_on_sound(d.skip(5)); }
    if starts(d, w_ptt()) { lemma_on_sound(d.skip(4)); }
    if starts(d, w_registered()) { lemma_call_sound(d.skip(11)); }
    if starts(d, w_connected()) {
        let d1 = d.skip(10);
        lemma_call_sound(d1);
        if call_f(d1) is Yes {
            let d2 = call_f(d1)->Yes_0;
            lemma_after_sound(d2, w_space());
            if starts(d2, w_space()) {
                lemma_call_sound(d2.skip(1));
                if call_f(d2.skip(1)) is Yes {
                    let (a, b) = (call_f(d1)->Yes_1, call_f(d2.skip(1))->Yes_1);
                    let r = call_f(d2.skip(1))->Yes_0;
                    assert(d =~= w_connected() + a + w_space() + (b + r));
                }
            }
        }
    }
    match s {
        Said::Result(_) => {}
        Said::Alive => {}
        Said::Buffer(n) => { let t = d.skip(7); assert(number_says(t.take(span(t, digit_byte())), n)); }
        Said::Busy(_) => {}
        Said::Ptt(_) => {}
        Said::Link(_) => {}
        Said::Registered(_) => {}
        Said::Remote(_) => {}
    }
}
/// A line is decided as it stands, and a transmit order is never read as anything else.
proof fn property_c14_decided(d: Seq<u8>)
    ensures
        !(response_f(d) is More), !(response_f(d) is Stop),
        read_as(d, Said::Ptt(TransceiverCommand::Transmit)) <==> d == w_ptt() + w_on(),
        read_as(d, Said::Ptt(TransceiverCommand::Receive)) <==> d == w_ptt() + w_off(),
{
    lemma_decided(d);
    let (on, off) = (w_ptt() + w_on(), w_ptt() + w_off());
    if d == on { property_c14_status_lines_are_read(d, Said::Ptt(TransceiverCommand::Transmit)); }
    if d == off { property_c14_status_lines_are_read(d, Said::Ptt(TransceiverCommand::Receive)); }
    if read_as(d, Said::Ptt(TransceiverCommand::Transmit)) { property_c14_only_status_lines(d, Said::Ptt(TransceiverCommand::Transmit)); }
    if read_as(d, Said::Ptt(TransceiverCommand::Receive)) { property_c14_only_status_lines(d, Said::Ptt(TransceiverCommand::Receive)); }
}
/// C12: identifiers read from the modem are 3 to 7 upper-case letters and digits.
proof fn property_c12_modem_identifiers(d: Seq<u8>)
    ensures call_f(d) matches Pr::Yes(r, t) ==> 3 <= t.len() <= 7 && d == t + r && forall|j: int| 0 <= j < t.len() ==> 0x41 <= #[trigger] t[j] <= 0x5a || 0x30 <= t[j] <= 0x39
{
    lemma_call_sound(d);
    if call_f(d) is Yes {
        let t = call_f(d)->Yes_1;
        assert forall|j: int| 0 <= j < t.len() implies 0x41 <= #[trigger] t[j] <= 0x5a || 0x30 <= t[j] <= 0x39 by { assert(call_byte()(t[j])); }
    }
}
