// ---- status lines of the modem ----
// StationIdRef is made by the `braid` macro: a wrapper around its text.
#[verifier::external_body] pub struct StationIdRef { x: u8 }
pub uninterp spec fn station(s: &StationIdRef) -> Seq<u8>;
/// made without checking: sound only for the text of a call sign
#[verifier::external_body]
fn station_unchecked<'a>(s: &'a str) -> (ret: &'a StationIdRef)
    requires call(text(s))
    ensures station(ret) == text(s)
{ unimplemented!() }

pub open spec fn w_ok() -> Seq<u8> { seq![79u8, 75u8] } // "OK"
pub open spec fn w_wrong() -> Seq<u8> { seq![87u8, 82u8, 79u8, 78u8, 71u8] } // "WRONG"
pub open spec fn w_alive() -> Seq<u8> { seq![73u8, 65u8, 77u8, 65u8, 76u8, 73u8, 86u8, 69u8] } // "IAMALIVE"
pub open spec fn w_buffer() -> Seq<u8> { seq![66u8, 85u8, 70u8, 70u8, 69u8, 82u8, 32u8] } // "BUFFER "
pub open spec fn w_busy() -> Seq<u8> { seq![66u8, 85u8, 83u8, 89u8, 32u8] } // "BUSY "
pub open spec fn w_ptt() -> Seq<u8> { seq![80u8, 84u8, 84u8, 32u8] } // "PTT "
pub open spec fn w_on() -> Seq<u8> { seq![79u8, 78u8] } // "ON"
pub open spec fn w_off() -> Seq<u8> { seq![79u8, 70u8, 70u8] } // "OFF"
pub open spec fn w_registered() -> Seq<u8> { seq![82u8, 69u8, 71u8, 73u8, 83u8, 84u8, 69u8, 82u8, 69u8, 68u8, 32u8] } // "REGISTERED "
pub open spec fn w_disconnected() -> Seq<u8> { seq![68u8, 73u8, 83u8, 67u8, 79u8, 78u8, 78u8, 69u8, 67u8, 84u8, 69u8, 68u8] } // "DISCONNECTED"
pub open spec fn w_pending() -> Seq<u8> { seq![80u8, 69u8, 78u8, 68u8, 73u8, 78u8, 71u8] } // "PENDING"
pub open spec fn w_canceled() -> Seq<u8> { seq![67u8, 65u8, 78u8, 67u8, 69u8, 76u8, 80u8, 69u8, 78u8, 68u8, 73u8, 78u8, 71u8] } // "CANCELPENDING"
pub open spec fn w_connected() -> Seq<u8> { seq![67u8, 79u8, 78u8, 78u8, 69u8, 67u8, 84u8, 69u8, 68u8, 32u8] } // "CONNECTED "
pub open spec fn w_space() -> Seq<u8> { seq![32u8] } // " "
proof fn lemma_words()
    ensures
        [79u8, 75u8]@ == w_ok(),
        [87u8, 82u8, 79u8, 78u8, 71u8]@ == w_wrong(),
        [73u8, 65u8, 77u8, 65u8, 76u8, 73u8, 86u8, 69u8]@ == w_alive(),
        [66u8, 85u8, 70u8, 70u8, 69u8, 82u8, 32u8]@ == w_buffer(),
        [66u8, 85u8, 83u8, 89u8, 32u8]@ == w_busy(),
        [80u8, 84u8, 84u8, 32u8]@ == w_ptt(),
        [79u8, 78u8]@ == w_on(),
        [79u8, 70u8, 70u8]@ == w_off(),
        [82u8, 69u8, 71u8, 73u8, 83u8, 84u8, 69u8, 82u8, 69u8, 68u8, 32u8]@ == w_registered(),
        [68u8, 73u8, 83u8, 67u8, 79u8, 78u8, 78u8, 69u8, 67u8, 84u8, 69u8, 68u8]@ == w_disconnected(),
        [80u8, 69u8, 78u8, 68u8, 73u8, 78u8, 71u8]@ == w_pending(),
        [67u8, 65u8, 78u8, 67u8, 69u8, 76u8, 80u8, 69u8, 78u8, 68u8, 73u8, 78u8, 71u8]@ == w_canceled(),
        [67u8, 79u8, 78u8, 78u8, 69u8, 67u8, 84u8, 69u8, 68u8, 32u8]@ == w_connected(),
        [32u8]@ == w_space(),
{
    assert([79u8, 75u8]@ =~= w_ok());
    assert([87u8, 82u8, 79u8, 78u8, 71u8]@ =~= w_wrong());
    assert([73u8, 65u8, 77u8, 65u8, 76u8, 73u8, 86u8, 69u8]@ =~= w_alive());
    assert([66u8, 85u8, 70u8, 70u8, 69u8, 82u8, 32u8]@ =~= w_buffer());
    assert([66u8, 85u8, 83u8, 89u8, 32u8]@ =~= w_busy());
    assert([80u8, 84u8, 84u8, 32u8]@ =~= w_ptt());
    assert([79u8, 78u8]@ =~= w_on());
    assert([79u8, 70u8, 70u8]@ =~= w_off());
    assert([82u8, 69u8, 71u8, 73u8, 83u8, 84u8, 69u8, 82u8, 69u8, 68u8, 32u8]@ =~= w_registered());
    assert([68u8, 73u8, 83u8, 67u8, 79u8, 78u8, 78u8, 69u8, 67u8, 84u8, 69u8, 68u8]@ =~= w_disconnected());
    assert([80u8, 69u8, 78u8, 68u8, 73u8, 78u8, 71u8]@ =~= w_pending());
    assert([67u8, 65u8, 78u8, 67u8, 69u8, 76u8, 80u8, 69u8, 78u8, 68u8, 73u8, 78u8, 71u8]@ =~= w_canceled());
    assert([67u8, 79u8, 78u8, 78u8, 69u8, 67u8, 84u8, 69u8, 68u8, 32u8]@ =~= w_connected());
    assert([32u8]@ =~= w_space());
}
pub open spec fn starts(d: Seq<u8>, w: Seq<u8>) -> bool { d.len() >= w.len() && d.take(w.len() as int) == w }
/// what follows the word w
pub open spec fn after(d: Seq<u8>, w: Seq<u8>) -> Pr<Seq<u8>> { if starts(d, w) { Pr::Yes(d.skip(w.len() as int), w) } else { Pr::No } }
proof fn lemma_after(d: Seq<u8>)
    ensures forall|w: Seq<u8>| #[trigger] tag_c(d, w) == after(d, w)
{
    assert forall|w: Seq<u8>| #[trigger] tag_c(d, w) == after(d, w) by {
        assert(w.take(w.len() as int) =~= w);
        if d.len() >= w.len() { assert(least(d.len() as int, w.len() as int) == w.len()); }
    }
}
/// a word of two parts is there when one part is and then the other
proof fn lemma_after_both(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures after(d, a + b) == then(after(d, a), |r: Seq<u8>, t: Seq<u8>| says(after(r, b), a + b))
{
    let n = (a.len() + b.len()) as int;
    if starts(d, a + b) {
        assert(d.take(a.len() as int) =~= (a + b).take(a.len() as int));
        assert((a + b).take(a.len() as int) =~= a);
        assert(d.skip(a.len() as int).take(b.len() as int) =~= d.take(n).skip(a.len() as int));
        assert((a + b).skip(a.len() as int) =~= b);
    }
    if starts(d, a) && starts(d.skip(a.len() as int), b) {
        assert(d.take(n) =~= d.take(a.len() as int) + d.skip(a.len() as int).take(b.len() as int));
        assert(d.skip(a.len() as int).skip(b.len() as int) =~= d.skip(n));
    }
}
/// a switch said in one word
proof fn lemma_switches(d: Seq<u8>)
    ensures
        [80u8, 84u8, 84u8, 32u8, 79u8, 78u8]@ == w_ptt() + w_on(),
        [80u8, 84u8, 84u8, 32u8, 79u8, 70u8, 70u8]@ == w_ptt() + w_off(),
        [66u8, 85u8, 83u8, 89u8, 32u8, 79u8, 78u8]@ == w_busy() + w_on(),
        [66u8, 85u8, 83u8, 89u8, 32u8, 79u8, 70u8, 70u8]@ == w_busy() + w_off(),
        starts(d, w_on()) ==> !starts(d, w_off()),
        forall|w: Seq<u8>, x: Seq<u8>| #[trigger] after(d, w + x) == then(after(d, w), |r: Seq<u8>, t: Seq<u8>| says(after(r, x), w + x)),
{
    assert([80u8, 84u8, 84u8, 32u8, 79u8, 78u8]@ =~= w_ptt() + w_on());
    assert([80u8, 84u8, 84u8, 32u8, 79u8, 70u8, 70u8]@ =~= w_ptt() + w_off());
    assert([66u8, 85u8, 83u8, 89u8, 32u8, 79u8, 78u8]@ =~= w_busy() + w_on());
    assert([66u8, 85u8, 83u8, 89u8, 32u8, 79u8, 70u8, 70u8]@ =~= w_busy() + w_off());
    lemma_one_word(d);
    assert forall|w: Seq<u8>, x: Seq<u8>| #[trigger] after(d, w + x) == then(after(d, w), |r: Seq<u8>, t: Seq<u8>| says(after(r, x), w + x)) by { lemma_after_both(d, w, x); }
}
pub open spec fn or_else<T>(p: Pr<T>, q: Pr<T>) -> Pr<T> { if p is No { q } else { p } }
pub open spec fn says<T, U>(p: Pr<T>, v: U) -> Pr<U> { then(p, |r: Seq<u8>, t: T| Pr::Yes(r, v)) }

pub open spec fn call_byte() -> spec_fn(u8) -> bool { |b: u8| 0x41 <= b <= 0x5a || digit(b) }
/// 3 to 7 upper-case letters and digits
pub open spec fn call(t: Seq<u8>) -> bool { 3 <= t.len() <= 7 && forall|j: int| 0 <= j < t.len() ==> call_byte()(#[trigger] t[j]) }
pub open spec fn call_f(d: Seq<u8>) -> Pr<Seq<u8>> { while_m_n_c(d, 3, 7, span(d, call_byte())) }

pub enum Link { Disconnected, Pending, Canceled, Connected(Seq<u8>, Seq<u8>) }
pub enum Said { Result(CommandResult), Alive, Buffer(usize), Busy(BusyState), Link(Link), Ptt(TransceiverCommand), Registered(Seq<u8>), Remote(Registration) }
impl<'a> ConnectionState<'a> {
    pub open spec fn link(&self) -> Link {
        match self {
            ConnectionState::Disconnected => Link::Disconnected,
            ConnectionState::Pending => Link::Pending,
            ConnectionState::Canceled => Link::Canceled,
            ConnectionState::Connected { my_station, other_station } => Link::Connected(station(*my_station), station(*other_station)),
        }
    }
}
impl<'a> Update<'a> {
    pub open spec fn said(&self) -> Said {
        match self {
            Update::Heartbeat => Said::Alive,
            Update::Buffer { bytes_remaining } => Said::Buffer(*bytes_remaining),
            Update::Busy(b) => Said::Busy(*b),
            Update::Connection(c) => Said::Link(c.link()),
            Update::TransceiverControl(t) => Said::Ptt(*t),
            Update::Registered { my_call } => Said::Registered(station(*my_call)),
            Update::RemoteRegistration(r) => Said::Remote(*r),
        }
    }
}
impl<'a> TncResponse<'a> {
    pub open spec fn said(&self) -> Said { match self { TncResponse::Update(u) => u.said(), TncResponse::CommandResult(r) => Said::Result(*r) } }
}
pub open spec fn on_f(d: Seq<u8>) -> Pr<bool> { or_else(says(after(d, w_on()), true), says(after(d, w_off()), false)) }
pub open spec fn result_f(d: Seq<u8>) -> Pr<CommandResult> { or_else(says(after(d, w_ok()), CommandResult::Ok), says(after(d, w_wrong()), CommandResult::Wrong)) }
pub open spec fn busy_f(d: Seq<u8>) -> Pr<BusyState> { then(after(d, w_busy()), |r: Seq<u8>, t: Seq<u8>| then(on_f(r), |q: Seq<u8>, on: bool| Pr::Yes(q, if on { BusyState::Busy } else { BusyState::NotBusy }))) }
pub open spec fn ptt_f(d: Seq<u8>) -> Pr<TransceiverCommand> { then(after(d, w_ptt()), |r: Seq<u8>, t: Seq<u8>| then(on_f(r), |q: Seq<u8>, on: bool| Pr::Yes(q, if on { TransceiverCommand::Transmit } else { TransceiverCommand::Receive }))) }
pub open spec fn count_f(d: Seq<u8>) -> Pr<usize> {
    let k = span(d, digit_byte());
    if k > 0 && decimal(d.take(k)) <= usize::MAX { Pr::Yes(d.skip(k), decimal(d.take(k)) as usize) } else { Pr::No }
}
pub open spec fn buffer_f(d: Seq<u8>) -> Pr<Said> { then(after(d, w_buffer()), |r: Seq<u8>, t: Seq<u8>| then(count_f(r), |q: Seq<u8>, n: usize| Pr::Yes(q, Said::Buffer(n)))) }
pub open spec fn registered_f(d: Seq<u8>) -> Pr<Said> { then(after(d, w_registered()), |r: Seq<u8>, t: Seq<u8>| then(call_f(r), |q: Seq<u8>, c: Seq<u8>| Pr::Yes(q, Said::Registered(c)))) }
pub open spec fn pair_f(d: Seq<u8>) -> Pr<Link> {
    then(call_f(d), |r: Seq<u8>, a: Seq<u8>| then(after(r, w_space()), |q: Seq<u8>, t: Seq<u8>| then(call_f(q), |p: Seq<u8>, b: Seq<u8>| Pr::Yes(p, Link::Connected(a, b)))))
}
pub open spec fn connected_f(d: Seq<u8>) -> Pr<Link> { then(after(d, w_connected()), |r: Seq<u8>, t: Seq<u8>| pair_f(r)) }
pub open spec fn link_f(d: Seq<u8>) -> Pr<Link> {
    or_else(says(after(d, w_disconnected()), Link::Disconnected), or_else(says(after(d, w_pending()), Link::Pending), or_else(says(after(d, w_canceled()), Link::Canceled), connected_f(d))))
}
pub open spec fn update_f(d: Seq<u8>) -> Pr<Said> {
    or_else(says(after(d, w_alive()), Said::Alive),
    or_else(buffer_f(d),
    or_else(then(busy_f(d), |r: Seq<u8>, b: BusyState| Pr::Yes(r, Said::Busy(b))),
    or_else(then(link_f(d), |r: Seq<u8>, c: Link| Pr::Yes(r, Said::Link(c))),
    or_else(then(ptt_f(d), |r: Seq<u8>, t: TransceiverCommand| Pr::Yes(r, Said::Ptt(t))), registered_f(d))))))
}
pub open spec fn response_f(d: Seq<u8>) -> Pr<Said> { or_else(then(result_f(d), |r: Seq<u8>, c: CommandResult| Pr::Yes(r, Said::Result(c))), update_f(d)) }
pub open spec fn digit_byte() -> spec_fn(u8) -> bool { |b: u8| digit(b) }
/// at most one of the words begins a line: their first three bytes tell them apart
proof fn lemma_one_word(d: Seq<u8>)
    ensures
        starts(d, w_ok()) ==> d[0] == 79 && d[1] == 75, starts(d, w_wrong()) ==> d[0] == 87, starts(d, w_alive()) ==> d[0] == 73,
        starts(d, w_buffer()) ==> d[0] == 66 && d[2] == 70, starts(d, w_busy()) ==> d[0] == 66 && d[2] == 83,
        starts(d, w_ptt()) ==> d[0] == 80 && d[1] == 84, starts(d, w_pending()) ==> d[0] == 80 && d[1] == 69,
        starts(d, w_on()) ==> d[0] == 79 && d[1] == 78, starts(d, w_off()) ==> d[0] == 79 && d[1] == 70,
        starts(d, w_registered()) ==> d[0] == 82, starts(d, w_disconnected()) ==> d[0] == 68,
        starts(d, w_canceled()) ==> d[0] == 67 && d[1] == 65, starts(d, w_connected()) ==> d[0] == 67 && d[1] == 79,
        starts(d, w_space()) ==> d[0] == 32,
{
    assert forall|w: Seq<u8>, j: int| starts(d, w) && 0 <= j < w.len() implies #[trigger] w[j] == d[j] by { assert(d.take(w.len() as int)[j] == d[j]); }
    assert(w_ok()[0] == 79 && w_ok()[1] == 75 && w_wrong()[0] == 87 && w_alive()[0] == 73);
    assert(w_buffer()[0] == 66 && w_buffer()[2] == 70 && w_busy()[0] == 66 && w_busy()[2] == 83);
    assert(w_ptt()[0] == 80 && w_ptt()[1] == 84 && w_pending()[0] == 80 && w_pending()[1] == 69);
    assert(w_on()[0] == 79 && w_on()[1] == 78 && w_off()[0] == 79 && w_off()[1] == 70);
    assert(w_registered()[0] == 82 && w_disconnected()[0] == 68 && w_canceled()[0] == 67 && w_canceled()[1] == 65);
    assert(w_connected()[0] == 67 && w_connected()[1] == 79 && w_space()[0] == 32);
}
proof fn lemma_call(d: Seq<u8>, k: int)
    requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> call_byte()(#[trigger] d[j])
    ensures forall|m: int| 3 <= m <= 7 && m <= k ==> call(#[trigger] d.take(m)) && ascii(d.take(m))
{
    assert forall|m: int| 3 <= m <= 7 && m <= k implies call(#[trigger] d.take(m)) && ascii(d.take(m)) by {
        assert forall|j: int| 0 <= j < m implies call_byte()(#[trigger] d.take(m)[j]) && d.take(m)[j] < 0x80 by { assert(call_byte()(d[j])); }
    }
}
pub open spec fn number_says(t: Seq<u8>, n: usize) -> bool { t.len() > 0 && digits(t) && decimal(t) == n }
proof fn lemma_call_sound(d: Seq<u8>)
    ensures !(call_f(d) is More), !(call_f(d) is Stop), call_f(d) matches Pr::Yes(r, t) ==> call(t) && d == t + r
{
    lemma_span_is(d, call_byte());
    let k = span(d, call_byte());
    if k >= 3 {
        let m = least(k, 7);
        assert forall|j: int| 0 <= j < m implies call_byte()(#[trigger] d.take(m)[j]) by { assert(call_byte()(d[j])); }
        assert(d =~= d.take(m) + d.skip(m));
    }
}
proof fn lemma_count_sound(d: Seq<u8>)
    ensures !(count_f(d) is More), !(count_f(d) is Stop), count_f(d) matches Pr::Yes(r, n) ==> number_says(d.take(span(d, digit_byte())), n) && d == d.take(span(d, digit_byte())) + r
{
    lemma_span_is(d, digit_byte());
    let k = span(d, digit_byte());
    assert forall|j: int| 0 <= j < k implies digit(#[trigger] d.take(k)[j]) by { assert(digit_byte()(d[j])); }
    assert(d =~= d.take(k) + d.skip(k));
}
/// a line is decided as it stands
proof fn lemma_decided(d: Seq<u8>)
    ensures !(response_f(d) is More), !(response_f(d) is Stop)
{
    if starts(d, w_buffer()) { lemma_count_sound(d.skip(7)); }
    if starts(d, w_registered()) { lemma_call_sound(d.skip(11)); }
    if starts(d, w_connected()) {
        let d1 = d.skip(10);
        lemma_call_sound(d1);
        if call_f(d1) is Yes { lemma_call_sound(call_f(d1)->Yes_0.skip(1)); }
    }
}
