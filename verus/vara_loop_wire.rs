// ---- C16: whose reply is it ----
/// the i-th reply goes to the i-th command, each command has one reply or is still owed one
proof fn property_c16_own_reply(ev: Seq<Event>)
    ensures ({
        let (d, o) = (desk(ev), orders_of(ev));
        &&& d.given.len() + d.owed.len() == o.len()
        &&& forall|i: int| 0 <= i < d.given.len() ==> (#[trigger] d.given[i]).0 == o[i].1
        &&& forall|j: int| 0 <= j < d.owed.len() ==> #[trigger] d.owed[j] == o[d.given.len() + j].1
    })
    decreases ev.len()
{
    if ev.len() > 0 { property_c16_own_reply(ev.drop_last()); }
}
/// every result answers a command (the modem replies once to each)
pub open spec fn polite(ev: Seq<Event>) -> bool
    decreases ev.len()
{
    ev.len() == 0 || (polite(ev.drop_last()) && (ev.last() is Result ==> desk(ev.drop_last()).owed.len() > 0))
}
/// and then the i-th command gets the i-th result
proof fn property_c16_in_order(ev: Seq<Event>)
    requires polite(ev)
    ensures desk(ev).given.len() == results_of(ev).len(), forall|i: int| 0 <= i < results_of(ev).len() ==> (#[trigger] desk(ev).given[i]).1 == results_of(ev)[i]
    decreases ev.len()
{
    if ev.len() > 0 { property_c16_in_order(ev.drop_last()); }
}
/// a session which ends well has answered every command, each with its own result
proof fn property_c16_all_answered(ev: Seq<Event>, orders: Seq<(Command, Reply)>, before: Heard, after: Heard, got: Seq<u8>)
    requires served(ev, orders, before, after, got), desk(ev).owed.len() == 0, polite(ev)
    ensures
        results_of(ev).len() == orders.len(), after.acks == results_of(ev),
        forall|i: int| 0 <= i < orders.len() ==> (#[trigger] orders[i]).1.answer() == Some(results_of(ev)[i]),
{
    property_c16_own_reply(ev);
    property_c16_in_order(ev);
    assert forall|i: int| 0 <= i < orders.len() implies (#[trigger] orders[i]).1.answer() == Some(results_of(ev)[i]) by {
        assert(desk(ev).given[i].0 == orders[i].1);
    }
}
// ---- C15: the same bytes, the same session ----
proof fn property_c15_session(a: Seq<Event>, b: Seq<Event>, oa: Seq<(Command, Reply)>, ob: Seq<(Command, Reply)>, before: Heard, after_a: Heard, after_b: Heard, got: Seq<u8>)
    requires served(a, oa, before, after_a, got), served(b, ob, before, after_b, got)
    ensures after_a == after_b, results_of(a) == results_of(b)
{}
