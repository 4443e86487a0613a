// ---- C17 ----
/// while the port works, what has been sent is the frames of the orders, three bytes each, one per order, in order
proof fn property_c17_one_frame_each(c: Seq<Command>, i: int)
    requires 0 <= i < c.len()
    ensures frames(c).len() == 3 * c.len(), frames(c).subrange(3 * i, 3 * i + 3) == frame(c[i])
    decreases c.len()
{
    lemma_frames_len(c);
    lemma_frames_len(c.drop_last());
    if i < c.len() - 1 {
        property_c17_one_frame_each(c.drop_last(), i);
        assert(frames(c).subrange(3 * i, 3 * i + 3) =~= frames(c.drop_last()).subrange(3 * i, 3 * i + 3));
    } else {
        assert(frames(c).subrange(3 * i, 3 * i + 3) =~= frame(c[i]));
    }
}
proof fn lemma_frames_len(c: Seq<Command>)
    ensures frames(c).len() == 3 * c.len()
    decreases c.len()
{
    if c.len() > 0 { lemma_frames_len(c.drop_last()); }
}
/// transmit and receive are told apart
proof fn property_c17_told_apart(a: Seq<Command>, b: Seq<Command>)
    requires frames(a) == frames(b)
    ensures a == b
{
    lemma_frames_len(a);
    lemma_frames_len(b);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        property_c17_one_frame_each(a, i);
        property_c17_one_frame_each(b, i);
        assert(frame(a[i])[0] == frame(b[i])[0]);
    }
    assert(a =~= b);
}
