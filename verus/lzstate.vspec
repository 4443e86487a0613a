@source src/lzhuf.rs
@mono ByteIter
@call .copy_within => &mut arr_copy_within
@prelude lz_state.rs
impl LzHufState {
    pub open spec fn tree(&self) -> Tree { Tree { f: self.frequency_table@, c: self.children@, p: self.parents@ } }
}
#[verifier::external_body]
fn arr_copy_within<const M: usize>(a: &mut [u16; M], lo: usize, hi: usize, dst: usize)
    requires lo <= hi <= M, dst + (hi - lo) <= M
    ensures
        final(a)@.len() == M,
        forall|i: int| 0 <= i < M ==> final(a)@[i] == (if dst <= i < dst + (hi - lo) { old(a)@[lo + (i - dst)] } else { old(a)@[i] }),
{
    a.copy_within(lo..hi, dst)
}
@fn LzHufState::update(c)
requires wf(old(self).tree()), c < 314,
ensures
    final(self).tree() == upd(old(self).tree(), c as int),
    wf(final(self).tree()),
    final(self).text_buffer == old(self).text_buffer, final(self).r == old(self).r,
@hint start
let ghost sym = c as int;
let ghost start = if self.tree().f[626] == 0x8000 { rebuild(self.tree()) } else { self.tree() };
let ghost goal = climb(start, start.p[627 + sym] as int);
proof {
    if self.tree().f[626] == 0x8000 { lemma_rebuild(self.tree()); }
    lemma_climb_sym(start, sym);
}
@loop 0
invariant_except_break
    shape(self.tree()), weights(self.tree(), c as int), 0 <= c < 627, self.tree().f[626] < 0x8000,
    goal == climb(self.tree(), c as int),
invariant
    self.text_buffer == old(self).text_buffer, self.r == old(self).r,
    goal == upd(old(self).tree(), sym), wf(goal),
ensures
    self.tree() == goal,
decreases 1000 - c
@hint loop0.start
let ghost t = self.tree();
let ghost c0 = c as int;
let ghost last = lastsame(t.f, c0);
let ghost t1 = bump(t, c0);
proof { lemma_bump(t, c0); lemma_bump_facts(t, c0); lemma_lastsame(t.f, c0); assert(t.f[last] == t.f[c0]); }
@loop 1
invariant
    self.frequency_table@ == t.f.update(c0, (t.f[c0] + 1) as u16), c0 == c, k == t.f[c0] + 1, c0 < l <= last + 1,
    t.f.len() == 628, 0 <= c0 <= last < 627, t.f[c0] < 0x8000, t.f[627] == 0xffff,
    forall|i: int| c0 <= i <= last ==> t.f[i] == t.f[c0],
    last < 626 ==> t.f[last + 1] > t.f[c0],
    self.children@ == t.c, self.parents@ == t.p, self.text_buffer == old(self).text_buffer, self.r == old(self).r,
decreases 628 - l
@hint after loop1
proof { assert(l == last + 1); }
@hint loop0.end
proof { assert(self.tree() =~= t1); }
@fn LzHufState::update_text_buffer(c)
requires old(self).r < 2048
ensures final(self).r == (old(self).r + 1) % 2048,
    final(self).text_buffer@ == old(self).text_buffer@.update(old(self).r as int, c),
    final(self).tree() == old(self).tree(),
@hint start
proof { let x = (self.r + 1) as u16; assert(x & 2047 == x % 2048) by (bit_vector); }
@fn LzHufState::reconstruct() loops=4
requires wf(old(self).tree()),
ensures final(self).tree() == rebuild(old(self).tree()),
    final(self).text_buffer == old(self).text_buffer, final(self).r == old(self).r,
@hint start
let ghost t = self.tree();
let ghost lf = leaves_f(t, 627);
let ghost lcs = leaves_c(t, 627);
proof { lemma_leaves(t, 627); lemma_leaves(t, 0); }
@loop 0
invariant
    wf(t), t.f.len() == 628, t.c.len() == 627, 0 <= __i1 <= __end1 == 627, 0 <= j <= __i1, j == leaves_f(t, __i1 as int).len(), j == leaves_c(t, __i1 as int).len(),
    self.frequency_table@.take(j as int) =~= leaves_f(t, __i1 as int),
    self.children@.take(j as int) =~= leaves_c(t, __i1 as int),
    forall|q: int| __i1 <= q < 628 ==> self.frequency_table@[q] == t.f[q],
    forall|q: int| __i1 <= q < 627 ==> self.children@[q] == t.c[q],
    self.parents@ == t.p, self.text_buffer == old(self).text_buffer, self.r == old(self).r,
decreases __end1 - __i1
@hint loop0.start
proof { assert(forall|x: u16| x >> 1 == x / 2) by (bit_vector); lemma_leaves(t, __i1 as int); lemma_leaves(t, __i1 + 1); assert(t.f[__i1 as int] <= t.f[626]); }
@hint before loop1
proof { lemma_ginv0(t); }
@loop 1
invariant
    wf(t), 314 <= __i3 <= __end3 == 627, __i4 == 2 * (__i3 - 314), lf == leaves_f(t, 627), lcs == leaves_c(t, 627),
    self.frequency_table@.len() == 628, self.children@.len() == 627,
    self.frequency_table@.take(__i3 as int) =~= grow(lf, lcs, __i3 - 314).0,
    self.children@.take(__i3 as int) =~= grow(lf, lcs, __i3 - 314).1,
    self.frequency_table@[627] == 0xffff,
    self.parents@ == t.p, self.text_buffer == old(self).text_buffer, self.r == old(self).r,
decreases __end3 - __i3
@hint loop1.start
let ghost m = __i3 - 314;
let ghost gf = grow(lf, lcs, m).0;
let ghost gc = grow(lf, lcs, m).1;
let ghost w = gf[2 * m] + gf[2 * m + 1];
let ghost pos = inspos(gf, w, gf.len() as int);
proof {
    lemma_grow(t, m); lemma_gpos(gf, gc, m, total(t));
    assert(self.frequency_table@.take(__i3 as int)[2 * m] == gf[2 * m] && self.frequency_table@.take(__i3 as int)[2 * m + 1] == gf[2 * m + 1]);
}
@loop 2
invariant
    0 <= m < 313, j == 314 + m, 2 * m + 1 < pos <= j, pos - 1 <= k < j, f == w,
    gf.len() == 314 + m,
    self.frequency_table@.len() == 628,
    forall|q: int| 0 <= q < j ==> self.frequency_table@[q] == gf[q],
    self.frequency_table@[j as int] == w,
    forall|q: int| pos <= q < gf.len() ==> gf[q] > w,
    forall|q: int| 0 <= q < pos ==> gf[q] <= w,
decreases k
@hint loop2.start
proof { assert(self.frequency_table@[k as int] == gf[k as int]); }
@hint after loop2
proof { assert(self.frequency_table@[k as int] == gf[k as int]); assert(k == pos - 1); }
@hint loop1.end
proof {
    assert(k == pos);
    assert(self.frequency_table@.take(__i3 as int) =~= gf.insert(pos, w as u16));
    assert(self.children@.take(__i3 as int) =~= gc.insert(pos, (2 * m) as u16));
}
@hint before loop3
let ghost done = rebuild(t);
proof {
    lemma_grow(t, 313);
    lemma_rebuild(t);
    assert(self.frequency_table@ =~= done.f);
    assert(self.children@ =~= done.c);
}
@loop 3
invariant
    0 <= __i5 <= __end5 == 627,
    self.parents@ =~= relinkall(t.p, done.c, __i5 as int),
    wf(done), t.p.len() == 941,
    self.frequency_table@ == done.f, self.children@ == done.c, self.text_buffer == old(self).text_buffer, self.r == old(self).r,
decreases __end5 - __i5
@hint loop3.start
proof { assert(kid_ok(done, __i5 as int)); }
@fn LzHufState::new() loops=3
ensures ret.tree() == init_tree(), ret.r == 1988, forall|i: int| 0 <= i < 2107 ==> ret.text_buffer@[i] == 0x20,
@hint start
proof { lemma_finit(); }
@loop 0
invariant
    0 <= __i1 <= __end1 == 314,
    forall|q: int| 0 <= q < __i1 ==> children@[q] == q + 627,
    forall|q: int| 627 <= q < 627 + __i1 ==> parents@[q] == q - 627,
    forall|q: int| 0 <= q < __i1 ==> frequency_table@[q] == 1,
decreases __end1 - __i1
@loop 1
invariant
    314 <= j <= 627, i == 2 * (j - 314),
    forall|q: int| 0 <= q < 627 ==> 1 <= #[trigger] finit(q) <= 314,
    forall|q: int| 0 <= q < j ==> frequency_table@[q] == finit(q),
    forall|q: int| 0 <= q < 314 ==> children@[q] == q + 627,
    forall|q: int| 627 <= q < 941 ==> parents@[q] == q - 627,
decreases 627 - j
@hint loop1.start
proof { assert(finit(j as int) == finit(i as int) + finit(i + 1)); lemma_finit(); }
@loop 2
invariant
    314 <= j <= 627, i == 2 * (j - 314),
    forall|q: int| 0 <= q < 627 ==> 1 <= #[trigger] finit(q) <= 314,
    forall|q: int| 0 <= q < 627 ==> frequency_table@[q] == finit(q),
    forall|q: int| 0 <= q < 314 ==> children@[q] == q + 627,
    forall|q: int| 627 <= q < 941 ==> parents@[q] == q - 627,
    forall|q: int| 314 <= q < j ==> children@[q] == 2 * (q - 314),
    forall|q: int| 0 <= q < i ==> parents@[q] == 314 + q / 2,
decreases 627 - j
@hint after loop2
proof { assert(i == 626 && j == 627); }
@hint end
proof {
    let t = Tree { f: frequency_table@, c: children@, p: parents@ };
    assert(t =~= init_tree());
}
@prelude lz_code.rs
@epilogue
/// C05: the table after any sequence of symbols is a valid code over them
fn property_c05(symbols: &Vec<u16>) -> (state: LzHufState)
    requires forall|i: int| 0 <= i < symbols@.len() ==> symbols@[i] < 314
    ensures state.tree() == tree_after(ints(symbols@)), valid_code(state.tree()), wf(state.tree()),
{
    let mut state = LzHufState::new();
    proof { lemma_init(); assert(ints(symbols@).take(0) =~= Seq::<int>::empty()); }
    let mut i = 0;
    while i < symbols.len()
        invariant
            i <= symbols@.len(), forall|i: int| 0 <= i < symbols@.len() ==> symbols@[i] < 314,
            wf(state.tree()), state.tree() == tree_after(ints(symbols@).take(i as int)),
        decreases symbols@.len() - i
    {
        proof {
            let h = ints(symbols@);
            assert(h.take(i + 1).drop_last() =~= h.take(i as int));
            assert(h.take(i + 1).last() == symbols@[i as int]);
        }
        state.update(symbols[i]);
        i = i + 1;
    }
    proof { assert(ints(symbols@).take(i as int) =~= ints(symbols@)); lemma_valid_code(state.tree()); }
    state
}
pub open spec fn ints(s: Seq<u16>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
