// ---------------------------------------------------------------------------------------------
// The code a table stands for
// ---------------------------------------------------------------------------------------------
/// bits from the root to node n
pub open spec fn path(t: Tree, n: int) -> Seq<bool>
    decreases 627 - n
{
    if 0 <= n < 626 && t.p[n] > n && t.p[n] <= 626 { path(t, t.p[n] as int).push(n % 2 == 1) } else { Seq::empty() }
}
/// the code of symbol s
pub open spec fn code(t: Tree, s: int) -> Seq<bool> { path(t, t.p[627 + s] as int) }
/// reading one symbol: from node n down, one bit per level; the symbol and the number of bits used
pub open spec fn walk(t: Tree, n: int, bits: Seq<bool>) -> Option<(int, int)>
    decreases bits.len()
{
    if t.c[n] >= 627 { Some((t.c[n] - 627, 0)) }
    else if bits.len() == 0 { None }
    else {
        match walk(t, t.c[n] + (if bits[0] { 1int } else { 0int }), bits.skip(1)) {
            Some((s, k)) => Some((s, k + 1)),
            None => None,
        }
    }
}
pub open spec fn read_sym(t: Tree, bits: Seq<bool>) -> Option<(int, int)> { walk(t, 626, bits) }
/// the table after the symbols of h, from the initial one
pub open spec fn tree_after(h: Seq<int>) -> Tree
    decreases h.len()
{
    if h.len() == 0 { init_tree() } else { upd(tree_after(h.drop_last()), h.last()) }
}
proof fn lemma_upd(t: Tree, s: int)
    requires wf(t), 0 <= s < 314
    ensures wf(upd(t, s)), upd(t, s).f[626] >= 1
{
    if t.f[626] == 0x8000 { lemma_rebuild(t); lemma_climb_sym(rebuild(t), s); } else { lemma_climb_sym(t, s); }
}
proof fn lemma_tree_after(h: Seq<int>)
    requires forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] < 314
    ensures wf(tree_after(h))
    decreases h.len()
{
    if h.len() == 0 { lemma_init(); } else {
        assert forall|i: int| 0 <= i < h.drop_last().len() implies 0 <= #[trigger] h.drop_last()[i] < 314 by { assert(h.drop_last()[i] == h[i]); }
        assert(h.last() == h[h.len() - 1]);
        lemma_tree_after(h.drop_last());
        lemma_upd(tree_after(h.drop_last()), h.last());
    }
}
/// walking the path of a node from the root arrives at that node
proof fn lemma_walk_path(t: Tree, n: int, rest: Seq<bool>)
    requires wf(t), 0 <= n < 627
    ensures walk(t, 626, path(t, n) + rest) == (match walk(t, n, rest) { Some((s, k)) => Some((s, k + path(t, n).len())), None => None::<(int, int)> })
    decreases 627 - n
{
    if n < 626 {
        assert(par_ok(t, n));
        let q = t.p[n] as int;
        let b = n % 2 == 1;
        let rest2 = seq![b] + rest;
        lemma_walk_path(t, q, rest2);
        assert(path(t, n) + rest =~= path(t, q) + rest2);
        assert(rest2.skip(1) =~= rest);
        assert(rest2[0] == b);
        assert(walk(t, n, rest) == walk(t, t.c[q] + (if b { 1int } else { 0int }), rest));
    } else {
        assert(path(t, n) + rest =~= rest);
    }
}
/// every code decodes to its symbol, whatever follows (so codes are distinct and none is a prefix of another)
proof fn lemma_code_reads(t: Tree, s: int, rest: Seq<bool>)
    requires wf(t), 0 <= s < 314
    ensures read_sym(t, code(t, s) + rest) == Some((s, code(t, s).len() as int)), code(t, s).len() >= 1
{
    assert(leafpar_ok(t, 627 + s));
    let n = t.p[627 + s] as int;
    lemma_walk_path(t, n, rest);
    lemma_root_inner(t);
    assert(par_ok(t, n));
}
/// the root is not a leaf
proof fn lemma_root_inner(t: Tree)
    requires wf(t)
    ensures t.c[626] < 627
{
    assert(par_ok(t, 624) && par_ok(t, 625));
    assert(t.p[625] == 626);
    assert(t.c[626] == 624);
}
/// whatever is read is the code of the symbol read
proof fn lemma_walk_is_code(t: Tree, n: int, bits: Seq<bool>)
    requires wf(t), 0 <= n < 627
    ensures ({
        match walk(t, n, bits) {
            Some((s, k)) => 0 <= s < 314 && 0 <= k <= bits.len() && code(t, s) == path(t, n) + bits.take(k),
            None => true,
        }
    })
    decreases bits.len()
{
    assert(kid_ok(t, n));
    if t.c[n] >= 627 {
        assert(path(t, n) + bits.take(0) =~= path(t, n));
    } else if bits.len() > 0 {
        let m = t.c[n] + (if bits[0] { 1int } else { 0int });
        lemma_walk_is_code(t, m, bits.skip(1));
        match walk(t, m, bits.skip(1)) {
            Some((s, k)) => {
                assert(par_ok(t, m));
                assert(path(t, m) == path(t, n).push(bits[0]));
                assert(path(t, m) + bits.skip(1).take(k) =~= path(t, n) + bits.take(k + 1));
            }
            None => {}
        }
    }
}
/// completeness: a walk only fails when the bits run out, after at most 626 of them
proof fn lemma_walk_total(t: Tree, n: int, bits: Seq<bool>)
    requires wf(t), 0 <= n < 627, bits.len() >= n
    ensures walk(t, n, bits) is Some
    decreases bits.len()
{
    assert(kid_ok(t, n));
    if t.c[n] < 627 {
        lemma_walk_total(t, t.c[n] + (if bits[0] { 1int } else { 0int }), bits.skip(1));
    }
}
pub open spec fn fib(n: int) -> int
    decreases n
{
    if n <= 1 { if n <= 0 { 0 } else { 1 } } else { fib(n - 1) + fib(n - 2) }
}
proof fn lemma_fib_mono(a: int, b: int)
    requires 1 <= a <= b
    ensures 1 <= fib(a) <= fib(b)
    decreases b
{
    assert(fib(0) == 0 && fib(1) == 1);
    if b >= 2 {
        assert(fib(b) == fib(b - 1) + fib(b - 2));
        if b - 1 >= 1 { lemma_fib_mono(1, b - 1); }
        if b - 2 >= 1 { lemma_fib_mono(1, b - 2); }
        if a < b { lemma_fib_mono(a, b - 1); }
    }
}
/// weights along a path grow like Fibonacci numbers, so no path is longer than 21
proof fn lemma_depth(t: Tree, n: int, x: int, i: int)
    requires wf(t), 0 <= n < 627, 0 <= i, t.f[n] >= fib(i + 2),
        i > 0 ==> 0 <= x < n && t.p[x] == n && t.f[x] >= fib(i + 1) && x / 2 * 2 + 1 < n,
    ensures path(t, n).len() + i <= 21
    decreases 627 - n
{
    if n < 626 {
        assert(par_ok(t, n));
        let q = t.p[n] as int;
        assert(kid_ok(t, q));
        assert(sum_ok(t, q, -1));
        let e = n - n % 2;
        let sib = if n == e { e + 1 } else { e };
        assert(t.f[0] <= t.f[sib]);
        if i > 0 { assert(x <= sib); assert(t.f[x] <= t.f[sib]); }
        assert(t.f[q] >= fib(i + 3)) by {
            if i == 0 { assert(fib(1) == 1 && fib(2) == 1 && fib(3) == 2) by (compute_only); }
        }
        lemma_depth(t, q, n, i + 1);
    } else {
        if i > 21 {
            lemma_fib_mono(24, i + 2);
            assert(fib(24) == 46368) by (compute_only);
        }
    }
}
proof fn lemma_code_len(t: Tree, s: int)
    requires wf(t), 0 <= s < 314
    ensures 1 <= code(t, s).len() <= 21
{
    assert(leafpar_ok(t, 627 + s));
    let n = t.p[627 + s] as int;
    assert(t.f[0] <= t.f[n]);
    assert(fib(2) == 1) by (compute_only);
    lemma_depth(t, n, 0, 0);
    lemma_code_reads(t, s, Seq::empty());
}
/// a heavier node is never deeper
proof fn lemma_order(t: Tree, i: int, j: int)
    requires wf(t), 0 <= i < 627, 0 <= j < 627, t.f[i] < t.f[j]
    ensures path(t, i).len() >= path(t, j).len()
    decreases 627 - j
{
    if j <= i { assert(t.f[j] <= t.f[i]); }
    if j < 626 {
        assert(par_ok(t, i) && par_ok(t, j));
        let pi = t.p[i] as int;
        let pj = t.p[j] as int;
        assert(kid_ok(t, pi) && kid_ok(t, pj));
        assert(sum_ok(t, pi, -1) && sum_ok(t, pj, -1));
        let ei = i - i % 2;
        let ej = j - j % 2;
        if ei != ej {
            assert(ei + 1 < ej);
            assert(t.f[ei] <= t.f[ei + 1] && t.f[ei + 1] <= t.f[ej] && t.f[ej] <= t.f[ej + 1]);
            assert(t.f[pi] == t.f[ei] + t.f[ei + 1]);
            assert(t.f[pj] == t.f[ej] + t.f[ej + 1]);
            assert(t.f[pi] < t.f[pj]);
            lemma_order(t, pi, pj);
        }
    }
}
/// C05 for one table
pub open spec fn valid_code(t: Tree) -> bool {
    &&& forall|s: int, rest: Seq<bool>| 0 <= s < 314 ==> #[trigger] read_sym(t, code(t, s) + rest) == Some((s, code(t, s).len() as int))
    &&& forall|bits: Seq<bool>| bits.len() >= 32 ==> (#[trigger] read_sym(t, bits)) is Some
    &&& forall|s: int| 0 <= s < 314 ==> 1 <= #[trigger] code(t, s).len() <= 32
    &&& forall|a: int, b: int| 0 <= a < 314 && 0 <= b < 314 && weight(t, a) < weight(t, b) ==> #[trigger] code(t, a).len() >= #[trigger] code(t, b).len()
    &&& forall|a: int| 0 <= a < 314 ==> #[trigger] weight(t, a) >= 1
    &&& total_weight(t, 314) <= 0x8000
}
pub open spec fn weight(t: Tree, s: int) -> int { t.f[t.p[627 + s] as int] as int }
pub open spec fn total_weight(t: Tree, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { total_weight(t, n - 1) + weight(t, n - 1) }
}
/// leaves sum: every symbol's weight is one of the leaf entries, each at its own node
pub open spec fn masked(t: Tree, n: int) -> Seq<int> {
    Seq::new(627, |i: int| if 627 <= t.c[i] < 627 + n { t.f[i] as int } else { 0int })
}
proof fn lemma_total_weight(t: Tree, n: int)
    requires wf(t), 0 <= n <= 314
    ensures total_weight(t, n) == isum(masked(t, n), 627)
    decreases n
{
    if n == 0 {
        lemma_isum_prefix(masked(t, 0), 627, 0, 0);
    } else {
        lemma_total_weight(t, n - 1);
        assert(leafpar_ok(t, 627 + n - 1));
        let i = t.p[627 + n - 1] as int;
        lemma_isum_update(masked(t, n - 1), 627, i, t.f[i] as int);
        assert(masked(t, n) =~= masked(t, n - 1).update(i, t.f[i] as int)) by {
            assert forall|q: int| 0 <= q < 627 implies #[trigger] masked(t, n)[q] == masked(t, n - 1).update(i, t.f[i] as int)[q] by {
                assert(kid_ok(t, q));
            }
        }
    }
}
proof fn lemma_valid_code(t: Tree)
    requires wf(t)
    ensures valid_code(t)
{
    assert forall|s: int, rest: Seq<bool>| 0 <= s < 314 implies #[trigger] read_sym(t, code(t, s) + rest) == Some((s, code(t, s).len() as int)) by {
        lemma_code_reads(t, s, rest);
    }
    assert forall|s: int| 0 <= s < 314 implies 1 <= #[trigger] code(t, s).len() <= 32 by { lemma_code_len(t, s); }
    assert forall|bits: Seq<bool>| bits.len() >= 32 implies (#[trigger] read_sym(t, bits)) is Some by {
        let more = bits + Seq::new(627, |i: int| false);
        lemma_walk_total(t, 626, more);
        lemma_walk_is_code(t, 626, more);
        let (s, k) = walk(t, 626, more)->Some_0;
        assert(path(t, 626) + more.take(k) =~= more.take(k));
        lemma_code_len(t, s);
        assert(more.take(k) + bits.skip(k) =~= bits);
        lemma_code_reads(t, s, bits.skip(k));
    }
    assert forall|a: int, b: int| 0 <= a < 314 && 0 <= b < 314 && weight(t, a) < weight(t, b) implies #[trigger] code(t, a).len() >= #[trigger] code(t, b).len() by {
        assert(leafpar_ok(t, 627 + a) && leafpar_ok(t, 627 + b));
        lemma_order(t, t.p[627 + a] as int, t.p[627 + b] as int);
    }
    assert forall|a: int| 0 <= a < 314 implies #[trigger] weight(t, a) >= 1 by {
        assert(leafpar_ok(t, 627 + a));
        assert(t.f[0] <= t.f[t.p[627 + a] as int]);
    }
    lemma_total_weight(t, 314);
    assert(masked(t, 314) =~= lw(t)) by {
        assert forall|q: int| 0 <= q < 627 implies #[trigger] masked(t, 314)[q] == lw(t)[q] by { assert(kid_ok(t, q)); }
    }
}
