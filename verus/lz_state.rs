// ---------------------------------------------------------------------------------------------
// The published adaptive code table (LZHUF, N = 2048, F = 60): 314 symbols, 627 nodes in order of
// weight, node 626 the root; c[i] is the first child of node i (the second is c[i]+1) or 627 + the
// symbol of a leaf; p is the inverse. Numbers are literals on purpose: they define the format.
// ---------------------------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct Tree { pub f: Seq<u16>, pub c: Seq<u16>, pub p: Seq<u16> }

pub open spec fn relink(p: Seq<u16>, k: u16, to: int) -> Seq<u16> {
    if k < 627 { p.update(k as int, to as u16).update(k + 1, to as u16) } else { p.update(k as int, to as u16) }
}
/// last node with the weight of node c
pub open spec fn lastsame(f: Seq<u16>, c: int) -> int
    decreases 627 - c
{
    if 0 <= c && c + 1 < 627 && f[c + 1] == f[c] { lastsame(f, c + 1) } else { c }
}
/// one more occurrence below node c: exchange it with the last node of equal weight, add one there
pub open spec fn bump(t: Tree, c: int) -> Tree {
    let l = lastsame(t.f, c);
    let f1 = t.f.update(l, (t.f[c] + 1) as u16);
    if l == c {
        Tree { f: f1, c: t.c, p: t.p }
    } else {
        let i = t.c[c];
        let j = t.c[l];
        Tree { f: f1, c: t.c.update(l, i).update(c, j), p: relink(relink(t.p, i, l), j, c) }
    }
}
/// ... and so on for every ancestor up to the root
pub open spec fn climb(t: Tree, c: int) -> Tree
    decreases 1000 - c
{
    let l = lastsame(t.f, c);
    let t1 = bump(t, c);
    let n = t1.p[l] as int;
    if n <= c || n >= 1000 { t1 } else { climb(t1, n) }
}
/// the leaves among the first n nodes, in order, with halved weights
pub open spec fn leaves_f(t: Tree, n: int) -> Seq<u16>
    decreases n
{
    if n <= 0 { Seq::empty() } else if t.c[n - 1] >= 627 { leaves_f(t, n - 1).push(((t.f[n - 1] + 1) / 2) as u16) } else { leaves_f(t, n - 1) }
}
pub open spec fn leaves_c(t: Tree, n: int) -> Seq<u16>
    decreases n
{
    if n <= 0 { Seq::empty() } else if t.c[n - 1] >= 627 { leaves_c(t, n - 1).push(t.c[n - 1]) } else { leaves_c(t, n - 1) }
}
/// where a node of weight w goes among the first k: after every node that is not heavier
pub open spec fn inspos(f: Seq<u16>, w: int, k: int) -> int
    decreases k
{
    if k <= 0 || f[k - 1] <= w { k } else { inspos(f, w, k - 1) }
}
/// pair nodes 2m and 2m+1 for every m below the bound, inserting each parent by weight
pub open spec fn grow(a: Seq<u16>, b: Seq<u16>, m: int) -> (Seq<u16>, Seq<u16>)
    decreases m
{
    if m <= 0 { (a, b) } else {
        let (f, c) = grow(a, b, m - 1);
        let w = f[2 * m - 2] + f[2 * m - 1];
        let k = inspos(f, w, f.len() as int);
        (f.insert(k, w as u16), c.insert(k, (2 * m - 2) as u16))
    }
}
pub open spec fn relinkall(p: Seq<u16>, c: Seq<u16>, n: int) -> Seq<u16>
    decreases n
{
    if n <= 0 { p } else { relink(relinkall(p, c, n - 1), c[n - 1], n - 1) }
}
pub open spec fn rebuild(t: Tree) -> Tree {
    let (f, c) = grow(leaves_f(t, 627), leaves_c(t, 627), 313);
    Tree { f: f.push(0xffff), c, p: relinkall(t.p, c, 627) }
}
/// the table after one more occurrence of symbol s
pub open spec fn upd(t: Tree, s: int) -> Tree {
    let t0 = if t.f[626] == 0x8000 { rebuild(t) } else { t };
    climb(t0, t0.p[627 + s] as int)
}
/// the initial table: every symbol with weight 1, paired in order
pub open spec fn finit(i: int) -> int
    decreases i
{
    if i < 314 || i >= 627 { 1 } else { finit(2 * (i - 314)) + finit(2 * (i - 314) + 1) }
}
pub open spec fn init_tree() -> Tree {
    Tree {
        f: Seq::new(628, |i: int| if i < 627 { finit(i) as u16 } else { 0xffffu16 }),
        c: Seq::new(627, |i: int| if i < 314 { (i + 627) as u16 } else { (2 * (i - 314)) as u16 }),
        p: Seq::new(941, |i: int| if i < 626 { (314 + i / 2) as u16 } else if i == 626 { 0u16 } else { (i - 627) as u16 }),
    }
}

// ---- representation invariant ----
pub open spec fn kid_ok(t: Tree, i: int) -> bool {
    let k = t.c[i];
    k < 941 && t.p[k as int] == i && (k < 627 ==> k % 2 == 0 && k + 1 < i && t.p[k + 1] == i)
}
pub open spec fn par_ok(t: Tree, n: int) -> bool {
    n < t.p[n] <= 626 && t.c[t.p[n] as int] == n - n % 2
}
pub open spec fn leafpar_ok(t: Tree, s: int) -> bool {
    t.p[s] < 627 && t.c[t.p[s] as int] == s
}
pub open spec fn shape(t: Tree) -> bool {
    &&& t.f.len() == 628
    &&& t.c.len() == 627
    &&& t.p.len() == 941
    &&& forall|i: int| 0 <= i < 627 ==> #[trigger] kid_ok(t, i)
    &&& forall|n: int| 0 <= n < 626 ==> #[trigger] par_ok(t, n)
    &&& forall|s: int| 627 <= s < 941 ==> #[trigger] leafpar_ok(t, s)
    &&& t.p[626] == 0
}
pub open spec fn sorted(f: Seq<u16>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i <= j < n ==> f[i] <= f[j]
}
pub open spec fn sum_ok(t: Tree, i: int, pend: int) -> bool {
    t.c[i] < 627 ==> t.f[t.c[i] as int] + t.f[t.c[i] + 1] == t.f[i] + (if i == pend { 1int } else { 0int })
}
/// weights in order, every inner node the sum of its children (node `pend` one short)
pub open spec fn weights(t: Tree, pend: int) -> bool {
    &&& sorted(t.f, 627)
    &&& t.f[0] >= 1
    &&& t.f[627] == 0xffff
    &&& forall|i: int| 0 <= i < 627 ==> #[trigger] sum_ok(t, i, pend)
}
pub open spec fn isum(v: Seq<int>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { isum(v, n - 1) + v[n - 1] }
}
pub open spec fn lw(t: Tree) -> Seq<int> {
    Seq::new(627, |i: int| if t.c[i] >= 627 { t.f[i] as int } else { 0int })
}
pub open spec fn lc(t: Tree) -> Seq<int> {
    Seq::new(627, |i: int| if t.c[i] >= 627 { 1int } else { 0int })
}
/// representation invariant: a complete sibling-ordered code table over exactly 314 symbols
pub open spec fn wf(t: Tree) -> bool {
    &&& shape(t)
    &&& weights(t, -1)
    &&& isum(lw(t), 627) == t.f[626]
    &&& isum(lc(t), 627) == 314
    &&& t.f[626] <= 0x8000
}

// ---- lemmas: sums ----
proof fn lemma_isum_update(v: Seq<int>, n: int, i: int, x: int)
    requires 0 <= i < v.len(), 0 <= n <= v.len()
    ensures isum(v.update(i, x), n) == isum(v, n) + (if i < n { x - v[i] } else { 0 })
    decreases n
{
    if n > 0 { lemma_isum_update(v, n - 1, i, x); }
}
proof fn lemma_isum_eq(v: Seq<int>, w: Seq<int>, n: int)
    requires forall|i: int| 0 <= i < n ==> v[i] == w[i]
    ensures isum(v, n) == isum(w, n)
    decreases n
{
    if n > 0 { lemma_isum_eq(v, w, n - 1); }
}

// ---- lemmas: update ----
proof fn lemma_lastsame(f: Seq<u16>, c: int)
    requires f.len() == 628, 0 <= c < 627, sorted(f, 627)
    ensures ({ let l = lastsame(f, c); &&& c <= l < 627 &&& f[l] == f[c] &&& (forall|i: int| c <= i <= l ==> f[i] == f[c]) &&& (l < 626 ==> f[l + 1] > f[c]) })
    decreases 627 - c
{
    if c + 1 < 627 && f[c + 1] == f[c] { lemma_lastsame(f, c + 1); }
}
/// facts about the two nodes a step exchanges
pub open spec fn bump_pre(t: Tree, c: int) -> bool {
    shape(t) && weights(t, c) && 0 <= c < 627 && t.f[626] < 0x8000
}
proof fn lemma_bump_facts(t: Tree, c: int)
    requires bump_pre(t, c)
    ensures ({
        let l = lastsame(t.f, c);
        let i = t.c[c] as int;
        let j = t.c[l] as int;
        &&& c <= l <= 626
        &&& i < 941 && j < 941 && (i < 627 ==> i % 2 == 0 && i + 1 < c) && (j < 627 ==> j % 2 == 0 && j + 1 < l)
        &&& (l != c ==> i != j && (i < 627 ==> i + 1 != j) && (j < 627 ==> j + 1 != i) && t.f[l] == t.f[c] && (j < 627 ==> j + 1 < c))
        &&& t.f[c] == t.f[l] && t.f[c] < 0x8000
        &&& t.p[i] == c && t.p[j] == l && (i < 627 ==> t.p[i + 1] == c) && (j < 627 ==> t.p[j + 1] == l)
    })
{
    let l = lastsame(t.f, c);
    lemma_lastsame(t.f, c);
    let i = t.c[c] as int;
    let j = t.c[l] as int;
    assert(kid_ok(t, c) && kid_ok(t, l));
    assert(t.f[c] <= t.f[626]);
    if j < 627 && l != c {
        assert(sum_ok(t, l, c));
        assert(t.f[0] <= t.f[j]);
        assert(t.f[j + 1] < t.f[l]);
        if c <= j + 1 { assert(t.f[c] <= t.f[j + 1]); }
    }
    assert(i < 941 && j < 941);
    assert(i < 627 ==> i % 2 == 0 && i + 1 < c);
    assert(j < 627 ==> j % 2 == 0 && j + 1 < l);
    assert(t.p[i] == c && t.p[j] == l);
    assert(i < 627 ==> t.p[i + 1] == c);
    assert(j < 627 ==> t.p[j + 1] == l);
    assert(l != c ==> i != j);
    assert(t.f[l] == t.f[c]);
}
#[verifier::spinoff_prover]
proof fn lemma_bump_shape(t: Tree, c: int)
    requires bump_pre(t, c)
    ensures shape(bump(t, c)), bump(t, c).p[lastsame(t.f, c)] == t.p[lastsame(t.f, c)]
{
    let l = lastsame(t.f, c);
    let t1 = bump(t, c);
    lemma_bump_facts(t, c);
    let i = t.c[c] as int;
    let j = t.c[l] as int;
    assert(t1.p[626] == 0);
    assert forall|k: int| 0 <= k < 627 implies #[trigger] kid_ok(t1, k) by {
        assert(kid_ok(t, k));
    }
    assert forall|n: int| 0 <= n < 626 implies #[trigger] par_ok(t1, n) by {
        assert(par_ok(t, n));
        assert(kid_ok(t, t.p[n] as int));
    }
    assert forall|s: int| 627 <= s < 941 implies #[trigger] leafpar_ok(t1, s) by {
        assert(leafpar_ok(t, s));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_bump_weights(t: Tree, c: int)
    requires bump_pre(t, c)
    ensures ({
        let l = lastsame(t.f, c);
        let t1 = bump(t, c);
        &&& (l == 626 ==> weights(t1, -1) && t1.f[626] == t.f[626] + 1)
        &&& (l < 626 ==> weights(t1, t.p[l] as int) && l < t.p[l] <= 626 && t1.f[626] == t.f[626] && t1.c[t.p[l] as int] < 627)
    })
{
    let l = lastsame(t.f, c);
    let t1 = bump(t, c);
    lemma_bump_facts(t, c);
    lemma_lastsame(t.f, c);
    lemma_bump_shape(t, c);
    let n = t.p[l] as int;
    if l < 626 {
        assert(par_ok(t, l));
        assert(par_ok(t1, l));
    }
    assert(sorted(t1.f, 627)) by {
        assert forall|a: int, b: int| 0 <= a <= b < 627 implies t1.f[a] <= t1.f[b] by {
            assert(t.f[a] <= t.f[b]);
            if a == l && b > l { assert(t.f[l + 1] <= t.f[b]); }
        }
    }
    let pend = if l == 626 { -1int } else { n };
    assert forall|k: int| 0 <= k < 627 implies #[trigger] sum_ok(t1, k, pend) by {
        assert(sum_ok(t, k, c) && sum_ok(t, l, c) && sum_ok(t, c, c));
        assert(kid_ok(t, k));
        assert(kid_ok(t1, k));
        if t1.c[k] < 627 {
            let q = t1.c[k] as int;
            if q == l || q + 1 == l {
                assert(t1.p[l] == k);
            } else {
                if k == pend { assert(par_ok(t1, l)); }
            }
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_bump_sums(t: Tree, c: int)
    requires bump_pre(t, c)
    ensures
        isum(lw(bump(t, c)), 627) == isum(lw(t), 627) + (if t.c[c] >= 627 { 1int } else { 0int }),
        isum(lc(bump(t, c)), 627) == isum(lc(t), 627),
{
    let l = lastsame(t.f, c);
    let t1 = bump(t, c);
    lemma_bump_facts(t, c);
    let i = t.c[c];
    let j = t.c[l];
    let vl = if i >= 627 { t.f[c] + 1 } else { 0int };
    let vc = if j >= 627 { t.f[l] as int } else { 0int };
    if l == c {
        lemma_isum_update(lw(t), 627, c, vl);
        assert(lw(t1) =~= lw(t).update(c, vl));
        assert(lc(t1) =~= lc(t));
    } else {
        lemma_isum_update(lw(t), 627, l, vl);
        lemma_isum_update(lw(t).update(l, vl), 627, c, vc);
        assert(lw(t1) =~= lw(t).update(l, vl).update(c, vc));
        let il = if i >= 627 { 1int } else { 0int };
        let ic = if j >= 627 { 1int } else { 0int };
        lemma_isum_update(lc(t), 627, l, il);
        lemma_isum_update(lc(t).update(l, il), 627, c, ic);
        assert(lc(t1) =~= lc(t).update(l, il).update(c, ic));
    }
}
/// what one step of the climb does to a table whose node c is one short
proof fn lemma_bump(t: Tree, c: int)
    requires bump_pre(t, c)
    ensures ({
        let l = lastsame(t.f, c);
        let t1 = bump(t, c);
        &&& c <= l <= 626
        &&& shape(t1)
        &&& t1.p[l] == t.p[l]
        &&& (l == 626 ==> weights(t1, -1) && t1.p[l] == 0)
        &&& (l < 626 ==> weights(t1, t1.p[l] as int) && l < t1.p[l] <= 626 && t1.f[626] == t.f[626] && t1.c[t1.p[l] as int] < 627)
        &&& (l == 626 ==> t1.f[626] == t.f[626] + 1)
        &&& isum(lw(t1), 627) == isum(lw(t), 627) + (if t.c[c] >= 627 { 1int } else { 0int })
        &&& isum(lc(t1), 627) == isum(lc(t), 627)
    })
{
    lemma_bump_facts(t, c);
    lemma_bump_shape(t, c);
    lemma_bump_weights(t, c);
    lemma_bump_sums(t, c);
}
/// the whole climb from a leaf keeps the invariant
proof fn lemma_climb(t: Tree, c: int, leaf: bool)
    requires
        shape(t), weights(t, c), 0 <= c < 627, t.f[626] < 0x8000, leaf == (t.c[c] >= 627),
        isum(lw(t), 627) == t.f[626] + (if leaf { 0int } else { 1int }), isum(lc(t), 627) == 314,
    ensures wf(climb(t, c)), climb(t, c).f[626] == t.f[626] + 1
    decreases 1000 - c
{
    lemma_bump(t, c);
    let l = lastsame(t.f, c);
    let t1 = bump(t, c);
    if l < 626 { lemma_climb(t1, t1.p[l] as int, false); }
}
proof fn lemma_wf_pend(t: Tree, c: int)
    requires wf(t), 0 <= c < 627, t.c[c] >= 627
    ensures weights(t, c)
{
    assert forall|i: int| 0 <= i < 627 implies #[trigger] sum_ok(t, i, c) by { assert(sum_ok(t, i, -1)); }
}
/// counting one occurrence keeps a table with room for it valid
proof fn lemma_climb_sym(t: Tree, s: int)
    requires wf(t), t.f[626] < 0x8000, 0 <= s < 314
    ensures wf(climb(t, t.p[627 + s] as int)), climb(t, t.p[627 + s] as int).f[626] == t.f[626] + 1,
        0 <= t.p[627 + s] < 627, t.c[t.p[627 + s] as int] >= 627, weights(t, t.p[627 + s] as int),
{
    assert(leafpar_ok(t, 627 + s));
    lemma_wf_pend(t, t.p[627 + s] as int);
    lemma_climb(t, t.p[627 + s] as int, true);
}

// ---- lemmas: rebuild ----
proof fn lemma_isum_insert(v: Seq<int>, k: int, x: int, n: int)
    requires 0 <= k <= v.len(), 0 <= n <= v.len() + 1
    ensures isum(v.insert(k, x), n) == (if n <= k { isum(v, n) } else { isum(v, n - 1) + x })
    decreases n
{
    if n > 0 {
        lemma_isum_insert(v, k, x, n - 1);
    }
}
proof fn lemma_isum_mono(v: Seq<int>, a: int, b: int)
    requires 0 <= a <= b <= v.len(), forall|i: int| 0 <= i < v.len() ==> v[i] >= 0
    ensures isum(v, a) <= isum(v, b)
    decreases b
{
    if a < b { lemma_isum_mono(v, a, b - 1); }
}
pub open spec fn iv(f: Seq<u16>) -> Seq<int> { Seq::new(f.len(), |i: int| f[i] as int) }
pub open spec fn leaf_ix(t: Tree, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 { Seq::empty() } else if t.c[n - 1] >= 627 { leaf_ix(t, n - 1).push(n - 1) } else { leaf_ix(t, n - 1) }
}
pub open spec fn inrange(s: Seq<int>, q: int, n: int) -> bool { 0 <= s[q] < n }
proof fn lemma_leaves(t: Tree, n: int)
    requires wf(t), 0 <= n <= 627
    ensures
        leaf_ix(t, n).len() == isum(lc(t), n) <= n,
        leaves_f(t, n).len() == leaf_ix(t, n).len(),
        leaves_c(t, n).len() == leaf_ix(t, n).len(),
        forall|q: int| 0 <= q < leaf_ix(t, n).len() ==> 0 <= (#[trigger] leaf_ix(t, n)[q]) < n
            && t.c[leaf_ix(t, n)[q]] >= 627 && leaves_c(t, n)[q] == t.c[leaf_ix(t, n)[q]]
            && leaves_f(t, n)[q] == (t.f[leaf_ix(t, n)[q]] + 1) / 2,
        forall|q: int, r: int| 0 <= q < r < leaf_ix(t, n).len() ==> leaf_ix(t, n)[q] < leaf_ix(t, n)[r],
        forall|i: int| 0 <= i < n && t.c[i] >= 627 ==> #[trigger] leaf_ix(t, n).contains(i),
        2 * isum(iv(leaves_f(t, n)), leaves_f(t, n).len() as int) <= isum(lw(t), n) + isum(lc(t), n),
    decreases n
{
    if n > 0 {
        lemma_leaves(t, n - 1);
        let old_ix = leaf_ix(t, n - 1);
        let old_f = leaves_f(t, n - 1);
        if t.c[n - 1] >= 627 {
            assert(t.f[n - 1] <= t.f[626]);
            let len = old_f.len() as int;
            lemma_isum_eq(iv(leaves_f(t, n)), iv(old_f), len);
            assert(iv(leaves_f(t, n))[len] == (t.f[n - 1] + 1) / 2);
            assert forall|i: int| 0 <= i < n && t.c[i] >= 627 implies #[trigger] leaf_ix(t, n).contains(i) by {
                if i == n - 1 {
                    assert(leaf_ix(t, n)[len] == i);
                } else {
                    assert(old_ix.contains(i));
                    let q = choose|q: int| 0 <= q < old_ix.len() && old_ix[q] == i;
                    assert(leaf_ix(t, n)[q] == i);
                }
            }
        } else {
            assert forall|i: int| 0 <= i < n && t.c[i] >= 627 implies #[trigger] leaf_ix(t, n).contains(i) by {
                assert(old_ix.contains(i));
            }
        }
    }
}
pub open spec fn g_ok(f: Seq<u16>, c: Seq<u16>, m: int, n: int) -> bool {
    let k = c[n];
    k < 941 && (k < 627 ==> k % 2 == 0 && k < 2 * m && k + 1 < n && f[k as int] + f[k + 1] == f[n])
}
pub open spec fn glw(f: Seq<u16>, c: Seq<u16>) -> Seq<int> {
    Seq::new(f.len(), |i: int| if c[i] >= 627 { f[i] as int } else { 0int })
}
pub open spec fn glc(c: Seq<u16>) -> Seq<int> {
    Seq::new(c.len(), |i: int| if c[i] >= 627 { 1int } else { 0int })
}
/// the node list after m parents were inserted
pub open spec fn ginv(f: Seq<u16>, c: Seq<u16>, m: int, s: int) -> bool {
    &&& 0 <= m <= 313
    &&& f.len() == 314 + m
    &&& c.len() == 314 + m
    &&& 0 < s < 0x8000
    &&& sorted(f, 314 + m)
    &&& f[0] >= 1
    &&& forall|n: int| 0 <= n < 314 + m ==> #[trigger] g_ok(f, c, m, n)
    &&& c.no_duplicates()
    &&& forall|v: u16| 627 <= v < 941 ==> #[trigger] c.contains(v)
    &&& forall|v: u16| v < 2 * m && v % 2 == 0 ==> #[trigger] c.contains(v)
    &&& isum(iv(f), 314 + m) - isum(iv(f), 2 * m) == s
    &&& isum(glw(f, c), 314 + m) == s
    &&& isum(glc(c), 314 + m) == 314
}
pub open spec fn total(t: Tree) -> int { isum(iv(leaves_f(t, 627)), 314) }
#[verifier::spinoff_prover]
proof fn lemma_ginv0(t: Tree)
    requires wf(t)
    ensures ginv(leaves_f(t, 627), leaves_c(t, 627), 0, total(t))
{
    lemma_leaves(t, 627);
    let f = leaves_f(t, 627);
    let c = leaves_c(t, 627);
    let ix = leaf_ix(t, 627);
    assert(f.len() == 314);
    assert(sorted(f, 314)) by {
        assert forall|a: int, b: int| 0 <= a <= b < 314 implies f[a] <= f[b] by {
            assert(ix[a] <= ix[b]);
            assert(t.f[ix[a]] <= t.f[ix[b]]);
        }
    }
    assert(t.f[0] <= t.f[ix[0]]);
    assert(f[0] >= 1);
    assert forall|n: int| 0 <= n < 314 implies #[trigger] g_ok(f, c, 0, n) by {
        assert(kid_ok(t, ix[n]));
    }
    assert(c.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by {
            assert(kid_ok(t, ix[a]) && kid_ok(t, ix[b]));
            if a < b { assert(ix[a] < ix[b]); } else { assert(ix[b] < ix[a]); }
        }
    }
    assert forall|v: u16| 627 <= v < 941 implies #[trigger] c.contains(v) by {
        assert(leafpar_ok(t, v as int));
        let i = t.p[v as int] as int;
        assert(ix.contains(i));
        let q = choose|q: int| 0 <= q < ix.len() && ix[q] == i;
        assert(c[q] == v);
    }
    assert(glw(f, c) =~= iv(f)) by {
        assert forall|i: int| 0 <= i < 314 implies #[trigger] glw(f, c)[i] == iv(f)[i] by { assert(t.c[ix[i]] >= 627); }
    }
    assert(isum(glc(c), 314) == 314) by {
        let one = Seq::new(314, |i: int| 1int);
        assert forall|i: int| 0 <= i < 314 implies glc(c)[i] == 1 by { assert(t.c[ix[i]] >= 627); }
        lemma_isum_one(glc(c), 314);
    }
    lemma_isum_mono(iv(f), 1, 314);
    assert(isum(iv(f), 1) == f[0]) by { reveal_with_fuel(isum, 2); }
}
proof fn lemma_isum_one(v: Seq<int>, n: int)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < n ==> v[i] == 1
    ensures isum(v, n) == n
    decreases n
{
    if n > 0 { lemma_isum_one(v, n - 1); }
}
proof fn lemma_inspos(f: Seq<u16>, w: int, k: int, lo: int)
    requires 0 <= lo < k <= f.len(), f[lo] <= w, sorted(f, f.len() as int)
    ensures ({
        let r = inspos(f, w, k);
        &&& lo < r <= k
        &&& f[r - 1] <= w
        &&& forall|i: int| r <= i < k ==> f[i] > w
        &&& forall|i: int| 0 <= i < r ==> f[i] <= w
    })
    decreases k
{
    if f[k - 1] <= w {
        assert forall|i: int| 0 <= i < k implies f[i] <= w by { assert(f[i] <= f[k - 1]); }
    } else { lemma_inspos(f, w, k - 1, lo); }
}
proof fn lemma_contains_insert(c: Seq<u16>, k: int, x: u16, v: u16)
    requires 0 <= k <= c.len(), c.contains(v) || v == x
    ensures c.insert(k, x).contains(v)
{
    if v == x {
        assert(c.insert(k, x)[k] == x);
    } else {
        let q = choose|q: int| 0 <= q < c.len() && c[q] == v;
        if q < k { assert(c.insert(k, x)[q] == v); } else { assert(c.insert(k, x)[q + 1] == v); }
    }
}
/// where the next parent goes and what it weighs
proof fn lemma_gpos(f: Seq<u16>, c: Seq<u16>, m: int, s: int)
    requires ginv(f, c, m, s), m < 313
    ensures ({
        let w = f[2 * m] + f[2 * m + 1];
        let k = inspos(f, w, f.len() as int);
        &&& w <= s
        &&& 2 * m + 1 < k <= 314 + m
        &&& (forall|i: int| k <= i < f.len() ==> f[i] > w)
        &&& (forall|i: int| 0 <= i < k ==> f[i] <= w)
        &&& isum(iv(f), 2 * m + 2) == isum(iv(f), 2 * m) + w
    })
{
    let w = f[2 * m] + f[2 * m + 1];
    lemma_inspos(f, w, f.len() as int, 2 * m + 1);
    lemma_isum_mono(iv(f), 2 * m + 2, f.len() as int);
    assert(isum(iv(f), 2 * m + 2) == isum(iv(f), 2 * m) + w) by { reveal_with_fuel(isum, 3); }
}
#[verifier::spinoff_prover]
proof fn lemma_gstep_sorted(f: Seq<u16>, c: Seq<u16>, m: int, s: int, k: int, w: int)
    requires ginv(f, c, m, s), m < 313, w == f[2 * m] + f[2 * m + 1], k == inspos(f, w, f.len() as int)
    ensures ({
        let f1 = f.insert(k, w as u16);
        let c1 = c.insert(k, (2 * m) as u16);
        sorted(f1, 315 + m) && f1[0] >= 1
    })
{
    lemma_gpos(f, c, m, s);
    let f1 = f.insert(k, w as u16);
    let c1 = c.insert(k, (2 * m) as u16);
    assert(f1[k] == w);
    assert forall|a: int, b: int| 0 <= a <= b < 315 + m implies f1[a] <= f1[b] by {
        let a0 = if a < k { a } else { a - 1 };
        let b0 = if b < k { b } else { b - 1 };
        if a != k && b != k { assert(f[a0] <= f[b0]); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_gstep_ok(f: Seq<u16>, c: Seq<u16>, m: int, s: int, k: int, w: int)
    requires ginv(f, c, m, s), m < 313, w == f[2 * m] + f[2 * m + 1], k == inspos(f, w, f.len() as int)
    ensures ({
        let f1 = f.insert(k, w as u16);
        let c1 = c.insert(k, (2 * m) as u16);
        forall|n: int| 0 <= n < 315 + m ==> #[trigger] g_ok(f1, c1, m + 1, n)
    })
{
    lemma_gpos(f, c, m, s);
    let f1 = f.insert(k, w as u16);
    let c1 = c.insert(k, (2 * m) as u16);
    assert forall|n: int| 0 <= n < 315 + m implies #[trigger] g_ok(f1, c1, m + 1, n) by {
        if n < k { assert(g_ok(f, c, m, n)); }
        else if n > k { assert(g_ok(f, c, m, n - 1)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_gstep_nodup(f: Seq<u16>, c: Seq<u16>, m: int, s: int, k: int, w: int)
    requires ginv(f, c, m, s), m < 313, w == f[2 * m] + f[2 * m + 1], k == inspos(f, w, f.len() as int)
    ensures ({
        let f1 = f.insert(k, w as u16);
        let c1 = c.insert(k, (2 * m) as u16);
        c1.no_duplicates()
    })
{
    lemma_gpos(f, c, m, s);
    let f1 = f.insert(k, w as u16);
    let c1 = c.insert(k, (2 * m) as u16);
    assert forall|a: int, b: int| 0 <= a < c1.len() && 0 <= b < c1.len() && a != b implies c1[a] != c1[b] by {
        let a0 = if a < k { a } else { a - 1 };
        let b0 = if b < k { b } else { b - 1 };
        if a != k { assert(g_ok(f, c, m, a0)); assert(c1[a] == c[a0]); }
        if b != k { assert(g_ok(f, c, m, b0)); assert(c1[b] == c[b0]); }
        if a != k && b != k { assert(a0 != b0); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_gstep_all(f: Seq<u16>, c: Seq<u16>, m: int, s: int, k: int, w: int)
    requires ginv(f, c, m, s), m < 313, w == f[2 * m] + f[2 * m + 1], k == inspos(f, w, f.len() as int)
    ensures ({
        let f1 = f.insert(k, w as u16);
        let c1 = c.insert(k, (2 * m) as u16);
        (forall|v: u16| 627 <= v < 941 ==> #[trigger] c1.contains(v)) && (forall|v: u16| v < 2 * (m + 1) && v % 2 == 0 ==> #[trigger] c1.contains(v))
    })
{
    lemma_gpos(f, c, m, s);
    let f1 = f.insert(k, w as u16);
    let c1 = c.insert(k, (2 * m) as u16);
    assert forall|v: u16| 627 <= v < 941 implies #[trigger] c1.contains(v) by {
        assert(c.contains(v));
        lemma_contains_insert(c, k, (2 * m) as u16, v);
    }
    assert forall|v: u16| v < 2 * (m + 1) && v % 2 == 0 implies #[trigger] c1.contains(v) by {
        if v < 2 * m { assert(c.contains(v)); } else { assert(v == 2 * m); }
        lemma_contains_insert(c, k, (2 * m) as u16, v);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_gstep_sums(f: Seq<u16>, c: Seq<u16>, m: int, s: int, k: int, w: int)
    requires ginv(f, c, m, s), m < 313, w == f[2 * m] + f[2 * m + 1], k == inspos(f, w, f.len() as int)
    ensures ({
        let f1 = f.insert(k, w as u16);
        let c1 = c.insert(k, (2 * m) as u16);
        isum(iv(f1), 315 + m) - isum(iv(f1), 2 * m + 2) == s && isum(glw(f1, c1), 315 + m) == s && isum(glc(c1), 315 + m) == 314
    })
{
    lemma_gpos(f, c, m, s);
    let f1 = f.insert(k, w as u16);
    let c1 = c.insert(k, (2 * m) as u16);
    assert(iv(f1) =~= iv(f).insert(k, w));
    lemma_isum_insert(iv(f), k, w, 315 + m);
    lemma_isum_insert(iv(f), k, w, 2 * m + 2);
    assert(glw(f1, c1) =~= glw(f, c).insert(k, 0));
    lemma_isum_insert(glw(f, c), k, 0, 315 + m);
    assert(glc(c1) =~= glc(c).insert(k, 0));
    lemma_isum_insert(glc(c), k, 0, 315 + m);
}
proof fn lemma_gstep(f: Seq<u16>, c: Seq<u16>, m: int, s: int)
    requires ginv(f, c, m, s), m < 313
    ensures ({
        let w = f[2 * m] + f[2 * m + 1];
        let k = inspos(f, w, f.len() as int);
        ginv(f.insert(k, w as u16), c.insert(k, (2 * m) as u16), m + 1, s)
    })
{
    let w = f[2 * m] + f[2 * m + 1];
    let k = inspos(f, w, f.len() as int);
    lemma_gpos(f, c, m, s);
    lemma_gstep_sorted(f, c, m, s, k, w);
    lemma_gstep_ok(f, c, m, s, k, w);
    lemma_gstep_nodup(f, c, m, s, k, w);
    lemma_gstep_all(f, c, m, s, k, w);
    lemma_gstep_sums(f, c, m, s, k, w);
}
proof fn lemma_grow(t: Tree, m: int)
    requires wf(t), 0 <= m <= 313
    ensures ginv(grow(leaves_f(t, 627), leaves_c(t, 627), m).0, grow(leaves_f(t, 627), leaves_c(t, 627), m).1, m, total(t))
    decreases m
{
    if m == 0 { lemma_ginv0(t); } else {
        lemma_grow(t, m - 1);
        let (f, c) = grow(leaves_f(t, 627), leaves_c(t, 627), m - 1);
        lemma_gstep(f, c, m - 1, total(t));
    }
}
pub open spec fn linked(p: Seq<u16>, c: Seq<u16>, i: int) -> bool {
    p[c[i] as int] == i && (c[i] < 627 ==> p[c[i] + 1] == i)
}
proof fn lemma_relinkall(p: Seq<u16>, c: Seq<u16>, n: int)
    requires p.len() == 941, c.len() == 627, c.no_duplicates(), 0 <= n <= 627,
        forall|i: int| 0 <= i < 627 ==> (#[trigger] c[i]) < 941 && (c[i] < 627 ==> c[i] % 2 == 0 && c[i] < 626),
    ensures
        relinkall(p, c, n).len() == 941,
        relinkall(p, c, n)[626] == p[626],
        forall|i: int| 0 <= i < n ==> #[trigger] linked(relinkall(p, c, n), c, i),
    decreases n
{
    if n > 0 {
        lemma_relinkall(p, c, n - 1);
        let q = relinkall(p, c, n - 1);
        let k = c[n - 1];
        assert forall|i: int| 0 <= i < n implies #[trigger] linked(relinkall(p, c, n), c, i) by {
            if i < n - 1 {
                assert(linked(q, c, i));
                assert(c[i] != c[n - 1]);
            }
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_rebuild(t: Tree)
    requires wf(t)
    ensures wf(rebuild(t)), rebuild(t).f[626] < 0x8000
{
    let (f, c) = grow(leaves_f(t, 627), leaves_c(t, 627), 313);
    lemma_grow(t, 313);
    let r = rebuild(t);
    assert forall|i: int| 0 <= i < 627 implies (#[trigger] c[i]) < 941 && (c[i] < 627 ==> c[i] % 2 == 0 && c[i] < 626) by {
        assert(g_ok(f, c, 313, i));
    }
    lemma_relinkall(t.p, c, 627);
    assert forall|i: int| 0 <= i < 627 implies #[trigger] kid_ok(r, i) by {
        assert(g_ok(f, c, 313, i));
        assert(linked(r.p, c, i));
    }
    assert forall|n: int| 0 <= n < 626 implies #[trigger] par_ok(r, n) by {
        let e = (n - n % 2) as u16;
        assert(c.contains(e));
        let i = choose|i: int| 0 <= i < c.len() && c[i] == e;
        assert(kid_ok(r, i));
        assert(n == e || n == e + 1);
    }
    assert forall|s: int| 627 <= s < 941 implies #[trigger] leafpar_ok(r, s) by {
        assert(c.contains(s as u16));
        let i = choose|i: int| 0 <= i < c.len() && c[i] == s as u16;
        assert(kid_ok(r, i));
    }
    assert forall|i: int| 0 <= i < 627 implies #[trigger] sum_ok(r, i, -1) by {
        assert(g_ok(f, c, 313, i));
    }
    assert(lw(r) =~= glw(f, c));
    assert(lc(r) =~= glc(c));
    assert(isum(iv(f), 627) == isum(iv(f), 626) + f[626]);
}

// ---- lemmas: initial table ----
proof fn lemma_finit_pos(i: int)
    requires 0 <= i
    ensures 1 <= finit(i)
    decreases i
{
    if 314 <= i < 627 { lemma_finit_pos(2 * (i - 314)); lemma_finit_pos(2 * (i - 314) + 1); }
}
proof fn lemma_finit_mono(i: int, j: int)
    requires 0 <= i <= j < 627
    ensures finit(i) <= finit(j)
    decreases j
{
    if i < j {
        lemma_finit_pos(j);
        if i >= 314 {
            lemma_finit_mono(2 * (i - 314), 2 * (j - 314));
            lemma_finit_mono(2 * (i - 314) + 1, 2 * (j - 314) + 1);
        }
    }
}
proof fn lemma_finit()
    ensures forall|q: int| 0 <= q < 627 ==> 1 <= #[trigger] finit(q) <= 314, finit(626) == 314
{
    assert(finit(626) == 314) by (compute_only);
    assert forall|q: int| 0 <= q < 627 implies 1 <= #[trigger] finit(q) <= 314 by {
        lemma_finit_pos(q);
        lemma_finit_mono(q, 626);
    }
}
proof fn lemma_isum_prefix(v: Seq<int>, n: int, a: int, x: int)
    requires 0 <= a <= n <= v.len(), forall|i: int| 0 <= i < a ==> v[i] == x, forall|i: int| a <= i < n ==> v[i] == 0
    ensures isum(v, n) == a * x
    decreases n
{
    if n > a { lemma_isum_prefix(v, n - 1, a, x); }
    else if n > 0 {
        lemma_isum_prefix(v, n - 1, a - 1, x);
        assert(a * x == (a - 1) * x + x) by (nonlinear_arith);
    } else {
        assert(a * x == 0) by (nonlinear_arith) requires a == 0;
    }
}
/// the initial table is valid
#[verifier::spinoff_prover]
proof fn lemma_init()
    ensures wf(init_tree())
{
    let t = init_tree();
    lemma_finit();
    assert forall|i: int| 0 <= i < 627 implies #[trigger] kid_ok(t, i) by {}
    assert forall|n: int| 0 <= n < 626 implies #[trigger] par_ok(t, n) by {}
    assert forall|s: int| 627 <= s < 941 implies #[trigger] leafpar_ok(t, s) by {}
    assert forall|i: int| 0 <= i < 627 implies #[trigger] sum_ok(t, i, -1) by {}
    assert forall|i: int, j: int| 0 <= i <= j < 627 implies t.f[i] <= t.f[j] by { lemma_finit_mono(i, j); }
    lemma_isum_prefix(lw(t), 627, 314, 1);
    lemma_isum_prefix(lc(t), 627, 314, 1);
}
