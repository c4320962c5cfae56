//@include cursor.inc
spec fn cur_ok(c: Option<ColumnCursor>) -> bool { c is Some ==> c->0.offset < c->0.values.at().len() }
spec fn ct(c: Option<ColumnCursor>) -> int { c->0.values.at()[c->0.offset as int] as int }
// a comes before b: at the same time the earlier stream first, streams without rows last
spec fn better(s: Seq<Option<ColumnCursor>>, a: int, b: int) -> bool { s[b] is None || (s[a] is Some && (ct(s[a]) < ct(s[b]) || (ct(s[a]) == ct(s[b]) && a <= b))) }

spec fn anc(a: int, x: int) -> bool decreases x { a == x || (x > 1 && anc(a, x / 2)) }
proof fn lemma_anc_le(a: int, x: int) requires anc(a, x), x >= 1 ensures a <= x, a >= 1 decreases x { if a != x { lemma_anc_le(a, x / 2); } }
proof fn lemma_anc_up(a: int, x: int) requires anc(a, x), a > 1, x >= 1 ensures anc(a / 2, x) decreases x { lemma_anc_le(a, x); if a == x { assert(anc(x / 2, x / 2)); } else { lemma_anc_up(a, x / 2); } }
proof fn lemma_anc_down(k: int, x: int) requires anc(k, x), k != x, x >= 1 ensures anc(2 * k, x) || anc(2 * k + 1, x) decreases x { if x / 2 == k { assert(x == 2 * k || x == 2 * k + 1); } else { lemma_anc_down(k, x / 2); } }
proof fn lemma_anc_cmp(a: int, b: int, x: int) requires anc(a, x), anc(b, x), a < b, x >= 1 ensures a <= b / 2 decreases x {
    lemma_anc_le(a, x); lemma_anc_le(b, x);
    if b == x { lemma_anc_le(a, x / 2); } else { if a == x { } else { lemma_anc_cmp(a, b, x / 2); } }
}
spec fn pair(lt: Seq<usize>, w: Seq<int>, k: int) -> bool { (w[k] == w[2 * k] && lt[k] == w[2 * k + 1]) || (w[k] == w[2 * k + 1] && lt[k] == w[2 * k]) }
// the tree of losers: w are the winners of every node, leaves at n..2n
spec fn tree_ex(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, x: int) -> bool {
    let n = s.len() as int;
    &&& n >= 1 && lt.len() == n && w.len() == 2 * n && lt[0] == w[1]
    &&& forall|i: int| n <= i < 2 * n ==> #[trigger] w[i] == i - n
    &&& forall|k: int| 1 <= k < n ==> #[trigger] pair(lt, w, k)
    &&& forall|k: int| 1 <= k < n ==> (#[trigger] pair(lt, w, k)) && (w[k] != x && lt[k] != x ==> better(s, w[k], lt[k] as int))
}
spec fn tree_w(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>) -> bool { tree_ex(s, lt, w, -1) }
spec fn tree_wo(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>) -> bool { tree_ex(s, lt, w, lt[0] as int) }
spec fn tree(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>) -> bool { exists|w: Seq<int>| tree_w(s, lt, w) }
// the tree before the cursor of the winner moved
spec fn tree_old(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>) -> bool { lt.len() > 0 && exists|w: Seq<int>| tree_wo(s, lt, w) }
proof fn lemma_under(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, x: int, k: int)
    requires tree_ex(s, lt, w, x), 1 <= k < 2 * s.len()
    ensures 0 <= w[k] < s.len(), anc(k, s.len() + w[k]) decreases 2 * s.len() - k
{
    let n = s.len() as int;
    if k >= n { assert(w[k] == k - n); } else {
        assert(pair(lt, w, k));
        let c = if w[k] == w[2 * k] { 2 * k } else { 2 * k + 1 };
        lemma_under(s, lt, w, x, c); lemma_anc_up(c, n + w[c]);
    }
}
proof fn lemma_path(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, a: int)
    requires tree_ex(s, lt, w, lt[0] as int), anc(a, s.len() + w[1])
    ensures w[a] == w[1], 1 <= a < 2 * s.len() decreases a
{
    let n = s.len() as int; let x = w[1];
    lemma_under(s, lt, w, x, 1); lemma_anc_le(a, n + x);
    if a > 1 {
        lemma_anc_up(a, n + x); lemma_path(s, lt, w, a / 2); let k = a / 2;
        assert(pair(lt, w, k));
        let b = if a == 2 * k { 2 * k + 1 } else { 2 * k };
        if w[a] != x { lemma_under(s, lt, w, x, b); if a < b { lemma_anc_cmp(a, b, n + x); } else { lemma_anc_cmp(b, a, n + x); } }
    }
}
proof fn lemma_best(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, k: int, x: int)
    requires tree_ex(s, lt, w, -1), 1 <= k < 2 * s.len(), 0 <= x < s.len(), anc(k, s.len() + x)
    ensures better(s, w[k], x) decreases 2 * s.len() - k
{
    let n = s.len() as int;
    if k >= n { if k != n + x { lemma_anc_le(k, (n + x) / 2); } assert(w[k] == x); } else {
        lemma_anc_down(k, n + x); let c = if anc(2 * k, n + x) { 2 * k } else { 2 * k + 1 };
        lemma_best(s, lt, w, c, x); assert(pair(lt, w, k)); lemma_under(s, lt, w, -1, 2 * k); lemma_under(s, lt, w, -1, 2 * k + 1); lemma_under(s, lt, w, -1, k);
        assert(better(s, w[k], lt[k] as int));
    }
}
proof fn lemma_root(x: int) requires x >= 1 ensures anc(1, x) decreases x { if x > 1 { lemma_root(x / 2); } }
// the winner of the tree comes before every other stream
proof fn lemma_winner(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>)
    requires tree(s, lt) ensures lt.len() == s.len(), s.len() > 0, lt[0] < s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] better(s, lt[0] as int, i)
{
    let w = choose|w: Seq<int>| tree_w(s, lt, w); lemma_under(s, lt, w, -1, 1);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] better(s, lt[0] as int, i) by { lemma_root(s.len() + i); lemma_best(s, lt, w, 1, i); }
}
proof fn lemma_moved(s: Seq<Option<ColumnCursor>>, t: Seq<Option<ColumnCursor>>, lt: Seq<usize>)
    requires tree(s, lt) || tree_old(s, lt), t.len() == s.len(), lt.len() > 0, forall|i: int| 0 <= i < s.len() && i != lt[0] ==> s[i] == t[i] ensures tree_old(t, lt)
{
    let x = lt[0] as int;
    let w = if tree(s, lt) { choose|w: Seq<int>| tree_w(s, lt, w) } else { choose|w: Seq<int>| tree_wo(s, lt, w) };
    let e = if tree(s, lt) { -1 } else { x };
    assert forall|k: int| 1 <= k < s.len() implies (#[trigger] pair(lt, w, k)) && (w[k] != x && lt[k] != x ==> better(t, w[k], lt[k] as int)) by {
        assert(pair(lt, w, k)); lemma_under(s, lt, w, e, k); lemma_under(s, lt, w, e, 2 * k); lemma_under(s, lt, w, e, 2 * k + 1);
        if w[k] != x && lt[k] != x { assert(better(s, w[k], lt[k] as int)); }
    }
    assert(tree_wo(t, lt, w));
}
