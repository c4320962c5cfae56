//@extract tskv/src/reader/sort_merge.rs Ord for ColumnCursor::cmp
@header impl ColumnCursor
@subst /T::compare/ => compare
@ret r
@spec
    requires self.offset < self.values.at().len(), other.offset < other.values.at().len()
    ensures r is Less <==> ct(Some(*self)) < ct(Some(*other)), r is Greater <==> ct(Some(*self)) > ct(Some(*other)), r is Equal <==> ct(Some(*self)) == ct(Some(*other))
@end
spec fn fr(a: SortPreservingMergeStream, b: SortPreservingMergeStream) -> bool { b.cursors == a.cursors && b.streams == a.streams && b.in_progress == a.in_progress && b.h == a.h && b.batch_size == a.batch_size }
spec fn curs_ok(c: Seq<Option<ColumnCursor>>) -> bool { c.len() < 0x7fff_ffff && forall|i: int| 0 <= i < c.len() ==> cur_ok(#[trigger] c[i]) }
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::is_gt
@header impl SortPreservingMergeStream
@subst /(\w+)\.cmp\((\w+)\)\.then_with\(\|\| (\w+)\.cmp\(&(\w+)\)\)\.is_gt\(\)/ => gt2(\1.cmp(\2), cmp_idx(\3, \4))
@ret r
@spec
    requires curs_ok(self.cursors@), a < self.cursors.len(), b < self.cursors.len()
    ensures r ==> better(self.cursors@, b as int, a as int), !r ==> better(self.cursors@, a as int, b as int)
@end
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::lt_leaf_node_index
@header impl SortPreservingMergeStream
@ret r
@spec
    requires self.cursors.len() < 0x7fff_ffff, cursor_index < self.cursors.len()
    ensures r == (self.cursors.len() + cursor_index) / 2
@end
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::lt_parent_node_index
@header impl SortPreservingMergeStream
@ret r
@spec
    ensures r == node_idx / 2
@end
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::update_loser_tree
@header impl SortPreservingMergeStream
@subst /self\.loser_tree\[(\w+)\] = (\w+);/ => self.loser_tree.set(\1, \2);
@spec
    requires curs_ok(old(self).cursors@), tree_old(old(self).cursors@, old(self).loser_tree@)
    ensures tree(final(self).cursors@, final(self).loser_tree@), final(self).loser_tree_adjusted, fr(*old(self), *final(self))
@at start
    let ghost m0 = *self; let ghost w0 = choose|w: Seq<int>| tree_wo(self.cursors@, self.loser_tree@, w);
    let ghost mut w = w0; let ghost lt0 = self.loser_tree@; let ghost s = self.cursors@; let ghost n = s.len() as int; let ghost x = lt0[0] as int;
    proof { lemma_under(s, lt0, w0, x, 1); assert(w0[n + x] == x); }
    let ghost mut c = n + x;
    proof { assert forall|j: int| 1 <= j < n && !anc(j, n + x) implies (#[trigger] pair(lt0, w0, j)) && better(s, w0[j], lt0[j] as int) by {
        assert(pair(lt0, w0, j)); lemma_under(s, lt0, w0, x, j);
        if lt0[j] == x { let a = if w0[2 * j] == x { 2 * j } else { 2 * j + 1 }; lemma_under(s, lt0, w0, x, a); lemma_anc_up(a, n + x); }
    } assert(anc(n + x, n + x)); assert(anc(c, n + x)); }
@loop 0
    invariant fr(m0, *self), self.cursors@ == s, curs_ok(s), n == s.len(), tree_ex(s, lt0, w0, x), x == lt0[0], x == w0[1], 0 <= x < n, self.loser_tree@.len() == n, w.len() == 2 * n,
        cmp_node == c / 2, 1 <= c < 2 * n, anc(c, n + x), winner == w[c], winner < n,
        forall|i: int| n <= i < 2 * n ==> #[trigger] w[i] == i - n,
        forall|j: int| 1 <= j < 2 * n && !anc(j, n + x) ==> #[trigger] w[j] == w0[j],
        forall|j: int| 1 <= j < n && (!anc(j, n + x) || j < c) ==> #[trigger] self.loser_tree@[j] == lt0[j],
        forall|j: int| 1 <= j < n && j < c ==> #[trigger] w[j] == w0[j],
        forall|j: int| 1 <= j < n && (!anc(j, n + x) || j >= c) ==> (#[trigger] pair(self.loser_tree@, w, j)) && better(s, w[j], self.loser_tree@[j] as int),
    decreases cmp_node
@at loop-start 0
    let ghost k = cmp_node as int; let ghost lp = self.loser_tree@; let ghost wp = w;
    let ghost sib = if c == 2 * k { 2 * k + 1 } else { 2 * k };
    proof {
        assert(lp[k] == lt0[k]);
        lemma_anc_up(c, n + x); lemma_path(s, lt0, w0, k); lemma_path(s, lt0, w0, c); assert(pair(lt0, w0, k));
        if anc(sib, n + x) { if c < sib { lemma_anc_cmp(c, sib, n + x); } else { lemma_anc_cmp(sib, c, n + x); } }
        lemma_under(s, lt0, w0, x, sib);
        assert(w0[sib] != x); assert(lt0[k] == w0[sib]); assert(w[sib] == w0[sib]);
    }
@at loop-end 0
    proof {
        w = wp.update(k, winner as int);
        assert forall|j: int| 1 <= j < n && (!anc(j, n + x) || j >= k) implies (#[trigger] pair(self.loser_tree@, w, j)) && better(s, w[j], self.loser_tree@[j] as int) by {
            if j == k { } else {
                if anc(j, n + x) && j < c { lemma_anc_cmp(j, c, n + x); }
                assert(pair(lp, wp, j)); 
                if 2 * j == k || 2 * j + 1 == k { lemma_anc_up(k, n + x); }
            }
        }
        c = k;
    }
@at after-loop 0
    proof { lemma_root(n + x); assert(c == 1); }
    let ghost l9 = self.loser_tree@;
@at tail
    proof {
        let t = self.loser_tree@;
        assert forall|k: int| 1 <= k < n implies (#[trigger] pair(t, w, k)) && better(s, w[k], t[k] as int) by { assert(pair(l9, w, k)); }
        assert(tree_w(s, t, w));
    }
@end
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::init_loser_tree
@header impl SortPreservingMergeStream
@subst /self\.loser_tree\[(\w+)\] = (\w+);/ => self.loser_tree.set(\1, \2);
@spec
    requires curs_ok(old(self).cursors@), old(self).cursors.len() > 0
    ensures tree(final(self).cursors@, final(self).loser_tree@), final(self).loser_tree_adjusted, fr(*old(self), *final(self))
@at start
    let ghost m0 = *self; let ghost s = self.cursors@; let ghost n = s.len() as int;
    let ghost mut w: Seq<int> = Seq::new((2 * n) as nat, |i: int| i - n); let ghost mut A: Seq<bool> = Seq::new((2 * n) as nat, |i: int| false);
@iter 0 it
@loop 0
    invariant fr(m0, *self), self.cursors@ == s, curs_ok(s), n == s.len(), n > 0, half(s, self.loser_tree@, w, A, 0), forall|j: int| n <= j < 2 * n ==> (#[trigger] A[j] <==> j < n + it.index@)
@at loop-start 0
    proof { assert(!A[n + i]); assert(w[n + i] == i); if n > 1 { lemma_half(s, self.loser_tree@, w, A, n + i); } A = A.update(n + i, true); }
    let ghost mut c = n + i;
@loop 1
    invariant fr(m0, *self), self.cursors@ == s, curs_ok(s), n == s.len(), n > 0, i < n, 1 <= c < 2 * n, cmp_node == c / 2, winner == w[c], winner < n, A[c],
        half(s, self.loser_tree@, w, A, c), forall|j: int| n <= j < 2 * n ==> (#[trigger] A[j] <==> j <= n + i)
    decreases cmp_node
@at loop-start 1
    let ghost k = cmp_node as int; let ghost lp = self.loser_tree@; let ghost wp = w; let ghost Ap = A;
    let ghost sib = if c == 2 * k { 2 * k + 1 } else { 2 * k };
    proof { assert(hpair(s, lp, w, A, k, c)); assert(Ap[sib]); }
@at loop-end 1
    proof {
        w = wp.update(k, winner as int); A = Ap.update(k, true);
        assert forall|j: int| 1 <= j < n implies #[trigger] hpair(s, self.loser_tree@, w, A, j, k) by { assert(hpair(s, lp, wp, Ap, j, c)); }
        assert forall|j: int| 1 <= j < 2 * n && A[j] implies 0 <= #[trigger] w[j] < n by { if j != k { assert(Ap[j]); assert(0 <= wp[j] < n); } }
        c = k;
    }
@at after-loop 1
    let ghost l8 = self.loser_tree@; proof { if cmp_node == 0 { assert(c == 1); } else { assert(hpair(s, l8, w, A, cmp_node as int, c)); } }
@at loop-end 0
    proof {
        let t = self.loser_tree@;
        assert forall|j: int| 1 <= j < n implies #[trigger] hpair(s, t, w, A, j, 0) by { assert(hpair(s, l8, w, A, j, c)); }
    }
@at after-loop 0
    proof {
        let t = self.loser_tree@;
        lemma_all(s, t, w, A, 1);
        assert forall|k: int| 1 <= k < n implies (#[trigger] pair(t, w, k)) && better(s, w[k], t[k] as int) by { assert(hpair(s, t, w, A, k, 0)); lemma_all(s, t, w, A, k); lemma_all(s, t, w, A, 2 * k); lemma_all(s, t, w, A, 2 * k + 1); }
        assert(tree_w(s, t, w));
    }
@end
// the tree while leaves are put into it: A the nodes whose winner is known; c (not 0) is on its way to its parent
spec fn hpair(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, A: Seq<bool>, k: int, c: int) -> bool {
    let a = A[2 * k] && c != 2 * k; let b = A[2 * k + 1] && c != 2 * k + 1;
    &&& A[k] == (a && b)
    &&& a && b ==> pair(lt, w, k) && better(s, w[k], lt[k] as int)
    &&& a && !b ==> lt[k] == w[2 * k]
    &&& !a && b ==> lt[k] == w[2 * k + 1]
    &&& !a && !b ==> lt[k] == usize::MAX
}
spec fn half(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, A: Seq<bool>, c: int) -> bool {
    let n = s.len() as int;
    &&& lt.len() == n && w.len() == 2 * n && A.len() == 2 * n
    &&& forall|i: int| n <= i < 2 * n ==> #[trigger] w[i] == i - n
    &&& forall|j: int| 1 <= j < 2 * n && A[j] ==> 0 <= #[trigger] w[j] < n
    &&& forall|k: int| 1 <= k < n ==> #[trigger] hpair(s, lt, w, A, k, c)
    &&& A[1] && c != 1 ==> lt[0] == w[1]
}
proof fn lemma_half(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, A: Seq<bool>, c: int)
    requires half(s, lt, w, A, 0), s.len() <= c < 2 * s.len(), !A[c], s.len() > 1 ensures half(s, lt, w, A.update(c, true), c)
{
    let n = s.len() as int;
    assert forall|k: int| 1 <= k < n implies #[trigger] hpair(s, lt, w, A.update(c, true), k, c) by { assert(hpair(s, lt, w, A, k, 0)); }
}
proof fn lemma_all(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>, w: Seq<int>, A: Seq<bool>, k: int)
    requires half(s, lt, w, A, 0), 1 <= k < 2 * s.len(), forall|j: int| s.len() <= j < 2 * s.len() ==> #[trigger] A[j] ensures A[k] decreases 2 * s.len() - k
{
    if k < s.len() { lemma_all(s, lt, w, A, 2 * k); lemma_all(s, lt, w, A, 2 * k + 1); assert(hpair(s, lt, w, A, k, 0)); }
}
