//@include cursors.inc
#[verifier::external_body] struct ColumnCursorStream { x: u8 }
impl ColumnCursorStream {
    uninterp spec fn parts(self) -> int;
    uninterp spec fn schema(self) -> SchemaRef;
    uninterp spec fn rem(self, i: int) -> Seq<R>;
    uninterp spec fn cwf(self) -> bool;
    #[verifier::external_body] fn partitions(&self) -> (r: usize) ensures r == self.parts() { unimplemented!() }
    #[verifier::external_body] fn poll_next(&mut self, cx: Context, i: usize) -> (r: Poll<Option<TskvResult<(ColumnCursor, RecordBatch)>>>)
        requires old(self).cwf(), i < old(self).parts() ensures polled(*old(self), *final(self), i as int, r) { unimplemented!() }
}
ghost struct Hist { all: Seq<Seq<R>>, pos: Seq<int>, base: Seq<int> }
//@extract tskv/src/reader/sort_merge.rs struct SortPreservingMergeStream
@subst /<T: FieldArray>/ =>
@subst /<T::Values>/ =>
@subst /<T>/ =>
@subst /metrics: SortMergeMetrics/ => h: Ghost<Hist>
@end
spec fn gall(b: BatchMergeBuilder) -> Seq<G> { if b.last_same_rows.len() > 0 { b.g@.groups.push(b.last_same_rows@) } else { b.g@.groups } }
spec fn sid(m: SortPreservingMergeStream, x: (usize, usize)) -> int { m.in_progress.batches@[x.0 as int].0->0 as int }
spec fn rpos(m: SortPreservingMergeStream, x: (usize, usize)) -> int { m.h@.base[x.0 as int] + x.1 }
spec fn asc(a: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).t < (#[trigger] a[j]).t }
spec fn lnk(m: SortPreservingMergeStream, i: int) -> bool {
    let a = m.h@.all[i]; let p = m.h@.pos[i]; let rem = m.streams.rem(i); let bc = m.in_progress.cursors@[i]; let bs = m.in_progress.batches@;
    &&& 0 <= p <= a.len() && asc(a)
    &&& m.cursors@[i] is None ==> rem.len() == a.len() - p && forall|x: int| 0 <= x < rem.len() ==> #[trigger] rem[x] == a[p + x]
    &&& m.cursors@[i] is Some ==> {
        let cu = m.cursors@[i]->0; let b = bs[bc.batch_idx as int].1; let base = m.h@.base[bc.batch_idx as int];
        &&& bc.batch_idx < bs.len() && bc.row_idx == cu.offset && cu.offset < b.n() && base + bc.row_idx == p && bs[bc.batch_idx as int].0 == Some(i as usize) && cells_of(cu, b)
        &&& base + b.n() + rem.len() == a.len() && forall|x: int| 0 <= x < rem.len() ==> #[trigger] rem[x] == a[base + b.n() + x]
    }
}
spec fn blnk(m: SortPreservingMergeStream, b: int) -> bool {
    let x = m.in_progress.batches@[b]; let i = x.0->0 as int; let base = m.h@.base[b];
    x.0 is Some && i < m.cursors.len() && 0 <= base && base + x.1.n() <= m.h@.all[i].len() && forall|r: int| 0 <= r < x.1.n() ==> #[trigger] rr(x.1, r) == m.h@.all[i][base + r]
}
// the rows of a group are rows already taken, at most one of every stream, in the order of the streams
spec fn glnk(m: SortPreservingMergeStream, g: G) -> bool {
    (forall|x: int| 0 <= x < g.len() ==> rv(m.in_progress.batches@, #[trigger] g[x]) && rpos(m, g[x]) < m.h@.pos[sid(m, g[x])]) && (forall|x: int, y: int| 0 <= x < y < g.len() ==> sid(m, #[trigger] g[x]) < sid(m, #[trigger] g[y]))
}
spec fn at(m: SortPreservingMergeStream, i: int, q: int, j: int, x: int) -> bool { let g = gall(m.in_progress); 0 <= j < g.len() && 0 <= x < g[j].len() && sid(m, g[j][x]) == i && rpos(m, g[j][x]) == q }
spec fn has(m: SortPreservingMergeStream, i: int, q: int) -> bool { exists|j: int, x: int| #[trigger] at(m, i, q, j, x) }
spec fn mok(m: SortPreservingMergeStream) -> bool {
    let k = m.cursors.len() as int; let b = m.in_progress; let h = m.h@; let g = gall(b);
    &&& bok(b) && b.cursors.len() == k && m.streams.parts() == k && h.all.len() == k && h.pos.len() == k && h.base.len() == b.batches.len() && k > 0 && curs_ok(m.cursors@) && m.streams.schema() == b.schema && m.streams.cwf() && m.batch_size > 0
    &&& forall|i: int| 0 <= i < k ==> #[trigger] lnk(m, i)
    &&& forall|i: int| 0 <= i < b.batches.len() ==> #[trigger] blnk(m, i)
    &&& forall|j: int| 0 <= j < g.len() ==> glnk(m, #[trigger] g[j])
    &&& forall|i: int, q: int| 0 <= i < k && 0 <= q < h.pos[i] ==> #[trigger] has(m, i, q)
    &&& b.last_same_rows.len() > 0 ==> forall|i: int| 0 <= i < k && h.pos[i] < h.all[i].len() ==> after(m, #[trigger] h.all[i][h.pos[i]], i, b.last_same_rows@.last())
    &&& b.last is Some && b.last_same_rows.len() == 0 ==> forall|i: int| 0 <= i < k ==> #[trigger] h.pos[i] == h.all[i].len()
}
// row r of stream i comes after the row taken last
spec fn after(m: SortPreservingMergeStream, r: R, i: int, l: (usize, usize)) -> bool { let t = rt(m.in_progress.batches@, l); r.t > t || (r.t == t && i > sid(m, l)) }
spec fn st(m: SortPreservingMergeStream) -> bool {
    let c = m.cursors@; let lt = m.loser_tree@;
    lt.len() > 0 ==> (m.loser_tree_adjusted ==> tree(c, lt)) && (!m.loser_tree_adjusted ==> tree_old(c, lt)) && forall|i: int| 0 <= i < c.len() && (#[trigger] c[i]) is None ==> m.streams.rem(i).len() == 0 || (!m.loser_tree_adjusted && i == lt[0])
}
// v is what column c has at time t: the value of the last of the streams that has one
spec fn newest(all: Seq<Seq<R>>, t: int, c: int, v: Option<int>) -> bool {
    &&& v is None ==> forall|i: int, q: int| 0 <= i < all.len() && 0 <= q < all[i].len() && (#[trigger] all[i][q]).t == t ==> (all[i][q].f)(c) is None
    &&& v is Some ==> exists|i: int, q: int| #[trigger] top(all, t, c, v, i, q)
}
spec fn top(all: Seq<Seq<R>>, t: int, c: int, v: Option<int>, i: int, q: int) -> bool {
    0 <= i < all.len() && 0 <= q < all[i].len() && all[i][q].t == t && (all[i][q].f)(c) == v && forall|a: int, b: int| i < a < all.len() && 0 <= b < all[a].len() && (#[trigger] all[a][b]).t == t ==> (all[a][b].f)(c) is None
}
spec fn gt(m: SortPreservingMergeStream, j: int) -> int { rt(m.in_progress.batches@, m.in_progress.g@.groups[j][0]) }
// the batch has the rows of the groups from e on: every time once, its newest values
spec fn out(m: SortPreservingMergeStream, e: int, r: RecordBatch) -> bool {
    let gs = m.in_progress.g@.groups; let n = ncols(m.in_progress.schema);
    &&& r.n() == gs.len() - e && r.cols() == n
    &&& forall|j: int| e <= j < gs.len() ==> r.cell(tcol(), j - e) == Some(#[trigger] gt(m, j)) && exists|i: int, q: int| 0 <= i < m.h@.all.len() && 0 <= q < m.h@.all[i].len() && (#[trigger] m.h@.all[i][q]).t == gt(m, j)
    &&& forall|j: int, c: int| e <= j < gs.len() && 0 <= c < n ==> newest(m.h@.all, gt(m, j), c, #[trigger] r.cell(c, j - e))
}
spec fn emitted(m: SortPreservingMergeStream, t: int) -> bool { exists|j: int| 0 <= j < m.in_progress.g@.e && #[trigger] gt(m, j) == t }
