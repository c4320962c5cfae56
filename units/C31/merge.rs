use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include tree.inc
//@include builder.inc
//@include merge.inc
//@include tree_fns.inc
//@include builder_fns.inc
#[verifier::external_body] fn slot_mut(v: &mut Vec<Option<ColumnCursor>>, i: usize) -> (r: &mut Option<ColumnCursor>)
    requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), final(v).len() == old(v).len() { unimplemented!() }
#[verifier::external_body] fn opt_mut(o: &mut Option<ColumnCursor>) -> (r: &mut ColumnCursor) requires *old(o) is Some ensures *r == (*old(o))->0, *final(o) == Some(*final(r)) { unimplemented!() }
#[verifier::external_body] fn none_cursors(n: usize) -> (r: Vec<Option<ColumnCursor>>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None { unimplemented!() }
#[verifier::external_body] fn column_index_of(v: &Vec<Option<ColumnCursor>>, i: usize) -> (r: Option<usize>) ensures i < v.len() && v@[i as int] is Some ==> r == Some((v@[i as int]->0).column_index) { unimplemented!() }
//@extract tskv/src/reader/sort_merge.rs Cursor for ColumnCursor::is_finished
@header impl ColumnCursor
@ret r
@spec
    ensures r == (self.offset == self.values.at().len())
@end
//@extract tskv/src/reader/sort_merge.rs Cursor for ColumnCursor::advance
@header impl ColumnCursor
@spec
    requires old(self).offset < usize::MAX
    ensures final(self).offset == old(self).offset + 1, final(self).values == old(self).values, final(self).column_index == old(self).column_index
@end
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::new
@header impl SortPreservingMergeStream
@subst /metrics: &ExecutionPlanMetricsSet,/ => 
@subst /-> SortPreservingMergeStream<T>/ => -> SortPreservingMergeStream
@subst /ColumnCursorStream<T>/ => ColumnCursorStream
@subst /metrics: SortMergeMetrics::new\(metrics\)/ => h: Ghost(Hist { all: Seq::new(stream_count as nat, |i: int| streams.rem(i)), pos: Seq::new(stream_count as nat, |i: int| 0), base: Seq::empty() })
@subst /\(0\.\.(\w+)\)\.map\(\|_\w*\| None\)\.collect\(\)/ => none_cursors(\1)
@ret r
@spec
    requires streams.cwf(), 0 < streams.parts() < 0x7fff_ffff, streams.schema() == schema, batch_size > 0, forall|i: int| 0 <= i < streams.parts() ==> asc(#[trigger] streams.rem(i))
    ensures mok(r), st(r), r.in_progress.g@.e == 0, r.in_progress.g@.groups.len() == 0, r.h@.all == Seq::new(streams.parts() as nat, |i: int| streams.rem(i))
@end
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::maybe_poll_stream
@header impl SortPreservingMergeStream
@subst /cx: &mut Context<'_>/ => cx: Context
@subst /(?:futures::)?ready!\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)/ => (match \1 { Poll::Ready(v) => v, Poll::Pending => { proof { lemma_same(m0, *self); } return Poll::Pending } })
@subst /None => Poll::Ready\(Ok\(\(\)\)\),/ => None => { proof { lemma_same(m0, *self); } Poll::Ready(Ok(())) },
@subst /self\.cursors\[idx\] = Some\(cursor\);/ => self.cursors.set(idx, Some(cursor));
@ret r
@spec
    requires mok(*old(self)), idx < old(self).cursors.len()
    ensures !(r is Ready && r->0 is Err) ==> mok(*final(self)) && same_but(*old(self), *final(self), idx as int),
        r is Pending ==> final(self).cursors == old(self).cursors && final(self).streams.rem(idx as int) == old(self).streams.rem(idx as int),
        r is Ready && r->0 is Ok ==> final(self).cursors@[idx as int] is None ==> final(self).streams.rem(idx as int).len() == 0
@at start
    let ghost m0 = *self; let ghost i0 = idx as int;
    proof { assert(lnk(m0, i0)); }
@at before /Poll::Ready\(Ok\(\(\)\)\)\s*\}\s*\}\s*\}\s*$/
    proof {
        let n = (self.in_progress.batches@.len() - 1);
        self.h = Ghost(Hist { base: m0.h@.base.push(m0.h@.pos[i0]), ..m0.h@ });
        lemma_polled(m0, *self, i0, self.cursors@[i0]->0, self.in_progress.batches@[n].1);
    }
@end
proof fn lemma_same(a: SortPreservingMergeStream, b: SortPreservingMergeStream)
    requires mok(a), b.streams.cwf(), b.streams.parts() == a.streams.parts(), b.streams.schema() == a.streams.schema(), forall|j: int| #[trigger] b.streams.rem(j) == a.streams.rem(j), b.cursors == a.cursors, b.in_progress == a.in_progress, b.h == a.h, b.batch_size == a.batch_size
    ensures mok(b)
{
    let k = a.cursors.len() as int; let g = gall(a.in_progress);
    assert forall|j: int| 0 <= j < k implies #[trigger] lnk(b, j) by { assert(lnk(a, j)); }
    assert forall|j: int| 0 <= j < a.in_progress.batches.len() implies #[trigger] blnk(b, j) by { assert(blnk(a, j)); }
    assert forall|j: int| 0 <= j < g.len() implies glnk(b, #[trigger] g[j]) by { assert(glnk(a, g[j])); }
    assert forall|p: int, q: int| 0 <= p < k && 0 <= q < b.h@.pos[p] implies #[trigger] has(b, p, q) by { assert(has(a, p, q)); let (j, x) = choose|j: int, x: int| #[trigger] at(a, p, q, j, x); assert(at(b, p, q, j, x)); }
    if b.in_progress.last_same_rows.len() > 0 { assert forall|p: int| 0 <= p < k && b.h@.pos[p] < b.h@.all[p].len() implies after(b, #[trigger] b.h@.all[p][b.h@.pos[p]], p, b.in_progress.last_same_rows@.last()) by { assert(after(a, a.h@.all[p][a.h@.pos[p]], p, b.in_progress.last_same_rows@.last())); } }
}
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::advance
@header impl SortPreservingMergeStream
@subst /&mut self\.cursors\[stream_idx\]/ => slot_mut(&mut self.cursors, stream_idx)
@subst /match (\w+)\.as_mut\(\) \{\s*Some\((\w+)\) => \{/ => match \1.is_some() { true => { let \2 = opt_mut(\1);
@subst /None => false/ => false => false
@ret r
@spec
    requires stream_idx < old(self).cursors.len(), curs_ok(old(self).cursors@), old(self).cursors@[stream_idx as int] is Some ==> old(self).cursors@[stream_idx as int]->0.offset < old(self).cursors@[stream_idx as int]->0.values.at().len() <= usize::MAX
    ensures r == (old(self).cursors@[stream_idx as int] is Some), !r ==> final(self).cursors@ == old(self).cursors@,
        final(self).loser_tree == old(self).loser_tree, final(self).loser_tree_adjusted == old(self).loser_tree_adjusted, final(self).streams == old(self).streams, final(self).in_progress == old(self).in_progress, final(self).h == old(self).h, final(self).batch_size == old(self).batch_size,
        r ==> final(self).cursors@ == old(self).cursors@.update(stream_idx as int, final(self).cursors@[stream_idx as int]) && is_step(old(self).cursors@[stream_idx as int]->0, final(self).cursors@[stream_idx as int])
@end
spec fn is_step(c: ColumnCursor, n: Option<ColumnCursor>) -> bool {
    if c.offset + 1 == c.values.at().len() { n is None } else { n is Some && n->0.offset == c.offset + 1 && n->0.values == c.values && n->0.column_index == c.column_index }
}
spec fn pushed(a: BatchMergeBuilder, b: BatchMergeBuilder, w: int) -> bool {
    let c = a.cursors@[w]; let x = (c.batch_idx, c.row_idx); let bs = a.batches@; let s = a.last_same_rows@;
    &&& b.batches == a.batches && b.schema == a.schema && b.g@.e == a.g@.e && bok(b)
    &&& b.cursors@ == a.cursors@.update(w, BatchCursor { batch_idx: c.batch_idx, row_idx: (c.row_idx + 1) as usize })
    &&& if a.last is None { b.last_same_rows@ == seq![x] && b.g == a.g } else if rt(bs, s[0]) == rt(bs, x) { b.last_same_rows@ == s.push(x) && b.g == a.g } else { b.last_same_rows@ == seq![x] && b.g@.groups == a.g@.groups.push(s) }
}
// the winner's row goes to the builder
proof fn lemma_step(a: SortPreservingMergeStream, b: SortPreservingMergeStream, w: int)
    requires mok(a), st(a), a.loser_tree_adjusted, a.loser_tree.len() > 0, w == a.loser_tree@[0], a.cursors@[w] is Some, b.cursors@ == a.cursors@.update(w, b.cursors@[w]), is_step(a.cursors@[w]->0, b.cursors@[w]),
        b.loser_tree == a.loser_tree, !b.loser_tree_adjusted, b.streams == a.streams, b.batch_size == a.batch_size, b.h@ == (Hist { pos: a.h@.pos.update(w, a.h@.pos[w] + 1), ..a.h@ }), pushed(a.in_progress, b.in_progress, w)
    ensures mok(b), st(b)
{
    let k = a.cursors.len() as int; let g = gall(a.in_progress); let g2 = gall(b.in_progress); let bs = a.in_progress.batches@; let cc = a.in_progress.cursors@[w]; let x = (cc.batch_idx, cc.row_idx); let s = a.in_progress.last_same_rows@; let s2 = b.in_progress.last_same_rows@;
    lemma_winner(a.cursors@, a.loser_tree@); lemma_moved(a.cursors@, b.cursors@, a.loser_tree@);
    lemma_row(a, w);
    assert forall|i: int| 0 <= i < k implies #[trigger] lnk(b, i) by { assert(lnk(a, i)); if i != w { assert(b.cursors@[i] == a.cursors@[i]); } else {
        let p = a.h@.pos[w]; let bb = bs[cc.batch_idx as int].1; let rem = b.streams.rem(w);
        if b.cursors@[w] is None { assert(p + 1 == a.h@.base[cc.batch_idx as int] + bb.n()); assert forall|y: int| 0 <= y < rem.len() implies #[trigger] rem[y] == b.h@.all[w][p + 1 + y] by { assert(rem[y] == a.h@.all[w][a.h@.base[cc.batch_idx as int] + bb.n() + y]); } } } }
    assert forall|i: int| 0 <= i < bs.len() implies #[trigger] blnk(b, i) by { assert(blnk(a, i)); }
    assert forall|j: int| 0 <= j < g.len() implies #[trigger] glnk(b, g[j]) by { assert(glnk(a, g[j])); assert forall|y: int| 0 <= y < g[j].len() implies rv(bs, #[trigger] g[j][y]) && rpos(b, g[j][y]) < b.h@.pos[sid(b, g[j][y])] by { assert(rv(bs, g[j][y])); assert(rpos(a, g[j][y]) < a.h@.pos[sid(a, g[j][y])]); assert(blnk(a, g[j][y].0 as int)); } }
    if s.len() > 0 { assert(g[g.len() - 1] == s); assert(glnk(a, s)); assert(grp(bs, s)); }
    assert(g2.len() > 0 && g2.last() == s2);
    assert(s2.len() > 0 && s2.last() == x);
    assert forall|j: int| 0 <= j < g2.len() - 1 implies j < g.len() && #[trigger] g2[j] == g[j] by { }
    assert(glnk(b, s2)) by {
        if s2.len() > 1 {
            assert(s2 == s.push(x)); assert(after(a, a.h@.all[w][a.h@.pos[w]], w, s.last()));
            assert forall|y: int| 0 <= y < s2.len() implies rv(bs, #[trigger] s2[y]) && rpos(b, s2[y]) < b.h@.pos[sid(b, s2[y])] by { if y < s.len() { assert(s2[y] == s[y]); assert(glnk(b, g[g.len() - 1])); assert(rv(bs, s[y])); } else { assert(s2[y] == x); } }
            assert(rt(bs, s.last()) == rt(bs, s[0])) by { assert(rt(bs, s[s.len() - 1]) == rt(bs, s[0])); }
            assert forall|y: int, z: int| 0 <= y < z < s2.len() implies sid(b, #[trigger] s2[y]) < sid(b, #[trigger] s2[z]) by { assert(s2[y] == s[y]); if z < s.len() { assert(s2[z] == s[z]); assert(sid(a, s[y]) < sid(a, s[z])); } else { assert(s2[z] == x); assert(sid(a, s.last()) < w); if y < s.len() - 1 { assert(sid(a, s[y]) < sid(a, s[s.len() - 1])); } } }
        } else { assert(s2[0] == x); }
    }
    assert forall|j: int| 0 <= j < g2.len() implies glnk(b, #[trigger] g2[j]) by { if j < g2.len() - 1 { assert(g2[j] == g[j]); assert(glnk(b, g[j])); } }
    assert forall|i: int, q: int| 0 <= i < k && 0 <= q < b.h@.pos[i] implies #[trigger] has(b, i, q) by {
        if q < a.h@.pos[i] { assert(has(a, i, q)); let (j, y) = choose|j: int, y: int| #[trigger] at(a, i, q, j, y); assert(j < g2.len()); if j < g2.len() - 1 { assert(g2[j] == g[j]); } else { if s2.len() > 1 { assert(g[j] == s); assert(s2[y] == s[y]); } else { assert(g2[j] == g[j]); } } assert(at(b, i, q, j, y)); }
        else { assert(at(b, i, q, g2.len() - 1, s2.len() - 1)); }
    }
    assert forall|i: int| 0 <= i < k && b.h@.pos[i] < b.h@.all[i].len() implies after(b, #[trigger] b.h@.all[i][b.h@.pos[i]], i, s2.last()) by {
        assert(better(a.cursors@, w, i)); assert(lnk(a, i)); assert(lnk(a, w));
        if i == w { assert(a.h@.all[w][a.h@.pos[w]].t < a.h@.all[w][a.h@.pos[w] + 1].t); } else if a.cursors@[i] is Some { lemma_row(a, i); } else { assert(a.streams.rem(i).len() == 0); }
    }
    assert forall|j: int| 0 <= j < k implies cur_ok(#[trigger] b.cursors@[j]) by { if j != w { assert(b.cursors@[j] == a.cursors@[j]); assert(cur_ok(a.cursors@[j])); } else { assert(cur_ok(a.cursors@[w])); } }
}
// the row a cursor stands on
proof fn lemma_row(a: SortPreservingMergeStream, i: int)
    requires mok(a), 0 <= i < a.cursors.len(), a.cursors@[i] is Some
    ensures ({ let bc = a.in_progress.cursors@[i]; let x = (bc.batch_idx, bc.row_idx); let p = a.h@.pos[i]; rv(a.in_progress.batches@, x) && sid(a, x) == i && rpos(a, x) == p && p < a.h@.all[i].len() && rt(a.in_progress.batches@, x) == ct(a.cursors@[i]) && a.h@.all[i][p].t == ct(a.cursors@[i]) && a.cursors@[i]->0.column_index == tcol() && a.cursors@[i]->0.values.at().len() == a.in_progress.batches@[bc.batch_idx as int].1.n() })
{
    assert(lnk(a, i)); let bc = a.in_progress.cursors@[i]; let bs = a.in_progress.batches@; let cu = a.cursors@[i]->0; let b = bs[bc.batch_idx as int].1;
    assert(blnk(a, bc.batch_idx as int)); assert(rr(b, bc.row_idx as int) == a.h@.all[i][a.h@.pos[i]]); assert(cells_of(cu, b)); assert(cu.values.at()[cu.offset as int] as int == b.cell(tcol(), cu.offset as int)->0);
}
spec fn same_but(a: SortPreservingMergeStream, b: SortPreservingMergeStream, i: int) -> bool {
    &&& b.cursors.len() == a.cursors.len() && forall|j: int| #![trigger a.cursors@[j]] #![trigger b.cursors@[j]] 0 <= j < a.cursors.len() && j != i ==> b.cursors@[j] == a.cursors@[j] && b.streams.rem(j) == a.streams.rem(j)
    &&& b.loser_tree == a.loser_tree && b.loser_tree_adjusted == a.loser_tree_adjusted && b.h@.all == a.h@.all && b.in_progress.g == a.in_progress.g && b.in_progress.last_same_rows == a.in_progress.last_same_rows && b.batch_size == a.batch_size && b.in_progress.schema == a.in_progress.schema
    &&& a.in_progress.batches.len() <= b.in_progress.batches.len() && forall|j: int| 0 <= j < a.in_progress.batches.len() ==> a.in_progress.batches@[j] == #[trigger] b.in_progress.batches@[j]
}
proof fn lemma_polled(a: SortPreservingMergeStream, b: SortPreservingMergeStream, i: int, cu: ColumnCursor, rb: RecordBatch)
    requires mok(a), 0 <= i < a.cursors.len(), a.cursors@[i] is None, b.cursors@ == a.cursors@.update(i, Some(cu)), cu.offset == 0, cells_of(cu, rb), next_batch(a.in_progress.schema, a.streams.rem(i), b.streams.rem(i), rb),
        b.streams.cwf(), b.streams.parts() == a.streams.parts(), b.streams.schema() == a.streams.schema(), forall|j: int| j != i ==> #[trigger] b.streams.rem(j) == a.streams.rem(j),
        bok(b.in_progress), b.in_progress.batches@ == a.in_progress.batches@.push((Some(i as usize), rb)), b.in_progress.cursors@ == a.in_progress.cursors@.update(i, BatchCursor { batch_idx: a.in_progress.batches.len(), row_idx: 0 }),
        b.in_progress.g == a.in_progress.g, b.in_progress.last_same_rows == a.in_progress.last_same_rows, b.in_progress.last == a.in_progress.last, b.in_progress.schema == a.in_progress.schema,
        b.loser_tree == a.loser_tree, b.loser_tree_adjusted == a.loser_tree_adjusted, b.batch_size == a.batch_size, b.h@ == (Hist { base: a.h@.base.push(a.h@.pos[i]), ..a.h@ })
    ensures mok(b), same_but(a, b, i)
{
    let k = a.cursors.len() as int; let n = a.in_progress.batches.len() as int; let g = gall(a.in_progress);
    assert(lnk(a, i)); assert(gall(b.in_progress) == g);
    assert forall|j: int| 0 <= j < k implies #[trigger] lnk(b, j) by { assert(lnk(a, j)); if j != i { assert(b.cursors@[j] == a.cursors@[j]); assert(b.in_progress.cursors@[j] == a.in_progress.cursors@[j]); } else { assert forall|x: int| 0 <= x < b.streams.rem(i).len() implies #[trigger] b.streams.rem(i)[x] == a.h@.all[i][a.h@.pos[i] + rb.n() + x] by { assert(b.streams.rem(i)[x] == a.streams.rem(i)[rb.n() + x]); } } }
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] blnk(b, j) by { if j < n { assert(blnk(a, j)); } else { assert forall|r: int| 0 <= r < rb.n() implies #[trigger] rr(rb, r) == b.h@.all[i][a.h@.pos[i] + r] by { assert(a.streams.rem(i)[r] == rr(rb, r)); } } }
    assert forall|j: int| 0 <= j < g.len() implies glnk(b, #[trigger] g[j]) by { assert(glnk(a, g[j])); }
    assert forall|p: int, q: int| 0 <= p < k && 0 <= q < b.h@.pos[p] implies #[trigger] has(b, p, q) by { assert(has(a, p, q)); let (j, x) = choose|j: int, x: int| #[trigger] at(a, p, q, j, x); assert(glnk(a, g[j])); assert(rv(a.in_progress.batches@, g[j][x])); assert(at(b, p, q, j, x)); }
    let s = b.in_progress.last_same_rows@;
    if s.len() > 0 { assert(g[g.len() - 1] == s); assert(glnk(a, g[g.len() - 1])); assert(rv(a.in_progress.batches@, s[s.len() - 1])); assert forall|p: int| 0 <= p < k && b.h@.pos[p] < b.h@.all[p].len() implies after(b, #[trigger] b.h@.all[p][b.h@.pos[p]], p, s.last()) by { assert(after(a, a.h@.all[p][a.h@.pos[p]], p, s.last())); } }
    assert forall|j: int| 0 <= j < k implies cur_ok(#[trigger] b.cursors@[j]) by { if j != i { assert(b.cursors@[j] == a.cursors@[j]); assert(cur_ok(a.cursors@[j])); } }
}
// what a poll leaves as it was: the groups made before are still there
spec fn kept(a: SortPreservingMergeStream, b: SortPreservingMergeStream) -> bool {
    &&& b.h@.all == a.h@.all && b.in_progress.schema == a.in_progress.schema && b.cursors.len() == a.cursors.len() && b.batch_size == a.batch_size
    &&& a.in_progress.g@.groups.len() <= b.in_progress.g@.groups.len() && forall|j: int| 0 <= j < a.in_progress.g@.groups.len() ==> #[trigger] b.in_progress.g@.groups[j] == a.in_progress.g@.groups[j]
    &&& a.in_progress.batches.len() <= b.in_progress.batches.len() && forall|j: int| 0 <= j < a.in_progress.batches.len() ==> #[trigger] b.in_progress.batches@[j] == a.in_progress.batches@[j]
}
proof fn lemma_old(s: Seq<Option<ColumnCursor>>, lt: Seq<usize>) requires tree_old(s, lt) ensures lt.len() == s.len(), lt[0] < s.len() { let w = choose|w: Seq<int>| tree_wo(s, lt, w); lemma_under(s, lt, w, lt[0] as int, 1); }
// a closed group has every row of its time
proof fn lemma_closed(m: SortPreservingMergeStream, j: int, i: int, q: int)
    requires mok(m), 0 <= j < m.in_progress.g@.groups.len(), 0 <= i < m.h@.all.len(), 0 <= q < m.h@.all[i].len(), m.h@.all[i][q].t == gt(m, j)
    ensures exists|x: int| #[trigger] at(m, i, q, j, x)
{
    let gs = m.in_progress.g@.groups; let g = gall(m.in_progress); let bs = m.in_progress.batches@; let s = m.in_progress.last_same_rows@; let a = m.h@.all[i]; let p = m.h@.pos[i];
    assert(lnk(m, i));
    if q >= p {
        assert(after(m, m.h@.all[i][p], i, s.last())); assert(grp(bs, s)); assert(rt(bs, s[s.len() - 1]) == rt(bs, s[0])); assert(rt(bs, gs[j][0]) < rt(bs, s[0])); if p < q { assert(a[p].t < a[q].t); }
    }
    assert(has(m, i, q)); let (j2, x) = choose|j2: int, x: int| #[trigger] at(m, i, q, j2, x); lemma_at(m, i, q, j2, x);
    assert(g[j] == gs[j]); assert(grp(bs, g[j2])) by { if j2 < gs.len() { assert(g[j2] == gs[j2]); } else { assert(g[j2] == s); } }
    assert(rt(bs, g[j2][x]) == rt(bs, g[j2][0]));
    if j2 != j { if j2 < gs.len() { assert(g[j2] == gs[j2]); if j2 < j { assert(rt(bs, gs[j2][0]) < rt(bs, gs[j][0])); } else { assert(rt(bs, gs[j][0]) < rt(bs, gs[j2][0])); } } else { assert(rt(bs, gs[j][0]) < rt(bs, s[0])); } }
}
// the row of a group is a row of its stream
proof fn lemma_at(m: SortPreservingMergeStream, i: int, q: int, j: int, x: int)
    requires mok(m), at(m, i, q, j, x)
    ensures ({ let y = gall(m.in_progress)[j][x]; let r = m.h@.all[i][q]; rv(m.in_progress.batches@, y) && 0 <= i < m.h@.all.len() && 0 <= q < m.h@.all[i].len() && r.t == rt(m.in_progress.batches@, y) && forall|c: int| #[trigger] (r.f)(c) == rcell(m.in_progress.batches@, y, c) })
{
    let g = gall(m.in_progress); let y = g[j][x]; assert(glnk(m, g[j])); assert(rv(m.in_progress.batches@, g[j][x])); assert(blnk(m, y.0 as int)); let b = m.in_progress.batches@[y.0 as int].1;
    assert(rr(b, y.1 as int) == m.h@.all[i][m.h@.base[y.0 as int] + y.1]);
}
proof fn lemma_at0(m: SortPreservingMergeStream, j: int, x: int)
    requires mok(m), 0 <= j < gall(m.in_progress).len(), 0 <= x < gall(m.in_progress)[j].len() ensures ({ let y = gall(m.in_progress)[j][x]; at(m, sid(m, y), rpos(m, y), j, x) && 0 <= sid(m, y) < m.cursors.len() }) 
{ let g = gall(m.in_progress); assert(glnk(m, g[j])); assert(rv(m.in_progress.batches@, g[j][x])); assert(blnk(m, g[j][x].0 as int)); }
proof fn lemma_pick_last(bs: Bs, g: G, c: int) -> (x: int)
    requires g.len() > 0 ensures 0 <= x < g.len(), pick(bs, g, c) == g[x], forall|y: int| x < y < g.len() ==> rcell(bs, #[trigger] g[y], c) is None, rcell(bs, g[x], c) is None ==> x == 0 decreases g.len()
{
    if g.len() <= 1 || rcell(bs, g.last(), c) is Some { g.len() - 1 } else { let h = g.drop_last(); let x = lemma_pick_last(bs, h, c); assert(h[x] == g[x]); assert forall|y: int| x < y < g.len() implies rcell(bs, #[trigger] g[y], c) is None by { if y < g.len() - 1 { assert(h[y] == g[y]); } else { assert(g[y] == g.last()); } } x }
}
proof fn lemma_newest(m: SortPreservingMergeStream, j: int, c: int)
    requires mok(m), 0 <= j < m.in_progress.g@.groups.len()
    ensures newest(m.h@.all, gt(m, j), c, rcell(m.in_progress.batches@, pick(m.in_progress.batches@, m.in_progress.g@.groups[j], c), c))
{
    let gs = m.in_progress.g@.groups; let bs = m.in_progress.batches@; let g = gs[j]; let all = m.h@.all; let t = gt(m, j); let v = rcell(bs, pick(bs, g, c), c);
    assert(grp(bs, g)); assert(gall(m.in_progress)[j] == g); let x = lemma_pick_last(bs, g, c); assert(glnk(m, g));
    if v is None {
        assert forall|i: int, q: int| 0 <= i < all.len() && 0 <= q < all[i].len() && (#[trigger] all[i][q]).t == t implies (all[i][q].f)(c) is None by { lemma_closed(m, j, i, q); let y = choose|y: int| #[trigger] at(m, i, q, j, y); lemma_at(m, i, q, j, y); if y > 0 { assert(rcell(bs, g[y], c) is None); } }
    } else {
        lemma_at0(m, j, x); let i = sid(m, g[x]); let q = rpos(m, g[x]); lemma_at(m, i, q, j, x); assert(rt(bs, g[x]) == rt(bs, g[0]));
        assert forall|a: int, b: int| i < a < all.len() && 0 <= b < all[a].len() && (#[trigger] all[a][b]).t == t implies (all[a][b].f)(c) is None by { lemma_closed(m, j, a, b); let y = choose|y: int| #[trigger] at(m, a, b, j, y); lemma_at(m, a, b, j, y); if y < x { assert(sid(m, g[y]) < sid(m, g[x])); } else if y > x { assert(rcell(bs, g[y], c) is None); } }
        assert(top(all, t, c, v, i, q));
    }
}
// what is built from the groups is what the batch must be
proof fn lemma_out(m: SortPreservingMergeStream, e: int, r: RecordBatch)
    requires mok(m), 0 <= e <= m.in_progress.g@.groups.len(), rows_of(m.in_progress.batches@, m.in_progress.g@.groups, e, ncols(m.in_progress.schema), r)
    ensures out(m, e, r)
{
    let gs = m.in_progress.g@.groups; let n = ncols(m.in_progress.schema); let bs = m.in_progress.batches@;
    assert forall|j: int| e <= j < gs.len() implies r.cell(tcol(), j - e) == Some(#[trigger] gt(m, j)) && exists|i: int, q: int| 0 <= i < m.h@.all.len() && 0 <= q < m.h@.all[i].len() && (#[trigger] m.h@.all[i][q]).t == gt(m, j) by {
        let g = gs[j]; assert(grp(bs, g)); assert(gall(m.in_progress)[j] == g); let x = lemma_pick_last(bs, g, tcol()); assert(rv(bs, g[x]) && rt(bs, g[x]) == rt(bs, g[0])); assert(bwf(m.in_progress.schema, bs[g[x].0 as int].1)); assert(r.cell(tcol(), j - e) == rcell(bs, pick(bs, gs[j], tcol()), tcol())); assert(rcell(bs, g[x], tcol()) is Some);
        lemma_at0(m, j, 0); lemma_at(m, sid(m, g[0]), rpos(m, g[0]), j, 0); assert(m.h@.all[sid(m, g[0])][rpos(m, g[0])].t == gt(m, j));
    }
    assert forall|j: int, c: int| e <= j < gs.len() && 0 <= c < n implies newest(m.h@.all, gt(m, j), c, #[trigger] r.cell(c, j - e)) by { lemma_newest(m, j, c); }
}
proof fn lemma_done(m: SortPreservingMergeStream, i: int, q: int)
    requires mok(m), m.in_progress.g@.e == m.in_progress.g@.groups.len(), m.in_progress.last_same_rows.len() == 0, 0 <= i < m.h@.all.len(), 0 <= q < m.h@.all[i].len(), m.h@.pos[i] == m.h@.all[i].len()
    ensures emitted(m, m.h@.all[i][q].t)
{
    assert(has(m, i, q)); let (j, x) = choose|j: int, x: int| #[trigger] at(m, i, q, j, x); lemma_at(m, i, q, j, x); let g = m.in_progress.g@.groups[j]; assert(grp(m.in_progress.batches@, g)); assert(rt(m.in_progress.batches@, g[x]) == rt(m.in_progress.batches@, g[0])); assert(gt(m, j) == m.h@.all[i][q].t);
}
// the builder made columns of its groups, or a batch of them
proof fn lemma_built(a: SortPreservingMergeStream, b: SortPreservingMergeStream)
    requires mok(a), bok0(b.in_progress), gall(b.in_progress) == gall(a.in_progress), b.in_progress.last_same_rows@ == a.in_progress.last_same_rows@ || (b.in_progress.last_same_rows.len() == 0 && forall|i: int| 0 <= i < a.cursors.len() ==> #[trigger] a.h@.pos[i] == a.h@.all[i].len()),
        b.in_progress.batches == a.in_progress.batches, b.in_progress.schema == a.in_progress.schema, b.in_progress.cursors == a.in_progress.cursors, b.in_progress.last == a.in_progress.last, b.cursors@ == a.cursors@, b.streams == a.streams, b.h == a.h, b.batch_size == a.batch_size, b.loser_tree == a.loser_tree, b.loser_tree_adjusted == a.loser_tree_adjusted
    ensures mok(b), st(a) ==> st(b)
{
    let k = a.cursors.len() as int; let g = gall(a.in_progress); let gs = b.in_progress.g@.groups; let s = a.in_progress.last_same_rows@;
    assert(bok(b.in_progress)) by { if s.len() > 0 { assert(g[g.len() - 1] == s); } if b.in_progress.last_same_rows.len() > 0 { assert(gs =~= g.drop_last()); assert(a.in_progress.g@.groups =~= g.drop_last()); } }
    assert forall|j: int| 0 <= j < k implies #[trigger] lnk(b, j) by { assert(lnk(a, j)); }
    assert forall|j: int| 0 <= j < a.in_progress.batches.len() implies #[trigger] blnk(b, j) by { assert(blnk(a, j)); }
    assert forall|j: int| 0 <= j < g.len() implies glnk(b, #[trigger] g[j]) by { assert(glnk(a, g[j])); }
    assert forall|p: int, q: int| 0 <= p < k && 0 <= q < b.h@.pos[p] implies #[trigger] has(b, p, q) by { assert(has(a, p, q)); let (j, x) = choose|j: int, x: int| #[trigger] at(a, p, q, j, x); assert(at(b, p, q, j, x)); }
    if b.in_progress.last_same_rows.len() > 0 { assert forall|p: int| 0 <= p < k && b.h@.pos[p] < b.h@.all[p].len() implies after(b, #[trigger] b.h@.all[p][b.h@.pos[p]], p, b.in_progress.last_same_rows@.last()) by { assert(after(a, a.h@.all[p][a.h@.pos[p]], p, b.in_progress.last_same_rows@.last())); } }
}
//@extract tskv/src/reader/sort_merge.rs SortPreservingMergeStream::poll_next_inner
@header impl SortPreservingMergeStream
@attr #[verifier::exec_allows_no_decreases_clause]
@subst /cx: &mut Context<'_>/ => cx: Context
@subst /(?:futures::)?ready!\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)/ => (match \1 { Poll::Ready(v) => v, Poll::Pending => { return Poll::Pending; } })
@subst /for (\w+) in 0\.\.self\.streams\.partitions\(\) \{/ => let np = self.streams.partitions(); for \1 in 0..np {
@subst /self\.(init|update)_loser_tree\(\);/ => let ghost mb = *self; self.\1_loser_tree(); proof { lemma_same(mb, *self); }
@subst /self\.in_progress\.take_last_and_merge\(\)\?;/ => if let Err(e) = self.in_progress.take_last_and_merge() { return Poll::Ready(Some(Err(e))); }
@subst /self\s*\.cursors\s*\.get\((\w+)\)\s*\.and_then\(\|(\w+)\| \2\.as_ref\(\)\.map\(\|(\w+)\| \3\.column_index\)\)/ => column_index_of(&self.cursors, \1)
@subst /return Poll::Ready\(self\.in_progress\.build_record_batch\(\)\.transpose\(\)\);/ => { let built = self.in_progress.build_record_batch(); proof { if built is Ok { lemma_built(m3, *self); if built->Ok_0 is Some { lemma_out(*self, m3.in_progress.g@.e, built->Ok_0->0); } else { assert forall|i: int, q: int| 0 <= i < self.h@.all.len() && 0 <= q < self.h@.all[i].len() implies emitted(*self, (#[trigger] self.h@.all[i][q]).t) by { lemma_done(*self, i, q); } } } } return Poll::Ready(transpose(built)); }
@ret r
@spec
    requires mok(*old(self)), st(*old(self))
    ensures !(r is Ready && r->0 is Some && (r->0)->0 is Err) ==> mok(*final(self)) && st(*final(self)) && kept(*old(self), *final(self)),
        r is Pending ==> final(self).in_progress.g@.e == old(self).in_progress.g@.e,
        r is Ready && r->0 is Some && (r->0)->0 is Ok ==> out(*final(self), old(self).in_progress.g@.e, (r->0)->0->Ok_0) && final(self).in_progress.g@.e == final(self).in_progress.g@.groups.len() > old(self).in_progress.g@.e,
        r is Ready && r->0 is None ==> final(self).in_progress.g@.e == old(self).in_progress.g@.e && forall|i: int, q: int| 0 <= i < final(self).h@.all.len() && 0 <= q < final(self).h@.all[i].len() ==> emitted(*final(self), (#[trigger] final(self).h@.all[i][q]).t)
@at start
    let ghost m0 = *self; let ghost k = self.cursors.len() as int; let ghost e0 = self.in_progress.g@.e; let ghost mut m1 = *self; let ghost mut m2 = *self; let ghost mut m3 = *self;
@iter 0 it
@loop 0
    invariant mok(*self), np == k, m0 == *old(self), e0 == m0.in_progress.g@.e, kept(m0, *self), self.in_progress.g@.e == e0, self.loser_tree.len() == 0, k == self.cursors.len(), self.streams.parts() == k, forall|j: int| 0 <= j < it.index@ && (#[trigger] self.cursors@[j]) is None ==> self.streams.rem(j).len() == 0
@loop 1
    invariant mok(*self), st(*self), m0 == *old(self), e0 == m0.in_progress.g@.e, kept(m0, *self), self.in_progress.g@.e == e0, self.loser_tree.len() > 0
@at loop-start 1
    proof { m1 = *self; if !self.loser_tree_adjusted { lemma_old(self.cursors@, self.loser_tree@); } }
@at before /let ghost mb = \*self; self\.update_loser_tree\(\)/
    proof { assert forall|i: int| 0 <= i < m1.cursors.len() && i != winner implies m1.cursors@[i] == self.cursors@[i] by { } lemma_moved(m1.cursors@, self.cursors@, self.loser_tree@); }
@at before /let value = /
    proof { m2 = *self; lemma_winner(self.cursors@, self.loser_tree@); if self.cursors@[stream_idx as int] is Some { lemma_row(*self, stream_idx as int); assert(cur_ok(self.cursors@[stream_idx as int])); assert(lnk(*self, stream_idx as int)); } }
@at before /if let Err\(e\) = self\.in_progress\.push_row/
    proof { let s = m2.in_progress.last_same_rows@; if s.len() > 0 { assert(after(m2, m2.h@.all[stream_idx as int][m2.h@.pos[stream_idx as int]], stream_idx as int, s.last())); assert(grp(m2.in_progress.batches@, s)); assert(rt(m2.in_progress.batches@, s[s.len() - 1]) == rt(m2.in_progress.batches@, s[0])); } }
@at before /if self\.in_progress\.len\(\) < self\.batch_size/
    proof { self.h = Ghost(Hist { pos: m2.h@.pos.update(stream_idx as int, m2.h@.pos[stream_idx as int] + 1), ..m2.h@ }); lemma_step(m2, *self, stream_idx as int); m3 = *self; }
@at after /if let Err\(e\) = self\.in_progress\.take_last_and_merge\(\) \{[^{}]*\}/
    proof { assert forall|i: int| 0 <= i < m2.cursors.len() implies #[trigger] m2.h@.pos[i] == m2.h@.all[i].len() by { assert(better(m2.cursors@, stream_idx as int, i)); assert(lnk(m2, i)); assert(m2.cursors@[i] is None); } lemma_built(m2, *self); m3 = *self; }
@end
}
fn main() {}
