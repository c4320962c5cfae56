#[verifier::external_body] fn cursor_mut(v: &mut Vec<BatchCursor>, i: usize) -> (r: &mut BatchCursor)
    requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), final(v).len() == old(v).len() { unimplemented!() }
fn get0(l: &Option<(usize, usize, usize)>) -> (r: usize) requires l is Some ensures r == (l->0).0 { l.unwrap().0 }
fn get1(l: &Option<(usize, usize, usize)>) -> (r: usize) requires l is Some ensures r == (l->0).1 { l.unwrap().1 }
fn get2(l: &Option<(usize, usize, usize)>) -> (r: usize) requires l is Some ensures r == (l->0).2 { l.unwrap().2 }
fn set0(l: &mut Option<(usize, usize, usize)>, v: usize) requires *old(l) is Some ensures *final(l) == Some((v, ((*old(l))->0).1, ((*old(l))->0).2)) { let x = l.unwrap(); *l = Some((v, x.1, x.2)); }
fn set1(l: &mut Option<(usize, usize, usize)>, v: usize) requires *old(l) is Some ensures *final(l) == Some((((*old(l))->0).0, v, ((*old(l))->0).2)) { let x = l.unwrap(); *l = Some((x.0, v, x.2)); }
fn set2(l: &mut Option<(usize, usize, usize)>, v: usize) requires *old(l) is Some ensures *final(l) == Some((((*old(l))->0).0, ((*old(l))->0).1, v)) { let x = l.unwrap(); *l = Some((x.0, x.1, v)); }
#[verifier::external_body] fn push_all(v: &mut Vec<Vec<(usize, usize)>>, x: (usize, usize)) ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < old(v).len() ==> (#[trigger] final(v)@[i])@ == old(v)@[i]@.push(x) { unimplemented!() }
#[verifier::external_body] fn push_at(v: &mut Vec<Vec<(usize, usize)>>, i: usize, x: (usize, usize)) requires i < old(v).len() ensures final(v).len() == old(v).len(), final(v)@[i as int]@ == old(v)@[i as int]@.push(x), forall|j: int| 0 <= j < old(v).len() && j != i ==> #[trigger] final(v)@[j] == old(v)@[j] { unimplemented!() }
#[verifier::external_body] fn clear_all(v: &mut Vec<Vec<(usize, usize)>>) ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < old(v).len() ==> (#[trigger] final(v)@[i])@.len() == 0 { unimplemented!() }
#[verifier::external_body] fn columns_of(bs: &Vec<(Option<usize>, RecordBatch)>, c: usize) -> (r: Vec<&Column>)
    requires forall|i: int| 0 <= i < bs.len() ==> c < (#[trigger] bs@[i]).1.cols()
    ensures r.len() == bs.len(), forall|i: int| 0 <= i < bs.len() ==> (#[trigger] r@[i]).at().len() == bs@[i].1.n() && forall|k: int| 0 <= k < bs@[i].1.n() ==> #[trigger] r@[i].at()[k] == bs@[i].1.cell(c as int, k) { unimplemented!() }
#[verifier::external_body] fn interleave(a: &Vec<&Column>, x: &[(usize, usize)]) -> (r: TskvResult<Column>)
    requires forall|i: int| 0 <= i < x@.len() ==> (#[trigger] x@[i]).0 < a.len() && x@[i].1 < a@[x@[i].0 as int].at().len()
    ensures r is Ok ==> r->Ok_0.at().len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> #[trigger] r->Ok_0.at()[i] == a@[x@[i].0 as int].at()[x@[i].1 as int] { unimplemented!() }
#[verifier::external_body] fn empty_indices(f: usize) -> (r: Vec<Vec<(usize, usize)>>) ensures r.len() == f, forall|i: int| 0 <= i < f ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }

proof fn lemma_pick(bs: Bs, g: G, c: int) requires g.len() > 0, forall|i: int| 0 <= i < g.len() ==> rv(bs, #[trigger] g[i]) ensures rv(bs, pick(bs, g, c)), g.contains(pick(bs, g, c)) decreases g.len()
{ if g.len() <= 1 || rcell(bs, g.last(), c) is Some { assert(g[g.len() - 1] == g.last()); } else { let h = g.drop_last(); assert forall|i: int| 0 <= i < h.len() implies rv(bs, #[trigger] h[i]) by { assert(h[i] == g[i]); } lemma_pick(bs, h, c); let k = choose|k: int| 0 <= k < h.len() && h[k] == pick(bs, h, c); assert(g[k] == pick(bs, g, c)); } }
proof fn lemma_pick_at(bs: Bs, g: G, c: int, i: int) requires 0 <= i < g.len(), i == 0 || rcell(bs, g[i], c) is Some, forall|k: int| i < k < g.len() ==> rcell(bs, #[trigger] g[k], c) is None ensures pick(bs, g, c) == g[i] decreases g.len()
{ if i < g.len() - 1 { assert(g[g.len() - 1] == g.last()); let h = g.drop_last(); assert forall|k: int| i < k < h.len() implies rcell(bs, #[trigger] h[k], c) is None by { assert(h[k] == g[k]); } assert(h[i] == g[i]); lemma_pick_at(bs, h, c, i); } }
proof fn lemma_pick_grow(bs: Bs, b2: Bs, g: G, c: int) requires g.len() > 0, bs.len() <= b2.len(), forall|i: int| 0 <= i < bs.len() ==> bs[i] == b2[i], forall|i: int| 0 <= i < g.len() ==> rv(bs, #[trigger] g[i]) ensures pick(b2, g, c) == pick(bs, g, c) decreases g.len()
{ assert(g[g.len() - 1] == g.last()); if g.len() > 1 { let h = g.drop_last(); assert forall|i: int| 0 <= i < h.len() implies rv(bs, #[trigger] h[i]) by { assert(h[i] == g[i]); } lemma_pick_grow(bs, b2, h, c); } }

//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::new
@header impl BatchMergeBuilder
@subst /schema\.fields\.len\(\)/ => schema.fields().len()
@subst /\(0\.\.(\w+)\)\s*\.map\(\|_\| Vec::with_capacity\(batch_size\)\)\s*\.collect\(\)/ => empty_indices(\1)
@subst /vec!\[BatchCursor::default\(\); stream_count\]/ => vec![BatchCursor { batch_idx: 0, row_idx: 0 }; stream_count]
@subst /phantom: Default::default\(\)/ => g: Ghost(Log { groups: Seq::empty(), e: 0 })
@ret r
@spec
    ensures bok(r), r.schema == schema, r.g@.groups.len() == 0, r.g@.e == 0, r.batches.len() == 0, r.cursors.len() == stream_count, r.last is None
@end
//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::push_batch
@header impl BatchMergeBuilder
@subst /self\.cursors\[stream_idx\] = (BatchCursor \{[^{}]*\})/ => self.cursors.set(stream_idx, \1)
@spec
    requires bok(*old(self)), bwf(old(self).schema, batch), stream_idx < old(self).cursors.len()
    ensures bok(*final(self)), final(self).batches@ == old(self).batches@.push((Some(stream_idx), batch)), final(self).cursors@ == old(self).cursors@.update(stream_idx as int, BatchCursor { batch_idx: old(self).batches.len(), row_idx: 0 }),
        final(self).g == old(self).g, final(self).last_same_rows == old(self).last_same_rows, final(self).last == old(self).last, final(self).schema == old(self).schema, final(self).indices == old(self).indices
@at start
    let ghost b0 = *self;
@at tail
    proof {
        let bs = b0.batches@; let b2 = self.batches@; let gs = b0.g@.groups; let e = b0.g@.e;
        assert forall|c: int, j: int| 0 <= c < ncols(self.schema) && e <= j < gs.len() implies #[trigger] self.indices@[c]@[j - e] == pick(b2, gs[j], c) by { assert(grp(bs, gs[j])); assert(b0.indices@[c]@[j - e] == pick(bs, gs[j], c)); lemma_pick_grow(bs, b2, gs[j], c); }
        assert forall|j: int| 0 <= j < gs.len() implies grp(b2, #[trigger] gs[j]) by { assert(grp(bs, gs[j])); }
        assert forall|i: int, j: int| 0 <= i < j < gs.len() implies rt(b2, (#[trigger] gs[i])[0]) < rt(b2, (#[trigger] gs[j])[0]) by { assert(grp(bs, gs[i])); assert(grp(bs, gs[j])); assert(rt(bs, gs[i][0]) < rt(bs, gs[j][0])); }
        assert forall|i: int| 0 <= i < gs.len() && self.last_same_rows.len() > 0 implies rt(b2, (#[trigger] gs[i])[0]) < rt(b2, self.last_same_rows@[0]) by { assert(grp(bs, gs[i])); assert(rt(bs, gs[i][0]) < rt(bs, b0.last_same_rows@[0])); assert(grp(bs, b0.last_same_rows@)); }
        if self.last is Some && self.last_same_rows.len() == 0 { assert(grp(bs, gs.last())); }
    }
@end
//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::push_row
@header impl BatchMergeBuilder
@subst /&mut self\.cursors\[stream_idx\]/ => cursor_mut(&mut self.cursors, stream_idx)
@subst /match self\.last\.as_mut\(\)/ => match self.last
@subst /\*last_batch_idx = (\w+);/ => set0(&mut self.last, \1);
@subst /\*last_column_idx = (\w+);/ => set1(&mut self.last, \1);
@subst /\*last_row_idx = (\w+);/ => set2(&mut self.last, \1);
@subst /\*last_batch_idx\b/ => get0(&self.last)
@subst /\*last_column_idx\b/ => get1(&self.last)
@subst /\*last_row_idx\b/ => get2(&self.last)
@subst /: &T =/ => : &Column =
@subst /\s*\.as_any\(\)\s*\.downcast_ref::<T>\(\)\s*\.expect\("[^"]*"\)/ =>
@subst /T::Values::compare/ => compare
@subst /CommonSnafu \{[^{}]*\}\s*\.build\(\)/ => TskvError::Common
@ret r
@spec
    requires bok(*old(self)), stream_idx < old(self).cursors.len(), column_idx == tcol(), rv(old(self).batches@, (old(self).cursors@[stream_idx as int].batch_idx, old(self).cursors@[stream_idx as int].row_idx)), old(self).last is Some ==> old(self).last_same_rows.len() > 0
    ensures final(self).batches == old(self).batches, final(self).schema == old(self).schema, final(self).g@.e == old(self).g@.e,
        ({ let c = old(self).cursors@[stream_idx as int]; final(self).cursors@ == old(self).cursors@.update(stream_idx as int, BatchCursor { batch_idx: c.batch_idx, row_idx: (c.row_idx + 1) as usize }) }),
        ({ let c = old(self).cursors@[stream_idx as int]; let x = (c.batch_idx, c.row_idx); let bs = old(self).batches@; let s = old(self).last_same_rows@;
           (old(self).last is None ==> r is Ok && final(self).last_same_rows@ == seq![x] && final(self).g == old(self).g)
           && (old(self).last is Some ==> (rt(bs, s[0]) == rt(bs, x) ==> r is Ok && final(self).last_same_rows@ == s.push(x) && final(self).g == old(self).g)
               && (r is Ok && rt(bs, s[0]) < rt(bs, x) ==> final(self).last_same_rows@ == seq![x] && final(self).g@.groups == old(self).g@.groups.push(s))
               && (rt(bs, s[0]) > rt(bs, x) <==> r is Err)) }),
        r is Ok ==> bok(*final(self))
@at start
    let ghost b0 = *self; let ghost x0 = (self.cursors@[stream_idx as int].batch_idx, self.cursors@[stream_idx as int].row_idx);
    proof { assert(bwf(self.schema, self.batches@[x0.0 as int].1)); if self.last is Some { assert(bwf(self.schema, self.batches@[(self.last->0).0 as int].1)); assert(grp(self.batches@, self.last_same_rows@)); } }
@at before /Ok\(\(\)\)/
    proof {
        let bs = self.batches@; let s = self.last_same_rows@;
        if b0.last is Some && rt(bs, b0.last_same_rows@[0]) == rt(bs, x0) { assert forall|i: int| 0 <= i < s.len() implies rv(bs, #[trigger] s[i]) && rt(bs, s[i]) == rt(bs, s[0]) by { if i < s.len() - 1 { assert(s[i] == b0.last_same_rows@[i]); } } }
    }
@end
//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::take_last_and_merge
@header impl BatchMergeBuilder
@subst /TskvResult<\(\), DataFusionError>/ => TskvResult<()>
@subst /self\.indices\.iter_mut\(\)\.for_each\(\|(\w+)\| \1\.push\((\w+)\)\)/ => push_all(&mut self.indices, \2)
@subst /for \((\w+), \((\w+), (\w+)\)\) in self\.last_same_rows\.iter\(\)\.enumerate\(\)\.rev\(\) \{/ => let mut li: usize = self.last_same_rows.len(); while li > 0 { li -= 1; let \1 = li; let \2 = &self.last_same_rows[li].0; let \3 = &self.last_same_rows[li].1;
@subst /for \((\w+), \((\w+), (\w+)\)\) in self\.last_same_rows\.iter\(\)\.enumerate\(\) \{/ => let mut li: usize = 0; while li < self.last_same_rows.len() { let \1 = li; let \2 = &self.last_same_rows[li].0; let \3 = &self.last_same_rows[li].1; li += 1;
@subst /self\.indices\[(\w+)\]\.push\(/ => push_at(&mut self.indices, \1, 
@ret r
@spec
    requires bok0(*old(self))
    ensures final(self).batches == old(self).batches, final(self).schema == old(self).schema, final(self).cursors == old(self).cursors, final(self).last == old(self).last, final(self).g@.e == old(self).g@.e,
        r is Ok, bok0(*final(self)), final(self).last_same_rows.len() == 0, final(self).g@.groups == (if old(self).last_same_rows.len() > 0 { old(self).g@.groups.push(old(self).last_same_rows@) } else { old(self).g@.groups })
@at start
    let ghost b0 = *self; let ghost bs = self.batches@; let ghost s = self.last_same_rows@; let ghost gs = self.g@.groups; let ghost n = ncols(self.schema); let ghost e = self.g@.e;
    proof { if s.len() > 0 { assert(grp(bs, s)); } }
@loop 0
    invariant bok0(b0), self.batches == b0.batches, self.schema == b0.schema, self.cursors == b0.cursors, self.last == b0.last, self.g == b0.g, self.last_same_rows@ == s, s.len() > 1, grp(bs, s), bs == b0.batches@, n == ncols(self.schema), gs == b0.g@.groups, e == b0.g@.e,
        self.indices.len() == n,
        forall|c: int| 0 <= c < n ==> (#[trigger] self.indices@[c])@ == (if c < c_i { b0.indices@[c]@.push(pick(bs, s, c)) } else { b0.indices@[c]@ })
@loop 1
    invariant_except_break self.indices == i0.indices, li <= s.len(), forall|k: int| li <= k < s.len() ==> rcell(bs, #[trigger] s[k], c_i as int) is None && k != 0
    invariant bok0(b0), self.batches == b0.batches, self.schema == b0.schema, self.cursors == b0.cursors, self.last == b0.last, self.g == b0.g, self.last_same_rows@ == s, s.len() > 1, grp(bs, s), bs == b0.batches@, n == ncols(self.schema), c_i < n, i0.indices.len() == n
    ensures self.indices.len() == n, self.indices@[c_i as int]@ == i0.indices@[c_i as int]@.push(pick(bs, s, c_i as int)), forall|c: int| 0 <= c < n && c != c_i ==> #[trigger] self.indices@[c] == i0.indices@[c]
    decreases li
@at before-loop 1
    let ghost i0 = *self;
@at loop-start 1
    proof { assert(rv(bs, s[li - 1])); assert(bwf(b0.schema, bs[s[li - 1].0 as int].1)); }
@at before /break;/
    proof { lemma_pick_at(bs, s, c_i as int, li as int); }
@at before /Ok\(\(\)\)/
    proof {
        if s.len() > 0 { self.g = Ghost(Log { groups: gs.push(s), e }); }
        let g2 = self.g@.groups;
        assert(s.len() == 1 ==> forall|c: int| pick(bs, s, c) == s[0]);
        assert forall|c: int| 0 <= c < n implies (#[trigger] self.indices@[c])@.len() == g2.len() - e by { assert(b0.indices@[c]@.len() == gs.len() - e); }
        assert forall|c: int, j: int| 0 <= c < n && e <= j < g2.len() implies #[trigger] self.indices@[c]@[j - e] == pick(bs, g2[j], c) by { assert(b0.indices@[c]@.len() == gs.len() - e); if j < gs.len() { assert(b0.indices@[c]@[j - e] == pick(bs, gs[j], c)); assert(g2[j] == gs[j]); } }
        assert forall|j: int| 0 <= j < g2.len() implies grp(bs, #[trigger] g2[j]) by { if j < gs.len() { assert(g2[j] == gs[j]); } }
        assert forall|i: int, j: int| 0 <= i < j < g2.len() implies rt(bs, (#[trigger] g2[i])[0]) < rt(bs, (#[trigger] g2[j])[0]) by { assert(g2[i] == gs[i]); if j < gs.len() { assert(g2[j] == gs[j]); } }
    }
@end
//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::len
@header impl BatchMergeBuilder
@ret r
@spec
    requires bok0(*self) ensures r == self.g@.groups.len() - self.g@.e
@at start
    proof { assert(self.indices@[0]@.len() == self.g@.groups.len() - self.g@.e); }
@end
//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::is_empty
@header impl BatchMergeBuilder
@ret r
@spec
    requires bok0(*self) ensures r == (self.g@.groups.len() == self.g@.e)
@at start
    proof { assert(self.indices@[0]@.len() == self.g@.groups.len() - self.g@.e); }
@end
//@extract tskv/src/reader/batch_builder.rs BatchMergeBuilder::build_record_batch
@header impl BatchMergeBuilder
@subst /self\.schema\.fields\.len\(\)/ => self.schema.fields().len()
@subst /let columns = \(0\.\.self\.schema\.fields\(\)\.len\(\)\)\s*\.zip\(self\.indices\.iter\(\)\)\s*\.map\(\|\((\w+), (\w+)\)\| \{/ => let mut columns: Vec<Column> = Vec::new(); let mut bi: usize = 0; while bi < self.schema.fields().len() && bi < self.indices.len() { let \1 = bi; let \2 = &self.indices[bi]; bi += 1; let col: TskvResult<Column> = {
@subst /\}\)\s*\.collect::<std::result::Result<Vec<_>, DataFusionError>>\(\)\?;/ => }; columns.push(col?); }
@subst /self\s*\.batches\s*\.iter\(\)\s*\.map\(\|\(_, (\w+)\)\| \1\.column\((\w+)\)\.as_ref\(\)\)\s*\.collect\(\)/ => columns_of(&self.batches, \2)
@subst /self\.indices\.iter_mut\(\)\.for_each\(\|(\w+)\| \1\.clear\(\)\)/ => clear_all(&mut self.indices)
@subst /self\.schema\.clone\(\)/ => self.schema
@subst /\.context\(ArrowSnafu\)/ =>
@ret r
@spec
    requires bok0(*old(self))
    ensures final(self).batches == old(self).batches, final(self).schema == old(self).schema, final(self).cursors == old(self).cursors, final(self).last == old(self).last, final(self).last_same_rows == old(self).last_same_rows, final(self).g@.groups == old(self).g@.groups,
        r is Ok ==> bok0(*final(self)) && final(self).g@.e == old(self).g@.groups.len(),
        r is Ok && r->Ok_0 is None ==> old(self).g@.e == old(self).g@.groups.len(),
        r is Ok && r->Ok_0 is Some ==> old(self).g@.e < old(self).g@.groups.len() && rows_of(old(self).batches@, old(self).g@.groups, old(self).g@.e, ncols(old(self).schema), r->Ok_0->0)
@at start
    let ghost b0 = *self; let ghost bs = self.batches@; let ghost gs = self.g@.groups; let ghost n = ncols(self.schema); let ghost e = self.g@.e;
    proof { assert(b0.indices@[0]@.len() == gs.len() - e); }
@loop 0
    invariant bok0(b0), *self == b0, bs == b0.batches@, gs == b0.g@.groups, n == ncols(self.schema), e == b0.g@.e, bi <= n, columns.len() == bi, e < gs.len(),
        forall|c: int| 0 <= c < bi ==> (#[trigger] columns@[c]).at().len() == gs.len() - e && forall|j: int| e <= j < gs.len() ==> columns@[c].at()[j - e] == rcell(bs, pick(bs, #[trigger] gs[j], c), c)
    decreases n - bi
@at loop-start 0
    let ghost cc = bi as int;
    proof { assert(b0.indices@[cc]@.len() == gs.len() - e); assert forall|i: int| 0 <= i < gs.len() - e implies rv(bs, #[trigger] b0.indices@[cc]@[i]) by { assert(b0.indices@[cc]@[(i + e) - e] == pick(bs, gs[i + e], cc)); assert(grp(bs, gs[i + e])); lemma_pick(bs, gs[i + e], cc); } }
@at loop-end 0
    proof { assert forall|j: int| e <= j < gs.len() implies columns@[cc].at()[j - e] == rcell(bs, pick(bs, #[trigger] gs[j], cc), cc) by { assert(b0.indices@[cc]@[j - e] == pick(bs, gs[j], cc)); } }
@at after-loop 0
    proof { self.g = Ghost(Log { groups: gs, e: gs.len() as int }); }
@end
