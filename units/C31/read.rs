use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include read.inc
//@extract tskv/src/reader/mod.rs DataReference::time_range
@header impl DataReference
@ret r
@spec
    ensures r == drange(*self)
@end
//@extract tskv/src/reader/mod.rs DataReference::file_id
@header impl DataReference
@ret r
@spec
    ensures r == dfile(*self)
@end
//@extract tskv/src/reader/mod.rs DataReference::level
@header impl DataReference
@ret r
@spec
    ensures r == dlevel(*self)
@end
//@extract tskv/src/reader/mod.rs Ord for DataReference::cmp
@header impl DataReference
@subst /(\w+)\s*\.level\(\)\s*\.cmp\(&(\w+)\.level\(\)\)/ => cmp_u32(&\1.level(), &\2.level())
@subst /(\w+)\s*\.file_id\(\)\s*\.cmp\(&(\w+)\.file_id\(\)\)/ => cmp_u64(&\1.file_id(), &\2.file_id())
@subst /(cmp_u\d\d\([^()]*\(\), &[^()]*\(\)\))\s*\.then_with\(\|\| (cmp_u\d\d\([^()]*\(\), &[^()]*\(\)\))\)/ => then_with(\1, \2)
@ret r
@spec
    ensures r is Less <==> older(*self, *other), r is Greater <==> older(*other, *self)
@end

//@extract tskv/src/reader/utils.rs struct OverlappingSegments
@subst /<T: TimeRangeProvider>/ =>
@subst /Vec<T>/ => Vec<DataReference>
@end
//@extract tskv/src/reader/utils.rs OverlappingSegments::segments
@header impl OverlappingSegments
@subst /Vec<T>/ => Vec<DataReference>
@ret r
@spec
    ensures r == self.segments
@end
//@extract tskv/src/reader/utils.rs OverlappingSegments::sort
@header impl OverlappingSegments
@subst /self\.segments\.sort\(\);/ => sort_by_age(&mut self.segments);
@spec
    ensures same_set(old(self).segments@, final(self).segments@), final(self).segments.len() == old(self).segments.len(), forall|i: int, j: int| 0 <= i < j < final(self).segments.len() ==> !older(#[trigger] final(self).segments@[j], #[trigger] final(self).segments@[i])
@end
#[verifier::external_body] fn sort_each(g: &mut Vec<OverlappingSegments>)
    ensures final(g).len() == old(g).len(), forall|k: int| 0 <= k < old(g).len() ==> sorted_from(old(g)@[k].segments@, (#[trigger] final(g)@[k]).segments@) { unimplemented!() }
spec fn sorted_from(a: Seq<DataReference>, b: Seq<DataReference>) -> bool { same_set(a, b) && a.len() == b.len() && forall|i: int, j: int| 0 <= i < j < b.len() ==> !older(#[trigger] b[j], #[trigger] b[i]) }
#[verifier::external_body] fn last_group(v: &mut Vec<OverlappingSegments>) -> (r: &mut OverlappingSegments) requires old(v).len() > 0 ensures *r == old(v)@.last(), final(v)@ == old(v)@.drop_last().push(*final(r)) { unimplemented!() }
// every chunk is in a group, and the groups follow each other in time
spec fn in_groups(gs: Seq<OverlappingSegments>, x: DataReference) -> bool { exists|g: int| 0 <= g < gs.len() && (#[trigger] gs[g]).segments@.contains(x) }
spec fn apart(a: OverlappingSegments, b: OverlappingSegments) -> bool { forall|x: DataReference, y: DataReference| #[trigger] a.segments@.contains(x) && #[trigger] b.segments@.contains(y) ==> drange(x).max_ts < drange(y).min_ts }
spec fn grouped(v: Seq<DataReference>, gs: Seq<OverlappingSegments>) -> bool {
    &&& forall|x: DataReference| #[trigger] v.contains(x) <==> in_groups(gs, x)
    &&& forall|a: int, b: int| 0 <= a < b < gs.len() ==> apart(#[trigger] gs[a], #[trigger] gs[b])
    &&& forall|a: int| 0 <= a < gs.len() ==> (#[trigger] gs[a]).segments.len() > 0
}
//@extract tskv/src/reader/utils.rs group_overlapping_segments
@subst /<R: TimeRangeProvider \+ Clone>/ =>
@subst /&\[R\]/ => &Vec<DataReference>
@subst /OverlappingSegments<R>/ => OverlappingSegments
@subst /if let Some\((\w+)\) = result\.last_mut\(\) \{/ => if result.len() > 0 {
@subst /segment_group\.segments\.push\(chunk\.clone\(\)\)/ => last_group(&mut result).segments.push(clone_ref(chunk))
@subst /chunk\.clone\(\)/ => clone_ref(chunk)
@subst /cmp::max\(/ => imax(
@subst /for (\w+) in ordered_chunks \{/ => let mut gi: usize = 0; while gi < ordered_chunks.len() { let \1 = &ordered_chunks[gi]; gi += 1;
@ret r
@spec
    requires forall|i: int, j: int| 0 <= i < j < ordered_chunks.len() ==> drange(#[trigger] ordered_chunks@[i]).min_ts <= drange(#[trigger] ordered_chunks@[j]).min_ts
    ensures grouped(ordered_chunks@, r@)
@loop 0
    invariant forall|i: int, j: int| 0 <= i < j < ordered_chunks.len() ==> drange(#[trigger] ordered_chunks@[i]).min_ts <= drange(#[trigger] ordered_chunks@[j]).min_ts, gi <= ordered_chunks.len(),
        grouped(ordered_chunks@.take(gi as int), result@), gi > 0 ==> result.len() > 0, forall|x: DataReference| ordered_chunks@.take(gi as int).contains(x) ==> (#[trigger] drange(x)).max_ts <= global_min_ts,
        forall|x: DataReference, y: DataReference| result.len() > 0 && #[trigger] in_groups(result@.drop_last(), x) && #[trigger] result@.last().segments@.contains(y) ==> drange(x).max_ts < drange(y).min_ts
    decreases ordered_chunks.len() - gi
@at loop-start 0
    let ghost old_r = result@; let ghost g0 = gi as int; let ghost gm = global_min_ts;
@at loop-end 0
    proof { if !found { assert(result@.drop_last() =~= old_r); assert(result@.last().segments@ =~= seq![ordered_chunks@[g0]]); } else { assert(result@.drop_last() =~= old_r.drop_last()); } lemma_grouped(ordered_chunks@, g0, old_r, result@, gm, found); }
@at tail
    proof { assert(ordered_chunks@.take(gi as int) =~= ordered_chunks@); }
@end
proof fn lemma_grouped(v: Seq<DataReference>, g: int, a: Seq<OverlappingSegments>, b: Seq<OverlappingSegments>, gm: i64, found: bool)
    requires 0 <= g < v.len(), grouped(v.take(g), a), forall|i: int, j: int| 0 <= i < j < v.len() ==> drange(#[trigger] v[i]).min_ts <= drange(#[trigger] v[j]).min_ts,
        forall|x: DataReference| v.take(g).contains(x) ==> (#[trigger] drange(x)).max_ts <= gm,
        forall|x: DataReference, y: DataReference| a.len() > 0 && #[trigger] in_groups(a.drop_last(), x) && #[trigger] a.last().segments@.contains(y) ==> drange(x).max_ts < drange(y).min_ts,
        found ==> a.len() > 0 && b.len() == a.len() && b.drop_last() == a.drop_last() && b.last().segments@ == a.last().segments@.push(v[g]),
        !found ==> b.len() == a.len() + 1 && b.drop_last() == a && b.last().segments@ == seq![v[g]] && (a.len() == 0 || drange(v[g]).min_ts > gm),
        g > 0 ==> a.len() > 0
    ensures grouped(v.take(g + 1), b), forall|x: DataReference, y: DataReference| b.len() > 0 && #[trigger] in_groups(b.drop_last(), x) && #[trigger] b.last().segments@.contains(y) ==> drange(x).max_ts < drange(y).min_ts,
        forall|x: DataReference| v.take(g + 1).contains(x) ==> v.take(g).contains(x) || x == v[g]
{
    let c = v[g]; let n = b.len() - 1;
    assert(v.take(g + 1) =~= v.take(g).push(c));
    assert forall|x: DataReference| #[trigger] v.take(g + 1).contains(x) <==> v.take(g).contains(x) || x == c by { lemma_push_contains(v.take(g), c, x); }
    assert forall|k: int| 0 <= k < n implies b[k] == a[k] by { assert(b.drop_last()[k] == b[k]); if found { assert(a.drop_last()[k] == a[k]); } }
    assert forall|x: DataReference| #[trigger] b[n].segments@.contains(x) <==> x == c || (found && a.last().segments@.contains(x)) by { if found { lemma_push_contains(a.last().segments@, c, x); } else { lemma_push_contains(Seq::<DataReference>::empty(), c, x); assert(Seq::<DataReference>::empty().push(c) =~= seq![c]); } }
    assert forall|x: DataReference| v.take(g + 1).contains(x) implies in_groups(b, x) by {
        if x == c { assert(b[n].segments@.contains(c)); } else { assert(in_groups(a, x)); let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).segments@.contains(x); if k < n { assert(b[k].segments@.contains(x)); } else { assert(a[k] == a.last()); assert(b[n].segments@.contains(x)); } }
    }
    assert forall|x: DataReference| in_groups(b, x) implies v.take(g + 1).contains(x) by {
        let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).segments@.contains(x); if k < n { assert(a[k].segments@.contains(x)); assert(in_groups(a, x)); } else if x != c { assert(a[a.len() - 1].segments@.contains(x)); assert(in_groups(a, x)); }
    }
    // everything grouped earlier ends before the last group, and starts no later than c
    assert forall|x: DataReference, y: DataReference| #[trigger] in_groups(b.drop_last(), x) && #[trigger] b.last().segments@.contains(y) implies drange(x).max_ts < drange(y).min_ts by {
        let k = choose|k: int| 0 <= k < n && (#[trigger] b.drop_last()[k]).segments@.contains(x);
        if found {
            assert(a.drop_last()[k].segments@.contains(x)); assert(in_groups(a.drop_last(), x));
            if y == c { let z = a.last().segments@[0]; assert(a[a.len() - 1].segments.len() > 0); assert(a.last().segments@.contains(z)); assert(in_groups(a, z)) by { assert(a[a.len() - 1].segments@.contains(z)); } assert(v.take(g).contains(z)); let zi = choose|i: int| 0 <= i < g && v.take(g)[i] == z; assert(v[zi] == z); assert(drange(v[zi]).min_ts <= drange(v[g]).min_ts); }
            else { assert(a.last().segments@.contains(y)); }
        } else { assert(a[k].segments@.contains(x)); assert(in_groups(a, x)); assert(v.take(g).contains(x)); assert(y == c); assert(drange(x).max_ts <= gm); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies apart(#[trigger] b[i], #[trigger] b[j]) by {
        if j < n { assert(apart(a[i], a[j])); } else { assert forall|x: DataReference, y: DataReference| #[trigger] b[i].segments@.contains(x) && #[trigger] b[j].segments@.contains(y) implies drange(x).max_ts < drange(y).min_ts by { assert(b.drop_last()[i].segments@.contains(x)); assert(in_groups(b.drop_last(), x)); assert(b.last().segments@.contains(y)); } }
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).segments.len() > 0 by { if i < n { assert(a[i].segments.len() > 0); } }
}
proof fn lemma_push_contains(s: Seq<DataReference>, c: DataReference, x: DataReference) ensures s.push(c).contains(x) <==> s.contains(x) || x == c
{ if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(c)[i] == x); } if x == c { assert(s.push(c)[s.len() as int] == x); } if s.push(c).contains(x) && x != c { let i = choose|i: int| 0 <= i < s.push(c).len() && s.push(c)[i] == x; assert(s[i] == x); } }
//@extract tskv/src/reader/chunk.rs filter_column_groups_indices
@subst /cgs: &\[Arc<ColumnGroup>\]/ => cgs: &Vec<ColumnGroup>
@subst /Arc<Predicate>/ => Predicate
@subst /chunk_schema: SchemaRef/ => chunk_schema: ChunkSchema
@subst /predicate\.clone\(\)/ => *predicate
@subst /chunk_schema\.clone\(\)/ => chunk_schema
@subst /ColumnGroupsStatisticsWrapper\(cgs\)/ => Stats { g: cgs }
@ret r
@spec
    ensures r is Ok && r->Ok_0 is Some ==> r->Ok_0->0.len() == cgs.len() && predicate is Some && forall|i: int, t: int| 0 <= i < cgs.len() && !r->Ok_0->0@[i] && (#[trigger] cg_tab(cgs@[i])(t)) is Some ==> !pass(predicate->0, t, cg_tab(cgs@[i])(t)->0)
@end
//@extract tskv/src/reader/chunk.rs filter_column_groups
@subst /Vec<Arc<ColumnGroup>>/ => Vec<ColumnGroup>
@subst /Arc<Predicate>/ => Predicate
@subst /chunk_schema: SchemaRef/ => chunk_schema: ChunkSchema
@subst /indices\s*\.into_iter\(\)\s*\.zip\(cgs\)\s*\.filter\(\|\((\w+), _\w*\)\| \*\1\)\s*\.map\(\|\(_\w*, (\w+)\)\| \2\)\s*\.collect::<Vec<_>>\(\)/ => pick_true(indices, cgs)
@ret r
@spec
    ensures r is Ok ==> kept_of(cgs@, r->Ok_0@, *predicate)
@at tail
    proof { let b = Seq::new(cgs.len() as nat, |i: int| true); lemma_picked_all(cgs@, b); assert(b.len() == cgs.len() && cgs@ == picked(cgs@, b)); }
@end

//@extract tskv/src/reader/iterator.rs SeriesGroupBatchReaderFactory::build_chunk_reader
@header impl SeriesGroupBatchReaderFactory
@log
@subst /&SeriesGroupBatchReaderMetrics/ => &SeriesMetrics
@subst /Arc<Predicate>/ => Predicate
@subst /PushedAggregateFunction/ => Aggregate
@subst /metrics\.\w+\(\)\.add\([^;]*\);/ =>
@subst /Arc::new\(/ => (
@subst / as BatchReaderRef/ =>
@subst /self\.query_option\.schema_meta\.clone\(\)/ => self.query_option.schema_meta
@subst /self\.(\w+_metrics_set)\.clone\(\)/ => self.\1
@subst /predicate\.clone\(\)/ => *predicate
@subst /aggregates\[0\]\.clone\(\)/ => aggregates[0]
@subst /chunk_schema\.clone\(\)/ => chunk_schema
@subst /chunk_schema\.metadata\(\)\.clone\(\)/ => chunk_schema.metadata()
@subst /reader\.clone\(\)/ => &reader
@subst /let (\w+) = chunk\.column_group\(\)\.values\(\)\.cloned\(\)\.collect::<Vec<_>>\(\);/ => let \1 = groups_of(&chunk, &reader); let ghost all0 = \1@;
@subst /let (\w+) = cgs\s*\.into_iter\(\)\s*\.map\(\|e\| \{/ => let mut \1: Vec<BatchReaderRef> = Vec::new(); let mut gi: usize = 0; while gi < cgs.len() { let e = clone_group(&cgs[gi]); gi += 1; let one: TskvResult<BatchReaderRef> = {
@subst /\}\)\s*\.collect::<TskvResult<Vec<_>>>\(\)\?;/ => }; batch_readers.push(one?); }
@subst /\.map\(\|e\| e\)/ =>
@ret r
@spec
    requires dok(chunk), aggregates is Some ==> aggregates->0.len() > 0
    ensures aggregates is None && r is Ok ==> (match r->Ok_0 { Some(rd) => filtered(*predicate, dtab(chunk), rd.tab()) && cols_are(rd, projection@), None => forall|t: int| (#[trigger] dtab(chunk)(t)) is None })
@loop 0
    invariant gi <= cgs.len(), batch_readers.len() == gi, forall|i: int| 0 <= i < gi ==> (#[trigger] batch_readers@[i]).tab() == cg_tab(cgs@[i]) && cols_are(batch_readers@[i], projection@)
    decreases cgs.len() - gi
@at after-loop 0
    proof { lemma_groups(all0, cgs@, *predicate, chunk_tab(chunk, reader), batch_readers@); }
@end
struct SeriesMetrics { x: u8 }
// the readers of the column groups that are left, together
proof fn lemma_groups(v: Seq<ColumnGroup>, k: Seq<ColumnGroup>, p: Option<Predicate>, tab: Tab, rs: Seq<BatchReaderRef>)
    requires cgs_ok(v, tab), kept_of(v, k, p), rs.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> (#[trigger] rs[i]).tab() == cg_tab(k[i])
    ensures disj(rs), forall|t2: Tab| #[trigger] union_of(rs, t2) ==> filtered(p, tab, t2)
{
    let b = choose|b: Seq<bool>| b.len() == v.len() && k == #[trigger] picked(v, b) && forall|i: int, t: int| 0 <= i < v.len() && !b[i] && (#[trigger] cg_tab(v[i])(t)) is Some ==> p is Some && !pass(p->0, t, cg_tab(v[i])(t)->0);
    assert forall|i: int, j: int, s: int, t: int| 0 <= i < j < rs.len() && (#[trigger] rs[i].tab()(s)) is Some && (#[trigger] rs[j].tab()(t)) is Some implies s < t by { let x = lemma_picked_ord(v, b, i, j); assert(cg_tab(v[x.0])(s) is Some && cg_tab(v[x.1])(t) is Some); }
    assert forall|t2: Tab| #[trigger] union_of(rs, t2) implies filtered(p, tab, t2) by {
        assert forall|t: int| (#[trigger] t2(t)) is Some implies tab(t) == t2(t) by { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i].tab()(t)) is Some; let x = lemma_picked_in(v, b, i); assert(cg_tab(v[x])(t) is Some); }
        assert forall|t: int| (#[trigger] tab(t)) is Some && (p is Some ==> pass(p->0, t, tab(t)->0)) implies t2(t) == tab(t) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] cg_tab(v[i])(t)) is Some; assert(b[i]); let j = lemma_picked_has(v, b, i); assert(rs[j].tab()(t) is Some); }
    }
}

// readers of the chunks, in their order; a chunk without rows may have none
spec fn read_of(cs: Seq<DataReference>, p: Option<Predicate>, v: Seq<BatchReaderRef>, ix: Seq<int>) -> bool {
    &&& ix.len() == v.len() && (forall|k: int| 0 <= k < ix.len() ==> 0 <= #[trigger] ix[k] < cs.len() && filtered(p, dtab(cs[ix[k]]), v[k].tab())) && (forall|a: int, b: int| 0 <= a < b < ix.len() ==> #[trigger] ix[a] < #[trigger] ix[b])
    &&& forall|i: int, t: int| 0 <= i < cs.len() && (#[trigger] dtab(cs[i])(t)) is Some ==> ix.contains(i)
}
//@extract tskv/src/reader/iterator.rs SeriesGroupBatchReaderFactory::build_chunk_readers
@header impl SeriesGroupBatchReaderFactory
@log
@subst /&SeriesGroupBatchReaderMetrics/ => &SeriesMetrics
@subst /Arc<Predicate>/ => Predicate
@subst /PushedAggregateFunction/ => Aggregate
@subst /let mut only_tsm = true;/ =>
@subst /match data_reference \{\s*DataReference::Memcache\(\.\.\).*?_ => \{\}\s*\}/ =>
@subst /if only_tsm && [^{}]*\{[^{}]*\}/ =>
@subst /for data_reference in chunks(?:\.into_iter\(\))? \{/ => let mut ci: usize = 0; while ci < chunks.len() { let data_reference = clone_ref(&chunks[ci]); ci += 1;
@subst /chunk_readers\.push\(chunk_reader\);/ => chunk_readers.push(chunk_reader); proof { ix = ix.push(ci - 1); }
@ret r
@spec
    requires forall|i: int| 0 <= i < chunks.len() ==> dok(#[trigger] chunks@[i]), aggregates is Some ==> aggregates->0.len() > 0, projection.ok()
    ensures aggregates is None && r is Ok ==> reads(chunks@, *predicate, r->Ok_0@), aggregates is None && r is Ok ==> forall|k: int| 0 <= k < r->Ok_0.len() ==> cols_are(#[trigger] r->Ok_0@[k], projection.fields@) && (chunks.len() > 1 ==> r->Ok_0@[k].col(time_col()))
@at start
    let ghost mut ix: Seq<int> = Seq::empty(); let ghost pj = *projection;
@loop 0
    invariant ci <= chunks.len(), pj.ok(), forall|i: int| 0 <= i < chunks.len() ==> dok(#[trigger] chunks@[i]), aggregates is Some ==> aggregates->0.len() > 0, projection@ == (if chunks.len() > 1 { pj.fields_with_time@ } else { pj.fields@ }),
        aggregates is None ==> read_of(chunks@.take(ci as int), *predicate, chunk_readers@, ix) && forall|k: int| 0 <= k < chunk_readers.len() ==> cols_are(#[trigger] chunk_readers@[k], projection@)
    decreases chunks.len() - ci
@at loop-start 0
    let ghost ix0 = ix; let ghost v0 = chunk_readers@; let ghost c0 = ci as int;
@at loop-end 0
    proof { if aggregates is None { if chunk_readers.len() > v0.len() { assert(chunk_readers@.drop_last() =~= v0); } lemma_read_one(chunks@, c0, *predicate, v0, ix0, chunk_readers@, ix); } }
@at tail
    proof { assert(chunks@.take(ci as int) =~= chunks@); if aggregates is None { assert(read_of(chunks@, *predicate, chunk_readers@, ix)); } assert forall|k: int| aggregates is None && 0 <= k < chunk_readers.len() implies cols_are(#[trigger] chunk_readers@[k], pj.fields@) && (chunks.len() > 1 ==> chunk_readers@[k].col(time_col())) by { assert(cols_are(chunk_readers@[k], projection@)); } }
@end
proof fn lemma_read_one(cs: Seq<DataReference>, c: int, p: Option<Predicate>, v0: Seq<BatchReaderRef>, ix0: Seq<int>, v: Seq<BatchReaderRef>, ix: Seq<int>)
    requires 0 <= c < cs.len(), read_of(cs.take(c), p, v0, ix0), (v == v0 && ix == ix0 && forall|t: int| (#[trigger] dtab(cs[c])(t)) is None) || (v.len() == v0.len() + 1 && v.drop_last() == v0 && ix == ix0.push(c) && filtered(p, dtab(cs[c]), v.last().tab()))
    ensures read_of(cs.take(c + 1), p, v, ix)
{
    let a = cs.take(c); let b = cs.take(c + 1);
    assert forall|k: int| 0 <= k < ix.len() implies 0 <= #[trigger] ix[k] < b.len() && filtered(p, dtab(b[ix[k]]), v[k].tab()) by { if k < ix0.len() { assert(ix[k] == ix0[k]); assert(0 <= ix0[k] < a.len()); assert(a[ix0[k]] == b[ix0[k]]); if v.len() > v0.len() { assert(v.drop_last()[k] == v[k]); } } }
    assert forall|x: int, y: int| 0 <= x < y < ix.len() implies #[trigger] ix[x] < #[trigger] ix[y] by { assert(ix0[x] == ix[x]); if y < ix0.len() { assert(ix0[y] == ix[y]); } }
    assert forall|i: int, t: int| 0 <= i < b.len() && (#[trigger] dtab(b[i])(t)) is Some implies ix.contains(i) by { if i < c { assert(a[i] == b[i]); assert(dtab(a[i])(t) is Some); assert(ix0.contains(i)); let k = choose|k: int| 0 <= k < ix0.len() && ix0[k] == i; assert(ix[k] == i); } else { assert(b[i] == cs[c]); assert(ix[ix0.len() as int] == c); } }
}
// what the chunks together hold at a time: of every column the value of the newest chunk that has one
spec fn has_row(cs: Seq<DataReference>, t: int) -> bool { exists|d: DataReference| #[trigger] cs.contains(d) && dtab(d)(t) is Some }
spec fn newest_in(cs: Seq<DataReference>, t: int, c: int, x: Option<int>) -> bool {
    &&& x is None ==> forall|d: DataReference| #[trigger] cs.contains(d) && dtab(d)(t) is Some ==> (dtab(d)(t)->0)(c) is None
    &&& x is Some ==> exists|d: DataReference| #[trigger] newest_at(cs, t, c, x, d)
}
spec fn newest_at(cs: Seq<DataReference>, t: int, c: int, x: Option<int>, d: DataReference) -> bool { cs.contains(d) && dtab(d)(t) is Some && (dtab(d)(t)->0)(c) == x && forall|e: DataReference| #[trigger] cs.contains(e) && older(d, e) && dtab(e)(t) is Some ==> (dtab(e)(t)->0)(c) is None }
spec fn whole(cs: Seq<DataReference>, t: int, w: Row) -> bool { has_row(cs, t) && forall|c: int| newest_in(cs, t, c, #[trigger] w(c)) }
// a reader gives the newest rows, all but those that do not pass
spec fn right_at(cs: Seq<DataReference>, p: Option<Predicate>, tab: Tab, t: int) -> bool {
    &&& tab(t) is Some ==> whole(cs, t, tab(t)->0)
    &&& has_row(cs, t) ==> exists|w: Row| #[trigger] whole(cs, t, w) && (tab(t) == Some(w) || (p is Some && !pass(p->0, t, w)))
}
spec fn right(cs: Seq<DataReference>, p: Option<Predicate>, tab: Tab) -> bool { forall|t: int| #[trigger] right_at(cs, p, tab, t) }
spec fn ages(cs: Seq<DataReference>) -> bool { forall|d: DataReference, e: DataReference| #[trigger] cs.contains(d) && #[trigger] cs.contains(e) ==> d == e || older(d, e) || older(e, d) }
proof fn lemma_one(cs: Seq<DataReference>, p: Option<Predicate>, v: Seq<BatchReaderRef>, ix: Seq<int>, tab: Tab)
    requires cs.len() == 1, read_of(cs, p, v, ix), union_of(v, tab) ensures right(cs, p, tab)
{
    let d = cs[0]; assert(cs.contains(d)); assert forall|e: DataReference| cs.contains(e) implies e == d by { }
    assert(v.len() <= 1) by { if v.len() > 1 { assert(ix[0] < ix[1]); } }
    assert forall|t: int| #[trigger] right_at(cs, p, tab, t) by {
        if tab(t) is Some { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some; assert(ix[i] == 0); assert(dtab(d)(t) == tab(t)); lemma_single(cs, t); }
        if has_row(cs, t) { assert(dtab(cs[0])(t) is Some); lemma_single(cs, t); assert(ix.contains(0)); assert(ix[0] == 0); let w = dtab(d)(t)->0; if p is None || pass(p->0, t, w) { assert(v[0].tab()(t) == dtab(d)(t)); } }
    }
}
proof fn lemma_single(cs: Seq<DataReference>, t: int) requires cs.len() == 1, dtab(cs[0])(t) is Some ensures whole(cs, t, dtab(cs[0])(t)->0)
{
    let d = cs[0]; let w = dtab(d)(t)->0; assert(cs.contains(d));
    assert forall|c: int| newest_in(cs, t, c, #[trigger] w(c)) by { if w(c) is Some { assert(newest_at(cs, t, c, w(c), d)); } }
}
// chunks from the oldest to the newest, merged
proof fn lemma_merged(cs: Seq<DataReference>, v: Seq<BatchReaderRef>, ix: Seq<int>, tab: Tab)
    requires ages(cs), forall|i: int, j: int| 0 <= i < j < cs.len() ==> !older(#[trigger] cs[j], #[trigger] cs[i]), read_of(cs, None, v, ix), merge_of(v, tab) || (v.len() <= 1 && union_of(v, tab)) ensures right(cs, None, tab)
{
    if v.len() <= 1 && union_of(v, tab) {
        assert forall|t: int| (#[trigger] tab(t)) is Some <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some by { if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some { assert(tab(t) == v[0].tab()(t)); } }
        assert forall|t: int, c: int| tab(t) is Some implies last_of(v, t, c, #[trigger] (tab(t)->0)(c)) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some; if (tab(t)->0)(c) is Some { assert(last_at(v, t, c, (tab(t)->0)(c), i)); } }
    }
    assert(merge_of(v, tab));
    assert forall|k: int, t: int| 0 <= k < v.len() implies dtab(cs[ix[k]])(t) == (#[trigger] v[k].tab()(t)) by { assert(filtered(None, dtab(cs[ix[k]]), v[k].tab())); }
    assert forall|t: int| has_row(cs, t) <==> (#[trigger] tab(t)) is Some by {
        if has_row(cs, t) { let d = choose|d: DataReference| #[trigger] cs.contains(d) && dtab(d)(t) is Some; let i = choose|i: int| 0 <= i < cs.len() && cs[i] == d; assert(dtab(cs[i])(t) is Some); assert(ix.contains(i)); let k = choose|k: int| 0 <= k < ix.len() && ix[k] == i; assert(v[k].tab()(t) is Some); }
        if tab(t) is Some { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k].tab()(t)) is Some; assert(dtab(cs[ix[k]])(t) is Some); assert(cs.contains(cs[ix[k]])); }
    }
    assert forall|t: int| #[trigger] right_at(cs, None, tab, t) by { if tab(t) is Some { assert(has_row(cs, t)); assert forall|c: int| newest_in(cs, t, c, #[trigger] (tab(t)->0)(c)) by { lemma_merged_at(cs, v, ix, tab, t, c); } assert(whole(cs, t, tab(t)->0)); } }
}
proof fn lemma_merged_at(cs: Seq<DataReference>, v: Seq<BatchReaderRef>, ix: Seq<int>, tab: Tab, t: int, c: int)
    requires ages(cs), forall|i: int, j: int| 0 <= i < j < cs.len() ==> !older(#[trigger] cs[j], #[trigger] cs[i]), read_of(cs, None, v, ix), merge_of(v, tab), tab(t) is Some, forall|k: int, t: int| 0 <= k < v.len() ==> dtab(cs[ix[k]])(t) == (#[trigger] v[k].tab()(t))
    ensures newest_in(cs, t, c, (tab(t)->0)(c))
{
    let x = (tab(t)->0)(c); assert(last_of(v, t, c, x));
    if x is None {
        assert forall|d: DataReference| #[trigger] cs.contains(d) && dtab(d)(t) is Some implies (dtab(d)(t)->0)(c) is None by { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == d; assert(dtab(cs[i])(t) is Some); assert(ix.contains(i)); let k = choose|k: int| 0 <= k < ix.len() && ix[k] == i; assert(v[k].tab()(t) is Some); }
    } else {
        let k = choose|k: int| #[trigger] last_at(v, t, c, x, k); let d = cs[ix[k]]; assert(cs.contains(d)); assert(v[k].tab()(t) is Some);
        assert forall|e: DataReference| #[trigger] cs.contains(e) && older(d, e) && dtab(e)(t) is Some implies (dtab(e)(t)->0)(c) is None by {
            let i = choose|i: int| 0 <= i < cs.len() && cs[i] == e; assert(dtab(cs[i])(t) is Some); assert(ix.contains(i)); let m = choose|m: int| 0 <= m < ix.len() && ix[m] == i; assert(v[m].tab()(t) is Some);
            if i <= ix[k] { if i < ix[k] { assert(!older(cs[ix[k]], cs[i])); } assert(false); } if m <= k { if m < k { assert(ix[m] < ix[k]); } assert(false); }
        }
        assert(newest_at(cs, t, c, x, d));
    }
}
proof fn lemma_filter(cs: Seq<DataReference>, p: Option<Predicate>, a: Tab, b: Tab) requires right(cs, None, a), filtered(p, a, b) ensures right(cs, p, b)
{
    assert forall|t: int| #[trigger] right_at(cs, p, b, t) by { assert(right_at(cs, None, a, t)); if has_row(cs, t) { let w = choose|w: Row| #[trigger] whole(cs, t, w) && a(t) == Some(w); assert(a(t) is Some); } }
}
// the groups one after the other
proof fn lemma_all(cs: Seq<DataReference>, gs: Seq<OverlappingSegments>, p: Option<Predicate>, v: Seq<BatchReaderRef>)
    requires forall|d: DataReference| #[trigger] cs.contains(d) ==> dok(d), grouped(cs, gs), v.len() == gs.len(), forall|g: int| 0 <= g < gs.len() ==> right(gs[g].segments@, p, (#[trigger] v[g]).tab())
    ensures disj(v), forall|tab: Tab| #[trigger] union_of(v, tab) ==> right(cs, p, tab)
{
    assert forall|g: int, d: DataReference| 0 <= g < gs.len() && #[trigger] gs[g].segments@.contains(d) implies cs.contains(d) && dok(d) by { assert(in_groups(gs, d)); assert(cs.contains(d)); }
    assert forall|g: int, t: int| 0 <= g < gs.len() && (#[trigger] v[g].tab()(t)) is Some implies has_row(gs[g].segments@, t) by { assert(right(gs[g].segments@, p, v[g].tab())); assert(right_at(gs[g].segments@, p, v[g].tab(), t)); }
    assert forall|g: int, h: int, s: int, t: int| 0 <= g < h < gs.len() && #[trigger] has_row(gs[g].segments@, s) && #[trigger] has_row(gs[h].segments@, t) implies s < t by { lemma_apart(cs, gs, g, h, s, t); }
    assert forall|i: int, j: int, s: int, t: int| 0 <= i < j < v.len() && (#[trigger] v[i].tab()(s)) is Some && (#[trigger] v[j].tab()(t)) is Some implies s < t by { assert(has_row(gs[i].segments@, s) && has_row(gs[j].segments@, t)); }
    assert forall|tab: Tab| #[trigger] union_of(v, tab) implies right(cs, p, tab) by {
        assert forall|t: int| #[trigger] right_at(cs, p, tab, t) by {
            if tab(t) is Some { let g = choose|g: int| 0 <= g < v.len() && (#[trigger] v[g].tab()(t)) is Some; assert(right_at(gs[g].segments@, p, v[g].tab(), t)); lemma_part(cs, gs, g, t, tab(t)->0); }
            if has_row(cs, t) {
                let d = choose|d: DataReference| #[trigger] cs.contains(d) && dtab(d)(t) is Some; assert(in_groups(gs, d)); let g = choose|g: int| 0 <= g < gs.len() && (#[trigger] gs[g]).segments@.contains(d); let a = gs[g].segments@; assert(has_row(a, t)); assert(right(a, p, v[g].tab())); assert(right_at(a, p, v[g].tab(), t));
                let w = choose|w: Row| #[trigger] whole(a, t, w) && (v[g].tab()(t) == Some(w) || (p is Some && !pass(p->0, t, w))); lemma_part(cs, gs, g, t, w);
            }
        }
    }
}
proof fn lemma_apart(cs: Seq<DataReference>, gs: Seq<OverlappingSegments>, g: int, h: int, s: int, t: int)
    requires forall|d: DataReference| #[trigger] cs.contains(d) ==> dok(d), grouped(cs, gs), 0 <= g < h < gs.len(), has_row(gs[g].segments@, s), has_row(gs[h].segments@, t) ensures s < t
{
    let d = choose|d: DataReference| #[trigger] gs[g].segments@.contains(d) && dtab(d)(s) is Some; let e = choose|e: DataReference| #[trigger] gs[h].segments@.contains(e) && dtab(e)(t) is Some;
    assert(in_groups(gs, d) && in_groups(gs, e)); assert(cs.contains(d) && cs.contains(e)); assert(apart(gs[g], gs[h]));
}
proof fn lemma_part(cs: Seq<DataReference>, gs: Seq<OverlappingSegments>, g: int, t: int, w: Row)
    requires forall|d: DataReference| #[trigger] cs.contains(d) ==> dok(d), grouped(cs, gs), 0 <= g < gs.len(), whole(gs[g].segments@, t, w) ensures whole(cs, t, w)
{
    let a = gs[g].segments@;
    assert forall|d: DataReference| #[trigger] a.contains(d) implies cs.contains(d) by { assert(gs[g].segments@.contains(d)); assert(in_groups(gs, d)); }
    assert forall|d: DataReference| #[trigger] cs.contains(d) && dtab(d)(t) is Some implies a.contains(d) by { assert(in_groups(gs, d)); let h = choose|h: int| 0 <= h < gs.len() && (#[trigger] gs[h]).segments@.contains(d); assert(has_row(gs[h].segments@, t)); if h < g { lemma_apart(cs, gs, h, g, t, t); } if g < h { lemma_apart(cs, gs, g, h, t, t); } }
    let d0 = choose|d: DataReference| #[trigger] a.contains(d) && dtab(d)(t) is Some; assert(cs.contains(d0)); assert(has_row(cs, t));
    assert forall|c: int| newest_in(cs, t, c, #[trigger] w(c)) by { assert(newest_in(a, t, c, w(c))); if w(c) is Some { let d = choose|d: DataReference| #[trigger] newest_at(a, t, c, w(c), d); assert(newest_at(cs, t, c, w(c), d)); } }
}
#[verifier::external_body] fn group_at(v: &Vec<OverlappingSegments>, i: usize) -> (r: OverlappingSegments) requires i < v.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body] fn reader_at(v: &Vec<BatchReaderRef>, i: usize) -> (r: BatchReaderRef) requires i < v.len() ensures r == v@[i as int] { unimplemented!() }
fn limit_of(p: &Option<Predicate>) -> Option<usize> { match p { Some(x) => x.limit(), None => None } }
//@extract tskv/src/reader/iterator.rs SeriesGroupBatchReaderFactory::build_series_reader
@header impl SeriesGroupBatchReaderFactory
@log
@subst /mut chunks: Vec<DataReference>/ => chunks0: Vec<DataReference>
@subst /if chunks\.is_empty\(\) \{/ => let mut chunks = chunks0; if chunks.len() == 0 {
@subst /&SeriesGroupBatchReaderMetrics/ => &SeriesMetrics
@subst /TskvTableSchemaRef/ => TableSchema
@subst /Arc<Predicate>/ => Predicate
@subst /PushedAggregateFunction/ => Aggregate
@subst /metrics\s*\.\w+\(\)\s*\.add\([^;]*\);/ =>
@subst /Arc::new\(/ => (
@subst / as BatchReaderRef/ =>
@subst /chunks\.sort_unstable_by_key\(\|(\w+)\| \1\.time_range\(\)\);/ => sort_by_time(&mut chunks);
@subst /grouped_chunks\.iter_mut\(\)\.for_each\(\|(\w+)\| \1\.sort\(\)\);/ => proof { g0 = grouped_chunks@; } sort_each(&mut grouped_chunks); proof { lemma_resorted(chunks0@, chunks@, g0, grouped_chunks@); }
@subst /self\.(\w+_metrics_set)\.clone\(\)/ => self.\1
@subst /(\w+_schema|schema)\.clone\(\)/ => \1
@subst /predicate\.clone\(\)/ => *predicate
@subst /let readers = grouped_chunks\s*\.into_iter\(\)\s*\.map\(\|chunks\| -> TskvResult<BatchReaderRef> \{/ => let mut readers: Vec<BatchReaderRef> = Vec::new(); let mut gi: usize = 0; while gi < grouped_chunks.len() { let chunks = group_at(&grouped_chunks, gi); gi += 1; let ghost cs = chunks.segments@; let one: TskvResult<BatchReaderRef> = {
@subst /\}\)\s*\.collect::<TskvResult<Vec<_>>>\(\)\?;/ => }; let one = one?; proof { if aggregates is None { assert(cs.len() == 1 ==> v1.len() <= 1); assert((cs.len() == 1 && reads(cs, *predicate, v1)) || reads(cs, None, v1)); lemma_group(chunks0@, grouped_chunks@, gi - 1, *predicate, v1, one); } } readers.push(one); }
@subst /let chunk_readers = chunk_readers\s*\.into_iter\(\)\s*\.map\(\|r\| \{/ => let mut aligned: Vec<BatchReaderRef> = Vec::new(); let mut ai: usize = 0; while ai < chunk_readers.len() { let r = reader_at(&chunk_readers, ai); ai += 1; aligned.push({
@subst /\}\)\s*\.collect::<Vec<_>>\(\);/ => }); } proof { v1 = aligned@; } let chunk_readers = aligned;
@subst /predicate\.as_ref\(\)\.and_then\(\|(\w+)\| \1\.limit\(\)\)/ => limit_of(predicate)
@ret r
@spec
    requires forall|d: DataReference| #[trigger] chunks0@.contains(d) ==> dok(d), ages(chunks0@), projection.ok(), aggregates is Some ==> aggregates->0.len() > 0, self.query_option.aggregates == *aggregates
    ensures aggregates is None && r is Ok ==> (match r->Ok_0 { Some(rd) => right(chunks0@, *predicate, rd.tab()), None => chunks0.len() == 0 })
@at start
    let ghost mut g0: Seq<OverlappingSegments> = Seq::empty(); let ghost mut v1: Seq<BatchReaderRef> = Seq::empty();
@loop 0
    invariant gi <= grouped_chunks.len(), readers.len() == gi, groups_ok(chunks0@, grouped_chunks@), projection.ok(), aggregates is Some ==> aggregates->0.len() > 0,
        aggregates is None ==> forall|g: int| 0 <= g < gi ==> right(grouped_chunks@[g].segments@, *predicate, (#[trigger] readers@[g]).tab())
    decreases grouped_chunks.len() - gi
@at loop-start 0
    proof { lemma_group_ok(chunks0@, grouped_chunks@, gi as int); }
@loop 1
    invariant ai <= chunk_readers.len(), aligned.len() == ai, forall|k: int| 0 <= k < ai ==> (#[trigger] aligned@[k]).tab() == chunk_readers@[k].tab() && forall|c: int| chunk_readers@[k].col(c) ==> #[trigger] aligned@[k].col(c)
    decreases chunk_readers.len() - ai
@at after-loop 1
    proof { assert forall|k: int| 0 <= k < aligned.len() && chunk_readers@[k].col(time_col()) implies (#[trigger] aligned@[k]).col(time_col()) by { } lemma_aligned(cs, chunk_readers@, aligned@); }
@at after-loop 0
    proof { if aggregates is None { lemma_all(chunks0@, grouped_chunks@, *predicate, readers@); } }
@end
// the groups of the chunks, each from its oldest to its newest
spec fn by_age(cs: Seq<DataReference>) -> bool { forall|i: int, j: int| 0 <= i < j < cs.len() ==> !older(#[trigger] cs[j], #[trigger] cs[i]) }
spec fn groups_ok(cs: Seq<DataReference>, gs: Seq<OverlappingSegments>) -> bool {
    &&& forall|d: DataReference| #[trigger] cs.contains(d) ==> dok(d)
    &&& ages(cs) && grouped(cs, gs)
    &&& forall|g: int| 0 <= g < gs.len() ==> by_age((#[trigger] gs[g]).segments@)
}
proof fn lemma_resorted(cs: Seq<DataReference>, v: Seq<DataReference>, a: Seq<OverlappingSegments>, b: Seq<OverlappingSegments>)
    requires same_set(cs, v), grouped(v, a), a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> sorted_from(a[k].segments@, (#[trigger] b[k]).segments@)
    ensures grouped(cs, b), forall|g: int| 0 <= g < b.len() ==> by_age((#[trigger] b[g]).segments@)
{
    assert forall|x: DataReference| #[trigger] cs.contains(x) <==> in_groups(b, x) by {
        if cs.contains(x) { assert(v.contains(x)); let g = choose|g: int| 0 <= g < a.len() && (#[trigger] a[g]).segments@.contains(x); assert(b[g].segments@.contains(x)); }
        if in_groups(b, x) { let g = choose|g: int| 0 <= g < b.len() && (#[trigger] b[g]).segments@.contains(x); assert(a[g].segments@.contains(x)); assert(in_groups(a, x)); assert(v.contains(x)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies apart(#[trigger] b[i], #[trigger] b[j]) by {
        assert(apart(a[i], a[j]));
        assert forall|x: DataReference, y: DataReference| #[trigger] b[i].segments@.contains(x) && #[trigger] b[j].segments@.contains(y) implies drange(x).max_ts < drange(y).min_ts by { assert(a[i].segments@.contains(x) && a[j].segments@.contains(y)); }
    }
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).segments.len() > 0 by { assert(a[k].segments.len() > 0); assert(sorted_from(a[k].segments@, b[k].segments@)); }
    assert forall|g: int| 0 <= g < b.len() implies by_age((#[trigger] b[g]).segments@) by { assert(sorted_from(a[g].segments@, b[g].segments@)); }
}
proof fn lemma_group_ok(cs: Seq<DataReference>, gs: Seq<OverlappingSegments>, g: int)
    requires groups_ok(cs, gs), 0 <= g < gs.len()
    ensures ages(gs[g].segments@), by_age(gs[g].segments@), gs[g].segments.len() > 0, forall|i: int| 0 <= i < gs[g].segments.len() ==> dok(#[trigger] gs[g].segments@[i])
{
    let a = gs[g].segments@;
    assert forall|d: DataReference| #[trigger] a.contains(d) implies cs.contains(d) by { assert(gs[g].segments@.contains(d)); assert(in_groups(gs, d)); }
    assert forall|i: int| 0 <= i < a.len() implies dok(#[trigger] a[i]) by { assert(a.contains(a[i])); assert(cs.contains(a[i])); }
}
spec fn reads(cs: Seq<DataReference>, p: Option<Predicate>, v: Seq<BatchReaderRef>) -> bool { exists|ix: Seq<int>| #[trigger] read_of(cs, p, v, ix) }
proof fn lemma_aligned(cs: Seq<DataReference>, v: Seq<BatchReaderRef>, w: Seq<BatchReaderRef>)
    requires v.len() == w.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] w[k]).tab() == v[k].tab()
    ensures forall|p: Option<Predicate>, ix: Seq<int>| #[trigger] read_of(cs, p, v, ix) ==> read_of(cs, p, w, ix) && (cs.len() == 1 ==> w.len() <= 1)
{
    assert forall|p: Option<Predicate>, ix: Seq<int>| #[trigger] read_of(cs, p, v, ix) implies read_of(cs, p, w, ix) && (cs.len() == 1 ==> w.len() <= 1) by { if cs.len() == 1 && ix.len() > 1 { assert(ix[0] < ix[1]); } assert forall|k: int| 0 <= k < ix.len() implies 0 <= #[trigger] ix[k] < cs.len() && filtered(p, dtab(cs[ix[k]]), w[k].tab()) by { assert(w[k].tab() == v[k].tab()); } }
}
spec fn comb(v: Seq<BatchReaderRef>, tab: Tab) -> bool { merge_of(v, tab) || (v.len() <= 1 && union_of(v, tab)) }
proof fn lemma_group(cs: Seq<DataReference>, gs: Seq<OverlappingSegments>, g: int, p: Option<Predicate>, v: Seq<BatchReaderRef>, one: BatchReaderRef)
    requires groups_ok(cs, gs), 0 <= g < gs.len(),
        (gs[g].segments.len() == 1 && reads(gs[g].segments@, p, v) && union_of(v, one.tab())) || (reads(gs[g].segments@, None, v) && exists|r: BatchReaderRef| comb(v, #[trigger] r.tab()) && filtered(p, r.tab(), one.tab()))
    ensures right(gs[g].segments@, p, one.tab())
{
    let a = gs[g].segments@; lemma_group_ok(cs, gs, g);
    if a.len() == 1 && reads(a, p, v) && union_of(v, one.tab()) { let ix = choose|ix: Seq<int>| #[trigger] read_of(a, p, v, ix); lemma_one(a, p, v, ix, one.tab()); }
    else { let ix = choose|ix: Seq<int>| #[trigger] read_of(a, None, v, ix); let r = choose|r: BatchReaderRef| comb(v, #[trigger] r.tab()) && filtered(p, r.tab(), one.tab()); lemma_merged(a, v, ix, r.tab()); lemma_filter(a, p, r.tab(), one.tab()); }
}
}
fn main() {}
