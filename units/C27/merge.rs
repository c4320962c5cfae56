use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include files.inc
//@include specs.inc
//@include group_specs.inc
//@include data.inc
struct Metrics { x: u8 }
#[verifier::external_body]
fn file_mut(v: &mut Vec<CompactingFile>, i: usize) -> (r: &mut CompactingFile)
    requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), final(v).len() == old(v).len()
{ unimplemented!() }
//@extract tskv/src/compaction/compact.rs CompactingBlock::decoded
@subst /TskvTableSchemaRef/ => Schema
@ret r
@spec
    ensures bsid(r) == series_id, forall|t: i64, c: u32| #[trigger] bcell(r, t, c) == record_batch.cell(t, c)
@end
//@extract tskv/src/compaction/compact.rs CompactingBlock::raw
@subst /TskvTableSchemaRef/ => Schema
@subst /Arc<(\w+)>/ => \1
@ret r
@spec
    ensures bsid(r) == chunk.sid(), forall|t: i64, c: u32| #[trigger] bcell(r, t, c) == dec(raw@, chunk, column_group_id, t, c)
@end
//@extract tskv/src/compaction/compact.rs CompactingBlock::decode
@subst /(decode_pages\(\w+, table_schema\.meta\(\)), None\)/ => \1)
@ret r
@spec
    ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == bcell(self, t, c)
@end
//@extract tskv/src/compaction/compact.rs CompactingBlock::decode_opt
@subst /\.context\(ArrowSnafu\)/ =>
@ret r
@spec
    ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == (if mem(time_range, t) { bcell(self, t, c) } else { None })
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::included_in_time_range
@subst /\.context\(CommonSnafu \{(?:[^{}]|\{[^{}]*\})*\}\)\?/ => .ok_or(TskvError::Common)?
@ret r
@spec
    ensures (r is Ok) == self.there(), r is Ok && r->Ok_0 ==> time_range.min_ts <= self.tr().min_ts && self.tr().max_ts <= time_range.max_ts
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::get_record_batch
@ret r
@spec
    ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == olive(*self, t, c)
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::get_raw_data
@ret r
@spec
    requires self.there(), self.reader.chunks().dom().contains(self.meta.sid()), self.reader.chunks()[self.meta.sid()] == self.meta
    ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] dec(r->Ok_0@, self.meta, self.column_group_id, t, c) == self.reader.stored(self.meta.sid(), self.column_group_id, t, c)
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::column_group
@subst /\.cloned\(\)\s*\.context\(CommonSnafu \{(?:[^{}]|\{[^{}]*\})*\}\)/ => .ok_or(TskvError::Common)
@subst /Arc<(\w+)>/ => \1
@ret r
@spec
    ensures (r is Ok) == self.there(), r is Ok ==> r->Ok_0 == self.cg()
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::table_schema
@subst /TskvTableSchemaRef/ => Schema
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::meta
@subst /Arc<(\w+)>/ => \1
@ret r
@spec
    ensures r == self.meta
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::column_group_id
@ret r
@spec
    ensures r == self.column_group_id
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::reader_idx
@ret r
@spec
    ensures r == self.reader_idx
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::compacting_file_index
@ret r
@spec
    ensures r == self.compacting_file_index
@end
//@extract tskv/src/compaction/compact.rs CompactingFile::has_tombstone
@ret r
@spec
    ensures r == self.tsm_reader.tomb()
@end
//@extract tskv/src/compaction/compact.rs CompactingFile::get_record_batch
@subst /for (\w+) in time_ranges\.time_ranges\(\) \{/ => let trs = time_ranges.time_ranges(); let mut ti: usize = 0; while ti < trs.len() { let \1 = trs[ti]; ti += 1;
@subst /\.context\(ArrowSnafu\)/ =>
@ret r
@spec
    requires block_meta.ok(), exists|tr: TimeRange| out_of(old(self).out_time_ranges, tr), file_wf(block_meta.reader), block_meta.reader.chunks().dom().contains(block_meta.meta.sid()), block_meta.reader.chunks()[block_meta.meta.sid()] == block_meta.meta
    ensures *final(self) == *old(self),
      r is Ok && r->Ok_0 is Some ==> forall|tr: TimeRange, t: i64, c: u32| #[trigger] out_of(old(self).out_time_ranges, tr) ==> #[trigger] r->Ok_0->0.cell(t, c) == (if mem(tr, t) { olive(*block_meta, t, c) } else { None }),
      r is Ok && r->Ok_0 is None ==> forall|tr: TimeRange, t: i64, c: u32| #[trigger] out_of(old(self).out_time_ranges, tr) && (#[trigger] olive(*block_meta, t, c)) is Some ==> !mem(tr, t)
@loop 0
    invariant_except_break !has_data, !is_include, forall|k: int| 0 <= k < ti ==> !ov(column_group.tr(), #[trigger] trs@[k])
    invariant ti <= trs.len(), trs.len() == 1, forall|tr: TimeRange| #[trigger] out_of(self.out_time_ranges, tr) ==> tr == trs@[0], self.out_time_ranges == Some(*time_ranges), trs@ == time_ranges.ranges(), exists|tr: TimeRange| out_of(self.out_time_ranges, tr), *self == *old(self), column_group == block_meta.cg()
    ensures has_data ==> ov(column_group.tr(), trs@[0]), is_include ==> has_data, has_data ==> forall|tr: TimeRange| #[trigger] out_of(self.out_time_ranges, tr) ==> (is_include ==> tr.min_ts <= column_group.tr().min_ts && column_group.tr().max_ts <= tr.max_ts),
      !has_data ==> forall|tr: TimeRange| #[trigger] out_of(self.out_time_ranges, tr) ==> !ov(column_group.tr(), tr)
    decreases trs.len() - ti
@at before-loop 0
    proof { let tr = choose|tr: TimeRange| out_of(self.out_time_ranges, tr); assert(time_ranges.ranges() == seq![tr]); assert(time_ranges.ranges()[0] == tr); assert forall|tr: TimeRange| #[trigger] out_of(self.out_time_ranges, tr) implies tr == time_ranges.ranges()[0] by { assert(seq![tr][0] == tr); } }
@at after-loop 0
    proof { assert forall|t: i64, c: u32| (#[trigger] olive(*block_meta, t, c)) is Some implies mem(block_meta.tr(), t) by { let _ = block_meta.reader.live(block_meta.meta.sid(), block_meta.column_group_id, t, c); let _ = block_meta.reader.stored(block_meta.meta.sid(), block_meta.column_group_id, t, c); } 
      assert forall|tr: TimeRange| #[trigger] out_of(self.out_time_ranges, tr) implies tr == time_ranges.ranges()[0] by {} }
@end
//@extract tskv/src/compaction/compact.rs CompactingFile::get_raw_data
@subst /for (\w+) in time_ranges\.time_ranges\(\) \{/ => let trs = time_ranges.time_ranges(); let mut ti: usize = 0; while ti < trs.len() { let \1 = trs[ti]; ti += 1;
@ret r
@spec
    requires block_meta.ok(), block_meta.reader.chunks().dom().contains(block_meta.meta.sid()), block_meta.reader.chunks()[block_meta.meta.sid()] == block_meta.meta,
      exists|tr: TimeRange| #[trigger] out_of(old(self).out_time_ranges, tr) && ov(block_meta.tr(), tr)
    ensures *final(self) == *old(self), r is Ok ==> forall|t: i64, c: u32| #[trigger] dec(r->Ok_0@, block_meta.meta, block_meta.column_group_id, t, c) == block_meta.reader.stored(block_meta.meta.sid(), block_meta.column_group_id, t, c)
@loop 0
    invariant_except_break !has_data, forall|k: int| 0 <= k < ti ==> !ov(column_group.tr(), #[trigger] trs@[k])
    invariant ti <= trs.len(), trs@ == time_ranges.ranges(), self.out_time_ranges == Some(*time_ranges), *self == *old(self), column_group == block_meta.cg()
    ensures !has_data ==> forall|k: int| 0 <= k < trs.len() ==> !ov(column_group.tr(), #[trigger] trs@[k])
    decreases trs.len() - ti
@at before-loop 0
    proof { let tr = choose|tr: TimeRange| #[trigger] out_of(self.out_time_ranges, tr) && ov(block_meta.tr(), tr); assert(time_ranges.ranges() == seq![tr]); assert(time_ranges.ranges()[0] == tr); }
@end
// slice::sort_by_key by the reader index
#[verifier::external_body]
fn sort_by_reader(v: &mut Vec<CompactingBlockMeta>)
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i <= j < final(v).len() ==> (#[trigger] final(v)@[i]).reader_idx <= (#[trigger] final(v)@[j]).reader_idx,
      forall|i: int| 0 <= i < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v).len() ==> final(v)@.contains(#[trigger] old(v)@[i])
{ unimplemented!() }
#[verifier::external_body]
fn take_rb(v: &mut Vec<RecordBatch>, i: usize) -> (r: RecordBatch) requires i < old(v).len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
spec fn last_wins(bs: Seq<RecordBatch>, t: i64, c: u32, v: int) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).cell(t, c) == Some(v) && forall|j: int| i < j < bs.len() ==> (#[trigger] bs[j]).cell(t, c) is None }
spec fn rhas(bs: Seq<RecordBatch>, t: i64, c: u32) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).cell(t, c) is Some }
impl CompactingBlockMetaGroup {
    // the loser-tree merge (reader/sort_merge.rs): one row per time, per column the value of the last batch of the list that has one
    #[verifier::external_body]
    fn merge_record_batches(record_batches: Vec<RecordBatch>, block_size: usize) -> (r: TskvResult<Vec<RecordBatch>>)
        ensures r is Ok ==> ((forall|i: int| 0 <= i < record_batches.len() ==> rb_ok(#[trigger] record_batches@[i])) ==> forall|i: int| 0 <= i < r->Ok_0.len() ==> rb_ok(#[trigger] r->Ok_0@[i]))
          && (forall|i: int, j: int, t: i64| 0 <= i < j < r->Ok_0.len() && (#[trigger] r->Ok_0@[i].cell(t, 0)) is Some ==> (#[trigger] r->Ok_0@[j].cell(t, 0)) is None)
          && (forall|i: int, t: i64, c: u32, v: int| 0 <= i < r->Ok_0.len() && #[trigger] r->Ok_0@[i].cell(t, c) == Some(v) ==> #[trigger] last_wins(record_batches@, t, c, v))
          && (forall|t: i64, c: u32| #[trigger] rhas(record_batches@, t, c) ==> rhas(r->Ok_0@, t, c))
    { unimplemented!() }
}
// which block of the group each batch of the list comes from
spec fn from_blks(recs: Seq<RecordBatch>, src: Seq<int>, blks: Seq<CompactingBlockMeta>, n: int, tr: TimeRange) -> bool {
    recs.len() == src.len() && (forall|k: int| 0 <= k < src.len() ==> 0 <= #[trigger] src[k] < n) && (forall|k: int, l: int| 0 <= k < l < src.len() ==> #[trigger] src[k] < #[trigger] src[l])
    && (forall|k: int, t: i64, c: u32| 0 <= k < src.len() ==> #[trigger] recs[k].cell(t, c) == (if mem(tr, t) { olive(blks[src[k]], t, c) } else { None }))
    && (forall|i: int, t: i64, c: u32| 0 <= i < n && (#[trigger] olive(blks[i], t, c)) is Some && mem(tr, t) ==> src.contains(i))
}
spec fn sorted_by_reader(blks: Seq<CompactingBlockMeta>) -> bool { forall|i: int, j: int| 0 <= i <= j < blks.len() ==> (#[trigger] blks[i]).reader_idx <= (#[trigger] blks[j]).reader_idx }
spec fn same_blks(a: Seq<CompactingBlockMeta>, b: Seq<CompactingBlockMeta>) -> bool { (forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])) }
// the list handed to the merge: the batches of the group in file order, then the previous block
spec fn full_list(recs: Seq<RecordBatch>, src: Seq<int>, blks: Seq<CompactingBlockMeta>, p: Option<CompactingBlock>, tr: TimeRange) -> bool {
    match p { Some(b) => recs.len() > 0 && from_blks(recs.drop_last(), src, blks, blks.len() as int, tr) && (forall|t: i64, c: u32| #[trigger] recs.last().cell(t, c) == (if mem(tr, t) { bcell(b, t, c) } else { None })), None => from_blks(recs, src, blks, blks.len() as int, tr) }
}
spec fn merge_post(recs: Seq<RecordBatch>, rb: Seq<RecordBatch>) -> bool {
    ((forall|i: int| 0 <= i < recs.len() ==> rb_ok(#[trigger] recs[i])) ==> forall|i: int| 0 <= i < rb.len() ==> rb_ok(#[trigger] rb[i]))
      && (forall|i: int, j: int, t: i64| 0 <= i < j < rb.len() && (#[trigger] rb[i].cell(t, 0)) is Some ==> (#[trigger] rb[j].cell(t, 0)) is None)
      && (forall|i: int, t: i64, c: u32, v: int| 0 <= i < rb.len() && #[trigger] rb[i].cell(t, c) == Some(v) ==> #[trigger] last_wins(recs, t, c, v))
      && (forall|t: i64, c: u32| #[trigger] rhas(recs, t, c) ==> rhas(rb, t, c))
}
spec fn as_blocks(rs: Seq<CompactingBlock>, rb: Seq<RecordBatch>, n: int, sid: u32) -> bool { rs.len() == n && n <= rb.len() && forall|i: int| 0 <= i < n ==> bsid(#[trigger] rs[i]) == sid && forall|t: i64, c: u32| #[trigger] bcell(rs[i], t, c) == rb[i].cell(t, c) }
spec fn blks_wf(blks: Seq<CompactingBlockMeta>, g: CompactingBlockMetaGroup) -> bool { forall|i: int| 0 <= i < blks.len() ==> { let b = #[trigger] blks[i]; b.ok() && g.time_range.min_ts <= b.tr().min_ts && b.tr().max_ts <= g.time_range.max_ts && b.reader.chunks().dom().contains(g.series_id) && b.meta == b.reader.chunks()[g.series_id] && file_wf(b.reader) } }
proof fn lemma_olive(b: CompactingBlockMeta, g: CompactingBlockMetaGroup, t: i64, c: u32)
    requires blks_wf(seq![b], g), olive(b, t, c) is Some
    ensures olive(b, t, 0) is Some, mem(b.tr(), t), mem(g.time_range, t)
{ assert(seq![b][0] == b); let s = b.meta.sid(); let _ = b.reader.live(s, b.column_group_id, t, c); let _ = b.reader.stored(s, b.column_group_id, t, c); }
proof fn lemma_newest(blks: Seq<CompactingBlockMeta>, g: Seq<CompactingBlockMeta>, t: i64, c: u32, v: int)
    requires same_blks(blks, g), newest(blks, t, c, v)
    ensures newest(g, t, c, v)
{
    let i = choose|i: int| 0 <= i < blks.len() && olive(#[trigger] blks[i], t, c) == Some(v) && forall|j: int| 0 <= j < blks.len() && olive(#[trigger] blks[j], t, c) is Some ==> blks[j].reader_idx <= blks[i].reader_idx;
    assert(g.contains(blks[i])); let k = choose|k: int| 0 <= k < g.len() && g[k] == blks[i];
    assert(olive(g[k], t, c) == Some(v));
    assert forall|j: int| 0 <= j < g.len() && olive(#[trigger] g[j], t, c) is Some implies g[j].reader_idx <= g[k].reader_idx by { assert(blks.contains(g[j])); let m = choose|m: int| 0 <= m < blks.len() && blks[m] == g[j]; let _ = blks[m]; }
}
proof fn lemma_final(rs: Seq<CompactingBlock>, rb: Seq<RecordBatch>, recs: Seq<RecordBatch>, src: Seq<int>, blks: Seq<CompactingBlockMeta>, g: CompactingBlockMetaGroup, p: Option<CompactingBlock>, tr: TimeRange)
    requires merge_post(recs, rb), as_blocks(rs, rb, rb.len() as int, g.series_id), full_list(recs, src, blks, p, tr), sorted_by_reader(blks), same_blks(blks, g.blk_metas@), prev_ok(p, g, tr), blks_wf(blks, g)
    ensures merged(rs, p, g, tr)
{
    let n = src.len() as int;
    assert forall|k: int, t: i64, c: u32| 0 <= k < n implies #[trigger] recs[k].cell(t, c) == (if mem(tr, t) { olive(blks[src[k]], t, c) } else { None }) by { if p is Some { assert(recs.drop_last()[k] == recs[k]); } }
    assert forall|i: int, t: i64, c: u32| 0 <= i < rs.len() && (#[trigger] bcell(rs[i], t, c)) is Some implies from(p, g, tr, t, c, bcell(rs[i], t, c)->0) by {
        let v = bcell(rs[i], t, c)->0; assert(rb[i].cell(t, c) == Some(v)); assert(last_wins(recs, t, c, v));
        let k = choose|k: int| 0 <= k < recs.len() && (#[trigger] recs[k]).cell(t, c) == Some(v) && forall|j: int| k < j < recs.len() ==> (#[trigger] recs[j]).cell(t, c) is None;
        if k < n {
            assert(recs[k].cell(t, c) == Some(v));
            let x = src[k]; assert(olive(blks[x], t, c) == Some(v));
            assert forall|j: int| 0 <= j < blks.len() && olive(#[trigger] blks[j], t, c) is Some implies blks[j].reader_idx <= blks[x].reader_idx by {
                assert(src.contains(j)); let l = choose|l: int| 0 <= l < src.len() && src[l] == j; if l > k { assert(recs[l].cell(t, c) is Some); } else if l < k { assert(src[l] < src[k]); }
            }
            assert(newest(blks, t, c, v)); lemma_newest(blks, g.blk_metas@, t, c, v); assert(seq![blks[x]][0] == blks[x]); lemma_olive(blks[x], g, t, c);
        } else { assert(p is Some && k == recs.len() - 1); assert(recs[k] == recs.last()); }
    }
    assert forall|i: int| 0 <= i < recs.len() implies rb_ok(#[trigger] recs[i]) by {
        assert forall|t: i64, c: u32| (#[trigger] recs[i].cell(t, c)) is Some implies recs[i].cell(t, 0) is Some by {
            if i < n { let b = blks[src[i]]; assert(olive(b, t, c) is Some); assert(seq![b][0] == b); lemma_olive(b, g, t, c); assert(recs[i].cell(t, 0) == olive(b, t, 0)); }
            else { assert(recs[i] == recs.last()); assert(bcell(p->0, t, c) is Some); assert(recs.last().cell(t, 0) == bcell(p->0, t, 0)); }
        }
    }
    assert forall|i: int| 0 <= i < rs.len() implies bsid(#[trigger] rs[i]) == g.series_id && blk_ok(rs[i], tr) by {
        assert(rb_ok(rb[i]));
        assert forall|t: i64, c: u32| (#[trigger] bcell(rs[i], t, c)) is Some implies bcell(rs[i], t, 0) is Some && mem(tr, t) by { assert(rb[i].cell(t, c) is Some); let v = bcell(rs[i], t, c)->0; assert(from(p, g, tr, t, c, v)); if pc(p, t, c) == Some(v) { assert(bcell(p->0, t, c) is Some); } else { assert(newest(g.blk_metas@, t, c, v)); } }
    }
    assert(apart(rs)) by { assert forall|i: int, j: int, t: i64| 0 <= i < j < rs.len() && bsid(rs[i]) == bsid(rs[j]) && (#[trigger] bcell(rs[i], t, 0)) is Some implies (#[trigger] bcell(rs[j], t, 0)) is None by { assert(rb[i].cell(t, 0) is Some); assert(rb[j].cell(t, 0) is None); } }
    assert forall|t: i64, c: u32| rhas(recs, t, c) implies #[trigger] has(rs, g.series_id, t, c) by { assert(rhas(rb, t, c)); let i = choose|i: int| 0 <= i < rb.len() && (#[trigger] rb[i]).cell(t, c) is Some; assert(bcell(rs[i], t, c) is Some && bsid(rs[i]) == g.series_id); }
    assert forall|t: i64, c: u32| (#[trigger] pc(p, t, c)) is Some implies has(rs, g.series_id, t, c) by { assert(bcell(p->0, t, c) is Some); assert(recs.last().cell(t, c) is Some); assert(recs[recs.len() - 1].cell(t, c) is Some); assert(rhas(recs, t, c)); }
    assert forall|i: int, t: i64, c: u32| 0 <= i < g.blk_metas.len() && (#[trigger] olive(g.blk_metas@[i], t, c)) is Some && mem(tr, t) implies has(rs, g.series_id, t, c) by {
        assert(blks.contains(g.blk_metas@[i])); let m = choose|m: int| 0 <= m < blks.len() && blks[m] == g.blk_metas@[i]; assert(olive(blks[m], t, c) is Some); assert(src.contains(m)); let l = choose|l: int| 0 <= l < src.len() && src[l] == m; assert(recs[l].cell(t, c) is Some); assert(rhas(recs, t, c)); }
    assert(forall|i: int| 0 <= i < rs.len() ==> bsid(#[trigger] rs[i]) == g.series_id && blk_ok(rs[i], tr));
    assert(forall|t: i64, c: u32| (#[trigger] pc(p, t, c)) is Some ==> has(rs, g.series_id, t, c));
    assert(forall|i: int, t: i64, c: u32| 0 <= i < g.blk_metas.len() && (#[trigger] olive(g.blk_metas@[i], t, c)) is Some && mem(tr, t) ==> has(rs, g.series_id, t, c));
}
spec fn plist(p: Option<CompactingBlock>) -> Seq<CompactingBlock> { match p { Some(b) => seq![b], None => seq![] } }
proof fn lemma_raw(rs: Seq<CompactingBlock>, p: Option<CompactingBlock>, blks: Seq<CompactingBlockMeta>, g: CompactingBlockMetaGroup, tr: TimeRange)
    requires rs.len() > 0, rs.drop_last() == plist(p), blks.len() == 1, g.blk_metas.len() == 1, same_blks(blks, g.blk_metas@), blks_wf(blks, g), prev_ok(p, g, tr), !blks[0].reader.tomb(),
      tr.min_ts <= blks[0].tr().min_ts, blks[0].tr().max_ts <= tr.max_ts, bsid(rs.last()) == g.series_id,
      forall|t: i64, c: u32| #[trigger] bcell(rs.last(), t, c) == blks[0].reader.stored(g.series_id, blks[0].column_group_id, t, c)
    ensures merged(rs, p, g, tr)
{
    let b = blks[0]; let n = rs.len() - 1; assert(b.meta.sid() == g.series_id);
    assert forall|t: i64, c: u32| #[trigger] bcell(rs[n], t, c) == olive(b, t, c) by { assert(bcell(rs.last(), t, c) == b.reader.stored(g.series_id, b.column_group_id, t, c)); let _ = b.reader.live(g.series_id, b.column_group_id, t, c); }
    assert(g.blk_metas@.contains(blks[0])); assert(g.blk_metas@[0] == b);
    assert forall|t: i64, c: u32| (#[trigger] olive(b, t, c)) is Some implies olive(b, t, 0) is Some && mem(tr, t) && mem(g.time_range, t) && newest(g.blk_metas@, t, c, olive(b, t, c)->0) by { assert(seq![b][0] == b); lemma_olive(b, g, t, c); assert(olive(g.blk_metas@[0], t, c) == Some(olive(b, t, c)->0)); }
    assert(rs.drop_last().len() == n); if p is Some { assert(n == 1); assert(rs[0] == rs.drop_last()[0]); } else { assert(n == 0); }
    assert forall|i: int, t: i64, c: u32| 0 <= i < rs.len() && (#[trigger] bcell(rs[i], t, c)) is Some implies from(p, g, tr, t, c, bcell(rs[i], t, c)->0) by { if i == n { assert(bcell(rs[n], t, c) == olive(b, t, c)); } }
    assert forall|i: int| 0 <= i < rs.len() implies bsid(#[trigger] rs[i]) == g.series_id && blk_ok(rs[i], tr) by { if i == n { assert forall|t: i64, c: u32| (#[trigger] bcell(rs[n], t, c)) is Some implies bcell(rs[n], t, 0) is Some && mem(tr, t) by { assert(olive(b, t, c) is Some); assert(bcell(rs[n], t, 0) == olive(b, t, 0)); } } }
    assert forall|t: i64, c: u32| (#[trigger] pc(p, t, c)) is Some implies has(rs, g.series_id, t, c) by { assert(bcell(rs[0], t, c) is Some); }
    assert forall|i: int, t: i64, c: u32| 0 <= i < g.blk_metas.len() && (#[trigger] olive(g.blk_metas@[i], t, c)) is Some && mem(tr, t) implies has(rs, g.series_id, t, c) by { assert(bcell(rs[n], t, c) is Some); assert(bsid(rs[n]) == g.series_id); }
    assert forall|i: int, j: int, t: i64| 0 <= i < j < rs.len() && bsid(rs[i]) == bsid(rs[j]) && (#[trigger] bcell(rs[i], t, 0)) is Some implies (#[trigger] bcell(rs[j], t, 0)) is None by { assert(bcell(p->0, t, 0) is Some); if bcell(rs[n], t, 0) is Some { assert(olive(b, t, 0) is Some); } }
}
//@extract tskv/src/compaction/comapcting_block_meta_group.rs CompactingBlockMetaGroup::merge_with_previous_block
@log
@attr #[verifier::rlimit(60)]
@subst /compacting_files: &mut \[CompactingFile\]/ => compacting_files: &mut Vec<CompactingFile>
@subst /metrics: &mut VnodeCompactionMetrics/ => metrics: &mut Metrics
@subst /metrics\.\w+\(\);/ =>
@subst /self\.blk_metas\.sort_by_key\(\|(\w+)\| \1\.reader_idx(?:\(\))?\)/ => sort_by_reader(&mut self.blk_metas)
@subst /\.context\(CommonSnafu \{(?:[^{}]|\{[^{}]*\})*\}\)\?/ => .ok_or(TskvError::Common)?
@subst /compacting_files\[self\.blk_metas\[0\]\.compacting_file_index\(\)\]\s*\.get_raw_data/ => file_mut(compacting_files, self.blk_metas[0].compacting_file_index()).get_raw_data
@subst /let merged_blks = record_batches\s*\.into_iter\(\)\s*\.map\(\|rb\| \{([\s\S]*?)\}\)\s*\.collect::<Vec<_>>\(\);/ => let mut record_batches = record_batches; let ghost RB = record_batches@; let mut merged_blks: Vec<CompactingBlock> = Vec::new(); let mut ri: usize = 0; while ri < record_batches.len() { let rb = take_rb(&mut record_batches, ri); ri += 1; merged_blks.push({ \1 }); }
@subst /let mut record_batches =\s*Vec::with_capacity\([^;]*\);/ => let mut record_batches: Vec<RecordBatch> = Vec::new();
@subst /for (\w+) in self\.blk_metas\.iter\(\) \{/ => let mut bi: usize = 0; while bi < self.blk_metas.len() { let \1 = &self.blk_metas[bi]; bi += 1;
@subst /&mut compacting_files\[([^\]]*)\]/ => file_mut(compacting_files, \1)
@subst /Self::merge_record_batches\(\s*([\s\S]*?),\s*max_block_size,?\s*\)/ => { let list = \1; proof { RL = list@; } Self::merge_record_batches(list, max_block_size) }
@subst /Ok\(vec!\[(CompactingBlock::raw\([\s\S]*?)\]\)/ => { let one = \1; let v = vec![one]; proof { assert(v@.drop_last() =~= plist(P)); lemma_raw(v@, P, B, G, TR); } Ok(v) }
@subst /mut self,/ => self,
@subst /self\./ => me.
@ret r
@at start
    let mut me = self; let ghost G = self; let ghost P = previous_block; let ghost mut RL: Seq<RecordBatch> = seq![]; let ghost mut SR: Seq<int> = seq![]; let ghost mut R1: Seq<RecordBatch> = seq![]; let ghost C0 = compacting_files@; let ghost TR = *time_range;
@spec
    requires mergeable(self, old(compacting_files)@, *time_range), prev_ok(previous_block, self, *time_range),
      forall|i: int| 0 <= i < self.blk_metas.len() ==> ov((#[trigger] self.blk_metas@[i]).tr(), *time_range)
    ensures r is Ok ==> final(compacting_files)@ == old(compacting_files)@, r is Ok && self.blk_metas.len() > 0 ==> merged(r->Ok_0@, previous_block, self, *time_range), r is Ok && self.blk_metas.len() == 0 ==> r->Ok_0.len() == 0
@at before /let table_schema/
    let ghost B = me.blk_metas@; let ghost SID = me.series_id;
    proof {
      if G.blk_metas.len() > 0 { assert(B.contains(G.blk_metas@[0])); }
      assert forall|i: int| 0 <= i < B.len() implies { let b = #[trigger] B[i]; b.ok() && G.time_range.min_ts <= b.tr().min_ts && b.tr().max_ts <= G.time_range.max_ts && b.reader.chunks().dom().contains(G.series_id) && b.meta == b.reader.chunks()[G.series_id] && file_wf(b.reader) && b.compacting_file_index < C0.len() && C0[b.compacting_file_index as int].tsm_reader == b.reader && out_of(C0[b.compacting_file_index as int].out_time_ranges, TR) && ov(b.tr(), TR) && b.meta.sid() == G.series_id } by { assert(G.blk_metas@.contains(B[i])); let k = choose|k: int| 0 <= k < G.blk_metas.len() && G.blk_metas@[k] == B[i]; let _ = G.blk_metas@[k]; }
      assert(blks_wf(B, G)); assert(sorted_by_reader(B)); assert(same_blks(B, G.blk_metas@));
    }
@loop 0
    invariant ri <= record_batches.len(), record_batches@ == RB, as_blocks(merged_blks@, RB, ri as int, SID), me.series_id == SID
    decreases record_batches.len() - ri
@loop 1
    invariant bi <= me.blk_metas.len(), me.blk_metas@ == B, me.series_id == SID, compacting_files@ == C0, from_blks(record_batches@, src, B, bi as int, TR),
      forall|i: int| 0 <= i < B.len() ==> { let b = #[trigger] B[i]; b.ok() && b.reader.chunks().dom().contains(b.meta.sid()) && b.reader.chunks()[b.meta.sid()] == b.meta && file_wf(b.reader) && b.compacting_file_index < C0.len() && C0[b.compacting_file_index as int].tsm_reader == b.reader && out_of(C0[b.compacting_file_index as int].out_time_ranges, TR) }
    decreases me.blk_metas.len() - bi
@loop 2
    invariant ri <= record_batches.len(), record_batches@ == RB, as_blocks(merged_blks@, RB, ri as int, SID), me.series_id == SID
    decreases record_batches.len() - ri
@at before-loop 1
    let ghost mut src: Seq<int> = seq![];
@at loop-start 1
    let ghost r0 = record_batches@; let ghost b0 = bi as int; let ghost s0 = src;
@at loop-end 1
    proof {
      assert(compacting_files@ =~= C0);
      let r1 = record_batches@; assert(from_blks(r0, s0, B, b0, TR));
      if r1.len() > r0.len() { src = src.push(b0); assert(r1.drop_last() =~= r0); assert(src[s0.len() as int] == b0); assert(forall|k: int| 0 <= k < s0.len() ==> r1[k] == r0[k] && src[k] == s0[k]); }
      assert forall|i: int, t: i64, c: u32| 0 <= i < bi && (#[trigger] olive(B[i], t, c)) is Some && mem(TR, t) implies src.contains(i) by { if i < b0 { assert(s0.contains(i)); let k = choose|k: int| 0 <= k < s0.len() && s0[k] == i; assert(src[k] == i); } else { if r1.len() > r0.len() { assert(src[s0.len() as int] == b0); } } }
    }
@at after-loop 0
    proof {
      assert(olive(B[0], 0, 0) == B[0].reader.live(SID, B[0].column_group_id, 0, 0));
      assert forall|t: i64, c: u32| #[trigger] RL[0].cell(t, c) == (if mem(TR, t) { olive(B[0], t, c) } else { None }) by { let _ = B[0].reader.live(SID, B[0].column_group_id, t, c); let _ = B[0].reader.stored(SID, B[0].column_group_id, t, c); if olive(B[0], t, c) is Some { assert(seq![B[0]][0] == B[0]); lemma_olive(B[0], G, t, c); } }
      let src = seq![0int]; assert(src[0] == 0); assert(RL.drop_last()[0] == RL[0]); assert(src.contains(0));
      assert(from_blks(RL.drop_last(), src, B, 1, TR)); assert(RL.last() == RL[1]);
      lemma_final(merged_blks@, RB, RL, src, B, G, P, TR);
    }
@at after-loop 2
    proof { assert(full_list(RL, SR, B, P, TR)) by { if P is Some { assert(RL.drop_last() =~= R1); } else { assert(RL =~= R1); } } lemma_final(merged_blks@, RB, RL, SR, B, G, P, TR); }
@at after-loop 1
    proof { SR = src; R1 = record_batches@; }
@at before /return Ok\(compacting_blocks\)/
    proof { assert(compacting_blocks@.drop_last() =~= plist(P)); lemma_raw(compacting_blocks@, P, B, G, TR); }
@end
}
fn main() {}
