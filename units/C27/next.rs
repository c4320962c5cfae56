use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include files.inc
//@include specs.inc
//@include group_specs.inc
impl CompactState {
    // contract proved in state.rs
    #[verifier::external_body]
    fn next_series_id(&mut self) -> (r: TskvResult<Option<u32>>)
    requires old(self).ok()
    ensures r is Ok ==> final(self).ok() && final(self).tsm_readers == old(self).tsm_readers && final(self).out_time_ranges == old(self).out_time_ranges,
       // nothing left behind
       r is Ok && r->Ok_0 is None ==> forall|k: int, sid: u32, cg: u64| !#[trigger] old(self).todo(k, sid, cg),
       // the series returned: all its blocks from all files are taken, nothing else, and only larger series remain
       r is Ok && r->Ok_0 is Some ==> {
          let s = r->Ok_0->0;
          final(self).tmp_tsm_blk_meta_iters.len() > 0 && (forall|k: int, sid: u32, cg: u64| #[trigger] old(self).todo(k, sid, cg) <==> final(self).todo(k, sid, cg) || (sid == s && wanted(old(self).tsm_readers@[k], s, cg, old(self).out_time_ranges) && final(self).taken(k, s, cg)))
          && (forall|k: int, sid: u32, cg: u64| #[trigger] final(self).todo(k, sid, cg) ==> sid > s)
          && (forall|m: int| 0 <= m < final(self).tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] final(self).tmp_tsm_blk_meta_iters@[m]; b.2 < final(self).tsm_readers.len() && wanted(final(self).tsm_readers@[b.2 as int], s, b.1, final(self).out_time_ranges) && b.0 == final(self).tsm_readers@[b.2 as int].chunks()[s] && old(self).todo(b.2 as int, s, b.1) && final(self).tsm_reader_to_compacting_file_map@[b.2 as int] is Some })
       },
    { unimplemented!() }
    // contract proved in groups.rs
    #[verifier::external_body]
    fn fill_compacting_block_meta_groups(&mut self, seires_id: u32, compacting_blk_meta_groups: &mut Vec<CompactingBlockMetaGroup>) -> (r: TskvResult<()>)
    requires
      old(self).tsm_reader_to_compacting_file_map.len() == old(self).tsm_readers.len(), old(compacting_blk_meta_groups).len() == 0,
      forall|m: int| 0 <= m < old(self).tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] old(self).tmp_tsm_blk_meta_iters@[m]; b.2 < old(self).tsm_readers.len() && b.0.cgs().dom().contains(b.1) && b.0.cgs()[b.1].tr().min_ts <= b.0.cgs()[b.1].tr().max_ts && b.0.sid() == seires_id && old(self).tsm_reader_to_compacting_file_map@[b.2 as int] is Some }
    ensures r is Ok, *final(self) == *old(self), all_ok(final(compacting_blk_meta_groups)@, seires_id),
      // in time order, and no two groups share a time
      forall|i: int, j: int| 0 <= i < j < final(compacting_blk_meta_groups).len() ==> (#[trigger] final(compacting_blk_meta_groups)@[i]).time_range.max_ts < (#[trigger] final(compacting_blk_meta_groups)@[j]).time_range.min_ts,
      forall|i: int| 0 <= i < final(compacting_blk_meta_groups).len() ==> (#[trigger] final(compacting_blk_meta_groups)@[i]).blk_metas.len() > 0,
      // every block taken is in a group, and only those
      forall|m: int| 0 <= m < old(self).tmp_tsm_blk_meta_iters.len() ==> got(final(compacting_blk_meta_groups)@, #[trigger] old(self).tmp_tsm_blk_meta_iters@[m], *old(self)),
      forall|b: CompactingBlockMeta| #[trigger] held(final(compacting_blk_meta_groups)@, b) ==> only_b(b, *old(self))
    { unimplemented!() }
}
proof fn lemma_next(s0: CompactState, s1: CompactState, g: Seq<CompactingBlockMetaGroup>, sid: u32)
    requires s1.tmp_tsm_blk_meta_iters.len() > 0, s0.ok(), s1.ok(), s1.tsm_readers == s0.tsm_readers, s1.out_time_ranges == s0.out_time_ranges, all_ok(g, sid),
      forall|k: int, s: u32, cg: u64| #[trigger] s0.todo(k, s, cg) <==> s1.todo(k, s, cg) || (s == sid && wanted(s0.tsm_readers@[k], sid, cg, s0.out_time_ranges) && s1.taken(k, sid, cg)),
      forall|k: int, s: u32, cg: u64| #[trigger] s1.todo(k, s, cg) ==> s > sid,
      forall|m: int| 0 <= m < s1.tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] s1.tmp_tsm_blk_meta_iters@[m]; b.2 < s1.tsm_readers.len() && wanted(s1.tsm_readers@[b.2 as int], sid, b.1, s1.out_time_ranges) && b.0 == s1.tsm_readers@[b.2 as int].chunks()[sid] && s0.todo(b.2 as int, sid, b.1) },
      forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).time_range.max_ts < (#[trigger] g[j]).time_range.min_ts,
      forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).blk_metas.len() > 0,
      forall|m: int| 0 <= m < s1.tmp_tsm_blk_meta_iters.len() ==> got(g, #[trigger] s1.tmp_tsm_blk_meta_iters@[m], s1),
      forall|b: CompactingBlockMeta| #[trigger] held(g, b) ==> only_b(b, s1)
    ensures next_post(s0, s1, g, Some(sid))
{
    let T = s1.tmp_tsm_blk_meta_iters@; assert(got(g, T[0], s1));
    assert forall|b: CompactingBlockMeta| #[trigger] held(g, b) implies placed(b, s1) && b.meta == b.reader.chunks()[sid] && wanted(b.reader, sid, b.column_group_id, s1.out_time_ranges) by {
        let m = choose|m: int| 0 <= m < T.len() && blk_of(b, #[trigger] T[m], s1);
        assert(has_idx(s1.compacting_files@, b.reader_idx as int));
        let i = choose|i: int| 0 <= i < s1.compacting_files.len() && (#[trigger] s1.compacting_files@[i]).tsm_reader_index == b.reader_idx;
        let _ = s1.compacting_files@[i]; assert(i == b.compacting_file_index);
    }
    assert forall|k: int, s: u32, cg: u64| #[trigger] s0.todo(k, s, cg) implies s1.todo(k, s, cg) || (s == sid && has_blk(g, k, cg)) by {
        if !s1.todo(k, s, cg) { assert(s1.taken(k, sid, cg)); let m = choose|m: int| 0 <= m < T.len() && is_blk(#[trigger] T[m], s1.tsm_readers@, k, sid, cg); assert(got(g, T[m], s1)); let b = choose|b: CompactingBlockMeta| #[trigger] held(g, b) && blk_of(b, T[m], s1); assert(held(g, b) && b.reader_idx == k && b.column_group_id == cg); }
    }
    assert forall|k: int, cg: u64| has_blk(g, k, cg) implies #[trigger] s0.todo(k, sid, cg) by {
        let b = choose|b: CompactingBlockMeta| #[trigger] held(g, b) && b.reader_idx == k && b.column_group_id == cg; let m = choose|m: int| 0 <= m < T.len() && blk_of(b, #[trigger] T[m], s1); assert(s0.todo(T[m].2 as int, sid, T[m].1));
    }
}
//@extract tskv/src/compaction/compact.rs CompactState::next
@at before /Ok\(Some\(series_id\)\)/
    proof { lemma_next(*old(self), *self, compacting_blk_meta_groups@, series_id); }
@ret r
@spec
    requires old(self).ok(), forall|i: int| 0 <= i < old(self).tsm_readers.len() ==> shaped(#[trigger] old(self).tsm_readers@[i])
    ensures r is Ok ==> next_post(*old(self), *final(self), final(compacting_blk_meta_groups)@, r->Ok_0)
@end
}
fn main() {}
