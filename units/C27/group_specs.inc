//@extract tskv/src/compaction/compacting_block_meta.rs struct CompactingBlockMeta
@derive
@subst /Arc<(\w+)>/ => \1
@end
impl CompactingBlockMeta {
    spec fn there(&self) -> bool { self.meta.cgs().dom().contains(self.column_group_id) }
    spec fn cg(&self) -> ColumnGroup { self.meta.cgs()[self.column_group_id] }
    spec fn tr(&self) -> TimeRange { self.cg().tr() }
    spec fn ok(&self) -> bool { self.there() && self.tr().min_ts <= self.tr().max_ts }
}
//@extract tskv/src/compaction/comapcting_block_meta_group.rs struct CompactingBlockMetaGroup
@derive
@subst /Arc<(\w+)>/ => \1
@end
impl CompactingBlockMetaGroup {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    spec fn ok(&self) -> bool {
        self.time_range.min_ts <= self.time_range.max_ts
        && forall|i: int| 0 <= i < self.blk_metas.len() ==> (#[trigger] self.blk_metas@[i]).ok() && self.time_range.min_ts <= self.blk_metas@[i].tr().min_ts && self.blk_metas@[i].tr().max_ts <= self.time_range.max_ts
    }
}
spec fn blk_of(b: CompactingBlockMeta, t: Blk, s: CompactState) -> bool {
    b.reader_idx == t.2 && s.tsm_reader_to_compacting_file_map@[t.2 as int] == Some(b.compacting_file_index) && b.reader == s.tsm_readers@[t.2 as int] && b.meta == t.0 && b.column_group_id == t.1
}
spec fn held(g: Seq<CompactingBlockMetaGroup>, b: CompactingBlockMeta) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).blk_metas@.contains(b) }
spec fn got(g: Seq<CompactingBlockMetaGroup>, t: Blk, s: CompactState) -> bool { exists|b: CompactingBlockMeta| #[trigger] held(g, b) && blk_of(b, t, s) }
spec fn only_b(b: CompactingBlockMeta, s: CompactState) -> bool { exists|m: int| 0 <= m < s.tmp_tsm_blk_meta_iters.len() && blk_of(b, #[trigger] s.tmp_tsm_blk_meta_iters@[m], s) }
spec fn held_in(g: Seq<CompactingBlockMetaGroup>, b: CompactingBlockMeta, head: Seq<CompactingBlockMeta>) -> bool { held(g, b) || head.contains(b) }
spec fn all_ok(g: Seq<CompactingBlockMetaGroup>, sid: u32) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).ok() && g[i].series_id == sid }
// groups before n lie wholly before every later non-empty group
// what CompactState::next gives: the next series with blocks left, all of its blocks, grouped in time order
spec fn next_post(s0: CompactState, s1: CompactState, g: Seq<CompactingBlockMetaGroup>, r: Option<u32>) -> bool {
    s1.ok() && s1.tsm_readers == s0.tsm_readers && s1.out_time_ranges == s0.out_time_ranges
    && (r is None ==> (forall|k: int, s: u32, cg: u64| !#[trigger] s0.todo(k, s, cg)))
    && (r is Some ==> {
        let sid = r->0;
        all_ok(g, sid) && g.len() > 0
        && (forall|k: int, s: u32, cg: u64| #[trigger] s0.todo(k, s, cg) <==> s1.todo(k, s, cg) || (s == sid && has_blk(g, k, cg)))
        && (forall|k: int, s: u32, cg: u64| #[trigger] s1.todo(k, s, cg) ==> s > sid)
        && (forall|b: CompactingBlockMeta| #[trigger] held(g, b) ==> placed(b, s1) && b.meta == b.reader.chunks()[sid] && wanted(b.reader, sid, b.column_group_id, s1.out_time_ranges))
        && (forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).time_range.max_ts < (#[trigger] g[j]).time_range.min_ts)
        && (forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).blk_metas.len() > 0)
    })
}
spec fn has_blk(g: Seq<CompactingBlockMetaGroup>, k: int, cg: u64) -> bool { exists|b: CompactingBlockMeta| #[trigger] held(g, b) && b.reader_idx == k && b.column_group_id == cg }
spec fn placed(b: CompactingBlockMeta, s: CompactState) -> bool {
    b.reader_idx < s.tsm_readers.len() && b.reader == s.tsm_readers@[b.reader_idx as int] && b.compacting_file_index < s.compacting_files.len() && s.compacting_files@[b.compacting_file_index as int].tsm_reader == b.reader
}
