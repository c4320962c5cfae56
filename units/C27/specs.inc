//@extract tskv/src/compaction/compact.rs struct CompactingFile
@subst /Arc<TsmReader>/ => TsmReader
@subst /Arc<TimeRanges>/ => TimeRanges
@end
//@extract tskv/src/compaction/compact.rs struct CompactState
@subst /Arc<(\w+)>/ => \1
@end
type Blk = (Chunk, u64, usize);
spec fn cur(f: CompactingFile) -> Option<u32> { if f.series_idx < f.series_ids.len() { Some(f.series_ids@[f.series_idx as int]) } else { None } }
spec fn left(f: CompactingFile, sid: u32) -> bool { exists|i: int| f.series_idx <= i < f.series_ids.len() && #[trigger] f.series_ids@[i] == sid }
spec fn file_ok(f: CompactingFile, readers: Seq<TsmReader>) -> bool {
    f.tsm_reader_index < readers.len() && f.tsm_reader == readers[f.tsm_reader_index as int] && f.series_idx <= f.series_ids.len()
    && (forall|i: int, j: int| 0 <= i < j < f.series_ids.len() ==> f.series_ids@[i] < f.series_ids@[j])
    && (forall|i: int| 0 <= i < f.series_ids.len() ==> f.tsm_reader.chunks().dom().contains(#[trigger] f.series_ids@[i]))
}
spec fn le(a: Option<u32>, b: Option<u32>) -> bool { match (a, b) { (Some(x), Some(y)) => x <= y, (Some(_), None) => true, (None, Some(_)) => false, (None, None) => true } }
spec fn sorted(v: Seq<CompactingFile>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> le(cur(#[trigger] v[i]), cur(#[trigger] v[j])) }
spec fn wanted(r: TsmReader, sid: u32, cg: u64, out: Option<TimeRanges>) -> bool {
    r.chunks().dom().contains(sid) && r.chunks()[sid].cgs().dom().contains(cg) && hits(r.chunks()[sid].cgs()[cg], out)
}
spec fn hits(g: ColumnGroup, out: Option<TimeRanges>) -> bool { out is None || exists|i: int| 0 <= i < out->0.ranges().len() && ov(g.tr(), #[trigger] out->0.ranges()[i]) }
spec fn distinct(v: Seq<CompactingFile>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).tsm_reader_index != (#[trigger] v[j]).tsm_reader_index }
impl CompactState {
    // blocks still to be taken
    spec fn todo(self, r: int, sid: u32, cg: u64) -> bool {
        0 <= r < self.tsm_readers.len() && wanted(self.tsm_readers@[r], sid, cg, self.out_time_ranges)
        && exists|j: int| 0 <= j < self.compacting_files.len() && (#[trigger] self.compacting_files@[j]).tsm_reader_index == r && left(self.compacting_files@[j], sid)
    }
    spec fn ok(self) -> bool {
        self.compacting_files.len() == self.tsm_readers.len() && self.tsm_reader_to_compacting_file_map.len() == self.tsm_readers.len()
        && (forall|i: int| 0 <= i < self.compacting_files.len() ==> file_ok(#[trigger] self.compacting_files@[i], self.tsm_readers@))
        && distinct(self.compacting_files@) && sorted(self.compacting_files@)
        && onto(self.compacting_files@, self.tsm_readers.len() as int) && (forall|i: int| 0 <= i < self.compacting_files.len() ==> (#[trigger] self.compacting_files@[i]).out_time_ranges == self.out_time_ranges)
        && (forall|i: int| 0 <= i < self.compacting_files.len() ==> { let f = #[trigger] self.compacting_files@[i]; match self.tsm_reader_to_compacting_file_map@[f.tsm_reader_index as int] { Some(k) => k == i, None => cur(f) is None } })
    }
    // one block taken in this round
    spec fn taken(self, r: int, sid: u32, cg: u64) -> bool { taken(self.tmp_tsm_blk_meta_iters@, self.tsm_readers@, r, sid, cg) }
}
spec fn is_blk(b: Blk, readers: Seq<TsmReader>, r: int, sid: u32, cg: u64) -> bool { b.2 == r && b.1 == cg && b.0 == readers[r].chunks()[sid] }
spec fn taken(v: Seq<Blk>, readers: Seq<TsmReader>, r: int, sid: u32, cg: u64) -> bool { exists|m: int| 0 <= m < v.len() && is_blk(#[trigger] v[m], readers, r, sid, cg) }
spec fn onto(v: Seq<CompactingFile>, n: int) -> bool { forall|r: int| 0 <= r < n ==> #[trigger] has_idx(v, r) }
spec fn has_idx(v: Seq<CompactingFile>, r: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).tsm_reader_index == r }
