// ---- rows: the value at (time, column) of a piece of data; column 0 is the time column, so a cell at column 0 says the row is there ----
#[verifier::external_body]
struct RecordBatch { x: u8 }
impl RecordBatch {
    uninterp spec fn cell(&self, t: i64, c: u32) -> Option<int>;
    #[verifier::external_body]
    fn num_rows(&self) -> usize { unimplemented!() }
}
spec fn rb_ok(b: RecordBatch) -> bool { forall|t: i64, c: u32| (#[trigger] b.cell(t, c)) is Some ==> b.cell(t, 0) is Some }
#[verifier::external_body]
struct Page { x: u8 }
uninterp spec fn pcell(p: Seq<Page>, t: i64, c: u32) -> Option<int>;
// what the bytes of a column group decode to
uninterp spec fn dec(raw: Seq<u8>, chunk: Chunk, cg: u64, t: i64, c: u32) -> Option<int>;
#[verifier::external_body]
struct Schema { x: u8 }
impl Schema {
    #[verifier::external_body]
    fn clone(&self) -> (r: Schema) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn meta(&self) -> u64 { unimplemented!() }
}
#[verifier::external_body]
struct SeriesKey { x: u8 }
impl SeriesKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: SeriesKey) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
struct Name { x: u8 }
impl Chunk {
    #[verifier::external_body]
    fn table_name(&self) -> &Name { unimplemented!() }
    #[verifier::external_body]
    fn series_key(&self) -> &SeriesKey { unimplemented!() }
}
impl TsmReader {
    // cells written to the file / cells left by its tombstones
    uninterp spec fn stored(&self, s: u32, cg: u64, t: i64, c: u32) -> Option<int>;
    uninterp spec fn live(&self, s: u32, cg: u64, t: i64, c: u32) -> Option<int>;
    #[verifier::external_body]
    fn read_record_batch(&self, series_id: u32, column_group_id: u64) -> (r: TskvResult<RecordBatch>)
        ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == self.live(series_id, column_group_id, t, c) { unimplemented!() }
    #[verifier::external_body]
    fn read_datablock_raw(&self, series_id: u32, column_group_id: u64) -> (r: TskvResult<Vec<u8>>)
        requires self.chunks().dom().contains(series_id), self.chunks()[series_id].cgs().dom().contains(column_group_id)
        ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] dec(r->Ok_0@, self.chunks()[series_id], column_group_id, t, c) == self.stored(series_id, column_group_id, t, c) { unimplemented!() }
    #[verifier::external_body]
    fn table_schema(&self, n: &Name) -> Option<Schema> { unimplemented!() }
}
#[verifier::external_body]
fn decode_pages(p: Vec<Page>, meta: u64) -> (r: TskvResult<RecordBatch>) ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == pcell(p@, t, c) { unimplemented!() }
#[verifier::external_body]
fn decode_pages_buf(raw: &Vec<u8>, chunk: Chunk, cg: u64, schema: Schema) -> (r: TskvResult<RecordBatch>) ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == dec(raw@, chunk, cg, t, c) { unimplemented!() }
// compaction/utils.rs; replayed
#[verifier::external_body]
fn filter_record_batch_by_time_range(record_batch: RecordBatch, time_range: TimeRange) -> (r: TskvResult<RecordBatch>)
    ensures r is Ok ==> forall|t: i64, c: u32| #[trigger] r->Ok_0.cell(t, c) == (if mem(time_range, t) { record_batch.cell(t, c) } else { None }) { unimplemented!() }
// a data file: rows within the statistics of their block, a cell only with its row, tombstones only take away, and no time twice within a series
spec fn file_wf(r: TsmReader) -> bool {
    shaped(r)
    && (forall|s: u32, cg: u64, t: i64, c: u32| (#[trigger] r.live(s, cg, t, c)) is Some ==> r.live(s, cg, t, 0) is Some && r.stored(s, cg, t, c) == r.live(s, cg, t, c))
    && (!r.tomb() ==> forall|s: u32, cg: u64, t: i64, c: u32| #[trigger] r.live(s, cg, t, c) == r.stored(s, cg, t, c))
    && (forall|s: u32, cg: u64, t: i64, c: u32| (#[trigger] r.stored(s, cg, t, c)) is Some ==> r.stored(s, cg, t, 0) is Some && (r.chunks().dom().contains(s) && r.chunks()[s].cgs().dom().contains(cg) ==> mem(r.chunks()[s].cgs()[cg].tr(), t)))
}
//@extract tskv/src/compaction/compact.rs enum CompactingBlock
@derive
@subst /Arc<(\w+)>/ => \1
@subst /TskvTableSchemaRef/ => Schema
@end
spec fn bcell(b: CompactingBlock, t: i64, c: u32) -> Option<int> {
    match b { CompactingBlock::Decoded { record_batch, .. } => record_batch.cell(t, c), CompactingBlock::Encoded { record_batch, .. } => pcell(record_batch@, t, c), CompactingBlock::Raw { raw, meta, column_group_id, .. } => dec(raw@, meta, column_group_id, t, c) }
}
spec fn bsid(b: CompactingBlock) -> u32 {
    match b { CompactingBlock::Decoded { series_id, .. } => series_id, CompactingBlock::Encoded { series_id, .. } => series_id, CompactingBlock::Raw { meta, .. } => meta.sid() }
}
spec fn blk_ok(b: CompactingBlock, tr: TimeRange) -> bool { forall|t: i64, c: u32| (#[trigger] bcell(b, t, c)) is Some ==> bcell(b, t, 0) is Some && mem(tr, t) }
spec fn olive(b: CompactingBlockMeta, t: i64, c: u32) -> Option<int> { b.reader.live(b.meta.sid(), b.column_group_id, t, c) }
// v is the value of the newest file (highest reader index) that has one
spec fn newest(bs: Seq<CompactingBlockMeta>, t: i64, c: u32, v: int) -> bool {
    exists|i: int| 0 <= i < bs.len() && olive(#[trigger] bs[i], t, c) == Some(v) && forall|j: int| 0 <= j < bs.len() && olive(#[trigger] bs[j], t, c) is Some ==> bs[j].reader_idx <= bs[i].reader_idx
}
// one row per time over a list of blocks of one series
spec fn apart(rs: Seq<CompactingBlock>) -> bool { forall|i: int, j: int, t: i64| 0 <= i < j < rs.len() && bsid(rs[i]) == bsid(rs[j]) && (#[trigger] bcell(rs[i], t, 0)) is Some ==> (#[trigger] bcell(rs[j], t, 0)) is None }
spec fn has(rs: Seq<CompactingBlock>, s: u32, t: i64, c: u32) -> bool { exists|i: int| 0 <= i < rs.len() && bsid(#[trigger] rs[i]) == s && bcell(rs[i], t, c) is Some }
// blocks that can be merged: of one series, of the files being compacted
spec fn mergeable(g: CompactingBlockMetaGroup, files: Seq<CompactingFile>, tr: TimeRange) -> bool {
    g.ok() && forall|i: int| 0 <= i < g.blk_metas.len() ==> {
        let b = #[trigger] g.blk_metas@[i];
        b.reader.chunks().dom().contains(g.series_id) && b.meta == b.reader.chunks()[g.series_id] && file_wf(b.reader) && b.compacting_file_index < files.len() && files[b.compacting_file_index as int].tsm_reader == b.reader && out_of(files[b.compacting_file_index as int].out_time_ranges, tr)
    }
}
spec fn out_of(o: Option<TimeRanges>, tr: TimeRange) -> bool { tr.min_ts <= tr.max_ts && match o { Some(x) => x.ranges() == seq![tr], None => tr.min_ts == i64::MIN && tr.max_ts == i64::MAX } }
spec fn prev_ok(p: Option<CompactingBlock>, g: CompactingBlockMetaGroup, tr: TimeRange) -> bool {
    p is Some ==> bsid(p->0) == g.series_id && blk_ok(p->0, tr) && forall|t: i64| (#[trigger] bcell(p->0, t, 0)) is Some ==> !mem(g.time_range, t)
}
spec fn pc(p: Option<CompactingBlock>, t: i64, c: u32) -> Option<int> { match p { Some(b) => bcell(b, t, c), None => None } }
// the result holds the rows of the previous block and, for every cell of the group in the range, the newest value - and nothing else
spec fn merged(rs: Seq<CompactingBlock>, p: Option<CompactingBlock>, g: CompactingBlockMetaGroup, tr: TimeRange) -> bool {
    apart(rs)
    && (forall|i: int| 0 <= i < rs.len() ==> bsid(#[trigger] rs[i]) == g.series_id && blk_ok(rs[i], tr))
    && (forall|i: int, t: i64, c: u32| 0 <= i < rs.len() && (#[trigger] bcell(rs[i], t, c)) is Some ==> from(p, g, tr, t, c, bcell(rs[i], t, c)->0))
    && (forall|t: i64, c: u32| (#[trigger] pc(p, t, c)) is Some ==> has(rs, g.series_id, t, c))
    && (forall|i: int, t: i64, c: u32| 0 <= i < g.blk_metas.len() && (#[trigger] olive(g.blk_metas@[i], t, c)) is Some && mem(tr, t) ==> has(rs, g.series_id, t, c))
}
spec fn from(p: Option<CompactingBlock>, g: CompactingBlockMetaGroup, tr: TimeRange, t: i64, c: u32, v: int) -> bool { pc(p, t, c) == Some(v) || (mem(tr, t) && mem(g.time_range, t) && newest(g.blk_metas@, t, c, v)) }
