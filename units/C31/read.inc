enum TskvError { Common, Other }
type TskvResult<T> = Result<T, TskvError>;
type ColumnId = u32; type ColumnFileId = u64; type LevelId = u32; type SeriesId = u32;
// what is stored at a time: the value of every column that has one; and for every time
type Row = spec_fn(int) -> Option<int>;
type Tab = spec_fn(int) -> Option<Row>;
#[derive(Clone, Copy)] struct TimeRange { min_ts: i64, max_ts: i64 }
#[verifier::external_body] struct Chunk { x: u8 }
#[verifier::external_body] struct TsmReader { x: u8 }
#[verifier::external_body] struct ColumnFile { x: u8 }
#[verifier::external_body] struct SeriesCell { x: u8 }
#[verifier::external_body] struct TimeRanges { x: u8 }
#[derive(Clone, Copy)] struct SchemaRef { x: u8 }
#[derive(Clone, Copy)] struct SchemaMeta { x: u8 }
impl Chunk {
    uninterp spec fn range(self) -> TimeRange;
    uninterp spec fn sid(self) -> SeriesId;
    #[verifier::external_body] fn time_range(&self) -> (r: &TimeRange) ensures *r == self.range() { unimplemented!() }
    #[verifier::external_body] fn series_id(&self) -> (r: SeriesId) ensures r == self.sid() { unimplemented!() }
    #[verifier::external_body] fn schema_with_metadata(&self, m: SchemaMeta) -> (r: ChunkSchema) { unimplemented!() }
}
impl ColumnFile {
    uninterp spec fn id(self) -> ColumnFileId;
    uninterp spec fn lv(self) -> LevelId;
    #[verifier::external_body] fn file_id(&self) -> (r: ColumnFileId) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] fn level(&self) -> (r: LevelId) ensures r == self.lv() { unimplemented!() }
    #[verifier::external_body] fn is_delta(&self) -> (r: bool) { unimplemented!() }
}
impl TimeRanges {
    uninterp spec fn range(self) -> TimeRange;
    #[verifier::external_body] fn max_time_range(&self) -> (r: TimeRange) ensures r == self.range() { unimplemented!() }
}
#[derive(Clone, Copy)] struct ChunkSchema { x: u8 }
impl ChunkSchema { #[verifier::external_body] fn metadata(&self) -> (r: SchemaMeta) { unimplemented!() } }
uninterp spec fn chunk_tab(c: Chunk, r: TsmReader) -> Tab;
uninterp spec fn mem_tab(s: SeriesCell, t: TimeRanges) -> Tab;
//@extract tskv/src/reader/mod.rs enum DataReference
@subst /Arc<(Chunk|TsmReader|ColumnFile|TimeRanges)>/ => \1
@subst /Arc<RwLock<SeriesData>>/ => SeriesCell
@end
spec fn dtab(d: DataReference) -> Tab { match d { DataReference::Chunk(c, r, f) => chunk_tab(c, r), DataReference::Memcache(s, t, i) => mem_tab(s, t) } }
spec fn drange(d: DataReference) -> TimeRange { match d { DataReference::Chunk(c, r, f) => c.range(), DataReference::Memcache(s, t, i) => t.range() } }
// how new the data is: level files hold compacted data, older than the delta files and memcaches; the higher the level the older
spec fn dlevel(d: DataReference) -> int { match d { DataReference::Chunk(c, r, f) => f.lv() as int, DataReference::Memcache(s, t, i) => 0 } }
spec fn dfile(d: DataReference) -> int { match d { DataReference::Chunk(c, r, f) => f.id() as int, DataReference::Memcache(s, t, i) => i as int } }
spec fn older(a: DataReference, b: DataReference) -> bool { dlevel(a) > dlevel(b) || (dlevel(a) == dlevel(b) && dfile(a) < dfile(b)) }
// its rows lie in its time range
spec fn dok(d: DataReference) -> bool { drange(d).min_ts <= drange(d).max_ts && forall|t: int| #[trigger] dtab(d)(t) is Some ==> drange(d).min_ts <= t <= drange(d).max_ts }
fn then_with(a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a is Equal { b } else { a }) { match a { Ordering::Equal => b, _ => a } }
#[verifier::external_body] fn cmp_u32(a: &u32, b: &u32) -> (r: Ordering) ensures r is Less <==> *a < *b, r is Greater <==> *a > *b, r is Equal <==> *a == *b { unimplemented!() }
#[verifier::external_body] fn cmp_u64(a: &u64, b: &u64) -> (r: Ordering) ensures r is Less <==> *a < *b, r is Greater <==> *a > *b, r is Equal <==> *a == *b { unimplemented!() }

#[verifier::external_body] struct ColumnGroup { x: u8 }
#[derive(Clone, Copy)] struct Expr { x: u8 }
#[derive(Clone, Copy)] struct Predicate { x: u8 }
#[derive(Clone, Copy)] struct MetricsSet { x: u8 }
#[derive(Clone, Copy)] struct SeriesKey { x: u8 }
#[derive(Clone, Copy)] struct TableSchema { x: u8 }
#[derive(Clone, Copy)] struct Aggregate { x: u8 }
// the filter of the query on a row, missing columns being null; and an expression made from it
uninterp spec fn pass(p: Predicate, t: int, r: Row) -> bool;
uninterp spec fn epass(e: Expr, t: int, r: Row) -> bool;
uninterp spec fn cg_tab(g: ColumnGroup) -> Tab;
impl Predicate { #[verifier::external_body] fn limit(&self) -> Option<usize> { unimplemented!() } }
// proved of the real function in expr.rs
#[verifier::external_body] fn reassign_predicate_columns(p: Predicate, s: ChunkSchema) -> (r: TskvResult<Option<Expr>>)
    ensures r is Ok && r->Ok_0 is Some ==> forall|t: int, w: Row| #[trigger] pass(p, t, w) ==> epass(r->Ok_0->0, t, w) { unimplemented!() }
struct Stats<'a> { g: &'a Vec<ColumnGroup> }
#[verifier::external_body] struct PruningPredicate { x: u8 }
impl PruningPredicate {
    uninterp spec fn e(self) -> Expr;
    #[verifier::external_body] fn try_new(e: Expr, s: ChunkSchema) -> (r: TskvResult<PruningPredicate>) ensures r is Ok ==> r->Ok_0.e() == e { unimplemented!() }
    #[verifier::external_body] fn prune(&self, s: &Stats) -> (r: TskvResult<Vec<bool>>) ensures r is Ok ==> r->Ok_0.len() == s.g.len() && forall|i: int, t: int| 0 <= i < s.g.len() && !r->Ok_0@[i] && (#[trigger] cg_tab(s.g@[i])(t)) is Some ==> !epass(self.e(), t, cg_tab(s.g@[i])(t)->0) { unimplemented!() }
}
spec fn picked(v: Seq<ColumnGroup>, b: Seq<bool>) -> Seq<ColumnGroup> decreases v.len() { if v.len() == 0 { Seq::empty() } else if b[v.len() - 1] { picked(v.drop_last(), b).push(v.last()) } else { picked(v.drop_last(), b) } }
#[verifier::external_body] fn pick_true(b: Vec<bool>, v: Vec<ColumnGroup>) -> (r: Vec<ColumnGroup>) requires b.len() == v.len() ensures r@ == picked(v@, b@) { unimplemented!() }
// some of v, in their order, and those left out have no row that passes
spec fn kept_of(v: Seq<ColumnGroup>, r: Seq<ColumnGroup>, p: Option<Predicate>) -> bool {
    exists|b: Seq<bool>| b.len() == v.len() && r == #[trigger] picked(v, b) && forall|i: int, t: int| 0 <= i < v.len() && !b[i] && (#[trigger] cg_tab(v[i])(t)) is Some ==> p is Some && !pass(p->0, t, cg_tab(v[i])(t)->0)
}
proof fn lemma_picked_all(v: Seq<ColumnGroup>, b: Seq<bool>) requires b.len() >= v.len(), forall|i: int| 0 <= i < v.len() ==> b[i] ensures picked(v, b) == v decreases v.len() { if v.len() > 0 { lemma_picked_all(v.drop_last(), b); } }
proof fn lemma_picked_in(v: Seq<ColumnGroup>, b: Seq<bool>, j: int) -> (i: int) requires b.len() >= v.len(), 0 <= j < picked(v, b).len() ensures 0 <= i < v.len(), b[i], picked(v, b)[j] == v[i], j <= i decreases v.len()
{ if v.len() == 0 { 0 } else if b[v.len() - 1] && j == picked(v.drop_last(), b).len() { lemma_picked_len(v.drop_last(), b); v.len() - 1 } else { let i = lemma_picked_in(v.drop_last(), b, j); i } }
proof fn lemma_picked_len(v: Seq<ColumnGroup>, b: Seq<bool>) requires b.len() >= v.len() ensures picked(v, b).len() <= v.len() decreases v.len() { if v.len() > 0 { lemma_picked_len(v.drop_last(), b); } }
proof fn lemma_picked_ord(v: Seq<ColumnGroup>, b: Seq<bool>, x: int, y: int) -> (ij: (int, int)) requires b.len() >= v.len(), 0 <= x < y < picked(v, b).len() ensures 0 <= ij.0 < ij.1 < v.len(), picked(v, b)[x] == v[ij.0], picked(v, b)[y] == v[ij.1], b[ij.0], b[ij.1] decreases v.len()
{ if b[v.len() - 1] && y == picked(v.drop_last(), b).len() { let i = lemma_picked_in(v.drop_last(), b, x); (i, v.len() - 1) } else { lemma_picked_ord(v.drop_last(), b, x, y) } }
proof fn lemma_picked_has(v: Seq<ColumnGroup>, b: Seq<bool>, i: int) -> (j: int) requires b.len() >= v.len(), 0 <= i < v.len(), b[i] ensures 0 <= j < picked(v, b).len(), picked(v, b)[j] == v[i] decreases v.len()
{ if i == v.len() - 1 { picked(v, b).len() - 1 } else { let j = lemma_picked_has(v.drop_last(), b, i); j } }
// the column groups of a chunk: one after the other in time, together all its rows
spec fn cgs_ok(v: Seq<ColumnGroup>, tab: Tab) -> bool {
    &&& forall|i: int, j: int, s: int, t: int| 0 <= i < j < v.len() && (#[trigger] cg_tab(v[i])(s)) is Some && (#[trigger] cg_tab(v[j])(t)) is Some ==> s < t
    &&& forall|i: int, t: int| 0 <= i < v.len() && (#[trigger] cg_tab(v[i])(t)) is Some ==> tab(t) == cg_tab(v[i])(t)
    &&& forall|t: int| (#[trigger] tab(t)) is Some ==> exists|i: int| 0 <= i < v.len() && (#[trigger] cg_tab(v[i])(t)) is Some
}
#[verifier::external_body] fn groups_of(c: &Chunk, r: &TsmReader) -> (v: Vec<ColumnGroup>) ensures cgs_ok(v@, chunk_tab(*c, *r)) { unimplemented!() }
// a reader: the rows it gives, and which columns of them
#[verifier::external_body] struct BatchReaderRef { x: u8 }
spec fn sel(p: Seq<ColumnId>, c: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == c }
impl BatchReaderRef {
    uninterp spec fn tab(self) -> Tab;
    uninterp spec fn col(self, c: int) -> bool;
}
spec fn cols_are(r: BatchReaderRef, p: Seq<ColumnId>) -> bool { forall|c: int| sel(p, c) ==> #[trigger] r.col(c) }
struct ColumnGroupReader { x: u8 }
impl ColumnGroupReader { #[verifier::external_body] fn try_new(r: &TsmReader, sid: SeriesId, g: ColumnGroup, projection: &[ColumnId], m: SchemaMeta, batch_size: usize, s: MetricsSet) -> (o: TskvResult<BatchReaderRef>) ensures o is Ok ==> o->Ok_0.tab() == cg_tab(g) && cols_are(o->Ok_0, projection@) { unimplemented!() } }
spec fn disj(v: Seq<BatchReaderRef>) -> bool { forall|i: int, j: int, s: int, t: int| 0 <= i < j < v.len() && (#[trigger] v[i].tab()(s)) is Some && (#[trigger] v[j].tab()(t)) is Some ==> s < t }
spec fn union_of(v: Seq<BatchReaderRef>, tab: Tab) -> bool {
    &&& forall|i: int, t: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some ==> tab(t) == v[i].tab()(t)
    &&& forall|t: int| (#[trigger] tab(t)) is Some ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some
}
spec fn all_cols(v: Seq<BatchReaderRef>, r: BatchReaderRef) -> bool { forall|c: int| (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).col(c)) ==> #[trigger] r.col(c) }
struct CombinedBatchReader { x: u8 }
// the rows come in the order of time only if the readers are given in it
impl CombinedBatchReader { #[verifier::external_body] fn new(v: Vec<BatchReaderRef>) -> (r: BatchReaderRef) ensures disj(v@) ==> union_of(v@, r.tab()), all_cols(v@, r) { unimplemented!() } }
struct MemCacheReader { x: u8 }
impl MemCacheReader { #[verifier::external_body] fn try_new(s: SeriesCell, t: TimeRanges, batch_size: usize, projection: &[ColumnId], m: SchemaMeta) -> (o: TskvResult<Option<BatchReaderRef>>) ensures o is Ok ==> (match o->Ok_0 { Some(r) => r.tab() == mem_tab(s, t) && cols_are(r, projection@), None => forall|x: int| (#[trigger] mem_tab(s, t)(x)) is None }) { unimplemented!() } }
// rows of src, every row that passes among them
spec fn filtered(p: Option<Predicate>, src: Tab, dst: Tab) -> bool {
    &&& forall|t: int| (#[trigger] dst(t)) is Some ==> src(t) == dst(t)
    &&& forall|t: int| (#[trigger] src(t)) is Some && (p is Some ==> pass(p->0, t, src(t)->0)) ==> dst(t) == src(t)
}
struct DataFilter { x: u8 }
impl DataFilter { #[verifier::external_body] fn new(p: Predicate, r: BatchReaderRef, m: MetricsSet) -> (o: BatchReaderRef) ensures filtered(Some(p), r.tab(), o.tab()), forall|c: int| r.col(c) ==> #[trigger] o.col(c) { unimplemented!() } }
struct PushDownAggregateReader { x: u8 }
impl PushDownAggregateReader { #[verifier::external_body] fn try_new(s: SchemaRef, a: Aggregate, c: DataReference) -> TskvResult<BatchReaderRef> { unimplemented!() } }
struct SchemaAlignmenter { x: u8 }
impl SchemaAlignmenter { #[verifier::external_body] fn new(r: BatchReaderRef, s: SchemaRef, m: MetricsSet) -> (o: BatchReaderRef) ensures o.tab() == r.tab(), forall|c: int| r.col(c) ==> #[trigger] o.col(c) { unimplemented!() } }
struct SeriesReader { x: u8 }
impl SeriesReader { #[verifier::external_body] fn new(k: SeriesKey, r: BatchReaderRef, s: TableSchema, m: MetricsSet, limit: Option<usize>) -> (o: BatchReaderRef) ensures o.tab() == r.tab(), forall|c: int| r.col(c) ==> #[trigger] o.col(c) { unimplemented!() } }
// the row at t of the readers merged: of every column the value of the last that has one
spec fn last_of(v: Seq<BatchReaderRef>, t: int, c: int, x: Option<int>) -> bool {
    &&& x is None ==> forall|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some ==> (v[i].tab()(t)->0)(c) is None
    &&& x is Some ==> exists|i: int| #[trigger] last_at(v, t, c, x, i)
}
spec fn last_at(v: Seq<BatchReaderRef>, t: int, c: int, x: Option<int>, i: int) -> bool { 0 <= i < v.len() && v[i].tab()(t) is Some && (v[i].tab()(t)->0)(c) == x && forall|j: int| i < j < v.len() && (#[trigger] v[j].tab()(t)) is Some ==> (v[j].tab()(t)->0)(c) is None }
spec fn merge_of(v: Seq<BatchReaderRef>, tab: Tab) -> bool {
    &&& forall|t: int| (#[trigger] tab(t)) is Some <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i].tab()(t)) is Some
    &&& forall|t: int, c: int| tab(t) is Some ==> last_of(v, t, c, #[trigger] (tab(t)->0)(c))
}
struct DataMerger { x: u8 }
uninterp spec fn time_col() -> int;
// proved in merge.rs and cursors.rs; the batches must have the time
impl DataMerger { #[verifier::external_body] fn new(s: SchemaRef, v: Vec<BatchReaderRef>, batch_size: usize, m: MetricsSet) -> (r: BatchReaderRef)
    ensures (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v@[i]).col(time_col())) ==> merge_of(v@, r.tab()) { unimplemented!() } }
struct Projection { fields: Vec<ColumnId>, fields_with_time: Vec<ColumnId> }
impl Projection {
    spec fn ok(self) -> bool { sel(self.fields_with_time@, time_col()) && forall|c: int| sel(self.fields@, c) ==> #[trigger] sel(self.fields_with_time@, c) }
    #[verifier::external_body] fn fields(&self) -> (r: &[ColumnId]) ensures r@ == self.fields@ { unimplemented!() }
    #[verifier::external_body] fn fields_with_time(&self) -> (r: &[ColumnId]) ensures r@ == self.fields_with_time@ { unimplemented!() }
}
struct Option_ { schema_meta: SchemaMeta, aggregates: Option<Vec<Aggregate>> }
struct SeriesGroupBatchReaderFactory { query_option: Option_, column_group_reader_metrics_set: MetricsSet, filter_reader_metrics_set: MetricsSet, merge_reader_metrics_set: MetricsSet, schema_align_reader_metrics_set: MetricsSet, series_reader_metrics_set: MetricsSet }
impl SeriesGroupBatchReaderFactory { #[verifier::external_body] fn schema(&self) -> SchemaRef { unimplemented!() } }
#[verifier::external_body] fn clone_ref(d: &DataReference) -> (r: DataReference) ensures r == *d { unimplemented!() }
#[verifier::external_body] fn clone_group(g: &ColumnGroup) -> (r: ColumnGroup) ensures r == *g { unimplemented!() }
spec fn same_set(a: Seq<DataReference>, b: Seq<DataReference>) -> bool { forall|x: DataReference| #[trigger] a.contains(x) <==> b.contains(x) }
#[verifier::external_body] fn sort_by_age(v: &mut Vec<DataReference>) ensures same_set(old(v)@, final(v)@), final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i < j < final(v).len() ==> !older(#[trigger] final(v)@[j], #[trigger] final(v)@[i]) { unimplemented!() }
#[verifier::external_body] fn sort_by_time(v: &mut Vec<DataReference>) ensures same_set(old(v)@, final(v)@), final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i < j < final(v).len() ==> drange(#[trigger] final(v)@[i]).min_ts <= drange(#[trigger] final(v)@[j]).min_ts { unimplemented!() }
fn imax(a: i64, b: i64) -> (r: i64) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
