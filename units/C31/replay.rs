//@prelude
mod rd {
use std::any::Any; use std::cmp::{self, Ordering}; use std::collections::{BTreeMap, HashMap, VecDeque}; use std::fmt::Debug; use std::marker::PhantomData; use std::sync::Arc; use std::task::{ready, Context, Poll};
macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
macro_rules! debug { ($($t:tt)*) => { quiet!($($t)*) }; }
macro_rules! error { ($($t:tt)*) => { quiet!($($t)*) }; }
mod futures { pub use std::task::ready; }
pub type ColumnId = u32; pub type ColumnFileId = u64; pub type LevelId = u32; pub type SeriesId = u32;
// ---- stand-ins: errors ----
#[derive(Debug)] pub struct TskvError(String); pub type TskvResult<T, E = TskvError> = Result<T, E>;
#[derive(Debug)] pub enum ArrowError { SchemaError(String), Other(String) } #[derive(Debug)] pub enum DataFusionError { ArrowError(ArrowError) }
impl From<ArrowError> for DataFusionError { fn from(e: ArrowError) -> Self { DataFusionError::ArrowError(e) } }
impl From<DataFusionError> for TskvError { fn from(e: DataFusionError) -> Self { TskvError(format!("{e:?}")) } }
pub struct CommonSnafu<A> { reason: A } impl<A: Into<String>> CommonSnafu<A> { fn build(self) -> TskvError { TskvError(self.reason.into()) } }
pub struct ArrowSnafu; trait Ctx<T> { fn context(self, c: ArrowSnafu) -> TskvResult<T>; } impl<T> Ctx<T> for Result<T, ArrowError> { fn context(self, _: ArrowSnafu) -> TskvResult<T> { self.map_err(|e| TskvError(format!("{e:?}"))) } }
// ---- stand-ins: the part of arrow and datafusion this code uses ----
#[derive(Debug, Clone, PartialEq)] pub struct Schema { pub fields: Vec<String> } pub type SchemaRef = Arc<Schema>;
impl Schema { pub fn fields(&self) -> &Vec<String> { &self.fields } pub fn column_with_name(&self, n: &str) -> Option<(usize, &String)> { self.fields.iter().enumerate().find(|f| f.1 == n) } pub fn index_of(&self, n: &str) -> Result<usize, ArrowError> { self.fields.iter().position(|f| f == n).ok_or(ArrowError::SchemaError(n.into())) } pub fn field_with_name(&self, n: &str) -> Result<&String, ArrowError> { self.index_of(n).map(|i| &self.fields[i]) } pub fn metadata(&self) -> &() { &() } }
pub trait Array: Debug { fn as_any(&self) -> &dyn Any; fn is_valid(&self, i: usize) -> bool; fn is_null(&self, i: usize) -> bool { !self.is_valid(i) } fn len(&self) -> usize; fn at(&self, i: usize) -> Option<i64>; } pub type ArrayRef = Arc<dyn Array>;
#[derive(Debug)] pub struct Times(pub Vec<i64>); #[derive(Debug)] pub struct Vals(pub Vec<Option<i64>>);
impl Array for Times { fn as_any(&self) -> &dyn Any { self } fn is_valid(&self, _: usize) -> bool { true } fn len(&self) -> usize { self.0.len() } fn at(&self, i: usize) -> Option<i64> { Some(self.0[i]) } }
impl Array for Vals { fn as_any(&self) -> &dyn Any { self } fn is_valid(&self, i: usize) -> bool { self.0[i].is_some() } fn len(&self) -> usize { self.0.len() } fn at(&self, i: usize) -> Option<i64> { self.0[i] } }
fn interleave(a: &[&dyn Array], ix: &[(usize, usize)]) -> Result<ArrayRef, ArrowError> { let v: Vec<Option<i64>> = ix.iter().map(|(b, r)| a[*b].at(*r)).collect(); Ok(if a.iter().all(|x| x.as_any().is::<Times>()) { Arc::new(Times(v.into_iter().map(|x| x.unwrap()).collect())) } else { Arc::new(Vals(v)) }) }
#[derive(Debug, Clone)] pub struct RecordBatch { pub s: SchemaRef, pub cols: Vec<ArrayRef> }
impl RecordBatch { pub fn num_rows(&self) -> usize { self.cols[0].len() } pub fn column(&self, i: usize) -> &ArrayRef { &self.cols[i] } pub fn schema(&self) -> SchemaRef { self.s.clone() } pub fn try_new(s: SchemaRef, cols: Vec<ArrayRef>) -> Result<RecordBatch, ArrowError> { if s.fields.len() != cols.len() || cols.iter().any(|c| c.len() != cols[0].len()) { return Err(ArrowError::Other("shape".into())); } Ok(RecordBatch { s, cols }) } }
pub trait FieldValues { type Value: ?Sized; fn len(&self) -> usize; fn compare(a: &Self::Value, b: &Self::Value) -> Ordering; fn value(&self, i: usize) -> &Self::Value; }
pub trait FieldArray: Array + 'static { type Values: FieldValues; fn values(&self) -> Self::Values; }
pub struct TimeValues(Vec<i64>); impl FieldValues for TimeValues { type Value = i64; fn len(&self) -> usize { self.0.len() } fn compare(a: &i64, b: &i64) -> Ordering { a.cmp(b) } fn value(&self, i: usize) -> &i64 { &self.0[i] } }
impl FieldArray for Times { type Values = TimeValues; fn values(&self) -> TimeValues { TimeValues(self.0.clone()) } }
pub trait Cursor { fn is_finished(&self) -> bool; fn advance(&mut self) -> usize; }
#[derive(Clone, Debug)] pub struct MetricsSet; pub type ExecutionPlanMetricsSet = MetricsSet; pub struct SortMergeMetrics; impl SortMergeMetrics { fn new(_: &MetricsSet) -> Self { Self } }
pub struct Source { pub schema: SchemaRef, pub items: VecDeque<Poll<RecordBatch>>, pub over: bool } pub type SendableSchemableTskvRecordBatchStream = Source;
impl Source { fn schema(&self) -> SchemaRef { self.schema.clone() } fn fuse(self) -> Self { self } fn poll_next_unpin(&mut self, _cx: &mut Context<'_>) -> Poll<Option<TskvResult<RecordBatch>>> { match self.items.pop_front() { None => Poll::Ready(None), Some(Poll::Pending) => Poll::Pending, Some(Poll::Ready(b)) => Poll::Ready(Some(Ok(b))) } } }
struct FusedStreams(Vec<Source>);
pub trait PartitionedStream { type Output; fn partitions(&self) -> usize; fn poll_next(&mut self, cx: &mut Context<'_>, stream_idx: usize) -> Poll<Option<Self::Output>>; }
//@extract tskv/src/reader/partitioned_stream.rs FusedStreams::poll_next
@header impl FusedStreams
@end
//@extract tskv/src/reader/partitioned_stream.rs struct ColumnCursorStream
@end
//@extract tskv/src/reader/partitioned_stream.rs ColumnCursorStream::new
@header impl<T: FieldArray> ColumnCursorStream<T>
@end
//@extract tskv/src/reader/partitioned_stream.rs ColumnCursorStream::convert_batch
@header impl<T: FieldArray> ColumnCursorStream<T>
@end
//@extract tskv/src/reader/partitioned_stream.rs impl PartitionedStream for ColumnCursorStream
@end
//@extract tskv/src/reader/sort_merge.rs struct ColumnCursor
@end
//@extract tskv/src/reader/sort_merge.rs ColumnCursor::new
@header impl<T: FieldValues> ColumnCursor<T>
@end
//@extract tskv/src/reader/sort_merge.rs impl PartialEq for ColumnCursor
@end
impl<T: FieldValues> Eq for ColumnCursor<T> {}
//@extract tskv/src/reader/sort_merge.rs impl PartialOrd for ColumnCursor
@end
//@extract tskv/src/reader/sort_merge.rs impl Ord for ColumnCursor
@end
//@extract tskv/src/reader/sort_merge.rs impl Cursor for ColumnCursor
@end
//@extract tskv/src/reader/sort_merge.rs struct SortPreservingMergeStream
@end
//@extract tskv/src/reader/sort_merge.rs impl SortPreservingMergeStream
@end
//@extract tskv/src/reader/batch_builder.rs struct BatchCursor
@derive Debug, Copy, Clone, Default
@end
//@extract tskv/src/reader/batch_builder.rs struct BatchMergeBuilder
@end
//@extract tskv/src/reader/batch_builder.rs impl BatchMergeBuilder
@end
// ---- stand-ins: filter expressions ----
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Operator { And, Or, Gt, Eq }
pub trait PhysicalExpr: Debug { fn as_any(&self) -> &dyn Any; fn kids(&self) -> Vec<Arc<dyn PhysicalExpr>>; fn with(&self, k: Vec<Arc<dyn PhysicalExpr>>) -> Arc<dyn PhysicalExpr>; fn num(&self, r: &[Option<i64>]) -> Option<i64>; }
#[derive(Debug)] pub struct Column { n: String, i: usize } impl Column { pub fn new(n: &str, i: usize) -> Self { Column { n: n.into(), i } } pub fn name(&self) -> &str { &self.n } pub fn index(&self) -> usize { self.i } }
#[derive(Debug)] pub struct Lit(pub i64); #[derive(Debug)] pub struct Not(pub Arc<dyn PhysicalExpr>); #[derive(Debug)] pub struct IsNull(pub Arc<dyn PhysicalExpr>);
#[derive(Debug)] pub struct BinaryExpr { l: Arc<dyn PhysicalExpr>, o: Operator, r: Arc<dyn PhysicalExpr> } impl BinaryExpr { pub fn new(l: Arc<dyn PhysicalExpr>, o: Operator, r: Arc<dyn PhysicalExpr>) -> Self { BinaryExpr { l, o, r } } pub fn left(&self) -> &Arc<dyn PhysicalExpr> { &self.l } pub fn right(&self) -> &Arc<dyn PhysicalExpr> { &self.r } pub fn op(&self) -> &Operator { &self.o } }
impl PhysicalExpr for Column { fn as_any(&self) -> &dyn Any { self } fn kids(&self) -> Vec<Arc<dyn PhysicalExpr>> { vec![] } fn with(&self, _: Vec<Arc<dyn PhysicalExpr>>) -> Arc<dyn PhysicalExpr> { Arc::new(Column { n: self.n.clone(), i: self.i }) } fn num(&self, r: &[Option<i64>]) -> Option<i64> { r[self.i] } }
impl PhysicalExpr for Lit { fn as_any(&self) -> &dyn Any { self } fn kids(&self) -> Vec<Arc<dyn PhysicalExpr>> { vec![] } fn with(&self, _: Vec<Arc<dyn PhysicalExpr>>) -> Arc<dyn PhysicalExpr> { Arc::new(Lit(self.0)) } fn num(&self, _: &[Option<i64>]) -> Option<i64> { Some(self.0) } }
impl PhysicalExpr for Not { fn as_any(&self) -> &dyn Any { self } fn kids(&self) -> Vec<Arc<dyn PhysicalExpr>> { vec![self.0.clone()] } fn with(&self, k: Vec<Arc<dyn PhysicalExpr>>) -> Arc<dyn PhysicalExpr> { Arc::new(Not(k[0].clone())) } fn num(&self, r: &[Option<i64>]) -> Option<i64> { self.0.num(r).map(|x| (x == 0) as i64) } }
impl PhysicalExpr for IsNull { fn as_any(&self) -> &dyn Any { self } fn kids(&self) -> Vec<Arc<dyn PhysicalExpr>> { vec![self.0.clone()] } fn with(&self, k: Vec<Arc<dyn PhysicalExpr>>) -> Arc<dyn PhysicalExpr> { Arc::new(IsNull(k[0].clone())) } fn num(&self, r: &[Option<i64>]) -> Option<i64> { Some(self.0.num(r).is_none() as i64) } }
impl PhysicalExpr for BinaryExpr { fn as_any(&self) -> &dyn Any { self } fn kids(&self) -> Vec<Arc<dyn PhysicalExpr>> { vec![self.l.clone(), self.r.clone()] } fn with(&self, k: Vec<Arc<dyn PhysicalExpr>>) -> Arc<dyn PhysicalExpr> { Arc::new(BinaryExpr::new(k[0].clone(), self.o, k[1].clone())) }
    fn num(&self, r: &[Option<i64>]) -> Option<i64> { let (a, b) = (self.l.num(r), self.r.num(r)); match self.o { Operator::And => if a == Some(0) || b == Some(0) { Some(0) } else if a.is_none() || b.is_none() { None } else { Some(1) }, Operator::Or => if a.unwrap_or(0) != 0 || b.unwrap_or(0) != 0 { Some(1) } else if a.is_none() || b.is_none() { None } else { Some(0) }, Operator::Gt => Some((a? > b?) as i64), Operator::Eq => Some((a? == b?) as i64) } } }
pub fn truth(e: &Arc<dyn PhysicalExpr>, r: &[Option<i64>]) -> bool { e.num(r).unwrap_or(0) != 0 }
pub enum VisitRecursion { Continue, Skip, Stop }
mod datafusion { pub mod common { pub type Result<T> = std::result::Result<T, super::super::DataFusionError>; } }
pub trait TreeNodeVisitor { type N; fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion, DataFusionError>; }
pub trait TreeNodeRewriter { type N; fn mutate(&mut self, e: Arc<dyn PhysicalExpr>) -> Result<Arc<dyn PhysicalExpr>, DataFusionError>; }
pub trait TreeNode { fn visit<V: TreeNodeVisitor<N = Arc<dyn PhysicalExpr>>>(&self, v: &mut V) -> Result<VisitRecursion, DataFusionError>; fn rewrite<R: TreeNodeRewriter>(self, r: &mut R) -> Result<Arc<dyn PhysicalExpr>, DataFusionError>; }
impl TreeNode for Arc<dyn PhysicalExpr> {
    fn visit<V: TreeNodeVisitor<N = Arc<dyn PhysicalExpr>>>(&self, v: &mut V) -> Result<VisitRecursion, DataFusionError> { match v.pre_visit(self)? { VisitRecursion::Continue => {} VisitRecursion::Skip => return Ok(VisitRecursion::Continue), VisitRecursion::Stop => return Ok(VisitRecursion::Stop) } for k in self.kids() { if let VisitRecursion::Stop = k.visit(v)? { return Ok(VisitRecursion::Stop); } } Ok(VisitRecursion::Continue) }
    fn rewrite<R: TreeNodeRewriter>(self, r: &mut R) -> Result<Arc<dyn PhysicalExpr>, DataFusionError> { let k = self.kids().into_iter().map(|x| x.rewrite(r)).collect::<Result<Vec<_>, _>>()?; r.mutate(self.with(k)) }
}
#[derive(Debug)] pub struct Predicate { pub e: Option<Arc<dyn PhysicalExpr>>, pub s: SchemaRef } impl Predicate { pub fn schema(&self) -> SchemaRef { self.s.clone() } pub fn expr(&self) -> Option<Arc<dyn PhysicalExpr>> { self.e.clone() } pub fn limit(&self) -> Option<usize> { None } }
//@extract tskv/src/reader/utils.rs struct PredicateColumnsReassigner
@end
//@extract tskv/src/reader/utils.rs struct ColumnVistor
@end
//@extract tskv/src/reader/utils.rs impl TreeNodeVisitor for ColumnVistor
@end
//@extract tskv/src/reader/utils.rs impl TreeNodeRewriter for PredicateColumnsReassigner
@end
//@extract tskv/src/reader/utils.rs evaluable_part
@end
//@extract tskv/src/reader/utils.rs reassign_predicate_columns
@end
// ---- stand-ins: data files and caches in memory; readers that give their batches ----
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct TimeRange { pub min_ts: i64, pub max_ts: i64 }
#[derive(Debug, Clone)] pub struct ColumnGroup(pub RecordBatch);
#[derive(Debug)] pub struct Chunk { pub cgs: BTreeMap<u64, Arc<ColumnGroup>>, pub tr: TimeRange, pub s: SchemaRef }
impl Chunk { pub fn time_range(&self) -> &TimeRange { &self.tr } pub fn series_id(&self) -> SeriesId { 1 } pub fn column_group(&self) -> &BTreeMap<u64, Arc<ColumnGroup>> { &self.cgs } pub fn schema_with_metadata(&self, _: ()) -> SchemaRef { self.s.clone() } }
pub struct TsmReader; #[derive(Debug)] pub struct ColumnFile { pub id: u64, pub level: LevelId } impl ColumnFile { pub fn file_id(&self) -> u64 { self.id } pub fn level(&self) -> LevelId { self.level } pub fn is_delta(&self) -> bool { self.level == 0 } }
pub struct RwLock<T>(pub T); pub struct SeriesData(pub RecordBatch); pub struct TimeRanges(pub TimeRange); impl TimeRanges { pub fn max_time_range(&self) -> TimeRange { self.0 } }
pub trait TimeRangeProvider { fn time_range(&self) -> TimeRange; }
//@extract tskv/src/reader/mod.rs enum DataReference
@derive Clone
@end
impl Eq for DataReference {}
//@extract tskv/src/reader/mod.rs impl PartialEq<Self> for DataReference
@end
//@extract tskv/src/reader/mod.rs impl PartialOrd<Self> for DataReference
@end
//@extract tskv/src/reader/mod.rs impl Ord for DataReference
@end
//@extract tskv/src/reader/mod.rs impl DataReference
@end
//@extract tskv/src/reader/mod.rs impl TimeRangeProvider for DataReference
@end
//@extract tskv/src/reader/utils.rs struct OverlappingSegments
@end
//@extract tskv/src/reader/utils.rs OverlappingSegments::segments
@header impl<T: TimeRangeProvider> OverlappingSegments<T>
@end
//@extract tskv/src/reader/utils.rs OverlappingSegments::sort
@header impl<T: PartialOrd + Ord + TimeRangeProvider> OverlappingSegments<T>
@end
impl<T: TimeRangeProvider> Debug for OverlappingSegments<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "segments") } }
//@extract tskv/src/reader/utils.rs group_overlapping_segments
@end
pub type BatchReaderRef = Arc<dyn BatchReader>;
pub trait BatchReader { fn schema(&self) -> SchemaRef; fn batches(&self) -> TskvResult<Vec<RecordBatch>>; }
pub fn project(b: &RecordBatch, p: &[ColumnId]) -> RecordBatch { let ix: Vec<usize> = (0..b.s.fields.len()).filter(|i| p.iter().any(|c| col_name(*c) == b.s.fields[*i])).collect(); RecordBatch { s: Arc::new(Schema { fields: ix.iter().map(|i| b.s.fields[*i].clone()).collect() }), cols: ix.iter().map(|i| b.cols[*i].clone()).collect() } }
pub fn col_name(c: ColumnId) -> String { if c == 0 { "time".into() } else { format!("f{c}") } }
pub fn keep(b: &RecordBatch, f: &dyn Fn(usize) -> bool) -> RecordBatch { let ix: Vec<(usize, usize)> = (0..b.num_rows()).filter(|i| f(*i)).map(|i| (0, i)).collect(); RecordBatch { s: b.s.clone(), cols: b.cols.iter().map(|c| interleave(&[c.as_ref()], &ix).unwrap()).collect() } }
pub fn row(b: &RecordBatch, i: usize) -> Vec<Option<i64>> { b.cols.iter().map(|c| c.at(i)).collect() }
pub struct ColumnGroupReader(RecordBatch); impl ColumnGroupReader { fn try_new(_: Arc<TsmReader>, _: SeriesId, g: Arc<ColumnGroup>, p: &[ColumnId], _: (), _: usize, _: Arc<MetricsSet>) -> TskvResult<Self> { Ok(Self(project(&g.0, p))) } }
impl BatchReader for ColumnGroupReader { fn schema(&self) -> SchemaRef { self.0.s.clone() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { Ok(vec![self.0.clone()]) } }
pub struct MemCacheReader(RecordBatch); impl MemCacheReader { fn try_new(s: Arc<RwLock<SeriesData>>, _: Arc<TimeRanges>, _: usize, p: &[ColumnId], _: ()) -> TskvResult<Option<Arc<Self>>> { let b = &s.0.0; if b.num_rows() == 0 { return Ok(None); } Ok(Some(Arc::new(Self(project(b, p))))) } }
impl BatchReader for MemCacheReader { fn schema(&self) -> SchemaRef { self.0.s.clone() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { let n = self.0.num_rows(); let h = n / 2; Ok(vec![keep(&self.0, &|i| i < h), keep(&self.0, &|i| i >= h)]) } }
pub struct CombinedBatchReader(Vec<BatchReaderRef>); impl CombinedBatchReader { fn new(v: Vec<BatchReaderRef>) -> Self { Self(v) } }
impl BatchReader for CombinedBatchReader { fn schema(&self) -> SchemaRef { self.0.first().map(|x| x.schema()).unwrap_or(Arc::new(Schema { fields: vec![] })) } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { let mut o = vec![]; for x in &self.0 { o.extend(x.batches()?); } Ok(o) } }
pub struct DataFilter(Arc<Predicate>, BatchReaderRef); impl DataFilter { fn new(p: Arc<Predicate>, r: BatchReaderRef, _: Arc<MetricsSet>) -> Self { Self(p, r) } }
impl BatchReader for DataFilter { fn schema(&self) -> SchemaRef { self.1.schema() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { let e = reassign_predicate_columns(self.0.clone(), self.schema())?; Ok(self.1.batches()?.into_iter().map(|b| match &e { None => b, Some(e) => keep(&b, &|i| truth(e, &row(&b, i))) }).filter(|b| b.num_rows() > 0).collect()) } }
pub struct PushDownAggregateReader; #[derive(Clone)] pub struct PushedAggregateFunction; impl PushDownAggregateReader { fn try_new(_: SchemaRef, _: PushedAggregateFunction, _: DataReference) -> TskvResult<Self> { Ok(Self) } } impl BatchReader for PushDownAggregateReader { fn schema(&self) -> SchemaRef { unimplemented!() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { unimplemented!() } }
pub struct SchemaAlignmenter(BatchReaderRef, SchemaRef); impl SchemaAlignmenter { fn new(r: BatchReaderRef, s: SchemaRef, _: Arc<MetricsSet>) -> Self { Self(r, s) } }
impl BatchReader for SchemaAlignmenter { fn schema(&self) -> SchemaRef { self.1.clone() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { Ok(self.0.batches()?.into_iter().map(|b| RecordBatch { s: self.1.clone(), cols: self.1.fields.iter().map(|f| match b.s.index_of(f) { Ok(i) => b.cols[i].clone(), Err(_) => Arc::new(Vals(vec![None; b.num_rows()])) as ArrayRef }).collect() }).collect()) } }
pub struct SeriesReader(BatchReaderRef); impl SeriesReader { fn new(_: u32, r: BatchReaderRef, _: SchemaRef, _: Arc<MetricsSet>, _: Option<usize>) -> Self { Self(r) } } impl BatchReader for SeriesReader { fn schema(&self) -> SchemaRef { self.0.schema() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> { self.0.batches() } }
pub struct DataMerger(SchemaRef, Vec<BatchReaderRef>, usize); impl DataMerger { fn new(s: SchemaRef, v: Vec<BatchReaderRef>, n: usize, _: Arc<MetricsSet>) -> Self { Self(s, v, n) } }
struct Wk; impl std::task::Wake for Wk { fn wake(self: Arc<Self>) {} }
impl BatchReader for DataMerger { fn schema(&self) -> SchemaRef { self.0.clone() } fn batches(&self) -> TskvResult<Vec<RecordBatch>> {
    let mut pend = self.2; let mut v = vec![]; for r in &self.1 { let mut q = VecDeque::new(); for b in r.batches()? { pend += 1; if pend % 3 == 0 { q.push_back(Poll::Pending); } q.push_back(Poll::Ready(b)); } v.push(Source { schema: r.schema(), items: q, over: false }); }
    merged(v, self.0.clone(), self.2) } }
pub fn merged(v: Vec<Source>, s: SchemaRef, n: usize) -> TskvResult<Vec<RecordBatch>> {
    let w = std::task::Waker::from(Arc::new(Wk)); let mut cx = Context::from_waker(&w);
    let mut m = SortPreservingMergeStream::<Times>::new(ColumnCursorStream::<Times>::new(v, "time")?, s, n, &MetricsSet); let mut o = vec![]; let mut k = 0u32;
    loop { k += 1; if k > 100000 { return Err(TskvError("the merge does not end".into())); } match m.poll_next_inner(&mut cx) { Poll::Pending => {} Poll::Ready(None) => return Ok(o), Poll::Ready(Some(b)) => o.push(b?) } }
}
pub type SeriesKey = u32; pub type TskvTableSchemaRef = SchemaRef;
#[derive(Clone)] pub struct Cnt; impl Cnt { fn add(&self, _: usize) {} } pub struct SeriesGroupBatchReaderMetrics; impl SeriesGroupBatchReaderMetrics { fn chunk_nums_filtered_by_statistics(&self) -> Cnt { Cnt } fn grouped_chunk_nums(&self) -> Cnt { Cnt } fn column_group_nums(&self) -> Cnt { Cnt } fn filtered_column_group_nums(&self) -> Cnt { Cnt } }
pub struct Projection { pub fields: Vec<ColumnId>, pub fields_with_time: Vec<ColumnId> } impl Projection { fn fields(&self) -> &[ColumnId] { &self.fields } fn fields_with_time(&self) -> &[ColumnId] { &self.fields_with_time } }
// files whose statistics let the part of the filter drop a column group whole: as datafusion prunes, only a group no row of which passes
fn filter_column_groups(cgs: Vec<Arc<ColumnGroup>>, p: &Option<Arc<Predicate>>, s: SchemaRef) -> TskvResult<Vec<Arc<ColumnGroup>>> { match p { None => Ok(cgs), Some(p) => match reassign_predicate_columns(p.clone(), s)? { None => Ok(cgs), Some(e) => Ok(cgs.into_iter().filter(|g| (0..g.0.num_rows()).any(|i| truth(&e, &row(&g.0, i)))).collect()) } } }
pub struct QueryOption { pub schema_meta: (), pub aggregates: Option<Vec<PushedAggregateFunction>> }
pub struct SeriesGroupBatchReaderFactory { pub query_option: QueryOption, pub column_group_reader_metrics_set: Arc<MetricsSet>, pub filter_reader_metrics_set: Arc<MetricsSet>, pub merge_reader_metrics_set: Arc<MetricsSet>, pub schema_align_reader_metrics_set: Arc<MetricsSet>, pub series_reader_metrics_set: Arc<MetricsSet> }
impl SeriesGroupBatchReaderFactory { fn schema(&self) -> SchemaRef { unimplemented!() } pub fn fresh() -> Self { let m = Arc::new(MetricsSet); Self { query_option: QueryOption { schema_meta: (), aggregates: None }, column_group_reader_metrics_set: m.clone(), filter_reader_metrics_set: m.clone(), merge_reader_metrics_set: m.clone(), schema_align_reader_metrics_set: m.clone(), series_reader_metrics_set: m } } }
//@extract tskv/src/reader/iterator.rs SeriesGroupBatchReaderFactory::build_chunk_reader
@header impl SeriesGroupBatchReaderFactory
@end
//@extract tskv/src/reader/iterator.rs SeriesGroupBatchReaderFactory::build_chunk_readers
@header impl SeriesGroupBatchReaderFactory
@end
//@extract tskv/src/reader/iterator.rs SeriesGroupBatchReaderFactory::build_series_reader
@header impl SeriesGroupBatchReaderFactory
@end
impl SeriesGroupBatchReaderFactory { pub fn series(&self, v: Vec<DataReference>, size: usize, s: SchemaRef, pj: &Projection, p: &Option<Arc<Predicate>>) -> TskvResult<Option<BatchReaderRef>> { self.build_series_reader(1, v, size, s.clone(), pj, p, s.clone(), s, &SeriesGroupBatchReaderMetrics, &None) } }
//@helpers
}
use rd::*; use std::sync::Arc; use std::collections::{BTreeMap, VecDeque}; use std::task::Poll;
type Rows = BTreeMap<i64, Vec<Option<i64>>>;
fn batch(cols: &[u32], rows: &[(i64, Vec<Option<i64>>)]) -> RecordBatch { // rows carry all columns 1..; cols picks
    let mut f = vec!["time".to_string()]; let mut c: Vec<ArrayRef> = vec![Arc::new(Times(rows.iter().map(|r| r.0).collect()))];
    for k in cols { f.push(col_name(*k)); c.push(Arc::new(Vals(rows.iter().map(|r| r.1[*k as usize - 1]).collect()))); }
    RecordBatch { s: Arc::new(Schema { fields: f }), cols: c }
}
fn schema(n: u32) -> SchemaRef { Arc::new(Schema { fields: (0..=n).map(col_name).collect() }) }
fn expr(r: &mut vx::Rng, n: u32, d: u32) -> Arc<dyn PhysicalExpr> {
    let k = if d == 0 { r.below(3) } else { r.below(6) }; let c = 1 + r.below(n as u64) as u32; let col: Arc<dyn PhysicalExpr> = Arc::new(Column::new(&col_name(c), c as usize)); let l: Arc<dyn PhysicalExpr> = Arc::new(Lit(r.below(6) as i64));
    match k { 0 => Arc::new(BinaryExpr::new(col, Operator::Gt, l)), 1 => Arc::new(BinaryExpr::new(col, Operator::Eq, l)), 2 => Arc::new(IsNull(col)), 3 => Arc::new(Not(expr(r, n, d - 1))), 4 => { let a = expr(r, n, d - 1); Arc::new(BinaryExpr::new(a, Operator::And, expr(r, n, d - 1))) } _ => { let a = expr(r, n, d - 1); Arc::new(BinaryExpr::new(a, Operator::Or, expr(r, n, d - 1))) } }
}
#[derive(Debug, Clone)] struct Src { level: u32, id: u64, mem: bool, cols: Vec<u32>, rows: Vec<(i64, Vec<Option<i64>>)>, cuts: Vec<usize> }
fn age(s: &Src) -> (i64, u64) { (-(s.level as i64), s.id) }
fn want(v: &[Src], n: u32) -> Rows { let mut o = Rows::new(); let mut v: Vec<&Src> = v.iter().collect(); v.sort_by_key(|s| age(s)); for s in v { for (t, r) in &s.rows { let e = o.entry(*t).or_insert(vec![None; n as usize]); for c in &s.cols { let x = r[*c as usize - 1]; if x.is_some() { e[*c as usize - 1] = x; } } } } o }
fn src(r: &mut vx::Rng, n: u32, id: u64) -> Src {
    let mut rows: Vec<(i64, Vec<Option<i64>>)> = vec![]; let mut t = r.below(12) as i64; let k = 1 + r.below(6); for _ in 0..k { rows.push((t, (0..n).map(|_| if r.chance(1, 3) { None } else { Some(r.below(6) as i64) }).collect())); t += 1 + r.below(3) as i64; }
    let mut cols: Vec<u32> = (1..=n).filter(|_| r.chance(3, 4)).collect(); if cols.is_empty() { cols.push(1); } let cuts = (0..rows.len()).filter(|_| r.chance(1, 3)).collect();
    let level = if r.chance(1, 2) { 0 } else { 1 + r.below(3) as u32 }; Src { level, id, mem: level == 0 && r.chance(1, 2), cols, rows, cuts }
}
fn parts(s: &Src) -> Vec<Vec<(i64, Vec<Option<i64>>)>> { let mut o: Vec<Vec<_>> = vec![vec![]]; for (i, x) in s.rows.iter().enumerate() { if s.cuts.contains(&i) && !o.last().unwrap().is_empty() { o.push(vec![]); } o.last_mut().unwrap().push(x.clone()); } o }
fn reference(s: &Src) -> DataReference {
    let tr = TimeRange { min_ts: s.rows[0].0, max_ts: s.rows[s.rows.len() - 1].0 };
    if s.mem { DataReference::Memcache(Arc::new(RwLock(SeriesData(batch(&s.cols, &s.rows)))), Arc::new(TimeRanges(tr)), s.id) }
    else { let cgs = parts(s).into_iter().enumerate().map(|(i, p)| (i as u64, Arc::new(ColumnGroup(batch(&s.cols, &p))))).collect(); DataReference::Chunk(Arc::new(Chunk { cgs, tr, s: batch(&s.cols, &[]).s }), Arc::new(TsmReader), Arc::new(ColumnFile { id: s.id, level: s.level })) }
}
fn rows_of(bs: &[RecordBatch], n: u32) -> Result<Vec<(i64, Vec<Option<i64>>)>, String> { let mut o: Vec<(i64, Vec<Option<i64>>)> = vec![]; for b in bs { for i in 0..b.num_rows() { let t = b.cols[b.s.index_of("time").map_err(|_| "no time column")?].at(i).unwrap(); if let Some(l) = o.last() { if l.0 >= t { return Err(format!("row of time {t} after row of time {}", l.0)); } } o.push((t, (1..=n).map(|c| match b.s.index_of(&col_name(c)) { Ok(k) => b.cols[k].at(i), Err(_) => None }).collect())); } } Ok(o) }
fn judge(got: &[(i64, Vec<Option<i64>>)], w: &Rows, e: Option<&Arc<dyn PhysicalExpr>>) -> Result<(), String> {
    for (t, r) in got { match w.get(t) { None => return Err(format!("a row at {t} that was never written: {r:?}")), Some(x) => if x != r { return Err(format!("at {t} the newest values are {x:?}, read {r:?}")); } } }
    for (t, r) in w { let full: Vec<Option<i64>> = std::iter::once(Some(*t)).chain(r.iter().cloned()).collect(); if e.map(|e| truth(e, &full)).unwrap_or(true) && !got.iter().any(|g| g.0 == *t) { return Err(format!("the row at {t}, {r:?}, passes the filter and is not read")); } } Ok(())
}
fn main() { let mut h = vx::H::new();
    // a. sorted streams into one
    for seed in 0..h.scale(6000, 60000) {
        let mut r = h.rng(seed * 5 + 1); let n = 1 + r.below(3) as u32; let k = 1 + r.below(7); let v: Vec<Src> = (0..k).map(|i| { let mut s = src(&mut r, n, i); s.level = 0; s.cols = (1..=n).collect(); if r.chance(1, 12) { s.rows.clear(); } s }).collect(); let size = 1 + r.below(5) as usize; let pend = r.chance(1, 2);
        let d = || format!("batch size {size}, streams (each newer than the one before) {:?}", v.iter().map(|s| parts(s)).collect::<Vec<_>>());
        h.case("BatchMergeBuilder::push_row", vx::hash(&d()), &d, &mut || {
            let ss = v.iter().map(|s| { let mut q = VecDeque::new(); for p in parts(s) { if pend && p.len() % 2 == 1 { q.push_back(Poll::Pending); } q.push_back(Poll::Ready(batch(&s.cols, &p))); if pend { q.push_back(Poll::Ready(batch(&s.cols, &[]))); } } Source { schema: schema(n), items: q, over: false } }).collect();
            judge(&rows_of(&merged(ss, schema(n), size).map_err(|e| format!("{e:?}"))?, n)?, &want(&v, n), None)
        });
    }
    // b. a filter, and the part of it that is left for rows that lack columns
    for seed in 0..h.scale(6000, 60000) {
        let mut r = h.rng(seed * 5 + 2); let n = 1 + r.below(4) as u32; let e = expr(&mut r, n, 3); let cols: Vec<u32> = (1..=n).filter(|_| r.chance(2, 3)).collect(); let rows: Vec<Vec<Option<i64>>> = (0..8).map(|t| std::iter::once(Some(t)).chain((1..=n).map(|c| if !cols.contains(&c) || r.chance(1, 4) { None } else { Some(r.below(6) as i64) })).collect()).collect();
        let d = || format!("filter {e:?}, columns present {cols:?}");
        h.case("evaluable_part", vx::hash(&d()), &d, &mut || {
            let file = batch(&cols, &[]).s; let p = reassign_predicate_columns(Arc::new(Predicate { e: Some(e.clone()), s: schema(n) }), file.clone()).map_err(|e| format!("{e:?}"))?;
            if let Some(p) = p { for w in &rows { let mut have = vec![w[0]]; have.extend(cols.iter().map(|c| w[*c as usize])); if truth(&e, w) && !truth(&p, &have) { return Err(format!("row {w:?} passes the filter but not the part {p:?}")); } } } Ok(())
        });
    }
    // c. the data of a series out of files and caches
    for seed in 0..h.scale(12000, 120000) {
        let mut r = h.rng(seed * 5 + 3); let n = 1 + r.below(3) as u32; let k = 1 + r.below(5); let mut v: Vec<Src> = (0..k).map(|i| src(&mut r, n, 10 + i)).collect(); for i in (1..v.len()).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j); } if r.chance(1, 3) { for s in v.iter_mut() { let o = (s.id % 4) as i64 * 14; for x in s.rows.iter_mut() { x.0 += o; } } }
        let e = if r.chance(2, 3) { Some(expr(&mut r, n, 2)) } else { None }; let size = 1 + r.below(5) as usize;
        let d = || format!("batch size {size}, filter {e:?}, data {v:?}");
        h.case("SeriesGroupBatchReaderFactory::build_series_reader", vx::hash(&d()), &d, &mut || {
            let p = e.as_ref().map(|e| Arc::new(Predicate { e: Some(e.clone()), s: schema(n) })); let pj = Projection { fields: (0..=n).collect(), fields_with_time: (0..=n).collect() };
            let rd = SeriesGroupBatchReaderFactory::fresh().series(v.iter().map(reference).collect(), size, schema(n), &pj, &p).map_err(|e| format!("{e:?}"))?;
            let bs = match rd { None => vec![], Some(x) => x.batches().map_err(|e| format!("{e:?}"))? }; judge(&rows_of(&bs, n)?, &want(&v, n), e.as_ref())
        });
    }
    h.done(); }
