//@prelude
mod comp {
use std::cmp::{self, max, min}; use std::collections::{BTreeMap, HashMap}; use std::fmt::Display; use std::ops::Bound as StdBound; use std::sync::Arc; use std::cell::RefCell; use std::str::FromStr; use std::path::{Path, PathBuf};
pub type Timestamp = i64; pub type SeriesId = u32; pub type ColumnGroupID = u64; pub type ColumnId = u32; pub type ColumnFileId = u64; pub type LevelId = u32; pub type SchemaVersion = u64;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Default, Debug, Clone, Copy, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl From<(StdBound<i64>,StdBound<i64>)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl PartialOrd for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl Ord for TimeRange
@end
//@extract common/models/src/predicate/domain.rs struct TimeRanges
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl TimeRanges
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRanges
@end
impl Display for TimeRanges { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
macro_rules! info { ($($t:tt)*) => { quiet!($($t)*) }; }
macro_rules! debug { ($($t:tt)*) => { quiet!($($t)*) }; }
mod trace { macro_rules! quiet2 { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; } pub(crate) use quiet2 as info; pub(crate) use quiet2 as trace; pub(crate) use quiet2 as debug; pub(crate) use quiet2 as error; }
use trace::trace;
// ---- stand-ins: errors ----
#[derive(Debug)] pub struct TskvError(String);
pub type TskvResult<T> = Result<T, TskvError>; type ModelResult<T> = Result<T, TskvError>;
pub struct CommonSnafu<A> { reason: A } impl<A: Into<String>> CommonSnafu<A> { fn build(self) -> TskvError { TskvError(self.reason.into()) } }
pub struct InternalSnafu<A> { err: A } impl<A: Into<String>> InternalSnafu<A> { fn build(self) -> TskvError { TskvError(self.err.into()) } }
pub struct ArrowSnafu; pub struct ModelSnafu;
trait Why { fn why(self) -> String; } impl<A: Into<String>> Why for CommonSnafu<A> { fn why(self) -> String { self.reason.into() } } impl Why for ArrowSnafu { fn why(self) -> String { "arrow".into() } } impl Why for ModelSnafu { fn why(self) -> String { "model".into() } }
trait Ctx<T> { fn context<C: Why>(self, c: C) -> TskvResult<T>; }
impl<T> Ctx<T> for Option<T> { fn context<C: Why>(self, c: C) -> TskvResult<T> { self.ok_or_else(|| TskvError(c.why())) } }
impl<T, E: std::fmt::Debug> Ctx<T> for Result<T, E> { fn context<C: Why>(self, c: C) -> TskvResult<T> { self.map_err(|e| TskvError(format!("{} {e:?}", c.why()))) } }
// ---- stand-ins: the part of arrow this code uses ----
pub use arrow_array::*; pub use arrow_array::filter_record_batch;
pub mod arrow_array {
    use super::*;
    use std::any::Any;
    #[derive(Debug, Clone, PartialEq)] pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
    #[derive(Debug, Clone, PartialEq)] pub enum DataType { Int64, Utf8, Timestamp(TimeUnit, Option<String>) }
    #[derive(Debug)] pub enum ArrowError { InvalidArgumentError(String) }
    #[derive(Debug, Clone)] pub struct Field { pub ty: DataType, pub meta: HashMap<String, String> }
    impl Field { pub fn data_type(&self) -> &DataType { &self.ty } pub fn metadata(&self) -> &HashMap<String, String> { &self.meta } }
    pub type FieldRef = Arc<Field>;
    #[derive(Debug, Clone)] pub struct Schema { pub fields: Vec<FieldRef>, pub meta: HashMap<String, String> }
    impl Schema { pub fn fields(&self) -> &Vec<FieldRef> { &self.fields } pub fn field(&self, i: usize) -> &Field { &self.fields[i] } pub fn metadata(&self) -> &HashMap<String, String> { &self.meta } }
    pub type SchemaRef = Arc<Schema>;
    pub trait Array: std::fmt::Debug { fn as_any(&self) -> &dyn Any; fn n(&self) -> usize; fn keep(&self, m: &[bool]) -> ArrayRef; fn at(&self, i: usize) -> Option<i64>; fn cut(&self, a: usize, b: usize) -> ArrayRef { self.keep(&(0..self.n()).map(|i| a <= i && i < b).collect::<Vec<_>>()) } }
    pub type ArrayRef = Arc<dyn Array>;
    macro_rules! times { ($($t:ident),*) => { $(#[derive(Debug)] pub struct $t(pub Vec<i64>); impl $t { pub fn values(&self) -> &[i64] { &self.0 } }
        impl Array for $t { fn as_any(&self) -> &dyn Any { self } fn n(&self) -> usize { self.0.len() } fn at(&self, i: usize) -> Option<i64> { Some(self.0[i]) } fn keep(&self, m: &[bool]) -> ArrayRef { Arc::new($t(self.0.iter().zip(m).filter(|x| *x.1).map(|x| *x.0).collect())) } })* } }
    times!(TimestampNanosecondArray, TimestampMicrosecondArray, TimestampMillisecondArray, Int64Array);
    #[derive(Debug)] pub struct Opt(pub Vec<Option<i64>>);
    impl Array for Opt { fn as_any(&self) -> &dyn Any { self } fn n(&self) -> usize { self.0.len() } fn at(&self, i: usize) -> Option<i64> { self.0[i] } fn keep(&self, m: &[bool]) -> ArrayRef { Arc::new(Opt(self.0.iter().zip(m).filter(|x| *x.1).map(|x| *x.0).collect())) } }
    pub fn new_null_array(_: &DataType, n: usize) -> ArrayRef { Arc::new(Opt(vec![None; n])) }
    #[derive(Debug, Clone)] pub struct RecordBatch { pub s: SchemaRef, pub cols: Vec<ArrayRef> }
    impl RecordBatch {
        pub fn num_rows(&self) -> usize { self.cols[0].n() } pub fn schema(&self) -> SchemaRef { self.s.clone() } pub fn column(&self, i: usize) -> &ArrayRef { &self.cols[i] } pub fn num_columns(&self) -> usize { self.cols.len() } pub fn columns(&self) -> &[ArrayRef] { &self.cols }
        pub fn try_new(s: SchemaRef, cols: Vec<ArrayRef>) -> Result<RecordBatch, ArrowError> { if s.fields.len() != cols.len() || cols.iter().any(|c| c.n() != cols[0].n()) { return Err(ArrowError::InvalidArgumentError("shape".into())); } Ok(RecordBatch { s, cols }) }
    }
    pub struct BooleanBufferBuilder(Vec<bool>);
    impl BooleanBufferBuilder { pub fn new(_: usize) -> Self { Self(vec![]) } pub fn append_n(&mut self, n: usize, b: bool) { self.0.extend(vec![b; n]) } pub fn append(&mut self, b: bool) { self.0.push(b) } pub fn set_bit(&mut self, i: usize, b: bool) { self.0[i] = b } pub fn finish(&mut self) -> Vec<bool> { std::mem::take(&mut self.0) } }
    pub struct BooleanArray(Vec<bool>); impl BooleanArray { pub fn new(b: Vec<bool>, _: Option<()>) -> Self { Self(b) } }
    pub fn filter_record_batch(r: &RecordBatch, m: &BooleanArray) -> Result<RecordBatch, ArrowError> { RecordBatch::try_new(r.s.clone(), r.cols.iter().map(|c| c.keep(&m.0)).collect()) }
}
const SCHEMA_VERSION: &str = "schema_version"; const COLUMN_ID_META_KEY: &str = "column_id";
pub struct TskvTableSchema { pub s: SchemaRef } pub type TskvTableSchemaRef = Arc<TskvTableSchema>;
impl TskvTableSchema { fn meta(&self) -> HashMap<String, String> { self.s.meta.clone() } }
pub struct TableColumn;
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::schema_version_from_arrow_array_schema
@header impl TskvTableSchema
@end
//@extract common/models/src/schema/tskv_table_schema.rs TableColumn::column_id_from_arrow_field
@header impl TableColumn
@end
impl std::fmt::Debug for TskvTableSchema { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "schema") } }
// ---- stand-ins: data files in memory ----
#[derive(Debug, Clone, PartialEq)] pub struct SeriesKey(pub u32);
#[derive(Debug, Clone)] pub struct PageMeta { pub num_values: u32 } #[derive(Debug, Clone)] pub struct Page { pub meta: PageMeta }
#[derive(Debug)] pub struct ColumnGroup { pub tr: TimeRange, pub rows: usize, pub pages: Vec<Page> }
impl ColumnGroup { pub fn time_range(&self) -> &TimeRange { &self.tr } pub fn row_len(&self) -> usize { self.rows } pub fn pages(&self) -> &[Page] { &self.pages } }
#[derive(Debug)] pub struct Chunk { pub sid: SeriesId, pub key: SeriesKey, pub table: String, pub cgs: BTreeMap<ColumnGroupID, Arc<ColumnGroup>> }
impl Chunk { pub fn series_id(&self) -> SeriesId { self.sid } pub fn series_key(&self) -> &SeriesKey { &self.key } pub fn table_name(&self) -> &str { &self.table } pub fn column_group(&self) -> &BTreeMap<ColumnGroupID, Arc<ColumnGroup>> { &self.cgs } }
pub struct ChunkMeta(SeriesId); impl ChunkMeta { pub fn series_id(&self) -> SeriesId { self.0 } } pub struct ChunkGroup(Vec<ChunkMeta>); impl ChunkGroup { pub fn chunks(&self) -> &[ChunkMeta] { &self.0 } }
pub struct TsmReader { pub id: u64, pub groups: BTreeMap<String, Arc<ChunkGroup>>, pub chunks: BTreeMap<SeriesId, Arc<Chunk>>, pub stored: HashMap<(SeriesId, u64), RecordBatch>, pub tomb: Vec<(SeriesId, TimeRange)>, pub schema: TskvTableSchemaRef, pub excluded: RefCell<TimeRanges>, pub asked: RefCell<u32> }
thread_local! { static RAW: RefCell<Vec<RecordBatch>> = RefCell::new(vec![]); pub static OUT: RefCell<Vec<CompactingBlock>> = RefCell::new(vec![]); }
pub fn mask(r: &RecordBatch, f: &dyn Fn(i64) -> bool) -> RecordBatch { let m: Vec<bool> = (0..r.num_rows()).map(|i| f(r.cols[0].at(i).unwrap())).collect(); RecordBatch { s: r.s.clone(), cols: r.cols.iter().map(|c| c.keep(&m)).collect() } }
impl TsmReader {
    pub fn chunk_group(&self) -> &BTreeMap<String, Arc<ChunkGroup>> { &self.groups } pub fn chunk(&self) -> &BTreeMap<SeriesId, Arc<Chunk>> { &self.chunks } pub fn file_id(&self) -> u64 { self.id } pub fn has_tombstone(&self) -> bool { !self.tomb.is_empty() }
    pub fn table_schema(&self, t: &str) -> Option<TskvTableSchemaRef> { self.groups.get(t).map(|_| self.schema.clone()) }
    pub fn live(&self, s: SeriesId, cg: u64) -> RecordBatch { mask(&self.stored[&(s, cg)], &|t| !self.tomb.iter().any(|x| x.0 == s && x.1.min_ts <= t && t <= x.1.max_ts)) }
    pub fn read_record_batch(&self, s: SeriesId, cg: u64) -> TskvResult<RecordBatch> { Ok(self.live(s, cg)) }
    pub fn read_datablock_raw(&self, s: SeriesId, cg: u64) -> TskvResult<Vec<u8>> { RAW.with(|r| { let mut r = r.borrow_mut(); r.push(self.stored[&(s, cg)].clone()); Ok(((r.len() - 1) as u64).to_le_bytes().to_vec()) }) }
    pub fn add_tombstone_and_compact_to_tmp(&self, tr: TimeRange) -> TskvResult<TimeRanges> { *self.asked.borrow_mut() += 1; let mut e = self.excluded.borrow_mut(); let mut v: Vec<TimeRange> = e.time_ranges().collect(); v.push(tr); *e = TimeRanges::new(v); Ok(e.clone()) }
}
fn decode_pages_buf(b: &[u8], _c: Arc<Chunk>, _cg: ColumnGroupID, _s: TskvTableSchemaRef) -> TskvResult<RecordBatch> { if b.len() != 8 { return Err(TskvError("raw".into())); } Ok(RAW.with(|r| r.borrow()[u64::from_le_bytes(b.try_into().unwrap()) as usize].clone())) }
fn decode_pages(_p: Vec<Page>, _m: HashMap<String, String>, _x: Option<()>) -> TskvResult<RecordBatch> { Err(TskvError("encoded block".into())) }
#[derive(Clone, Copy, Debug)] pub enum CompactTask { Normal(u32), Delta(u32), Manual(u32) } impl Display for CompactTask { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Clone)] pub struct VnodeCompactionMetrics; impl VnodeCompactionMetrics { fn begin(&mut self) {} fn end(&mut self, _: bool) {} fn read_begin(&mut self) {} fn read_end(&mut self) {} fn merge_begin(&mut self) {} fn merge_end(&mut self) {} fn write_begin(&mut self) {} fn write_end(&mut self) {} }
pub struct BloomFilter; #[derive(Clone)] pub struct IDGenerator;
#[derive(Debug)] pub struct ColumnFile { pub id: u64, pub level: LevelId, pub delta: bool, pub tr: TimeRange, pub path: PathBuf }
impl ColumnFile { pub fn file_id(&self) -> u64 { self.id } pub fn level(&self) -> LevelId { self.level } pub fn is_delta(&self) -> bool { self.delta } pub fn time_range(&self) -> &TimeRange { &self.tr } pub fn file_path(&self) -> &PathBuf { &self.path } pub fn size(&self) -> u64 { 0 } }
pub struct Opts { pub max_datablock_size: u64 }
pub struct Version { pub opt: Opts, pub readers: HashMap<PathBuf, Arc<TsmReader>> }
impl Version { fn storage_opt(&self) -> &Opts { &self.opt } fn get_tsm_reader(&self, p: impl AsRef<Path>) -> TskvResult<Arc<TsmReader>> { self.readers.get(p.as_ref()).cloned().ok_or(TskvError("no such file".into())) } }
#[derive(Default, Debug)] pub struct VersionEdit { pub add_files: Vec<CompactMeta>, pub del_files: Vec<CompactMeta>, pub partly_del_files: Vec<CompactMeta> }
#[derive(Default, Debug, Clone)] pub struct CompactMeta { pub file_id: u64, pub level: LevelId, pub is_delta: bool, pub min_ts: i64, pub max_ts: i64, pub part: bool }
impl From<&ColumnFile> for CompactMeta { fn from(f: &ColumnFile) -> Self { CompactMeta { file_id: f.id, level: f.level, is_delta: f.delta, min_ts: f.tr.min_ts, max_ts: f.tr.max_ts, part: false } } }
impl CompactMeta { pub fn new_del_file_part(level: LevelId, file_id: u64, min_ts: i64, max_ts: i64) -> Self { CompactMeta { file_id, level, is_delta: level == 0, min_ts, max_ts, part: true } } }
pub struct WriterWrapper;
impl WriterWrapper { fn new(_: &CompactReq) -> TskvResult<Self> { OUT.with(|o| o.borrow_mut().clear()); Ok(Self) } fn write(&mut self, b: CompactingBlock) -> TskvResult<()> { OUT.with(|o| o.borrow_mut().push(b)); Ok(()) } fn close(self) -> TskvResult<(VersionEdit, HashMap<ColumnFileId, Arc<BloomFilter>>)> { Ok((VersionEdit::default(), HashMap::new())) } }
pub struct CompactReq { pub compact_task: CompactTask, pub file_id: IDGenerator, pub version: Arc<Version>, pub files: Vec<Arc<ColumnFile>>, pub in_level: LevelId, pub out_level: LevelId, pub out_time_range: TimeRange }
impl Display for CompactReq { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "req") } }
//@extract tskv/src/compaction/mod.rs CompactReq::split_delta_and_level_files
@header impl CompactReq
@end
//@extract tskv/src/compaction/utils.rs filter_record_batch_by_time_range
@end
//@extract tskv/src/compaction/compact.rs enum CompactingBlock
@derive Debug
@end
//@extract tskv/src/compaction/compact.rs impl CompactingBlock
@end
//@extract tskv/src/compaction/compact.rs struct CompactingFile
@end
//@extract tskv/src/compaction/compact.rs impl CompactingFile
@end
impl Eq for CompactingFile {}
//@extract tskv/src/compaction/compact.rs impl PartialEq for CompactingFile
@end
//@extract tskv/src/compaction/compact.rs impl Ord for CompactingFile
@end
//@extract tskv/src/compaction/compact.rs impl PartialOrd for CompactingFile
@end
//@extract tskv/src/compaction/compact.rs struct CompactState
@end
//@extract tskv/src/compaction/compact.rs CompactState::new
@header impl CompactState
@end
//@extract tskv/src/compaction/compact.rs CompactState::next
@header impl CompactState
@end
//@extract tskv/src/compaction/compact.rs CompactState::next_series_id
@header impl CompactState
@end
//@extract tskv/src/compaction/compact.rs CompactState::fill_compacting_block_meta_groups
@header impl CompactState
@end
//@extract tskv/src/compaction/compact.rs compact_files
@end
//@extract tskv/src/compaction/compact.rs run_delta_compaction_job
@end
//@extract tskv/src/compaction/compact.rs run_normal_compaction_job
@end
//@extract tskv/src/compaction/compacting_block_meta.rs struct CompactingBlockMeta
@derive Clone
@end
impl Eq for CompactingBlockMeta {}
//@extract tskv/src/compaction/compacting_block_meta.rs impl PartialEq for CompactingBlockMeta
@end
//@extract tskv/src/compaction/compacting_block_meta.rs impl PartialOrd for CompactingBlockMeta
@end
//@extract tskv/src/compaction/compacting_block_meta.rs impl Ord for CompactingBlockMeta
@end
//@extract tskv/src/compaction/compacting_block_meta.rs impl CompactingBlockMeta
@end
//@extract tskv/src/compaction/comapcting_block_meta_group.rs struct CompactingBlockMetaGroup
@derive Clone
@end
//@extract tskv/src/compaction/comapcting_block_meta_group.rs impl CompactingBlockMetaGroup
@skip merge_record_batches
@end
// the streaming merge (reader/sort_merge.rs): rows by time, per column the last batch of the list that has a value
impl CompactingBlockMetaGroup {
    pub fn merge_record_batches(record_batches: Vec<RecordBatch>, block_size: usize) -> TskvResult<Vec<RecordBatch>> {
        let (bs, schema) = Self::schema_adapt_record_batches(record_batches)?;
        let mut m: BTreeMap<i64, Vec<Option<i64>>> = BTreeMap::new();
        for b in &bs { for i in 0..b.num_rows() { let e = m.entry(b.cols[0].at(i).unwrap()).or_insert(vec![None; schema.fields.len()]); for c in 0..b.cols.len() { if let Some(v) = b.cols[c].at(i) { e[c] = Some(v); } } } }
        let rows: Vec<_> = m.into_values().collect();
        Ok(rows.chunks(block_size.max(1)).map(|r| RecordBatch { s: schema.clone(), cols: (0..schema.fields.len()).map(|c| if c == 0 { Arc::new(TimestampNanosecondArray(r.iter().map(|x| x[0].unwrap()).collect())) as ArrayRef } else { Arc::new(Opt(r.iter().map(|x| x[c]).collect())) }).collect() }).collect())
    }
}
// ---- building a data file ----
pub fn schema(ver: u64, cols: &[u32]) -> SchemaRef { Arc::new(Schema { fields: cols.iter().map(|c| Arc::new(Field { ty: if *c == 0 { DataType::Timestamp(TimeUnit::Nanosecond, None) } else { DataType::Int64 }, meta: [(COLUMN_ID_META_KEY.to_string(), c.to_string())].into() })).collect(), meta: [(SCHEMA_VERSION.to_string(), ver.to_string())].into() }) }
pub fn batch(s: SchemaRef, rows: &[(i64, Vec<Option<i64>>)]) -> RecordBatch { let n = s.fields.len(); RecordBatch { s, cols: (0..n).map(|c| if c == 0 { Arc::new(TimestampNanosecondArray(rows.iter().map(|r| r.0).collect())) as ArrayRef } else { Arc::new(Opt(rows.iter().map(|r| r.1[c - 1]).collect())) }).collect() } }
pub fn file(id: u64, ver: u64, cols: &[u32], series: &BTreeMap<u32, Vec<Vec<(i64, Vec<Option<i64>>)>>>, tomb: Vec<(u32, TimeRange)>) -> TsmReader {
    let s = schema(ver, cols); let mut chunks = BTreeMap::new(); let mut stored = HashMap::new(); let mut g: BTreeMap<String, Vec<ChunkMeta>> = BTreeMap::new();
    for (sid, cgs) in series {
        let mut m = BTreeMap::new();
        for (i, rows) in cgs.iter().enumerate() { m.insert(i as u64, Arc::new(ColumnGroup { tr: TimeRange::new(rows[0].0, rows.last().unwrap().0), rows: rows.len(), pages: vec![Page { meta: PageMeta { num_values: rows.len() as u32 } }] })); stored.insert((*sid, i as u64), batch(s.clone(), rows)); }
        let table = format!("t{}", sid % 2); g.entry(table.clone()).or_default().push(ChunkMeta(*sid)); chunks.insert(*sid, Arc::new(Chunk { sid: *sid, key: SeriesKey(*sid), table, cgs: m }));
    }
    TsmReader { id, groups: g.into_iter().map(|(k, v)| (k, Arc::new(ChunkGroup(v)))).collect(), chunks, stored, tomb, schema: Arc::new(TskvTableSchema { s }), excluded: RefCell::new(TimeRanges::new(vec![])), asked: RefCell::new(0) }
}
pub fn cells(b: &RecordBatch) -> Vec<(i64, u32, i64)> { let mut v = vec![]; for i in 0..b.num_rows() { let t = b.cols[0].at(i).unwrap(); for c in 0..b.cols.len() { if let Some(x) = b.cols[c].at(i) { v.push((t, b.s.fields[c].meta[COLUMN_ID_META_KEY].parse().unwrap(), x)); } } } v }
// rows of the blocks written, with their series; None when a block cannot be decoded
pub fn written() -> Result<Vec<(u32, u32, RecordBatch)>, String> { OUT.with(|o| { let mut v = vec![]; for b in o.borrow_mut().drain(..) { let (sid, key) = match &b { CompactingBlock::Decoded { series_id, series_key, .. } | CompactingBlock::Encoded { series_id, series_key, .. } => (*series_id, series_key.0), CompactingBlock::Raw { meta, .. } => (meta.sid, meta.key.0) }; v.push((sid, key, b.decode().map_err(|e| format!("{e:?}"))?)); } Ok(v) }) }
pub fn compact(readers: Vec<Arc<TsmReader>>, out: TimeRange, block: u64) -> Result<(), String> { compact_files(req(readers.iter().map(|r| (r.clone(), 0, true, TimeRange::all())).collect(), out, block), readers, out, VnodeCompactionMetrics).map(|_| ()).map_err(|e| format!("{e:?}")) }
pub fn req(files: Vec<(Arc<TsmReader>, LevelId, bool, TimeRange)>, out: TimeRange, block: u64) -> CompactReq { let path = |i: u64| PathBuf::from(format!("/{i}")); CompactReq { compact_task: CompactTask::Delta(1), file_id: IDGenerator, version: Arc::new(Version { opt: Opts { max_datablock_size: block }, readers: files.iter().map(|f| (path(f.0.id), f.0.clone())).collect() }), files: files.iter().map(|f| Arc::new(ColumnFile { id: f.0.id, level: f.1, delta: f.2, tr: f.3, path: path(f.0.id) })).collect(), in_level: 0, out_level: 1, out_time_range: out } }
pub fn delta(r: CompactReq) -> Result<Option<VersionEdit>, String> { run_delta_compaction_job(r, VnodeCompactionMetrics).map(|x| x.map(|y| y.0)).map_err(|e| format!("{e:?}")) }
pub fn normal(r: CompactReq) -> Result<Option<VersionEdit>, String> { run_normal_compaction_job(r, VnodeCompactionMetrics).map(|x| x.map(|y| y.0)).map_err(|e| format!("{e:?}")) }
//@helpers
}
use comp::*; use std::collections::{BTreeMap, BTreeSet}; use std::sync::Arc;
type Rows = Vec<(i64, Vec<Option<i64>>)>;
#[derive(Debug, Clone)] struct F { ver: u64, cols: Vec<u32>, series: BTreeMap<u32, Vec<Rows>>, tomb: Vec<(u32, i64, i64)>, level: bool, excl: Option<(i64, i64)> }
#[derive(Debug, Clone)] struct Case { files: Vec<F>, out: (i64, i64), block: u64, kind: u8 }
fn bound(f: &F) -> TimeRange { let ts: Vec<i64> = f.series.values().flatten().flatten().map(|r| r.0).collect(); TimeRange::new(*ts.iter().min().unwrap(), *ts.iter().max().unwrap()) }
fn build(c: &Case) -> Vec<Arc<TsmReader>> { c.files.iter().enumerate().map(|(i, f)| { let mut tomb: Vec<_> = f.tomb.iter().map(|t| (t.0, TimeRange::new(t.1, t.2))).collect(); if let Some(e) = f.excl { for s in f.series.keys() { tomb.push((*s, TimeRange::new(e.0, e.1))); } } let r = file(i as u64 + 1, f.ver, &f.cols, &f.series, tomb); if let Some(e) = f.excl { *r.excluded.borrow_mut() = TimeRanges::new(vec![TimeRange::new(e.0, e.1)]); } Arc::new(r) }).collect() }
type Cells = BTreeMap<(u32, i64, u32), i64>;
// the newest value of every cell of the files, the last file in the list being the newest
fn merged(rs: &[Arc<TsmReader>], keep: &dyn Fn(usize, i64) -> bool) -> Cells { let mut m = Cells::new(); for (i, r) in rs.iter().enumerate() { for (sid, ch) in r.chunk() { for cg in ch.column_group().keys() { for (t, c, v) in cells(&r.live(*sid, *cg)) { if keep(i, t) { m.insert((*sid, t, c), v); } } } } } m }
fn target_cols(c: &Case) -> BTreeSet<u32> { c.files.iter().flat_map(|f| f.cols.clone()).collect() }
fn output(out: (i64, i64)) -> Result<Cells, String> {
    let w = written()?; let mut m = Cells::new(); let mut seen: BTreeSet<(u32, i64)> = BTreeSet::new(); let mut last: Option<(u32, i64)> = None;
    for (sid, key, b) in w {
        if sid != key { return Err(format!("block of series {sid} written with the key of series {key}")); }
        let cs = cells(&b); let mut prev = None;
        for (t, c, v) in cs {
            if c == 0 { if !seen.insert((sid, t)) { return Err(format!("series {sid} has the time {t} twice in the new file")); } if let Some(p) = prev { if p >= t { return Err("rows of a block not in time order".into()); } } prev = Some(t); if t < out.0 || t > out.1 { return Err(format!("row {t} outside of the range {out:?} written")); } if let Some(l) = last { if l.0 == sid && l.1 >= t { return Err(format!("rows of series {sid} not in time order: {} then {t}", l.1)); } } last = Some((sid, t)); }
            m.insert((sid, t, c), v);
        }
    }
    Ok(m)
}
fn diff(a: &Cells, b: &Cells, what: &str) -> Result<(), String> { for (k, v) in b { match a.get(k) { None => return Err(format!("{what}: series {} time {} column {} = {v} lost", k.0, k.1, k.2)), Some(x) if x != v => return Err(format!("{what}: series {} time {} column {} is {x}, the newest file has {v}", k.0, k.1, k.2)), _ => {} } } for (k, v) in a { if !b.contains_key(k) { return Err(format!("{what}: series {} time {} column {} = {v} appeared", k.0, k.1, k.2)); } } Ok(()) }
fn run(c: &Case) -> Result<(), String> {
    let rs = build(c); let out = if c.kind == 2 { (i64::MIN, i64::MAX) } else { c.out };
    let inside = |t: i64| out.0 <= t && t <= out.1;
    match c.kind {
        0 => { compact(rs.clone(), TimeRange::new(out.0, out.1), c.block)?; diff(&output(out)?, &merged(&rs, &|_, t| inside(t)), "compaction") }
        1 => {
            // level file first in the list of what is compacted whatever its place among the files picked
            let lvl = c.files.iter().position(|f| f.level); let mut order: Vec<usize> = lvl.into_iter().collect(); order.extend((0..rs.len()).filter(|i| !c.files[*i].level));
            let rq = req((0..rs.len()).map(|i| (rs[i].clone(), if c.files[i].level { 1 } else { 0 }, !c.files[i].level, bound(&c.files[i]))).collect(), TimeRange::new(out.0, out.1), c.block);
            let sorted: Vec<_> = order.iter().map(|i| rs[*i].clone()).collect(); let before = merged(&sorted, &|_, _| true); let want = merged(&sorted, &|_, t| inside(t));
            let e = match delta(rq)? { Some(e) => e, None => { return if c.files.iter().any(|f| !f.level) { Err("nothing compacted".into()) } else { Ok(()) }; } };
            let got = output(out)?; diff(&got, &want, "delta compaction")?;
            // what is left after the version edit: the files not deleted, without what was cut out of them, under the new file
            let mut after = Cells::new();
            for i in &order { let id = rs[*i].file_id(); if e.del_files.iter().any(|d| d.file_id == id) { continue; } let cut = e.partly_del_files.iter().find(|d| d.file_id == id); let ex = rs[*i].excluded.borrow().clone();
                if let Some(d) = cut { if (d.min_ts, d.max_ts) != out || d.level != 0 { return Err(format!("file {id} partly deleted in {d:?}")); } }
                for (k, v) in merged(&rs[*i..*i + 1], &|_, t| !(cut.is_some() && ex.time_ranges().any(|x| x.min_ts <= t && t <= x.max_ts))) { if after.insert(k, v).is_some() && inside(k.1) { return Err("a cell of the compacted range kept in two old files".into()); } } }
            // rows outside of the range keep their order between the old files: newest last
            let mut rest = Cells::new(); for i in &order { let id = rs[*i].file_id(); if e.del_files.iter().any(|d| d.file_id == id) { continue; } for (k, v) in merged(&rs[*i..*i + 1], &|_, t| !inside(t)) { rest.insert(k, v); } }
            for (k, v) in &got { if after.contains_key(k) && inside(k.1) { return Err(format!("series {} time {} both in the new file and in an old one", k.0, k.1)); } rest.insert(*k, *v); }
            diff(&rest, &before, "files after delta compaction")
        }
        _ => {
            let rq = req((0..rs.len()).map(|i| (rs[i].clone(), 1, false, bound(&c.files[i]))).collect(), TimeRange::new(out.0, out.1), c.block);
            let e = match normal(rq)? { Some(e) => e, None => return Err("nothing compacted".into()) };
            diff(&output(out)?, &merged(&rs, &|_, _| true), "level compaction")?;
            let mut d: Vec<u64> = e.del_files.iter().map(|x| x.file_id).collect(); d.sort(); if d != (1..=rs.len() as u64).collect::<Vec<_>>() || !e.partly_del_files.is_empty() { return Err(format!("files deleted: {d:?}")); }
            Ok(())
        }
    }
}
fn gen(r: &mut vx::Rng, kind: u8) -> Case {
    let n = 1 + r.below(4) as usize; let wide = r.chance(1, 2); let span = if wide { 40 } else { 12 }; let mut files = vec![]; let lvl = r.below(n as u64 + 1) as usize; let ncols = r.below(3);
    let out = if kind == 2 || r.chance(1, 5) { (i64::MIN, i64::MAX) } else { let a = r.below(span) as i64 - 1; let b = a + r.below(span) as i64; (a, b) };
    let mut v = 1; let mut next_t = 0i64; let mut next_sid = 1u32;
    for i in 0..n {
        let level = kind == 1 && i == lvl; let mut series = BTreeMap::new(); let ns = 1 + r.below(3);
        if r.chance(1, 4) { v += 1; }
        let cols: Vec<u32> = std::iter::once(0).chain((1..=1 + v as u32).filter(|_| true)).take(2 + ncols as usize + v as usize).collect();
        let (lo, hi) = if kind == 2 { let lo = next_t; next_t += 1 + r.below(15) as i64; (lo, next_t) } else if level { (out.0.max(-1), out.1.min(span as i64 + 2)) } else { (0, span as i64) };
        for _ in 0..ns {
            let sid = if r.chance(1, 6) { next_sid += 1; next_sid } else { 1 + r.below(4) as u32 };
            let mut rows: Rows = vec![]; let dense = r.chance(1, 2);
            for t in lo..hi { if (dense || r.chance(1, 3)) && rows.len() < 30 { rows.push((t, (1..cols.len()).map(|_| if r.chance(1, 4) { None } else { Some(r.below(1000) as i64 + 1000 * i as i64) }).collect())); } }
            if rows.is_empty() { if lo >= hi { continue; } rows.push((lo + r.below((hi - lo) as u64) as i64, vec![Some(7 + i as i64); cols.len() - 1])); }
            let mut cgs: Vec<Rows> = vec![]; while !rows.is_empty() { let k = (1 + r.below(9) as usize).min(rows.len()); cgs.push(rows.drain(..k).collect()); } series.insert(sid, cgs);
        }
        if series.is_empty() { continue; }
        let tomb = (0..r.below(6)).filter(|x| *x > 3).map(|_| { let a = r.below(span) as i64; (1 + r.below(4) as u32, a, a + r.below(6) as i64) }).collect();
        // a delta file an earlier compaction already took a part of
        let excl = if kind == 1 && !level && r.chance(1, 3) { let a = r.below(span) as i64 - 1; Some((a, a + r.below(span) as i64)) } else { None };
        files.push(F { ver: v, cols, series, tomb, level, excl });
    }
    if files.is_empty() { return gen(r, kind); }
    Case { files, out, block: [1, 2, 4, 8, 1000][r.below(5) as usize], kind }
}
fn main() {
    let mut h = H::new();
    let one = |k: u32, rows: &[i64], i: i64| -> BTreeMap<u32, Vec<Rows>> { [(k, vec![rows.iter().map(|t| (*t, vec![Some(*t * 10 + i)])).collect()])].into() };
    // series that the files hold in different orders (fixed in 4c9d28f)
    { let f = |s, i| F { ver: 1, cols: vec![0, 1], series: s, tomb: vec![], level: false, excl: None }; let _ = &f;
      for (a, b) in [(2u32, 1u32), (1, 2), (3, 1)] { for block in [1u64, 1000] { let mut s2 = one(b, &[1, 2, 3], 1); s2.extend(one(a, &[3, 4], 1)); let c = Case { files: vec![f(one(a, &[1, 2, 3], 0), 0), f(s2, 1)], out: (i64::MIN, i64::MAX), block, kind: 0 }; h.case("orders", vx::hash(&format!("{c:?}")), &|| format!("{c:?}"), &mut || run(&c)); } } }
    let mut r = h.rng(27);
    for i in 0..h.scale(9_000, 150_000) { let c = gen(&mut r, (i % 3) as u8); h.case(["files", "delta", "level"][c.kind as usize], vx::hash(&format!("{c:?}")), &|| format!("{c:?}"), &mut || run(&c)); }
    h.done();
}
