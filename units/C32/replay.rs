//@prelude
mod mc {
use std::cmp::{self, max, min, Ordering as CmpOrdering}; use std::collections::{BTreeMap, HashMap, LinkedList}; use std::mem::{size_of, size_of_val}; use std::ops::{Bound as StdBound, RangeBounds}; use std::sync::atomic::{AtomicBool, AtomicU64, Ordering}; use std::sync::Arc;
macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
macro_rules! error { ($($t:tt)*) => { quiet!($($t)*) }; }
pub type ColumnId = u32; pub type ColumnFileId = u64; pub type SeriesId = u32; pub type VnodeId = u32; pub type Timestamp = i64; pub type SchemaVersion = u64; pub type TskvTableSchemaRef = Arc<TskvTableSchema>;
// ---- stand-ins: errors, keys, pool, locks ----
#[derive(Debug)] pub struct TskvError(pub String); pub type TskvResult<T, E = TskvError> = Result<T, E>;
pub struct CommonSnafu<A> { reason: A } impl<A: Into<String>> CommonSnafu<A> { fn build(self) -> TskvError { TskvError(self.reason.into()) } }
pub struct MemoryExhaustedSnafu; impl MemoryExhaustedSnafu { fn build(self) -> TskvError { TskvError("memory".into()) } } pub struct FieldsIsEmptySnafu; impl FieldsIsEmptySnafu { fn build(self) -> TskvError { TskvError("no field".into()) } }
pub trait Ctx<T> { fn context<A: Into<String>>(self, c: CommonSnafu<A>) -> TskvResult<T>; } impl<T> Ctx<T> for Option<T> { fn context<A: Into<String>>(self, c: CommonSnafu<A>) -> TskvResult<T> { self.ok_or_else(|| c.build()) } }
#[derive(Debug, Clone, PartialEq, Eq, Default)] pub struct SeriesKey(pub String);
#[derive(Debug)] pub struct RwLock<T>(std::sync::RwLock<T>); impl<T> RwLock<T> { pub fn new(t: T) -> Self { RwLock(std::sync::RwLock::new(t)) } pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> { self.0.read().unwrap_or_else(|e| e.into_inner()) } pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> { self.0.write().unwrap_or_else(|e| e.into_inner()) } }
pub type RwLockRef<T> = Arc<RwLock<T>>; pub struct Pool; pub type MemoryPoolRef = Arc<Pool>; #[derive(Debug)] pub struct MemoryReservation(usize); impl MemoryReservation { fn try_grow(&mut self, n: usize) -> Result<(), ()> { self.0 += n; Ok(()) } fn size(&self) -> usize { self.0 } }
pub struct MemoryConsumer; impl MemoryConsumer { fn new(_: String) -> Self { Self } fn register(self, _: &MemoryPoolRef) -> MemoryReservation { MemoryReservation(0) } }
// ---- stand-in: the skiplist crate (a new element goes before the elements equal to it) ----
pub mod skiplist {
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct OrderedSkipList<T>(pub Vec<T>); pub type Iter<'a, T> = std::slice::Iter<'a, T>; pub mod skiplist { pub use super::Iter; }
    impl<T: PartialOrd> OrderedSkipList<T> { pub fn new() -> Self { Self(vec![]) } pub unsafe fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, _f: F) {} pub fn insert(&mut self, t: T) { let p = self.0.partition_point(|x| *x < t); self.0.insert(p, t) } pub fn iter(&self) -> Iter<'_, T> { self.0.iter() } pub fn len(&self) -> usize { self.0.len() } pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn clear(&mut self) { self.0.clear() } pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) } pub fn front(&self) -> Option<&T> { self.0.first() } pub fn back(&self) -> Option<&T> { self.0.last() } pub fn get(&self, i: &usize) -> Option<&T> { self.0.get(*i) } pub fn pop_front(&mut self) -> Option<T> { if self.0.is_empty() { None } else { Some(self.0.remove(0)) } } pub fn pop_back(&mut self) -> Option<T> { self.0.pop() } }
    impl<T> IntoIterator for OrderedSkipList<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
    impl<'a, T> IntoIterator for &'a OrderedSkipList<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<T> std::ops::Index<usize> for OrderedSkipList<T> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[i] } }
}
use skiplist::OrderedSkipList;
// ---- stand-ins: values and column types ----
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum TimeUnit { Nanosecond } #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ValueType { Integer, Float }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum ColumnType { Tag, Time(TimeUnit), Field(ValueType) } #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum PhysicalDType { Integer, Float, Other } #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum PhysicalCType { P(PhysicalDType) }
impl ColumnType { pub fn is_tag(&self) -> bool { matches!(self, ColumnType::Tag) } pub fn is_time(&self) -> bool { matches!(self, ColumnType::Time(_)) } pub fn is_field(&self) -> bool { matches!(self, ColumnType::Field(_)) } fn to_physical_type(&self) -> PhysicalCType { PhysicalCType::P(self.to_physical_data_type()) } fn to_physical_data_type(&self) -> PhysicalDType { match self { ColumnType::Field(ValueType::Integer) => PhysicalDType::Integer, ColumnType::Field(ValueType::Float) => PhysicalDType::Float, _ => PhysicalDType::Other } } }
#[derive(Debug, Clone, PartialEq, Eq)] pub struct TableColumn { pub id: ColumnId, pub name: String, pub column_type: ColumnType }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum FieldVal { Integer(i64), Float(u64) } #[derive(Debug, Clone, PartialEq, Eq)] pub struct DataType(pub i64, pub FieldVal); impl FieldVal { fn data_value(&self, ts: i64) -> DataType { DataType(ts, self.clone()) } fn heap_size(&self) -> usize { 0 } fn kind(&self) -> PhysicalDType { match self { FieldVal::Integer(_) => PhysicalDType::Integer, FieldVal::Float(_) => PhysicalDType::Float } } }
//@extract common/models/src/schema/tskv_table_schema.rs struct TskvTableSchema
@derive Debug, Clone, PartialEq, Eq
@end
impl TskvTableSchema { pub fn next_id(&self) -> ColumnId { self.next_column_id } }
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::new
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::build_fields_ids
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::add_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::drop_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::change_column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::column
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::column_name
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::columns
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::fields
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::fields_orderby_id
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::fields_id
@end
//@extract common/models/src/schema/tskv_table_schema.rs TskvTableSchema::time_column
@end
// ---- time ranges ----
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Debug, Clone, Copy, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs struct TimeRanges
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl TimeRanges
@end
// ---- stand-ins: pages and array builders, which keep what they are given ----
pub struct Bits(usize); pub struct Valid(Vec<bool>); impl Valid { fn finish_cloned(&self) -> Valid { Valid(self.0.clone()) } fn count_set_bits(&self) -> usize { self.0.iter().filter(|b| **b).count() } fn len(&self) -> usize { self.0.len() } fn is_empty(&self) -> bool { self.0.is_empty() } }
pub struct ColumnData { pub valid: Valid } pub struct MutableColumnRef { pub col: TableColumn, pub column_data: ColumnData, pub vals: Vec<Option<FieldVal>>, pub times: Vec<i64> }
impl MutableColumnRef { fn empty(col: TableColumn) -> TskvResult<Self> { Ok(Self { col, column_data: ColumnData { valid: Valid(vec![]) }, vals: vec![], times: vec![] }) } fn push_ts(&mut self, t: i64) -> TskvResult<()> { self.times.push(t); self.column_data.valid.0.push(true); Ok(()) }
 fn push(&mut self, v: Option<&FieldVal>) -> TskvResult<()> { if let Some(v) = v { if v.kind() != self.col.column_type.to_physical_data_type() { return Err(TskvError(format!("a {v:?} is put in the column {:?}", self.col))); } } self.vals.push(v.cloned()); self.column_data.valid.0.push(v.is_some()); Ok(()) } }
pub mod page { pub struct Page { pub col: super::TableColumn, pub vals: Vec<Option<super::FieldVal>>, pub times: Vec<i64> } impl Page { pub fn colref_to_page(c: super::MutableColumnRef) -> super::TskvResult<Page> { Ok(Page { col: c.col, vals: c.vals, times: c.times }) } } }
pub struct Builder(PhysicalCType, pub Vec<(i64, Option<FieldVal>)>); pub struct ArrayBuilderPtr { pub ptr: Builder } pub struct RowIterator;
impl RowIterator { fn new_column_builder(k: &PhysicalCType, _: usize) -> TskvResult<Builder> { Ok(Builder(*k, vec![])) } }
impl ArrayBuilderPtr { fn new(ptr: Builder, _: PhysicalCType) -> Self { Self { ptr } } fn append_timestamp(&mut self, _: &TimeUnit, t: i64) { self.ptr.1.push((t, None)) } fn append_value(&mut self, k: PhysicalDType, v: Option<DataType>, n: &str) -> TskvResult<()> { if let Some(v) = &v { if v.1.kind() != k { return Err(TskvError(format!("a {v:?} is put in the column '{n}'"))); } } self.ptr.1.push(match v { Some(v) => (v.0, Some(v.1)), None => (0, None) }); Ok(()) } }
// ---- the memory cache ----
//@extract tskv/src/mem_cache/row_data.rs struct RowData
@derive Debug, Clone, Eq, PartialEq
@end
//@extract tskv/src/mem_cache/row_data.rs struct RowDataRef
@derive Debug, Clone, Eq, PartialEq
@end
//@extract tskv/src/mem_cache/row_data.rs RowData::size
@end
//@extract tskv/src/mem_cache/row_data.rs impl PartialOrd for RowData
@end
//@extract tskv/src/mem_cache/row_data.rs struct OrderedRowsData
@derive Debug, Eq, PartialEq
@end
//@extract tskv/src/mem_cache/row_data.rs impl OrderedRowsData
@end
//@extract tskv/src/mem_cache/row_data.rs impl Default for OrderedRowsData
@end
//@extract tskv/src/mem_cache/row_data.rs impl Clone for OrderedRowsData
@end
//@extract tskv/src/mem_cache/series_data.rs struct RowGroup
@derive Debug, Clone, Eq, PartialEq
@end
//@extract tskv/src/mem_cache/series_data.rs struct SeriesData
@derive Debug
@end
//@extract tskv/src/mem_cache/series_data.rs impl SeriesData
@end
//@extract tskv/src/mem_cache/series_data.rs struct SeriesDedupMergeSortIterator
@end
//@extract tskv/src/mem_cache/series_data.rs impl SeriesDedupMergeSortIterator
@end
//@extract tskv/src/mem_cache/series_data.rs impl Iterator for SeriesDedupMergeSortIterator
@end
//@extract tskv/src/mem_cache/memcache.rs struct MemCacheStatistics
@end
//@extract tskv/src/mem_cache/memcache.rs struct MemCache
@end
//@extract tskv/src/mem_cache/memcache.rs struct MemCacheSeriesScanIterator
@end
//@extract tskv/src/mem_cache/memcache.rs impl MemCacheSeriesScanIterator
@end
//@extract tskv/src/mem_cache/memcache.rs impl Iterator for MemCacheSeriesScanIterator
@end
//@extract tskv/src/mem_cache/memcache.rs impl MemCache
@end
//@extract tskv/src/reader/memcache_reader.rs enum MemcacheReadMode
@end
//@extract tskv/src/reader/memcache_reader.rs struct MemCacheReader
@end
//@extract tskv/src/reader/memcache_reader.rs impl MemCacheReader
@end
impl MemCacheReader { pub fn pub_columns(&self) -> &Vec<TableColumn> { &self.columns } pub fn pub_read(&self) -> TskvResult<Vec<Vec<(i64, Option<FieldVal>)>>> { Ok(self.read_data_and_build_array()?.into_iter().map(|b| b.ptr.1).collect()) } }
//@helpers
}
use mc::*; use std::collections::BTreeMap; use std::collections::HashMap; use std::sync::Arc;
#[derive(Debug, Clone)] enum Op { Write { sid: u32, schema: usize, rows: Vec<(i64, Vec<(u32, FieldVal)>)> }, Drop { sid: u32, id: u32 }, Delete { sid: u32, ranges: Vec<(i64, i64)> }, DeleteSeries { sid: u32, range: (i64, i64) }, Read { sid: u32, ids: Vec<u32>, ranges: Vec<(i64, i64)> } }
#[derive(Default)] struct Model { rows: BTreeMap<i64, BTreeMap<u32, FieldVal>>, latest: Option<(u64, Vec<TableColumn>)> }
fn col(id: u32, float: bool) -> TableColumn { TableColumn { id, name: format!("f{id}"), column_type: ColumnType::Field(if float { ValueType::Float } else { ValueType::Integer }) } }
fn schema(v: u64, cols: Vec<TableColumn>) -> Arc<TskvTableSchema> { let mut all = vec![TableColumn { id: 0, name: "time".into(), column_type: ColumnType::Time(TimeUnit::Nanosecond) }, TableColumn { id: 1, name: "t".into(), column_type: ColumnType::Tag }]; all.extend(cols); let mut s = TskvTableSchema::new("t".into(), "d".into(), "m".into(), all); s.schema_version = v; Arc::new(s) }
fn group(s: &Arc<TskvTableSchema>, rows: &[(i64, Vec<(u32, FieldVal)>)]) -> RowGroup {
    let mut g = RowGroup { schema: s.clone(), range: TimeRange::none(), rows: OrderedRowsData::new(), size: 1 }; let ids = s.fields_id();
    for (ts, vals) in rows { let mut fields = vec![None; ids.len()]; for (id, v) in vals { fields[ids[id]] = Some(v.clone()); } g.range.merge(&TimeRange::new(*ts, *ts)); g.rows.insert(RowData { ts: *ts, fields }); } g
}
fn tr(r: &[(i64, i64)]) -> TimeRanges { TimeRanges::new(r.iter().map(|x| TimeRange::new(x.0, x.1)).collect()) }
fn run(schemas: &[Arc<TskvTableSchema>], ops: &[Op], parts: usize) -> Result<(), String> {
    let c = MemCache::new(1, 1, 1 << 40, parts, 0, &Arc::new(Pool)); let mut m: BTreeMap<u32, Model> = BTreeMap::new(); let mut seq = 0;
    for (n, op) in ops.iter().enumerate() { match op {
        Op::Write { sid, schema, rows } => { let s = &schemas[*schema]; seq += 1; c.write_group(*sid, SeriesKey(format!("s{sid}")), seq, group(s, rows)).map_err(|e| format!("op {n}: {e:?}"))?;
            let e = m.entry(*sid).or_default(); for (ts, vals) in rows { let r = e.rows.entry(*ts).or_default(); for (id, v) in vals { r.insert(*id, v.clone()); } }
            let mut f = s.fields(); f.sort_by_key(|c| c.id); if e.latest.as_ref().map_or(true, |l| l.0 <= s.schema_version) { e.latest = Some((s.schema_version, f)); } }
        Op::Drop { sid, id } => { c.drop_columns(&[*sid], &[*id]); if let Some(e) = m.get_mut(sid) { for r in e.rows.values_mut() { r.remove(id); } if let Some(l) = e.latest.as_mut() { l.1.retain(|c| c.id != *id); } } }
        Op::Delete { sid, ranges } => { c.delete_series_by_time_ranges(&[*sid], &tr(ranges)); if let Some(e) = m.get_mut(sid) { e.rows.retain(|t, _| !ranges.iter().any(|r| r.0 <= *t && *t <= r.1)); } }
        Op::DeleteSeries { sid, range } => { c.delete_series(&[*sid], &TimeRange::new(range.0, range.1)); if let Some(e) = m.get_mut(sid) { e.rows.retain(|t, _| !(range.0 <= *t && *t <= range.1)); } }
        Op::Read { sid, ids, ranges } => { read(&c, *sid, m.get(sid), ids, ranges).map_err(|e| format!("op {n} (read): {e}"))?; } } }
    if c.is_empty() != m.is_empty() { return Err(format!("is_empty() is {}", c.is_empty())); } if c.seq_no() != seq { return Err(format!("the last write is number {} not {seq}", c.seq_no())); }
    let mut seen = BTreeMap::new(); let cache = Arc::new(RwLock::new(c));
    for s in MemCacheSeriesScanIterator::new(cache.clone()) { let s = s.read(); let sid = s.series_id; if seen.insert(sid, ()).is_some() { return Err(format!("series {sid} is flushed twice")); } let e = m.get(&sid).ok_or(format!("series {sid} is flushed and was never written"))?; if s.series_key != SeriesKey(format!("s{sid}")) { return Err(format!("series {sid} has the key {:?}", s.series_key)); }
        for t in e.rows.keys() { if !s.range.contains(*t) { return Err(format!("series {sid} is flushed with the time range {:?}, a row is at {t}", s.range)); } }
        let (sch, pages) = s.convert_to_page().map_err(|e| format!("flush of series {sid}: {e:?}"))?.ok_or(format!("series {sid} flushes nothing"))?; let (_, cols) = e.latest.clone().unwrap(); let mut have = sch.fields(); have.sort_by_key(|c| c.id); if have != cols { return Err(format!("series {sid} is flushed with the fields {have:?}, the newest are {cols:?}")); }
        if e.rows.is_empty() { if !pages.is_empty() { return Err(format!("series {sid} has no row, {} pages are flushed", pages.len())); } continue; }
        if pages.len() != cols.len() + 1 { return Err(format!("series {sid}: {} pages for {} columns and time", pages.len(), cols.len())); } let want: Vec<i64> = e.rows.keys().copied().collect(); if pages[0].times != want || !pages[0].col.column_type.is_time() { return Err(format!("series {sid}: the time page holds {:?}, written were {want:?}", pages[0].times)); }
        for (p, c) in pages[1..].iter().zip(&cols) { let want: Vec<_> = e.rows.values().map(|r| r.get(&c.id).cloned()).collect(); if p.col != *c || p.vals != want { return Err(format!("series {sid}: the page of {} holds {:?}, the newest values are {want:?} at {:?}", p.col.name, p.vals, pages[0].times)); } } }
    if seen.len() != m.len() { return Err(format!("{} of {} series are flushed", seen.len(), m.len())); } Ok(())
}
fn read(c: &MemCache, sid: u32, e: Option<&Model>, ids: &[u32], ranges: &[(i64, i64)]) -> Result<(), String> {
    let s = c.read_series_data_by_id(sid); let (Some(s), Some(e)) = (s, e) else { return match (c.read_series_data_by_id(sid), e) { (None, None) => Ok(()), (a, _) => Err(format!("series {sid} is {} in the cache", if a.is_some() { "" } else { "not" })) } };
    let inside = |t: &i64| ranges.iter().any(|r| r.0 <= *t && *t <= r.1); let cols: Vec<TableColumn> = e.latest.clone().unwrap().1; let want: Vec<(i64, &BTreeMap<u32, FieldVal>)> = e.rows.iter().filter(|r| inside(r.0)).map(|r| (*r.0, r.1)).collect();
    let mut proj = vec![0]; proj.extend(ids); let r = MemCacheReader::try_new(s.clone(), Arc::new(tr(ranges)), 4, &proj, HashMap::new()).map_err(|e| format!("{e:?}"))?.ok_or("no reader")?; let ids: Vec<u32> = ids.iter().copied().filter(|i| cols.iter().any(|c| c.id == *i)).collect();
    let got: Vec<u32> = r.pub_columns().iter().map(|c| c.id).collect(); if got[1..] != ids { return Err(format!("series {sid}: columns {got:?} for {ids:?}")); } let a = r.pub_read().map_err(|e| format!("{e:?}"))?;
    let times: Vec<i64> = a[0].iter().map(|x| x.0).collect(); if times != want.iter().map(|w| w.0).collect::<Vec<_>>() { return Err(format!("series {sid}: rows at {times:?} for {:?}", want.iter().map(|w| w.0).collect::<Vec<_>>())); }
    for (k, id) in ids.iter().enumerate() { let got: Vec<Option<FieldVal>> = a[k + 1].iter().map(|x| x.1.clone()).collect(); let w: Vec<Option<FieldVal>> = want.iter().map(|w| w.1.get(id).cloned()).collect(); if got != w { return Err(format!("series {sid}: column {id} reads {got:?}, the newest values are {w:?} at {times:?}")); } if a[k + 1].iter().zip(&times).any(|(x, t)| x.1.is_some() && x.0 != *t) { return Err("value at another time".into()); } }
    let mut ts = vec![]; c.read_series_timestamps(&[sid], &tr(ranges), |t| ts.push(t)); if ts != times { return Err(format!("series {sid}: timestamps {ts:?} for {times:?}")); } Ok(())
}
fn main() {
    let mut h = vx::H::new();
    for seed in 0..h.scale(8000, 60000) {
        let mut r = h.rng(seed as u64); let nf = 1 + r.below(3) as usize; let mut cols: Vec<TableColumn> = (0..nf as u32).map(|i| col(2 + i, r.chance(1, 2))).collect(); if r.chance(1, 4) { cols.reverse(); } let mut next = 2 + nf as u32; let mut schemas = vec![schema(0, cols.clone())];
        let grid = |k: usize| -> i64 { [0, 1, 2, 3, 5, 8, i64::MAX, i64::MIN, i64::MAX - 1, -1][k] }; let span = r.pick(&[4usize, 6, 10]); let nops = 2 + r.below(9) as usize; let parts = 1 + r.below(3) as usize; let nsid = 1 + r.below(3) as u32; let mut val = 100i64; let mut ops = vec![]; let mut pending: Option<Vec<TableColumn>> = None;
        for _ in 0..nops { let sid = r.below(nsid as _) as u32; match r.below(12) {
            0..=5 => { let cur = schemas.len() - 1; let s = if cur > 0 && r.chance(1, 8) { r.below(cur as _) as usize } else { cur }; let f = schemas[s].fields(); let k = 1 + r.below(4); let mut rows = vec![]; for _ in 0..k { let ts = grid(r.below(span as _) as usize); let mut vals = vec![]; for c in &f { if r.chance(2, 3) { val += 1; vals.push((c.id, if matches!(c.column_type, ColumnType::Field(ValueType::Float)) { FieldVal::Float(val as u64) } else { FieldVal::Integer(val) })); } } rows.push((ts, vals)); } ops.push(Op::Write { sid, schema: s, rows }); }
            6 => { if let Some(p) = pending.take() { cols = p; schemas.push(schema(schemas.len() as u64, cols.clone())); } else if r.chance(1, 2) { cols.push(col(next, r.chance(1, 2))); next += 1; schemas.push(schema(schemas.len() as u64, cols.clone())); } }
            7 => { if pending.is_none() && cols.len() > 1 { let k = r.below(cols.len() as _) as usize; let id = cols[k].id; for s in 0..nsid { ops.push(Op::Drop { sid: s, id }); } let mut p = cols.clone(); p.remove(k); if r.chance(1, 2) { cols = p; schemas.push(schema(schemas.len() as u64, cols.clone())); } else { pending = Some(p); } } }
            8 => { let mut v = vec![]; for _ in 0..1 + r.below(2) { let a = grid(r.below(span as _) as usize); let b = grid(r.below(span as _) as usize); v.push((a.min(b), a.max(b))); } ops.push(Op::Delete { sid, ranges: v }); }
            9 => { let a = grid(r.below(span as _) as usize); let b = grid(r.below(span as _) as usize); ops.push(Op::DeleteSeries { sid, range: (a.min(b), a.max(b)) }); }
            _ => { let mut ids: Vec<u32> = vec![]; for i in 2..next { if r.chance(2, 3) { ids.push(i); } } if r.chance(1, 5) { ids.reverse(); } let mut v = vec![(i64::MIN, i64::MAX)]; if r.chance(1, 3) { let a = grid(r.below(span as _) as usize); let b = grid(r.below(span as _) as usize); v = vec![(a.min(b), a.max(b))]; } ops.push(Op::Read { sid, ids, ranges: v }); } } }
        let key = format!("{:?} {:?} {parts}", ops, schemas.iter().map(|s| s.columns().to_vec()).collect::<Vec<_>>()); let show = format!("schemas {:?}, {ops:?}", schemas.iter().map(|s| s.fields().iter().map(|c| c.id).collect::<Vec<_>>()).collect::<Vec<_>>());
        h.case("history", vx::hash(&key), &|| show.clone(), &mut || run(&schemas, &ops, parts));
    }
    h.done();
}
