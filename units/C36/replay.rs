//@prelude
#[allow(warnings)] mod generated { include!("@REPO@/common/protos/src/generated/flatbuffers_generated/models.rs"); }
mod pr {
// the real accessors over the real generated code and the flatbuffers crate
pub use crate::generated::models;
use models::{Column, Points, Table};
use flatbuffers::{ForwardsUOffset, Vector};
pub type PointsResult<T> = Result<T, String>;
pub struct ColumnMissingValuesSnafu; pub struct ColumnMissingNamesSnafu; pub struct ColumnMissingNullbitsSnafu; pub struct TableMissingNameSnafu;
pub trait Ctx<T> { fn context<C>(self, c: C) -> Result<T, String>; } impl<T> Ctx<T> for Option<T> { fn context<C>(self, _: C) -> Result<T, String> { self.ok_or_else(|| std::any::type_name::<C>().to_string()) } } impl<T, E: std::fmt::Debug> Ctx<T> for Result<T, E> { fn context<C>(self, _: C) -> Result<T, String> { self.map_err(|e| format!("{e:?}")) } }
//@extract common/protos/src/lib.rs enum FieldValue
@derive Debug, PartialEq, Clone
@end
//@extract common/protos/src/lib.rs Table::tab_ext
@header impl<'a> Table<'a>
@end
//@extract common/protos/src/lib.rs Column::name_ext
@end
//@extract common/protos/src/lib.rs Column::nullbit_ext
@end
//@extract common/protos/src/lib.rs Column::string_values_len
@end
//@extract common/protos/src/lib.rs Column::string_values
@end
//@extract common/protos/src/lib.rs Column::bool_values_len
@end
//@extract common/protos/src/lib.rs Column::bool_values
@end
//@extract common/protos/src/lib.rs Column::int_values_len
@end
//@extract common/protos/src/lib.rs Column::int_values
@end
//@extract common/protos/src/lib.rs Column::float_values_len
@end
//@extract common/protos/src/lib.rs Column::float_values
@end
//@extract common/protos/src/lib.rs Column::uint_values_len
@end
//@extract common/protos/src/lib.rs Column::uint_values
@end
}
mod md {
use std::collections::HashMap;
use arrow_buffer::builder::BooleanBufferBuilder;
pub type ModelResult<T> = Result<T, String>; pub type ColumnDataResult<T> = Result<T, String>; pub type ColumnId = u32; pub type MiniVec<T> = Vec<T>; pub type TagKey = Vec<u8>; pub type TagValue = Vec<u8>;
pub struct CommonSnafu<S> { pub msg: S } impl<S: Into<String>> CommonSnafu<S> { pub fn build(self) -> String { self.msg.into() } }
pub struct UnsupportedDataTypeSnafu<S> { pub dt: S } impl<S: Into<String>> UnsupportedDataTypeSnafu<S> { pub fn build(self) -> String { self.dt.into() } }
#[derive(PartialEq, Eq, Clone, Debug)] pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond } impl Default for TimeUnit { fn default() -> Self { TimeUnit::Nanosecond } }
//@extract common/models/src/value_type.rs enum PhysicalDType
@derive PartialEq, Eq, Clone, Copy, Debug
@end
impl PhysicalDType { fn to_sql_type_str(&self) -> &'static str { "unknown" } }
//@extract common/models/src/schema/tskv_table_schema.rs enum PhysicalCType
@derive PartialEq, Eq, Clone, Debug
@end
//@extract common/models/src/schema/tskv_table_schema.rs PhysicalCType::default_time
@end
//@extract common/models/src/schema/tskv_table_schema.rs PhysicalCType::to_physical_data_type
@end
//@extract common/models/src/field_value.rs enum FieldVal
@derive Debug, Clone, PartialEq
@end
//@extract common/models/src/mutable_batch.rs struct MutableBatch
@derive Debug, Default
@end
//@extract common/models/src/mutable_batch.rs struct Column
@derive Debug
@end
//@extract common/models/src/column_data_ref.rs struct ColumnDataRef
@derive Debug
@end
//@extract common/models/src/column_data_ref.rs enum PrimaryColumnDataRef
@derive Debug
@end
//@extract common/models/src/column_data_ref.rs ColumnDataRef::new
@end
//@extract common/models/src/mutable_batch.rs Column::new
@end
//@extract common/models/src/mutable_batch.rs MutableBatch::new
@end
//@extract common/models/src/mutable_batch.rs MutableBatch::column_mut
@end
//@extract common/models/src/mutable_batch.rs MutableBatch::finish
@end
//@extract common/models/src/tag.rs struct Tag
@derive Debug, PartialEq, Hash, Clone, Eq
@end
//@extract common/models/src/tag.rs Tag::new_with_column_id
@end
pub mod tag { use super::*; use std::cmp::Ordering;
//@extract common/models/src/tag.rs sort_tags
@end
}
#[derive(Clone, Debug)] pub enum ColumnType { Tag, Time(TimeUnit), Field(PhysicalDType) } impl ColumnType { pub fn to_physical_type(&self) -> PhysicalCType { match self { ColumnType::Tag => PhysicalCType::Tag, ColumnType::Time(u) => PhysicalCType::Time(u.clone()), ColumnType::Field(d) => PhysicalCType::Field(*d) } } }
#[derive(Clone, Debug)] pub struct TableColumn { pub id: ColumnId, pub name: String, pub column_type: ColumnType }
#[derive(Clone, Debug)] pub struct TskvTableSchema { pub db: String, pub name: String, pub columns: Vec<TableColumn>, pub ids: HashMap<ColumnId, usize>, pub prec: crate::tk::Precision }
impl TskvTableSchema { pub fn column(&self, n: &str) -> Option<&TableColumn> { self.columns.iter().find(|c| c.name == n) } pub fn fields_id(&self) -> &HashMap<ColumnId, usize> { &self.ids } pub fn time_column_precision(&self) -> crate::tk::Precision { self.prec } }
use crate::pr::{models::Column as FbC, Ctx}; use flatbuffers::{ForwardsUOffset, Vector}; use arrow_buffer::{BooleanBuffer, Buffer};
pub struct InvalidTagSnafu { pub err: String } pub struct InvalidPointSnafu;
pub mod sk { use super::*; use crate::pr::models::Column;
//@extract common/models/src/series_info.rs struct SeriesKey
@derive Default, Debug, Clone, Hash, PartialEq, Eq
@end
//@extract common/models/src/series_info.rs SeriesKey::tags
@end
//@extract common/models/src/series_info.rs SeriesKey::table
@end
//@extract common/models/src/series_info.rs SeriesKey::build_series_key
@end
//@helpers
}
pub use sk::SeriesKey;
//@helpers
}
mod lp {
use std::borrow::Cow; use std::collections::HashMap;
pub use crate::pr::FieldValue; use crate::md::*;
#[derive(Debug)] pub enum Error { Common { content: String } } pub type Result<T> = std::result::Result<T, Error>;
pub use crate::md::PhysicalDType as ValueType;
use crate::pr::models::{Column as FbColumn, ColumnBuilder, ColumnType as FbColumnType, FieldType, PointsBuilder, TableBuilder, ValuesBuilder};
use flatbuffers::{FlatBufferBuilder, WIPOffset};
use arrow_array::{Array, ArrayRef, BooleanArray, Float64Array, Int64Array, StringArray, TimestampMicrosecondArray, TimestampMillisecondArray, TimestampNanosecondArray, UInt64Array};
use arrow_buffer::builder::BooleanBufferBuilder; use arrow_schema::SchemaRef; use std::sync::Arc; type TskvTableSchemaRef = Arc<TskvTableSchema>;
//@extract common/protocol_parser/src/lib.rs struct Line
@derive Debug, Default, PartialEq
@end
//@extract common/protocol_parser/src/lines_convert.rs fn line_to_batches
@end
//@extract common/protocol_parser/src/lines_convert.rs fn mutable_batches_to_point
@end
//@extract common/protocol_parser/src/lines_convert.rs fn arrow_array_to_points
@end
//@helpers
}
mod tk {
use std::collections::HashMap; use std::borrow::Cow; use std::mem::{size_of, size_of_val}; use std::sync::Arc;
use arrow_buffer::{BooleanBuffer, Buffer}; use flatbuffers::{ForwardsUOffset, Vector};
use crate::md::{ColumnId, FieldVal, MiniVec, PhysicalCType, PhysicalDType, SeriesKey, TskvTableSchema}; use crate::pr::{models::{Column, ColumnType, FieldType}, Ctx};
pub mod protos { pub use crate::pr::models; } type Timestamp = i64;
pub type TskvResult<T> = Result<T, String>; pub struct CommonSnafu<S> { pub reason: S } impl<S: Into<String>> CommonSnafu<S> { pub fn build(self) -> String { self.reason.into() } }
pub struct FieldsIsEmptySnafu; impl FieldsIsEmptySnafu { pub fn build(self) -> String { "fields empty".into() } }
macro_rules! error { ($($x:tt)*) => {} }
//@extract common/utils/src/precision.rs enum Precision
@derive Debug, Clone, Copy, PartialEq, Eq
@end
//@extract common/utils/src/precision.rs timestamp_convert
@end
//@extract tskv/src/mem_cache/row_data.rs struct RowData
@derive Debug, Clone, PartialEq
@end
//@extract tskv/src/mem_cache/row_data.rs RowData::point_to_row_data
@end
impl RowData { fn size(&self) -> usize { 0 } }
//@extract tskv/src/database.rs struct FbSchema
@derive Debug
@end
//@extract tskv/src/database.rs FbSchema::from_fb_column
@end
#[derive(Debug, Clone, Copy, PartialEq)] pub struct TimeRange { pub min_ts: i64, pub max_ts: i64 } impl TimeRange { pub fn none() -> Self { TimeRange { min_ts: i64::MAX, max_ts: i64::MIN } } pub fn new(a: i64, b: i64) -> Self { TimeRange { min_ts: a, max_ts: b } } pub fn merge(&mut self, o: &TimeRange) { self.min_ts = self.min_ts.min(o.min_ts); self.max_ts = self.max_ts.max(o.max_ts); } }
#[derive(Debug)] pub struct OrderedRowsData { pub rows: Vec<RowData> } impl OrderedRowsData { pub fn new() -> Self { Self { rows: vec![] } } pub fn insert(&mut self, r: RowData) { self.rows.push(r) } }
#[derive(Debug)] pub struct RowGroup { pub schema: Arc<TskvTableSchema>, pub range: TimeRange, pub rows: OrderedRowsData, pub size: usize }
type TskvTableSchemaRef = Arc<TskvTableSchema>; type SeriesId = u32;
pub struct Database;
//@extract tskv/src/database.rs Database::build_row_data
@end
//@extract tskv/src/database.rs Database::build_index
@end
pub struct IndexErrSnafu; pub struct ModelSnafu;
// the index: an id for each series, some known before, some of them dropped since
#[derive(Default)] pub struct TSIndex { pub ids: std::cell::RefCell<HashMap<SeriesKey, u32>>, pub dead: Vec<SeriesKey>, pub next: std::cell::Cell<u32> }
impl TSIndex { pub fn get_series_id(&self, k: &SeriesKey) -> Result<Option<u32>, String> { if self.dead.contains(k) { return Ok(None); } Ok(self.ids.borrow().get(k).copied()) } pub fn get_tombstone_series_id(&self, k: &SeriesKey) -> Result<Option<u32>, String> { Ok(if self.dead.contains(k) { self.ids.borrow().get(k).copied() } else { None }) }
  pub fn add_series_if_not_exists(&self, v: Vec<SeriesKey>) -> Result<Vec<(u32, SeriesKey)>, String> { Ok(v.into_iter().map(|k| { let id = self.get_series_id(&k).unwrap().unwrap_or_else(|| { let n = self.next.get() + 1; self.next.set(n); self.ids.borrow_mut().insert(k.clone(), n); n }); (id, k) }).collect()) } }
pub struct RwLock<T>(pub T); impl<T> RwLock<T> { pub fn read(&self) -> &T { &self.0 } pub fn write(&self) -> &T { &self.0 } }
impl Database { pub fn ids<'a>(f: &'a FbSchema<'a>, c: &Vector<'a, ForwardsUOffset<Column<'a>>>, s: &TskvTableSchema, n: usize, i: Arc<RwLock<TSIndex>>, w: bool) -> TskvResult<Vec<(u32, SeriesKey)>> { Self::build_index(f, c, s, n, i, w) } }
pub fn convert(a: Precision, b: Precision, t: i64) -> Option<i64> { timestamp_convert(a, b, t) }
impl Database { pub fn rows(&self, c: &Vector<ForwardsUOffset<Column>>, s: Arc<TskvTableSchema>, m: &mut HashMap<u32, (SeriesKey, RowGroup)>, p: Precision, sids: &[(u32, SeriesKey)], w: bool) -> TskvResult<()> { self.build_row_data(c, s, m, p, sids, w) } }
//@helpers
}
use lp::{FieldValue, Line}; use tk::Precision; use std::collections::{BTreeMap, HashMap, BTreeSet}; use std::borrow::Cow; use std::sync::Arc; use md::*;
// ---- what is stored: table, tags, time, fields of every row, as a multiset ----
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)] enum V { U(u64), I(i64), S(Vec<u8>), F(u64), B(bool) }
fn of(v: &FieldValue) -> V { match v { FieldValue::U64(x) => V::U(*x), FieldValue::I64(x) => V::I(*x), FieldValue::Str(x) => V::S(x.clone()), FieldValue::F64(x) => V::F(x.to_bits()), FieldValue::Bool(x) => V::B(*x) } }
fn ofv(v: &FieldVal) -> V { match v { FieldVal::Unsigned(x) => V::U(*x), FieldVal::Integer(x) => V::I(*x), FieldVal::Bytes(x) => V::S(x.clone()), FieldVal::Float(x) => V::F(x.to_bits()), FieldVal::Boolean(x) => V::B(*x) } }
fn kind(v: &FieldValue) -> PhysicalDType { match v { FieldValue::U64(_) => PhysicalDType::Unsigned, FieldValue::I64(_) => PhysicalDType::Integer, FieldValue::Str(_) => PhysicalDType::String, FieldValue::F64(_) => PhysicalDType::Float, FieldValue::Bool(_) => PhysicalDType::Boolean } }
type Row = (String, BTreeMap<String, String>, i64, BTreeMap<String, V>);
#[derive(Clone, Debug)] struct L { table: String, tags: Vec<(String, String)>, fields: Vec<(String, FieldValue)>, ts: i64 }
fn lines(ls: &[L]) -> Vec<Line<'static>> { ls.iter().map(|l| Line { hash_id: 0, table: Cow::Owned(l.table.clone()), tags: l.tags.iter().map(|x| (Cow::Owned(x.0.clone()), Cow::Owned(x.1.clone()))).collect(), fields: l.fields.iter().map(|x| (Cow::Owned(x.0.clone()), x.1.clone())).collect(), timestamp: l.ts }).collect() }
type Schemas = BTreeMap<String, Arc<TskvTableSchema>>;
// columns a table has once the lines are taken: those of the lines, in some order, with some others
fn schemas(r: &mut vx::Rng, ls: &[L]) -> Schemas {
    let mut t: BTreeMap<String, Vec<(String, ColumnType)>> = BTreeMap::new();
    for l in ls { let e = t.entry(l.table.clone()).or_insert_with(|| vec![("time".into(), ColumnType::Time(TimeUnit::Nanosecond))]); for (k, _) in &l.tags { if !e.iter().any(|x| x.0 == *k) { e.push((k.clone(), ColumnType::Tag)); } } for (k, v) in &l.fields { if !e.iter().any(|x| x.0 == *k) { e.push((k.clone(), ColumnType::Field(kind(v)))); } } }
    t.into_iter().map(|(n, mut c)| { for k in 0..r.below(3) { let f = r.chance(1, 2); c.push((format!("zz{k}"), if f { ColumnType::Field(PhysicalDType::Float) } else { ColumnType::Tag })); } let k = r.below(c.len() as u64) as usize; c.rotate_left(k); let b = r.below(20) as u32; let s = 1 + r.below(9) as u32; (n.clone(), Arc::new(schema(&n, c.into_iter().enumerate().map(|(i, (n, t))| TableColumn { id: b + s * i as u32, name: n, column_type: t }).collect(), r.pick(&[Precision::NS, Precision::NS, Precision::US, Precision::MS])))) }).collect()
}
fn schema(n: &str, columns: Vec<TableColumn>, prec: Precision) -> TskvTableSchema { let mut ids: Vec<u32> = columns.iter().filter(|c| matches!(c.column_type, ColumnType::Field(_))).map(|c| c.id).collect(); ids.sort(); TskvTableSchema { db: "d".into(), name: n.into(), columns, ids: ids.into_iter().enumerate().map(|(i, x)| (x, i)).collect(), prec } }
// the vnode's part of a write: each table's rows by series
fn store(data: &[u8], sc: &Schemas, p: Precision, wal: bool) -> Result<Vec<Row>, String> { store_(data, sc, p, wal, 3).and_then(|a| { tell(&store_(data, sc, p, wal, 1)?, &a)?; Ok(a) }) }
fn store_(data: &[u8], sc: &Schemas, p: Precision, wal: bool, known: usize) -> Result<Vec<Row>, String> {
    let pts = flatbuffers::root::<pr::models::Points>(data).map_err(|e| format!("not a flatbuffer: {e:?}"))?; let mut out = vec![]; let mut idx = Arc::new(tk::RwLock(tk::TSIndex::default())); let mut map = HashMap::new();
    for t in pts.tables().ok_or("no tables")? {
        let name = t.tab_ext()?; let cols = t.columns().ok_or("no columns")?; let n = t.num_rows() as usize; let Some(s) = sc.get(name) else { if wal { continue } else { return Err(format!("no table {name}")) } };
        let f = tk::FbSchema::from_fb_column(name, cols)?; 
        // some series are known, and of these some dropped where this is a replay
        for i in (0..n).filter(|i| i % 3 >= known) { let k = SeriesKey::build_series_key(f.table, &cols, s, &f.tag_indexes, i)?; if idx.0.dead.contains(&k) || idx.0.get_series_id(&k)?.is_some() { continue; } idx.0.add_series_if_not_exists(vec![k.clone()])?; if wal && i % 2 == 0 { Arc::get_mut(&mut idx).unwrap().0.dead.push(k); } }
        let sids = tk::Database::ids(&f, &cols, s, n, idx.clone(), wal)?; if sids.len() != n { return Err(format!("{} ids for {n} rows", sids.len())); }
        for i in 0..n { let k = SeriesKey::build_series_key(f.table, &cols, s, &f.tag_indexes, i)?; if sids[i].1 != k || idx.0.ids.borrow().get(&k) != Some(&sids[i].0) { return Err(format!("row {i} of series {k:?} is given {:?}", sids[i])); } }
        tk::Database.rows(&cols, s.clone(), &mut map, p, &sids, wal)?;
    }
    for (sid, (key, g)) in map { if idx.0.ids.borrow().get(&key) != Some(&sid) { return Err(format!("rows of series {sid} with key {key:?}")); }
        let s = &g.schema; if s.name != key.table { return Err("another table's schema".into()); } let mut tags = BTreeMap::new(); for t in &key.tags { let c = s.columns.iter().find(|c| c.id.to_string().as_bytes() == t.key).ok_or("a tag of no column")?; if !matches!(c.column_type, ColumnType::Tag) { return Err("not a tag".into()); } if tags.insert(c.name.clone(), String::from_utf8(t.value.clone()).unwrap()).is_some() { return Err("a tag twice".into()); } }
        if !key.tags.windows(2).all(|w| w[0].key < w[1].key) { return Err(format!("tags out of order {key:?}")); }
        if g.rows.rows.is_empty() { return Err("an empty group".into()); } if g.range.min_ts != g.rows.rows.iter().map(|r| r.ts).min().unwrap() || g.range.max_ts != g.rows.rows.iter().map(|r| r.ts).max().unwrap() { return Err("range of the group".into()); }
        for r in &g.rows.rows { if r.fields.len() != s.ids.len() { return Err("number of fields".into()); } let mut fs = BTreeMap::new(); for c in &s.columns { if let ColumnType::Field(d) = c.column_type { if let Some(v) = &r.fields[s.ids[&c.id]] { let ok = match (v, d) { (FieldVal::Float(_), PhysicalDType::Float) | (FieldVal::Integer(_), PhysicalDType::Integer) | (FieldVal::Unsigned(_), PhysicalDType::Unsigned) | (FieldVal::Boolean(_), PhysicalDType::Boolean) | (FieldVal::Bytes(_), PhysicalDType::String) => true, _ => false }; if !ok { return Err(format!("a {v:?} in column {c:?}")); } fs.insert(c.name.clone(), ofv(v)); } } } out.push((s.name.clone(), tags.clone(), r.ts, fs)); } }
    out.sort(); Ok(out)
}
// rows as the lines say, as far as the schema has their columns
fn want(ls: &[L], sc: &Schemas, p: Precision) -> Vec<Row> {
    let mut o: Vec<Row> = ls.iter().filter_map(|l| { let s = sc.get(&l.table)?; let fs: BTreeMap<String, V> = l.fields.iter().filter(|(k, v)| matches!(s.column(k), Some(TableColumn { column_type: ColumnType::Field(d), .. }) if *d == kind(v))).map(|(k, v)| (k.clone(), of(v))).collect(); if fs.is_empty() { return None } Some((l.table.clone(), l.tags.iter().cloned().collect(), tk::convert(p, s.prec, l.ts)?, fs)) }).collect(); o.sort(); o
}
fn tell(a: &[Row], b: &[Row]) -> Result<(), String> { if a == b { return Ok(()) } let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); Err(format!("{} rows stored, {} written; first difference: stored {:?}, written {:?}", a.len(), b.len(), a.get(i), b.get(i))) }
fn value(r: &mut vx::Rng, d: u64) -> FieldValue { match d { 0 => FieldValue::U64(r.word()), 1 => FieldValue::I64(r.word() as i64), 2 => { let n = r.below(4); FieldValue::Str((0..n).map(|_| r.pick(&["a", "中", "\"", "\\", " "])).collect::<String>().into_bytes()) } 3 => FieldValue::F64(f64::from_bits(r.word())), _ => FieldValue::Bool(r.chance(1, 2)) } }
fn make(r: &mut vx::Rng) -> Vec<L> {
    let n = 1 + if r.chance(1, 60) { 250 + r.below(300) } else { r.pick(&[0, 1, 3, 9, 40]) }; let mut d: HashMap<(String, String), u64> = HashMap::new(); let nt = 1 + r.below(3); let nf = 1 + r.below(5); let ng = r.below(4);
    (0..n).map(|_| { let table = format!("t{}", r.below(nt)); let tags = (0..ng).filter(|_| true).filter_map(|i| if r.chance(2, 3) { Some((format!("g{i}"), r.pick(&["a", "b", "", "中"]).to_string())) } else { None }).collect(); let mut fields: Vec<(String, FieldValue)> = vec![]; for i in 0..nf { if r.chance(1, 2) || (i + 1 == nf && fields.is_empty()) { let k = format!("f{i}"); let t = r.below(5); let t = *d.entry((table.clone(), k.clone())).or_insert(t); fields.push((k, value(r, t))); } } let ts = if r.chance(1, 3) { 5 } else { (r.word() as i64) / 1_000_000 }; L { table, tags, fields, ts } }).collect()
}
fn go(ls: &[L], sc: &Schemas, p: Precision, wal: bool) -> Result<Vec<Row>, String> { let l = lines(ls); let b = lp::line_to_batches(&l).map_err(|e| format!("refused: {e:?}"))?; store(&lp::mutable_batches_to_point("d", b), sc, p, wal) }
fn main() {
    let mut h = vx::H::new();
    for seed in 0..h.scale(5000, 60000) as u64 {
        let mut r = h.rng(3000 + seed); let ls = make(&mut r); let sc = schemas(&mut r, &ls); let p = r.pick(&[Precision::NS, Precision::MS, Precision::US]);
        // values conv overflows are refused as a whole: such batches say nothing here
        let ls: Vec<L> = ls.into_iter().filter(|l| tk::convert(p, sc[&l.table].prec, l.ts).is_some()).collect(); if ls.is_empty() { continue; }
        let s = format!("{ls:?} {sc:?} {p:?}");
        h.case("write", vx::hash(&s), &|| format!("lines {ls:?} into {sc:?} precision {p:?}"), &mut || tell(&go(&ls, &sc, p, false)?, &want(&ls, &sc, p)));
        // logged, then tables and columns dropped or made anew with another type, then replayed
        let mut sc2: Schemas = Schemas::new();
        for (n, t) in &sc { if r.chance(1, 4) { continue; } let mut cs: Vec<TableColumn> = vec![]; for c in &t.columns { let mut c = c.clone(); if let ColumnType::Field(d) = c.column_type { match r.below(5) { 0 => continue, 1 => { c.column_type = ColumnType::Field(r.pick(&[PhysicalDType::Float, PhysicalDType::Integer, PhysicalDType::String])); } 2 => { c.column_type = ColumnType::Tag; } _ => {} } } cs.push(c); } sc2.insert(n.clone(), Arc::new(schema(n, cs, t.prec))); }
        let s = format!("{ls:?} {sc2:?} {p:?} replay");
        h.case("replay", vx::hash(&s), &|| format!("lines {ls:?} replayed into {sc2:?} precision {p:?}"), &mut || tell(&go(&ls, &sc2, p, true)?, &want(&ls, &sc2, p)));
        // a write is refused where the schema does not have what it names
        let missing = ls.iter().any(|l| match sc2.get(&l.table) { None => true, Some(s) => l.fields.iter().any(|(k, v)| !matches!(s.column(k), Some(TableColumn { column_type: ColumnType::Field(d), .. }) if *d == kind(v))) });
        if missing { h.case("refuse", vx::hash(&(s + "w")), &|| format!("lines {ls:?} written to {sc2:?}"), &mut || match go(&ls, &sc2, p, false) { Err(_) => Ok(()), Ok(r) => Err(format!("taken as {r:?}")) }); }
        // a name used for a tag and for a field, or for fields of two types, in one table
        let mut bad = ls.clone(); let i = r.below(bad.len() as u64) as usize; let t = bad[i].table.clone(); let k = bad[i].fields[0].0.clone(); let v = bad[i].fields[0].1.clone(); let other = if r.chance(1, 2) { L { table: t, tags: vec![(k, "x".into())], fields: vec![("fz".into(), FieldValue::I64(1))], ts: 5 } } else { L { table: t, tags: vec![], fields: vec![(k, match v { FieldValue::I64(_) => FieldValue::U64(1), _ => FieldValue::I64(1) })], ts: 5 } }; let at = r.below(bad.len() as u64 + 1) as usize; bad.insert(at, other);
        h.case("two-types", vx::hash(&format!("{bad:?}")), &|| format!("lines {bad:?}"), &mut || { let l = lines(&bad); match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lp::line_to_batches(&l).map(|_| ()))) { Ok(Err(_)) => Ok(()), Ok(Ok(_)) => Err("a column of two types was taken".into()), Err(_) => Err("panic".into()) } });
        // INSERT: the rows of a record batch
        arrow(&mut h, &mut r);
    }
    h.done();
}
fn arrow(h: &mut vx::H, r: &mut vx::Rng) {
    use arrow_array::*; use arrow_schema::{DataType, Field, Schema}; use std::sync::Arc;
    let n = 1 + r.below(20) as usize; let unit = r.pick(&[Precision::MS, Precision::US, Precision::NS]); let u = match unit { Precision::MS => TimeUnit::Millisecond, Precision::US => TimeUnit::Microsecond, _ => TimeUnit::Nanosecond };
    let mut cols: Vec<(String, ColumnType, ArrayRef)> = vec![]; let mut ls: Vec<L> = (0..n).map(|_| L { table: "t".into(), tags: vec![], fields: vec![], ts: r.word() as i64 }).collect();
    let ts: Vec<i64> = ls.iter().map(|l| l.ts).collect(); cols.push(("time".into(), ColumnType::Time(u), match unit { Precision::MS => Arc::new(TimestampMillisecondArray::from(ts)), Precision::US => Arc::new(TimestampMicrosecondArray::from(ts)), _ => Arc::new(TimestampNanosecondArray::from(ts)) }));
    for i in 0..r.below(3) { let v: Vec<Option<String>> = (0..n).map(|k| if r.chance(1, 2) { let t = r.pick(&["a", "b", "", "中"]).to_string(); ls[k].tags.push((format!("g{i}"), t.clone())); Some(t) } else { None }).collect(); cols.push((format!("g{i}"), ColumnType::Tag, Arc::new(StringArray::from(v)))); }
    for i in 0..1 + r.below(5) { let d = r.below(5); let name = format!("f{i}"); let v: Vec<Option<FieldValue>> = (0..n).map(|k| if i == 0 || r.chance(1, 2) { let x = value(r, d); ls[k].fields.push((name.clone(), x.clone())); Some(x) } else { None }).collect();
        macro_rules! col { ($a:ident, $p:pat => $e:expr) => { Arc::new($a::from(v.iter().map(|x| match x { Some($p) => Some($e), _ => None }).collect::<Vec<_>>())) as ArrayRef } }
        let (t, a) = match d { 0 => (PhysicalDType::Unsigned, col!(UInt64Array, FieldValue::U64(x) => *x)), 1 => (PhysicalDType::Integer, col!(Int64Array, FieldValue::I64(x) => *x)), 2 => (PhysicalDType::String, col!(StringArray, FieldValue::Str(x) => String::from_utf8(x.clone()).unwrap())), 3 => (PhysicalDType::Float, col!(Float64Array, FieldValue::F64(x) => *x)), _ => (PhysicalDType::Boolean, col!(BooleanArray, FieldValue::Bool(x) => *x)) }; cols.push((name, ColumnType::Field(t), a)); }
    let k = r.below(cols.len() as u64) as usize; cols.rotate_left(k);
    let cs: Vec<TableColumn> = cols.iter().enumerate().map(|(i, c)| TableColumn { id: 3 * i as u32 + 1, name: c.0.clone(), column_type: c.1.clone() }).collect(); let k = r.below(cs.len() as u64) as usize; let mut cs = cs; cs.rotate_left(k);
    let s = Arc::new(schema("t", cs, unit)); let sc: Schemas = [("t".to_string(), s.clone())].into_iter().collect();
    let sch = Arc::new(Schema::new(cols.iter().map(|c| Field::new(c.0.clone(), c.2.data_type().clone(), true)).collect::<Vec<_>>())); let arrays: Vec<ArrayRef> = cols.iter().map(|c| c.2.clone()).collect();
    let key = format!("{ls:?} {s:?}");
    h.case("insert", vx::hash(&key), &|| format!("record batch of {ls:?} into {s:?}"), &mut || { let d = lp::arrow_array_to_points(arrays.clone(), sch.clone(), s.clone(), n).map_err(|e| format!("{e:?}"))?; tell(&store(&d, &sc, unit, false)?, &want(&ls, &sc, unit)) });
}
