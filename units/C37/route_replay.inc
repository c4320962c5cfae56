#[derive(Debug, Clone, PartialEq)] pub enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
use std::borrow::Cow; use std::cmp::Ordering; use std::hash::{Hash, Hasher}; use std::collections::HashMap; use std::sync::Arc; use std::cell::RefCell; use std::rc::Rc;
//@extract common/utils/src/bkdr_hash.rs const SEED
@end
//@extract common/utils/src/bkdr_hash.rs struct BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Hasher for BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Default for BkdrHasher
@end
//@extract common/protocol_parser/src/lib.rs struct Line
@derive Debug, Clone, PartialEq
@end
//@extract common/protocol_parser/src/lib.rs Line::init_hash_id
@end
//@extract common/protocol_parser/src/lib.rs Line::init_ordered_hash_id
@end
//@extract common/protocol_parser/src/lib.rs Line::new
@end
//@extract common/protocol_parser/src/lib.rs Line::sort_dedup_and_hash
@end
mod svc {
use super::{BkdrHasher, Line, Arc, HashMap, RefCell, Rc};
use arrow_array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray, TimestampMicrosecondArray, TimestampMillisecondArray, TimestampNanosecondArray, UInt32Array, Float64Array};
use arrow_schema::{DataType, TimeUnit, SchemaRef};
type Timestamp = i64; pub const TIME_FIELD_NAME: &str = "time";
macro_rules! debug { ($($x:tt)*) => {} }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)] pub struct VnodeInfo { pub id: u32 }
type NodeId = u64; type VnodeId = u32; pub type ReplicationSetId = u32; type TenantId = String;
//@extract common/models/src/meta_data.rs struct ReplicationSet
@derive Debug, Clone, PartialEq, Eq, Hash, Default
@end
//@extract common/models/src/meta_data.rs struct BucketInfo
@derive Debug, Clone, Default
@end
//@extract common/models/src/meta_data.rs BucketInfo::contains
@opt
@end
//@extract common/models/src/meta_data.rs BucketInfo::vnode_for
@end
//@extract common/utils/src/precision.rs enum Precision
@derive Debug, Clone, Copy, PartialEq, Eq
@end
//@extract common/utils/src/precision.rs timestamp_convert
@end
#[derive(Debug)] pub enum MetaError { DatabaseNotFound { database: String }, CommonError { msg: String } }
#[derive(Debug)] pub enum CoordinatorError { TenantNotFound { name: String }, Meta { source: MetaError }, Common { msg: String }, FieldsIsEmpty, Refused }
pub type CoordinatorResult<T> = Result<T, CoordinatorError>; pub type MetaResult<T> = Result<T, MetaError>;
pub struct CommonSnafu<S> { pub msg: S } impl<S: Into<String>> CommonSnafu<S> { pub fn build(self) -> CoordinatorError { CoordinatorError::Common { msg: self.msg.into() } } }
pub struct FieldsIsEmptySnafu; impl FieldsIsEmptySnafu { pub fn build(self) -> CoordinatorError { CoordinatorError::FieldsIsEmpty } }
pub struct MetaSnafu; pub trait Ctx<T> { fn context(self, _: MetaSnafu) -> CoordinatorResult<T>; } impl<T> Ctx<T> for MetaResult<T> { fn context(self, _: MetaSnafu) -> CoordinatorResult<T> { self.map_err(|source| CoordinatorError::Meta { source }) } }
mod tokio { pub mod time { pub use std::time::Instant; } }
pub struct SpanContext; pub struct Span; impl Span { pub fn from_context(_: &str, _: Option<&SpanContext>) -> Span { Span } }
pub struct Count; impl Count { pub fn inc_one(&self) {} pub fn inc(&self, _: u64) {} pub fn add(&self, _: u64) {} }
pub struct Metrics; impl Metrics { pub fn coord_writes(&self, _: &str, _: &str) -> Count { Count } pub fn coord_data_in(&self, _: &str, _: &str) -> Count { Count } pub fn write_lines_prepare(&self, _: &str, _: &str) -> Count { Count } pub fn write_replica_duration(&self, _: &str, _: &str) -> Count { Count } }
pub struct Limiter(pub bool); impl Limiter { pub fn check_coord_writes(&self) -> MetaResult<()> { if self.0 { Ok(()) } else { Err(MetaError::CommonError { msg: "limit".into() }) } } pub fn check_coord_data_in(&self, _: usize) -> MetaResult<()> { Ok(()) } }
pub struct DbConfig(pub Precision); impl DbConfig { pub fn precision(&self) -> &Precision { &self.0 } }
pub struct DbSchema { pub config: DbConfig, pub hidden: bool } impl DbSchema { pub fn is_hidden(&self) -> bool { self.hidden } }
// ---- the meta client: buckets made on demand, one width, the same number of sets in each ----
mod command { #[derive(Debug)] pub enum WriteCommand { CreateBucket(String, String, String, i64) } }
#[derive(Default)] pub struct Held { pub buckets: Vec<BucketInfo> }
impl Held { pub fn bucket_by_timestamp(&self, _db: &str, ts: i64) -> Option<&BucketInfo> { self.buckets.iter().find(|b| b.start_time <= ts && (ts < b.end_time || b.end_time == i64::MAX)) } }
pub struct Held_ { v: RefCell<Vec<Rc<Held>>> } impl Held_ { pub fn read(&self) -> Rc<Held> { self.v.borrow().last().unwrap().clone() } }
pub struct TenantMeta { pub name: String, pub cluster: String, pub data: Held_, pub sets: usize, pub width: i64, pub precision: Precision, pub hidden: bool, pub full: Option<i64>, pub moving: bool, pub asked: std::cell::Cell<u32> }
impl TenantMeta {
    pub fn new(name: &str, sets: usize, width: i64, precision: Precision, hidden: bool, full: Option<i64>, moving: bool) -> Self { Self { name: name.into(), cluster: "c".into(), data: Held_ { v: RefCell::new(vec![Rc::new(Held::default())]) }, sets, width, precision, hidden, full, moving, asked: Default::default() } }
    fn tenant_name(&self) -> String { self.name.clone() }
    pub fn get_db_schema(&self, db: &str) -> MetaResult<Option<DbSchema>> { Ok(if db == "none" { None } else { Some(DbSchema { config: DbConfig(self.precision), hidden: self.hidden }) }) }
    // the bucket of a time; leaders move about, the set of a series stays
    pub fn want(&self, hash: u64, ts: i64) -> u32 { (ts.div_euclid(self.width).rem_euclid(1 << 20) as u32) * 16 + (hash % self.sets as u64) as u32 }
    fn write_with_data(&self, c: &command::WriteCommand) -> MetaResult<()> {
        let command::WriteCommand::CreateBucket(_, t, _, ts) = c; if *t != self.name { return Err(MetaError::CommonError { msg: "another tenant".into() }); }
        if let Some(f) = self.full { if *ts >= f { return Err(MetaError::CommonError { msg: "no".into() }); } }
        let k = ts.div_euclid(self.width); let start = (k as i128 * self.width as i128).max(i64::MIN as i128) as i64; let end = ((k as i128 + 1) * self.width as i128).min(i64::MAX as i128) as i64; self.asked.set(self.asked.get() + 1); let leader = if self.moving { self.asked.get() as u64 } else { 1 };
        let b = BucketInfo { id: 0, start_time: start, end_time: end, shard_group: (0..self.sets).map(|s| ReplicationSet { id: self.want(s as u64, *ts), leader_node_id: leader, leader_vnode_id: self.want(s as u64, *ts) + 7, vnodes: vec![VnodeInfo { id: self.want(s as u64, *ts) + 7 }] }).collect() };
        let mut all = self.data.read().buckets.clone(); if self.moving { for x in all.iter_mut() { for s in x.shard_group.iter_mut() { s.leader_node_id += 1; } } } all.push(b); self.data.v.borrow_mut().push(Rc::new(Held { buckets: all })); Ok(())
    }
}
//@extract meta/src/model/meta_tenant.rs TenantMeta::create_bucket
@end
//@extract meta/src/model/meta_tenant.rs TenantMeta::locate_replication_set_for_write
@end
pub struct MetaManager(pub Rc<TenantMeta>, pub bool); impl MetaManager { pub fn limiter(&self, _: &str) -> MetaResult<Limiter> { Ok(Limiter(self.1)) } pub fn tenant_meta(&self, t: &str) -> Option<Rc<TenantMeta>> { if t == self.0.name { Some(self.0.clone()) } else { None } } }
// ---- requests ----
#[derive(Debug, Clone, PartialEq)] pub struct WriteDataRequest { pub data: Vec<u8>, pub precision: u32 }
pub mod raft_write_command { #[derive(Debug, Clone, PartialEq)] pub enum Command { WriteData(super::WriteDataRequest) } }
#[derive(Debug, Clone, PartialEq)] pub struct RaftWriteCommand { pub replica_id: u32, pub db_name: String, pub tenant: String, pub command: Option<raft_write_command::Command> }
#[derive(Clone)] pub struct Fut { set: ReplicationSet, req: RaftWriteCommand, log: Rc<RefCell<Vec<(ReplicationSet, RaftWriteCommand)>>>, ok: bool }
mod futures { pub mod future { pub fn join_all(v: Vec<super::super::Fut>) -> Vec<super::super::CoordinatorResult<()>> { v.into_iter().map(|f| { f.log.borrow_mut().push((f.set, f.req)); if f.ok { Ok(()) } else { Err(super::super::CoordinatorError::Refused) } }).collect() } } }
pub struct CoordService { pub meta: MetaManager, pub metrics: Metrics, pub log: Rc<RefCell<Vec<(ReplicationSet, RaftWriteCommand)>>>, pub refuse: Vec<u32> }
impl CoordService { fn write_replica_by_raft(&self, set: ReplicationSet, req: RaftWriteCommand, _: Option<&SpanContext>) -> Fut { Fut { ok: !self.refuse.contains(&set.id), set, req, log: self.log.clone() } } }
// ---- the lines and rows in a request, one a line of text ----
pub fn line_to_batches(l: &[Line]) -> Result<Vec<String>, String> { if l.iter().any(|x| x.fields.is_empty()) { Err("no field".into()) } else { Ok(l.iter().map(|x| format!("{x:?}")).collect()) } }
pub fn mutable_batches_to_point(db: &str, b: Vec<String>) -> Vec<u8> { format!("{db}\n{}", b.join("\n")).into_bytes() }
pub fn cell(a: &ArrayRef, i: usize) -> String {
    if a.is_null(i) { return "-".into(); } let x = a.as_any();
    if let Some(v) = x.downcast_ref::<StringArray>() { format!("{:?}", v.value(i)) } else if let Some(v) = x.downcast_ref::<Int64Array>() { v.value(i).to_string() } else if let Some(v) = x.downcast_ref::<Float64Array>() { format!("f{}", v.value(i)) } else if let Some(v) = x.downcast_ref::<TimestampMillisecondArray>() { format!("{}ms", v.value(i)) } else if let Some(v) = x.downcast_ref::<TimestampMicrosecondArray>() { format!("{}us", v.value(i)) } else if let Some(v) = x.downcast_ref::<TimestampNanosecondArray>() { format!("{}ns", v.value(i)) } else { "?".into() }
}
pub fn take(a: &ArrayRef, i: &UInt32Array, _: Option<()>) -> Result<ArrayRef, String> {
    let x = a.as_any(); let n = i.len();
    macro_rules! t { ($($t:ty),*) => { $(if let Some(v) = x.downcast_ref::<$t>() { return Ok(Arc::new((0..n).map(|k| { let k = i.value(k) as usize; if v.is_null(k) { None } else { Some(v.value(k)) } }).collect::<$t>())); })* } }
    t!(StringArray, Int64Array, Float64Array, TimestampMillisecondArray, TimestampMicrosecondArray, TimestampNanosecondArray); Err("type".into())
}
pub fn arrow_array_to_points(c: Vec<ArrayRef>, s: SchemaRef, t: TskvTableSchemaRef, n: usize) -> Result<Vec<u8>, String> { Ok(format!("{}\n{}", t.db, (0..n).map(|i| row_text(&t.name, &s, &c, i)).collect::<Vec<_>>().join("\n")).into_bytes()) }
pub fn row_text(t: &str, s: &SchemaRef, c: &[ArrayRef], i: usize) -> String { format!("{t} {}", s.fields().iter().zip(c).map(|(f, c)| format!("{}={}", f.name(), cell(c, i))).collect::<Vec<_>>().join(" ")) }
#[derive(Debug, Clone, PartialEq)] pub struct ValueType;
//@extract common/models/src/schema/tskv_table_schema.rs enum ColumnType
@derive Debug, Clone, PartialEq
@end
#[derive(Debug, Clone)] pub struct TableColumn { pub name: String, pub column_type: ColumnType }
#[derive(Debug)] pub struct TskvTableSchema { pub tenant: String, pub db: String, pub name: String, pub columns: Vec<TableColumn> } impl TskvTableSchema { pub fn column(&self, n: &str) -> Option<&TableColumn> { self.columns.iter().find(|c| c.name == n) } }
pub type TskvTableSchemaRef = Arc<TskvTableSchema>;
//@extract coordinator/src/service.rs struct VnodeLines
@derive
@end
//@extract coordinator/src/service.rs VnodeLines::new
@header impl<'a> VnodeLines<'a>
@end
//@extract coordinator/src/service.rs VnodeLines::add_line
@header impl<'a> VnodeLines<'a>
@end
//@extract coordinator/src/service.rs fn get_precision_and_value_from_arrow_column
@end
//@extract coordinator/src/service.rs CoordService::push_points_to_requests
@subst /-> CoordinatorResult<Vec<impl[\s\S]*?\+ 'a>>/ => -> CoordinatorResult<Vec<Fut>>
@subst /let mut requests: Vec<Pin<[^;]*> =\s*Vec::new\(\);/ => let mut requests: Vec<Fut> = Vec::new();
@subst /Box::pin\(request\)/ => request
@end
//@extract coordinator/src/service.rs Coordinator for CoordService::write_lines
@header impl CoordService
@end
//@extract coordinator/src/service.rs Coordinator for CoordService::write_record_batch
@header impl CoordService
@end
impl CoordService {
    pub fn lines<'a>(&self, tenant: &str, db: &str, p: Precision, l: Vec<Line<'a>>) -> CoordinatorResult<usize> { self.write_lines(tenant, db, p, l, None) }
    pub fn batch(&self, t: TskvTableSchemaRef, b: RecordBatch, p: Precision) -> CoordinatorResult<usize> { self.write_record_batch(t, b, p, None) }
}
pub fn convert(a: Precision, b: Precision, t: i64) -> Option<i64> { timestamp_convert(a, b, t) }
//@helpers
}
use svc::*;
fn poly(mut n: u64, b: &[u8]) -> u64 { for c in b { n = n.wrapping_mul(1313).wrapping_add(*c as u64); } n }
// the hash of a series: its table and the tags it has, by name
fn series(table: &str, tags: &[(String, String)]) -> u64 { let mut t = tags.to_vec(); t.sort(); let mut b = table.as_bytes().to_vec(); for (k, v) in t { b.extend(k.as_bytes()); b.extend(v.as_bytes()); } poly(0, &b) }
// what was sent, against the rows that belong to each set, in order
fn held(log: &[(ReplicationSet, RaftWriteCommand)], want: &[(u32, String)], db: &str, p: Precision, by_id: bool) -> Result<(), String> {
    let mut got: HashMap<u32, Vec<String>> = HashMap::new(); let mut seen = vec![];
    for (s, q) in log {
        if q.replica_id != s.id || q.db_name != db || q.tenant != "t" { return Err(format!("a request for {}.{} set {} went to set {}", q.tenant, q.db_name, q.replica_id, s.id)); }
        if by_id && seen.contains(&s.id) { return Err(format!("two requests to set {}", s.id)); } seen.push(s.id);
        let Some(raft_write_command::Command::WriteData(w)) = &q.command else { return Err("a request with no data".into()); };
        if w.precision != p as u32 { return Err(format!("a request of precision {} holds times of {p:?}", w.precision)); }
        let t = String::from_utf8(w.data.clone()).unwrap(); let mut it = t.split('\n'); if it.next() != Some(db) { return Err("points of another database".into()); }
        let rows: Vec<String> = it.map(|x| x.to_string()).collect(); if rows.iter().all(|x| x.is_empty()) { return Err(format!("an empty request to set {}", s.id)); }
        got.entry(s.id).or_default().extend(rows);
    }
    let mut exp: HashMap<u32, Vec<String>> = HashMap::new(); for (s, x) in want { exp.entry(*s).or_default().push(x.clone()); }
    if !by_id { for v in got.values_mut().chain(exp.values_mut()) { v.sort(); } }
    for (s, x) in &exp { if got.get(s) != Some(x) { return Err(format!("set {s} was sent {:?}, its rows are {x:?}", got.get(s))); } }
    for (s, x) in &got { if !exp.contains_key(s) { return Err(format!("set {s} was sent {x:?}, no row is of it")); } }
    Ok(())
}
fn names(r: &mut vx::Rng, n: u64) -> Vec<String> { let mut v: Vec<String> = vec![]; for _ in 0..r.below(n + 1) { let x = r.pick(&["host", "h", "region", "aa", "a", "zz", "Z", "é"]).to_string(); if !v.contains(&x) { v.push(x); } } v }
fn any_time(r: &mut vx::Rng) -> i64 { match r.below(12) { 0 => i64::MAX, 1 => i64::MIN, 2 => i64::MAX / 1000 - r.below(3) as i64 + 1, _ => r.below(40) as i64 - 20 } }
