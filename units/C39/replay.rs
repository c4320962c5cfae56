//@prelude
pub use std::borrow::Cow; pub use std::cmp::Ordering; pub use std::sync::Arc; use std::collections::{BTreeMap, BTreeSet, HashMap};
#[derive(Debug, Clone, PartialEq)] pub enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
pub struct BkdrHasher(u64); impl BkdrHasher { pub fn new() -> Self { Self(0) } pub fn hash_with(&mut self, b: &[u8]) { for c in b { self.0 = self.0.wrapping_mul(1313).wrapping_add(*c as u64); } } pub fn number(&self) -> u64 { self.0 } }
pub mod pb {
#[derive(Debug, Clone, PartialEq, Default)] pub struct Label { pub name: String, pub value: String }
#[derive(Debug, Clone, PartialEq, Default)] pub struct Sample { pub value: f64, pub timestamp: i64 }
#[derive(Debug, Clone, PartialEq, Default)] pub struct TimeSeries { pub labels: Vec<Label>, pub samples: Vec<Sample>, pub exemplars: Vec<u8>, pub histograms: Vec<u8> }
#[derive(Debug, Clone, PartialEq, Default)] pub struct WriteRequest { pub timeseries: Vec<TimeSeries>, pub metadata: Vec<u8> }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Type { Eq, Neq, Re, Nre }
#[derive(Debug, Clone)] pub struct LabelMatcher { pub t: Type, pub name: String, pub value: String } impl LabelMatcher { pub fn r#type(&self) -> Type { self.t } }
#[derive(Debug, Clone)] pub struct Query { pub start_timestamp_ms: i64, pub end_timestamp_ms: i64, pub matchers: Vec<LabelMatcher>, pub hints: Option<()> }
}
pub mod lib_ {
pub use super::*;
//@extract common/protocol_parser/src/lib.rs struct Line
@derive Debug, Default, PartialEq
@end
//@extract common/protocol_parser/src/lib.rs impl Line
@end
//@helpers
}
pub use lib_::Line;
pub mod err {
#[derive(Debug)] pub enum MetaError { TableNotFound { table: String }, Other }
#[derive(Debug)] pub enum QueryError { InvalidRemoteReadReq { source: Box<dyn std::error::Error + Send + Sync> }, InvalidRemoteWriteReq { source: Box<dyn std::error::Error + Send + Sync> }, Meta { source: MetaError }, Common { msg: String }, Internal { reason: String }, DataType { data_type: String, column: String, prompt: String }, ColumnNotFound { col: String }, Arrow(arrow_schema::ArrowError) }
impl From<arrow_schema::ArrowError> for QueryError { fn from(e: arrow_schema::ArrowError) -> Self { QueryError::Arrow(e) } }
pub type QueryResult<T> = Result<T, QueryError>;
pub struct MetaSnafu; pub trait ResultExt<T> { fn context(self, _: MetaSnafu) -> QueryResult<T>; } impl<T> ResultExt<T> for Result<T, MetaError> { fn context(self, _: MetaSnafu) -> QueryResult<T> { self.map_err(|source| QueryError::Meta { source }) } }
pub struct CommonSnafu { pub msg: String } impl CommonSnafu { pub fn build(self) -> QueryError { QueryError::Common { msg: self.msg } } }
}
pub mod names {
//@extract query_server/query/src/prom/mod.rs const METRIC_NAME_LABEL
@end
//@extract query_server/query/src/prom/mod.rs const METRIC_SAMPLE_COLUMN_NAME
@end
//@extract query_server/query/src/prom/mod.rs const DEFAULT_PROM_TABLE_NAME
@end
pub fn all() -> (&'static str, &'static str, &'static str) { (METRIC_NAME_LABEL, METRIC_SAMPLE_COLUMN_NAME, DEFAULT_PROM_TABLE_NAME) }
}
pub mod server {
use super::*; use super::err::*; use super::pb::{*, Query as PromQuery}; use regex::Regex;
macro_rules! warn { ($($x:tt)*) => {} } macro_rules! debug { ($($x:tt)*) => {} }
//@extract query_server/query/src/prom/mod.rs const METRIC_NAME_LABEL
@end
//@extract query_server/query/src/prom/mod.rs const METRIC_SAMPLE_COLUMN_NAME
@end
//@extract query_server/query/src/prom/mod.rs const DEFAULT_PROM_TABLE_NAME
@end
#[derive(Debug, Clone, PartialEq)] pub enum ColumnType { Tag, Time, Field } impl ColumnType { pub fn is_tag(&self) -> bool { *self == ColumnType::Tag } pub fn is_field(&self) -> bool { *self == ColumnType::Field } pub fn is_time(&self) -> bool { *self == ColumnType::Time } }
#[derive(Debug, Clone)] pub struct TableColumn { pub name: String, pub column_type: ColumnType }
#[derive(Debug)] pub struct Table { pub name: String, pub cols: Vec<TableColumn> } pub type TskvTableSchemaRef = Arc<Table>;
impl Table { pub fn column(&self, n: &str) -> Option<&TableColumn> { self.cols.iter().find(|c| c.name == n) } pub fn contains_column(&self, n: &str) -> bool { self.column(n).is_some() } pub fn columns(&self) -> &[TableColumn] { &self.cols } pub fn column_index(&self, n: &str) -> Option<usize> { self.cols.iter().position(|c| c.name == n) } pub fn tag_indices(&self) -> Vec<usize> { (0..self.cols.len()).filter(|i| self.cols[*i].column_type.is_tag()).collect() } }
pub struct Meta(pub Vec<TskvTableSchemaRef>); pub type MetaClientRef = Arc<Meta>;
impl Meta { pub fn get_tskv_table_schema(&self, db: &str, t: &str) -> Result<Option<TskvTableSchemaRef>, MetaError> { assert_eq!(db, "db"); Ok(self.0.iter().find(|x| x.name == t).cloned()) } pub fn list_tables(&self, db: &str) -> Result<Vec<String>, MetaError> { assert_eq!(db, "db"); Ok(self.0.iter().map(|x| x.name.clone()).collect()) } }
pub struct Context; impl Context { pub fn database(&self) -> &str { "db" } pub fn tenant(&self) -> &str { "t" } }
pub struct PromRemoteSqlServer;
//@extract query_server/query/src/prom/remote_server.rs PromRemoteServer for PromRemoteSqlServer::prom_write_request_to_lines
@header impl PromRemoteSqlServer
@end
//@extract query_server/query/src/prom/remote_server.rs struct SqlWithTable
@end
//@extract query_server/query/src/prom/remote_server.rs fn build_sql_with_table
@end
pub fn sql(meta: &MetaClientRef, q: PromQuery) -> Result<Vec<(String, TskvTableSchemaRef)>, String> { build_sql_with_table(&Context, meta, q).map(|v| v.into_iter().map(|x| (x.sql, x.table)).collect()).map_err(|e| format!("{e:?}")) }
pub fn lines(req: &WriteRequest) -> Result<Vec<Line<'_>>, String> { PromRemoteSqlServer.prom_write_request_to_lines(req).map_err(|e| format!("{e:?}")) }
//@helpers
}
pub mod writer {
use super::err::*; use super::pb::*; use std::collections::HashMap;
use arrow_array::{types::*, ArrayRef, Array, PrimitiveArray, StringArray, RecordBatch}; use arrow_schema::{DataType, SchemaRef, TimeUnit};
macro_rules! debug { ($($x:tt)*) => {} } macro_rules! debug_assert_eq { ($($x:tt)*) => {} } const TIME_FIELD_NAME: &str = "time";
//@extract query_server/query/src/prom/mod.rs const METRIC_SAMPLE_COLUMN_NAME
@end
//@extract query_server/query/src/prom/time_series/writer.rs struct Writer
@derive
@end
//@extract query_server/query/src/prom/time_series/writer.rs impl Writer
@end
//@extract query_server/query/src/prom/time_series/writer.rs struct WriterBuilder
@derive
@end
//@extract query_server/query/src/prom/time_series/writer.rs impl WriterBuilder
@end
pub fn read(tags: Vec<usize>, v: usize, t: usize, schema: SchemaRef, batches: &[RecordBatch]) -> Result<Vec<TimeSeries>, String> {
    let mut m = HashMap::default(); { let mut w = WriterBuilder::try_new(tags, v, t, schema).map_err(|e| format!("{e:?}"))?.build(&mut m); for b in batches { w.write(b).map_err(|e| format!("{e:?}"))?; } } Ok(m.into_values().collect())
}
//@helpers
}
use pb::*; use server::{Table, TableColumn, ColumnType, Meta};
// ---- a reader of the SQL that is made: quoted names and texts, comparisons, IS NULL, AND, OR, NOT; true, false or unknown ----
#[derive(Debug, Clone, PartialEq)] enum Tok { Id(String), Str(String), Num(i128), Op(String), Word(String) }
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect(); let mut i = 0; let mut o = vec![];
    while i < c.len() { match c[i] {
        x if x.is_whitespace() => i += 1,
        q @ ('"' | '\'') => { let mut t = String::new(); i += 1; loop { if i >= c.len() { return Err("a quote is not closed".into()); } if c[i] == q { if i + 1 < c.len() && c[i + 1] == q { t.push(q); i += 2; } else { i += 1; break; } } else { t.push(c[i]); i += 1; } } o.push(if q == '"' { Tok::Id(t) } else { Tok::Str(t) }); }
        x if x.is_ascii_digit() || (x == '-' && i + 1 < c.len() && c[i + 1].is_ascii_digit()) => { let b = i; i += 1; while i < c.len() && c[i].is_ascii_digit() { i += 1; } o.push(Tok::Num(c[b..i].iter().collect::<String>().parse().map_err(|_| "number")?)); }
        x if x.is_alphabetic() || x == '_' => { let b = i; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; } o.push(Tok::Word(c[b..i].iter().collect::<String>().to_lowercase())); }
        '!' if c.get(i + 1) == Some(&'=') => { o.push(Tok::Op("!=".into())); i += 2; } '!' if c.get(i + 1) == Some(&'~') => { o.push(Tok::Op("!~".into())); i += 2; } '<' if c.get(i + 1) == Some(&'>') => { o.push(Tok::Op("!=".into())); i += 2; }
        '>' | '<' if c.get(i + 1) == Some(&'=') => { o.push(Tok::Op(format!("{}=", c[i]))); i += 2; } '=' | '~' | '(' | ')' | '<' | '>' | '*' | ',' => { o.push(Tok::Op(c[i].to_string())); i += 1; }
        '-' if c.get(i + 1) == Some(&'-') => return Err("a comment".into()), x => return Err(format!("{x:?} in the text")),
    } } Ok(o)
}
type Row = BTreeMap<String, Option<String>>;
struct Eval<'a> { t: Vec<Tok>, i: usize, row: &'a Row, time: i128 }
#[derive(Debug, Clone)] enum V { S(Option<String>), N(i128) }
impl Eval<'_> {
    fn word(&mut self, w: &str) -> bool { if self.t.get(self.i) == Some(&Tok::Word(w.into())) { self.i += 1; true } else { false } } fn op(&mut self, w: &str) -> bool { if self.t.get(self.i) == Some(&Tok::Op(w.into())) { self.i += 1; true } else { false } }
    fn or(&mut self) -> Result<Option<bool>, String> { let mut a = self.and()?; while self.word("or") { let b = self.and()?; a = if a == Some(true) || b == Some(true) { Some(true) } else if a.is_none() || b.is_none() { None } else { Some(false) }; } Ok(a) }
    fn and(&mut self) -> Result<Option<bool>, String> { let mut a = self.not()?; while self.word("and") { let b = self.not()?; a = if a == Some(false) || b == Some(false) { Some(false) } else if a.is_none() || b.is_none() { None } else { Some(true) }; } Ok(a) }
    fn not(&mut self) -> Result<Option<bool>, String> { if self.word("not") { return Ok(self.not()?.map(|x| !x)); } if self.op("(") { let a = self.or()?; if !self.op(")") { return Err("no )".into()); } return Ok(a); } self.cmp() }
    fn val(&mut self) -> Result<V, String> { let t = self.t.get(self.i).cloned(); self.i += 1; match t { Some(Tok::Id(n)) if n == "time" => Ok(V::N(self.time)), Some(Tok::Word(n)) if n == "time" => Ok(V::N(self.time)), Some(Tok::Word(f)) if f == "coalesce" => { if !self.op("(") { return Err("call".into()); } let mut r = None; loop { if let V::S(x) = self.val()? { if r.is_none() { r = x; } } if self.op(")") { break; } if !self.op(",") { return Err("call".into()); } } Ok(V::S(r)) } Some(Tok::Id(n)) | Some(Tok::Word(n)) => self.row.get(&n).cloned().map(V::S).ok_or(format!("no column {n:?}")), Some(Tok::Str(s)) => Ok(V::S(Some(s))), Some(Tok::Num(n)) => Ok(V::N(n)), t => Err(format!("{t:?} for a value")) } }
    fn cmp(&mut self) -> Result<Option<bool>, String> {
        let a = self.val()?; if self.word("is") { let n = self.word("not"); if !self.word("null") { return Err("is what".into()); } return Ok(Some(matches!(a, V::S(None)) != n)); }
        let o = match self.t.get(self.i) { Some(Tok::Op(o)) => o.clone(), t => return Err(format!("{t:?} for an operator")) }; self.i += 1; let b = self.val()?;
        Ok(match (a, b) { (V::N(a), V::N(b)) => Some(match &o[..] { ">=" => a >= b, "<=" => a <= b, ">" => a > b, "<" => a < b, "=" => a == b, _ => return Err("numbers".into()) }), (V::S(a), V::S(b)) => match (a, b) { (Some(a), Some(b)) => Some(match &o[..] { "=" => a == b, "!=" => a != b, "~" => regex::Regex::new(&b).map_err(|e| e.to_string())?.is_match(&a), "!~" => !regex::Regex::new(&b).map_err(|e| e.to_string())?.is_match(&a), _ => return Err("texts".into()) }), _ => None }, _ => return Err("a text and a number".into()) })
    }
}
/// the table and whether the row is picked
fn picks(sql: &str, row: &Row, time: i128) -> Result<(String, bool), String> {
    let t = lex(sql)?; let tab = match &t[..4.min(t.len())] { [Tok::Word(a), Tok::Op(b), Tok::Word(c), Tok::Id(n)] if a == "select" && b == "*" && c == "from" => n.clone(), x => return Err(format!("{x:?}")) };
    let mut e = Eval { t, i: 4, row, time }; if !e.word("where") { return Err("no where".into()); } let r = e.or()?; if !(e.word("order") && e.word("by") && e.word("time")) || e.i != e.t.len() { return Err(format!("{:?} after the condition", e.t.get(e.i))); } Ok((tab, r == Some(true)))
}
fn accepts(m: &LabelMatcher, v: &str) -> bool { let re = || regex::Regex::new(&format!("^(?:{})$", m.value)).unwrap().is_match(v); match m.t { Type::Eq => v == m.value, Type::Neq => v != m.value, Type::Re => re(), Type::Nre => !re() } }
fn text(r: &mut vx::Rng, lo: u64, hi: u64, set: &[&str]) -> String { let n = lo + r.below(hi - lo + 1); (0..n).map(|_| r.pick(set)).collect() }
const VAL: &[&str] = &["a", "b", "'", "\"", "\\", "中", " ", "\u{1}", ".", "--"];
fn cols(c: &[&str]) -> Vec<TableColumn> { let mut v = vec![TableColumn { name: "time".into(), column_type: ColumnType::Time }]; v.extend(c.iter().map(|n| TableColumn { name: n.to_string(), column_type: ColumnType::Tag })); v.push(TableColumn { name: "value".into(), column_type: ColumnType::Field }); v }
fn query(tables: &[Arc<Table>], q: &Query, rows: &[(usize, Row, i64)]) -> Result<(), String> {
    let named: Vec<usize> = { let by: Vec<&LabelMatcher> = q.matchers.iter().filter(|m| m.name == "__name__").collect(); if by.is_empty() { vec![] } else { (0..tables.len()).filter(|i| by.iter().all(|m| accepts(m, &tables[*i].name))).collect() } };
    let got = server::sql(&Arc::new(Meta(tables.to_vec())), q.clone()).map_err(|e| format!("refused: {e}"))?;
    for (t, row, time) in rows { // a row of table t, at a time in nanoseconds
        let want = named.contains(t) && q.matchers.iter().filter(|m| m.name != "__name__").all(|m| accepts(m, row.get(&m.name).and_then(|x| x.as_deref()).unwrap_or(""))) && (*time as i128) >= q.start_timestamp_ms as i128 * 1_000_000 && (*time as i128) <= q.end_timestamp_ms as i128 * 1_000_000;
        let mut n = 0; for (sql, tab) in &got { if !Arc::ptr_eq(tab, &tables[*t]) { continue; } let (name, p) = picks(sql, row, *time as i128).map_err(|e| format!("{sql}: {e}"))?; if name != tables[*t].name { return Err(format!("{sql} reads {name:?}, must read {:?}", tables[*t].name)); } if p { n += 1; } }
        if n != want as usize { return Err(format!("a row {row:?} of {:?} at {time} is read {n} times, must be {}; {:?}", tables[*t].name, want as u8, got.iter().map(|x| &x.0).collect::<Vec<_>>())); }
    }
    Ok(())
}
type Labels = Vec<(String, String)>;
fn written(req: &WriteRequest) -> Result<(), String> {
    let fits = req.timeseries.iter().all(|t| t.samples.iter().all(|s| s.timestamp.checked_mul(1_000_000).is_some())); let got = match server::lines(req) { Ok(v) => v, Err(_) if !fits => return Ok(()), Err(e) => return Err(format!("refused: {e}")) }; if !fits { return Err("a time out of range is stored".into()); }
    let mut i = 0;
    for ts in &req.timeseries {
        let mut tags: Labels = vec![]; for l in &ts.labels { if !tags.iter().any(|t| t.0 == l.name) { tags.push((l.name.clone(), l.value.clone())); } } tags.sort(); let table = ts.labels.iter().rev().find(|l| l.name == "__name__").map(|l| l.value.clone()).unwrap_or("prom_metric_not_specified".into());
        let mut h = BkdrHasher::new(); h.hash_with(table.as_bytes()); for t in &tags { h.hash_with(t.0.as_bytes()); h.hash_with(t.1.as_bytes()); }
        for s in &ts.samples { let g = got.get(i).ok_or(format!("{} lines", got.len()))?; i += 1; let t: Labels = g.tags.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
            if t != tags || g.table != table || g.timestamp != s.timestamp * 1_000_000 || g.hash_id != h.number() || g.fields.len() != 1 || g.fields[0].0 != "value" || !matches!(&g.fields[0].1, FieldValue::F64(v) if v.to_bits() == s.value.to_bits()) { return Err(format!("{ts:?} is stored as {g:?}, must be {table} {tags:?} {s:?}")); } }
    }
    if i != got.len() { return Err(format!("{} lines for {i} samples", got.len())); } Ok(())
}
use arrow_array::{ArrayRef, Float64Array, RecordBatch, StringArray, TimestampMicrosecondArray, TimestampMillisecondArray, TimestampNanosecondArray}; use arrow_schema::{DataType, Field, Schema, TimeUnit};
type Rows = Vec<(Vec<Option<String>>, Option<f64>, i64)>;
fn read(names: &[&str], unit: TimeUnit, rows: &Rows, cuts: &[usize], at: usize) -> Result<(), String> {
    let mut f: Vec<Field> = names.iter().map(|n| Field::new(*n, DataType::Utf8, true)).collect(); let at = at % (names.len() + 1); f.insert(at, Field::new("time", DataType::Timestamp(unit.clone(), None), false)); f.push(Field::new("value", DataType::Float64, true)); let schema = Arc::new(Schema::new(f));
    let batch = |r: &[(Vec<Option<String>>, Option<f64>, i64)]| -> RecordBatch { let mut c: Vec<ArrayRef> = (0..names.len()).map(|i| Arc::new(StringArray::from(r.iter().map(|x| x.0[i].clone()).collect::<Vec<_>>())) as ArrayRef).collect(); let t: Vec<i64> = r.iter().map(|x| x.2).collect(); c.insert(at, match unit { TimeUnit::Nanosecond => Arc::new(TimestampNanosecondArray::from(t.iter().map(|x| x * 1_000_000).collect::<Vec<_>>())), TimeUnit::Microsecond => Arc::new(TimestampMicrosecondArray::from(t.iter().map(|x| x * 1000).collect::<Vec<_>>())), _ => Arc::new(TimestampMillisecondArray::from(t)) }); c.push(Arc::new(Float64Array::from(r.iter().map(|x| x.1).collect::<Vec<_>>()))); RecordBatch::try_new(schema.clone(), c).unwrap() };
    let mut bs = vec![]; let mut b = 0; for c in cuts { bs.push(batch(&rows[b..*c])); b = *c; } bs.push(batch(&rows[b..]));
    let tags: Vec<usize> = (0..names.len() + 1).filter(|i| *i != at).collect(); let got = writer::read(tags, names.len() + 1, at, schema.clone(), &bs)?;
    let mut want: BTreeMap<Labels, Vec<(i64, u64)>> = BTreeMap::new(); for r in rows { if let Some(v) = r.1 { want.entry(names.iter().zip(&r.0).filter_map(|(n, x)| x.clone().map(|x| (n.to_string(), x))).collect()).or_default().push((r.2, v.to_bits())); } }
    let mut have: BTreeMap<Labels, Vec<(i64, u64)>> = BTreeMap::new(); let n = got.len(); for t in got { have.insert(t.labels.into_iter().map(|l| (l.name, l.value)).collect(), t.samples.iter().map(|s| (s.timestamp, s.value.to_bits())).collect()); }
    if have != want || n != want.len() { return Err(format!("read as {have:?}, must be {want:?}")); } Ok(())
}
fn main() {
    let mut h = vx::H::new(); let mut r = h.rng(39);
    for _ in 0..h.scale(12_000, 400_000) {
        let names = ["cpu", "cpu2", "Mem", "a\"b", "cp"]; let labels = ["host", "Job", "q\"x", "time", "value", "or", "a b", "__name__"];
        let tables: Vec<Arc<Table>> = { let n = 1 + r.below(3) as usize; names[..n].iter().map(|n| { let mut c: Vec<&str> = labels.iter().copied().filter(|l| *l != "time" && *l != "value").collect(); c.retain(|_| r.chance(2, 3)); Arc::new(Table { name: n.to_string(), cols: cols(&c) }) }).collect() };
        let mut matchers: Vec<LabelMatcher> = (0..r.below(4)).map(|_| { let t = r.pick(&[Type::Eq, Type::Neq, Type::Re, Type::Nre]); let name = r.pick(&["host", "Job", "q\"x", "time", "value", "or", "a b", "none"]).to_string(); let value = if matches!(t, Type::Re | Type::Nre) { r.pick(&["a", "a|b", "a.*", ".*", ".+", "", "'", "a'|b", "\\.", "(a|中)b?", "[^a]", "a|", "x' OR 'a' = 'a"]).to_string() } else { match r.below(4) { 0 => String::new(), 1 => "x' OR 'a' = 'a".into(), _ => text(&mut r, 1, 2, VAL) } }; LabelMatcher { t, name, value } }).collect();
        for _ in 0..r.pick(&[0, 1, 1, 1, 1, 1, 1, 1, 2]) { let m = if r.chance(1, 2) { LabelMatcher { t: Type::Eq, name: "__name__".into(), value: tables[r.below(tables.len() as u64) as usize].name.clone() } } else { LabelMatcher { t: Type::Re, name: "__name__".into(), value: r.pick(&["cpu", "cpu.*", ".*", "Mem|cp", "c", "pu2", "a\"b"]).into() } }; let i = r.below(matchers.len() as u64 + 1) as usize; matchers.insert(i, m); }
        let (s, e) = match r.below(5) { 0 => (i64::MIN, i64::MAX), 1 => (0, 10), _ => { let s = r.below(30) as i64 - 10; (s, s + r.below(20) as i64) } }; let q = Query { start_timestamp_ms: s, end_timestamp_ms: e, matchers, hints: None };
        let vals: Vec<String> = q.matchers.iter().filter(|m| m.name != "__name__").map(|m| m.value.clone()).collect();
        let rows: Vec<(usize, Row, i64)> = (0..8).map(|_| { let t = r.below(tables.len() as u64) as usize; let row: Row = tables[t].cols.iter().filter(|c| c.column_type.is_tag()).map(|c| (c.name.clone(), match r.below(4) { 0 => None, 1 if !vals.is_empty() => Some(vals[r.below(vals.len() as u64) as usize].clone()), 2 => Some(r.pick(&["a", "b", "ab", "", "ba", "aa"]).into()), _ => Some(text(&mut r, 0, 2, VAL)) })).collect(); (t, row, (r.below(40) as i64 - 12) * 1_000_000 + r.below(3) as i64 - 1) }).collect();
        h.case("query", vx::hash(&format!("{tables:?}{q:?}{rows:?}")), &|| format!("{q:?} on {:?}", tables.iter().map(|t| (&t.name, t.cols.iter().map(|c| &c.name).collect::<Vec<_>>())).collect::<Vec<_>>()), &mut || query(&tables, &q, &rows));
    }
    for _ in 0..h.scale(8_000, 300_000) {
        let req = WriteRequest { metadata: vec![], timeseries: (0..r.below(4)).map(|_| TimeSeries { labels: (0..r.below(5)).map(|_| Label { name: r.pick(&["__name__", "host", "job", "a", "b", "__x"]).into(), value: text(&mut r, 0, 2, VAL) }).collect(), samples: (0..r.below(4)).map(|_| Sample { value: r.pick(&[0.0, -1.5, f64::NAN, f64::INFINITY, 1e300, 7.25]), timestamp: match r.below(12) { 0 => i64::MAX, 1 => 9_223_372_036_854, 2 => -5, _ => 1_673_069_176_267 + r.below(1000) as i64 } }).collect(), ..Default::default() }).collect() };
        h.case("write", vx::hash(&format!("{req:?}")), &|| format!("a write of {req:?}"), &mut || written(&req));
    }
    for _ in 0..h.scale(8_000, 300_000) {
        let all = ["host", "job", "a", "b"]; let nt = r.below(4) as usize; let unit = r.pick(&[TimeUnit::Nanosecond, TimeUnit::Nanosecond, TimeUnit::Microsecond, TimeUnit::Millisecond]); let few = r.chance(1, 2);
        let rows: Rows = (0..r.below(12)).map(|_| ((0..nt).map(|_| if r.chance(1, 4) { None } else { Some(if few { r.pick(&["x", "y", "x\u{1}job\u{1}y", "x0:job0:y", "xjoby", "x:job:y", "x,job=y", "z", "1:x"]).to_string() } else { text(&mut r, 1, 3, &["a", "\u{1}", "job", "1", ":", "host"]) }) }).collect(), if r.chance(1, 6) { None } else { Some(r.pick(&[0.0, 2.5, -3.0, f64::NAN])) }, r.below(1000) as i64)).collect();
        let mut cuts: Vec<usize> = (0..r.below(3)).map(|_| r.below(rows.len() as u64 + 1) as usize).collect(); cuts.sort(); let at = r.below(4) as usize;
        h.case("read", vx::hash(&format!("{nt}{unit:?}{rows:?}{cuts:?}{at}")), &|| format!("rows {rows:?} of labels {:?} in batches cut at {cuts:?}, {unit:?}", &all[..nt]), &mut || read(&all[..nt], unit.clone(), &rows, &cuts, at));
    }
    h.done();
}
