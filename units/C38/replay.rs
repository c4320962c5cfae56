//@prelude
pub use std::borrow::Cow; pub use std::cmp::Ordering; pub use std::collections::BTreeMap; pub use std::sync::Arc; pub use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, PartialEq)] pub enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Precision { MS, US, NS }
pub struct BkdrHasher(u64); impl BkdrHasher { pub fn new() -> Self { Self(0) } pub fn hash_with(&mut self, b: &[u8]) { for c in b { self.0 = self.0.wrapping_mul(1313).wrapping_add(*c as u64); } } pub fn number(&self) -> u64 { self.0 } }
const NOW: i64 = 77; fn now_timestamp_nanos() -> i64 { NOW } fn now_timestamp_millis() -> i64 { NOW }
#[derive(Debug, Clone, PartialEq)] pub struct Got { pub table: String, pub tags: Vec<(String, String)>, pub fields: Vec<(String, FieldValue)>, pub ts: i64, pub hash: u64 }
#[derive(Default)] pub struct Coord { pub log: std::sync::Mutex<Vec<(String, String, Precision, Vec<Got>)>>, pub fail: bool }
pub type CoordinatorRef = Arc<Coord>;
impl Coord { pub fn write_lines(&self, tenant: &str, db: &str, p: Precision, lines: Vec<Line>, _: Option<&()>) -> Result<usize, String> { if self.fail { return Err("no".into()); } self.log.lock().unwrap().push((tenant.into(), db.into(), p, lines.into_iter().map(got).collect())); Ok(1) } }
pub fn got(l: Line) -> Got { Got { table: l.table.to_string(), tags: l.tags.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect(), fields: l.fields.iter().map(|x| (x.0.to_string(), x.1.clone())).collect(), ts: l.timestamp, hash: l.hash_id } }
mod parser_lib {
pub use super::*;
#[derive(Debug)] pub enum Error { Parse { pos: usize, content: String }, MissingField { field: String, buf: String }, Common { content: String } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
//@extract common/protocol_parser/src/lib.rs struct Line
@derive Debug, Default, PartialEq
@end
//@extract common/protocol_parser/src/lib.rs struct DataPoint
@derive Serialize, Deserialize, Debug, PartialEq
@end
//@extract common/protocol_parser/src/lib.rs impl From<DataPoint<'a>> for Line
@end
//@extract common/protocol_parser/src/lib.rs impl Line
@end
//@helpers
}
pub use parser_lib::{DataPoint, Line};
mod tsdb {
use super::parser_lib::*; use super::parser_lib::Error::Common;
//@extract common/protocol_parser/src/open_tsdb/parser.rs const OPEN_TSDB_DEFAULT_FIELD
@opt
@end
//@extract common/protocol_parser/src/open_tsdb/parser.rs struct Parser
@end
//@extract common/protocol_parser/src/open_tsdb/parser.rs impl Parser
@end
//@extract common/protocol_parser/src/open_tsdb/mod.rs fn open_tsdb_to_lines
@end
pub fn body(s: &str) -> std::result::Result<Vec<Got>, String> { open_tsdb_to_lines(s, NOW).map(|v| v.into_iter().map(got).collect()).map_err(|e| e.to_string()) }
pub fn parser(t: i64) -> Parser { Parser::new(t) }
pub fn tcp<'a>(p: &Parser, b: &'a [u8]) -> Result<(Vec<Line<'a>>, usize)> { p.parse_tcp_opentsdb(b) }
//@helpers
//@extract common/protocol_parser/src/lib.rs fn split_unescaped
@opt
@end
//@extract common/protocol_parser/src/lib.rs type NextTagRes
@opt
@end
//@extract common/protocol_parser/src/lib.rs fn next_metric
@opt
@end
//@extract common/protocol_parser/src/lib.rs fn check_pos_valid
@opt
@end
//@extract common/protocol_parser/src/lib.rs fn next_value
@opt
@end
//@extract common/protocol_parser/src/lib.rs fn next_tag_set
@opt
@end
//@extract common/protocol_parser/src/lib.rs fn is_tagset_character
@opt
@end
}
mod tcp {
use super::{Arc, Coord, CoordinatorRef, Precision, now_timestamp_millis}; use std::cell::RefCell; use std::collections::VecDeque;
pub const DEFAULT_CATALOG: &str = "cnosdb"; pub const DEFAULT_DATABASE: &str = "public"; type SpanContext = ();
macro_rules! info { ($($x:tt)*) => {} }
pub struct Parser(super::tsdb::Parser); impl Parser { fn new(t: i64) -> Self { Self(super::tsdb::parser(t)) } fn parse_tcp_opentsdb<'a>(&self, b: &'a [u8]) -> super::parser_lib::Result<(Vec<super::Line<'a>>, usize)> { super::tsdb::tcp(&self.0, b) } }
pub mod server { #[derive(Debug)] pub enum Error { Common { reason: String } } pub type Result<T> = std::result::Result<T, Error>; pub struct ServiceHandle<T>(pub std::marker::PhantomData<T>); impl<T> ServiceHandle<T> { pub fn new(_: String, _: (), _: ()) -> Self { Self(std::marker::PhantomData) } pub fn shutdown(self, _: bool) {} } }
use server::{Error, ServiceHandle};
mod oneshot { pub fn channel() -> ((), ()) { ((), ()) } }
mod tokio { pub fn spawn<F: FnOnce() -> super::server::Result<()>>(f: F) { let r = f(); super::ENDS.with(|e| e.borrow_mut().push(r.is_ok())); } }
thread_local! { static CONNS: RefCell<VecDeque<Stream>> = RefCell::new(VecDeque::new()); static ENDS: RefCell<Vec<bool>> = RefCell::new(vec![]); }
pub struct Stream(VecDeque<Vec<u8>>); impl Stream { fn read_buf(&mut self, b: &mut Vec<u8>) -> Result<usize, String> { match self.0.pop_front() { None => Ok(0), Some(x) => { b.extend(&x); Ok(x.len()) } } } }
struct TcpListener; impl TcpListener { fn bind(_: &String) -> Result<Self, String> { Ok(TcpListener) } fn accept(&self) -> Result<(Stream, ()), String> { CONNS.with(|c| c.borrow_mut().pop_front()).map(|s| (s, ())).ok_or("closed".into()) } }
pub trait Service { fn start(&mut self) -> server::Result<()>; fn stop(&mut self, force: bool); }
//@extract main/src/tcp/tcp_service.rs const MILLISECOND_TIMESTAMP
@opt
@end
//@extract main/src/tcp/tcp_service.rs struct TcpService
@end
//@extract main/src/tcp/tcp_service.rs TcpService::new
@end
//@extract main/src/tcp/tcp_service.rs impl Service for TcpService
@subst /tokio::spawn\((?:async )?move \{/ => tokio::spawn(move || {
@end
/// What is written for connections that send these reads, and whether each was closed without an error.
pub fn serve(conns: Vec<Vec<Vec<u8>>>) -> (Vec<(String, String, Precision, Vec<super::Got>)>, Vec<bool>) {
    CONNS.with(|c| *c.borrow_mut() = conns.into_iter().map(|x| Stream(x.into())).collect()); ENDS.with(|e| e.borrow_mut().clear());
    let coord = Arc::new(Coord::default()); TcpService::new(coord.clone(), "x".into()).start().unwrap();
    let mut ends = ENDS.with(|e| e.borrow().clone()); ends.pop(); let log = std::mem::take(&mut *coord.log.lock().unwrap()); (log, ends)
}
//@helpers
}
mod json {
use super::{BTreeMap, Cow, FieldValue, Line, Serialize, Deserialize, now_timestamp_nanos}; use std::cell::RefCell;
pub type Bytes = Vec<u8>;
thread_local! { pub static TRACE: RefCell<Option<ExportTraceServiceRequest>> = RefCell::new(None); pub static PUSH: RefCell<Option<logproto::PushRequest>> = RefCell::new(None); }
#[derive(Debug, Clone)] pub enum Value { StringValue(String), BoolValue(bool), IntValue(i64), DoubleValue(f64), BytesValue(Vec<u8>) }
#[derive(Debug, Clone)] pub struct AnyValue { pub value: Option<Value> }
#[derive(Debug, Clone)] pub struct KeyValue { pub key: String, pub value: Option<AnyValue> }
#[derive(Debug, Clone)] pub struct ExportTraceServiceRequest { pub resource_spans: Vec<ResourceSpans> }
#[derive(Debug, Clone)] pub struct ResourceSpans { pub resource: Option<Resource>, pub scope_spans: Vec<ScopeSpans>, pub schema_url: String }
#[derive(Debug, Clone)] pub struct Resource { pub attributes: Vec<KeyValue>, pub dropped_attributes_count: u32 }
#[derive(Debug, Clone)] pub struct ScopeSpans { pub scope: Option<Scope>, pub spans: Vec<Span>, pub schema_url: String }
#[derive(Debug, Clone)] pub struct Scope { pub name: String, pub version: String, pub attributes: Vec<KeyValue>, pub dropped_attributes_count: u32 }
#[derive(Debug, Clone)] pub struct Span { pub trace_id: Vec<u8>, pub span_id: Vec<u8>, pub trace_state: String, pub parent_span_id: Vec<u8>, pub flags: u32, pub name: String, pub k: Name, pub start_time_unix_nano: u64, pub end_time_unix_nano: u64, pub attributes: Vec<KeyValue>, pub dropped_attributes_count: u32, pub events: Vec<Event>, pub dropped_events_count: u32, pub links: Vec<Link>, pub dropped_links_count: u32, pub status: Option<Status> }
#[derive(Debug, Clone, Copy)] pub struct Name(pub &'static str); impl Name { pub fn as_str_name(&self) -> &'static str { self.0 } }
impl Span { pub fn kind(&self) -> Name { self.k } }
#[derive(Debug, Clone)] pub struct Event { pub time_unix_nano: u64, pub name: String, pub attributes: Vec<KeyValue>, pub dropped_attributes_count: u32 }
#[derive(Debug, Clone)] pub struct Link { pub trace_id: Vec<u8>, pub span_id: Vec<u8>, pub trace_state: String, pub attributes: Vec<KeyValue>, pub dropped_attributes_count: u32, pub flags: u32 }
#[derive(Debug, Clone)] pub struct Status { pub message: String, pub k: Name } impl Status { pub fn code(&self) -> Name { self.k } }
impl ExportTraceServiceRequest { pub fn decode(_: Bytes) -> std::result::Result<Self, String> { TRACE.with(|t| t.borrow_mut().take()).ok_or("no message".into()) } }
pub mod logproto {
    #[derive(Debug, Clone)] pub struct PushRequest { pub streams: Vec<StreamAdapter> } #[derive(Debug, Clone)] pub struct StreamAdapter { pub labels: String, pub entries: Vec<EntryAdapter>, pub hash: u64 }
    #[derive(Debug, Clone)] pub struct EntryAdapter { pub timestamp: Option<Timestamp>, pub line: String } #[derive(Debug, Clone, Default)] pub struct Timestamp { pub seconds: i64, pub nanos: i32 }
    impl PushRequest { pub fn decode(_: super::Bytes) -> std::result::Result<Self, String> { super::PUSH.with(|t| t.borrow_mut().take()).ok_or("no message".into()) } }
}
pub struct SnappyCodec {} impl SnappyCodec { pub fn decompress(&self, a: &[u8], out: &mut Vec<u8>, _: Option<usize>) -> std::result::Result<usize, String> { out.extend(a); Ok(a.len()) } }
#[derive(Debug)] pub enum Error { InvalidType { name: String }, InvaildSyntax { content: String }, Common { content: String }, ParseTime }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Serialize, Deserialize, Debug)] pub enum Command { #[serde(rename = "create")] Create(CommandInfo), #[serde(rename = "index")] Index(CommandInfo) }
#[derive(Serialize, Deserialize, Debug)] pub struct CommandInfo { pub _id: Option<String>, pub _index: Option<String> }
//@extract common/protocol_parser/src/json_protocol/parser.rs enum JsonProtocol
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs impl JsonProtocol
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs struct ESLog
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn flatten_json
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_json_to_eslog
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_json_to_ndjsonlog
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_json_to_lokilog
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_protobuf_to_lokilog
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_protobuf_to_otlptrace
@end
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_to_line
@end
pub fn flat(v: serde_json::Value) -> BTreeMap<String, serde_json::Value> { flatten_json(String::new(), v) }
pub fn eslog(v: Vec<&str>) -> Result<Vec<JsonProtocol>> { parse_json_to_eslog(v) } pub fn ndjson(v: Vec<&str>) -> Result<Vec<JsonProtocol>> { parse_json_to_ndjsonlog(v) } pub fn loki(v: Vec<&str>) -> Result<Vec<JsonProtocol>> { parse_json_to_lokilog(v) }
pub fn pb_loki(v: Bytes) -> Result<Vec<JsonProtocol>> { parse_protobuf_to_lokilog(v) } pub fn otlp(v: Bytes) -> Result<Vec<JsonProtocol>> { parse_protobuf_to_otlptrace(v) }
pub fn line<'a>(v: &'a JsonProtocol, t: &'a str, time: &'a str, tags: &'a str) -> Result<Line<'a>> { parse_to_line(v, t, time, tags) }
pub fn fields(j: &JsonProtocol) -> BTreeMap<String, serde_json::Value> { match j { JsonProtocol::ESLog(e) => e.fields.clone(), JsonProtocol::Ndjson(m) | JsonProtocol::Loki(m) | JsonProtocol::TraceServiceReq(m) => m.clone() } }
//@helpers
}
use json::{Bytes, JsonProtocol};
mod http {
use super::json::{self, Bytes, JsonProtocol, ndjson as parse_json_to_ndjsonlog, eslog as parse_json_to_eslog, loki as parse_json_to_lokilog, pb_loki as parse_protobuf_to_lokilog, otlp as parse_protobuf_to_otlptrace, line as parse_to_line};
use super::{CoordinatorRef, DataPoint, Line, Precision, now_timestamp_nanos}; use super::tsdb::open_tsdb_to_lines;
macro_rules! error { ($($x:tt)*) => {} }
mod simdutf8 { pub mod basic { pub fn from_utf8(b: &[u8]) -> Result<&str, String> { std::str::from_utf8(b).map_err(|e| e.to_string()) } } }
pub mod protocol_parser { pub use super::super::json::Error as JsonLogError; }
#[derive(Debug)] pub enum HttpError { InvalidUTF8 { source: String }, ParseOpentsdbProtocol { source: super::parser_lib::Error }, ParseOpentsdbJsonProtocol { source: serde_json::Error }, ParseLog { source: json::Error }, Coordinator { source: String } }
struct CoordinatorSnafu; trait Ctx<T> { fn context(self, _: CoordinatorSnafu) -> Result<T, HttpError>; } impl<T> Ctx<T> for Result<T, String> { fn context(self, _: CoordinatorSnafu) -> Result<T, HttpError> { self.map_err(|source| HttpError::Coordinator { source }) } }
pub struct Response; pub struct ResponseBuilder; impl ResponseBuilder { pub fn ok() -> Response { Response } }
pub type SpanContext = (); pub struct Span; impl Span { fn from_context(_: &str, _: Option<&()>) -> Self { Span } fn context(&self) -> Option<()> { None } fn error(&self, _: String) {} }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum JsonType { Bulk, Ndjson, Loki, OtlpTrace }
//@extract main/src/http/http_service.rs fn construct_write_tsdb_points_request
@end
//@extract main/src/http/http_service.rs fn construct_write_tsdb_points_json_request
@end
//@extract main/src/http/http_service.rs fn try_parse_log_req
@end
//@extract main/src/http/http_service.rs fn coord_write_log
@end
pub fn body(b: &Bytes) -> Result<Vec<super::Got>, String> { construct_write_tsdb_points_request(b).map(|v| v.into_iter().map(super::got).collect()).map_err(|e| format!("{e:?}")) }
pub fn put(b: &Bytes) -> Result<Vec<super::Got>, String> { construct_write_tsdb_points_json_request(b).map(|v| v.into_iter().map(super::got).collect()).map_err(|e| format!("{e:?}")) }
/// a log request: what is written for it
pub fn log(b: Bytes, kind: JsonType, pb: bool, table: &str, time: Option<String>, tags: Option<String>) -> Result<Vec<super::Got>, String> {
    let logs = try_parse_log_req(b, kind, if pb { Some("application/x-protobuf".into()) } else { None }).map_err(|e| format!("{e:?}"))?; let c: CoordinatorRef = Default::default();
    coord_write_log(&c, "te", "da", table, logs, time, tags, None).map_err(|e| format!("{e:?}"))?; let log = std::mem::take(&mut *c.log.lock().unwrap());
    if log.len() != 1 || log[0].0 != "te" || log[0].1 != "da" || log[0].2 != Precision::NS { return Err(format!("WRITES {:?}", log.iter().map(|x| (&x.0, &x.1, x.2)).collect::<Vec<_>>())); } Ok(log.into_iter().next().unwrap().3)
}
//@helpers
}
use http::JsonType;
// ---- oracles ----
fn hash(table: &str, tags: &[(String, String)]) -> u64 { let mut h = BkdrHasher::new(); h.hash_with(table.as_bytes()); for t in tags { h.hash_with(t.0.as_bytes()); h.hash_with(t.1.as_bytes()); } h.number() }
/// tags by name, the first of a name
fn tidy(t: &[(String, String)]) -> Vec<(String, String)> { let mut o: Vec<(String, String)> = vec![]; for x in t { if !o.iter().any(|y| y.0 == x.0) { o.push(x.clone()); } } o.sort_by(|a, b| a.0.cmp(&b.0)); o }
fn point(table: &str, ts: i64, v: f64, tags: &[(String, String)]) -> Got { let t = tidy(tags); Got { table: table.into(), hash: hash(table, &t), tags: t, fields: vec![("value".into(), FieldValue::F64(v))], ts } }
fn unescaped(s: &str, sep: char) -> Vec<String> { let c: Vec<char> = s.chars().collect(); let mut o = vec![String::new()]; let mut i = 0; while i < c.len() { if c[i] == '\\' && i + 1 < c.len() { o.last_mut().unwrap().extend([c[i], c[i + 1]]); i += 2; } else { if c[i] == sep { o.push(String::new()); } else { o.last_mut().unwrap().push(c[i]); } i += 1; } } o }
fn says(s: &str) -> Result<Option<Got>, ()> {
    let s = s.strip_suffix('\r').unwrap_or(s); let t: Vec<String> = unescaped(s, ' ').into_iter().filter(|x| !x.is_empty()).collect(); if t.is_empty() { return Ok(None); } if t.len() < 4 { return Err(()); }
    let ts = t[1].parse().map_err(|_| ())?; let v = t[2].parse().map_err(|_| ())?; let mut tags = vec![]; for x in &t[3..] { for y in unescaped(x, ',') { match &unescaped(&y, '=')[..] { [k, v] if k != "" && v != "" => tags.push((k.clone(), v.clone())), _ => return Err(()) } } } Ok(Some(point(&t[0], ts, v, &tags)))
}
fn puts(s: &[u8]) -> Result<Option<Got>, ()> {
    let s = std::str::from_utf8(s).map_err(|_| ())?; let t: Vec<&str> = s.split_whitespace().collect(); if t.is_empty() { return Ok(None); } if t[0] != "put" || t.len() < 4 { return Err(()); }
    let ts: i64 = t[2].parse().map_err(|_| ())?; let v = t[3].parse().map_err(|_| ())?; let mut tags = vec![]; for x in &t[4..] { match &x.split('=').collect::<Vec<_>>()[..] { [k, v] if *k != "" && *v != "" => tags.push((k.to_string(), v.to_string())), _ => return Err(()) } } Ok(Some(point(t[1], ms(ts), v, &tags)))
}
fn ms(t: i64) -> i64 { let mut t = t; if t == 0 { return 0; } while t >= 11_000_000_000_000 { t /= 10; } while t > 0 && t < 1_000_000_000_000 { t *= 10; } while t < 0 && t > -1_000_000_000_000 { t *= 10; } t }
fn same(a: &[Got], b: &[Got]) -> Result<(), String> { if a == b || format!("{a:?}") == format!("{b:?}") { Ok(()) } else { let i = (0..a.len().max(b.len())).find(|i| format!("{:?}", a.get(*i)) != format!("{:?}", b.get(*i))).unwrap_or(0); Err(format!("{} points, must be {}; point {i} is {:?}, must be {:?}", a.len(), b.len(), a.get(i), b.get(i))) } }
fn text(r: &mut vx::Rng, lo: u64, hi: u64, set: &[&str]) -> String { let n = lo + r.below(hi - lo + 1); (0..n).map(|_| r.pick(set)).collect() }
const W: &[&str] = &["a", "b", "_", ".", "中", "0", "-", "z", "\"", "/"];
fn num(r: &mut vx::Rng) -> String { let f = r.below(1000) as f64 / 8.0; match r.below(8) { 0 => "-3.5".into(), 1 => "1e3".into(), 2 => "0".into(), 3 => ".5".into(), 4 => "+7".into(), 5 => format!("{}", -f), _ => format!("{f}") } }
fn bad_num(r: &mut vx::Rng) -> String { r.pick(&["abc5", "5x", "", "1_0", "--1", "1,2", "x"]).into() }
fn time(r: &mut vx::Rng) -> i64 { match r.below(9) { 0 => 0, 1 => r.below(2000) as i64, 2 => 1_600_000_000 + r.below(100_000) as i64, 3 => 1_600_000_000_123, 4 => 1_600_000_000_123_456, 5 => 1_600_000_000_123_456_789, 6 => i64::MAX, 7 => 10_999_999_999_999 + r.below(3) as i64, _ => 999_999_999_999 + r.below(3) as i64 } }
// ---- JSON ----
fn scalar(r: &mut vx::Rng) -> serde_json::Value { use serde_json::Value::*; match r.below(9) { 0 => Bool(r.chance(1, 2)), 1 => Null, 2 => Number((r.below(1 << 40) as i64 - (1 << 39)).into()), 3 => serde_json::json!(r.below(1000) as f64 / 16.0), _ => String(text(r, 0, 5, &["a", "b", "\"", "\\", "\n", "中", " ", "\t", ",", "/", "é"])) } }
fn tree(r: &mut vx::Rng, d: u64) -> serde_json::Value { use serde_json::Value::*; if d == 0 || r.chance(1, 2) { return scalar(r); } let n = if r.chance(1, 12) { 9 + r.below(5) } else { r.below(4) }; if r.chance(1, 3) { Array((0..n).map(|_| tree(r, d - 1)).collect()) } else { Object((0..n).map(|_| (text(r, 1, 2, &["a", "b", "m", "中", " ", "-"]), tree(r, d - 1))).collect()) } }
fn leaves(path: Option<String>, v: &serde_json::Value, out: &mut BTreeMap<String, serde_json::Value>) { let at = |k: &str| Some(match &path { None => k.to_string(), Some(p) => format!("{p}.{k}") }); match v { serde_json::Value::Object(m) => for (k, x) in m { leaves(at(k), x, out) }, serde_json::Value::Array(a) => for (i, x) in a.iter().enumerate() { leaves(at(&i.to_string()), x, out) }, x => { out.insert(path.unwrap_or_default(), x.clone()); } } }
fn logged(m: &BTreeMap<String, serde_json::Value>, table: &str, time: &str, tags: &[String]) -> Result<Got, ()> {
    use serde_json::Value::*; let (mut t, mut f, mut ts) = (vec![], vec![], NOW);
    for (k, v) in m { if tags.contains(k) { t.push((k.clone(), match v { String(s) => s.clone(), v => v.to_string() })); } else if k == time { ts = match v { Number(n) => n.as_i64().ok_or(())?, String(s) => chrono::DateTime::parse_from_rfc3339(s).map_err(|_| ())?.timestamp_nanos_opt().ok_or(())?, _ => return Err(()) }; } else { f.push((k.clone(), match v { Bool(b) => FieldValue::Bool(*b), Number(n) => FieldValue::F64(n.as_f64().unwrap()), String(s) => FieldValue::Str(s.clone().into_bytes()), _ => return Err(()) })); } }
    Ok(Got { table: table.into(), hash: hash(table, &t), tags: t, fields: f, ts })
}
fn attrs(r: &mut vx::Rng) -> Vec<json::KeyValue> { let n = r.below(4); (0..n).map(|_| { let key = r.pick(&["service.name", "a", "b", "c"]).to_string(); let v = if key == "service.name" { Some(json::Value::StringValue(r.word().to_string())) } else { match r.below(6) { 0 => Some(json::Value::BoolValue(r.chance(1, 2))), 1 => Some(json::Value::IntValue(r.below(9) as i64 - 4)), 2 => Some(json::Value::DoubleValue(r.below(9) as f64 / 2.0)), 3 => None, _ => Some(json::Value::StringValue(text(r, 0, 3, W))) } }; json::KeyValue { key, value: if r.chance(1, 9) { None } else { Some(json::AnyValue { value: v }) } } }).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
type M = BTreeMap<String, serde_json::Value>;
fn say_attrs(m: &mut M, p: &str, a: &[json::KeyValue]) { for kv in a { if let Some(v) = &kv.value { m.insert(format!("{p}attributes/{}", kv.key), serde_json::Value::String(match &v.value { Some(json::Value::StringValue(s)) => s.clone(), Some(json::Value::BoolValue(b)) => b.to_string(), Some(json::Value::IntValue(i)) => i.to_string(), Some(json::Value::DoubleValue(d)) => d.to_string(), _ => String::new() })); } } }
fn spans(q: &json::ExportTraceServiceRequest) -> Vec<M> {
    let mut out = vec![]; let s = |x: &str| serde_json::Value::String(x.into()); let n = |x: u64| serde_json::Value::Number(x.into());
    for rs in &q.resource_spans { for ss in &rs.scope_spans { for sp in &ss.spans {
        let mut m = M::new(); let p = "ResourceSpans/"; if let Some(x) = &rs.resource { let p = format!("{p}Resource/"); say_attrs(&mut m, &p, &x.attributes); m.insert(format!("{p}dropped_attributes_count"), n(x.dropped_attributes_count as u64)); } m.insert(format!("{p}schema_url"), s(&rs.schema_url));
        let p = format!("{p}ScopeSpans/"); if let Some(x) = &ss.scope { let p = format!("{p}InstrumentationScope/"); m.insert(format!("{p}name"), s(&x.name)); m.insert(format!("{p}version"), s(&x.version)); say_attrs(&mut m, &p, &x.attributes); m.insert(format!("{p}dropped_attributes_count"), n(x.dropped_attributes_count as u64)); } m.insert(format!("{p}schema_url"), s(&ss.schema_url));
        let p = format!("{p}Span/"); for (k, v) in [("trace_id", s(&hex(&sp.trace_id))), ("span_id", s(&hex(&sp.span_id))), ("trace_state", s(&sp.trace_state)), ("parent_span_id", s(&hex(&sp.parent_span_id))), ("flags", n(sp.flags as u64)), ("name", s(&sp.name)), ("kind", s(sp.k.0)), ("start_time_unix_nano", n(sp.start_time_unix_nano)), ("end_time_unix_nano", n(sp.end_time_unix_nano)), ("dropped_attributes_count", n(sp.dropped_attributes_count as u64)), ("dropped_events_count", n(sp.dropped_events_count as u64)), ("dropped_links_count", n(sp.dropped_links_count as u64)), ("duration_nano", n(sp.end_time_unix_nano - sp.start_time_unix_nano))] { m.insert(format!("{p}{k}"), v); } say_attrs(&mut m, &p, &sp.attributes);
        for (i, e) in sp.events.iter().enumerate() { let p = format!("{p}Event_{i}/"); m.insert(format!("{p}time_unix_nano"), n(e.time_unix_nano)); m.insert(format!("{p}name"), s(&e.name)); say_attrs(&mut m, &p, &e.attributes); m.insert(format!("{p}dropped_attributes_count"), n(e.dropped_attributes_count as u64)); }
        for (i, e) in sp.links.iter().enumerate() { let p = format!("{p}Link_{i}/"); for (k, v) in [("trace_id", s(&hex(&e.trace_id))), ("span_id", s(&hex(&e.span_id))), ("trace_state", s(&e.trace_state)), ("dropped_attributes_count", n(e.dropped_attributes_count as u64)), ("flags", n(e.flags as u64))] { m.insert(format!("{p}{k}"), v); } say_attrs(&mut m, &p, &e.attributes); }
        if let Some(x) = &sp.status { m.insert(format!("{p}Status/code"), s(x.k.0)); m.insert(format!("{p}Status/message"), s(&x.message)); } out.push(m);
    } } } out
}
fn one(r: &mut vx::Rng) -> json::Span { let st = r.below(1000); json::Span { trace_id: r.bytes(4), span_id: r.bytes(2), trace_state: r.pick(&["", "x"]).into(), parent_span_id: r.bytes(1), flags: r.below(3) as u32, name: text(r, 0, 3, W), k: json::Name(r.pick(&["SPAN_KIND_SERVER", "SPAN_KIND_CLIENT"])), start_time_unix_nano: st, end_time_unix_nano: st + r.below(100), attributes: attrs(r), dropped_attributes_count: r.below(3) as u32, events: (0..r.below(3)).map(|_| json::Event { time_unix_nano: r.below(99), name: text(r, 0, 2, W), attributes: attrs(r), dropped_attributes_count: r.below(3) as u32 }).collect(), dropped_events_count: r.below(3) as u32, links: (0..r.below(3)).map(|_| json::Link { trace_id: r.bytes(2), span_id: r.bytes(1), trace_state: "s".into(), attributes: attrs(r), dropped_attributes_count: r.below(3) as u32, flags: r.below(5) as u32 }).collect(), dropped_links_count: r.below(3) as u32, status: if r.chance(1, 2) { Some(json::Status { message: text(r, 0, 2, W), k: json::Name(r.pick(&["STATUS_CODE_OK", "STATUS_CODE_ERROR"])) }) } else { None } } }
fn tell(s: &str, whole: bool) -> Result<(), String> {
    let mut want = vec![]; let mut bad = false; for l in s.split('\n') { match says(l) { Ok(Some(p)) => want.push(p), Ok(None) => {} Err(()) => bad = true } }
    match http::body(&s.as_bytes().to_vec()) { Ok(v) if !bad => same(&v, &want), Ok(v) => Err(format!("{v:?} for a line that says no point")), Err(_) if bad && !whole => Ok(()), Err(e) => Err(format!("refused: {e}")) }
}
fn stream(conns: &[Vec<Vec<u8>>]) -> Result<(), String> {
    let (log, ends) = tcp::serve(conns.to_vec()); let mut want = vec![]; let mut closed = vec![];
    for c in conns { let all = c.concat(); let mut ok = true; if let Some(end) = all.iter().rposition(|b| *b == b'\n') { for l in all[..end].split(|b| *b == b'\n') { match puts(l) { Ok(Some(p)) => want.push(p), Ok(None) => {} Err(()) => { ok = false; break } } } } closed.push(ok); }
    for w in &log { if w.0 != "cnosdb" || w.1 != "public" || w.2 != Precision::MS { return Err(format!("times in milliseconds written to {}.{} as {:?}", w.0, w.1, w.2)); } }
    same(&log.into_iter().flat_map(|w| w.3).collect::<Vec<_>>(), &want)?; let n = ends.len(); for i in 0..n { if ends[i] && !closed[i] { /* told of later: the bad line is last read */ } } if n != conns.len() { return Err(format!("{n} connections ended")); } Ok(())
}
fn main() {
    let mut h = vx::H::new(); let mut r = h.rng(38);
    for _ in 0..h.scale(15_000, 600_000) {
        let whole = r.chance(2, 3); let n = r.below(5); let mut s = String::new();
        for i in 0..n { if i > 0 { s += r.pick(&["\n", "\n", "\n\n", "\r\n"]); } let gap = |r: &mut vx::Rng| " ".repeat(1 + r.below(2) as usize); s += &text(&mut r, 1, 4, W); s += &gap(&mut r); s += &time(&mut r).to_string(); s += &gap(&mut r); s += &if !whole && r.chance(1, 12) { bad_num(&mut r) } else { num(&mut r) };
            for _ in 0..if !whole && r.chance(1, 8) { 0 } else { 1 + r.below(3) } { s += &if r.chance(1, 3) && s.contains('=') { ",".to_string() } else { gap(&mut r) }; s += &text(&mut r, 1, 2, &["a", "b", "c", "中", "\\ ", "\\,", "\\="]); s += if !whole && r.chance(1, 20) { "" } else { "=" }; s += &text(&mut r, 1, 3, &["a", "b", "1", "中", "\\ ", "\\,", "\\=", "\\\\", "_"]); } }
        if n > 0 && r.chance(1, 2) { s += "\n"; }
        if whole && s.lines().any(|l| says(l).is_err()) { continue; } if !whole { for _ in 0..r.below(3) { let c: Vec<char> = s.chars().collect(); let i = r.below(c.len() as u64 + 1) as usize; s = c[..i].iter().collect::<String>() + r.pick(&["", " ", ",", "=", "\\", "\n", "x", "_"]) + &c[(i + r.below(2) as usize).min(c.len())..].iter().collect::<String>(); } }
        h.case("body", vx::hash(&s), &|| format!("an OpenTSDB body {s:?}"), &mut || tell(&s, whole));
    }
    for _ in 0..h.scale(15_000, 600_000) {
        let conns: Vec<Vec<Vec<u8>>> = (0..1 + r.below(2)).map(|_| { let mut b = vec![]; let broken = r.chance(1, 4);
            for _ in 0..r.below(6) { let mut l = if r.chance(1, 8) { " ".repeat(r.below(2) as usize) } else { format!("put {} {} {}", text(&mut r, 1, 3, W), time(&mut r), num(&mut r)) + &(0..r.below(3)).map(|_| format!(" {}={}", text(&mut r, 1, 2, W), text(&mut r, 1, 2, W))).collect::<String>() }; if broken && r.chance(1, 3) { l = r.pick(&["put a 1 x", "PUT a 1 2", "put a 1", "put a 1 2 b", "put a x 2", "put a 1 2 b=", "get", "put a 1 2 b=c=d"]).into(); } b.extend(l.bytes()); b.extend(r.pick(&["\n", "\n", "\r\n"]).bytes()); if broken && r.chance(1, 9) { b.push(0xff); } }
            if r.chance(1, 3) { let n = r.below(4) as usize; b.truncate(b.len().saturating_sub(n)); } let mut out = vec![]; let one = r.chance(1, 3); while !b.is_empty() { let n = (1 + if one { r.below(3) } else { r.below(40) } as usize).min(b.len()); out.push(b.drain(..n).collect()); } out }).collect();
        let d: Vec<Vec<String>> = conns.iter().map(|c| c.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect()).collect();
        h.case("stream", vx::hash(&format!("{conns:?}")), &|| format!("telnet connections that send {d:?}"), &mut || stream(&conns));
    }
    for _ in 0..h.scale(6_000, 200_000) {
        let pts: Vec<(String, i64, f64, BTreeMap<String, String>)> = (0..r.below(4)).map(|_| (text(&mut r, 1, 3, &["a", "中", "b", " "]), time(&mut r), r.below(99) as f64 / 4.0, (0..r.below(4)).map(|_| (text(&mut r, 1, 2, &["a", "b", "é"]), text(&mut r, 0, 2, &["x", "y", " ", ","]))).collect())).collect(); let single = pts.len() == 1 && r.chance(1, 2);
        let js: Vec<serde_json::Value> = pts.iter().map(|p| serde_json::json!({"metric": p.0, "timestamp": p.1, "value": p.2, "tags": p.3})).collect(); let b = if single { js[0].to_string() } else { serde_json::Value::Array(js).to_string() };
        h.case("put", vx::hash(&b), &|| format!("an OpenTSDB put of {b}"), &mut || same(&http::put(&b.clone().into_bytes())?, &pts.iter().map(|p| point(&p.0, p.1, p.2, &p.3.iter().map(|x| (x.0.clone(), x.1.clone())).collect::<Vec<_>>())).collect::<Vec<_>>()));
    }
    for _ in 0..h.scale(15_000, 500_000) {
        let depth = r.below(4); let n = r.below(4); let clean = r.chance(1, 2); let mut docs = vec![];
        for _ in 0..n { let mut m = serde_json::Map::new(); for _ in 0..r.below(5) { let v = tree(&mut r, depth); if clean { let mut t = M::new(); leaves(None, &v, &mut t); if t.values().any(|x| x.is_null()) { continue; } } m.insert(text(&mut r, 1, 2, &["a", "b", "m", "中", "-"]), v); }
            if r.chance(2, 3) { m.insert(r.pick(&["time", "ts"]).into(), match r.below(if clean { 3 } else { 6 }) { 0 => serde_json::json!(1_600_000_000_000_000_000u64 + r.below(1000)), 1 => "2024-01-02T03:04:05.000000006Z".into(), 2 => "2024-01-02T03:04:05+08:00".into(), 3 => "soon".into(), 4 => serde_json::Value::Bool(true), _ => "2700-01-01T00:00:00Z".into() }); } docs.push(serde_json::Value::Object(m)); }
        let kind = r.pick(&[JsonType::Bulk, JsonType::Ndjson, JsonType::Loki]); let time = r.pick(&[None, Some("time"), Some("ts")]); let flat: Vec<M> = docs.iter().map(|d| { let mut m = M::new(); leaves(None, d, &mut m); m }).collect();
        let keys: Vec<String> = flat.iter().flat_map(|m| m.keys().cloned()).collect(); let mut tags: Vec<String> = (0..r.below(3)).filter_map(|_| if keys.is_empty() { None } else { Some(keys[r.below(keys.len() as u64) as usize].clone()) }).collect(); tags.retain(|t| t.trim() == t && !t.contains(',')); let cols = tags.join(r.pick(&[",", ", "])); let cols = if tags.is_empty() && r.chance(1, 2) { None } else { Some(cols) };
        let mut b = String::new(); for (i, d) in docs.iter().enumerate() { if kind == JsonType::Bulk { b += r.pick(&["{\"index\":{\"_index\":\"t\",\"_id\":\"1\"}}\n", "{\"create\":{}}\n", "{\"index\":{\"_index\":null}}\n\n"]); } b += &d.to_string(); if i + 1 < docs.len() || r.chance(1, 2) { b += "\n"; } } if kind != JsonType::Bulk && docs.is_empty() { continue; }
        let torn = !clean && r.chance(1, 5); if torn { if kind == JsonType::Bulk && r.chance(1, 2) { b = b.trim_end().to_string() + "\n{\"create\":{}}"; } else { b = b.trim_end().to_string() + "\n{\"a\":"; } }
        let want: Result<Vec<Got>, ()> = if torn { Err(()) } else { flat.iter().map(|m| logged(m, "tab", time.unwrap_or("time"), &tags)).collect() };
        h.case("log", vx::hash(&format!("{kind:?}{time:?}{cols:?}{b}")), &|| format!("a {kind:?} log {b:?} with time column {time:?} and tag columns {cols:?}"), &mut || match (http::log(b.clone().into_bytes(), kind, false, "tab", time.map(|x| x.to_string()), cols.clone()), &want) { (Ok(v), Ok(w)) => same(&v, w), (Err(e), _) if e.starts_with("WRITES") => Err(e), (Err(_), Err(())) => Ok(()), (Err(e), Ok(_)) => Err(format!("refused: {e}")), (Ok(v), Err(())) => Err(format!("{v:?} for a log that says no line")) });
    }
    for _ in 0..h.scale(4_000, 100_000) {
        let q = json::logproto::PushRequest { streams: (0..r.below(3)).map(|_| json::logproto::StreamAdapter { labels: text(&mut r, 0, 3, W), hash: 0, entries: (0..r.below(4)).map(|_| json::logproto::EntryAdapter { timestamp: if r.chance(1, 6) { None } else { Some(json::logproto::Timestamp { seconds: r.below(2_000_000_000) as i64, nanos: r.below(1_000_000_000) as i32 }) }, line: text(&mut r, 0, 4, W) }).collect() }).collect() }; let tags = r.pick(&[None, Some("lables")]);
        let want: Vec<Got> = q.streams.iter().flat_map(|s| s.entries.iter().map(move |e| { let t = e.timestamp.clone().unwrap_or_default(); let m: M = [("lables".to_string(), s.labels.clone().into()), ("msg".to_string(), e.line.clone().into()), ("time".to_string(), serde_json::json!(t.seconds * 1_000_000_000 + t.nanos as i64))].into_iter().collect(); logged(&m, "tab", "time", &tags.map(|x| x.to_string()).into_iter().collect::<Vec<_>>()).unwrap() })).collect();
        h.case("loki", vx::hash(&format!("{q:?}{tags:?}")), &|| format!("a Loki push of {q:?} with tags {tags:?}"), &mut || { json::PUSH.with(|t| *t.borrow_mut() = Some(q.clone())); same(&http::log(vec![1], JsonType::Loki, true, "tab", None, tags.map(|x| x.to_string()))?, &want) });
    }
    for _ in 0..h.scale(4_000, 100_000) {
        let q = json::ExportTraceServiceRequest { resource_spans: (0..r.below(3)).map(|_| json::ResourceSpans { resource: if r.chance(1, 4) { None } else { Some(json::Resource { attributes: attrs(&mut r), dropped_attributes_count: r.below(3) as u32 }) }, schema_url: r.pick(&["", "u"]).into(), scope_spans: (0..r.below(3)).map(|_| json::ScopeSpans { scope: if r.chance(1, 3) { None } else { Some(json::Scope { name: r.pick(&["n", ""]).into(), version: "v".into(), attributes: attrs(&mut r), dropped_attributes_count: r.below(3) as u32 }) }, spans: (0..r.below(4)).map(|_| one(&mut r)).collect(), schema_url: r.pick(&["", "w"]).into() }).collect() }).collect() };
        let tc = "ResourceSpans/ScopeSpans/Span/start_time_unix_nano"; let tags = r.pick(&[None, Some("ResourceSpans/ScopeSpans/Span/name, ResourceSpans/Resource/attributes/service.name"), Some("ResourceSpans/ScopeSpans/Span/Event_0/name")]); let names: Vec<String> = tags.map(|t| t.split(", ").map(|x| x.to_string()).collect()).unwrap_or_default(); let want: Vec<Got> = spans(&q).iter().map(|m| logged(m, "tab", tc, &names).unwrap()).collect();
        h.case("trace", vx::hash(&format!("{q:?}{tags:?}")), &|| format!("an OTLP trace {q:?} with tags {tags:?}"), &mut || { json::TRACE.with(|t| *t.borrow_mut() = Some(q.clone())); same(&http::log(vec![1], JsonType::OtlpTrace, true, "tab", Some(tc.into()), tags.map(|x| x.to_string()))?, &want) });
    }
    h.done();
}
