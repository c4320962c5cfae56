use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
enum Error { ParseTime, Other }
type Result<T> = std::result::Result<T, Error>;
enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
ghost enum FV { U64(u64), I64(i64), Str(B), F64(f64), Bool(bool) }
spec fn fv(x: FieldValue) -> FV { match x { FieldValue::U64(k) => FV::U64(k), FieldValue::I64(k) => FV::I64(k), FieldValue::Str(s) => FV::Str(s@), FieldValue::F64(k) => FV::F64(k), FieldValue::Bool(k) => FV::Bool(k) } }
// ---- serde_json, chrono and std: assumed contracts ----
struct Number { int: Ghost<Option<i64>>, float: Ghost<f64> }
impl Number {
    #[verifier::external_body] fn as_i64(&self) -> (r: Option<i64>) ensures r == self.int@ { unimplemented!() }
    #[verifier::external_body] fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(self.float@) { unimplemented!() }
}
enum Value { Null, Bool(bool), Number(Number), String(Vec<u8>), Array(Ghost<int>), Object(Ghost<int>) }
spec fn json(v: Value) -> B; // the JSON text of a value
#[verifier::external_body] fn json_text(v: &Value) -> (r: Vec<u8>) ensures r@ == json(*v) { unimplemented!() }
#[verifier::external_body] fn text_of(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() }
spec fn time_text(s: B) -> Option<Option<i64>>; // None: no RFC 3339 time; Some(None): too far away for nanoseconds
#[verifier::external_body] fn rfc3339(s: &Vec<u8>) -> (r: Result<Option<i64>>) ensures r matches Ok(k) ==> time_text(s@) == Some(k), r is Err ==> time_text(s@) is None { unimplemented!() }
spec fn columns(s: B) -> Seq<B>; // the names between commas
struct Names { v: Ghost<Seq<B>> }
impl Names { #[verifier::external_body] fn contains(&self, k: &Vec<u8>) -> (r: bool) ensures r == self.v@.contains(k@) { unimplemented!() } }
#[verifier::external_body] fn split_names(s: &[u8]) -> (r: Names) ensures r.v@ == columns(s@) { unimplemented!() }
#[verifier::external_body] fn same(a: &[u8], b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
spec fn now() -> i64;
#[verifier::external_body] fn now_timestamp_nanos() -> (r: i64) ensures r == now() { unimplemented!() }
// a log: its fields by name
struct Entries { k: Vec<Vec<u8>>, v: Vec<Value> }
struct JsonProtocol { fields: Entries }
impl JsonProtocol { fn get_fields(&self) -> (r: &Entries) ensures r == self.fields { &self.fields } }
// ---- a line ----
struct Line { tags: Vec<(Vec<u8>, Vec<u8>)>, fields: Vec<(Vec<u8>, FieldValue)>, timestamp: i64, table: Vec<u8> }
spec fn tags_(v: Seq<(Vec<u8>, Vec<u8>)>) -> Seq<(B, B)> { v.map_values(|x: (Vec<u8>, Vec<u8>)| (x.0@, x.1@)) }
spec fn fields_(v: Seq<(Vec<u8>, FieldValue)>) -> Seq<(B, FV)> { v.map_values(|x: (Vec<u8>, FieldValue)| (x.0@, fv(x.1))) }
spec fn by_name(t: Seq<(B, B)>) -> Seq<(B, B)>; // C22
impl Line {
    #[verifier::external_body] fn new(table: Vec<u8>, tags: Vec<(Vec<u8>, Vec<u8>)>, fields: Vec<(Vec<u8>, FieldValue)>, timestamp: i64) -> (r: Line)
        ensures r.table@ == table@, tags_(r.tags@) == by_name(tags_(tags@)), fields_(r.fields@) == fields_(fields@), r.timestamp == timestamp { unimplemented!() }
}
#[verifier::external_body] fn owned(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
// ---- what a log says ----
spec fn is_tag(cols: Seq<B>, k: B) -> bool { cols.contains(k) }
spec fn is_time(cols: Seq<B>, time: B, k: B) -> bool { !cols.contains(k) && k == time }
spec fn tag_value(v: Value) -> B { match v { Value::String(s) => s@, v => json(v) } }
spec fn time_value(v: Value) -> Option<i64> { match v { Value::String(s) => match time_text(s@) { Some(Some(t)) => Some(t), _ => None }, Value::Number(n) => n.int@, _ => None } }
spec fn field_value(v: Value) -> Option<FV> { match v { Value::Bool(b) => Some(FV::Bool(b)), Value::Number(n) => Some(FV::F64(n.float@)), Value::String(s) => Some(FV::Str(s@)), _ => None } }
spec fn sayable(e: Entries, c: Seq<B>, t: B, i: int) -> bool { is_tag(c, e.k@[i]@) || (if is_time(c, t, e.k@[i]@) { time_value(e.v@[i]) is Some } else { field_value(e.v@[i]) is Some }) }
spec fn ok(e: Entries, c: Seq<B>, t: B, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] sayable(e, c, t, i) }
spec fn said_tags(e: Entries, c: Seq<B>, n: int) -> Seq<(B, B)> decreases n { if n <= 0 { Seq::empty() } else if is_tag(c, e.k@[n - 1]@) { said_tags(e, c, n - 1).push((e.k@[n - 1]@, tag_value(e.v@[n - 1]))) } else { said_tags(e, c, n - 1) } }
spec fn said_fields(e: Entries, c: Seq<B>, t: B, n: int) -> Seq<(B, FV)> decreases n { if n <= 0 { Seq::empty() } else if !is_tag(c, e.k@[n - 1]@) && !is_time(c, t, e.k@[n - 1]@) { said_fields(e, c, t, n - 1).push((e.k@[n - 1]@, field_value(e.v@[n - 1])->0)) } else { said_fields(e, c, t, n - 1) } }
spec fn said_time(e: Entries, c: Seq<B>, t: B, n: int) -> i64 decreases n { if n <= 0 { now() } else if is_time(c, t, e.k@[n - 1]@) { time_value(e.v@[n - 1])->0 } else { said_time(e, c, t, n - 1) } }
//@extract common/protocol_parser/src/json_protocol/parser.rs fn parse_to_line
@subst /value: &'a JsonProtocol,/ => log: &JsonProtocol,
@subst /parse_to_line<'a>/ => parse_to_line
@subst /: &'a str/ => : &[u8]
@subst /Line<'a>/ => Line
@subst /let tag_columns: Vec<&str> = tag_columns\.split\(','\)\.map\(\|s\| s\.trim\(\)\)\.collect\(\);/ => let names = split_names(tag_columns); let ghost cols = columns(tag_columns@);
@subst /tag_columns\.contains\(&key\.as_str\(\)\)/ => names.contains(key)
@subst /let mut tags = vec!\[\];/ => let mut tags: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
@subst /let mut fields = vec!\[\];/ => let mut fields: Vec<(Vec<u8>, FieldValue)> = Vec::new();
@subst /for \(key, value\) in value\.get_fields\(\) \{/ => let e = log.get_fields(); let mut n = 0usize; while n < e.k.len() { let key = &e.k[n]; let value = &e.v[n]; n = n + 1;
@subst /serde_json::Value::/ => Value::
@subst /Value::String\(value\) => Cow::Borrowed\(value\.as_str\(\)\)/ => Value::String(value) => text_of(value)
@subst /Cow::Owned\(value\.to_string\(\)\)/ => json_text(value)
@subst /time_column\.eq\(key\)/ => same(time_column, key)
@subst /chrono::DateTime::parse_from_rfc3339\(timestamp_str\)[\s\S]*?\.timestamp_nanos_opt\(\)/ => rfc3339(timestamp_str)?
@subst /Err\(Error::Common \{[\s\S]*?\n\s*\}\)/ => Err(Error::Other)
@subst /field\.as_bytes\(\)\.to_owned\(\)/ => text_of(field)
@subst /Cow::Borrowed\(key\.as_str\(\)\)/ => text_of(key)
@subst /Cow::Borrowed\(table\)/ => owned(table)
@ret r
@spec
    requires log.fields.k@.len() == log.fields.v@.len()
    ensures
        r matches Ok(l) ==> ok(log.fields, columns(tag_columns@), time_column@, log.fields.k@.len() as int) && l.table@ == table@
            && tags_(l.tags@) == by_name(said_tags(log.fields, columns(tag_columns@), log.fields.k@.len() as int))
            && fields_(l.fields@) == said_fields(log.fields, columns(tag_columns@), time_column@, log.fields.k@.len() as int)
            && l.timestamp == said_time(log.fields, columns(tag_columns@), time_column@, log.fields.k@.len() as int),
        r is Err ==> !ok(log.fields, columns(tag_columns@), time_column@, log.fields.k@.len() as int),
@loop 0
    invariant n <= e.k@.len(), e.k@.len() == e.v@.len(), e == log.fields, cols == columns(tag_columns@), names.v@ == cols,
        ok(*e, cols, time_column@, n as int), tags_(tags@) =~= said_tags(*e, cols, n as int), fields_(fields@) =~= said_fields(*e, cols, time_column@, n as int),
        timestamp == said_time(*e, cols, time_column@, n as int)
    decreases e.k@.len() - n
@at loop-start 0
    let ghost t0 = tags@; let ghost f0 = fields@; let ghost n0 = n as int;
    proof { assert(sayable(*e, cols, time_column@, n0) || !ok(*e, cols, time_column@, e.k@.len() as int)); }
@at loop-end 0
    proof {
        if tags@.len() > t0.len() { assert(tags_(tags@) =~= tags_(t0).push((tags@.last().0@, tags@.last().1@))); }
        if fields@.len() > f0.len() { assert(fields_(fields@) =~= fields_(f0).push((fields@.last().0@, fv(fields@.last().1)))); }
    }
@end
}
fn main() {}
