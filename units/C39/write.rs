use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct QueryError {}
type QueryResult<T> = std::result::Result<T, QueryError>;
enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
struct Label { name: Vec<u8>, value: Vec<u8> }
struct Sample { value: f64, timestamp: i64 }
struct TimeSeries { labels: Vec<Label>, samples: Vec<Sample> }
struct WriteRequest { timeseries: Vec<TimeSeries> }
spec fn metric_() -> B { seq![95u8, 95, 110, 97, 109, 101, 95, 95] } // __name__
spec fn value_() -> B { seq![118u8, 97, 108, 117, 101] }
spec fn none_() -> B;
#[verifier::external_body] fn metric_label() -> (r: &'static [u8]) ensures r@ == metric_() { b"__name__" }
#[verifier::external_body] fn sample_column() -> (r: &'static [u8]) ensures r@ == value_() { b"value" }
#[verifier::external_body] fn default_table() -> (r: &'static [u8]) ensures r@ == none_() { unimplemented!() }
#[verifier::external_body] fn text_is(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn text(a: &Vec<u8>) -> (r: &[u8]) ensures r@ == a@ { a.as_slice() }
#[verifier::external_body] fn copy_tags<'a>(v: &Vec<(&'a [u8], &'a [u8])>) -> (r: Vec<(&'a [u8], &'a [u8])>) ensures r@ == v@ { v.clone() }
fn scaled(a: i64, k: i64) -> (r: QueryResult<i64>)
    requires k == 1_000_000
    ensures r matches Ok(x) ==> x == a * 1_000_000, r is Err ==> !(i64::MIN <= a * 1_000_000 <= i64::MAX)
{ match a.checked_mul(k) { Some(x) => Ok(x), None => Err(QueryError {}) } }
// ---- a point, as it is to be stored ----
struct Line<'a> { hash_id: u64, table: &'a [u8], tags: Vec<(&'a [u8], &'a [u8])>, fields: Vec<(&'a [u8], FieldValue)>, timestamp: i64 }
spec fn tags_(v: Seq<(&[u8], &[u8])>) -> Seq<(B, B)> { v.map_values(|x: (&[u8], &[u8])| (x.0@, x.1@)) }
spec fn tidy(t: Seq<(B, B)>) -> Seq<(B, B)>; // by name, the first of a name: C22, C35
spec fn hash_(table: B, t: Seq<(B, B)>) -> u64; // of a table and tidy tags: C22
impl<'a> Line<'a> {
    #[verifier::external_body] fn sort_dedup_and_hash(&mut self)
        ensures tags_(final(self).tags@) == tidy(tags_(old(self).tags@)), final(self).table@ == old(self).table@, final(self).timestamp == old(self).timestamp, old(self).fields@.len() == 1 ==> final(self).fields@ == old(self).fields@,
            final(self).hash_id == hash_(old(self).table@, tidy(tags_(old(self).tags@))) { unimplemented!() }
}
spec fn labels_(l: Seq<Label>) -> Seq<(B, B)> { l.map_values(|x: Label| (x.name@, x.value@)) }
spec fn named(l: Seq<Label>, k: int) -> B decreases k { if k <= 0 { none_() } else if l[k - 1].name@ == metric_() { l[k - 1].value@ } else { named(l, k - 1) } }
spec fn is_line(l: Line, ts: TimeSeries, s: Sample) -> bool {
    &&& l.table@ == named(ts.labels@, ts.labels@.len() as int)
    &&& tags_(l.tags@) == tidy(labels_(ts.labels@))
    &&& l.hash_id == hash_(l.table@, tags_(l.tags@))
    &&& l.fields@.len() == 1 && l.fields@[0].0@ == value_() && l.fields@[0].1 == FieldValue::F64(s.value)
    &&& l.timestamp == s.timestamp * 1_000_000
}
// the samples of the first n series and the first k of the next: which series and which sample each line is
spec fn at(req: WriteRequest, n: int, k: int) -> Seq<(int, int)> decreases n, k {
    if n < 0 { Seq::empty() } else if k > 0 { at(req, n, k - 1).push((n, k - 1)) } else if n > 0 { at(req, n - 1, req.timeseries@[n - 1].samples@.len() as int) } else { Seq::empty() }
}
spec fn are_lines(v: Seq<Line>, req: WriteRequest, p: Seq<(int, int)>) -> bool { v.len() == p.len() && forall|i: int| 0 <= i < v.len() ==> is_line(#[trigger] v[i], req.timeseries@[p[i].0], req.timeseries@[p[i].0].samples@[p[i].1]) }
spec fn fits(req: WriteRequest) -> bool { forall|i: int, j: int| 0 <= i < req.timeseries@.len() && 0 <= j < req.timeseries@[i].samples@.len() ==> i64::MIN <= (#[trigger] req.timeseries@[i].samples@[j]).timestamp * 1_000_000 <= i64::MAX }
struct PromRemoteSqlServer {}
//@extract query_server/query/src/prom/remote_server.rs PromRemoteServer for PromRemoteSqlServer::prom_write_request_to_lines
@header impl PromRemoteSqlServer
@subst /let mut lines = / => let mut lines: Vec<Line<'a>> = 
@subst /req\.timeseries\.len\(\)/ => 0
@subst /for ts in req\.timeseries\.iter\(\) \{/ => let mut i = 0usize; while i < req.timeseries.len() { let ts = &req.timeseries[i]; i = i + 1;
@subst /DEFAULT_PROM_TABLE_NAME/ => default_table()
@subst /let tags = ts\s*\.labels\s*\.iter\(\)\s*\.map\(\|label\| \{/ => let mut tags: Vec<(&'a [u8], &'a [u8])> = Vec::new(); let mut k = 0usize; while k < ts.labels.len() { let label = &ts.labels[k]; k = k + 1;
@subst /label\.name\.eq\(METRIC_NAME_LABEL\)/ => text_is(text(&label.name), metric_label())
@subst /table_name = label\.value\.as_ref\(\)/ => table_name = text(&label.value);
@subst /\(\s*Cow::Borrowed\(label\.(\w+)\.as_ref\(\)\),\s*Cow::Borrowed\(label\.(\w+)\.as_ref\(\)\),\s*\)\s*\}\)\s*\.collect::<Vec<\(_, _\)>>\(\);/ => tags.push((text(&label.\1), text(&label.\2))); }
@subst /for sample in ts\.samples\.iter\(\) \{/ => let mut j = 0usize; while j < ts.samples.len() { let sample = &ts.samples[j]; j = j + 1;
@subst /Cow::Borrowed\(METRIC_SAMPLE_COLUMN_NAME\)/ => sample_column()
@subst /sample\.timestamp\.checked_mul\((\w+)\)\.ok_or_else\([\s\S]*?\}\s*\}\)\?/ => scaled(sample.timestamp, \1)?
@subst /Cow::Borrowed\(table_name\)/ => table_name
@subst /tags: tags\.clone\(\)/ => tags: copy_tags(&tags)
@ret r
@spec
    ensures
        r matches Ok(v) ==> fits(*req) && are_lines(v@, *req, at(*req, req.timeseries@.len() as int, 0)),
        r is Err ==> !fits(*req),
@loop 0
    invariant i <= req.timeseries@.len(), are_lines(lines@, *req, at(*req, i as int, 0)), forall|a: int, b: int| 0 <= a < i && 0 <= b < req.timeseries@[a].samples@.len() ==> i64::MIN <= (#[trigger] req.timeseries@[a].samples@[b]).timestamp * 1_000_000 <= i64::MAX
    decreases req.timeseries@.len() - i
@loop 1
    invariant k <= ts.labels@.len(), 0 < i <= req.timeseries@.len(), *ts == req.timeseries@[i - 1], table_name@ == named(ts.labels@, k as int), tags_(tags@) =~= labels_(ts.labels@).take(k as int)
    decreases ts.labels@.len() - k
@at before /tags\.push\([^;]*\);/
    let ghost t0 = tags@;
@at after /tags\.push\([^;]*\);/
    proof { assert(tags@.drop_last() =~= t0); assert(tags_(tags@) =~= tags_(t0).push((tags@.last().0@, tags@.last().1@))); assert(labels_(ts.labels@).take(k as int) =~= labels_(ts.labels@).take(k - 1).push(labels_(ts.labels@)[k - 1])); }
@loop 2
    invariant j <= ts.samples@.len(), 0 < i <= req.timeseries@.len(), *ts == req.timeseries@[i - 1], table_name@ == named(ts.labels@, ts.labels@.len() as int), tags_(tags@) == labels_(ts.labels@), are_lines(lines@, *req, at(*req, i - 1, j as int)),
        forall|a: int, b: int| (0 <= a < i - 1 && 0 <= b < req.timeseries@[a].samples@.len()) || (a == i - 1 && 0 <= b < j) ==> i64::MIN <= (#[trigger] req.timeseries@[a].samples@[b]).timestamp * 1_000_000 <= i64::MAX
    decreases ts.samples@.len() - j
@at after-loop 1
    proof { assert(labels_(ts.labels@).take(k as int) =~= labels_(ts.labels@)); }
@at before /let timestamp = /
    proof { assert(*sample == req.timeseries@[i - 1].samples@[j - 1]); }
@at before /lines\.push/
    let ghost l0 = lines@; let ghost nl = line;
    proof { assert(is_line(line, *ts, *sample)); }
@at after /lines\.push\(line\);/
    proof { assert(at(*req, i - 1, j as int) == at(*req, i - 1, j - 1).push((i - 1, j - 1))); assert(lines@ =~= l0.push(nl)); }
@end
fn main() {}
}
