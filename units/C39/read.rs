use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct QueryError {}
type QueryResult<T> = std::result::Result<T, QueryError>;
#[derive(Clone, Copy)] enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
#[derive(Clone, Copy)] enum DataType { Utf8, Float64, Float32, Float16, Timestamp(TimeUnit, ()), Other }
// ---- a column of a batch ----
struct Col { kind: DataType, null: Ghost<Set<int>>, texts: Ghost<Seq<B>>, floats: Ghost<Seq<f64>>, times: Ghost<Seq<i64>> }
spec fn widened(c: Col, i: int) -> f64; // a value of 32 or 16 bits as one of 64
impl Col {
    fn data_type(&self) -> (r: DataType) ensures r == self.kind { self.kind }
    #[verifier::external_body] fn is_null(&self, i: usize) -> (r: bool) ensures r == self.null@.contains(i as int) { unimplemented!() }
    #[verifier::external_body] fn text_at(&self, i: usize) -> (r: Vec<u8>) requires self.kind is Utf8 ensures r@ == self.texts@[i as int] { unimplemented!() }
    #[verifier::external_body] fn f64_at(&self, i: usize) -> (r: f64) requires self.kind is Float64 ensures r == self.floats@[i as int] { unimplemented!() }
    #[verifier::external_body] fn f32_at(&self, i: usize) -> (r: f64) requires self.kind is Float32 ensures r == widened(*self, i as int) { unimplemented!() }
    #[verifier::external_body] fn f16_at(&self, i: usize) -> (r: f64) requires self.kind is Float16 ensures r == widened(*self, i as int) { unimplemented!() }
    #[verifier::external_body] fn sec_at(&self, i: usize) -> (r: i64) requires self.kind == DataType::Timestamp(TimeUnit::Second, ()) ensures r == self.times@[i as int] { unimplemented!() }
    #[verifier::external_body] fn ms_at(&self, i: usize) -> (r: i64) requires self.kind == DataType::Timestamp(TimeUnit::Millisecond, ()) ensures r == self.times@[i as int] { unimplemented!() }
    #[verifier::external_body] fn us_at(&self, i: usize) -> (r: i64) requires self.kind == DataType::Timestamp(TimeUnit::Microsecond, ()) ensures r == self.times@[i as int] { unimplemented!() }
    #[verifier::external_body] fn ns_at(&self, i: usize) -> (r: i64) requires self.kind == DataType::Timestamp(TimeUnit::Nanosecond, ()) ensures r == self.times@[i as int] { unimplemented!() }
}
spec fn quotient(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } } // towards zero
#[verifier::external_body] fn div(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == quotient(a as int, b as int) { a / b }
#[verifier::external_body] fn copy(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { a.clone() }
// ---- the labels of a series as a key ----
struct Label { name: Vec<u8>, value: Vec<u8> }
struct Sample { value: f64, timestamp: i64 }
spec fn labels_(v: Seq<Label>) -> Seq<(B, B)> { v.map_values(|l: Label| (l.name@, l.value@)) }
spec fn dec(n: nat) -> B decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
proof fn lemma_dec(n: nat) ensures dec(n).len() >= 1, forall|i: int| 0 <= i < dec(n).len() ==> #[trigger] dec(n)[i] != 58, dec(n).last() == 48 + n % 10 decreases n { if n >= 10 { lemma_dec(n / 10); } }
proof fn lemma_dec_same(n: nat, m: nat) requires dec(n) == dec(m) ensures n == m decreases n {
    lemma_dec(n); lemma_dec(m);
    if n >= 10 && m >= 10 { assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(m).drop_last() =~= dec(m / 10)); lemma_dec_same(n / 10, m / 10); }
    else if n >= 10 { lemma_dec(n / 10); assert(dec(n).len() >= 2); }
    else if m >= 10 { lemma_dec(m / 10); assert(dec(m).len() >= 2); }
}
spec fn part(s: B) -> B { dec(s.len()) + seq![58u8] + s }
spec fn cat(l: Seq<(B, B)>) -> B decreases l.len() { if l.len() == 0 { Seq::empty() } else { part(l[0].0) + (part(l[0].1) + cat(l.skip(1))) } }
proof fn lemma_part(s: B, t: B, x: B, y: B) requires part(s) + x == part(t) + y ensures s == t, x == y
{
    lemma_dec(s.len()); lemma_dec(t.len()); let a = dec(s.len()); let b = dec(t.len()); let u = part(s) + x; let v = part(t) + y;
    assert(u[a.len() as int] == 58); assert(v[b.len() as int] == 58);
    if a.len() < b.len() { assert(v[a.len() as int] == b[a.len() as int]); assert(false); }
    if b.len() < a.len() { assert(u[b.len() as int] == a[b.len() as int]); assert(false); }
    assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(u[i] == a[i]); assert(v[i] == b[i]); } }
    lemma_dec_same(s.len(), t.len());
    let o = a.len() + 1;
    assert(s =~= u.subrange(o as int, (o + s.len()) as int)); assert(t =~= v.subrange(o as int, (o + s.len()) as int));
    assert(x =~= u.skip((o + s.len()) as int)); assert(y =~= v.skip((o + s.len()) as int));
}
/// series of different labels have different keys, whatever is in the labels
proof fn lemma_cat(k: Seq<(B, B)>, l: Seq<(B, B)>) requires cat(k) == cat(l) ensures k == l decreases k.len()
{
    if k.len() > 0 && l.len() > 0 {
        lemma_part(k[0].0, l[0].0, part(k[0].1) + cat(k.skip(1)), part(l[0].1) + cat(l.skip(1))); lemma_part(k[0].1, l[0].1, cat(k.skip(1)), cat(l.skip(1))); lemma_cat(k.skip(1), l.skip(1));
        assert(k =~= seq![k[0]] + k.skip(1)); assert(l =~= seq![l[0]] + l.skip(1));
    } else if k.len() > 0 { lemma_dec(k[0].0.len()); assert(cat(k).len() > 0); }
    else if l.len() > 0 { lemma_dec(l[0].0.len()); assert(cat(l).len() > 0); }
    else { assert(k =~= l); }
}
proof fn lemma_cat_push(l: Seq<(B, B)>, x: (B, B)) ensures cat(l.push(x)) == cat(l) + (part(x.0) + part(x.1)) decreases l.len()
{
    let m = l.push(x);
    if l.len() == 0 { assert(m.skip(1).len() == 0); assert(m[0] == x); assert(cat(m.skip(1)) =~= Seq::<u8>::empty()); assert(part(x.1) + cat(m.skip(1)) =~= part(x.1)); assert(cat(m) =~= cat(l) + (part(x.0) + part(x.1))); }
    else { lemma_cat_push(l.skip(1), x); assert(m.skip(1) =~= l.skip(1).push(x)); assert(m[0] == l[0]); assert(cat(m) =~= cat(l) + (part(x.0) + part(x.1))); }
}
#[verifier::external_body] fn push_len(o: &mut Vec<u8>, n: usize) ensures final(o)@ == old(o)@ + dec(n as nat) { unimplemented!() }
#[verifier::external_body] fn push_text(o: &mut Vec<u8>, s: &Vec<u8>) ensures final(o)@ == old(o)@ + s@ { o.extend_from_slice(s) }
#[verifier::external_body] fn push_colon(o: &mut Vec<u8>) ensures final(o)@ == old(o)@ + seq![58u8] { o.push(58) }
//@extract query_server/query/src/prom/time_series/writer.rs fn concat_labels
@subst /labels: &\[Label\]\) -> String/ => labels: &Vec<Label>) -> Vec<u8>
@subst /labels\s*\.iter\(\)\s*\.flat_map\(\|e\| \[e\.(\w+)\.as_str\(\), e\.(\w+)\.as_str\(\)\]\)\s*\.map\(\|part\| format!\("\{\}:\{\}", part\.len\(\), part\)\)\s*\.collect\(\)/ => let mut out: Vec<u8> = Vec::new(); let mut i = 0usize; while i < labels.len() { let e = &labels[i]; i = i + 1; push_len(&mut out, e.\1.len()); push_colon(&mut out); push_text(&mut out, &e.\1); push_len(&mut out, e.\2.len()); push_colon(&mut out); push_text(&mut out, &e.\2); } out
@ret r
@spec
    ensures r@ == cat(labels_(labels@))
@loop 0
    invariant i <= labels@.len(), out@ == cat(labels_(labels@).take(i as int))
    decreases labels@.len() - i
@at loop-start 0
    let ghost o0 = out@;
@at loop-end 0
    proof {
        let l = labels_(labels@); lemma_cat_push(l.take(i - 1), (e.name@, e.value@)); assert(l.take(i as int) =~= l.take(i - 1).push((e.name@, e.value@)));
        assert(out@ =~= o0 + (part(e.name@) + part(e.value@)));
    }
@at after-loop 0
    proof { assert(labels_(labels@).take(i as int) =~= labels_(labels@)); }
@end
// ---- the series ----
struct Series { m: Ghost<Map<B, (Seq<(B, B)>, Seq<(f64, i64)>)>> }
impl Series {
    /// entry(key).or_insert_with(a series of the labels and no sample).samples.push(sample)
    #[verifier::external_body] fn add(&mut self, key: Vec<u8>, labels: Vec<Label>, s: Sample)
        ensures final(self).m@ == old(self).m@.insert(key@, if old(self).m@.contains_key(key@) { (old(self).m@[key@].0, old(self).m@[key@].1.push((s.value, s.timestamp))) } else { (labels_(labels@), seq![(s.value, s.timestamp)]) }) { unimplemented!() }
}
spec fn tidy(m: Map<B, (Seq<(B, B)>, Seq<(f64, i64)>)>) -> bool { forall|k: B| #[trigger] m.contains_key(k) ==> k == cat(m[k].0) && m[k].1.len() > 0 }
/// the samples of the series of these labels
spec fn of(m: Map<B, (Seq<(B, B)>, Seq<(f64, i64)>)>, l: Seq<(B, B)>) -> Seq<(f64, i64)> { if m.contains_key(cat(l)) { m[cat(l)].1 } else { Seq::empty() } }
struct Writer<'a> { tag_name_indices: Vec<usize>, tag_names: Vec<Vec<u8>>, sample_value_idx: usize, sample_time_idx: usize, labels_to_series: &'a mut Series }
// ---- what a row says ----
spec fn row_labels(w: Writer, b: Seq<Col>, i: int, k: int) -> Seq<(B, B)> decreases k {
    if k <= 0 { Seq::empty() } else { let c = b[w.tag_name_indices@[k - 1] as int]; if c.null@.contains(i) { row_labels(w, b, i, k - 1) } else { row_labels(w, b, i, k - 1).push((w.tag_names@[k - 1]@, c.texts@[i])) } }
}
spec fn row_value(w: Writer, b: Seq<Col>, i: int) -> f64 { let c = b[w.sample_value_idx as int]; if c.kind is Float64 { c.floats@[i] } else { widened(c, i) } }
spec fn row_ms(w: Writer, b: Seq<Col>, i: int) -> int {
    let c = b[w.sample_time_idx as int]; let t = c.times@[i] as int;
    match c.kind { DataType::Timestamp(TimeUnit::Second, _) => t * 1000, DataType::Timestamp(TimeUnit::Millisecond, _) => t, DataType::Timestamp(TimeUnit::Microsecond, _) => quotient(t, 1000), _ => quotient(t, 1_000_000) }
}
spec fn has_sample(w: Writer, b: Seq<Col>, i: int) -> bool { !b[w.sample_value_idx as int].null@.contains(i) }
spec fn kinds(w: Writer, b: Seq<Col>) -> bool {
    &&& w.sample_value_idx < b.len() && w.sample_time_idx < b.len() && w.tag_names@.len() == w.tag_name_indices@.len()
    &&& forall|k: int| 0 <= k < w.tag_name_indices@.len() ==> #[trigger] w.tag_name_indices@[k] < b.len()
}
spec fn readable(w: Writer, b: Seq<Col>) -> bool {
    &&& forall|k: int| 0 <= k < w.tag_name_indices@.len() ==> b[#[trigger] w.tag_name_indices@[k] as int].kind is Utf8
    &&& (b[w.sample_value_idx as int].kind is Float64 || b[w.sample_value_idx as int].kind is Float32 || b[w.sample_value_idx as int].kind is Float16)
    &&& b[w.sample_time_idx as int].kind is Timestamp
}
spec fn small_seconds(w: Writer, b: Seq<Col>) -> bool { let c = b[w.sample_time_idx as int]; c.kind == DataType::Timestamp(TimeUnit::Second, ()) ==> forall|i: int| 0 <= i < c.times@.len() ==> -9_000_000_000_000_000 < #[trigger] c.times@[i] < 9_000_000_000_000_000 }
spec fn same_but_series(a: Writer, b: Writer) -> bool { a.tag_name_indices@ == b.tag_name_indices@ && a.tag_names@ == b.tag_names@ && a.sample_value_idx == b.sample_value_idx && a.sample_time_idx == b.sample_time_idx }
/// the series after a row: its sample is added to the series of its labels, and to no other
spec fn added(w: Writer, b: Seq<Col>, i: int, m: Map<B, (Seq<(B, B)>, Seq<(f64, i64)>)>, n: Map<B, (Seq<(B, B)>, Seq<(f64, i64)>)>) -> bool {
    let l0 = row_labels(w, b, i, w.tag_name_indices@.len() as int);
    forall|l: Seq<(B, B)>| #[trigger] of(n, l) == if has_sample(w, b, i) && l == l0 { of(m, l).push((row_value(w, b, i), row_ms(w, b, i) as i64)) } else { of(m, l) }
}
//@extract query_server/query/src/prom/time_series/writer.rs Writer::apply
@header impl<'a> Writer<'a>
@subst /batch: &\[ArrayRef\]/ => batch: &Vec<Col>
@subst /Vec::with_capacity\([^;]*\);/ => Vec::new();
@subst /let mut labels = / => let mut labels: Vec<Label> = 
@subst /for \(tag_idx, tag_name\) in self\.tag_name_indices\.iter\(\)\.zip\(&self\.tag_names\) \{/ => let mut k = 0usize; while k < self.tag_name_indices.len() { let tag_idx = &self.tag_name_indices[k]; let tag_name = &self.tag_names[k]; k = k + 1;
@subst /col\s*\.as_any\(\)\s*\.downcast_ref::<StringArray>\(\)\s*\.expect\([^)]*\)\s*\.value\(row_index\)\s*\.to_owned\(\)/ => col.text_at(row_index)
@subst /tag_name\.to_owned\(\)/ => copy(tag_name)
@subst /col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<Float64Type>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\)/ => col.f64_at(row_index)
@subst /f64::from\(\s*col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<Float32Type>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\),?\s*\)/ => col.f32_at(row_index)
@subst /f64::from\(\s*col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<Float16Type>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\),?\s*\)/ => col.f16_at(row_index)
@subst /col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<TimestampSecondType>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\)/ => col.sec_at(row_index)
@subst /col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<TimestampMillisecondType>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\)/ => col.ms_at(row_index)
@subst /col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<TimestampMicrosecondType>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\)/ => col.us_at(row_index)
@subst /col\s*\.as_any\(\)\s*\.downcast_ref::<PrimitiveArray<TimestampNanosecondType>>\(\)\s*\.unwrap_unchecked\(\)\s*\.value\(row_index\)/ => col.ns_at(row_index)
@subst /(col\.\w+_at\(row_index\))\s*\/ ([\d_]+)/ => div(\1, \2)
@subst /= unsafe \{\s*match/ => = { match
@subst /return Err\(CommonSnafu \{[\s\S]*?\.build\(\)\);/ => return Err(QueryError {});
@subst /self\.labels_to_series\s*\.entry\(labels_str\)\s*\.or_insert_with\(\|\| TimeSeries \{\s*labels,\s*\.\.Default::default\(\)\s*\}\)\s*\.samples\s*\.push\(sample\);/ => self.labels_to_series.add(labels_str, labels, sample);
@subst /debug!\([\s\S]*?\);/ => 
@ret r
@spec
    requires kinds(*old(self), batch@), small_seconds(*old(self), batch@), tidy(old(self).labels_to_series.m@), forall|j: int| 0 <= j < batch@.len() ==> row_index < (#[trigger] batch@[j]).times@.len()
    ensures
        same_but_series(*final(self), *old(self)), tidy(final(self).labels_to_series.m@),
        r is Ok ==> added(*old(self), batch@, row_index as int, old(self).labels_to_series.m@, final(self).labels_to_series.m@),
        r is Err ==> !readable(*old(self), batch@) && final(self).labels_to_series.m@ == old(self).labels_to_series.m@,
@at start
    let ghost w0 = *self; let ghost m0 = self.labels_to_series.m@; let ghost ri = row_index as int;
@loop 0
    invariant k <= self.tag_name_indices@.len(), same_but_series(*self, w0), kinds(w0, batch@), self.labels_to_series.m@ == m0, *self == w0, ri == row_index, m0 == w0.labels_to_series.m@, tidy(m0),
        labels_(labels@) == row_labels(w0, batch@, ri, k as int)
    decreases self.tag_name_indices@.len() - k
@at before /let col = &batch\[\*tag_idx\];/
    let ghost l0 = labels@;
@at loop-end 0
    proof { assert(labels@.drop_last() =~= l0); assert(labels_(labels@) =~= labels_(l0).push((labels@.last().name@, labels@.last().value@))); }
@at after /self\.labels_to_series\.add\([^;]*;/
    proof {
        let l1 = row_labels(w0, batch@, ri, w0.tag_name_indices@.len() as int); let m1 = self.labels_to_series.m@;
        assert forall|l: Seq<(B, B)>| #[trigger] of(m1, l) == if l == l1 { of(m0, l).push((row_value(w0, batch@, ri), row_ms(w0, batch@, ri) as i64)) } else { of(m0, l) } by { if cat(l) == cat(l1) { lemma_cat(l, l1); assert(of(m1, l) =~= of(m0, l).push((row_value(w0, batch@, ri), row_ms(w0, batch@, ri) as i64))); } }
    }
@end
struct RecordBatch { cols: Vec<Col>, rows: usize }
impl RecordBatch { fn columns(&self) -> (r: &Vec<Col>) ensures r@ == self.cols@ { &self.cols } fn num_rows(&self) -> (r: usize) ensures r == self.rows { self.rows } }
/// the samples that the first n rows have for these labels
spec fn said(w: Writer, b: Seq<Col>, n: int, l: Seq<(B, B)>) -> Seq<(f64, i64)> decreases n {
    if n <= 0 { Seq::empty() } else if has_sample(w, b, n - 1) && l == row_labels(w, b, n - 1, w.tag_name_indices@.len() as int) { said(w, b, n - 1, l).push((row_value(w, b, n - 1), row_ms(w, b, n - 1) as i64)) } else { said(w, b, n - 1, l) }
}
proof fn lemma_labels(a: Writer, w: Writer, b: Seq<Col>, i: int, k: int) requires same_but_series(a, w), k <= w.tag_name_indices@.len() ensures row_labels(a, b, i, k) == row_labels(w, b, i, k) decreases k { if k > 0 { lemma_labels(a, w, b, i, k - 1); } }
//@extract query_server/query/src/prom/time_series/writer.rs Writer::write
@header impl<'a> Writer<'a>
@subst /debug_assert_eq!\([\s\S]*?\);/ => 
@subst /for row_index in 0\.\.batch\.num_rows\(\) \{/ => let mut i = 0usize; while i < batch.num_rows() { let row_index = i; i = i + 1;
@ret r
@spec
    requires kinds(*old(self), batch.cols@), small_seconds(*old(self), batch.cols@), tidy(old(self).labels_to_series.m@), forall|j: int| 0 <= j < batch.cols@.len() ==> batch.rows <= (#[trigger] batch.cols@[j]).times@.len()
    ensures
        tidy(final(self).labels_to_series.m@),
        r is Ok ==> forall|l: Seq<(B, B)>| #[trigger] of(final(self).labels_to_series.m@, l) == of(old(self).labels_to_series.m@, l) + said(*old(self), batch.cols@, batch.rows as int, l),
        r is Err ==> !readable(*old(self), batch.cols@),
@at start
    let ghost w0 = *self; let ghost m0 = self.labels_to_series.m@; let ghost b = batch.cols@;
@loop 0
    invariant i <= batch.rows, same_but_series(*self, w0), kinds(w0, b), small_seconds(w0, b), b == batch.cols@, columns@ == b, tidy(self.labels_to_series.m@), forall|j: int| 0 <= j < b.len() ==> batch.rows <= (#[trigger] b[j]).times@.len(), w0 == *old(self),
        forall|l: Seq<(B, B)>| #[trigger] of(self.labels_to_series.m@, l) == of(m0, l) + said(w0, b, i as int, l)
    decreases batch.rows - i
@at loop-start 0
    let ghost s0 = self.labels_to_series.m@; let ghost c0 = *self;
    proof { assert(readable(c0, b) == readable(w0, b)) by { assert(forall|k: int| 0 <= k < w0.tag_name_indices@.len() ==> c0.tag_name_indices@[k] == #[trigger] w0.tag_name_indices@[k]); } }
@at loop-end 0
    proof {
        let n = w0.tag_name_indices@.len() as int; lemma_labels(c0, w0, b, i - 1, n);
        assert forall|l: Seq<(B, B)>| #[trigger] of(self.labels_to_series.m@, l) == of(m0, l) + said(w0, b, i as int, l) by { assert(of(s0, l) == of(m0, l) + said(w0, b, i - 1, l)); assert(of(self.labels_to_series.m@, l) =~= of(m0, l) + said(w0, b, i as int, l)); }
    }
@end
fn main() {}
}
