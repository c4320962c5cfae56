use vstd::prelude::*;
verus! {
type Timestamp = i64;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy
@end
spec fn mem(r: TimeRange, t: i64) -> bool { r.min_ts <= t && t <= r.max_ts }
spec fn covers(v: Seq<TimeRange>, t: i64) -> bool { exists|i: int| 0 <= i < v.len() && mem(#[trigger] v[i], t) }
enum TskvError { Other }
type TskvResult<T> = Result<T, TskvError>;
// ---- the time column: values in increasing order; slice::binary_search on it ----
struct Times { v: Vec<i64> }
struct Found { at: usize, hit: bool }
impl Times {
    spec fn rising(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self.v.len() ==> self.v@[i] < self.v@[j] }
    fn values(&self) -> (r: &Times) ensures *r == *self { self }
    // Ok(i) with v[i] == x, or Err(i) with i the place to insert x
    #[verifier::external_body]
    fn binary_search(&self, x: &i64) -> (r: Found) requires self.rising()
        ensures r.at <= self.v.len(), r.hit ==> r.at < self.v.len() && self.v@[r.at as int] == *x, forall|i: int| 0 <= i < r.at ==> self.v@[i] < *x, forall|i: int| r.at < i < self.v.len() ==> self.v@[i] > *x, !r.hit && r.at < self.v.len() ==> self.v@[r.at as int] > *x { unimplemented!() }
}
impl Found {
    // .unwrap_or_else(|x| x)
    fn either(self) -> (r: usize) ensures r == self.at { self.at }
    // .map(|x| x + 1)
    fn past(self) -> (r: Found) requires self.hit ==> self.at < usize::MAX ensures r.hit == self.hit, r.at == if self.hit { (self.at + 1) as usize } else { self.at } { Found { at: if self.hit { self.at + 1 } else { self.at }, hit: self.hit } }
}
struct Bits { b: Vec<bool> }
impl Bits {
    fn set_bit(&mut self, i: usize, x: bool) requires i < old(self).b.len() ensures final(self).b@ =~= old(self).b@.update(i as int, x) { self.b.set(i, x); }
    fn finish(self) -> (r: Bits) ensures r == self { self }
}
#[derive(Clone, Copy)]
enum Kind { Time, Field }
// a page of a column: its rows' mask, and the column it decodes to
struct Page { nulls: Vec<bool>, kind: Kind, id: u32, arr: Arr, times: Times, span: TimeRange }
#[derive(Clone, Copy)]
struct Val { x: u64 }
struct Arr { v: Vec<Option<Val>> }
impl Page {
    // C26: the mask of the page
    #[verifier::external_body]
    fn null_bitset(&self) -> (r: Bits) ensures r.b@ == self.nulls@ { unimplemented!() }
}
//@extract tskv/src/tsm/reader.rs update_nullbits_by_time_range
@subst /&PrimitiveArray<Int64Type>/ => &Times
@subst /BooleanBuffer/ => Bits
@subst /\.unwrap_or_else\(\|(\w+)\| \1\)/ => .either()
@subst /\.map\(\|(\w+)\| \1 \+ 1\)/ => .past()
@subst /for (\w+) in time_ranges \{/ => let mut ri: usize = 0; while ri < time_ranges.len() { let \1 = &time_ranges[ri]; ri += 1;
@subst /for (\w+) in (\w+)\.\.(\w+) \{/ => let mut bi: usize = \2; while bi < \3 { let \1 = bi; bi += 1;
@ret r
@spec
    requires time_array_ref.rising(), page.nulls.len() == time_array_ref.v.len(), time_array_ref.v.len() < usize::MAX
    ensures r is Ok, r->Ok_0.b.len() == page.nulls.len(),
        forall|i: int| 0 <= i < page.nulls.len() ==> (#[trigger] r->Ok_0.b@[i] <==> page.nulls@[i] && !covers(time_ranges@, time_array_ref.v@[i]))
@loop 0
    invariant 0 <= ri <= time_ranges.len(), time_array_ref.rising(), page.nulls.len() == time_array_ref.v.len(), time_array_ref.v.len() < usize::MAX, null_bitset.b.len() == page.nulls.len(),
        forall|i: int| 0 <= i < page.nulls.len() ==> (#[trigger] null_bitset.b@[i] <==> page.nulls@[i] && !covers(time_ranges@.take(ri as int), time_array_ref.v@[i]))
    decreases time_ranges.len() - ri
@at loop-start 0
    let ghost m0 = null_bitset.b@; let ghost k = ri as int;
@at before-loop 1
    proof { assert forall|i: int| 0 <= i < page.nulls.len() implies (start_index <= i && i < end_index) == mem(time_ranges@[k], #[trigger] time_array_ref.v@[i]) by {} }
@loop 1
    invariant start_index <= bi, bi <= end_index || bi == start_index, end_index <= page.nulls.len(), null_bitset.b.len() == page.nulls.len(), m0.len() == page.nulls.len(),
        forall|i: int| 0 <= i < page.nulls.len() ==> #[trigger] null_bitset.b@[i] == (m0[i] && !(start_index <= i < bi))
    decreases end_index - bi
@at loop-end 0
    proof { let a = time_ranges@.take(k); let b = time_ranges@.take(k + 1);
      assert forall|i: int| 0 <= i < page.nulls.len() implies (#[trigger] null_bitset.b@[i] <==> page.nulls@[i] && !covers(b, time_array_ref.v@[i])) by {
        let t = time_array_ref.v@[i]; assert(null_bitset.b@[i] == (m0[i] && !(start_index <= i < end_index))); assert(m0[i] <==> page.nulls@[i] && !covers(a, t));
        if covers(a, t) { let j = choose|j: int| 0 <= j < a.len() && mem(#[trigger] a[j], t); assert(b[j] == a[j]); }
        if mem(time_ranges@[k], t) { assert(b[k] == time_ranges@[k]); }
        if covers(b, t) { let j = choose|j: int| 0 <= j < b.len() && mem(#[trigger] b[j], t); if j < k { assert(a[j] == b[j]); } } } }
@at tail
    proof { assert(time_ranges@.take(time_ranges.len() as int) =~= time_ranges@); }
@end

// what is deleted (tombstone.rs): the ranges of a column, and of all columns, that overlap `r`
struct Tomb { x: u8 }
impl Tomb {
    uninterp spec fn one(&self, s: u32, c: u32, t: i64) -> bool;
    uninterp spec fn all(&self, t: i64) -> bool;
    #[verifier::external_body]
    fn get_all_fields_excluded_time_range(&self, r: &TimeRange) -> (v: Vec<TimeRange>) ensures forall|t: i64| mem(*r, t) ==> (#[trigger] covers(v@, t) <==> self.all(t)) { unimplemented!() }
    #[verifier::external_body]
    fn get_column_overlapped_time_ranges(&self, s: u32, c: u32, r: &TimeRange) -> (v: Vec<TimeRange>) ensures forall|t: i64| mem(*r, t) ==> (#[trigger] covers(v@, t) <==> self.one(s, c, t)) { unimplemented!() }
}
impl Page {
    // the page is well-formed: one row per time, the span of the time column is that of its statistics
    spec fn ok(&self, tp: Page) -> bool { self.nulls.len() == tp.times.v.len() && self.arr.v.len() == self.nulls.len() && forall|i: int| 0 <= i < self.nulls.len() ==> (#[trigger] self.nulls@[i] <==> self.arr.v@[i] is Some) }
    #[verifier::external_body]
    fn to_arrow_array(&self) -> (r: TskvResult<Arr>) ensures r is Ok ==> r->Ok_0 == self.arr { unimplemented!() }
}
#[verifier::external_body]
fn find_time(pages: &Vec<Page>) -> (r: TskvResult<&Page>) ensures r is Ok ==> exists|i: int| 0 <= i < pages.len() && #[trigger] pages@[i] == *r->Ok_0 && r->Ok_0.kind is Time, r is Err ==> forall|i: int| 0 <= i < pages.len() ==> (#[trigger] pages@[i]).kind is Field { unimplemented!() }
spec fn fields(p: Seq<Page>) -> Seq<Page> { p.filter(|x: Page| x.kind is Field) }
#[verifier::external_body]
fn field_pages(pages: &Vec<Page>) -> (r: Vec<Page>) ensures r@ == fields(pages@) { unimplemented!() }
#[verifier::external_body]
fn get_time_page_meta(p: &Page) -> (r: TskvResult<(Times, TimeRange, Arr)>) ensures r is Ok ==> r->Ok_0.0 == p.times && r->Ok_0.1 == p.span && r->Ok_0.2 == p.arr { unimplemented!() }
// the array with another mask: the values of the rows it keeps, null elsewhere
#[verifier::external_body]
fn updated_nullbuffer(a: Arr, b: Bits) -> (r: TskvResult<Arr>) requires a.v.len() == b.b.len() ensures r is Ok ==> r->Ok_0.v.len() == a.v.len() && forall|i: int| 0 <= i < a.v.len() && (b.b@[i] ==> a.v@[i] is Some) ==> #[trigger] r->Ok_0.v@[i] == if b.b@[i] { a.v@[i] } else { None } { unimplemented!() }
struct RecordBatch { cols: Vec<Arr>, keep: Ghost<Seq<bool>> }
impl RecordBatch {
    #[verifier::external_body]
    fn try_new(cols: Vec<Arr>) -> (r: TskvResult<RecordBatch>) ensures r is Ok ==> r->Ok_0.cols == cols && r->Ok_0.keep@ == Seq::new(cols@[0].v@.len(), |i: int| true) { unimplemented!() }
}
// the rows marked in the mask
#[verifier::external_body]
fn filter_record_batch(rb: &RecordBatch, m: &Bits) -> (r: TskvResult<RecordBatch>) requires m.b.len() == rb.keep@.len() ensures r is Ok ==> r->Ok_0.cols == rb.cols && r->Ok_0.keep@ =~= Seq::new(m.b@.len(), |i: int| rb.keep@[i] && m.b@[i]) { unimplemented!() }
spec fn cell(t: Tomb, s: u32, p: Page, tp: Page, i: int) -> Option<Val> { if t.one(s, p.id, tp.times.v@[i]) { None } else { p.arr.v@[i] } }
// column p as read: row by row its value, or null where deleted
spec fn read_as(a: Arr, t: Tomb, s: u32, p: Page, tp: Page) -> bool { a.v.len() == p.nulls.len() && forall|i: int| 0 <= i < p.nulls.len() ==> #[trigger] a.v@[i] == cell(t, s, p, tp, i) }
spec fn in_span(tp: Page) -> bool { tp.times.rising() && tp.times.v.len() < usize::MAX && tp.ok(tp) && (forall|i: int| 0 <= i < tp.times.v.len() ==> mem(tp.span, #[trigger] tp.times.v@[i]) && tp.nulls@[i]) }
spec fn chunk_ok(p: Seq<Page>, tp: Page) -> bool { in_span(tp) && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).ok(tp) && (p[i].kind is Time ==> p[i] == tp) }
spec fn read_ok(b: RecordBatch, pages: Seq<Page>, tp: Page, t: Tomb, s: u32) -> bool {
    let f = fields(pages);
    b.cols.len() == f.len() + 1 && b.cols@[0] == tp.arr && (forall|j: int| 0 <= j < f.len() ==> read_as(#[trigger] b.cols@[j + 1], t, s, f[j], tp))
    && b.keep@.len() == tp.nulls.len() && forall|k: int| 0 <= k < tp.nulls.len() ==> #[trigger] b.keep@[k] == !t.all(tp.times.v@[k])
}
//@extract tskv/src/tsm/reader.rs decode_pages
@subst /,\s*schema_meta: HashMap<String, String>/ =>
@subst /Option<\(Arc<TsmTombstone>, SeriesId\)>/ => Option<(Tomb, u32)>
@subst /let fields = .*?;\s*let schema = .*?;/ =>
@subst /pages\s*\.iter\(\)\s*\.find\(\|(\w+)\| \1\.meta\.column\.column_type\.is_time\(\)\)\s*\.context\(CommonSnafu \{.*?\}\)\?/ => find_time(&pages)?
@subst /for (\w+) in pages\s*\.iter\(\)\s*\.filter\(\|(\w+)\| \2\.meta\.column\.column_type\.is_field\(\)\)\s*\{/ => let fp = field_pages(&pages); let mut pi: usize = 0; while pi < fp.len() { let \1 = &fp[pi]; pi += 1;
@subst /for (\w+) in pages \{/ => let mut pi: usize = 0; while pi < pages.len() { let \1 = &pages[pi]; pi += 1;
@subst /RecordBatch::try_new\(schema, (\w+)\)/ => RecordBatch::try_new(\1)
@subst /\.context\(ArrowSnafu\)/ =>
@subst /BooleanArray::new\((\w+), None\)/ => \1
@subst /page\.meta\.column\.id/ => page.id
@subst /Vec::with_capacity\(pages\.len\(\)\)/ => Vec::<Arr>::new()
@ret r
@spec
    requires tomb is Some ==> forall|i: int| 0 <= i < pages.len() && (#[trigger] pages@[i]).kind is Time ==> chunk_ok(pages@, pages@[i])
    ensures r is Ok ==> match tomb { Some(x) => exists|i: int| 0 <= i < pages.len() && (#[trigger] pages@[i]).kind is Time && read_ok(r->Ok_0, pages@, pages@[i], x.0, x.1), None => true },
      r is Ok && tomb is None ==> r->Ok_0.cols.len() == pages.len() && forall|j: int| 0 <= j < pages.len() ==> #[trigger] r->Ok_0.cols@[j] == pages@[j].arr
@at before /let filters/
    proof { assert(in_span(*time_page)); }
@loop 0
    invariant 0 <= pi <= fp.len(), fp@ == fields(pages@), target_arrays.len() == pi + 1, target_arrays@[0] == time_page.arr, time_array == time_page.times, time_range == time_page.span, chunk_ok(pages@, *time_page),
        forall|j: int| 0 <= j < pi ==> read_as(#[trigger] target_arrays@[j + 1], tomb, series_id, fp@[j], *time_page)
    decreases fp.len() - pi
@at loop-start 0
    let ghost ta0 = target_arrays@; let ghost p0 = fp@[pi as int];
    proof { pages@.lemma_filter_contains_rev(|x: Page| x.kind is Field, p0); }
@at loop-end 0
    proof { let a = target_arrays@[pi as int]; assert(p0.ok(*time_page)); assert(target_arrays@ =~= ta0.push(a));
      assert forall|i: int| 0 <= i < p0.nulls.len() implies #[trigger] a.v@[i] == cell(tomb, series_id, p0, *time_page, i) by {
        let t = time_page.times.v@[i]; assert(mem(time_page.span, t)); assert(covers(filters@, t) <==> tomb.one(series_id, p0.id, t)); assert(p0.nulls@[i] <==> p0.arr.v@[i] is Some); }
      assert(read_as(a, tomb, series_id, p0, *time_page)); }
@at before /Ok\(record_batch\)/
    proof { assert forall|k: int| 0 <= k < time_page.nulls.len() implies #[trigger] record_batch.keep@[k] == !tomb.all(time_page.times.v@[k]) by {
        let t = time_page.times.v@[k]; assert(mem(time_page.span, t)); assert(time_page.nulls@[k]); assert(covers(filters@, t) <==> tomb.all(t)); } 
      assert(read_ok(record_batch, pages@, *time_page, tomb, series_id)); }
@loop 1
    invariant 0 <= pi <= pages.len(), target_arrays.len() == pi, forall|j: int| 0 <= j < pi ==> #[trigger] target_arrays@[j] == pages@[j].arr
    decreases pages.len() - pi
@end
}
fn main() {}
