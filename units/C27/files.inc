type Timestamp = i64; type SeriesId = u32; type ColumnGroupID = u64; type LevelId = u32; type ColumnFileId = u64; type VnodeId = u32;
#[derive(Clone, Copy)]
enum TskvError { Common }
type TskvResult<T> = Result<T, TskvError>;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy
@end
spec fn mem(r: TimeRange, t: i64) -> bool { r.min_ts <= t && t <= r.max_ts }
spec fn ov(a: TimeRange, b: TimeRange) -> bool { a.min_ts <= b.max_ts && a.max_ts >= b.min_ts }
const fn max(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
const fn min(a: i64, b: i64) -> (r: i64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
//@extract common/models/src/predicate/domain.rs TimeRange::all
@ret r
@spec
    ensures r.min_ts == i64::MIN, r.max_ts == i64::MAX
@end
//@extract common/models/src/predicate/domain.rs TimeRange::none
@ret r
@spec
    ensures r.min_ts == i64::MAX, r.max_ts == i64::MIN
@end
//@extract common/models/src/predicate/domain.rs TimeRange::is_none
@ret r
@spec
    ensures r == (self.min_ts > self.max_ts)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::is_boundless
@ret r
@spec
    ensures r == (self.min_ts == i64::MIN && self.max_ts == i64::MAX)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::overlaps
@ret r
@spec
    ensures r == ov(*self, *range)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::includes
@ret r
@spec
    ensures r == (self.min_ts <= other.min_ts && self.max_ts >= other.max_ts)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::merge
@subst /min\(self\.min_ts, other\.min_ts\)/ => min(self.min_ts, other.min_ts)
@subst /self\.(m\w+_ts)\.min\(([^()]*)\)/ => min(self.\1, \2)
@subst /self\.(m\w+_ts)\.max\(([^()]*)\)/ => max(self.\1, \2)
@spec
    ensures final(self).min_ts == (if old(self).min_ts <= other.min_ts { old(self).min_ts } else { other.min_ts }), final(self).max_ts == (if old(self).max_ts >= other.max_ts { old(self).max_ts } else { other.max_ts })
@end
// ---- TimeRanges at the contracts proved under C06: the ranges it was made from, joined ----
#[verifier::external_body]
struct TimeRanges { x: u8 }
impl TimeRanges {
    uninterp spec fn ranges(&self) -> Seq<TimeRange>;
    #[verifier::external_body]
    fn new(time_ranges: Vec<TimeRange>) -> (r: TimeRanges) ensures time_ranges.len() == 1 && time_ranges@[0].min_ts <= time_ranges@[0].max_ts ==> r.ranges() == time_ranges@ { unimplemented!() }
    #[verifier::external_body]
    fn time_ranges(&self) -> (r: Vec<TimeRange>) ensures r@ == self.ranges() { unimplemented!() }
    #[verifier::external_body]
    fn max_time_range(&self) -> (r: TimeRange) ensures self.ranges().len() == 1 ==> r == self.ranges()[0] { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: TimeRanges) ensures r == *self { unimplemented!() }
}
// ---- a data file: for each series a chunk, the chunk a list of column groups (blocks) ----
#[verifier::external_body]
struct ColumnGroup { x: u8 }
impl ColumnGroup {
    uninterp spec fn tr(&self) -> TimeRange;
    #[verifier::external_body]
    fn time_range(&self) -> (r: &TimeRange) ensures *r == self.tr() { unimplemented!() }
    uninterp spec fn rows_in(&self) -> usize;
    #[verifier::external_body]
    fn row_len(&self) -> (r: usize) ensures r == self.rows_in() { unimplemented!() }
}
#[verifier::external_body]
struct Cgs { x: u8 }
impl Cgs {
    uninterp spec fn view(&self) -> Map<u64, ColumnGroup>;
    #[verifier::external_body]
    fn keys_vec(&self) -> (r: Vec<u64>) ensures forall|i: int| 0 <= i < r.len() ==> self@.dom().contains(#[trigger] r@[i]), forall|k: u64| #[trigger] self@.dom().contains(k) ==> r@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &u64) -> (r: Option<ColumnGroup>) ensures (r is Some) == self@.dom().contains(*k), r is Some ==> r->0 == self@[*k] { unimplemented!() }
}
#[verifier::external_body]
struct Chunk { x: u8 }
impl Chunk {
    uninterp spec fn cgs(&self) -> Map<u64, ColumnGroup>;
    uninterp spec fn sid(&self) -> u32;
    #[verifier::external_body]
    fn series_id(&self) -> (r: u32) ensures r == self.sid() { unimplemented!() }
    #[verifier::external_body]
    fn column_group(&self) -> (r: &Cgs) ensures r@ == self.cgs() { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Chunk) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
struct Chunks { x: u8 }
impl Chunks {
    uninterp spec fn view(&self) -> Map<u32, Chunk>;
    #[verifier::external_body]
    fn get(&self, k: &u32) -> (r: Option<Chunk>) ensures (r is Some) == self@.dom().contains(*k), r is Some ==> r->0 == self@[*k] { unimplemented!() }
}
#[verifier::external_body]
struct TsmReader { x: u8 }
impl TsmReader {
    uninterp spec fn chunks(&self) -> Map<u32, Chunk>;
    uninterp spec fn fid(&self) -> u64;
    uninterp spec fn tomb(&self) -> bool;
    #[verifier::external_body]
    fn chunk(&self) -> (r: &Chunks) ensures r@ == self.chunks() { unimplemented!() }
    #[verifier::external_body]
    fn file_id(&self) -> (r: u64) ensures r == self.fid() { unimplemented!() }
    #[verifier::external_body]
    fn has_tombstone(&self) -> (r: bool) ensures r == self.tomb() { unimplemented!() }
    // chunk_group() flattened: the series of the file, every one once, in any order
    #[verifier::external_body]
    fn series_list(&self) -> (r: Vec<u32>) ensures forall|i: int, j: int| 0 <= i < j < r.len() ==> r@[i] != r@[j], forall|i: int| 0 <= i < r.len() ==> self.chunks().dom().contains(#[trigger] r@[i]), forall|s: u32| #[trigger] self.chunks().dom().contains(s) ==> r@.contains(s) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: TsmReader) ensures r == *self { unimplemented!() }
}
// slice::sort on distinct integers
#[verifier::external_body]
fn sort_ids(v: &mut Vec<u32>)
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i < j < final(v).len() ==> final(v)@[i] <= final(v)@[j],
      forall|i: int| 0 <= i < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|x: u32| old(v)@.contains(x) ==> #[trigger] final(v)@.contains(x),
      (forall|i: int, j: int| 0 <= i < j < old(v).len() ==> old(v)@[i] != old(v)@[j]) ==> (forall|i: int, j: int| 0 <= i < j < final(v).len() ==> final(v)@[i] != final(v)@[j])
{ unimplemented!() }
spec fn shaped(r: TsmReader) -> bool {
    forall|s: u32| #[trigger] r.chunks().dom().contains(s) ==> r.chunks()[s].sid() == s && forall|cg: u64| #[trigger] r.chunks()[s].cgs().dom().contains(cg) ==> r.chunks()[s].cgs()[cg].tr().min_ts <= r.chunks()[s].cgs()[cg].tr().max_ts
}
