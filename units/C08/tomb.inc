type Timestamp = i64; type SeriesId = u32; type ColumnId = u32;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy
@end
spec fn mem(r: TimeRange, t: i64) -> bool { r.min_ts <= t && t <= r.max_ts }
//@extract common/models/src/predicate/domain.rs TimeRange::new
@ret r
@spec
    ensures r.min_ts == min_ts, r.max_ts == max_ts
@end
//@extract common/models/src/predicate/domain.rs TimeRange::is_none
@ret r
@spec
    ensures r == (self.min_ts > self.max_ts)
@end
//@extract common/models/src/predicate/domain.rs TimeRange::overlaps
@ret r
@spec
    ensures r == (self.min_ts <= range.max_ts && self.max_ts >= range.min_ts)
@end
//@extract common/models/src/predicate/domain.rs From<(Timestamp,Timestamp)> for TimeRange::from
@header impl TimeRange
@subst /fn from/ => fn from_pair
@ret r
@spec
    ensures r.min_ts == time_range.0, r.max_ts == time_range.1
@end
spec fn covers(v: Seq<TimeRange>, t: i64) -> bool { exists|i: int| 0 <= i < v.len() && mem(#[trigger] v[i], t) }
// ---- a set of ranges: the contracts proved under C06 ----
#[verifier::external_body]
struct TimeRanges { x: u8 }
impl TimeRanges {
    uninterp spec fn has(&self, t: i64) -> bool;
    #[verifier::external_body]
    fn empty() -> (r: TimeRanges) ensures forall|t: i64| !r.has(t) { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, time_range: TimeRange) ensures forall|t: i64| #[trigger] final(self).has(t) <==> old(self).has(t) || mem(time_range, t) { unimplemented!() }
    #[verifier::external_body]
    fn extend_from_slice(&mut self, time_ranges: &[TimeRange]) ensures forall|t: i64| #[trigger] final(self).has(t) <==> old(self).has(t) || covers(time_ranges@, t) { unimplemented!() }
    #[verifier::external_body]
    fn includes(&self, time_range: &TimeRange) -> (r: bool) ensures time_range.min_ts <= time_range.max_ts ==> (r <==> forall|t: i64| mem(*time_range, t) ==> #[trigger] self.has(t)) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r <==> forall|t: i64| !#[trigger] self.has(t) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn time_ranges(&self) -> (r: Vec<TimeRange>) ensures forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).min_ts <= r@[i].max_ts, forall|t: i64| #[trigger] self.has(t) <==> covers(r@, t) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: TimeRanges) ensures r == *self { unimplemented!() }
}
// ---- the map of columns to ranges (std HashMap) ----
#[verifier::external_body]
struct Cols { x: u8 }
impl Cols {
    uninterp spec fn view(&self) -> Map<(u32, u32), TimeRanges>;
    spec fn has(&self, k: (u32, u32), t: i64) -> bool { self@.dom().contains(k) && self@[k].has(t) }
    #[verifier::external_body]
    fn new() -> (r: Cols) ensures r@ == Map::<(u32, u32), TimeRanges>::empty() { unimplemented!() }
    // entry(k).or_insert_with(TimeRanges::empty)
    #[verifier::external_body]
    fn entry_or_empty(&mut self, k: (u32, u32)) -> (r: &mut TimeRanges)
        ensures final(self)@ == old(self)@.insert(k, *final(r)), old(self)@.dom().contains(k) ==> *r == old(self)@[k], !old(self)@.dom().contains(k) ==> forall|t: i64| !(*r).has(t)
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &(u32, u32)) -> (r: Option<&TimeRanges>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn keys(&self) -> (r: Vec<(u32, u32)>) ensures forall|k: (u32, u32)| #[trigger] r@.contains(k) <==> self@.dom().contains(k), forall|i: int| 0 <= i < r.len() ==> self@.dom().contains(#[trigger] r@[i]), forall|i: int, j: int| 0 <= i < j < r.len() ==> r@[i] != r@[j] { unimplemented!() }
    #[verifier::external_body]
    fn slot(&mut self, k: &(u32, u32)) -> (r: &mut TimeRanges) requires old(self)@.dom().contains(*k) ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Map::<(u32, u32), TimeRanges>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Map::<(u32, u32), TimeRanges>::empty() { unimplemented!() }
    // the entries, one by one in any order
    #[verifier::external_body]
    fn entries(&self) -> (r: Vec<(u32, u32, TimeRanges)>) ensures forall|i: int| 0 <= i < r.len() ==> self@.dom().contains(((#[trigger] r@[i]).0, r@[i].1)) && self@[(r@[i].0, r@[i].1)] == r@[i].2,
        forall|k: (u32, u32)| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && ((#[trigger] r@[i]).0, r@[i].1) == k { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Cols) ensures r@ == self@ { unimplemented!() }
}
// what is deleted: `one` in a column, `all` in every column
//@extract tskv/src/tsm/tombstone.rs enum TombstoneField
@derive Clone, Copy
@end
//@extract tskv/src/tsm/tombstone.rs struct Tombstone
@end
//@extract tskv/src/tsm/tombstone.rs struct TsmTombstoneCache
@subst /HashMap<\(SeriesId, ColumnId\), TimeRanges>/ => Cols
@end
impl TsmTombstoneCache {
    spec fn one(&self, k: (u32, u32), t: i64) -> bool { self.column_excluded.has(k, t) }
    spec fn all(&self, t: i64) -> bool { self.all_excluded.has(t) }
    spec fn gone(&self, k: (u32, u32), t: i64) -> bool { self.one(k, t) || self.all(t) }
}
