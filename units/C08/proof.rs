use vstd::prelude::*;
verus! {
//@include tomb.inc
// std HashMap handed to insert_batch: its entries
struct Batch { v: Vec<((u32, u32), Vec<TimeRange>)> }
spec fn batch_has(b: Batch, k: (u32, u32), t: i64) -> bool { exists|i: int| 0 <= i < b.v.len() && (#[trigger] b.v@[i]).0 == k && covers(b.v@[i].1@, t) }
//@extract tskv/src/tsm/tombstone.rs Default for TsmTombstoneCache::default
@header impl TsmTombstoneCache
@subst /HashMap::new/ => Cols::new
@ret r
@spec
    ensures forall|k: (u32, u32), t: i64| !r.one(k, t), forall|t: i64| !r.all(t)
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::insert
@subst /\.entry\(((?:[^()]|\([^()]*\))*)\)\s*\.or_insert_with\(TimeRanges::empty\)/ => .entry_or_empty(\1)
@subst /self\.column_excluded_size \+= [^;]*;/ =>
@spec
    ensures tombstone_field matches TombstoneField::One(s, c) ==> (forall|k: (u32, u32), t: i64| #[trigger] final(self).gone(k, t) <==> old(self).gone(k, t) || (k == (s, c) && mem(time_range, t))) && (forall|t: i64| final(self).all(t) <==> old(self).all(t)),
       tombstone_field is All ==> (forall|k: (u32, u32), t: i64| #[trigger] final(self).gone(k, t) <==> old(self).gone(k, t) || mem(time_range, t)) && (forall|t: i64| final(self).all(t) <==> old(self).all(t) || mem(time_range, t))
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::insert_batch
@subst /batch: HashMap<\(SeriesId, ColumnId\), Vec<TimeRange>>/ => batch: Batch
@subst /for \((\w+), (\w+)\) in batch \{/ => let mut bi: usize = 0; while bi < batch.v.len() { let \1 = batch.v[bi].0; let \2 = &batch.v[bi].1; bi += 1;
@subst /&time_ranges\b/ => time_ranges.as_slice()
@subst /self\s*\.column_excluded\s*\.entry\(((?:[^()]|\([^()]*\))*)\)\s*\.or_insert_with\(TimeRanges::empty\)/ => self.column_excluded.entry_or_empty(\1)
@subst /self\.column_excluded_size \+= [^;]*;/ =>
@spec
    ensures forall|k: (u32, u32), t: i64| #[trigger] final(self).one(k, t) <==> old(self).one(k, t) || batch_has(batch, k, t), forall|t: i64| final(self).all(t) <==> old(self).all(t)
@loop 0
    invariant 0 <= bi <= batch.v.len(), self.all_excluded == old(self).all_excluded,
      forall|k: (u32, u32), t: i64| #[trigger] self.one(k, t) <==> old(self).one(k, t) || exists|i: int| 0 <= i < bi && (#[trigger] batch.v@[i]).0 == k && covers(batch.v@[i].1@, t)
    decreases batch.v.len() - bi
@at loop-start 0
    let ghost s0 = *self;
@at loop-end 0
    proof { let e = batch.v@[bi - 1];
      assert forall|k: (u32, u32), t: i64| #[trigger] self.one(k, t) <==> old(self).one(k, t) || exists|i: int| 0 <= i < bi && (#[trigger] batch.v@[i]).0 == k && covers(batch.v@[i].1@, t) by {
         assert(self.one(k, t) <==> s0.one(k, t) || (e.0 == k && covers(e.1@, t)));
         if exists|i: int| 0 <= i < bi && (#[trigger] batch.v@[i]).0 == k && covers(batch.v@[i].1@, t) { let i = choose|i: int| 0 <= i < bi && (#[trigger] batch.v@[i]).0 == k && covers(batch.v@[i].1@, t); if i < bi - 1 { assert(s0.one(k, t)); } }
      } }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::compact
@subst /for (\w+) in self\.column_excluded\.values_mut\(\) \{/ => let ks = self.column_excluded.keys(); let mut ki: usize = 0; while ki < ks.len() { let \1 = self.column_excluded.slot(&ks[ki]); ki += 1;
@subst /&self\.all_excluded\.time_ranges\(\)\.collect::<Vec<_>>\(\)/ => self.all_excluded.time_ranges().as_slice()
@subst /for (\w+) in time_ranges\.time_ranges\(\) \{/ => let trs = time_ranges.time_ranges(); let mut ti: usize = 0; while ti < trs.len() { let \1 = trs[ti]; ti += 1;
@subst /fields_excluded_size \+= [^;]*;/ =>
@spec
    ensures forall|k: (u32, u32), t: i64| #[trigger] final(self).gone(k, t) <==> old(self).gone(k, t), forall|t: i64| final(self).all(t) <==> old(self).all(t)
@loop 0
    invariant 0 <= ki <= ks.len(), forall|i: int, j: int| 0 <= i < j < ks.len() ==> ks@[i] != ks@[j], self.all_excluded == old(self).all_excluded,
      forall|i: int| 0 <= i < ks.len() ==> self.column_excluded@.dom().contains(#[trigger] ks@[i]),
      forall|k: (u32, u32)| #[trigger] self.column_excluded@.dom().contains(k) <==> old(self).column_excluded@.dom().contains(k),
      forall|k: (u32, u32)| #[trigger] self.column_excluded@.dom().contains(k) ==> ks@.contains(k),
      forall|k: (u32, u32), t: i64| #[trigger] self.gone(k, t) <==> old(self).gone(k, t),
      all_excluded ==> forall|i: int, t: i64| 0 <= i < ki && #[trigger] self.one(ks@[i], t) ==> self.all(t)
    decreases ks.len() - ki
@at loop-start 0
    let ghost s0 = *self; let ghost k0 = ks@[ki as int];
@at loop-end 0
    proof {
      assert(ks@[ki - 1] == k0);
      assert forall|t: i64| #[trigger] self.one(k0, t) <==> s0.one(k0, t) || self.all(t) by {}
      assert forall|k: (u32, u32), t: i64| #[trigger] self.gone(k, t) <==> s0.gone(k, t) by { if k != k0 { assert(self.one(k, t) == s0.one(k, t)); } else { assert(self.one(k0, t) <==> s0.one(k0, t) || self.all(t)); } }
      if all_excluded { assert forall|i: int, t: i64| 0 <= i < ki && #[trigger] self.one(ks@[i], t) implies self.all(t) by { if i < ki - 1 { assert(ks@[i] != k0); assert(s0.one(ks@[i], t)); } } }
    }
@at after-loop 0
    proof { if all_excluded { assert forall|k: (u32, u32), t: i64| #[trigger] self.one(k, t) implies self.all(t) by { let i = choose|i: int| 0 <= i < ks.len() && ks@[i] == k; assert(self.one(ks@[i], t)); } } }
    let ghost mid = *self;
@at end
    proof { assert forall|k: (u32, u32), t: i64| #[trigger] self.gone(k, t) <==> old(self).gone(k, t) by { assert(mid.gone(k, t) <==> old(self).gone(k, t)); let _ = mid.one(k, t); } }
@loop 1
    invariant 0 <= ti <= trs.len(), forall|i: int| 0 <= i < trs.len() ==> (#[trigger] trs@[i]).min_ts <= trs@[i].max_ts,
      field_excluded_not_need ==> forall|i: int, t: i64| 0 <= i < ti && mem(#[trigger] trs@[i], t) ==> #[trigger] self.all_excluded.has(t)
    ensures field_excluded_not_need ==> forall|i: int, t: i64| 0 <= i < trs.len() && mem(#[trigger] trs@[i], t) ==> #[trigger] self.all_excluded.has(t)
    decreases trs.len() - ti
@end
spec fn clip(v: Seq<TimeRange>, r: TimeRange, t: i64) -> bool { mem(r, t) && covers(v, t) }
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::overlaps_field_time_range
@subst /for (\w+) in time_ranges\.time_ranges\(\) \{/ => let trs = time_ranges.time_ranges(); let mut ti: usize = 0; while ti < trs.len() { let \1 = trs[ti]; ti += 1;
@ret r
@spec
    requires time_range.min_ts <= time_range.max_ts
    ensures r <==> exists|t: i64| mem(*time_range, t) && self.one((series_id, column_id), t)
@at start
    let ghost r0 = *time_range;
@loop 0
    invariant 0 <= ti <= trs.len(), forall|i: int| 0 <= i < trs.len() ==> (#[trigger] trs@[i]).min_ts <= trs@[i].max_ts, time_range.min_ts <= time_range.max_ts,
       forall|i: int| 0 <= i < ti ==> !((#[trigger] trs@[i]).min_ts <= time_range.max_ts && trs@[i].max_ts >= time_range.min_ts),
       forall|t: i64| #[trigger] time_ranges.has(t) <==> covers(trs@, t), self.column_excluded@.dom().contains((series_id, column_id)), *time_ranges == self.column_excluded@[(series_id, column_id)]
    decreases trs.len() - ti
@at loop-start 0
    proof { let x = trs@[ti as int]; let w = if x.min_ts >= time_range.min_ts { x.min_ts } else { time_range.min_ts };
       if x.min_ts <= time_range.max_ts && x.max_ts >= time_range.min_ts { assert(mem(x, w) && mem(*time_range, w)); assert(covers(trs@, w)); assert(self.one((series_id, column_id), w)); } }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::get_column_overlapped_time_ranges
@subst /for (\w+) in time_ranges\.time_ranges\(\) \{/ => let list = time_ranges.time_ranges(); let mut ti: usize = 0; while ti < list.len() { let \1 = list[ti]; ti += 1;
@subst /Vec::new\(\)/ => Vec::<TimeRange>::new()
@ret r
@spec
    ensures forall|t: i64| mem(*time_range, t) ==> (covers(r@, t) <==> #[trigger] self.one((series_id, column_id), t)),
       forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).min_ts <= r@[i].max_ts, forall|i: int, t: i64| 0 <= i < r.len() && mem(#[trigger] r@[i], t) ==> #[trigger] self.one((series_id, column_id), t)
@loop 0
    invariant 0 <= ti <= list.len(), forall|i: int| 0 <= i < list.len() ==> (#[trigger] list@[i]).min_ts <= list@[i].max_ts,
       forall|i: int| 0 <= i < trs.len() ==> list@.contains(#[trigger] trs@[i]),
       forall|i: int| 0 <= i < ti && (#[trigger] list@[i]).min_ts <= time_range.max_ts && list@[i].max_ts >= time_range.min_ts ==> trs@.contains(list@[i]),
       forall|t: i64| #[trigger] time_ranges.has(t) <==> covers(list@, t), self.column_excluded@.dom().contains((series_id, column_id)), *time_ranges == self.column_excluded@[(series_id, column_id)]
    decreases list.len() - ti
@at loop-start 0
    let ghost trs0 = trs@;
@at loop-end 0
    proof { let x = list@[ti - 1]; if x.min_ts <= time_range.max_ts && x.max_ts >= time_range.min_ts { assert(trs@ == trs0.push(x)); assert(trs@[trs0.len() as int] == x); assert(trs@.contains(x)); 
        assert forall|i: int| 0 <= i < ti && (#[trigger] list@[i]).min_ts <= time_range.max_ts && list@[i].max_ts >= time_range.min_ts implies trs@.contains(list@[i]) by { if i < ti - 1 { let j = choose|j: int| 0 <= j < trs0.len() && trs0[j] == list@[i]; assert(trs@[j] == list@[i]); } } } else { assert(trs@ == trs0); } }
@at after-loop 0
    proof { assert forall|t: i64| mem(*time_range, t) implies (covers(trs@, t) <==> time_ranges.has(t)) by {
        if covers(trs@, t) { let i = choose|i: int| 0 <= i < trs.len() && mem(#[trigger] trs@[i], t); assert(list@.contains(trs@[i])); let j = choose|j: int| 0 <= j < list.len() && list@[j] == trs@[i]; assert(covers(list@, t)); }
        if time_ranges.has(t) { let i = choose|i: int| 0 <= i < list.len() && mem(#[trigger] list@[i], t); assert(trs@.contains(list@[i])); let j = choose|j: int| 0 <= j < trs.len() && trs@[j] == list@[i]; assert(covers(trs@, t)); } }
      assert forall|i: int, t: i64| 0 <= i < trs.len() && mem(#[trigger] trs@[i], t) implies #[trigger] self.one((series_id, column_id), t) by { let j = choose|j: int| 0 <= j < list.len() && list@[j] == trs@[i]; assert(covers(list@, t)); assert(time_ranges.has(t)); }
    }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::get_all_fields_excluded_time_range
@subst /for (\w+) in self\.all_excluded\.time_ranges\(\) \{/ => let list = self.all_excluded.time_ranges(); let mut ti: usize = 0; while ti < list.len() { let \1 = list[ti]; ti += 1;
@subst /Vec::new\(\)/ => Vec::<TimeRange>::new()
@ret r
@spec
    ensures forall|t: i64| mem(*time_range, t) ==> (covers(r@, t) <==> #[trigger] self.all(t)),
       forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).min_ts <= r@[i].max_ts, forall|i: int, t: i64| 0 <= i < r.len() && mem(#[trigger] r@[i], t) ==> #[trigger] self.all(t)
@loop 0
    invariant 0 <= ti <= list.len(), forall|i: int| 0 <= i < list.len() ==> (#[trigger] list@[i]).min_ts <= list@[i].max_ts,
       forall|i: int| 0 <= i < trs.len() ==> list@.contains(#[trigger] trs@[i]),
       forall|i: int| 0 <= i < ti && (#[trigger] list@[i]).min_ts <= time_range.max_ts && list@[i].max_ts >= time_range.min_ts ==> trs@.contains(list@[i]),
       forall|t: i64| #[trigger] self.all_excluded.has(t) <==> covers(list@, t)
    decreases list.len() - ti
@at loop-start 0
    let ghost trs0 = trs@;
@at loop-end 0
    proof { let x = list@[ti - 1]; if x.min_ts <= time_range.max_ts && x.max_ts >= time_range.min_ts { assert(trs@ == trs0.push(x)); assert(trs@[trs0.len() as int] == x); assert(trs@.contains(x)); 
        assert forall|i: int| 0 <= i < ti && (#[trigger] list@[i]).min_ts <= time_range.max_ts && list@[i].max_ts >= time_range.min_ts implies trs@.contains(list@[i]) by { if i < ti - 1 { let j = choose|j: int| 0 <= j < trs0.len() && trs0[j] == list@[i]; assert(trs@[j] == list@[i]); } } } else { assert(trs@ == trs0); } }
@at after-loop 0
    proof { assert forall|t: i64| mem(*time_range, t) implies (covers(trs@, t) <==> self.all_excluded.has(t)) by {
        if covers(trs@, t) { let i = choose|i: int| 0 <= i < trs.len() && mem(#[trigger] trs@[i], t); assert(list@.contains(trs@[i])); let j = choose|j: int| 0 <= j < list.len() && list@[j] == trs@[i]; assert(covers(list@, t)); }
        if self.all_excluded.has(t) { let i = choose|i: int| 0 <= i < list.len() && mem(#[trigger] list@[i], t); assert(trs@.contains(list@[i])); let j = choose|j: int| 0 <= j < trs.len() && trs@[j] == list@[i]; assert(covers(trs@, t)); } }
      assert forall|i: int, t: i64| 0 <= i < trs.len() && mem(#[trigger] trs@[i], t) implies #[trigger] self.all(t) by { let j = choose|j: int| 0 <= j < list.len() && list@[j] == trs@[i]; assert(covers(list@, t)); assert(self.all_excluded.has(t)); }
    }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::is_empty
@ret r
@spec
    ensures r ==> forall|k: (u32, u32), t: i64| !self.gone(k, t)
@end
}
fn main() {}
