use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include ../C01/be.inc
//@include tomb.inc
//@include wire.inc
// TsmTombstone as a name for its functions
struct TsmTombstone {}
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::encode_field_time_ranges
@subst /(\w+)\.len\(\)\.min\((\w+)\)/ => umin(\1.len(), \2)
@subst /\.to_be_bytes\(\)\.as_slice\(\)/ => .bytes().as_slice()
@subst /for (\w+) in &time_ranges\[\.\.(\w+)\] \{/ => let sub = &time_ranges[..\2]; let mut ti: usize = 0; while ti < sub.len() { let \1 = &sub[ti]; ti += 1;
@ret r
@spec
    ensures r <= time_ranges.len(), time_ranges.len() > 0 ==> r > 0, r <= u32::MAX, final(buffer)@ =~= old(buffer)@ + enc(*field, time_ranges@.take(r as int))
@at before-loop 0
    proof { assert(sub@ =~= time_ranges@.take(time_ranges_len as int)); assert(enc_rngs(sub@.take(0)) =~= Seq::<u8>::empty()); }
    let ghost b0 = buffer@;
@loop 0
    invariant 0 <= ti <= sub.len(), buffer@ =~= b0 + enc_rngs(sub@.take(ti as int))
    decreases sub.len() - ti
@at loop-end 0
    proof { assert(sub@.take(ti as int).drop_last() =~= sub@.take(ti - 1)); assert(sub@.take(ti as int).last() == sub@[ti - 1]); }
@at tail
    proof { assert(sub@.take(sub.len() as int) =~= sub@); }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::decode_v1
@subst /byte_utils::/ =>
@ret r
@spec
    requires data.len() >= 24
    ensures r.0 == unbe32(data@.subrange(0, 4)), r.1 == unbe32(data@.subrange(4, 8)), r.2 == rng(data@, 8)
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::decode_time_ranges
@subst /byte_utils::/ =>
@subst /TombstoneSnafu \{.*?\.build\(\)/ => TskvError::Other
@subst /\((\w+), (\w+)\)\.into\(\)/ => TimeRange::from_pair((\1, \2))
@subst /for _ in 0\.\.(\w+) \{/ => let mut ti: usize = 0; while ti < \1 { ti += 1;
@ret r
@spec
    requires time_ranges_num <= u32::MAX
    ensures r is Ok <==> data.len() >= 16 * time_ranges_num, r is Ok ==> r->Ok_0@ =~= rngs(data@, 0, time_ranges_num as int)
@loop 0
    invariant 0 <= ti <= time_ranges_num, pos == 16 * ti, data.len() >= 16 * time_ranges_num, time_ranges_num <= u32::MAX, time_ranges@ =~= rngs(data@, 0, ti as int)
    decreases time_ranges_num - ti
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::decode_v2
@subst /byte_utils::/ =>
@subst /TombstoneSnafu \{.*?\.build\(\)/ => TskvError::Other
@subst /Self::/ => TsmTombstone::
@ret r
@spec
    ensures r is Ok <==> wf(data@), r is Ok ==> tvs(r->Ok_0@) =~= parse(data@)
@loop 0
    invariant wf(sli@) == wf(data@), wf(data@) ==> parse(data@) =~= tvs(ans@) + parse(sli@)
    decreases sli.len()
@at loop-start 0
    let ghost s0 = sli@; let ghost a0 = ans@;
    proof { assert(data.len() <= usize::MAX); assert(sli.len() <= usize::MAX); 
      if sli.len() >= 13 { assert(s0.subrange(5, 13).subrange(0, 4) =~= s0.subrange(5, 9)); }
      if fits(s0) {
        assert forall|i: int| 0 <= i < count(s0) implies #[trigger] rng(s0.skip(head(s0)), 16 * i) == rng(s0, head(s0) + 16 * i) by { assert(s0.skip(head(s0)).subrange(16 * i, 16 * i + 8) =~= s0.subrange(head(s0) + 16 * i, head(s0) + 16 * i + 8)); assert(s0.skip(head(s0)).subrange(16 * i + 8, 16 * i + 16) =~= s0.subrange(head(s0) + 16 * i + 8, head(s0) + 16 * i + 16)); }
        assert(rngs(s0.skip(head(s0)), 0, count(s0)) =~= rngs(s0, head(s0), count(s0)));
      } }
@at loop-end 0
    proof { assert(tvs(ans@) =~= tvs(a0) + seq![first(s0)]); assert(sli@ =~= s0.skip(size(s0))); }
@end
//@extract tskv/src/record_file/mod.rs enum RecordDataType
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::load_from
@subst /record_file::/ =>
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /error!\(.*?\);/ =>
@subst /HashMap<\(SeriesId, ColumnId\), TimeRanges> = HashMap::new\(\)/ => Cols = Cols::new()
@subst /column_excluded_size \+= 1;/ =>
@subst /\.entry\((\([^()]*\))\)\s*\.or_insert_with\(TimeRanges::empty\)/ => .entry_or_empty(\1)
@subst /for Tombstone \{ field, time_ranges \} in buffer\.iter\(\) \{/ => let mut bi: usize = 0; while bi < buffer.len() { let field = &buffer[bi].field; let time_ranges = &buffer[bi].time_ranges; bi += 1;
@subst /(\w+): Vec<Tombstone> = Vec::new\(\);/ => \1: Vec<Tombstone> = Vec::new();
@ret r
@spec
    requires forall|i: int| 0 <= i < old(reader).rest().len() ==> (#[trigger] old(reader).rest()[i]).ty == 4 ==> old(reader).rest()[i].data.len() >= 24
    ensures r is Err ==> !broken(r->Err_0), r is Ok && !just_stop_if_error ==> same(flat(old(reader).rest()), r->Ok_0.column_excluded, r->Ok_0.all_excluded),
        r is Ok && just_stop_if_error ==> exists|n: int| 0 <= n <= old(reader).rest().len() && same(#[trigger] flat(old(reader).rest().take(n)), r->Ok_0.column_excluded, r->Ok_0.all_excluded)
@at before-loop 0
    let ghost all = reader.rest(); let ghost mut n: int = 0;
    proof { assert(flat(all.take(0)) =~= Seq::<T>::empty()); assert(all.skip(0) =~= all); }
@loop 0
    invariant_except_break reader.rest() == all.skip(n),
    invariant 0 <= n <= all.len(), same(flat(all.take(n)), column_excluded, all_excluded),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).ty == 4 ==> all[i].data.len() >= 24
    ensures 0 <= n <= all.len(), same(flat(all.take(n)), column_excluded, all_excluded), !just_stop_if_error ==> n == all.len()
    decreases reader.rest().len(), reader.left()
@at loop-start 0
    proof { assert forall|i: int| 0 <= i < reader.rest().len() implies (#[trigger] reader.rest()[i]).ty == 4 ==> reader.rest()[i].data.len() >= 24 by { assert(reader.rest()[i] == all[n + i]); } }
@at before /buffer\.clear\(\);/
    let ghost k0 = flat(all.take(n)); let ghost rc = all[n];
    proof { assert(all.skip(n)[0] == rc); assert(all.skip(n).skip(1) =~= all.skip(n + 1)); assert(all.take(n + 1) =~= all.take(n).push(rc)); lemma_flat_push(all.take(n), rc); 
        if rc.ty == 4 { let d = rc.data; lemma_push(k0, rec_ts(rc)[0]); assert(rec_ts(rc) =~= seq![rec_ts(rc)[0]]); assert(seq![rng(d, 8)][0] == rng(d, 8)); assert forall|t: i64| covers(seq![rng(d, 8)], t) <==> mem(rng(d, 8), t) by {} } }
@loop 1
    invariant 0 <= bi <= buffer.len(), same(k0 + tvs(buffer@).take(bi as int), column_excluded, all_excluded)
    decreases buffer.len() - bi
@at before-loop 1
    proof { assert(k0 + tvs(buffer@).take(0) =~= k0); }
@at loop-start 1
    proof { let v = tvs(buffer@); assert(v.take(bi + 1) =~= v.take(bi as int) + seq![v[bi as int]]); lemma_push(k0 + v.take(bi as int), v[bi as int]); assert(k0 + v.take(bi + 1) =~= (k0 + v.take(bi as int)) + seq![v[bi as int]]); }
@at after-loop 1
    proof { assert(tvs(buffer@).take(buffer.len() as int) =~= tvs(buffer@)); }
@at loop-end 0
    proof { assert(same(k0 + rec_ts(rc), column_excluded, all_excluded)); n = n + 1; }
@at tail
    proof { assert(all.take(all.len() as int) =~= all); }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstoneCache::save_to
@subst /record_file::/ =>
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /Vec::with_capacity\(MAX_RECORD_LEN\)/ => Vec::<u8>::new()
@subst /for \(\((\w+), (\w+)\), (\w+)\) in (self\.column_excluded)\.iter\(\) \{/ => let es = \4.entries(); let mut ei: usize = 0; while ei < es.len() { let \1 = &es[ei].0; let \2 = &es[ei].1; let \3 = &es[ei].2; ei += 1;
@subst /\.collect::<Vec<_>>\(\)/ =>
@subst /(\w+) \+= encoded_time_ranges_num;/ => \1 += encoded_time_ranges_num; proof { let v = time_ranges@.subrange(i0, \1 as int); assert(time_ranges@.skip(i0).take(\1 - i0) =~= v); lemma_wdel(w1, b0, write_buf@, f, v); lemma_covers(time_ranges@, i0, \1 as int); lemma_write(w1, write_buf@); }
@ret r
@spec
    ensures r is Ok ==> (forall|k: (u32, u32), t: i64| #[trigger] del(flat(final(writer).recs()), false, k, t) <==> del(flat(old(writer).recs()), false, k, t) || self.one(k, t)),
        r is Ok ==> (forall|k: (u32, u32), t: i64| #[trigger] del(flat(final(writer).recs()), true, k, t) <==> del(flat(old(writer).recs()), true, k, t) || self.all(t))
@at before-loop 0
    let ghost w0 = writer.recs();
    proof { assert(write_buf@ =~= Seq::<u8>::empty()); assert(wdel(w0, write_buf@) =~= flat(w0)); }
@loop 0
    invariant 0 <= ei <= es.len(), wf(write_buf@), upto(writer.recs(), write_buf@, w0, es@, ei as int),
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), true, k, t) <==> del(flat(w0), true, k, t)
    decreases es.len() - ei
@loop 1
    invariant 0 <= index <= time_ranges.len(), wf(write_buf@), 0 < ei <= es.len(), *series_id == es[ei - 1].0, *column_id == es[ei - 1].1,
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), true, k, t) <==> del(flat(w0), true, k, t),
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), false, k, t) <==> del(d0, false, k, t) || (k == (*series_id, *column_id) && covers(time_ranges@.take(index as int), t))
    decreases time_ranges.len() - index
@at before-loop 1
    let ghost d0 = wdel(writer.recs(), write_buf@);
    proof { assert forall|t: i64| !covers(time_ranges@.take(0), t) by {} }
@at loop-start 1
    let ghost i0 = index as int; let ghost b0 = write_buf@; let ghost w1 = writer.recs(); let ghost f = TombstoneField::One(*series_id, *column_id);
@at after-loop 1
    proof { assert(time_ranges@.take(time_ranges.len() as int) =~= time_ranges@); 
      assert forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), false, k, t) <==> del(flat(w0), false, k, t) || exists|i: int| 0 <= i < ei && ((#[trigger] es@[i]).0, es@[i].1) == k && es@[i].2.has(t) by {
        let last = es@[ei - 1]; assert(es@[ei - 1].2.has(t) <==> covers(time_ranges@, t)); } }
@loop 2
    invariant 0 <= index <= time_ranges.len(), wf(write_buf@),
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), false, k, t) <==> del(d1, false, k, t),
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), true, k, t) <==> del(d1, true, k, t) || covers(time_ranges@.take(index as int), t)
    decreases time_ranges.len() - index
@at before-loop 2
    let ghost d1 = wdel(writer.recs(), write_buf@);
    proof { assert forall|t: i64| !covers(time_ranges@.take(0), t) by {} }
@at loop-start 2
    let ghost i0 = index as int; let ghost b0 = write_buf@; let ghost w1 = writer.recs(); let ghost f = TombstoneField::All;
@at after-loop 2
    proof { assert(time_ranges@.take(time_ranges.len() as int) =~= time_ranges@); lemma_write(writer.recs(), write_buf@);
      assert forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), false, k, t) <==> del(flat(w0), false, k, t) || self.one(k, t) by {
        if self.one(k, t) { let i = choose|i: int| 0 <= i < es.len() && ((#[trigger] es@[i]).0, es@[i].1) == k; assert(es@[i].2.has(t)); } }
      if write_buf@.len() == 0 { assert(wdel(writer.recs(), write_buf@) =~= flat(writer.recs())); }
      let w2 = writer.recs().push(Rec { ty: 5, data: write_buf@ }); assert(wdel(w2, Seq::empty()) =~= flat(w2)); }
@end
}
fn main() {}
