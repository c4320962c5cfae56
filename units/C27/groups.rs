use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include files.inc
//@include specs.inc
//@include group_specs.inc
impl TimeRange {
    // #[derive(Ord)] on (min_ts, max_ts)
    #[verifier::external_body]
    fn cmp(&self, other: &TimeRange) -> (r: Ordering) ensures (r is Less) == (self.min_ts < other.min_ts || (self.min_ts == other.min_ts && self.max_ts < other.max_ts)), (r is Equal) == (self.min_ts == other.min_ts && self.max_ts == other.max_ts) { unimplemented!() }
}
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::new
@subst /Arc<(\w+)>/ => \1
@ret r
@spec
    ensures r.reader_idx == tsm_reader_idx, r.compacting_file_index == compacting_file_index, r.reader == tsm_reader, r.meta == chunk, r.column_group_id == column_group_id
@end
//@extract tskv/src/compaction/compacting_block_meta.rs Ord for CompactingBlockMeta::cmp
@header impl CompactingBlockMeta
@subst /(\w+) != std::cmp::Ordering::Equal/ => !is_eq(\1)
@ret r
@spec
    ensures self.there() && other.there() && self.meta.sid() == other.meta.sid() ==> (r is Less || r is Equal ==> self.tr().min_ts <= other.tr().min_ts) && (r is Greater ==> other.tr().min_ts <= self.tr().min_ts)
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::time_range
@subst /\.context\(CommonSnafu \{(?:[^{}]|\{[^{}]*\})*\}\)\?/ => .ok_or(TskvError::Common)?
@ret r
@spec
    ensures (r is Ok) == self.there(), r is Ok ==> r->Ok_0 == self.tr()
@end
//@extract tskv/src/compaction/compacting_block_meta.rs CompactingBlockMeta::meta
@subst /Arc<(\w+)>/ => \1
@ret r
@spec
    ensures r == self.meta
@end
//@extract tskv/src/compaction/comapcting_block_meta_group.rs CompactingBlockMetaGroup::new
@ret r
@spec
    requires blk_meta.ok()
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.blk_metas@ == seq![blk_meta], r->Ok_0.time_range == blk_meta.tr(), r->Ok_0.series_id == series_id
@end
//@extract tskv/src/compaction/comapcting_block_meta_group.rs CompactingBlockMetaGroup::overlaps
@ret r
@spec
    ensures r == ov(self.time_range, other.time_range)
@end
//@extract tskv/src/compaction/comapcting_block_meta_group.rs CompactingBlockMetaGroup::append
@spec
    requires old(self).ok(), old(other).ok()
    ensures final(self).ok(), final(self).blk_metas@ == old(self).blk_metas@ + old(other).blk_metas@, final(other).blk_metas@.len() == 0, final(other).time_range == old(other).time_range, final(self).series_id == old(self).series_id, final(other).series_id == old(other).series_id,
      final(self).time_range.min_ts == (if old(self).time_range.min_ts <= old(other).time_range.min_ts { old(self).time_range.min_ts } else { old(other).time_range.min_ts }),
      final(self).time_range.max_ts == (if old(self).time_range.max_ts >= old(other).time_range.max_ts { old(self).time_range.max_ts } else { old(other).time_range.max_ts })
@end
//@extract tskv/src/compaction/comapcting_block_meta_group.rs CompactingBlockMetaGroup::is_empty
@ret r
@spec
    ensures r == (self.blk_metas.len() == 0)
@end
fn is_eq(o: Ordering) -> (r: bool) ensures r == (o is Equal) { match o { Ordering::Equal => true, _ => false } }
// slice::sort on blocks of one series
#[verifier::external_body]
fn sort_blks(v: &mut Vec<CompactingBlockMeta>)
    requires forall|i: int, j: int| 0 <= i < old(v).len() && 0 <= j < old(v).len() ==> (#[trigger] old(v)@[i]).there() && (#[trigger] old(v)@[j]).meta.sid() == old(v)@[i].meta.sid()
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i <= j < final(v).len() ==> (#[trigger] final(v)@[i]).tr().min_ts <= (#[trigger] final(v)@[j]).tr().min_ts,
      forall|i: int| 0 <= i < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v).len() ==> final(v)@.contains(#[trigger] old(v)@[i])
{ unimplemented!() }
#[verifier::external_body]
fn take_blk(v: &mut Vec<CompactingBlockMeta>, i: usize) -> (r: CompactingBlockMeta) requires i < old(v).len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
fn take_group(v: &mut Vec<CompactingBlockMetaGroup>, i: usize) -> (r: CompactingBlockMetaGroup) requires i < old(v).len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
fn group_mut(v: &mut Vec<CompactingBlockMetaGroup>, i: usize) -> (r: &mut CompactingBlockMetaGroup)
    requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), final(v).len() == old(v).len()
{ unimplemented!() }
spec fn cut(g: Seq<CompactingBlockMetaGroup>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() && i < n && (#[trigger] g[i]).blk_metas.len() > 0 && (#[trigger] g[j]).blk_metas.len() > 0 ==> g[i].time_range.max_ts < g[j].time_range.min_ts }
spec fn mins(g: Seq<CompactingBlockMetaGroup>) -> bool { forall|i: int, j: int| 0 <= i <= j < g.len() ==> (#[trigger] g[i]).time_range.min_ts <= (#[trigger] g[j]).time_range.min_ts }
//@extract tskv/src/compaction/compact.rs CompactState::fill_compacting_block_meta_groups
@subst /for \((\w+), (\w+), (\w+)\) in self\.tmp_tsm_blk_meta_iters\.iter_mut\(\) \{/ => let mut bi: usize = 0; while bi < self.tmp_tsm_blk_meta_iters.len() { let \1 = &self.tmp_tsm_blk_meta_iters[bi].0; let \2 = &self.tmp_tsm_blk_meta_iters[bi].1; let \3 = &self.tmp_tsm_blk_meta_iters[bi].2; bi += 1;
@subst /blk_metas\.sort(_unstable)?\(\)/ => sort_blks(&mut blk_metas)
@subst /for blk_meta in blk_metas \{/ => let mut si: usize = 0; while si < blk_metas.len() { let blk_meta = take_blk(&mut blk_metas, si); si += 1;
@subst /for \((\w+), (\w+)\) in blk_meta_groups\[i\.\.\]\.iter\(\)\.enumerate\(\) \{/ => let mut oi: usize = 0; while oi < blk_meta_groups.len() - i { let \1 = oi; let \2 = &blk_meta_groups[i + oi]; oi += 1;
@subst /for (\w+) in blk_meta_groups\[i\.\.\]\.iter_mut\(\) \{/ => let mut mi: usize = i; while mi < blk_meta_groups.len() { let \1 = group_mut(&mut blk_meta_groups, mi); mi += 1;
@subst /continue;/ => proof { assert(blk_meta_groups@ =~= g1); } continue;
@subst /blk_meta_groups\[head_idx\] = head;/ => blk_meta_groups.set(head_idx, head);
@subst /for (\w+) in blk_meta_groups \{/ => let mut pi: usize = 0; while pi < blk_meta_groups.len() { let \1 = take_group(&mut blk_meta_groups, pi); pi += 1;
@ret r
@spec
    requires
      old(self).tsm_reader_to_compacting_file_map.len() == old(self).tsm_readers.len(), old(compacting_blk_meta_groups).len() == 0,
      forall|m: int| 0 <= m < old(self).tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] old(self).tmp_tsm_blk_meta_iters@[m]; b.2 < old(self).tsm_readers.len() && b.0.cgs().dom().contains(b.1) && b.0.cgs()[b.1].tr().min_ts <= b.0.cgs()[b.1].tr().max_ts && b.0.sid() == seires_id && old(self).tsm_reader_to_compacting_file_map@[b.2 as int] is Some }
    ensures r is Ok, *final(self) == *old(self), all_ok(final(compacting_blk_meta_groups)@, seires_id),
      // in time order, and no two groups share a time
      forall|i: int, j: int| 0 <= i < j < final(compacting_blk_meta_groups).len() ==> (#[trigger] final(compacting_blk_meta_groups)@[i]).time_range.max_ts < (#[trigger] final(compacting_blk_meta_groups)@[j]).time_range.min_ts,
      forall|i: int| 0 <= i < final(compacting_blk_meta_groups).len() ==> (#[trigger] final(compacting_blk_meta_groups)@[i]).blk_metas.len() > 0,
      // every block taken is in a group, and only those
      forall|m: int| 0 <= m < old(self).tmp_tsm_blk_meta_iters.len() ==> got(final(compacting_blk_meta_groups)@, #[trigger] old(self).tmp_tsm_blk_meta_iters@[m], *old(self)),
      forall|b: CompactingBlockMeta| #[trigger] held(final(compacting_blk_meta_groups)@, b) ==> only_b(b, *old(self))
@loop 0
    invariant 0 <= bi <= self.tmp_tsm_blk_meta_iters.len(), *self == *old(self), self.tsm_reader_to_compacting_file_map.len() == self.tsm_readers.len(),
      forall|m: int| 0 <= m < self.tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] self.tmp_tsm_blk_meta_iters@[m]; b.2 < self.tsm_readers.len() && b.0.cgs().dom().contains(b.1) && b.0.cgs()[b.1].tr().min_ts <= b.0.cgs()[b.1].tr().max_ts && b.0.sid() == seires_id && self.tsm_reader_to_compacting_file_map@[b.2 as int] is Some },
      blk_metas.len() == bi, forall|m: int| 0 <= m < bi ==> blk_of(#[trigger] blk_metas@[m], self.tmp_tsm_blk_meta_iters@[m], *self)
    decreases self.tmp_tsm_blk_meta_iters.len() - bi
@at after-loop 0
    let ghost B0 = blk_metas@; let ghost T = self.tmp_tsm_blk_meta_iters@;
    proof { assert forall|m: int| 0 <= m < B0.len() implies (#[trigger] B0[m]).ok() && B0[m].meta.sid() == seires_id by { let _ = T[m]; } }
@at before-loop 1
    let ghost B = blk_metas@;
    proof {
      assert(B.len() > 0);
      assert forall|m: int| 0 <= m < B.len() implies (#[trigger] B[m]).ok() by { assert(B0.contains(B[m])); let k = choose|k: int| 0 <= k < B0.len() && B0[k] == B[m]; let _ = B0[k]; }
    }
@loop 1
    invariant 0 <= si <= blk_metas.len(), blk_metas@ == B, forall|m: int| 0 <= m < B.len() ==> (#[trigger] B[m]).ok(), blk_meta_groups.len() == si,
      forall|m: int| 0 <= m < si ==> (#[trigger] blk_meta_groups@[m]).ok() && blk_meta_groups@[m].blk_metas@ == seq![B[m]] && blk_meta_groups@[m].time_range == B[m].tr() && blk_meta_groups@[m].series_id == seires_id
    decreases blk_metas.len() - si
@at after-loop 1
    proof {
      let g = blk_meta_groups@;
      assert forall|i: int, j: int| 0 <= i <= j < g.len() implies (#[trigger] g[i]).time_range.min_ts <= (#[trigger] g[j]).time_range.min_ts by { assert(B[i].tr().min_ts <= B[j].tr().min_ts); }
      assert forall|b: CompactingBlockMeta| #[trigger] held(g, b) <==> B.contains(b) by {
        if held(g, b) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).blk_metas@.contains(b); assert(g[i].blk_metas@ == seq![B[i]]); assert(B[i] == b); }
        if B.contains(b) { let i = choose|i: int| 0 <= i < B.len() && B[i] == b; assert(g[i].blk_metas@[0] == b); assert(g[i].blk_metas@.contains(b)); }
      }
    }
@loop 2
    invariant_except_break 0 <= i < blk_meta_groups.len(), cut(blk_meta_groups@, i as int)
    invariant all_ok(blk_meta_groups@, seires_id), mins(blk_meta_groups@), blk_meta_groups.len() == B.len(), forall|b: CompactingBlockMeta| #[trigger] held(blk_meta_groups@, b) <==> B.contains(b)
    ensures cut(blk_meta_groups@, blk_meta_groups.len() as int)
    decreases blk_meta_groups.len() - i
@loop 3
    invariant_except_break head_idx == i, forall|k: int| i <= k < i + oi ==> (#[trigger] blk_meta_groups@[k]).blk_metas.len() == 0
    invariant 0 <= oi <= blk_meta_groups.len() - i, i < blk_meta_groups.len()
    ensures i <= head_idx < blk_meta_groups.len(), forall|k: int| i <= k < head_idx ==> (#[trigger] blk_meta_groups@[k]).blk_metas.len() == 0,
      blk_meta_groups@[head_idx as int].blk_metas.len() == 0 ==> forall|k: int| i <= k < blk_meta_groups.len() ==> (#[trigger] blk_meta_groups@[k]).blk_metas.len() == 0
    decreases blk_meta_groups.len() - i - oi
@at before-loop 4
    let ghost g0 = blk_meta_groups@; let ghost h0 = g0[head_idx as int];
    proof { let _ = g0[head_idx as int]; assert(cut(g0, head_idx as int)); }
@loop 4
    invariant head_idx < i, i <= mi <= blk_meta_groups.len(), i == head_idx + 1, blk_meta_groups.len() == g0.len(), all_ok(blk_meta_groups@, seires_id), mins(g0), all_ok(g0, seires_id), head.ok(), head.series_id == seires_id, h0 == g0[head_idx as int],
      forall|k: int| 0 <= k < i ==> #[trigger] blk_meta_groups@[k] == g0[k], forall|k: int| mi <= k < g0.len() ==> #[trigger] blk_meta_groups@[k] == g0[k],
      forall|k: int| 0 <= k < g0.len() ==> (#[trigger] blk_meta_groups@[k]).time_range == g0[k].time_range && (blk_meta_groups@[k].blk_metas@ == g0[k].blk_metas@ || blk_meta_groups@[k].blk_metas@.len() == 0),
      forall|b: CompactingBlockMeta| h0.blk_metas@.contains(b) ==> #[trigger] head.blk_metas@.contains(b), head.time_range.min_ts == h0.time_range.min_ts,
      forall|k: int| i <= k < mi && (#[trigger] blk_meta_groups@[k]).blk_metas.len() > 0 ==> head.time_range.max_ts < blk_meta_groups@[k].time_range.min_ts,
      h0.blk_metas.len() == 0 ==> (forall|k: int| i <= k < g0.len() ==> (#[trigger] g0[k]).blk_metas.len() == 0) && head.blk_metas.len() == 0,
      forall|b: CompactingBlockMeta| #[trigger] held_in(blk_meta_groups@, b, head.blk_metas@) <==> held(g0, b)
    decreases blk_meta_groups.len() - mi
@at loop-start 4
    let ghost g1 = blk_meta_groups@; let ghost hd1 = head; let ghost q = mi as int;
    proof { let _ = g0[q]; let _ = g0[head_idx as int]; assert(g0[head_idx as int].time_range.min_ts <= g0[q].time_range.min_ts); assert(g1[q] == g0[q]); let _ = g1[q]; }
@at loop-end 4
    proof {
      let g2 = blk_meta_groups@;
      assert forall|k: int| 0 <= k < g2.len() implies (#[trigger] g2[k]).ok() && g2[k].series_id == seires_id by { let _ = g1[k]; }
      if !ov(hd1.time_range, g1[q].time_range) { assert(g2 =~= g1); }
      if g2 != g1 {
        assert(ov(hd1.time_range, g1[q].time_range));
        assert forall|b: CompactingBlockMeta| #[trigger] held_in(g2, b, head.blk_metas@) <==> held(g0, b) by {
          assert(held_in(g1, b, hd1.blk_metas@) <==> held(g0, b));
          assert(head.blk_metas@ == hd1.blk_metas@ + g1[q].blk_metas@);
          if head.blk_metas@.contains(b) { let x = choose|x: int| 0 <= x < head.blk_metas.len() && head.blk_metas@[x] == b; if x < hd1.blk_metas.len() { assert(hd1.blk_metas@[x] == b); } else { assert(g1[q].blk_metas@[x - hd1.blk_metas.len()] == b); assert(g1[q].blk_metas@.contains(b)); assert(held(g1, b)); } }
          if held(g2, b) { let x = choose|x: int| 0 <= x < g2.len() && (#[trigger] g2[x]).blk_metas@.contains(b); assert(x != q); assert(g1[x] == g2[x]); assert(held(g1, b)); }
          if hd1.blk_metas@.contains(b) { let x = choose|x: int| 0 <= x < hd1.blk_metas.len() && hd1.blk_metas@[x] == b; assert(head.blk_metas@[x] == b); }
          if held(g1, b) { let x = choose|x: int| 0 <= x < g1.len() && (#[trigger] g1[x]).blk_metas@.contains(b); if x == q { let y = choose|y: int| 0 <= y < g1[q].blk_metas.len() && g1[q].blk_metas@[y] == b; assert(head.blk_metas@[hd1.blk_metas.len() + y] == b); } else { assert(g2[x] == g1[x]); assert(held(g2, b)); } }
        }
        assert forall|b: CompactingBlockMeta| h0.blk_metas@.contains(b) implies #[trigger] head.blk_metas@.contains(b) by { assert(hd1.blk_metas@.contains(b)); let x = choose|x: int| 0 <= x < hd1.blk_metas.len() && hd1.blk_metas@[x] == b; assert(head.blk_metas@[x] == b); }
        assert forall|k: int| i <= k < mi && (#[trigger] g2[k]).blk_metas.len() > 0 implies head.time_range.max_ts < g2[k].time_range.min_ts by { assert(k != q); assert(g1[k].blk_metas.len() > 0); assert(hd1.time_range.max_ts < g1[k].time_range.min_ts); let _ = g0[k]; assert(g0[k].time_range.min_ts <= g0[q].time_range.min_ts); }
      } else {
        assert(head == hd1);
      }
    }
@at loop-end 2
    proof {
      let g2 = blk_meta_groups@; let hx = head_idx as int;
      assert forall|k: int| 0 <= k < g2.len() implies (#[trigger] g2[k]).ok() && g2[k].series_id == seires_id by {}
      assert forall|b: CompactingBlockMeta| #[trigger] held(g2, b) <==> B.contains(b) by {
        let hb = g2[hx].blk_metas@;
        if held(g2, b) { let x = choose|x: int| 0 <= x < g2.len() && (#[trigger] g2[x]).blk_metas@.contains(b); if x == hx { assert(held_in(g3, b, hb)); } else { assert(g3[x] == g2[x]); assert(held(g3, b)); assert(held_in(g3, b, hb)); } assert(held(g0, b)); }
        if B.contains(b) { assert(held(g0, b)); assert(held_in(g3, b, hb)); if hb.contains(b) { assert(g2[hx].blk_metas@.contains(b)); } else { let x = choose|x: int| 0 <= x < g3.len() && (#[trigger] g3[x]).blk_metas@.contains(b); if x == hx { assert(h0.blk_metas@.contains(b)); } assert(g2[x] == g3[x]); } }
      }
      assert forall|x: int, y: int| 0 <= x <= y < g2.len() implies (#[trigger] g2[x]).time_range.min_ts <= (#[trigger] g2[y]).time_range.min_ts by { let _ = g0[x]; let _ = g0[y]; let _ = g3[x]; let _ = g3[y]; }
      assert(cut(g2, i as int)) by {
        assert forall|x: int, y: int| 0 <= x < y < g2.len() && x < i && (#[trigger] g2[x]).blk_metas.len() > 0 && (#[trigger] g2[y]).blk_metas.len() > 0 implies g2[x].time_range.max_ts < g2[y].time_range.min_ts by {
          let _ = g3[x]; let _ = g3[y]; let _ = g0[x]; let _ = g0[y];
          if x < hx { assert(g0[x].blk_metas.len() > 0); assert(g0[y].blk_metas.len() > 0); assert(g0[x].time_range.max_ts < g0[y].time_range.min_ts); }
        }
      }
    }
@at after-loop 4
    let ghost g3 = blk_meta_groups@;
@loop 5
    invariant forall|b: CompactingBlockMeta| #[trigger] held(blk_meta_groups@, b) <==> B.contains(b), 0 <= pi <= blk_meta_groups.len(), all_ok(blk_meta_groups@, seires_id), cut(blk_meta_groups@, blk_meta_groups.len() as int), *self == *old(self),
      all_ok(compacting_blk_meta_groups@, seires_id), forall|x: int| 0 <= x < compacting_blk_meta_groups.len() ==> (#[trigger] compacting_blk_meta_groups@[x]).blk_metas.len() > 0,
      forall|x: int| 0 <= x < compacting_blk_meta_groups.len() ==> exists|k: int| 0 <= k < pi && #[trigger] blk_meta_groups@[k] == #[trigger] compacting_blk_meta_groups@[x],
      forall|x: int, k: int| 0 <= x < compacting_blk_meta_groups.len() && pi <= k < blk_meta_groups.len() && (#[trigger] blk_meta_groups@[k]).blk_metas.len() > 0 ==> (#[trigger] compacting_blk_meta_groups@[x]).time_range.max_ts < blk_meta_groups@[k].time_range.min_ts,
      forall|x: int, y: int| 0 <= x < y < compacting_blk_meta_groups.len() ==> (#[trigger] compacting_blk_meta_groups@[x]).time_range.max_ts < (#[trigger] compacting_blk_meta_groups@[y]).time_range.min_ts,
      forall|k: int| 0 <= k < pi && (#[trigger] blk_meta_groups@[k]).blk_metas.len() > 0 ==> compacting_blk_meta_groups@.contains(blk_meta_groups@[k])
    decreases blk_meta_groups.len() - pi
@at loop-start 5
    let ghost c0 = compacting_blk_meta_groups@; let ghost p0 = pi as int;
@at loop-end 5
    proof {
      let c1 = compacting_blk_meta_groups@; let g = blk_meta_groups@;
      assert(c1 == c0 || c1 == c0.push(g[p0])); let _ = g[p0];
      if c1 == c0.push(g[p0]) && c1.len() == c0.len() + 1 {
        assert(c1[c0.len() as int] == g[p0]);
        assert forall|x: int| 0 <= x < c1.len() implies exists|k: int| 0 <= k < pi && #[trigger] g[k] == #[trigger] c1[x] by { if x < c0.len() { let k = choose|k: int| 0 <= k < p0 && #[trigger] g[k] == c0[x]; assert(g[k] == c1[x]); } else { assert(g[p0] == c1[x]); } }
      }
      assert forall|k: int| 0 <= k < pi && (#[trigger] g[k]).blk_metas.len() > 0 implies c1.contains(g[k]) by { if k < p0 { assert(c0.contains(g[k])); let x = choose|x: int| 0 <= x < c0.len() && c0[x] == g[k]; assert(c1[x] == g[k]); } }
    }
@at after-loop 5
    proof {
      assert(T == old(self).tmp_tsm_blk_meta_iters@);
      let c = compacting_blk_meta_groups@; let g = blk_meta_groups@;
      assert forall|b: CompactingBlockMeta| #[trigger] held(c, b) <==> held(g, b) by {
        if held(c, b) { let x = choose|x: int| 0 <= x < c.len() && (#[trigger] c[x]).blk_metas@.contains(b); let k = choose|k: int| 0 <= k < g.len() && #[trigger] g[k] == c[x]; assert(g[k].blk_metas@.contains(b)); }
        if held(g, b) { let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).blk_metas@.contains(b); assert(c.contains(g[k])); let x = choose|x: int| 0 <= x < c.len() && c[x] == g[k]; assert(c[x].blk_metas@.contains(b)); }
      }
      assert forall|m: int| 0 <= m < T.len() implies got(c, #[trigger] T[m], *old(self)) by { assert(blk_of(B0[m], T[m], *old(self))); assert(B.contains(B0[m])); assert(held(c, B0[m])); }
      assert forall|b: CompactingBlockMeta| #[trigger] held(c, b) implies only_b(b, *old(self)) by { assert(B.contains(b)); let k = choose|k: int| 0 <= k < B.len() && B[k] == b; assert(B0.contains(B[k])); let m = choose|m: int| 0 <= m < B0.len() && B0[m] == b; assert(blk_of(B0[m], T[m], *old(self))); }
    }
@end
}
fn main() {}
