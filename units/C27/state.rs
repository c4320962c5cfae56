use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include files.inc
//@include specs.inc
// every entry is a wanted block of series s of a file that is at s
spec fn only(v: Seq<Blk>, files: Seq<CompactingFile>, readers: Seq<TsmReader>, out: Option<TimeRanges>, s: u32) -> bool {
    forall|m: int| 0 <= m < v.len() ==> { let b = #[trigger] v[m]; b.2 < readers.len() && wanted(readers[b.2 as int], s, b.1, out) && b.0 == readers[b.2 as int].chunks()[s] && at_sid(files, b.2 as int, s) }
}
spec fn at_sid(files: Seq<CompactingFile>, r: int, s: u32) -> bool { exists|j: int| 0 <= j < files.len() && (#[trigger] files[j]).tsm_reader_index == r && cur(files[j]) == Some(s) }
spec fn all_of(v: Seq<Blk>, f: CompactingFile, readers: Seq<TsmReader>, out: Option<TimeRanges>, s: u32) -> bool {
    forall|cg: u64| #[trigger] wanted(readers[f.tsm_reader_index as int], s, cg, out) ==> taken(v, readers, f.tsm_reader_index as int, s, cg)
}
spec fn map_ok(m: Seq<Option<usize>>, f0: Seq<CompactingFile>) -> bool { forall|i: int| 0 <= i < f0.len() ==> { let f = #[trigger] f0[i]; match m[f.tsm_reader_index as int] { Some(k) => true, None => cur(f) is None } } }
proof fn lemma_more(v: Seq<Blk>, w: Seq<Blk>, readers: Seq<TsmReader>, r: int, s: u32, cg: u64)
    requires taken(v, readers, r, s, cg), v.is_prefix_of(w)
    ensures taken(w, readers, r, s, cg)
{ let m = choose|m: int| 0 <= m < v.len() && is_blk(#[trigger] v[m], readers, r, s, cg); assert(w[m] == v[m]); }
// slice::sort: the same files, ordered by CompactingFile::cmp (the contract of cmp is proved below)
#[verifier::external_body]
fn sort_files(v: &mut Vec<CompactingFile>)
    requires distinct(old(v)@)
    ensures final(v).len() == old(v).len(), sorted(final(v)@), distinct(final(v)@), forall|i: int| 0 <= i < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v).len() ==> final(v)@.contains(#[trigger] old(v)@[i])
{ unimplemented!() }
#[verifier::external_body]
fn file_mut(v: &mut Vec<CompactingFile>, i: usize) -> (r: &mut CompactingFile)
    requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)), final(v).len() == old(v).len()
{ unimplemented!() }
#[verifier::external_body]
fn nones(n: usize) -> (r: Vec<Option<usize>>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> r@[i] is None { unimplemented!() }
//@extract tskv/src/compaction/compact.rs Ord for CompactingFile::cmp
@header impl CompactingFile
@ret r
@spec
    ensures (r is Less || r is Equal) == le(cur(*self), cur(*other)), (r is Equal) == (cur(*self) == cur(*other))
@end
//@extract tskv/src/compaction/compact.rs CompactingFile::new
@subst /Arc<(\w+)>/ => \1
@subst /\{\s*let chunks = tsm_reader\.chunk_group\(\);[\s\S]*?collect::<Vec<_>>\(\)\s*\}/ => tsm_reader.series_list()
@subst /series_ids\.sort(_unstable)?\(\)/ => sort_ids(&mut series_ids)
@ret r
@spec
    ensures r.tsm_reader_index == tsm_reader_index, r.tsm_reader == tsm_reader, r.out_time_ranges == out_time_ranges,
       forall|i: int, j: int| 0 <= i < j < r.series_ids.len() ==> r.series_ids@[i] < r.series_ids@[j],
       forall|i: int| 0 <= i < r.series_ids.len() ==> r.tsm_reader.chunks().dom().contains(#[trigger] r.series_ids@[i]), r.series_idx <= r.series_ids.len(),
       forall|s: u32| #[trigger] tsm_reader.chunks().dom().contains(s) ==> left(r, s)
@at tail
    proof { assert forall|s: u32| #[trigger] tsm_reader.chunks().dom().contains(s) implies exists|i: int| 0 <= i < series_ids.len() && #[trigger] series_ids@[i] == s by { assert(series_ids@.contains(s)); } }
@end
//@extract tskv/src/compaction/compact.rs CompactingFile::next
@spec
    requires old(self).series_idx < old(self).series_ids.len()
    ensures final(self).series_idx == old(self).series_idx + 1, final(self).series_ids == old(self).series_ids, final(self).tsm_reader_index == old(self).tsm_reader_index, final(self).tsm_reader == old(self).tsm_reader, final(self).out_time_ranges == old(self).out_time_ranges
@end
//@extract tskv/src/compaction/compact.rs CompactingFile::peek
@subst /self\.series_ids\.get\(self\.series_idx\)\.copied\(\)/ => get_copied(&self.series_ids, self.series_idx)
@ret r
@spec
    ensures r == cur(*self)
@end
fn clone_out(o: &Option<TimeRanges>) -> (r: Option<TimeRanges>) ensures r == *o { match o { Some(x) => Some(x.clone()), None => None } }
fn get_copied(v: &Vec<u32>, i: usize) -> (r: Option<u32>) ensures r == (if i < v.len() { Some(v@[i as int]) } else { None::<u32> }) { if i < v.len() { Some(v[i]) } else { None } }
//@extract tskv/src/compaction/compact.rs CompactState::new
@subst /Arc<(\w+)>/ => \1
@subst /Arc::new\((TimeRanges::new\([^()]*\))\)/ => \1
@subst /for (\w+) in tsm_readers \{/ => let ghost all0 = tsm_readers@; let mut gi: usize = 0; while gi < tsm_readers.len() { let \1 = tsm_readers[gi].clone(); gi += 1;
@subst /vec!\[None::<_>; tsm_readers_len\]/ => nones(tsm_readers_len)
@subst /let mut compacting_files = / => let mut compacting_files: Vec<CompactingFile> =
@subst /out_time_ranges\.clone\(\)/ => clone_out(&out_time_ranges)
@subst /compacting_files\.sort(_unstable)?\(\)/ => sort_files(&mut compacting_files)
@subst /for \((\w+), (\w+)\) in compacting_files\.iter\(\)\.enumerate\(\) \{/ => let mut ei: usize = 0; while ei < compacting_files.len() { let \1 = ei; let \2 = &compacting_files[ei]; ei += 1;
@subst /tsm_reader_to_compacting_file_map\[f\.tsm_reader_index\] = Some\(i\);/ => tsm_reader_to_compacting_file_map.set(f.tsm_reader_index, Some(i));
@ret r
@spec
    requires out_time_range.min_ts <= out_time_range.max_ts
    ensures r.ok(), r.tsm_readers@ == tsm_readers@,
       r.out_time_ranges is Some ==> r.out_time_ranges->0.ranges() == seq![out_time_range], r.out_time_ranges is None ==> out_time_range.min_ts == i64::MIN && out_time_range.max_ts == i64::MAX,
       // every block of every file that reaches into the output range is still to be taken
       forall|k: int, sid: u32, cg: u64| 0 <= k < tsm_readers.len() && #[trigger] wanted(tsm_readers@[k], sid, cg, r.out_time_ranges) ==> r.todo(k, sid, cg)
@at before-loop 0
    let ghost out0 = out_time_ranges;
@loop 0
    invariant 0 <= gi <= tsm_readers.len(), compacting_tsm_file_idx == gi, compacting_tsm_readers.len() == gi, compacting_files.len() == gi, out_time_ranges == out0,
       forall|j: int| 0 <= j < gi ==> compacting_tsm_readers@[j] == #[trigger] tsm_readers@[j],
       forall|j: int| 0 <= j < gi ==> (#[trigger] compacting_files@[j]).tsm_reader_index == j && compacting_files@[j].out_time_ranges == out0 && file_ok(compacting_files@[j], tsm_readers@) && forall|s: u32| #[trigger] tsm_readers@[j].chunks().dom().contains(s) ==> left(compacting_files@[j], s)
    decreases tsm_readers.len() - gi
@at after-loop 0
    proof { assert(compacting_tsm_readers@ =~= tsm_readers@); }
    let ghost cf0 = compacting_files@;
    proof { assert forall|k: int| 0 <= k < cf0.len() implies cf0[k].tsm_reader_index == k by { let _ = cf0[k]; } }
@loop 1
    invariant 0 <= ei <= compacting_files.len(), tsm_reader_to_compacting_file_map.len() == tsm_readers.len(), compacting_files.len() == tsm_readers.len(), distinct(compacting_files@),
       forall|j: int| 0 <= j < compacting_files.len() ==> file_ok(#[trigger] compacting_files@[j], tsm_readers@) && compacting_files@[j].out_time_ranges == out0,
       forall|j: int| 0 <= j < ei ==> tsm_reader_to_compacting_file_map@[(#[trigger] compacting_files@[j]).tsm_reader_index as int] == Some(j as usize)
    decreases compacting_files.len() - ei
@at before-loop 1
    proof {
      assert forall|j: int| 0 <= j < compacting_files.len() implies file_ok(#[trigger] compacting_files@[j], tsm_readers@) && compacting_files@[j].out_time_ranges == out0 by { assert(cf0.contains(compacting_files@[j])); let k = choose|k: int| 0 <= k < cf0.len() && cf0[k] == compacting_files@[j]; let _ = cf0[k]; }
    }
@at tail
    proof {
      assert forall|k: int| 0 <= k < tsm_readers.len() implies #[trigger] has_idx(compacting_files@, k) by { assert(cf0[k].tsm_reader_index == k); assert(compacting_files@.contains(cf0[k])); let j = choose|j: int| 0 <= j < compacting_files.len() && compacting_files@[j] == cf0[k]; assert(compacting_files@[j].tsm_reader_index == k); }
      assert forall|k: int, sid: u32, cg: u64| 0 <= k < tsm_readers.len() && #[trigger] wanted(tsm_readers@[k], sid, cg, out0) implies exists|j: int| 0 <= j < compacting_files.len() && (#[trigger] compacting_files@[j]).tsm_reader_index == k && left(compacting_files@[j], sid) by {
        let f = cf0[k]; assert(f.tsm_reader_index == k && left(f, sid)); assert(compacting_files@.contains(cf0[k])); let j = choose|j: int| 0 <= j < compacting_files.len() && compacting_files@[j] == f; assert(compacting_files@[j].tsm_reader_index == k); }
    }
@end

spec fn same_but_pos(a: CompactingFile, b: CompactingFile) -> bool { a.tsm_reader_index == b.tsm_reader_index && a.tsm_reader == b.tsm_reader && a.series_ids == b.series_ids && a.out_time_ranges == b.out_time_ranges }
// file j after the round for series `sid`
spec fn stepped(f0: CompactingFile, f1: CompactingFile, sid: u32) -> bool { same_but_pos(f0, f1) && f1.series_idx == (if cur(f0) == Some(sid) { f0.series_idx + 1 } else { f0.series_idx as int }) }
proof fn lemma_left(f: CompactingFile, readers: Seq<TsmReader>, sid: u32)
    requires file_ok(f, readers)
    ensures left(f, sid) ==> cur(f) is Some && cur(f)->0 <= sid, cur(f) is Some ==> left(f, cur(f)->0)
{
    if left(f, sid) { let i = choose|i: int| f.series_idx <= i < f.series_ids.len() && #[trigger] f.series_ids@[i] == sid; assert(f.series_ids@[f.series_idx as int] <= f.series_ids@[i]); }
    if cur(f) is Some { assert(f.series_ids@[f.series_idx as int] == cur(f)->0); }
}
proof fn lemma_step(f0: CompactingFile, f1: CompactingFile, readers: Seq<TsmReader>, s: u32, sid: u32)
    requires file_ok(f0, readers), stepped(f0, f1, s), cur(f0) is Some ==> s <= cur(f0)->0
    ensures file_ok(f1, readers), left(f1, sid) <==> left(f0, sid) && sid != s, left(f0, s) <==> cur(f0) == Some(s)
{
    lemma_left(f0, readers, s); lemma_left(f0, readers, sid);
    if left(f1, sid) { let i = choose|i: int| f1.series_idx <= i < f1.series_ids.len() && #[trigger] f1.series_ids@[i] == sid; assert(f0.series_ids@[i] == sid); if cur(f0) == Some(s) { assert(f0.series_ids@[f0.series_idx as int] < f0.series_ids@[i]); } else if sid == s { assert(left(f0, s)); } }
    if left(f0, sid) && sid != s { let i = choose|i: int| f0.series_idx <= i < f0.series_ids.len() && #[trigger] f0.series_ids@[i] == sid; assert(f1.series_ids@[i] == sid); assert(i >= f1.series_idx); }
}
//@extract tskv/src/compaction/compact.rs CompactState::next_series_id
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::rlimit(40)]
@subst /for (\w+) in self\.compacting_files\.iter_mut\(\) \{/ => let mut fk: usize = 0; while fk < self.compacting_files.len() { let \1 = file_mut(&mut self.compacting_files, fk); fk += 1;
@subst /self\.tsm_reader_to_compacting_file_map\[loop_tsm_reader_idx\] = None;/ => self.tsm_reader_to_compacting_file_map.set(loop_tsm_reader_idx, None);
@subst /self\.tsm_reader_to_compacting_file_map\[f\.tsm_reader_index\] = Some\(i\);/ => self.tsm_reader_to_compacting_file_map.set(f.tsm_reader_index, Some(i));
@subst /\.cloned\(\)\s*\.context\(CommonSnafu \{(?:[^{}]|\{[^{}]*\})*\}\)\?/ => .ok_or(TskvError::Common)?
@subst /\.keys\(\)\.cloned\(\)\.collect::<Vec<_>>\(\)/ => .keys_vec()
@subst /(\w+)\.iter\(\)\.for_each\(\|&(\w+)\| \{/ => let mut ci: usize = 0; while ci < \1.len() { let \2 = \1[ci]; ci += 1;
@subst /None => \{\s*return;\s*\}/ => None => { continue; }
@subst /for (\w+) in time\.time_ranges\(\) \{/ => let trs = time.time_ranges(); let mut ti: usize = 0; while ti < trs.len() { let \1 = trs[ti]; ti += 1;
@subst /(loop_tsm_reader_idx,\s*\)\);)\s*return;/ => \1 hit = true; proof { assert(ov(column_group.tr(), O->0.ranges()[ti - 1])); } break;
@subst /if let Some\(time\) = self\.out_time_ranges\.as_ref\(\)/ => let mut hit = false; if let Some(time) = self.out_time_ranges.as_ref()
@subst /\}\);(\s*f\.next\(\);)/ => }\1
@subst /self\.compacting_files\.sort(_unstable)?\(\)/ => sort_files(&mut self.compacting_files)
@subst /for \((\w+), (\w+)\) in self\.compacting_files\.iter\(\)\.enumerate\(\) \{/ => let mut ei: usize = 0; while ei < self.compacting_files.len() { let \1 = ei; let \2 = &self.compacting_files[ei]; ei += 1;
@log
@ret r
@spec
    requires old(self).ok()
    ensures r is Ok ==> final(self).ok() && final(self).tsm_readers == old(self).tsm_readers && final(self).out_time_ranges == old(self).out_time_ranges,
       // nothing left behind
       r is Ok && r->Ok_0 is None ==> forall|k: int, sid: u32, cg: u64| !#[trigger] old(self).todo(k, sid, cg),
       // the series returned: all its blocks from all files are taken, nothing else, and only larger series remain
       r is Ok && r->Ok_0 is Some ==> {
          let s = r->Ok_0->0;
          final(self).tmp_tsm_blk_meta_iters.len() > 0 && (forall|k: int, sid: u32, cg: u64| #[trigger] old(self).todo(k, sid, cg) <==> final(self).todo(k, sid, cg) || (sid == s && wanted(old(self).tsm_readers@[k], s, cg, old(self).out_time_ranges) && final(self).taken(k, s, cg)))
          && (forall|k: int, sid: u32, cg: u64| #[trigger] final(self).todo(k, sid, cg) ==> sid > s)
          && (forall|m: int| 0 <= m < final(self).tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] final(self).tmp_tsm_blk_meta_iters@[m]; b.2 < final(self).tsm_readers.len() && wanted(final(self).tsm_readers@[b.2 as int], s, b.1, final(self).out_time_ranges) && b.0 == final(self).tsm_readers@[b.2 as int].chunks()[s] && old(self).todo(b.2 as int, s, b.1) && final(self).tsm_reader_to_compacting_file_map@[b.2 as int] is Some })
       },
@at loop-start 0
    let ghost it0 = *self; let ghost F0 = self.compacting_files@; let ghost R = self.tsm_readers@; let ghost O = self.out_time_ranges;
@at before-loop 1
    proof { assert(cur(F0[0]) == Some(curr_sid)); assert forall|j: int| 0 <= j < F0.len() && cur(#[trigger] F0[j]) is Some implies curr_sid <= cur(F0[j])->0 by { assert(le(cur(F0[0]), cur(F0[j]))); } }
@loop 0
    invariant_except_break self.ok(), self.tsm_readers == old(self).tsm_readers, self.out_time_ranges == old(self).out_time_ranges, self.tmp_tsm_blk_meta_iters@.len() == 0,
       forall|k: int, sid: u32, cg: u64| #[trigger] old(self).todo(k, sid, cg) <==> self.todo(k, sid, cg)
    ensures self.tmp_tsm_blk_meta_iters.len() > 0, self.ok(), self.tsm_readers == old(self).tsm_readers, self.out_time_ranges == old(self).out_time_ranges,
       forall|k: int, sid: u32, cg: u64| #[trigger] old(self).todo(k, sid, cg) <==> self.todo(k, sid, cg) || (sid == curr_sid && wanted(old(self).tsm_readers@[k], curr_sid, cg, old(self).out_time_ranges) && self.taken(k, curr_sid, cg)),
       forall|k: int, sid: u32, cg: u64| #[trigger] self.todo(k, sid, cg) ==> sid > curr_sid,
       forall|m: int| 0 <= m < self.tmp_tsm_blk_meta_iters.len() ==> { let b = #[trigger] self.tmp_tsm_blk_meta_iters@[m]; b.2 < self.tsm_readers.len() && wanted(self.tsm_readers@[b.2 as int], curr_sid, b.1, self.out_time_ranges) && b.0 == self.tsm_readers@[b.2 as int].chunks()[curr_sid] && old(self).todo(b.2 as int, curr_sid, b.1) && self.tsm_reader_to_compacting_file_map@[b.2 as int] is Some }
@loop 1
    invariant_except_break
       forall|j: int| 0 <= j < fk && #[trigger] cur(F0[j]) is Some ==> cur(F0[j]) == Some(curr_sid),
       forall|j: int| fk <= j < F0.len() ==> #[trigger] self.compacting_files@[j] == F0[j],
    invariant fk <= F0.len(), self.compacting_files.len() == F0.len(), it0.ok(), it0.compacting_files@ == F0, F0.len() == R.len(), self.tsm_readers@ == R, self.out_time_ranges == O, it0.tsm_readers@ == R, it0.out_time_ranges == O, it0.tsm_readers == self.tsm_readers,
       self.tsm_reader_to_compacting_file_map.len() == R.len(), map_ok(self.tsm_reader_to_compacting_file_map@, F0),
       forall|j: int| 0 <= j < F0.len() && cur(#[trigger] F0[j]) is Some ==> curr_sid <= cur(F0[j])->0,
       forall|j: int| 0 <= j < fk ==> stepped(#[trigger] F0[j], self.compacting_files@[j], curr_sid),
       only(self.tmp_tsm_blk_meta_iters@, F0, R, O, curr_sid),
       forall|j: int| 0 <= j < fk && cur(#[trigger] F0[j]) == Some(curr_sid) ==> all_of(self.tmp_tsm_blk_meta_iters@, F0[j], R, O, curr_sid)
    ensures forall|j: int| 0 <= j < F0.len() ==> stepped(#[trigger] F0[j], self.compacting_files@[j], curr_sid),
       forall|j: int| 0 <= j < F0.len() && cur(#[trigger] F0[j]) == Some(curr_sid) ==> all_of(self.tmp_tsm_blk_meta_iters@, F0[j], R, O, curr_sid)
    decreases F0.len() - fk
@at loop-start 1
    let ghost nf = fk as int; let ghost tmp0 = self.tmp_tsm_blk_meta_iters@;
    proof { let _ = F0[nf]; assert(file_ok(F0[nf], R)); lemma_left(F0[nf], R, curr_sid); }
@loop 2
    invariant 0 <= ci <= column_groups_id.len(), 0 <= nf < F0.len(), *f == F0[nf], cur(F0[nf]) == Some(curr_sid), F0.len() == R.len(), self.tsm_readers@ == R, self.out_time_ranges == O, file_ok(F0[nf], R), loop_tsm_reader_idx == F0[nf].tsm_reader_index,
       R[loop_tsm_reader_idx as int].chunks().dom().contains(curr_sid), meta == R[loop_tsm_reader_idx as int].chunks()[curr_sid],
       forall|i: int| 0 <= i < column_groups_id.len() ==> meta.cgs().dom().contains(#[trigger] column_groups_id@[i]),
       tmp0.is_prefix_of(self.tmp_tsm_blk_meta_iters@), only(self.tmp_tsm_blk_meta_iters@, F0, R, O, curr_sid),
       forall|i: int| 0 <= i < ci && wanted(R[loop_tsm_reader_idx as int], curr_sid, #[trigger] column_groups_id@[i], O) ==> taken(self.tmp_tsm_blk_meta_iters@, R, loop_tsm_reader_idx as int, curr_sid, column_groups_id@[i])
    decreases column_groups_id.len() - ci
@at loop-start 2
    let ghost t1 = self.tmp_tsm_blk_meta_iters@; let ghost cg0 = column_groups_id@[ci as int]; let ghost ci0 = ci as int;
@at loop-end 2
    proof { let t2 = self.tmp_tsm_blk_meta_iters@; let b = (meta, cg0, loop_tsm_reader_idx);
      assert(t2 == t1 || t2 == t1.push(b));
      assert(wanted(R[loop_tsm_reader_idx as int], curr_sid, cg0, O) <==> t2 == t1.push(b)) by { if t2 == t1.push(b) { assert(t2.len() == t1.len() + 1); } }
      if t2 == t1.push(b) { assert(is_blk(t2[t1.len() as int], R, loop_tsm_reader_idx as int, curr_sid, cg0)); assert(at_sid(F0, loop_tsm_reader_idx as int, curr_sid)) by { assert(F0[nf].tsm_reader_index == loop_tsm_reader_idx && cur(F0[nf]) == Some(curr_sid)); }
         assert forall|m: int| 0 <= m < t2.len() implies { let b = #[trigger] t2[m]; b.2 < R.len() && wanted(R[b.2 as int], curr_sid, b.1, O) && b.0 == R[b.2 as int].chunks()[curr_sid] && at_sid(F0, b.2 as int, curr_sid) } by { if m < t1.len() { assert(t2[m] == t1[m]); } } }
      assert(t1.is_prefix_of(t2)); assert(tmp0.is_prefix_of(t2));
      assert forall|i: int| 0 <= i < ci && wanted(R[loop_tsm_reader_idx as int], curr_sid, #[trigger] column_groups_id@[i], O) implies taken(t2, R, loop_tsm_reader_idx as int, curr_sid, column_groups_id@[i]) by { if i < ci0 { lemma_more(t1, t2, R, loop_tsm_reader_idx as int, curr_sid, column_groups_id@[i]); } else { assert(column_groups_id@[i] == cg0); } }
    }
@loop 3
    invariant_except_break !hit, self.tmp_tsm_blk_meta_iters@ == t1, forall|i: int| 0 <= i < ti ==> !ov(column_group.tr(), #[trigger] trs@[i])
    invariant ti <= trs.len(), column_group_id == cg0, trs@ == O->0.ranges(), O is Some, O == Some(*time)
    ensures hit ==> self.tmp_tsm_blk_meta_iters@ == t1.push((meta, cg0, loop_tsm_reader_idx)) && hits(column_group, O), !hit ==> self.tmp_tsm_blk_meta_iters@ == t1 && !hits(column_group, O)
    decreases trs.len() - ti
@loop 4
    invariant 0 <= ei <= self.compacting_files.len(), self.tsm_reader_to_compacting_file_map.len() == R.len(), self.compacting_files.len() == R.len(), distinct(self.compacting_files@), self.compacting_files@ == F2,
       self.tsm_readers@ == R, self.out_time_ranges == O, self.tmp_tsm_blk_meta_iters@ == T2, self.tsm_readers == it0.tsm_readers,
       forall|j: int| 0 <= j < F2.len() ==> file_ok(#[trigger] F2[j], R) && F2[j].out_time_ranges == O,
       map_ok(self.tsm_reader_to_compacting_file_map@, F2), forall|r: int| 0 <= r < R.len() && map1[r] is Some ==> #[trigger] self.tsm_reader_to_compacting_file_map@[r] is Some,
       forall|j: int| 0 <= j < ei ==> match self.tsm_reader_to_compacting_file_map@[(#[trigger] self.compacting_files@[j]).tsm_reader_index as int] { Some(k) => k == j, None => true }
    decreases self.compacting_files.len() - ei
@at after-loop 1
    let ghost map1 = self.tsm_reader_to_compacting_file_map@; let ghost F1 = self.compacting_files@; let ghost T2 = self.tmp_tsm_blk_meta_iters@;
    proof {
      assert forall|j: int| 0 <= j < F1.len() implies file_ok(#[trigger] F1[j], R) && F1[j].out_time_ranges == O && F1[j].tsm_reader_index == F0[j].tsm_reader_index by { let _ = F0[j]; lemma_step(F0[j], F1[j], R, curr_sid, curr_sid); }
    }
@at before-loop 4
    let ghost F2 = self.compacting_files@;
    proof {
      assert forall|j: int| 0 <= j < F2.len() implies file_ok(#[trigger] F2[j], R) && F2[j].out_time_ranges == O && (match self.tsm_reader_to_compacting_file_map@[F2[j].tsm_reader_index as int] { Some(k) => true, None => cur(F2[j]) is None }) by {
         assert(F1.contains(F2[j])); let k = choose|k: int| 0 <= k < F1.len() && F1[k] == F2[j]; let _ = F0[k]; let _ = F1[k]; }
    }
@at after-loop 4
    proof {
      assert forall|r: int| 0 <= r < R.len() implies #[trigger] has_idx(F2, r) by { assert(has_idx(F0, r)); let i = choose|i: int| 0 <= i < F0.len() && (#[trigger] F0[i]).tsm_reader_index == r; assert(F1[i].tsm_reader_index == r); assert(F2.contains(F1[i])); let j = choose|j: int| 0 <= j < F2.len() && F2[j] == F1[i]; assert(F2[j].tsm_reader_index == r); }
      assert(self.ok());
      assert forall|k: int, sid: u32, cg: u64| #[trigger] it0.todo(k, sid, cg) <==> self.todo(k, sid, cg) || (sid == curr_sid && wanted(R[k], curr_sid, cg, O) && self.taken(k, curr_sid, cg)) by {
         if it0.todo(k, sid, cg) {
            let j = choose|j: int| 0 <= j < F0.len() && (#[trigger] F0[j]).tsm_reader_index == k && left(F0[j], sid);
            lemma_step(F0[j], F1[j], R, curr_sid, sid);
            if sid == curr_sid { assert(all_of(T2, F0[j], R, O, curr_sid)); assert(wanted(R[F0[j].tsm_reader_index as int], curr_sid, cg, O)); assert(taken(T2, R, k, curr_sid, cg)); }
            else { assert(F2.contains(F1[j])); let i = choose|i: int| 0 <= i < F2.len() && F2[i] == F1[j]; assert(F2[i].tsm_reader_index == k && left(F2[i], sid)); assert(self.todo(k, sid, cg)); }
         }
         if self.todo(k, sid, cg) {
            let i = choose|i: int| 0 <= i < F2.len() && (#[trigger] F2[i]).tsm_reader_index == k && left(F2[i], sid);
            assert(F1.contains(F2[i])); let j = choose|j: int| 0 <= j < F1.len() && F1[j] == F2[i]; let _ = F0[j];
            lemma_step(F0[j], F1[j], R, curr_sid, sid); assert(F0[j].tsm_reader_index == k && left(F0[j], sid)); assert(it0.todo(k, sid, cg));
         }
         if sid == curr_sid && wanted(R[k], curr_sid, cg, O) && self.taken(k, curr_sid, cg) {
            let m = choose|m: int| 0 <= m < T2.len() && is_blk(#[trigger] T2[m], R, k, curr_sid, cg);
            let j = choose|j: int| 0 <= j < F0.len() && (#[trigger] F0[j]).tsm_reader_index == T2[m].2 && cur(F0[j]) == Some(curr_sid); lemma_left(F0[j], R, curr_sid); assert(F0[j].tsm_reader_index == k && left(F0[j], sid)); assert(it0.todo(k, sid, cg));
         }
      }
      assert forall|k: int, sid: u32, cg: u64| #[trigger] self.todo(k, sid, cg) implies sid > curr_sid by {
            let i = choose|i: int| 0 <= i < F2.len() && (#[trigger] F2[i]).tsm_reader_index == k && left(F2[i], sid);
            assert(F1.contains(F2[i])); let j = choose|j: int| 0 <= j < F1.len() && F1[j] == F2[i]; let _ = F0[j];
            lemma_step(F0[j], F1[j], R, curr_sid, sid); lemma_left(F0[j], R, sid); }
      assert forall|m: int| 0 <= m < T2.len() implies it0.todo((#[trigger] T2[m]).2 as int, curr_sid, T2[m].1) by {
            let b = T2[m]; let j = choose|j: int| 0 <= j < F0.len() && (#[trigger] F0[j]).tsm_reader_index == b.2 && cur(F0[j]) == Some(curr_sid); lemma_left(F0[j], R, curr_sid); assert(F0[j].tsm_reader_index == b.2 && left(F0[j], curr_sid)); }
      assert forall|m: int| 0 <= m < T2.len() implies self.tsm_reader_to_compacting_file_map@[(#[trigger] T2[m]).2 as int] is Some by { let b = T2[m]; let j = choose|j: int| 0 <= j < F0.len() && (#[trigger] F0[j]).tsm_reader_index == b.2 && cur(F0[j]) == Some(curr_sid); assert(map1[b.2 as int] is Some); }
      if T2.len() == 0 { assert forall|k: int, sid: u32, cg: u64| it0.todo(k, sid, cg) implies self.todo(k, sid, cg) by {} }
    }
@end
}
fn main() {}
