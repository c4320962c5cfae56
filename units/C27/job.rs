use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include files.inc
//@include specs.inc
//@include group_specs.inc
//@include data.inc
struct Metrics { x: u8 }
#[verifier::external_body]
struct CompactReq { x: u8 }
impl CompactReq {
    #[verifier::external_body]
    fn max_block(&self) -> usize { unimplemented!() }
}
#[verifier::external_body]
struct VersionEdit { x: u8 }
#[verifier::external_body]
struct FileMetas { x: u8 }
impl VersionEdit { uninterp spec fn content(&self) -> Seq<CompactingBlock>; }
// the new file: the blocks written to it, in order
#[verifier::external_body]
struct WriterWrapper { x: u8 }
impl WriterWrapper {
    uninterp spec fn view(&self) -> Seq<CompactingBlock>;
    #[verifier::external_body]
    fn new(request: &CompactReq) -> (r: TskvResult<WriterWrapper>) ensures r is Ok ==> r->Ok_0@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, blk: CompactingBlock) -> (r: TskvResult<()>) ensures r is Ok ==> final(self)@ == old(self)@.push(blk) { unimplemented!() }
    #[verifier::external_body]
    fn close(self) -> (r: TskvResult<(VersionEdit, FileMetas)>) ensures r is Ok ==> r->Ok_0.0.content() == self@ { unimplemented!() }
}
impl CompactingBlock {
    // how many rows: only decides how rows are cut into blocks
    #[verifier::external_body]
    fn len(&self) -> usize { unimplemented!() }
}
impl CompactState {
    // contract proved in state.rs
    #[verifier::external_body]
    fn new(tsm_readers: Vec<TsmReader>, out_time_range: TimeRange) -> (r: Self)
        requires out_time_range.min_ts <= out_time_range.max_ts
        ensures r.ok(), r.tsm_readers@ == tsm_readers@,
           r.out_time_ranges is Some ==> r.out_time_ranges->0.ranges() == seq![out_time_range], r.out_time_ranges is None ==> out_time_range.min_ts == i64::MIN && out_time_range.max_ts == i64::MAX,
           forall|k: int, sid: u32, cg: u64| 0 <= k < tsm_readers.len() && #[trigger] wanted(tsm_readers@[k], sid, cg, r.out_time_ranges) ==> r.todo(k, sid, cg)
    { unimplemented!() }
    // contract proved in next.rs
    #[verifier::external_body]
    fn next(&mut self, compacting_blk_meta_groups: &mut Vec<CompactingBlockMetaGroup>) -> (r: TskvResult<Option<u32>>)
        requires old(self).ok(), forall|i: int| 0 <= i < old(self).tsm_readers.len() ==> shaped(#[trigger] old(self).tsm_readers@[i])
        ensures r is Ok ==> next_post(*old(self), *final(self), final(compacting_blk_meta_groups)@, r->Ok_0)
    { unimplemented!() }
}
impl CompactingBlockMetaGroup {
    // contract proved in merge.rs
    #[verifier::external_body]
    fn merge_with_previous_block(self, previous_block: Option<CompactingBlock>, max_block_size: usize, time_range: &TimeRange, compacting_files: &mut Vec<CompactingFile>, metrics: &mut Metrics) -> (r: TskvResult<Vec<CompactingBlock>>)
        requires mergeable(self, old(compacting_files)@, *time_range), prev_ok(previous_block, self, *time_range),
          forall|i: int| 0 <= i < self.blk_metas.len() ==> ov((#[trigger] self.blk_metas@[i]).tr(), *time_range)
        ensures r is Ok ==> final(compacting_files)@ == old(compacting_files)@, r is Ok && self.blk_metas.len() > 0 ==> merged(r->Ok_0@, previous_block, self, *time_range), r is Ok && self.blk_metas.len() == 0 ==> r->Ok_0.len() == 0
    { unimplemented!() }
}
#[verifier::external_body]
fn take_group(v: &mut Vec<CompactingBlockMetaGroup>, i: usize) -> (r: CompactingBlockMetaGroup) requires i < old(v).len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
fn take_block(v: &mut Vec<CompactingBlock>, i: usize) -> (r: CompactingBlock) requires i < old(v).len() ensures r == old(v)@[i as int], final(v)@ == old(v)@ { unimplemented!() }
spec fn plist(p: Option<CompactingBlock>) -> Seq<CompactingBlock> { match p { Some(b) => seq![b], None => seq![] } }
spec fn infile(r: TsmReader, s: u32, cg: u64) -> bool { r.chunks().dom().contains(s) && r.chunks()[s].cgs().dom().contains(cg) }
// v is the value at (s, t, c) of the newest of the files (the last in the list) that has one
spec fn newest_all(files: Seq<TsmReader>, s: u32, t: i64, c: u32, v: int) -> bool {
    exists|k: int, cg: u64| 0 <= k < files.len() && #[trigger] infile(files[k], s, cg) && files[k].live(s, cg, t, c) == Some(v)
        && forall|k2: int, cg2: u64| 0 <= k2 < files.len() && #[trigger] infile(files[k2], s, cg2) && files[k2].live(s, cg2, t, c) is Some ==> k2 <= k
}
spec fn sound(l: Seq<CompactingBlock>, files: Seq<TsmReader>, out: TimeRange) -> bool {
    forall|i: int, t: i64, c: u32| 0 <= i < l.len() && (#[trigger] bcell(l[i], t, c)) is Some ==> mem(out, t) && bcell(l[i], t, 0) is Some && newest_all(files, bsid(l[i]), t, c, bcell(l[i], t, c)->0)
}
spec fn covered(l: Seq<CompactingBlock>, files: Seq<TsmReader>, out: TimeRange, n: int) -> bool {
    forall|k: int, s: u32, cg: u64, t: i64, c: u32| 0 <= k < files.len() && s < n && infile(files[k], s, cg) && (#[trigger] files[k].live(s, cg, t, c)) is Some && mem(out, t) ==> has(l, s, t, c)
}
// every cell of the files in the range is in the result, with the newest value, each time once per series, and nothing else is
spec fn whole(l: Seq<CompactingBlock>, files: Seq<TsmReader>, out: TimeRange) -> bool { sound(l, files, out) && apart(l) && covered(l, files, out, 0x1_0000_0000) }
spec fn sids_to(l: Seq<CompactingBlock>, n: int) -> bool { forall|i: int| 0 <= i < l.len() ==> bsid(#[trigger] l[i]) < n }
spec fn todo_ok(st: CompactState, files: Seq<TsmReader>, n: int) -> bool {
    (forall|k: int, s: u32, cg: u64| 0 <= k < files.len() && s >= n && #[trigger] wanted(files[k], s, cg, st.out_time_ranges) ==> st.todo(k, s, cg))
    && (forall|k: int, s: u32, cg: u64| #[trigger] st.todo(k, s, cg) ==> s >= n)
}
// group gi and later: nothing of them written yet
spec fn fresh(l: Seq<CompactingBlock>, g: Seq<CompactingBlockMetaGroup>, gi: int, sid: u32) -> bool {
    forall|i: int, q: int, t: i64| 0 <= i < l.len() && gi <= q < g.len() && bsid(l[i]) == sid && (#[trigger] bcell(l[i], t, 0)) is Some ==> !mem((#[trigger] g[q]).time_range, t)
}
spec fn done_to(l: Seq<CompactingBlock>, g: Seq<CompactingBlockMetaGroup>, gi: int, sid: u32, out: TimeRange) -> bool {
    forall|q: int, i: int, t: i64, c: u32| 0 <= q < gi && 0 <= i < g[q].blk_metas.len() && (#[trigger] olive(g[q].blk_metas@[i], t, c)) is Some && mem(out, t) ==> has(l, sid, t, c)
}
spec fn all_blk_ok(l: Seq<CompactingBlock>, out: TimeRange) -> bool { forall|i: int| 0 <= i < l.len() ==> blk_ok(#[trigger] l[i], out) }
spec fn ginv(l: Seq<CompactingBlock>, g: Seq<CompactingBlockMetaGroup>, gi: int, sid: u32, files: Seq<TsmReader>, out: TimeRange) -> bool {
    sound(l, files, out) && apart(l) && covered(l, files, out, sid as int) && sids_to(l, sid + 1) && fresh(l, g, gi, sid) && done_to(l, g, gi, sid, out) && all_blk_ok(l, out)
}
// the groups of series sid hold exactly its blocks that reach into the range
spec fn groups_of(g: Seq<CompactingBlockMetaGroup>, sid: u32, files: Seq<TsmReader>, o: Option<TimeRanges>) -> bool {
    all_ok(g, sid)
    && (forall|k: int, cg: u64| 0 <= k < files.len() && #[trigger] wanted(files[k], sid, cg, o) ==> has_blk(g, k, cg))
    && (forall|b: CompactingBlockMeta| #[trigger] held(g, b) ==> b.reader_idx < files.len() && b.reader == files[b.reader_idx as int] && b.meta == b.reader.chunks()[sid] && wanted(b.reader, sid, b.column_group_id, o))
    && (forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).time_range.max_ts < (#[trigger] g[j]).time_range.min_ts)
}
spec fn wf(files: Seq<TsmReader>) -> bool { forall|i: int| 0 <= i < files.len() ==> file_wf(#[trigger] files[i]) }
proof fn lemma_live(r: TsmReader, s: u32, cg: u64, t: i64, c: u32, out: TimeRange, o: Option<TimeRanges>)
    requires file_wf(r), infile(r, s, cg), r.live(s, cg, t, c) is Some, out_of(o, out)
    ensures mem(r.chunks()[s].cgs()[cg].tr(), t), r.live(s, cg, t, 0) is Some, mem(out, t) ==> wanted(r, s, cg, o)
{ let _ = r.stored(s, cg, t, c); if mem(out, t) && o is Some { assert(o->0.ranges()[0] == out); assert(ov(r.chunks()[s].cgs()[cg].tr(), o->0.ranges()[0])); } }
proof fn lemma_newest_all(g: Seq<CompactingBlockMetaGroup>, q: int, sid: u32, files: Seq<TsmReader>, out: TimeRange, o: Option<TimeRanges>, t: i64, c: u32, v: int)
    requires groups_of(g, sid, files, o), wf(files), out_of(o, out), 0 <= q < g.len(), mem(out, t), mem(g[q].time_range, t), newest(g[q].blk_metas@, t, c, v)
    ensures newest_all(files, sid, t, c, v)
{
    let bs = g[q].blk_metas@;
    let i = choose|i: int| 0 <= i < bs.len() && olive(#[trigger] bs[i], t, c) == Some(v) && forall|j: int| 0 <= j < bs.len() && olive(#[trigger] bs[j], t, c) is Some ==> bs[j].reader_idx <= bs[i].reader_idx;
    let b = bs[i]; assert(g[q].blk_metas@.contains(b)); assert(held(g, b)); let k = b.reader_idx as int;
    let _ = files[k]; assert(b.meta.sid() == sid);
    assert(infile(files[k], sid, b.column_group_id) && files[k].live(sid, b.column_group_id, t, c) == Some(v));
    assert forall|k2: int, cg2: u64| 0 <= k2 < files.len() && #[trigger] infile(files[k2], sid, cg2) && files[k2].live(sid, cg2, t, c) is Some implies k2 <= k by {
        let _ = files[k2]; lemma_live(files[k2], sid, cg2, t, c, out, o); assert(has_blk(g, k2, cg2));
        let b2 = choose|b: CompactingBlockMeta| #[trigger] held(g, b) && b.reader_idx == k2 && b.column_group_id == cg2;
        let q2 = choose|q2: int| 0 <= q2 < g.len() && (#[trigger] g[q2]).blk_metas@.contains(b2);
        let m = choose|m: int| 0 <= m < g[q2].blk_metas.len() && g[q2].blk_metas@[m] == b2;
        assert(b2.meta.sid() == sid); assert(b2.tr() == files[k2].chunks()[sid].cgs()[cg2].tr());
        let _ = g[q2].blk_metas@[m]; assert(mem(g[q2].time_range, t));
        if q2 < q { assert(g[q2].time_range.max_ts < g[q].time_range.min_ts); } else if q < q2 { assert(g[q].time_range.max_ts < g[q2].time_range.min_ts); }
        assert(olive(bs[m], t, c) is Some);
    }
}
proof fn lemma_has(l: Seq<CompactingBlock>, m: Seq<CompactingBlock>, s: u32, t: i64, c: u32)
    requires has(l, s, t, c), forall|i: int| 0 <= i < l.len() ==> m.contains(#[trigger] l[i])
    ensures has(m, s, t, c)
{ let i = choose|i: int| 0 <= i < l.len() && bsid(#[trigger] l[i]) == s && bcell(l[i], t, c) is Some; assert(m.contains(l[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == l[i]; assert(bsid(m[j]) == s); }
// one group merged with the previous block
proof fn lemma_step(lv: Seq<CompactingBlock>, p: Option<CompactingBlock>, rs: Seq<CompactingBlock>, g: Seq<CompactingBlockMetaGroup>, gi: int, sid: u32, files: Seq<TsmReader>, out: TimeRange, o: Option<TimeRanges>)
    requires ginv(lv + plist(p), g, gi, sid, files, out), 0 <= gi < g.len(), groups_of(g, sid, files, o), wf(files), out_of(o, out), merged(rs, p, g[gi], out), prev_ok(p, g[gi], out)
    ensures ginv(lv + rs, g, gi + 1, sid, files, out)
{
    let l0 = lv + plist(p); let l1 = lv + rs; let n = lv.len() as int; let gg = g[gi];
    assert(gg.series_id == sid);
    assert forall|i: int| 0 <= i < n implies #[trigger] l1[i] == lv[i] && l0[i] == lv[i] by {}
    assert forall|i: int| n <= i < l1.len() implies #[trigger] l1[i] == rs[i - n] by {}
    if p is Some { assert(l0[n] == p->0); }
    assert forall|i: int, t: i64, c: u32| n <= i < l1.len() && (#[trigger] bcell(l1[i], t, c)) is Some implies bsid(l1[i]) == sid && mem(out, t) && bcell(l1[i], t, 0) is Some && newest_all(files, sid, t, c, bcell(l1[i], t, c)->0) by {
        let r = rs[i - n]; assert(bcell(rs[i - n], t, c) is Some); let v = bcell(r, t, c)->0; assert(from(p, gg, out, t, c, v)); assert(blk_ok(r, out));
        if pc(p, t, c) == Some(v) { assert(bcell(l0[n], t, c) == Some(v)); } else { lemma_newest_all(g, gi, sid, files, out, o, t, c, v); }
    }
    assert(sound(l1, files, out)) by { assert forall|i: int, t: i64, c: u32| 0 <= i < l1.len() && (#[trigger] bcell(l1[i], t, c)) is Some implies mem(out, t) && bcell(l1[i], t, 0) is Some && newest_all(files, bsid(l1[i]), t, c, bcell(l1[i], t, c)->0) by { if i < n { assert(bcell(l0[i], t, c) is Some); } } }
    assert(all_blk_ok(l1, out)) by { assert forall|i: int| 0 <= i < l1.len() implies blk_ok(#[trigger] l1[i], out) by { if i < n { assert(blk_ok(l0[i], out)); } else { assert(blk_ok(rs[i - n], out)); } } }
    assert(sids_to(l1, sid + 1)) by { assert forall|i: int| 0 <= i < l1.len() implies bsid(#[trigger] l1[i]) < sid + 1 by { if i < n { assert(bsid(l0[i]) < sid + 1); } else { assert(bsid(rs[i - n]) == sid); } } }
    // a time of the merged result is either of the previous block or in the group's range
    assert forall|i: int, t: i64| n <= i < l1.len() && (#[trigger] bcell(l1[i], t, 0)) is Some implies (p is Some && bcell(p->0, t, 0) is Some) || mem(gg.time_range, t) by { assert(bcell(rs[i - n], t, 0) is Some); assert(from(p, gg, out, t, 0, bcell(rs[i - n], t, 0)->0)); }
    assert(apart(l1)) by {
        assert forall|i: int, j: int, t: i64| 0 <= i < j < l1.len() && bsid(l1[i]) == bsid(l1[j]) && (#[trigger] bcell(l1[i], t, 0)) is Some implies (#[trigger] bcell(l1[j], t, 0)) is None by {
            if j < n { assert(bcell(l0[i], t, 0) is Some); assert(bcell(l0[j], t, 0) is None); }
            else if i < n { assert(bcell(l0[i], t, 0) is Some); assert(bsid(rs[j - n]) == sid); if bcell(l1[j], t, 0) is Some { if mem(gg.time_range, t) { assert(!mem(g[gi].time_range, t)); } else { assert(bcell(l0[n], t, 0) is Some); assert(bsid(l0[i]) == bsid(l0[n])); } } }
            else { assert(bcell(rs[i - n], t, 0) is Some); assert(bcell(rs[j - n], t, 0) is None); }
        }
    }
    assert(fresh(l1, g, gi + 1, sid)) by {
        assert forall|i: int, q: int, t: i64| 0 <= i < l1.len() && gi + 1 <= q < g.len() && bsid(l1[i]) == sid && (#[trigger] bcell(l1[i], t, 0)) is Some implies !mem((#[trigger] g[q]).time_range, t) by {
            assert(g[gi].time_range.max_ts < g[q].time_range.min_ts);
            if i < n { assert(bcell(l0[i], t, 0) is Some); } else if !mem(gg.time_range, t) { assert(bcell(l0[n], t, 0) is Some); assert(bsid(l0[n]) == sid); }
        }
    }
    assert forall|s: u32, t: i64, c: u32| has(l0, s, t, c) implies #[trigger] has(l1, s, t, c) by {
        let i = choose|i: int| 0 <= i < l0.len() && bsid(#[trigger] l0[i]) == s && bcell(l0[i], t, c) is Some;
        if i < n { assert(l1[i] == l0[i]); assert(bsid(l1[i]) == s); } else { assert(pc(p, t, c) is Some); assert(has(rs, sid, t, c)); lemma_has_suffix(lv, rs, sid, t, c); }
    }
    assert(done_to(l1, g, gi + 1, sid, out)) by {
        assert forall|q: int, i: int, t: i64, c: u32| 0 <= q < gi + 1 && 0 <= i < g[q].blk_metas.len() && (#[trigger] olive(g[q].blk_metas@[i], t, c)) is Some && mem(out, t) implies has(l1, sid, t, c) by {
            if q < gi { assert(has(l0, sid, t, c)); } else { assert(olive(gg.blk_metas@[i], t, c) is Some); assert(has(rs, sid, t, c)); lemma_has_suffix(lv, rs, sid, t, c); }
        }
    }
    assert(covered(l1, files, out, sid as int)) by { assert forall|k: int, s: u32, cg: u64, t: i64, c: u32| 0 <= k < files.len() && s < sid && infile(files[k], s, cg) && (#[trigger] files[k].live(s, cg, t, c)) is Some && mem(out, t) implies has(l1, s, t, c) by { assert(has(l0, s, t, c)); } }
}
proof fn lemma_has_suffix(lv: Seq<CompactingBlock>, rs: Seq<CompactingBlock>, s: u32, t: i64, c: u32)
    requires has(rs, s, t, c)
    ensures has(lv + rs, s, t, c)
{ let i = choose|i: int| 0 <= i < rs.len() && bsid(#[trigger] rs[i]) == s && bcell(rs[i], t, c) is Some; assert((lv + rs)[lv.len() + i] == rs[i]); assert(bsid((lv + rs)[lv.len() + i]) == s); }
// after the last group of the series
proof fn lemma_series_done(l: Seq<CompactingBlock>, g: Seq<CompactingBlockMetaGroup>, sid: u32, files: Seq<TsmReader>, out: TimeRange, o: Option<TimeRanges>)
    requires ginv(l, g, g.len() as int, sid, files, out), groups_of(g, sid, files, o), wf(files), out_of(o, out)
    ensures covered(l, files, out, sid + 1)
{
    assert forall|k: int, s: u32, cg: u64, t: i64, c: u32| 0 <= k < files.len() && s < sid + 1 && infile(files[k], s, cg) && (#[trigger] files[k].live(s, cg, t, c)) is Some && mem(out, t) implies has(l, s, t, c) by {
        if s == sid {
            let _ = files[k]; lemma_live(files[k], sid, cg, t, c, out, o); assert(has_blk(g, k, cg));
            let b = choose|b: CompactingBlockMeta| #[trigger] held(g, b) && b.reader_idx == k && b.column_group_id == cg;
            let q = choose|q: int| 0 <= q < g.len() && (#[trigger] g[q]).blk_metas@.contains(b); let m = choose|m: int| 0 <= m < g[q].blk_metas.len() && g[q].blk_metas@[m] == b;
            assert(b.meta.sid() == sid); assert(olive(g[q].blk_metas@[m], t, c) is Some);
        }
    }
}
// the next series: nothing of it is written yet, and no series in between has anything to write
proof fn lemma_series_start(l: Seq<CompactingBlock>, s0: CompactState, s1: CompactState, g: Seq<CompactingBlockMetaGroup>, sid: u32, n: int, files: Seq<TsmReader>, out: TimeRange)
    requires next_post(s0, s1, g, Some(sid)), todo_ok(s0, files, n), s0.tsm_readers@ == files, wf(files), out_of(s0.out_time_ranges, out), sound(l, files, out), apart(l), covered(l, files, out, n), sids_to(l, n), all_blk_ok(l, out)
    ensures ginv(l, g, 0, sid, files, out), groups_of(g, sid, files, s0.out_time_ranges), todo_ok(s1, files, sid + 1), n <= sid
{
    let o = s0.out_time_ranges;
    assert(sid >= n) by { let _ = g[0]; let b = g[0].blk_metas@[0]; assert(g[0].blk_metas@.contains(b)); assert(held(g, b)); assert(has_blk(g, b.reader_idx as int, b.column_group_id)); assert(s0.todo(b.reader_idx as int, sid, b.column_group_id)); }
    assert(covered(l, files, out, sid as int)) by { assert forall|k: int, s: u32, cg: u64, t: i64, c: u32| 0 <= k < files.len() && s < sid && infile(files[k], s, cg) && (#[trigger] files[k].live(s, cg, t, c)) is Some && mem(out, t) implies has(l, s, t, c) by {
        if s >= n { let _ = files[k]; lemma_live(files[k], s, cg, t, c, out, o); assert(s0.todo(k, s, cg)); assert(s1.todo(k, s, cg)); assert(s > sid); } } }
    assert forall|i: int| 0 <= i < l.len() implies bsid(#[trigger] l[i]) < sid + 1 by { assert(bsid(l[i]) < n); }
    assert(fresh(l, g, 0, sid)) by { assert forall|i: int, q: int, t: i64| 0 <= i < l.len() && 0 <= q < g.len() && bsid(l[i]) == sid && (#[trigger] bcell(l[i], t, 0)) is Some implies !mem((#[trigger] g[q]).time_range, t) by { assert(bsid(l[i]) < n); } }
    assert forall|k: int, cg: u64| 0 <= k < files.len() && #[trigger] wanted(files[k], sid, cg, o) implies has_blk(g, k, cg) by { assert(s0.todo(k, sid, cg)); if s1.todo(k, sid, cg) { assert(sid > sid); } }
    assert forall|k: int, s: u32, cg: u64| 0 <= k < files.len() && s >= sid + 1 && #[trigger] wanted(files[k], s, cg, s1.out_time_ranges) implies s1.todo(k, s, cg) by { assert(s0.todo(k, s, cg)); }
}
proof fn lemma_end(l: Seq<CompactingBlock>, s0: CompactState, files: Seq<TsmReader>, n: int, out: TimeRange)
    requires covered(l, files, out, n), todo_ok(s0, files, n), wf(files), out_of(s0.out_time_ranges, out), forall|k: int, s: u32, cg: u64| !#[trigger] s0.todo(k, s, cg)
    ensures covered(l, files, out, 0x1_0000_0000)
{ assert forall|k: int, s: u32, cg: u64, t: i64, c: u32| 0 <= k < files.len() && infile(files[k], s, cg) && (#[trigger] files[k].live(s, cg, t, c)) is Some && mem(out, t) implies has(l, s, t, c) by { if s >= n { let _ = files[k]; lemma_live(files[k], s, cg, t, c, out, s0.out_time_ranges); assert(s0.todo(k, s, cg)); } } }
//@extract tskv/src/compaction/compact.rs compact_files
@log
@subst /None => break,/ => None => { proof { lemma_end(L00, S0, R, N0, OUT); } break; }
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::rlimit(80)]
@subst /Arc<TsmReader>/ => TsmReader
@subst /mut metrics: VnodeCompactionMetrics/ => metrics: Metrics
@subst /HashMap<ColumnFileId, Arc<BloomFilter>>/ => FileMetas
@subst /request\.version\.storage_opt\(\)\.max_datablock_size as usize/ => request.max_block()
@subst /&mut metrics,/ => &mut met,
@subst /metrics\.\w+\([a-z]*\);?/ =>
@subst /for (\w+) in merging_blk_meta_groups\.drain\(\.\.\) \{/ => let mut gi: usize = 0; while gi < merging_blk_meta_groups.len() { let \1 = take_group(&mut merging_blk_meta_groups, gi); gi += 1;
@subst /for \((\w+), (\w+)\) in merged_blks\.drain\(\.\.\)\.enumerate\(\) \{/ => let mut di: usize = 0; while di < merged_blks.len() { let \1 = di; let \2 = take_block(&mut merged_blks, di); di += 1;
@ret r
@spec
    requires out_time_range.min_ts <= out_time_range.max_ts, wf(tsm_readers@)
    ensures r is Ok ==> whole(r->Ok_0.0.content(), tsm_readers@, out_time_range)
@at start
    let mut met = metrics; let ghost R = tsm_readers@; let ghost OUT = out_time_range; let ghost mut N: int = 0;
@loop 0
    invariant_except_break todo_ok(state, R, N), covered(writer_wrapper@ + plist(previous_merged_block), R, OUT, N)
    invariant state.ok(), state.tsm_readers@ == R, wf(R), out_of(state.out_time_ranges, OUT), OUT == out_time_range, 0 <= N <= 0x1_0000_0000,
       sound(writer_wrapper@ + plist(previous_merged_block), R, OUT), apart(writer_wrapper@ + plist(previous_merged_block)), sids_to(writer_wrapper@ + plist(previous_merged_block), N), all_blk_ok(writer_wrapper@ + plist(previous_merged_block), OUT),
       previous_merged_block is Some ==> curr_sid == Some(bsid(previous_merged_block->0))
    ensures covered(writer_wrapper@ + plist(previous_merged_block), R, OUT, 0x1_0000_0000)
@at loop-start 0
    let ghost S0 = state; let ghost N0 = N; let ghost L00 = writer_wrapper@ + plist(previous_merged_block);
@at before-loop 1
    let ghost G = merging_blk_meta_groups@; let ghost O = state.out_time_ranges;
    proof { lemma_series_start(L00, S0, state, G, sid, N0, R, OUT); N = sid + 1; }
@loop 1
    invariant gi <= G.len(), merging_blk_meta_groups@ == G, state.ok(), state.tsm_readers@ == R, O == state.out_time_ranges, out_of(O, OUT), wf(R), OUT == out_time_range, N == sid + 1,
       todo_ok(state, R, N), groups_of(G, sid, R, O), forall|b: CompactingBlockMeta| #[trigger] held(G, b) ==> placed(b, state), forall|q: int| 0 <= q < G.len() ==> (#[trigger] G[q]).blk_metas.len() > 0,
       ginv(writer_wrapper@ + plist(previous_merged_block), G, gi as int, sid, R, OUT),
       previous_merged_block is Some ==> curr_sid == Some(bsid(previous_merged_block->0))
    decreases G.len() - gi
@at loop-start 1
    let ghost q0 = gi as int; let ghost ST = state; let ghost LA = writer_wrapper@ + plist(previous_merged_block);
@at before /let mut merged_blks/
    let ghost LV = writer_wrapper@; let ghost P = previous_merged_block; let ghost GG = G[q0];
    proof {
      assert(LV + plist(P) =~= LA);
      assert forall|i: int| 0 <= i < GG.blk_metas.len() implies { let b = #[trigger] GG.blk_metas@[i]; placed(b, state) && b.reader.chunks().dom().contains(sid) && b.meta == b.reader.chunks()[sid] && file_wf(b.reader) && wanted(b.reader, sid, b.column_group_id, O) } by { let b = GG.blk_metas@[i]; assert(GG.blk_metas@.contains(b)); assert(held(G, b)); let _ = R[b.reader_idx as int]; }
      assert forall|i: int| 0 <= i < GG.blk_metas.len() implies ov((#[trigger] GG.blk_metas@[i]).tr(), OUT) by { let b = GG.blk_metas@[i]; if O is Some { let k = choose|k: int| 0 <= k < O->0.ranges().len() && ov(b.cg().tr(), #[trigger] O->0.ranges()[k]); assert(O->0.ranges()[k] == OUT); } }
      if P is Some { assert(LA[LV.len() as int] == P->0); assert(blk_ok(LA[LV.len() as int], OUT)); assert forall|t: i64| (#[trigger] bcell(P->0, t, 0)) is Some implies !mem(GG.time_range, t) by { assert(bcell(LA[LV.len() as int], t, 0) is Some); } }
      assert(mergeable(GG, state.compacting_files@, OUT)) by { assert forall|i: int| 0 <= i < GG.blk_metas.len() implies { let b = #[trigger] GG.blk_metas@[i]; b.compacting_file_index < state.compacting_files.len() && out_of(state.compacting_files@[b.compacting_file_index as int].out_time_ranges, OUT) } by { let b = GG.blk_metas@[i]; assert(placed(b, state)); let _ = state.compacting_files@[b.compacting_file_index as int]; } }
    }
@at before /if merged_blks\.is_empty\(\)/
    let ghost RS = merged_blks@;
    proof {
      assert(state.compacting_files@ == ST.compacting_files@);
      assert(state.ok());
      assert forall|k: int, s: u32, cg: u64| #[trigger] state.todo(k, s, cg) == ST.todo(k, s, cg) by {}
      assert forall|b: CompactingBlockMeta| #[trigger] held(G, b) implies placed(b, state) by { assert(placed(b, ST)); }
      assert forall|k: int, s: u32, cg: u64| 0 <= k < R.len() && s >= N && #[trigger] wanted(R[k], s, cg, state.out_time_ranges) implies state.todo(k, s, cg) by { assert(ST.todo(k, s, cg)); }
      assert(todo_ok(state, R, N));
      lemma_step(LV, P, RS, G, q0, sid, R, OUT, O);
      if RS.len() == 0 { assert(LV + plist(previous_merged_block) =~= LV + RS); }
      if RS.len() == 1 { assert(plist(Some(RS[0])) =~= RS); }
    }
@loop 2
    invariant_except_break previous_merged_block is None, writer_wrapper@ == LV + RS.take(di as int)
    invariant di <= RS.len(), merged_blks@ == RS, last_blk_idx == RS.len() - 1, RS.len() > 0
    ensures writer_wrapper@ + plist(previous_merged_block) == LV + RS, previous_merged_block is Some ==> previous_merged_block->0 == RS.last()
    decreases RS.len() - di
@at loop-start 2
    let ghost d0 = di as int;
    proof { assert(RS.take(d0 + 1) =~= RS.take(d0).push(RS[d0])); assert((LV + RS.take(d0)).push(RS[d0]) =~= LV + RS.take(d0 + 1)); assert(RS.take(RS.len() as int) =~= RS); assert((LV + RS.take(d0)) + seq![RS[d0]] =~= LV + RS.take(d0 + 1)); }
@at after-loop 1
    proof { lemma_series_done(writer_wrapper@ + plist(previous_merged_block), G, sid, R, OUT, O); }
@at after-loop 0
    let ghost LF = writer_wrapper@ + plist(previous_merged_block);
@at before /let \(version_edit, file_metas\) = writer_wrapper/
    proof { assert(writer_wrapper@ =~= LF); assert(whole(LF, R, OUT)); }
@end
}
fn main() {}
