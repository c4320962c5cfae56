use vstd::prelude::*;
verus! {
global size_of usize == 8;
type Timestamp = i64; type LevelId = u32; type ColumnFileId = u64; type VnodeId = u32;
enum TskvError { Common }
type TskvResult<T> = Result<T, TskvError>;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy
@end
//@extract common/models/src/predicate/domain.rs TimeRange::all
@ret r
@spec
    ensures r.min_ts == i64::MIN, r.max_ts == i64::MAX
@end
spec fn mem(r: TimeRange, t: i64) -> bool { r.min_ts <= t && t <= r.max_ts }
// ---- the files of a version ----
//@extract tskv/src/tsfamily/version.rs struct CompactMeta
@derive Clone, Copy
@end
impl CompactMeta {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
}
//@extract tskv/src/tsfamily/version.rs CompactMeta::new_del_file_part
@subst /\.\.Default::default\(\)/ => ..CompactMeta::default()
@ret r
@spec
    ensures r.level == level, r.file_id == file_id, r.min_ts == min_ts, r.max_ts == max_ts, r.is_delta == (level == 0)
@end
#[verifier::external_body]
struct ColumnFile { x: u8 }
#[verifier::external_body]
struct Path { x: u8 }
impl Path { uninterp spec fn id(&self) -> u64; }
impl ColumnFile {
    uninterp spec fn id(&self) -> u64;
    uninterp spec fn delta(&self) -> bool;
    uninterp spec fn tr(&self) -> TimeRange;
    uninterp spec fn lv(&self) -> u32;
    #[verifier::external_body]
    fn file_id(&self) -> (r: u64) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body]
    fn size(&self) -> u64 { unimplemented!() }
    #[verifier::external_body]
    fn level(&self) -> (r: u32) ensures r == self.lv() { unimplemented!() }
    #[verifier::external_body]
    fn is_delta(&self) -> (r: bool) ensures r == self.delta() { unimplemented!() }
    #[verifier::external_body]
    fn time_range(&self) -> (r: &TimeRange) ensures *r == self.tr() { unimplemented!() }
    #[verifier::external_body]
    fn file_path(&self) -> (r: &Path) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: ColumnFile) ensures r == *self { unimplemented!() }
}
//@extract tskv/src/tsfamily/version.rs From<&ColumnFile> for CompactMeta::from
@subst /\.\.Default::default\(\)/ => ..CompactMeta::default()
@header impl CompactMeta
@ret r
@spec
    ensures r.file_id == file.id(), r.level == file.lv(), r.is_delta == file.delta(), r.min_ts == file.tr().min_ts, r.max_ts == file.tr().max_ts
@end
// times already taken out of a delta file / the set C08's add_tombstone_and_compact_to_tmp answers with
#[verifier::external_body]
struct TimeRanges { x: u8 }
impl TimeRanges {
    uninterp spec fn has(&self, t: i64) -> bool;
    #[verifier::external_body]
    fn includes(&self, tr: &TimeRange) -> (r: bool) ensures r ==> forall|t: i64| #[trigger] mem(*tr, t) ==> self.has(t) { unimplemented!() }
}
#[verifier::external_body]
struct TsmReader { x: u8 }
impl TsmReader {
    uninterp spec fn fid(&self) -> u64;
    uninterp spec fn excluded(&self, t: i64) -> bool;
    #[verifier::external_body]
    fn add_tombstone_and_compact_to_tmp(&self, tr: TimeRange) -> (r: TskvResult<TimeRanges>) ensures r is Ok ==> forall|t: i64| #[trigger] r->Ok_0.has(t) == (self.excluded(t) || mem(tr, t)) { unimplemented!() }
}
#[verifier::external_body]
struct Version { x: u8 }
impl Version {
    uninterp spec fn reader(&self, id: u64) -> TsmReader;
    #[verifier::external_body]
    fn get_tsm_reader(&self, p: &Path) -> (r: TskvResult<TsmReader>) ensures r is Ok ==> r->Ok_0 == self.reader(p.id()) { unimplemented!() }
}
#[derive(Clone, Copy)]
enum CompactTask { Normal(u32), Delta(u32), Manual(u32) }
struct IDGenerator { x: u8 }
struct Metrics { x: u8 }
//@extract tskv/src/compaction/mod.rs struct CompactReq
@subst /Arc<(\w+)>/ => \1
@end
#[verifier::external_body]
struct Content { x: u8 }
struct VersionEdit { del_files: Vec<CompactMeta>, partly_del_files: Vec<CompactMeta>, x: Content }
#[verifier::external_body]
struct FileMetas { x: u8 }
// compact_files: contract proved in job.rs - the new file holds exactly the merge of the readers, in their order, in the range
uninterp spec fn whole(e: Content, readers: Seq<TsmReader>, out: TimeRange) -> bool;
#[verifier::external_body]
fn compact_files(request: CompactReq, tsm_readers: Vec<TsmReader>, out_time_range: TimeRange, metrics: Metrics) -> (r: TskvResult<(VersionEdit, FileMetas)>)
    ensures r is Ok ==> whole(r->Ok_0.0.x, tsm_readers@, out_time_range)
{ unimplemented!() }
spec fn deltas(f: Seq<ColumnFile>) -> Seq<ColumnFile> decreases f.len() { if f.len() == 0 { seq![] } else if f.last().delta() { deltas(f.drop_last()).push(f.last()) } else { deltas(f.drop_last()) } }
spec fn first_level(f: Seq<ColumnFile>) -> Option<ColumnFile> decreases f.len() { if f.len() == 0 { None } else if first_level(f.drop_last()) is Some { first_level(f.drop_last()) } else if f.last().delta() { None } else { Some(f.last()) } }
// a delta compaction is given at most one file that is not a delta file
spec fn one_level(f: Seq<ColumnFile>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).delta() || (#[trigger] f[j]).delta() }
proof fn lemma_where(f: Seq<ColumnFile>) ensures first_level(f) is Some ==> exists|i: int| 0 <= i < f.len() && !(#[trigger] f[i]).delta() decreases f.len() { if f.len() > 0 { lemma_where(f.drop_last()); if first_level(f.drop_last()) is Some { let i = choose|i: int| 0 <= i < f.drop_last().len() && !(#[trigger] f.drop_last()[i]).delta(); assert(f[i] == f.drop_last()[i]); } else if first_level(f) is Some { assert(!f[f.len() - 1].delta()); } } }
spec fn readers_of(v: Version, f: Seq<ColumnFile>) -> Seq<TsmReader> { f.map(|i: int, x: ColumnFile| v.reader(x.id())) }
spec fn opt(o: Option<ColumnFile>) -> Seq<ColumnFile> { match o { Some(x) => seq![x], None => seq![] } }
//@extract tskv/src/compaction/mod.rs CompactReq::split_delta_and_level_files
@subst /Arc<(\w+)>/ => \1
@subst /debug_assert!\([^;]*\);/ =>
@subst /let \(mut delta_files, mut level_files\) = \(vec!\[\], Option::None\);/ => let mut delta_files: Vec<ColumnFile> = vec![]; let mut level_files: Option<ColumnFile> = None;
@ret r
@spec
    ensures r.0@ == deltas(self.files@), one_level(self.files@) ==> r.1 == first_level(self.files@)
@iter 0 it
@loop 0
    invariant delta_files@ == deltas(self.files@.take(it.index@ as int)), one_level(self.files@) ==> level_files == first_level(self.files@.take(it.index@ as int)), it.seq() == self.files@.map(|i: int, x: ColumnFile| &x)
@at loop-start 0
    proof { assert(self.files@.take(it.index@ + 1).drop_last() =~= self.files@.take(it.index@ as int)); assert(self.files@.take(it.index@ + 1).last() == *f); lemma_where(self.files@.take(it.index@ as int)); assert(self.files@[it.index@ as int] == *f); }
@at after-loop 0
    proof { assert(self.files@.take(self.files@.len() as int) =~= self.files@); }
@end
// a delta file leaves the version only when nothing of it is left outside of what was compacted now or before
spec fn gone(v: Version, f: ColumnFile, out: TimeRange) -> bool { forall|t: i64| #[trigger] mem(f.tr(), t) ==> v.reader(f.id()).excluded(t) || mem(out, t) }
spec fn cut(m: CompactMeta, f: ColumnFile, out: TimeRange) -> bool { m.level == 0 && m.file_id == f.id() && m.min_ts == out.min_ts && m.max_ts == out.max_ts }
spec fn dels(v: Version, e: Seq<CompactMeta>, fs: Seq<ColumnFile>, out: TimeRange) -> bool { forall|i: int| 0 <= i < e.len() ==> exists|j: int| 0 <= j < fs.len() && (#[trigger] e[i]).file_id == (#[trigger] fs[j]).id() && e[i].level == fs[j].lv() && (fs[j].delta() ==> gone(v, fs[j], out)) }
spec fn parts(e: Seq<CompactMeta>, fs: Seq<ColumnFile>, out: TimeRange) -> bool { forall|i: int| 0 <= i < e.len() ==> exists|j: int| 0 <= j < fs.len() && cut(#[trigger] e[i], #[trigger] fs[j], out) }
spec fn deleted(e: Seq<CompactMeta>, f: ColumnFile) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).file_id == f.id() && e[i].level == f.lv() }
spec fn parted(e: Seq<CompactMeta>, f: ColumnFile, out: TimeRange) -> bool { exists|i: int| 0 <= i < e.len() && cut(#[trigger] e[i], f, out) }
spec fn all_taken(d: Seq<CompactMeta>, p: Seq<CompactMeta>, fs: Seq<ColumnFile>, out: TimeRange) -> bool { forall|j: int| 0 <= j < fs.len() ==> deleted(d, #[trigger] fs[j]) || parted(p, fs[j], out) }
proof fn lemma_push(e: Seq<CompactMeta>, m: CompactMeta, f: ColumnFile) requires deleted(e, f) ensures deleted(e.push(m), f) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).file_id == f.id() && e[i].level == f.lv(); assert(e.push(m)[i] == e[i]); }
proof fn lemma_pushp(e: Seq<CompactMeta>, m: CompactMeta, f: ColumnFile, out: TimeRange) requires parted(e, f, out) ensures parted(e.push(m), f, out) { let i = choose|i: int| 0 <= i < e.len() && cut(#[trigger] e[i], f, out); assert(e.push(m)[i] == e[i]); }
proof fn lemma_readers(v: Version, a: Seq<ColumnFile>, x: ColumnFile) ensures readers_of(v, a.push(x)) =~= readers_of(v, a).push(v.reader(x.id())) { }
proof fn lemma_deltas(f: Seq<ColumnFile>) ensures forall|i: int| 0 <= i < deltas(f).len() ==> (#[trigger] deltas(f)[i]).delta() decreases f.len() { if f.len() > 0 { lemma_deltas(f.drop_last()); assert forall|i: int| 0 <= i < deltas(f).len() implies (#[trigger] deltas(f)[i]).delta() by { if i < deltas(f.drop_last()).len() { assert(deltas(f)[i] == deltas(f.drop_last())[i]); } } } }
proof fn lemma_level(f: Seq<ColumnFile>) ensures first_level(f) is Some ==> !first_level(f)->0.delta() decreases f.len() { if f.len() > 0 { lemma_level(f.drop_last()); } }
// one more delta file looked at
proof fn lemma_file(v: Version, d0: Seq<CompactMeta>, p0: Seq<CompactMeta>, d: Seq<CompactMeta>, p: Seq<CompactMeta>, fs: Seq<ColumnFile>, k: int, out: TimeRange, m: CompactMeta)
    requires 0 <= k < fs.len(), dels(v, d0, fs.take(k), out), parts(p0, fs.take(k), out), all_taken(d0, p0, fs.take(k), out),
       (d == d0.push(m) && p == p0 && m.file_id == fs[k].id() && m.level == fs[k].lv() && (fs[k].delta() ==> gone(v, fs[k], out))) || (d == d0 && p == p0.push(m) && cut(m, fs[k], out))
    ensures dels(v, d, fs.take(k + 1), out), parts(p, fs.take(k + 1), out), all_taken(d, p, fs.take(k + 1), out)
{
    let a = fs.take(k); let b = fs.take(k + 1); assert(b =~= a.push(fs[k])); assert(b[k] == fs[k]);
    assert forall|i: int| 0 <= i < d.len() implies exists|j: int| 0 <= j < b.len() && (#[trigger] d[i]).file_id == (#[trigger] b[j]).id() && d[i].level == b[j].lv() && (b[j].delta() ==> gone(v, b[j], out)) by {
        if i < d0.len() { assert(d[i] == d0[i]); let j = choose|j: int| 0 <= j < a.len() && d0[i].file_id == (#[trigger] a[j]).id() && d0[i].level == a[j].lv() && (a[j].delta() ==> gone(v, a[j], out)); assert(b[j] == a[j]); } else { assert(d[i] == m); assert(d[i].file_id == b[k].id()); }
    }
    assert forall|i: int| 0 <= i < p.len() implies exists|j: int| 0 <= j < b.len() && cut(#[trigger] p[i], #[trigger] b[j], out) by {
        if i < p0.len() { assert(p[i] == p0[i]); let j = choose|j: int| 0 <= j < a.len() && cut(p0[i], #[trigger] a[j], out); assert(b[j] == a[j]); } else { assert(cut(p[i], b[k], out)); }
    }
    assert forall|j: int| 0 <= j < b.len() implies deleted(d, #[trigger] b[j]) || parted(p, b[j], out) by {
        if j < k { assert(b[j] == a[j]); if deleted(d0, a[j]) { lemma_push(d0, m, a[j]); } else { lemma_pushp(p0, m, a[j], out); } }
        else if p == p0 { assert(d[d0.len() as int] == m); assert(deleted(d, b[j])); } else { assert(p[p0.len() as int] == m); assert(parted(p, b[j], out)); }
    }
}
spec fn level_first(q: CompactReq) -> Seq<ColumnFile> { opt(first_level(q.files@)) + deltas(q.files@) }
//@extract tskv/src/compaction/compact.rs run_delta_compaction_job
@log
@subst /VnodeCompactionMetrics/ => Metrics
@subst /HashMap<ColumnFileId, Arc<BloomFilter>>/ => FileMetas
@subst /let compact_task = request\.compact_task;/ =>
@subst /version_edit\.del_files\.push\(f\.as_ref\(\)\.into\(\)\)/ => version_edit.del_files.push(CompactMeta::from(&f))
@subst /CompactMeta::from\((\w+)\.as_ref\(\)\)/ => CompactMeta::from(&\1)
@subst /Vec::with_capacity\([^()]*(\(\))?\)/ => Vec::new()
@subst /for file in delta_files \{/ => let mut fi: usize = 0; while fi < delta_files.len() { let file = delta_files[fi].clone(); fi += 1;
@ret r
@spec
    requires one_level(request.files@), request.out_time_range.min_ts <= request.out_time_range.max_ts
    ensures r is Ok && deltas(request.files@).len() > 0 ==> r->Ok_0 is Some,
      r is Ok && r->Ok_0 is Some ==> { let e = (r->Ok_0->0).0; let fs = level_first(request); let out = request.out_time_range;
        // the new file is the merge of the level file, if any, and the delta files in their order
        whole(e.x, readers_of(request.version, fs), out)
        // a delta file is deleted only when all of its time was compacted now or earlier; one that is not loses the range compacted now, and no more
        && dels(request.version, e.del_files@, fs, out) && parts(e.partly_del_files@, deltas(request.files@), out) && all_taken(e.del_files@, e.partly_del_files@, fs, out)
        && (first_level(request.files@) is Some ==> deleted(e.del_files@, first_level(request.files@)->0)) }
@at after /let out_time_range = request\.out_time_range;/
    let ghost Q = request; let ghost DF = delta_files@; let ghost V = request.version; let ghost LS = opt(level_file); proof { lemma_deltas(request.files@); lemma_level(request.files@); }
@at before-loop 0
    proof { assert(tsm_readers@ =~= readers_of(V, LS + DF.take(0))); assert(DF.take(0) =~= Seq::empty()); }
@loop 0
    invariant fi <= DF.len(), delta_files@ == DF, Q == request, V == request.version, LS == opt(level_file), level_file == first_level(Q.files@), DF == deltas(Q.files@), out_time_range == Q.out_time_range,
      forall|i: int| 0 <= i < DF.len() ==> (#[trigger] DF[i]).delta(),
      tsm_readers@ == readers_of(V, LS + DF.take(fi as int)), dels(V, l0_file_metas_will_delete@, DF.take(fi as int), out_time_range), parts(l0_file_metas_will_partly_delete@, DF.take(fi as int), out_time_range), all_taken(l0_file_metas_will_delete@, l0_file_metas_will_partly_delete@, DF.take(fi as int), out_time_range)
    decreases DF.len() - fi
@at loop-start 0
    let ghost d0 = l0_file_metas_will_delete@; let ghost p0 = l0_file_metas_will_partly_delete@; let ghost k0 = fi as int;
@at loop-end 0
    proof {
      let d = l0_file_metas_will_delete@; let p = l0_file_metas_will_partly_delete@; let m = if d.len() > d0.len() { d.last() } else { p.last() };
      lemma_file(V, d0, p0, d, p, DF, k0, out_time_range, m);
      lemma_readers(V, LS + DF.take(k0), DF[k0]); assert((LS + DF.take(k0)).push(DF[k0]) =~= LS + DF.take(k0 + 1));
    }
@at before /let \(mut version_edit/
    let ghost DD = l0_file_metas_will_delete@; let ghost PP = l0_file_metas_will_partly_delete@;
    proof { assert(DF.take(DF.len() as int) =~= DF); }
@at tail
    proof {
      let e = version_edit; let fs = LS + DF; assert(fs =~= level_first(Q)); let dd = e.del_files@;
      assert forall|j: int| 0 <= j < DF.len() implies fs[j + LS.len()] == #[trigger] DF[j] by {}
      assert(LS.len() > 0 ==> dd == DD.push(dd.last()) && dd.last().file_id == LS[0].id() && dd.last().level == LS[0].lv() && fs[0] == LS[0]);
      assert forall|i: int| 0 <= i < dd.len() implies exists|j: int| 0 <= j < fs.len() && (#[trigger] dd[i]).file_id == (#[trigger] fs[j]).id() && dd[i].level == fs[j].lv() && (fs[j].delta() ==> gone(V, fs[j], out_time_range)) by {
        if i < DD.len() { assert(dd[i] == DD[i]); let j = choose|j: int| 0 <= j < DF.len() && DD[i].file_id == (#[trigger] DF[j]).id() && DD[i].level == DF[j].lv() && (DF[j].delta() ==> gone(V, DF[j], out_time_range)); assert(fs[j + LS.len()] == DF[j]); } else { assert(dd[i].file_id == fs[0].id()); }
      }
      assert forall|j: int| 0 <= j < fs.len() implies deleted(dd, #[trigger] fs[j]) || parted(PP, fs[j], out_time_range) by {
        if j < LS.len() { assert(dd[dd.len() - 1].file_id == fs[j].id()); } else { let f = DF[j - LS.len()]; assert(fs[j] == f); if deleted(DD, f) && LS.len() > 0 { lemma_push(DD, dd.last(), f); } }
      }
      if LS.len() > 0 { assert(deleted(dd, LS[0])) by { assert(dd[dd.len() - 1].file_id == LS[0].id()); } }
    }
@end
//@extract tskv/src/compaction/compact.rs run_normal_compaction_job
@log
@subst /VnodeCompactionMetrics/ => Metrics
@subst /HashMap<ColumnFileId, Arc<BloomFilter>>/ => FileMetas
@subst /let compact_task = request\.compact_task;/ =>
@subst /CompactMeta::from\((\w+)\.as_ref\(\)\)/ => CompactMeta::from(\1)
@subst /let mut tsm_readers = Vec::new\(\)/ => let mut tsm_readers: Vec<TsmReader> = Vec::new()
@ret r
@spec
    ensures r is Ok && request.files.len() > 0 ==> r->Ok_0 is Some,
      r is Ok && r->Ok_0 is Some ==> { let e = (r->Ok_0->0).0; whole(e.x, readers_of(request.version, request.files@), TimeRange { min_ts: i64::MIN, max_ts: i64::MAX })
        && e.del_files.len() == request.files.len() && forall|i: int| 0 <= i < e.del_files.len() ==> (#[trigger] e.del_files@[i]).file_id == request.files@[i].id() && e.del_files@[i].level == request.files@[i].lv() }
@at start
    let ghost Q = request;
@iter 0 it
@loop 0
    invariant Q == request, it.seq() == Q.files@.map(|i: int, x: ColumnFile| &x), tsm_readers@ == readers_of(Q.version, Q.files@.take(it.index@ as int)),
      tsm_file_metas_will_delete.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] tsm_file_metas_will_delete@[i]).file_id == Q.files@[i].id() && tsm_file_metas_will_delete@[i].level == Q.files@[i].lv()
@at loop-start 0
    proof { assert(Q.files@.take(it.index@ + 1) =~= Q.files@.take(it.index@ as int).push(*file)); lemma_readers(Q.version, Q.files@.take(it.index@ as int), *file); }
@at after-loop 0
    proof { assert(Q.files@.take(Q.files@.len() as int) =~= Q.files@); }
@end
}
fn main() {}
