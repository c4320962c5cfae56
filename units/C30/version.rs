use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include version.inc
#[verifier::external_body]
struct IdSet { x: u8 }
impl IdSet {
    uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body]
    fn new() -> (r: IdSet) ensures r@ == Set::<u64>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: u64) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, k: &u64) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
fn five_sets() -> (r: Vec<IdSet>) ensures r.len() == 5, forall|i: int| 0 <= i < 5 ==> (#[trigger] r[i])@ == Set::<u64>::empty() { vec![IdSet::new(), IdSet::new(), IdSet::new(), IdSet::new(), IdSet::new()] }
fn five_vecs() -> (r: Vec<Vec<CompactMeta>>) ensures r.len() == 5, forall|i: int| 0 <= i < 5 ==> (#[trigger] r[i])@ =~= Seq::<CompactMeta>::empty() { vec![Vec::new(), Vec::new(), Vec::new(), Vec::new(), Vec::new()] }
// the files marked as deleted: dropping one of them removes it from the disk
#[verifier::external_body]
struct Marks { x: u8 }
impl Marks {
    uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body]
    fn mark(&mut self, f: &ColumnFile) ensures final(self)@ == old(self)@.insert(f.file_id) { unimplemented!() }
}
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::with_compact_data
@subst /path: impl AsRef<Path>/ => path: Path
@subst /path\.as_ref\(\)\.into\(\)/ => path
@subst /series_id_filter: [^\n]*\n/ =>
@subst /deleted: [^\n]*\n/ =>
@subst /compacting: [^\n]*\n/ =>
@subst /tsm_reader_cache: [^\n]*\n/ =>
@subst /series_id_filter,/ =>
@subst /tsm_reader_cache,/ =>
@ret r
@spec
    ensures r == (ColumnFile { file_id: meta.file_id, level: meta.level, time_range: TimeRange { min_ts: meta.min_ts, max_ts: meta.max_ts }, size: meta.file_size, path })
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::file_id
@ret r
@spec
    ensures r == self.file_id
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::level
@ret r
@spec
    ensures r == self.level
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::size
@ret r
@spec
    ensures r == self.size
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::is_delta
@ret r
@spec
    ensures r == (self.level == 0)
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::time_range
@ret r
@spec
    ensures *r == self.time_range
@end
impl LevelInfo {
    spec fn same(&self, o: LevelInfo) -> bool { self.level == o.level && self.owner == o.owner && self.tsf_id == o.tsf_id }
}
//@extract tskv/src/tsfamily/level_info.rs LevelInfo::init
@subst /Arc<(\w+)>/ => \1
@subst /String/ => Owner
@ret r
@spec
    ensures r.level == level, r.owner == database, r.tsf_id == tsf_id, r.files@ =~= Seq::<ColumnFile>::empty(), r.time_range == (TimeRange { min_ts: i64::MAX, max_ts: i64::MIN })
@end
//@extract tskv/src/tsfamily/level_info.rs LevelInfo::init_levels
@subst /Arc<(\w+)>/ => \1
@subst /String/ => Owner
@ret r
@spec
    ensures levels_are(r, Map::empty(), database, tsf_id), forall|n: int| 0 <= n < 5 ==> (#[trigger] r[n]).files@ =~= Seq::<ColumnFile>::empty()
@end
//@extract tskv/src/tsfamily/level_info.rs LevelInfo::sort_file_asc
@subst /self\s*\.files\s*\.sort_by\(.*?\);/ => sort_by_id(&mut self.files);
@spec
    ensures forall|f: ColumnFile| #[trigger] final(self).files@.contains(f) <==> old(self).files@.contains(f), distinct(old(self).files@) ==> distinct(final(self).files@), final(self).same(*old(self))
@end
proof fn lemma_push(s: Seq<ColumnFile>, f: ColumnFile)
    ensures forall|g: ColumnFile| #[trigger] s.push(f).contains(g) <==> s.contains(g) || g == f, distinct(s) && (forall|g: ColumnFile| #[trigger] s.contains(g) ==> g.file_id != f.file_id) ==> distinct(s.push(f))
{
    let t = s.push(f);
    assert forall|g: ColumnFile| #[trigger] t.contains(g) <==> s.contains(g) || g == f by {
        if s.contains(g) { let i = choose|i: int| 0 <= i < s.len() && s[i] == g; assert(t[i] == g); }
        if g == f { assert(t[s.len() as int] == g); }
        if t.contains(g) { let i = choose|i: int| 0 <= i < t.len() && t[i] == g; if i < s.len() { assert(s[i] == g); } }
    }
    if distinct(s) && (forall|g: ColumnFile| #[trigger] s.contains(g) ==> g.file_id != f.file_id) {
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies (#[trigger] t[i]).file_id != (#[trigger] t[j]).file_id by {
            if i < s.len() { assert(s.contains(s[i])); } if j < s.len() { assert(s.contains(s[j])); }
        }
    }
}
//@extract tskv/src/tsfamily/level_info.rs LevelInfo::push_compact_meta
@subst /series_filter: TokioRwLock<.*?>>>,/ =>
@subst /tsm_reader_cache: Weak<.*?>>>,/ =>
@subst /series_filter,/ =>
@subst /tsm_reader_cache,/ =>
@subst /Arc::new\((ColumnFile::with_compact_data\(.*?\))\)\);/ => \1);
@subst /self\.cur_size \+= compact_meta\.file_size;/ =>
@subst /self\.time_range\.(\w+) = [^;]*;/ =>
@spec
    requires compact_meta.tsf_id == old(self).tsf_id
    ensures final(self).same(*old(self)), forall|f: ColumnFile| #[trigger] final(self).files@.contains(f) <==> old(self).files@.contains(f) || f == file_of(*compact_meta, old(self).owner, old(self).tsf_id),
        distinct(old(self).files@) && (forall|g: ColumnFile| #[trigger] old(self).files@.contains(g) ==> g.file_id != compact_meta.file_id) ==> distinct(final(self).files@)
@at start
    proof { lemma_push(self.files@, file_of(*compact_meta, self.owner, self.tsf_id)); }
@end
//@extract tskv/src/tsfamily/level_info.rs LevelInfo::push_column_file
@subst /Arc<(\w+)>/ => \1
@subst /self\.cur_size \+= file\.size\(\);/ =>
@subst /self\.time_range\.(\w+) = [^;]*;/ =>
@spec
    ensures final(self).same(*old(self)), forall|f: ColumnFile| #[trigger] final(self).files@.contains(f) <==> old(self).files@.contains(f) || f == file,
        distinct(old(self).files@) && (forall|g: ColumnFile| #[trigger] old(self).files@.contains(g) ==> g.file_id != file.file_id) ==> distinct(final(self).files@)
@at start
    proof { lemma_push(self.files@, file); }
@end
spec fn spans(r: TimeRange, s: Seq<ColumnFile>, n: int) -> bool { forall|i: int| 0 <= i < n ==> r.min_ts <= (#[trigger] s[i]).time_range.min_ts && s[i].time_range.max_ts <= r.max_ts }
//@extract tskv/src/tsfamily/level_info.rs LevelInfo::update_time_range
@subst /min_ts\.min\(([^;]*)\);/ => imin(min_ts, \1);
@subst /max_ts\.max\(([^;]*)\);/ => imax(max_ts, \1);
@subst /Timestamp::MAX/ => i64::MAX
@subst /Timestamp::MIN/ => i64::MIN
@spec
    ensures final(self).same(*old(self)), final(self).files == old(self).files, spans(final(self).time_range, final(self).files@, final(self).files.len() as int)
@iter 0 it
@loop 0
    invariant it.seq().len() == self.files.len(), forall|i: int| 0 <= i < self.files.len() ==> *(#[trigger] it.seq()[i]) == self.files@[i], spans(TimeRange { min_ts, max_ts }, self.files@, it.index@ as int), *self == *old(self)
@end
fn imin(a: i64, b: i64) -> (r: i64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
fn imax(a: i64, b: i64) -> (r: i64) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
fn max(a: u64, b: u64) -> (r: u64) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
// what the levels of the new version hold after `n` of them are built
spec fn upto(a: Seq<CompactMeta>, n: int) -> Seq<CompactMeta> { a.take(n) }
spec fn by_level(all: Seq<CompactMeta>, l: int, got: Seq<CompactMeta>) -> bool {
    &&& forall|i: int| 0 <= i < got.len() ==> all.contains(#[trigger] got[i]) && got[i].level == l
    &&& forall|i: int| 0 <= i < all.len() && (#[trigger] all[i]).level == l ==> got.contains(all[i])
    &&& forall|i: int, j: int| 0 <= i < j < got.len() ==> (#[trigger] got[i]).file_id != (#[trigger] got[j]).file_id
}
spec fn dels_by(all: Seq<CompactMeta>, l: int, k: u64) -> bool { exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).level == l && all[i].file_id == k }
spec fn from_level(lf: Seq<ColumnFile>, n: int, dels: Seq<CompactMeta>, l: int, f: ColumnFile) -> bool { exists|i: int| 0 <= i < n && #[trigger] lf[i] == f && !dels_by(dels, l, f.file_id) }
spec fn from_adds(a: Seq<CompactMeta>, n: int, o: Owner, v: u32, f: ColumnFile) -> bool { exists|i: int| 0 <= i < n && f == file_of(#[trigger] a[i], o, v) }
proof fn lemma_level(m: Map<u64, ColumnFile>, e: VersionEdit, o: Owner, v: u32, l: int, old_l: LevelInfo, got: Seq<CompactMeta>, new_l: LevelInfo)
    requires fits(m, o, v), edit_ok(e, m, v), 0 <= l < 5, level_is(old_l, l as u32, m, o, v), by_level(e.add_files@, l, got), new_l.level == l, new_l.owner == o, new_l.tsf_id == v, distinct(new_l.files@),
        forall|f: ColumnFile| #[trigger] new_l.files@.contains(f) <==> from_level(old_l.files@, old_l.files.len() as int, e.del_files@, l, f) || from_adds(got, got.len() as int, o, v, f)
    ensures level_is(new_l, l as u32, applied(m, e, o, v), o, v)
{
    let r = applied(m, e, o, v); let mm = minus(m, e.del_files@);
    lemma_minus(m, e.del_files@); lemma_plus(mm, e.add_files@, o, v);
    assert forall|f: ColumnFile| #[trigger] new_l.files@.contains(f) <==> isin(r, f) && f.level == l as u32 by {
        if from_level(old_l.files@, old_l.files.len() as int, e.del_files@, l, f) {
            let i = choose|i: int| 0 <= i < old_l.files.len() && #[trigger] old_l.files@[i] == f && !dels_by(e.del_files@, l, f.file_id);
            assert(old_l.files@.contains(f)); assert(isin(m, f));
            if named(e.del_files@, f.file_id) { let j = choose|j: int| 0 <= j < e.del_files.len() && (#[trigger] e.del_files@[j]).file_id == f.file_id; assert(e.del_files@[j].level == l); assert(dels_by(e.del_files@, l, f.file_id)); }
            assert(mm.dom().contains(f.file_id));
            if named(e.add_files@, f.file_id) { let j = choose|j: int| 0 <= j < e.add_files.len() && (#[trigger] e.add_files@[j]).file_id == f.file_id; assert(false); }
        }
        if from_adds(got, got.len() as int, o, v, f) {
            let i = choose|i: int| 0 <= i < got.len() && f == file_of(#[trigger] got[i], o, v);
            assert(e.add_files@.contains(got[i])); let j = choose|j: int| 0 <= j < e.add_files.len() && e.add_files@[j] == got[i];
            assert(named(e.add_files@, f.file_id)); let k = choose|k: int| 0 <= k < e.add_files.len() && (#[trigger] e.add_files@[k]).file_id == f.file_id && r[f.file_id] == file_of(e.add_files@[k], o, v);
            assert(e.add_files@[k].file_id == e.add_files@[j].file_id); assert(k == j);
        }
        if isin(r, f) && f.level == l as u32 {
            if named(e.add_files@, f.file_id) {
                let k = choose|k: int| 0 <= k < e.add_files.len() && (#[trigger] e.add_files@[k]).file_id == f.file_id && r[f.file_id] == file_of(e.add_files@[k], o, v);
                assert(e.add_files@[k].level == l); assert(got.contains(e.add_files@[k]));
                let i = choose|i: int| 0 <= i < got.len() && got[i] == e.add_files@[k]; assert(f == file_of(got[i], o, v));
            } else {
                assert(mm.dom().contains(f.file_id)); assert(isin(m, f)); assert(old_l.files@.contains(f));
                let i = choose|i: int| 0 <= i < old_l.files.len() && old_l.files@[i] == f;
                if dels_by(e.del_files@, l, f.file_id) { let j = choose|j: int| 0 <= j < e.del_files.len() && (#[trigger] e.del_files@[j]).level == l && e.del_files@[j].file_id == f.file_id; assert(named(e.del_files@, f.file_id)); }
                assert(from_level(old_l.files@, old_l.files.len() as int, e.del_files@, l, f));
            }
        }
    }
}
proof fn lemma_take(s: Seq<CompactMeta>, n: int) requires 0 <= n < s.len()
    ensures s.take(n + 1).len() == n + 1, forall|i: int| 0 <= i < n ==> #[trigger] s.take(n + 1)[i] == s.take(n)[i], s.take(n + 1)[n] == s[n], s.take(n + 1) =~= s.take(n).push(s[n]) {}
proof fn lemma_by_level(s: Seq<CompactMeta>, n: int, l: int, got: Seq<CompactMeta>, g2: Seq<CompactMeta>)
    requires 0 <= n < s.len(), by_level(s.take(n), l, got), g2 == (if s[n].level == l { got.push(s[n]) } else { got }), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).file_id != (#[trigger] s[j]).file_id
    ensures by_level(s.take(n + 1), l, g2)
{
    lemma_take(s, n); let t = s.take(n + 1);
    assert forall|i: int| 0 <= i < g2.len() implies t.contains(#[trigger] g2[i]) && g2[i].level == l by {
        if i < got.len() { assert(s.take(n).contains(got[i])); let j = choose|j: int| 0 <= j < n && s.take(n)[j] == got[i]; assert(t[j] == got[i]); } else { assert(t[n] == s[n]); } }
    assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).level == l implies g2.contains(t[i]) by {
        if i < n { assert(s.take(n)[i] == t[i]); assert(got.contains(t[i])); let j = choose|j: int| 0 <= j < got.len() && got[j] == t[i]; assert(g2[j] == t[i]); } else { assert(g2[got.len() as int] == s[n]); } }
    assert forall|i: int, j: int| 0 <= i < j < g2.len() implies (#[trigger] g2[i]).file_id != (#[trigger] g2[j]).file_id by {
        if j == got.len() { assert(s.take(n).contains(got[i])); let k = choose|k: int| 0 <= k < n && s.take(n)[k] == got[i]; assert(s[k] == got[i]); } }
}
proof fn lemma_dels(s: Seq<CompactMeta>, n: int, l: int, k: u64) requires 0 <= n < s.len()
    ensures dels_by(s.take(n + 1), l, k) <==> dels_by(s.take(n), l, k) || (s[n].level == l && s[n].file_id == k)
{
    lemma_take(s, n); let t = s.take(n + 1);
    if dels_by(t, l, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).level == l && t[i].file_id == k; if i < n { assert(s.take(n)[i].level == l); } }
    if dels_by(s.take(n), l, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]).level == l && s.take(n)[i].file_id == k; assert(t[i].level == l); }
    if s[n].level == l && s[n].file_id == k { assert(t[n].level == l); }
}
//@extract tskv/src/tsfamily/version.rs Version::copy_apply_version_edits
@subst /&self,/ => &self, Ghost(m): Ghost<Map<u64, ColumnFile>>,
@subst /file_metas: &mut HashMap<.*?>>,/ => marks: &mut Marks,
@subst /let mut added_files[^;]*; 5\];/ => let mut added_files = five_vecs();
@subst /let mut deleted_files[^;]*; 5\];/ => let mut deleted_files = five_sets();
@subst /ve\.add_files\.into_iter\(\)\.for_each\(\|f\| \{(.*?)\}\);/ => for f in ve.add_files {\1}
@subst /ve\.del_files\.into_iter\(\)\.for_each\(\|f\| \{(.*?)\}\);/ => for f in ve.del_files {\1}
@subst /let weak_tsm_reader_cache = [^;]*;/ =>
@subst /let series_filter = .*?\}\);/ =>
@subst /RwLock::new\(Some\(series_filter\)\),/ =>
@subst /weak_tsm_reader_cache\.clone\(\),/ =>
@subst /tsm_reader_cache: [^\n]*\n/ =>
@subst /file\.mark_deleted\(\);\s*continue;\s*\}\s*([^;]*;)/ => marks.mark(file); } else { \1 }
@ret r
@spec
    requires levels_are(self.levels_info, m, self.owner, self.ts_family_id), edit_ok(ve, m, self.ts_family_id)
    ensures levels_are(r.levels_info, applied(m, ve, self.owner, self.ts_family_id), self.owner, self.ts_family_id), r.owner == self.owner, r.ts_family_id == self.ts_family_id, r.storage_opt == self.storage_opt,
        r.last_seq == if self.last_seq > ve.seq_no { self.last_seq } else { ve.seq_no },
        forall|k: u64| #[trigger] final(marks)@.contains(k) ==> old(marks)@.contains(k) || named(ve.del_files@, k)
@iter 0 it
@loop 0
    invariant it.seq() == adds, added_files.len() == 5, edit_ok(ve0, m, self.ts_family_id), adds == ve0.add_files@, ve.del_files == ve0.del_files, ve.seq_no == ve0.seq_no,
        forall|l: int| 0 <= l < 5 ==> by_level(adds.take(it.index@ as int), l, #[trigger] added_files@[l]@)
@at loop-start 0
    let ghost af0 = added_files@; let ghost ix = it.index@ as int;
    proof { assert(f == adds[ix]); assert(add_ok(adds[ix], ve0.file_id, self.ts_family_id)); }
@at loop-end 0
    proof { assert forall|l: int| 0 <= l < 5 implies by_level(adds.take(ix + 1), l, #[trigger] added_files@[l]@) by { lemma_by_level(adds, ix, l, af0[l]@, added_files@[l]@); } }
@iter 1 it
@loop 1
    invariant it.seq() == dels, deleted_files.len() == 5, edit_ok(ve0, m, self.ts_family_id), dels == ve0.del_files@, ve.seq_no == ve0.seq_no,
        forall|l: int, k: u64| 0 <= l < 5 ==> (#[trigger] deleted_files@[l]@.contains(k) <==> dels_by(dels.take(it.index@ as int), l, k))
@at loop-start 1
    let ghost df0 = deleted_files@; let ghost ix = it.index@ as int;
    proof { assert(f == dels[ix]); assert(dels[ix].level < 5); }
@at loop-end 1
    proof { assert forall|l: int, k: u64| 0 <= l < 5 implies (#[trigger] deleted_files@[l]@.contains(k) <==> dels_by(dels.take(ix + 1), l, k)) by { lemma_dels(dels, ix, l, k); assert(df0[l]@.contains(k) <==> dels_by(dels.take(ix), l, k)); } }
@at start
    let ghost ve0 = ve; let ghost adds = ve.add_files@; let ghost dels = ve.del_files@; let ghost vn = self.ts_family_id; let ghost ow = self.owner; let ghost done = applied(m, ve, ow, vn); let ghost m0 = marks@;
    proof { lemma_applied(m, ve, ow, vn); assert(adds.take(0) =~= Seq::empty()); assert(dels.take(0) =~= Seq::empty());
      assert(adds.take(adds.len() as int) =~= adds); assert(dels.take(dels.len() as int) =~= dels);
      assert(forall|l: int| by_level(Seq::empty(), l, Seq::empty())); assert(forall|l: int, k: u64| !dels_by(Seq::empty(), l, k)); }
@iter 2 li
@loop 2
    invariant li.seq().len() == 5, forall|i: int| 0 <= i < 5 ==> *(#[trigger] li.seq()[i]) == self.levels_info[i], fits(m, ow, vn), levels_are(self.levels_info, m, ow, vn), edit_ok(ve0, m, vn), adds == ve0.add_files@, dels == ve0.del_files@, added_files.len() == 5, deleted_files.len() == 5, done == applied(m, ve0, ow, vn), vn == self.ts_family_id, ow == self.owner,
        forall|l: int| 0 <= l < 5 ==> by_level(adds, l, #[trigger] added_files@[l]@),
        forall|l: int, k: u64| 0 <= l < 5 ==> (#[trigger] deleted_files@[l]@.contains(k) <==> dels_by(dels, l, k)),
        forall|n: int| 0 <= n < li.index@ ==> level_is(#[trigger] new_levels[n], n as u32, done, ow, vn),
        forall|n: int| li.index@ <= n < 5 ==> (#[trigger] new_levels[n]).files@ =~= Seq::<ColumnFile>::empty() && new_levels[n].level == n && new_levels[n].owner == ow && new_levels[n].tsf_id == vn,
        forall|k: u64| #[trigger] marks@.contains(k) ==> m0.contains(k) || named(dels, k)
@at loop-start 2
    let ghost L = li.index@ as int; let ghost nl0 = new_levels; let ghost src = self.levels_info[L].files@;
    proof { assert(level_is(self.levels_info[L], L as u32, m, ow, vn)); assert(*level == self.levels_info[L]); assert(by_level(adds, L, added_files@[L]@)); }
@iter 3 fi
@loop 3
    invariant 0 <= L < 5, level.level == L, level.files@ == src, level_is(self.levels_info[L], L as u32, m, ow, vn), src == self.levels_info[L].files@, fi.seq().len() == src.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] fi.seq()[i]) == src[i], added_files.len() == 5, deleted_files.len() == 5,
        forall|l: int, k: u64| 0 <= l < 5 ==> (#[trigger] deleted_files@[l]@.contains(k) <==> dels_by(dels, l, k)),
        forall|n: int| 0 <= n < 5 && n != L ==> #[trigger] new_levels[n] == nl0[n],
        new_levels[L].same(nl0[L]), distinct(new_levels[L].files@),
        forall|f: ColumnFile| #[trigger] new_levels[L].files@.contains(f) <==> from_level(src, fi.index@ as int, dels, L, f),
        forall|k: u64| #[trigger] marks@.contains(k) ==> m0.contains(k) || named(dels, k)
@at loop-start 3
    let ghost ix = fi.index@ as int; let ghost nf0 = new_levels[L].files@;
    proof { assert(*file == src[ix]); assert(src.contains(src[ix])); assert(file.level == L);
      assert(deleted_files@[L]@.contains(file.file_id) <==> dels_by(dels, L, file.file_id));
      if dels_by(dels, L, file.file_id) { let j = choose|j: int| 0 <= j < dels.len() && (#[trigger] dels[j]).level == L && dels[j].file_id == file.file_id; assert(named(dels, file.file_id)); }
      assert forall|f: ColumnFile| #[trigger] from_level(src, ix + 1, dels, L, f) <==> from_level(src, ix, dels, L, f) || (f == src[ix] && !dels_by(dels, L, f.file_id)) by {
        if from_level(src, ix + 1, dels, L, f) { let i = choose|i: int| 0 <= i < ix + 1 && #[trigger] src[i] == f && !dels_by(dels, L, f.file_id); assert(src[i] == f); }
        if f == src[ix] && !dels_by(dels, L, f.file_id) { assert(src[ix] == f); } }
      assert forall|g: ColumnFile| #[trigger] nf0.contains(g) implies g.file_id != src[ix].file_id by { let i = choose|i: int| 0 <= i < ix && #[trigger] src[i] == g && !dels_by(dels, L, g.file_id); } }
@at after-loop 3
    proof { assert forall|f: ColumnFile| #[trigger] from_level(src, src.len() as int, dels, L, f) implies isin(minus(m, dels), f) by {
        let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == f && !dels_by(dels, L, f.file_id); assert(src.contains(f)); assert(isin(m, f) && f.level == L as u32); lemma_minus(m, dels);
        if named(dels, f.file_id) { let j = choose|j: int| 0 <= j < dels.len() && (#[trigger] dels[j]).file_id == f.file_id; assert(dels[j].level == L); assert(dels_by(dels, L, f.file_id)); }
        assert(minus(m, dels).dom().contains(f.file_id)); assert(minus(m, dels)[f.file_id] == m[f.file_id]); } }
@iter 4 ai
@loop 4
    invariant 0 <= L < 5, level.level == L, added_files.len() == 5, ai.seq().len() == added_files@[L].len(), forall|i: int| 0 <= i < added_files@[L].len() ==> *(#[trigger] ai.seq()[i]) == added_files@[L]@[i],
        by_level(adds, L, added_files@[L]@), adds == ve0.add_files@, dels == ve0.del_files@, edit_ok(ve0, m, vn),
        forall|f: ColumnFile| #[trigger] from_level(src, src.len() as int, dels, L, f) ==> isin(minus(m, dels), f),
        forall|n: int| 0 <= n < 5 && n != L ==> #[trigger] new_levels[n] == nl0[n],
        new_levels[L].same(nl0[L]), nl0[L].owner == ow, nl0[L].tsf_id == vn, distinct(new_levels[L].files@),
        forall|f: ColumnFile| #[trigger] new_levels[L].files@.contains(f) <==> from_level(src, src.len() as int, dels, L, f) || from_adds(added_files@[L]@, ai.index@ as int, ow, vn, f)
@at loop-start 4
    let ghost ix = ai.index@ as int; let ghost nf0 = new_levels[L].files@; let ghost got = added_files@[L]@;
    proof { assert(*file == got[ix]); assert(adds.contains(got[ix])); let aj = choose|j: int| 0 <= j < adds.len() && adds[j] == got[ix]; assert(add_ok(adds[aj], ve0.file_id, vn));
      assert forall|f: ColumnFile| #[trigger] from_adds(got, ix + 1, ow, vn, f) <==> from_adds(got, ix, ow, vn, f) || f == file_of(got[ix], ow, vn) by {
        if from_adds(got, ix + 1, ow, vn, f) { let i = choose|i: int| 0 <= i < ix + 1 && f == file_of(#[trigger] got[i], ow, vn); assert(got[i] == got[i]); }
        if f == file_of(got[ix], ow, vn) { assert(got[ix] == got[ix]); } }
      assert forall|g: ColumnFile| #[trigger] nf0.contains(g) implies g.file_id != got[ix].file_id by {
        if from_adds(got, ix, ow, vn, g) { let i = choose|i: int| 0 <= i < ix && g == file_of(#[trigger] got[i], ow, vn); assert(got[i].file_id != got[ix].file_id); }
        else { assert(isin(minus(m, dels), g)); assert(!minus(m, dels).dom().contains(adds[aj].file_id)); } } }
@at after-loop 4
    proof { assert(new_levels[L].level == L); lemma_level(m, ve0, ow, vn, L, self.levels_info[L], added_files@[L]@, new_levels[L]); }
@end
//@extract tskv/src/tsfamily/version.rs Version::update_max_level_ts
@subst /Timestamp::MIN/ => i64::MIN
@subst /max_ts = ([^;]*)\.max\(max_ts\);/ => max_ts = imax(\1, max_ts);
@subst /if self\.levels_info\.is_empty\(\) \{\s*return;\s*\}/ =>
@subst /if level\.files\.is_empty\(\) \{\s*continue;\s*\}/ =>
@subst /(let mut max_ts)/ => let ghost v0 = *self; \1
@spec
    ensures final(self).levels_info == old(self).levels_info, final(self).last_seq == old(self).last_seq, final(self).owner == old(self).owner, final(self).ts_family_id == old(self).ts_family_id, final(self).storage_opt == old(self).storage_opt
@loop 0
    invariant *self == v0
@loop 1
    invariant *self == v0
@end
}
fn main() {}
