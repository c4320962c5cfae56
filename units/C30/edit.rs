use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include version.inc
//@include state.inc
// ---- how edits are made ----
fn max(a: u64, b: u64) -> (r: u64) ensures r == umax(a, b) { if a > b { a } else { b } }
fn imax(a: i64, b: i64) -> (r: i64) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
#[verifier::external_body]
fn no_owner() -> Owner { unimplemented!() }
//@extract tskv/src/tsfamily/version.rs Default for VersionEdit::default
@header impl VersionEdit
@subst /String::from\(""\)/ => no_owner()
@ret r
@spec
    ensures r.seq_no == 0, r.file_id == 0, r.add_files@ =~= Seq::<CompactMeta>::empty(), r.del_files@ =~= Seq::<CompactMeta>::empty(), r.partly_del_files@ =~= Seq::<CompactMeta>::empty(), r.act_tsf is Update
@end
//@extract tskv/src/tsfamily/version.rs Default for CompactMeta::default
@header impl CompactMeta
@subst /Timestamp::MIN/ => i64::MIN
@subst /Timestamp::MAX/ => i64::MAX
@end
spec fn blank(r: VersionEdit) -> bool { r.file_id == 0 && r.add_files@ =~= Seq::<CompactMeta>::empty() && r.del_files@ =~= Seq::<CompactMeta>::empty() }
//@extract tskv/src/tsfamily/version.rs VersionEdit::new
@subst /\.\.Default::default\(\)/ => ..VersionEdit::default()
@ret r
@spec
    ensures blank(r), r.act_tsf is Update, r.tsf_id == vnode_id, r.seq_no == 0
@end
//@extract tskv/src/tsfamily/version.rs VersionEdit::new_update_vnode
@subst /\.\.Default::default\(\)/ => ..VersionEdit::default()
@subst /owner: String/ => owner: Owner
@ret r
@spec
    ensures blank(r), r.act_tsf is Update, r.tsf_id == vnode_id, r.seq_no == seq_no, r.tsf_name == owner
@end
//@extract tskv/src/tsfamily/version.rs VersionEdit::new_add_vnode
@subst /\.\.Default::default\(\)/ => ..VersionEdit::default()
@subst /owner: String/ => owner: Owner
@ret r
@spec
    ensures blank(r), r.act_tsf is Add, r.tsf_id == vnode_id, r.seq_no == seq_no, r.tsf_name == owner
@end
//@extract tskv/src/tsfamily/version.rs VersionEdit::new_del_vnode
@subst /\.\.Default::default\(\)/ => ..VersionEdit::default()
@subst /owner: String/ => owner: Owner
@ret r
@spec
    ensures blank(r), r.act_tsf is Delete, r.tsf_id == vnode_id
@end
//@extract tskv/src/tsfamily/version.rs VersionEdit::add_file
@subst /self\.file_id\.max\(/ => max(self.file_id, 
@subst /max\(self\.max_level_ts/ => imax(self.max_level_ts
@spec
    ensures final(self).add_files@ == old(self).add_files@.push(compact_meta), final(self).file_id == umax(old(self).file_id, compact_meta.file_id), final(self).del_files == old(self).del_files, final(self).seq_no == old(self).seq_no, final(self).act_tsf == old(self).act_tsf, final(self).tsf_id == old(self).tsf_id, final(self).tsf_name == old(self).tsf_name
@end
//@extract tskv/src/tsfamily/version.rs VersionEdit::del_file
@subst /\.\.Default::default\(\)/ => ..CompactMeta::default()
@spec
    ensures final(self).del_files.len() == old(self).del_files.len() + 1, forall|i: int| 0 <= i < old(self).del_files.len() ==> #[trigger] final(self).del_files@[i] == old(self).del_files@[i],
        final(self).del_files@.last().file_id == file_id, final(self).del_files@.last().level == level, final(self).add_files == old(self).add_files, final(self).file_id == old(self).file_id, final(self).seq_no == old(self).seq_no, final(self).act_tsf == old(self).act_tsf, final(self).tsf_id == old(self).tsf_id
@end
//@extract tskv/src/tsfamily/version.rs CompactMeta::new
@ret r
@spec
    ensures r.file_id == file_id, r.file_size == file_size, r.tsf_id == tsf_id, r.level == level, r.min_ts == min_ts, r.max_ts == max_ts, r.is_delta == (level == 0)
@end
// ---- the edit that stands for a whole version ----
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::file_id
@ret r
@spec
    ensures r == self.file_id
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::level
@ret r
@spec
    ensures r == self.level
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::size
@ret r
@spec
    ensures r == self.size
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::is_delta
@ret r
@spec
    ensures r == (self.level == 0)
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::time_range
@ret r
@spec
    ensures *r == self.time_range
@end
//@extract tskv/src/tsfamily/version.rs From<&ColumnFile> for CompactMeta::from
@subst /\.\.Default::default\(\)/ => ..CompactMeta::default()
@header impl CompactMeta
@ret r
@spec
    ensures r.file_id == file.file_id, r.level == file.level, r.file_size == file.size, r.is_delta == (file.level == 0), r.min_ts == file.time_range.min_ts, r.max_ts == file.time_range.max_ts
@end
//@extract tskv/src/tsfamily/version.rs Version::levels_info
@ret r
@spec
    ensures *r == self.levels_info
@end
//@extract tskv/src/tsfamily/version.rs Version::last_seq
@ret r
@spec
    ensures r == self.last_seq
@end
//@extract tskv/src/tsfamily/version.rs Version::max_level_ts
@end
struct TseriesFamily { tf_id: u32, owner: Owner, version: Version }
impl TseriesFamily {
    fn version(&self) -> (r: &Version) ensures *r == self.version { &self.version }
}
spec fn listed(a: Seq<CompactMeta>, o: Owner, v: u32, f: ColumnFile) -> bool { exists|i: int| 0 <= i < a.len() && f == file_of(#[trigger] a[i], o, v) }
// an edit that adds every file of a version, each once, stands for that version
proof fn lemma_all(m: Map<u64, ColumnFile>, e: VersionEdit, o: Owner, v: u32)
    requires fits(m, o, v), e.del_files.len() == 0, forall|f: ColumnFile| #[trigger] listed(e.add_files@, o, v, f) <==> isin(m, f),
        forall|i: int, j: int| 0 <= i < j < e.add_files.len() ==> (#[trigger] e.add_files@[i]).file_id != (#[trigger] e.add_files@[j]).file_id,
        forall|i: int| 0 <= i < e.add_files.len() ==> add_ok(#[trigger] e.add_files@[i], e.file_id, v)
    ensures applied(Map::empty(), e, o, v) =~= m, edit_ok(e, Map::empty(), v)
{
    let a = e.add_files@; let z = Map::<u64, ColumnFile>::empty();
    assert(minus(z, e.del_files@) == z); lemma_plus(z, a, o, v); let r = plus(z, a, o, v);
    assert forall|k: u64| #![auto] r.dom().contains(k) <==> m.dom().contains(k) by {
        if m.dom().contains(k) { assert(isin(m, m[k])); assert(listed(a, o, v, m[k])); let i = choose|i: int| 0 <= i < a.len() && m[k] == file_of(#[trigger] a[i], o, v); assert(named(a, k)); }
        if named(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).file_id == k; assert(listed(a, o, v, file_of(a[i], o, v))); assert(isin(m, file_of(a[i], o, v))); }
    }
    assert forall|k: u64| #![auto] r.dom().contains(k) implies r[k] == m[k] by {
        assert(named(a, k)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).file_id == k && r[k] == file_of(a[i], o, v); assert(listed(a, o, v, file_of(a[i], o, v))); assert(isin(m, file_of(a[i], o, v)));
    }
}
//@extract tskv/src/tsfamily/tseries_family.rs TseriesFamily::build_version_edit
@subst /&self/ => &self, Ghost(m): Ghost<Map<u64, ColumnFile>>
@subst /\(\*self\.owner\)\.clone\(\)/ => self.owner
@subst /(\w+)\.as_ref\(\)/ => \1
@ret r
@spec
    requires levels_are(self.version.levels_info, m, self.owner, self.tf_id)
    ensures r.act_tsf is Add, r.del_files@ =~= Seq::<CompactMeta>::empty(), applied(Map::empty(), r, self.owner, self.tf_id) == m, edit_ok(r, Map::empty(), self.tf_id), r.seq_no == self.version.last_seq, r.tsf_name == self.owner, r.tsf_id == self.tf_id, r.file_id == 0 || m.dom().contains(r.file_id)
@at start
    let ghost lv = self.version.levels_info; let ghost o = self.owner; let ghost v = self.tf_id;
@at before-loop 0
    proof { assert(!(exists|f: ColumnFile| listed(version_edit.add_files@, o, v, f))); }
@iter 0 li
@loop 0
    invariant li.seq().len() == 5, forall|i: int| 0 <= i < 5 ==> *(#[trigger] li.seq()[i]) == lv[i], levels_are(lv, m, o, v),
        version_edit.act_tsf is Add, version_edit.del_files@ =~= Seq::<CompactMeta>::empty(), version_edit.seq_no == self.version.last_seq, version_edit.tsf_name == o, version_edit.tsf_id == v, o == self.owner, v == self.tf_id, version_edit.file_id == 0 || m.dom().contains(version_edit.file_id),
        forall|f: ColumnFile| #[trigger] listed(version_edit.add_files@, o, v, f) <==> isin(m, f) && f.level < li.index@,
        forall|i: int, j: int| 0 <= i < j < version_edit.add_files.len() ==> (#[trigger] version_edit.add_files@[i]).file_id != (#[trigger] version_edit.add_files@[j]).file_id,
        forall|i: int| 0 <= i < version_edit.add_files.len() ==> add_ok(#[trigger] version_edit.add_files@[i], version_edit.file_id, v)
@at loop-start 0
    let ghost L = li.index@ as int; let ghost src = lv[L].files@;
    proof { assert(*files == lv[L]); assert(level_is(lv[L], L as u32, m, o, v)); assert(!(exists|j: int| 0 <= j < 0 && src[j] == src[j])); }
@iter 1 fi
@loop 1
    invariant 0 <= L < 5, *files == lv[L], src == lv[L].files@, level_is(lv[L], L as u32, m, o, v), fi.seq().len() == src.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] fi.seq()[i]) == src[i], fits(m, o, v),
        version_edit.act_tsf is Add, version_edit.del_files@ =~= Seq::<CompactMeta>::empty(), version_edit.seq_no == self.version.last_seq, version_edit.tsf_name == o, version_edit.tsf_id == v, o == self.owner, v == self.tf_id, version_edit.file_id == 0 || m.dom().contains(version_edit.file_id),
        forall|f: ColumnFile| #[trigger] listed(version_edit.add_files@, o, v, f) <==> (isin(m, f) && f.level < L) || at_before(src, fi.index@ as int, f),
        forall|i: int, j: int| 0 <= i < j < version_edit.add_files.len() ==> (#[trigger] version_edit.add_files@[i]).file_id != (#[trigger] version_edit.add_files@[j]).file_id,
        forall|i: int| 0 <= i < version_edit.add_files.len() ==> add_ok(#[trigger] version_edit.add_files@[i], version_edit.file_id, v)
@at loop-start 1
    let ghost ix = fi.index@ as int; let ghost a0 = version_edit.add_files@; let ghost t0 = version_edit.file_id;
    proof { assert(*file == src[ix]); assert(src.contains(src[ix])); assert(isin(m, src[ix]) && src[ix].level == L); }
@at loop-end 1
    proof { let a1 = version_edit.add_files@; let f1 = src[ix];
      assert(file_of(a1[a0.len() as int], o, v) == f1);
      assert forall|f: ColumnFile| #[trigger] listed(a1, o, v, f) <==> (isin(m, f) && f.level < L) || at_before(src, ix + 1, f) by {
        if listed(a1, o, v, f) { let i = choose|i: int| 0 <= i < a1.len() && f == file_of(#[trigger] a1[i], o, v); if i < a0.len() { assert(f == file_of(a0[i], o, v)); assert(listed(a0, o, v, f)); if at_before(src, ix, f) { let j = choose|j: int| 0 <= j < ix && #[trigger] src[j] == f; assert(src[j] == f); } } else { assert(src[ix] == f); } }
        if listed(a0, o, v, f) { let i = choose|i: int| 0 <= i < a0.len() && f == file_of(#[trigger] a0[i], o, v); assert(f == file_of(a1[i], o, v)); }
        if at_before(src, ix + 1, f) { let j = choose|j: int| 0 <= j < ix + 1 && #[trigger] src[j] == f; if j < ix { assert(at_before(src, ix, f)); } else { assert(f == file_of(a1[a0.len() as int], o, v)); } }
      }
      assert forall|i: int, j: int| 0 <= i < j < a1.len() implies (#[trigger] a1[i]).file_id != (#[trigger] a1[j]).file_id by {
        if j == a0.len() { let g = file_of(a0[i], o, v); assert(listed(a0, o, v, g)); assert(g.file_id == a0[i].file_id);
          if at_before(src, ix, g) { let q = choose|q: int| 0 <= q < ix && #[trigger] src[q] == g; assert(src[q].file_id != src[ix].file_id); } else { assert(isin(m, g) && g.level < L); if g.file_id == f1.file_id { assert(m[g.file_id] == g && m[g.file_id] == f1); } } } }
      assert forall|i: int| 0 <= i < a1.len() implies add_ok(#[trigger] a1[i], version_edit.file_id, v) by { if i < a0.len() { assert(add_ok(a0[i], t0, v)); } } }
@at after-loop 1
    proof { assert forall|f: ColumnFile| #[trigger] listed(version_edit.add_files@, o, v, f) <==> isin(m, f) && f.level < L + 1 by {
        if at_before(src, src.len() as int, f) { let j = choose|j: int| 0 <= j < src.len() && #[trigger] src[j] == f; assert(src.contains(f)); }
        if isin(m, f) && f.level == L { assert(src.contains(f)); let j = choose|j: int| 0 <= j < src.len() && src[j] == f; assert(src[j] == f); assert(at_before(src, src.len() as int, f)); } } }
@at tail
    proof { lemma_all(m, version_edit, o, v); }
@end
spec fn at_before(s: Seq<ColumnFile>, n: int, f: ColumnFile) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == f }
}
fn main() {}
