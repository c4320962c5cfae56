type Timestamp = i64; type LevelId = u32; type ColumnFileId = u64; type VnodeId = u32;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Clone, Copy
@end
//@extract common/models/src/predicate/domain.rs TimeRange::new
@ret r
@spec
    ensures r == (TimeRange { min_ts, max_ts })
@end
//@extract tskv/src/tsfamily/version.rs enum VnodeAction
@derive Clone, Copy, PartialEq, Eq, Structural
@end
//@extract tskv/src/tsfamily/version.rs struct CompactMeta
@derive Clone, Copy
@end
//@extract tskv/src/tsfamily/version.rs struct VersionEdit
@subst /tsf_name: String/ => tsf_name: Owner
@end
// ---- where a file of a vnode lies: its own path per owner, vnode, kind and id ----
#[verifier::external_body]
#[derive(Clone, Copy)]
struct Owner { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
struct Path { x: u8 }
#[derive(Clone, Copy)]
struct Dir { d: u64, delta: bool }
uninterp spec fn path_of(d: Dir, id: u64) -> Path;
uninterp spec fn dir_of(o: Owner, v: u32, delta: bool) -> Dir;
#[verifier::external_body]
fn make_delta_file(d: Dir, id: u64) -> (r: Path) ensures r == path_of(d, id) { unimplemented!() }
#[verifier::external_body]
fn make_tsm_file(d: Dir, id: u64) -> (r: Path) ensures r == path_of(d, id) { unimplemented!() }
#[derive(Clone, Copy)]
struct StorageOptions { max_summary_size: u64 }
uninterp spec fn top_dir(o: Owner, v: u32) -> Dir;
impl StorageOptions {
    #[verifier::external_body]
    fn delta_dir(&self, o: &Owner, v: u32) -> (r: Dir) ensures r == dir_of(*o, v, true) { unimplemented!() }
    #[verifier::external_body]
    fn tsm_dir(&self, o: &Owner, v: u32) -> (r: Dir) ensures r == dir_of(*o, v, false) { unimplemented!() }
    #[verifier::external_body]
    fn ts_family_dir(&self, o: &Owner, v: u32) -> (r: Dir) ensures r == top_dir(*o, v) { unimplemented!() }
    #[verifier::external_body]
    fn level_max_file_size(&self, l: u32) -> u64 { unimplemented!() }
}
//@extract tskv/src/tsfamily/column_file.rs struct ColumnFile
@derive Clone, Copy
@subst /series_id_filter: [^\n]*\n/ =>
@subst /deleted: [^\n]*\n/ =>
@subst /compacting: [^\n]*\n/ =>
@subst /tsm_reader_cache: [^\n]*\n/ =>
@subst /PathBuf/ => Path
@end
//@extract tskv/src/tsfamily/level_info.rs struct LevelInfo
@subst /Arc<(\w+)>/ => \1
@subst /String/ => Owner
@derive Clone
@end
//@extract tskv/src/tsfamily/version.rs struct Version
@subst /Arc<(String|StorageOptions)>/ => \1
@subst /String/ => Owner
@subst /tsm_reader_cache: [^\n]*\n/ =>
@end
// ---- the files of a version, as a map from id ----
spec fn file_of(m: CompactMeta, o: Owner, v: u32) -> ColumnFile {
    ColumnFile { file_id: m.file_id, level: m.level, time_range: TimeRange { min_ts: m.min_ts, max_ts: m.max_ts }, size: m.file_size, path: path_of(dir_of(o, v, m.is_delta), m.file_id) }
}
spec fn distinct(s: Seq<ColumnFile>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).file_id != (#[trigger] s[j]).file_id }
spec fn isin(m: Map<u64, ColumnFile>, f: ColumnFile) -> bool { m.dom().contains(f.file_id) && m[f.file_id] == f }
// level l holds each file of m that belongs to it, once, and nothing else
spec fn level_is(l: LevelInfo, n: u32, m: Map<u64, ColumnFile>, o: Owner, v: u32) -> bool {
    l.level == n && l.owner == o && l.tsf_id == v && distinct(l.files@)
    && (forall|f: ColumnFile| #[trigger] l.files@.contains(f) <==> isin(m, f) && f.level == n)
}
spec fn levels_are(l: [LevelInfo; 5], m: Map<u64, ColumnFile>, o: Owner, v: u32) -> bool {
    (forall|n: int| 0 <= n < 5 ==> level_is(#[trigger] l[n], n as u32, m, o, v)) && fits(m, o, v)
}
spec fn fits(m: Map<u64, ColumnFile>, o: Owner, v: u32) -> bool { forall|k: u64| m.dom().contains(k) ==> (#[trigger] m[k]).file_id == k && m[k].level < 5 && m[k].path == path_of(dir_of(o, v, m[k].level == 0), k) }
spec fn below(m: Map<u64, ColumnFile>, n: u64) -> bool { forall|k: u64| #[trigger] m.dom().contains(k) ==> k <= n }
// ---- what a sequence of edits means ----
spec fn minus(m: Map<u64, ColumnFile>, d: Seq<CompactMeta>) -> Map<u64, ColumnFile> decreases d.len() { if d.len() == 0 { m } else { minus(m, d.drop_last()).remove(d.last().file_id) } }
spec fn plus(m: Map<u64, ColumnFile>, a: Seq<CompactMeta>, o: Owner, v: u32) -> Map<u64, ColumnFile> decreases a.len() { if a.len() == 0 { m } else { plus(m, a.drop_last(), o, v).insert(a.last().file_id, file_of(a.last(), o, v)) } }
spec fn applied(m: Map<u64, ColumnFile>, e: VersionEdit, o: Owner, v: u32) -> Map<u64, ColumnFile> { plus(minus(m, e.del_files@), e.add_files@, o, v) }
// an edit as flush and compaction make them: a deleted file is named with the level it is on, an added
// one has an id that is not in use
spec fn edit_ok(e: VersionEdit, m: Map<u64, ColumnFile>, v: u32) -> bool {
    &&& forall|i: int| 0 <= i < e.add_files.len() ==> add_ok(#[trigger] e.add_files@[i], e.file_id, v)
    &&& forall|i: int| 0 <= i < e.add_files.len() ==> !minus(m, e.del_files@).dom().contains((#[trigger] e.add_files@[i]).file_id)
    &&& forall|i: int, j: int| 0 <= i < j < e.add_files.len() ==> (#[trigger] e.add_files@[i]).file_id != (#[trigger] e.add_files@[j]).file_id
    &&& forall|i: int| 0 <= i < e.del_files.len() ==> (#[trigger] e.del_files@[i]).level < 5 && (m.dom().contains(e.del_files@[i].file_id) ==> m[e.del_files@[i].file_id].level == e.del_files@[i].level)
}
spec fn add_ok(m: CompactMeta, top: u64, v: u32) -> bool { m.level < 5 && m.is_delta == (m.level == 0) && m.tsf_id == v && m.file_id <= top }
proof fn lemma_minus(m: Map<u64, ColumnFile>, d: Seq<CompactMeta>)
    ensures forall|k: u64| #[trigger] minus(m, d).dom().contains(k) <==> m.dom().contains(k) && !named(d, k), forall|k: u64| #[trigger] minus(m, d).dom().contains(k) ==> minus(m, d)[k] == m[k]
    decreases d.len()
{
    if d.len() > 0 { lemma_minus(m, d.drop_last()); let b = minus(m, d.drop_last()); assert(minus(m, d) == b.remove(d.last().file_id));
        assert forall|k: u64| #![trigger named(d, k)] named(d, k) <==> named(d.drop_last(), k) || d.last().file_id == k by {
            if named(d, k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).file_id == k; if i < d.len() - 1 { assert(d.drop_last()[i].file_id == k); } }
            if named(d.drop_last(), k) { let i = choose|i: int| 0 <= i < d.len() - 1 && (#[trigger] d.drop_last()[i]).file_id == k; assert(d[i].file_id == k); }
            if d.last().file_id == k { assert(d[d.len() - 1].file_id == k); }
        } }
}
spec fn named(d: Seq<CompactMeta>, k: u64) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).file_id == k }
// the last add with this id wins
proof fn lemma_plus(m: Map<u64, ColumnFile>, a: Seq<CompactMeta>, o: Owner, v: u32)
    ensures forall|k: u64| #[trigger] plus(m, a, o, v).dom().contains(k) <==> m.dom().contains(k) || named(a, k),
        forall|k: u64| !named(a, k) && #[trigger] m.dom().contains(k) ==> plus(m, a, o, v)[k] == m[k],
        forall|k: u64| #[trigger] named(a, k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).file_id == k && plus(m, a, o, v)[k] == file_of(a[i], o, v)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); lemma_plus(m, b, o, v);
        assert forall|k: u64| #![trigger named(a, k)] named(a, k) <==> named(b, k) || a.last().file_id == k by {
            if named(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).file_id == k; if i < a.len() - 1 { assert(b[i].file_id == k); } }
            if named(b, k) { let i = choose|i: int| 0 <= i < a.len() - 1 && (#[trigger] b[i]).file_id == k; assert(a[i].file_id == k); }
            if a.last().file_id == k { assert(a[a.len() - 1].file_id == k); }
        }
        assert forall|k: u64| #[trigger] named(a, k) implies exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).file_id == k && plus(m, a, o, v)[k] == file_of(a[i], o, v) by {
            if a.last().file_id == k { assert(a[a.len() - 1].file_id == k); }
            else { assert(named(b, k)); let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).file_id == k && plus(m, b, o, v)[k] == file_of(b[i], o, v); assert(a[i].file_id == k); }
        }
    }
}
proof fn lemma_applied(m: Map<u64, ColumnFile>, e: VersionEdit, o: Owner, v: u32)
    requires fits(m, o, v), edit_ok(e, m, v)
    ensures fits(applied(m, e, o, v), o, v), forall|n: u64| n >= e.file_id && #[trigger] below(m, n) ==> below(applied(m, e, o, v), n)
{
    lemma_minus(m, e.del_files@); lemma_plus(minus(m, e.del_files@), e.add_files@, o, v);
    let r = applied(m, e, o, v);
    assert forall|k: u64| r.dom().contains(k) implies (#[trigger] r[k]).file_id == k && r[k].level < 5 && r[k].path == path_of(dir_of(o, v, r[k].level == 0), k) by {
        if named(e.add_files@, k) { let i = choose|i: int| 0 <= i < e.add_files.len() && (#[trigger] e.add_files@[i]).file_id == k && r[k] == file_of(e.add_files@[i], o, v); assert(add_ok(e.add_files@[i], e.file_id, v)); } else { assert(minus(m, e.del_files@).dom().contains(k)); }
    }
    assert forall|n: u64, k: u64| n >= e.file_id && #[trigger] below(m, n) && #[trigger] r.dom().contains(k) implies k <= n by {
        if named(e.add_files@, k) { let i = choose|i: int| 0 <= i < e.add_files.len() && (#[trigger] e.add_files@[i]).file_id == k; assert(add_ok(e.add_files@[i], e.file_id, v)); }
    }
}
// ---- std collections ----
#[verifier::external_body]
fn sort_by_id(v: &mut Vec<ColumnFile>)
    ensures forall|f: ColumnFile| #[trigger] final(v)@.contains(f) <==> old(v)@.contains(f), distinct(old(v)@) ==> distinct(final(v)@), final(v).len() == old(v).len() { unimplemented!() }
