use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include version.inc
//@include state.inc
enum TskvError { Eof, RecordFileHashCheckFailed { x: u8 }, RecordFileInvalidDataSize { x: u8 }, FileSystemError { source: u8 }, Io }
spec fn broken(e: TskvError) -> bool { e is RecordFileInvalidDataSize || e is RecordFileHashCheckFailed }
type TskvResult<T> = Result<T, TskvError>;
fn max(a: u64, b: u64) -> (r: u64) ensures r == umax(a, b) { if a > b { a } else { b } }
fn imax(a: i64, b: i64) -> (r: i64) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
// ---- what version.rs and edit.rs prove ----
impl LevelInfo {
    spec fn same(&self, o: LevelInfo) -> bool { self.level == o.level && self.owner == o.owner && self.tsf_id == o.tsf_id }
    #[verifier::external_body]
    fn init_levels(database: Owner, tsf_id: u32, storage_opt: StorageOptions) -> (r: [LevelInfo; 5]) ensures levels_are(r, Map::empty(), database, tsf_id), forall|n: int| 0 <= n < 5 ==> (#[trigger] r[n]).files@ =~= Seq::<ColumnFile>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_compact_meta(&mut self, compact_meta: &CompactMeta)
        requires compact_meta.tsf_id == old(self).tsf_id
        ensures final(self).same(*old(self)), forall|f: ColumnFile| #[trigger] final(self).files@.contains(f) <==> old(self).files@.contains(f) || f == file_of(*compact_meta, old(self).owner, old(self).tsf_id),
            distinct(old(self).files@) && (forall|g: ColumnFile| #[trigger] old(self).files@.contains(g) ==> g.file_id != compact_meta.file_id) ==> distinct(final(self).files@) { unimplemented!() }
}
impl Version {
    // a file marked here is removed from the disk once nobody reads the old version: the manifest must no longer name it
    #[verifier::external_body]
    fn copy_apply_version_edits(&self, Ghost(m): Ghost<Map<u64, ColumnFile>>, Ghost(disk): Ghost<Seq<Seq<u8>>>, ve: VersionEdit, marks: &mut Marks) -> (r: Version)
        requires levels_are(self.levels_info, m, self.owner, self.ts_family_id), edit_ok(ve, m, self.ts_family_id), state(disk, self.owner, self.ts_family_id).m == applied(m, ve, self.owner, self.ts_family_id)
        ensures levels_are(r.levels_info, applied(m, ve, self.owner, self.ts_family_id), self.owner, self.ts_family_id), r.owner == self.owner, r.ts_family_id == self.ts_family_id, r.storage_opt == self.storage_opt,
            r.last_seq == if self.last_seq > ve.seq_no { self.last_seq } else { ve.seq_no } { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Version) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn unmark_compacting_files(&self, s: &IdSet) { unimplemented!() }
}
#[verifier::external_body]
struct Marks { x: u8 }
//@extract tskv/src/tsfamily/version.rs Version::new
@subst /Arc<(String|StorageOptions)>/ => \1
@subst /String/ => Owner
@subst /tsm_reader_cache: [^\n]*\n/ =>
@subst /tsm_reader_cache,/ =>
@ret r
@spec
    ensures r.ts_family_id == ts_family_id, r.owner == owner, r.last_seq == last_seq, r.levels_info == levels_info, r.storage_opt == storage_opt
@end
impl VersionEdit {
    #[verifier::external_body]
    fn encode(&self) -> (r: TskvResult<Vec<u8>>) ensures r is Ok ==> dec(r->Ok_0@) is Some && like(dec(r->Ok_0@)->0, *self) { unimplemented!() }
    #[verifier::external_body]
    fn decode(buf: &Vec<u8>) -> (r: TskvResult<VersionEdit>) ensures r is Ok ==> dec(buf@) == Some(r->Ok_0), r is Err ==> !broken(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: VersionEdit) ensures r == *self { unimplemented!() }
}
impl CompactMeta {
    #[verifier::external_body]
    fn file_path(&self, s: &StorageOptions, o: Owner, v: u32) -> Path { unimplemented!() }
}
// ---- std collections, the id generator ----
#[verifier::external_body]
struct IdSet { x: u8 }
impl IdSet {
    #[verifier::external_body]
    fn new() -> IdSet { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: u64) { unimplemented!() }
}
#[verifier::external_body]
struct Files { x: u8 }
spec fn keyed(m: Map<u64, CompactMeta>) -> bool { forall|k: u64| m.dom().contains(k) ==> (#[trigger] m[k]).file_id == k }
impl Files {
    uninterp spec fn view(&self) -> Map<u64, CompactMeta>;
    #[verifier::external_body]
    fn new() -> (r: Files) ensures r@ == Map::<u64, CompactMeta>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: u64, m: CompactMeta) ensures final(self)@ == old(self)@.insert(k, m) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &u64) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    fn into_values(self) -> (r: Vec<CompactMeta>)
        requires keyed(self@)
        ensures forall|i: int| 0 <= i < r.len() ==> self@.dom().contains((#[trigger] r@[i]).file_id) && self@[r@[i].file_id] == r@[i], forall|k: u64| #[trigger] self@.dom().contains(k) ==> r@.contains(self@[k]),
            forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r@[i]).file_id != (#[trigger] r@[j]).file_id { unimplemented!() }
}
struct IDGenerator { next: u64 }
impl IDGenerator {
    #[verifier::external_body]
    fn new(v: u64) -> (r: IDGenerator) ensures r.next == v { unimplemented!() }
    #[verifier::external_body]
    fn set(&mut self, v: u64) ensures final(self).next == v { unimplemented!() }
    #[verifier::external_body]
    fn next_id(&mut self) -> (r: u64) ensures r == old(self).next, final(self).next == (if old(self).next == u64::MAX { 0 } else { (old(self).next + 1) as u64 }) { unimplemented!() }
}
// ---- the disk ----
uninterp spec fn is_tmp(p: Path) -> bool;
uninterp spec fn summary_of(d: Dir) -> Path;
#[verifier::external_body]
fn make_tsfamily_summary_file(d: Dir) -> (r: Path) ensures r == summary_of(d) { unimplemented!() }
#[verifier::external_body]
fn make_summary_file_tmp(d: Dir) -> (r: Path) ensures is_tmp(r) { unimplemented!() }
#[verifier::external_body]
struct Fs { x: u8 }
spec fn through(a: Fs, b: Fs) -> bool { forall|d: Disk| #[trigger] b.seen(d) ==> a.seen(d) || d == a@ || d == b@ }
impl Fs {
    uninterp spec fn view(&self) -> Disk;
    uninterp spec fn seen(&self, d: Disk) -> bool;
    #[verifier::external_body]
    fn remove_if_exists(&mut self, p: &Path) -> (r: TskvResult<()>) ensures through(*old(self), *final(self)), r is Ok ==> final(self)@ == old(self)@.remove(*p), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn rename(&mut self, a: Path, b: &Path) -> (r: TskvResult<()>) ensures through(*old(self), *final(self)), r is Ok ==> old(self)@.dom().contains(a) && final(self)@ == old(self)@.remove(a).insert(*b, old(self)@[a]), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
}
#[verifier::external_body]
struct Reader { x: u8 }
struct Rec { data: Vec<u8> }
impl Reader {
    uninterp spec fn left(&self) -> nat;
    uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn open(p: Path, fs: &Fs) -> (r: TskvResult<Reader>) ensures r is Ok ==> fs@.dom().contains(p) && r->Ok_0.rest() == fs@[p], r is Err ==> !broken(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    fn read_record(&mut self) -> (r: TskvResult<Rec>)
        ensures r is Ok ==> old(self).rest().len() > 0 && r->Ok_0.data@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            // what C25 proves: broken records are reported, those behind them are still found
            r is Err && r->Err_0 is Eof ==> old(self).rest().len() == 0, r is Err && broken(r->Err_0) ==> final(self).rest() == old(self).rest() && final(self).left() < old(self).left() { unimplemented!() }
}
#[verifier::external_body]
struct Writer { x: u8 }
const SUMMARY_BUFFER_SIZE: usize = 1024 * 1024;
impl Writer {
    uninterp spec fn at(&self) -> Path;
    // everything written, flushed or not
    uninterp spec fn recs(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn path(&self) -> (r: &Path) ensures *r == self.at() { unimplemented!() }
    #[verifier::external_body]
    fn file_size(&self) -> u64 { unimplemented!() }
    // an existing file is appended to
    #[verifier::external_body]
    fn open(p: &Path, size: usize, fs: &mut Fs) -> (r: TskvResult<Writer>)
        ensures through(*old(fs), *final(fs)), final(fs)@ == old(fs)@ || final(fs)@ == old(fs)@.insert(*p, if old(fs)@.dom().contains(*p) { old(fs)@[*p] } else { Seq::empty() }),
            r is Ok ==> r->Ok_0.at() == *p && final(fs)@.dom().contains(*p) && r->Ok_0.recs() == final(fs)@[*p] { unimplemented!() }
    #[verifier::external_body]
    fn write_record(&mut self, buf: &Vec<u8>, fs: &mut Fs) -> (r: TskvResult<usize>)
        ensures through(*old(fs), *final(fs)), final(fs)@ == old(fs)@ || final(fs)@ == old(fs)@.insert(old(self).at(), old(self).recs()) || final(fs)@ == old(fs)@.insert(old(self).at(), old(self).recs().push(buf@)),
            final(self).at() == old(self).at(), r is Ok ==> final(self).recs() == old(self).recs().push(buf@) { unimplemented!() }
    #[verifier::external_body]
    fn sync(&mut self, fs: &mut Fs) -> (r: TskvResult<()>)
        ensures through(*old(fs), *final(fs)), final(fs)@ == old(fs)@ || final(fs)@ == old(fs)@.insert(old(self).at(), old(self).recs()), final(self).at() == old(self).at(),
            r is Ok ==> *final(self) == *old(self) && final(fs)@ == old(fs)@.insert(old(self).at(), old(self).recs()) { unimplemented!() }
}
// a panic stops the process: as a crash
#[verifier::external_body]
fn or_crash(w: TskvResult<Writer>) -> (r: Writer) ensures w is Ok, r == w->Ok_0 { unimplemented!() }
// ---- the rest of the node ----
struct Runtime { x: u8 }
impl Runtime { #[verifier::external_body] fn clone(&self) -> Runtime { unimplemented!() } }
struct Options { storage: StorageOptions }
struct Ctx { options: Options, runtime: Runtime }
struct DatabaseSchema { o: Owner }
impl DatabaseSchema { fn owner(&self) -> (r: Owner) ensures r == self.o { self.o } }
#[verifier::external_body]
struct Caches { x: u8 }
struct TseriesFamily { tf_id: u32, owner: Owner, version: Version }
impl TseriesFamily {
    fn version(&self) -> (r: &Version) ensures *r == self.version { &self.version }
    fn tf_id(&self) -> u32 { self.tf_id }
    fn owner(&self) -> Owner { self.owner }
    #[verifier::external_body]
    fn new_version(&mut self, v: Version, c: &Option<Caches>) ensures final(self).version == v, final(self).tf_id == old(self).tf_id, final(self).owner == old(self).owner { unimplemented!() }
    #[verifier::external_body]
    fn build_version_edit(&self, Ghost(m): Ghost<Map<u64, ColumnFile>>) -> (r: VersionEdit)
        requires levels_are(self.version.levels_info, m, self.owner, self.tf_id)
        ensures r.act_tsf is Add, r.del_files@ =~= Seq::<CompactMeta>::empty(), applied(Map::empty(), r, self.owner, self.tf_id) == m, edit_ok(r, Map::empty(), self.tf_id), r.seq_no == self.version.last_seq, r.tsf_name == self.owner, r.tsf_id == self.tf_id, r.file_id == 0 || m.dom().contains(r.file_id) { unimplemented!() }
}
#[verifier::external_body]
fn install_tombstones_for_tsm_readers(r: Runtime, p: Vec<Path>, v: Version) { unimplemented!() }
struct SummaryRequest { version_edit: VersionEdit, ts_family: TseriesFamily, mem_caches: Option<Caches> }
struct Summary { ctx: Ctx, tsf_id: u32, writer: Writer, file_id: IDGenerator }
impl Summary {
    // the writer continues the manifest: what it has written is what is on the disk
    spec fn inv(&self, fs: Fs) -> bool { fs@.dom().contains(self.writer.at()) && self.writer.recs() == fs@[self.writer.at()] && !is_tmp(self.writer.at()) }
}
// ---- lemmas ----
proof fn lemma_push(c: Seq<Seq<u8>>, b: Seq<u8>) ensures edits(c.push(b)) =~= edits(c).push(dec(b)->0) {}
proof fn lemma_like(m: Map<u64, ColumnFile>, a: VersionEdit, b: VersionEdit, o: Owner, v: u32) requires like(a, b) ensures applied(m, a, o, v) == applied(m, b, o, v), edit_ok(a, m, v) == edit_ok(b, m, v) {}
proof fn lemma_append(c: Seq<Seq<u8>>, b: Seq<u8>, ve: VersionEdit, o: Owner, v: u32)
    requires sound(c, o, v), dec(b) is Some, like(dec(b)->0, ve), ve.file_id < u64::MAX, ve.act_tsf is Update ==> edit_ok(ve, state(c, o, v).m, v), ve.act_tsf is Add ==> edit_ok(ve, Map::empty(), v), !(ve.act_tsf is Delete)
    ensures sound(c.push(b), o, v), state(c.push(b), o, v) == next(if ve.act_tsf is Add { st0() } else { state(c, o, v) }, ve, o, v), tail(edits(c.push(b))).len() > 0
{
    lemma_push(c, b); let e = dec(b)->0; let c2 = c.push(b); let es = edits(c2); let t = tail(edits(c));
    assert(es.last() == e); assert(es.drop_last() =~= edits(c));
    assert forall|i: int| 0 <= i < c2.len() implies dec(#[trigger] c2[i]) is Some by { if i < c.len() { assert(c2[i] == c[i]); } }
    if ve.act_tsf is Add {
        let q = seq![e]; assert(tail(es) == q); assert(q.drop_last() =~= Seq::empty()); assert(q.last() == e); reveal_with_fuel(fold, 2); reveal_with_fuel(chain_ok, 2);
        lemma_like(Map::empty(), e, ve, o, v); assert(fold(q, o, v) == next(st0(), e, o, v));
    } else {
        assert(tail(es) == t.push(e)); assert(t.push(e).drop_last() =~= t); assert(t.push(e).last() == e); lemma_like(fold(t, o, v).m, e, ve, o, v);
        assert(fold(t.push(e), o, v) == next(fold(t, o, v), e, o, v));
    }
}
//@extract tskv/src/tsfamily/summary.rs Summary::new
@subst /summary_file: impl AsRef<std::path::Path>/ => summary_file: Path, fs: &mut Fs
@subst /Arc<TsKvContext>/ => Ctx
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /Writer::open\((\w+), (\w+)\)/ => Writer::open(&\1, \2, fs)
@subst /writer\.sync\(\)/ => writer.sync(fs)
@ret r
@spec
    requires !is_tmp(summary_file)
    ensures r is Ok ==> r->Ok_0.inv(*final(fs)) && r->Ok_0.writer.at() == summary_file && r->Ok_0.tsf_id == tsf_id,
        final(fs)@.dom().contains(summary_file) ==> final(fs)@[summary_file] == (if old(fs)@.dom().contains(summary_file) { old(fs)@[summary_file] } else { Seq::empty() })
@end
spec fn rel(f: Map<u64, CompactMeta>, m: Map<u64, ColumnFile>, o: Owner, v: u32) -> bool {
    keyed(f) && (forall|k: u64| #[trigger] f.dom().contains(k) <==> m.dom().contains(k)) && (forall|k: u64| #[trigger] f.dom().contains(k) ==> m[k] == file_of(f[k], o, v) && f[k].tsf_id == v && f[k].level < 5)
}
spec fn upto(vs: Seq<CompactMeta>, n: int, o: Owner, v: u32, l: int, f: ColumnFile) -> bool { exists|i: int| 0 <= i < n && (#[trigger] vs[i]).level == l && f == file_of(vs[i], o, v) }
proof fn lemma_tail_step(es: Seq<VersionEdit>, n: int)
    requires 0 <= n < es.len()
    ensures tail(es.take(n + 1)) == if es[n].act_tsf is Add { seq![es[n]] } else if es[n].act_tsf is Delete { Seq::empty() } else { tail(es.take(n)).push(es[n]) }
{ let a = es.take(n + 1); assert(a.last() == es[n]); assert(a.drop_last() =~= es.take(n)); }
//@extract tskv/src/tsfamily/summary.rs Summary::recover
@subst /&self,/ => &mut self, fs: &Fs,
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /file_utils::/ =>
@subst /\.ts_family_dir\(&db_schema\.owner\(\),/ => .ts_family_dir(&db_schema.o,
@subst /Box::new\(Reader::open\((\w+)\)\?\)/ => Reader::open(\1, fs)?
@subst /ed\.act_tsf == VnodeAction::(\w+)/ => matches!(ed.act_tsf, VnodeAction::\1)
@subst /HashMap<u64, CompactMeta> = HashMap::new\(\)/ => Files = Files::new()
@subst /max\(max_level_ts,/ => imax(max_level_ts,
@subst /Arc::new\(db_schema\.owner\(\)\)/ => db_schema.owner()
@subst /let tsm_reader_cache = .*?\)\);/ =>
@subst /let weak_tsm_reader_cache = [^;]*;/ =>
@subst /RwLock::new\(None\),/ =>
@subst /weak_tsm_reader_cache\.clone\(\),/ =>
@subst /tsm_reader_cache,/ =>
@subst /let mut tsf_edits = vec!\[\];/ => let mut tsf_edits: Vec<VersionEdit> = Vec::new();
@ret r
@spec
    requires fs@.dom().contains(summary_of(top_dir(db_schema.o, old(self).tsf_id))) ==> sound(fs@[summary_of(top_dir(db_schema.o, old(self).tsf_id))], db_schema.o, old(self).tsf_id)
    ensures final(self).writer == old(self).writer, final(self).tsf_id == old(self).tsf_id,
        // a record torn by a crash does not keep a vnode from coming up
        r is Err ==> !broken(r->Err_0),
        r matches Ok(w) ==> ({ let c = fs@[summary_of(top_dir(db_schema.o, old(self).tsf_id))]; let s = state(c, db_schema.o, old(self).tsf_id);
            (w is None <==> tail(edits(c)).len() == 0) && (w matches Some(x) ==> levels_are(x.levels_info, s.m, db_schema.o, old(self).tsf_id) && x.last_seq == s.seq && x.owner == db_schema.o && x.ts_family_id == old(self).tsf_id && final(self).file_id.next == s.top + 1 && below(s.m, s.top)) })
@at start
    let ghost o = db_schema.o; let ghost v = self.tsf_id; let ghost c = fs@[summary_of(top_dir(db_schema.o, self.tsf_id))]; let ghost es = edits(c); let ghost mut n: int = 0; let ghost w0 = self.writer;
@loop 0
    invariant_except_break
        0 <= n <= c.len(), reader.rest() == c.skip(n), tsf_edits@ == tail(es.take(n))
    invariant es == edits(c), readable(c), *self == *old(self), v == old(self).tsf_id
    ensures tsf_edits@ == tail(es)
    decreases reader.rest().len(), reader.left()
@at loop-start 0
    let ghost rest0 = reader.rest();
    proof { if rest0.len() == 0 { assert(n == c.len()); assert(es.take(n) =~= es); } }
@at before /if matches!\(ed\.act_tsf/
    proof { assert(rest0[0] == c[n]); assert(ed == es[n]); lemma_tail_step(es, n); n = n + 1; assert(rest0.skip(1) =~= c.skip(n)); assert(seq![ed] =~= seq![es[n - 1]]); }
@at before-loop 1
    let ghost t = tsf_edits@;
    proof { lemma_chain(t, o, v); assert(t.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == t, chain_ok(t, o, v), max_seq_no == fold(t.take(it.index@ as int), o, v).seq, max_file_id == fold(t.take(it.index@ as int), o, v).top, rel(files@, fold(t.take(it.index@ as int), o, v).m, o, v), *self == *old(self), v == old(self).tsf_id
@at loop-start 1
    let ghost ix = it.index@ as int; let ghost s = fold(t.take(ix), o, v); let ghost adds = e.add_files@; let ghost dels = e.del_files@;
    proof { assert(e == t[ix]); lemma_chain_take(t, ix + 1, o, v); assert(t.take(ix + 1).drop_last() =~= t.take(ix)); assert(t.take(ix + 1).last() == t[ix]); assert(edit_ok(e, s.m, v)); lemma_chain_take(t, ix, o, v); lemma_chain(t.take(ix), o, v);
      assert(dels.take(0) =~= Seq::empty()); assert(adds.take(0) =~= Seq::empty()); assert(dels.take(dels.len() as int) =~= dels); assert(adds.take(adds.len() as int) =~= adds); }
@iter 2 di
@loop 2
    invariant di.seq() == dels, rel(files@, minus(s.m, dels.take(di.index@ as int)), o, v), e.add_files@ == adds, *self == *old(self), v == old(self).tsf_id
@at loop-start 2
    let ghost dx = di.index@ as int;
    proof { let a = dels.take(dx + 1); assert(a.drop_last() =~= dels.take(dx)); assert(a.last() == dels[dx]); assert(m == dels[dx]); }
@iter 3 ai
@loop 3
    invariant ai.seq() == adds, rel(files@, plus(minus(s.m, dels), adds.take(ai.index@ as int), o, v), o, v), edit_ok(t[ix], s.m, v), adds == t[ix].add_files@, *self == *old(self), v == old(self).tsf_id
@at loop-start 3
    let ghost ax = ai.index@ as int;
    proof { let a = adds.take(ax + 1); assert(a.drop_last() =~= adds.take(ax)); assert(a.last() == adds[ax]); assert(m == adds[ax]); assert(add_ok(adds[ax], t[ix].file_id, v)); }
@at after-loop 1
    proof { assert(t.take(t.len() as int) =~= t); }
@at before-loop 4
    let ghost fin = fold(t, o, v).m; let ghost fm = files@;
    let vals = files.into_values(); let ghost vs = vals@;
    proof { assert(forall|l: int, f: ColumnFile| !upto(vs, 0, o, v, l, f)); }
@subst /in files\.into_values\(\)/ => in vals
@iter 4 vi
@loop 4
    invariant vi.seq() == vs, rel(fm, fin, o, v), forall|i: int| 0 <= i < vs.len() ==> fm.dom().contains((#[trigger] vs[i]).file_id) && fm[vs[i].file_id] == vs[i], forall|i: int, j: int| 0 <= i < j < vs.len() ==> (#[trigger] vs[i]).file_id != (#[trigger] vs[j]).file_id,
        forall|n: int| 0 <= n < 5 ==> (#[trigger] levels[n]).level == n && levels[n].owner == o && levels[n].tsf_id == v && distinct(levels[n].files@),
        forall|n: int, f: ColumnFile| 0 <= n < 5 ==> (#[trigger] levels[n].files@.contains(f) <==> upto(vs, vi.index@ as int, o, v, n, f))
@at loop-start 4
    let ghost vx = vi.index@ as int; let ghost l0 = levels;
    proof { assert(meta == vs[vx]); let l = meta.level as int; assert(l < 5);
      assert forall|g: ColumnFile| #[trigger] levels[l].files@.contains(g) implies g.file_id != meta.file_id by { assert(upto(vs, vx, o, v, l, g)); let i = choose|i: int| 0 <= i < vx && (#[trigger] vs[i]).level == l && g == file_of(vs[i], o, v); assert(vs[i].file_id != vs[vx].file_id); }
      assert forall|n: int, f: ColumnFile| #[trigger] upto(vs, vx + 1, o, v, n, f) <==> upto(vs, vx, o, v, n, f) || (meta.level == n && f == file_of(meta, o, v)) by {
        if upto(vs, vx + 1, o, v, n, f) { let i = choose|i: int| 0 <= i < vx + 1 && (#[trigger] vs[i]).level == n && f == file_of(vs[i], o, v); assert(vs[i].level == n); }
        if meta.level == n && f == file_of(meta, o, v) { assert(vs[vx].level == n); } } }
@at loop-end 4
    proof { assert forall|n: int| 0 <= n < 5 implies (#[trigger] levels[n]).level == n && levels[n].owner == o && levels[n].tsf_id == v && distinct(levels[n].files@) by { if n != meta.level { assert(levels[n] == l0[n]); } }
      assert forall|n: int, f: ColumnFile| 0 <= n < 5 implies (#[trigger] levels[n].files@.contains(f) <==> upto(vs, vx + 1, o, v, n, f)) by { if n != meta.level { assert(levels[n] == l0[n]); } else { assert(l0[n].files@.contains(f) <==> upto(vs, vx, o, v, n, f)); } } }
@at after-loop 4
    proof { assert forall|n: int| 0 <= n < 5 implies level_is(#[trigger] levels[n], n as u32, fin, o, v) by {
        assert forall|f: ColumnFile| #[trigger] levels[n].files@.contains(f) <==> isin(fin, f) && f.level == n as u32 by {
            if upto(vs, vs.len() as int, o, v, n, f) { let i = choose|i: int| 0 <= i < vs.len() && (#[trigger] vs[i]).level == n && f == file_of(vs[i], o, v); assert(fm.dom().contains(vs[i].file_id)); }
            if isin(fin, f) && f.level == n as u32 { assert(fm.dom().contains(f.file_id)); assert(vs.contains(fm[f.file_id])); let i = choose|i: int| 0 <= i < vs.len() && vs[i] == fm[f.file_id]; assert(vs[i].level == n); }
        } } }
@end
//@extract tskv/src/tsfamily/summary.rs Summary::write_version_edit
@opt
@subst /writer: &mut Writer,/ => writer: &mut Writer, fs: &mut Fs,
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /\.write_record\(\s*RecordDataVersion::V1\.into\(\),\s*RecordDataType::Summary\.into\(\),\s*&\[&buf\],\s*\)/ => .write_record(&buf, fs)
@subst /\.sync\(\)/ => .sync(fs)
@subst /let _ = / =>
@ret r
@spec
    requires old(fs)@.dom().contains(old(writer).at()) && old(writer).recs() == old(fs)@[old(writer).at()]
    ensures r is Ok ==> wrote(*old(writer), *final(writer), *old(fs), *final(fs), *ve), final(writer).at() == old(writer).at(), passed(*old(writer), *old(fs), *final(fs), *ve)
@at start
    let ghost p = writer.at(); let ghost c0 = writer.recs(); let ghost f0 = fs@; proof { assert(fs@.insert(p, c0) =~= fs@); }
@at tail
    proof { assert(dec(buf@) is Some && like(dec(buf@)->0, *ve)); let fin = f0.insert(p, c0.push(buf@)); assert(fs@.insert(p, writer.recs()) =~= fin);
      assert(fs@ == f0 || fs@ =~= fin); }
@end
// the record is on the disk, after those that were there
spec fn wrote(w0: Writer, w1: Writer, f0: Fs, f1: Fs, ve: VersionEdit) -> bool { exists|b: Seq<u8>| #![trigger dec(b)] appended(w0, w1, f0, f1, ve, b) }
spec fn appended(w0: Writer, w1: Writer, f0: Fs, f1: Fs, ve: VersionEdit, b: Seq<u8>) -> bool { dec(b) is Some && like(dec(b)->0, ve) && w1.recs() == w0.recs().push(b) && f1@ == f0@.insert(w0.at(), w0.recs().push(b)) }
// whatever happened, the disk is as before or has the record appended; the same for every state on the way
spec fn either(p: Path, c: Seq<Seq<u8>>, f0: Fs, d: Disk, ve: VersionEdit) -> bool { d == f0@ || exists|b: Seq<u8>| dec(b) is Some && like(dec(b)->0, ve) && d == #[trigger] f0@.insert(p, c.push(b)) }
spec fn passed(w0: Writer, f0: Fs, f1: Fs, ve: VersionEdit) -> bool { either(w0.at(), w0.recs(), f0, f1@, ve) && forall|d: Disk| #[trigger] f1.seen(d) ==> f0.seen(d) || either(w0.at(), w0.recs(), f0, d, ve) }
//@extract tskv/src/tsfamily/summary.rs Summary::write_record
@subst /&mut self,/ => &mut self, fs: &mut Fs,
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /write_version_edit\(&mut self\.writer,/ => write_version_edit(&mut self.writer, fs,
@ret r
@spec
    requires old(fs)@.dom().contains(old(self).writer.at()) && old(self).writer.recs() == old(fs)@[old(self).writer.at()]
    ensures r is Ok ==> wrote(old(self).writer, final(self).writer, *old(fs), *final(fs), *ve), final(self).writer.at() == old(self).writer.at(), passed(old(self).writer, *old(fs), *final(fs), *ve),
        final(self).file_id == old(self).file_id, final(self).tsf_id == old(self).tsf_id, final(self).ctx == old(self).ctx
@end
// the manifest holds nothing but this edit
spec fn only(c: Seq<Seq<u8>>, ve: VersionEdit) -> bool { c.len() == 1 && dec(c[0]) is Some && like(dec(c[0])->0, ve) }
//@extract tskv/src/tsfamily/summary.rs Summary::rewrite_summary_file
@subst /&mut self,/ => &mut self, fs: &mut Fs,
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /file_utils::/ =>
@subst /LocalFileSystem::/ => fs.
@subst /\s*\.map_err\([^;?]*\)\?/ => ?
@subst /\.context\(\w+\)\?/ => ?
@subst /std::fs::rename/ => fs.rename
@subst /trace::info!\(.*?\);/ =>
@subst /&self\.writer\.path\(\)\.clone\(\)/ => &*self.writer.path()
@subst /let summary_file = &\*self\.writer\.path\(\);/ => let summary_path = *self.writer.path(); let summary_file = &summary_path;
@subst /Writer::open\((&?\w+), (\w+)\)\s*\.unwrap\(\)/ => or_crash(Writer::open(\1, \2, fs))
@subst /Writer::open\((&?\w+), (\w+)\)\?/ => Writer::open(\1, \2, fs)?
@subst /write_version_edit\((&mut [\w.]+),/ => write_version_edit(\1, fs,
@subst /self\.write_record\(/ => self.write_record(fs, 
@ret r
@spec
    requires old(self).inv(*old(fs)), ve.act_tsf is Add
    ensures ({ let p = old(self).writer.at(); &&& final(fs)@.dom().contains(p) && (final(fs)@[p] == old(fs)@[p] || only(final(fs)@[p], *ve))
        &&& forall|d: Disk| #[trigger] final(fs).seen(d) ==> old(fs).seen(d) || (d.dom().contains(p) && (d[p] == old(fs)@[p] || only(d[p], *ve)))
        &&& final(self).inv(*final(fs)) && final(self).writer.at() == p
        &&& r is Ok ==> only(final(fs)@[p], *ve) }),
        final(self).file_id == old(self).file_id, final(self).tsf_id == old(self).tsf_id
@at start
    let ghost pp = self.writer.at();
@end
proof fn lemma_only(c: Seq<Seq<u8>>, ve: VersionEdit, o: Owner, v: u32)
    requires only(c, ve), ve.act_tsf is Add, edit_ok(ve, Map::empty(), v), ve.file_id < u64::MAX
    ensures sound(c, o, v), state(c, o, v) == next(st0(), ve, o, v), tail(edits(c)).len() > 0
{
    let z = Seq::<Seq<u8>>::empty(); assert(c =~= z.push(c[0])); assert(edits(z) =~= Seq::empty()); assert(sound(z, o, v)); lemma_append(z, c[0], ve, o, v);
}
// before the edit a vnode-add starts from nothing
spec fn base(s: St, e: VersionEdit) -> St { if e.act_tsf is Add { st0() } else { s } }
// what a restart comes up with: the files and the sequence number of s, and ids that do not go below lo
spec fn comes_up(c: Seq<Seq<u8>>, s: St, lo: u64, o: Owner, v: u32) -> bool { sound(c, o, v) && state(c, o, v).m == s.m && state(c, o, v).seq == s.seq && state(c, o, v).top + 1 >= lo && tail(edits(c)).len() > 0 }
spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
//@extract tskv/src/tsfamily/summary.rs Summary::apply_version_edit
@subst /&mut self, request: &SummaryRequest/ => &mut self, fs: &mut Fs, marks: &mut Marks, request: &mut SummaryRequest
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /trace::info!\(.*?\);/ =>
@subst /let mut file_metas = .*?\}\s*(?=let)/ =>
@subst /Vec<PathBuf>/ => Vec<Path>
@subst /HashSet<ColumnFileId> = HashSet::new\(\)/ => IdSet = IdSet::new()
@subst /\.(?:read|write)\(\)/ =>
@subst /\.owner\(\)\.clone\(\)\.as_str\(\)/ => .owner()
@subst /\.copy_apply_version_edits\((.*?), &mut file_metas\)/ => .copy_apply_version_edits(Ghost(m0), Ghost(fs@[p]), \1, marks)
@subst /Arc::new\(new_version\)/ => new_version
@subst /let _ = install/ => install
@subst /partly_deleted_file_paths\.clone\(\)/ => partly_deleted_file_paths
@subst /request\.mem_caches\.as_ref\(\)/ => &request.mem_caches
@subst /self\.write_record\(/ => self.write_record(fs, 
@subst /self\.rewrite_summary_file\(/ => self.rewrite_summary_file(fs, 
@subst /\.build_version_edit\(\)/ => .build_version_edit(Ghost(s1.m))
@ret r
@spec
    requires old(self).inv(*old(fs)), old(self).file_id.next < u64::MAX - 1,
        ({ let e = old(request).version_edit; let t = old(request).ts_family; let o = t.owner; let v = t.tf_id; let c = old(fs)@[old(self).writer.at()]; let s = state(c, o, v);
           &&& sound(c, o, v) && t.version.owner == o && t.version.ts_family_id == v
           &&& levels_are(t.version.levels_info, base(s, e).m, o, v) && edit_ok(e, base(s, e).m, v) && e.file_id < u64::MAX && !(e.act_tsf is Delete)
           &&& e.act_tsf is Update ==> t.version.last_seq == s.seq && tail(edits(c)).len() > 0
           &&& e.act_tsf is Add ==> t.version.last_seq <= e.seq_no })
    ensures ({ let e = old(request).version_edit; let t0 = old(request).ts_family; let t = final(request).ts_family; let o = t0.owner; let v = t0.tf_id; let p = old(self).writer.at(); let c = old(fs)@[p]; let s = state(c, o, v); let s1 = next(base(s, e), e, o, v); let lo = min(s1.top + 1, old(self).file_id.next as int) as u64;
           // every state of the disk on the way, so any a crash leaves: a restart comes up with the version before the edit or after it
           &&& forall|d: Disk| #[trigger] final(fs).seen(d) ==> old(fs).seen(d) || (d.dom().contains(p) && (d[p] == c || comes_up(d[p], s1, lo, o, v)))
           &&& final(self).writer.at() == p && final(fs)@.dom().contains(p) && (final(fs)@[p] == c || comes_up(final(fs)@[p], s1, lo, o, v))
           // whether or not it failed: the live version is the one before the edit, or the one a restart comes up with, and the next edit continues that manifest
           &&& t.version == t0.version || (levels_are(t.version.levels_info, s1.m, o, v) && t.version.last_seq == s1.seq && comes_up(final(fs)@[p], s1, lo, o, v) && final(self).inv(*final(fs)))
           &&& r is Ok ==> levels_are(t.version.levels_info, s1.m, o, v) && t.version.last_seq == s1.seq && comes_up(final(fs)@[p], s1, lo, o, v) && final(self).inv(*final(fs)) })
@at start
    let ghost e = request.version_edit; let ghost o = request.ts_family.owner; let ghost v = request.ts_family.tf_id; let ghost p = self.writer.at(); let ghost c = fs@[p]; let ghost s = state(c, o, v); let ghost m0 = base(s, e).m; let ghost s1 = next(base(s, e), e, o, v); let ghost lo = min(s1.top + 1, self.file_id.next as int) as u64; let ghost g0 = self.file_id.next;
    proof { assert forall|b: Seq<u8>| dec(b) is Some && #[trigger] like(dec(b)->0, e) implies comes_up(c.push(b), s1, lo, o, v) by { lemma_append(c, b, e, o, v); }
      assert forall|d: Disk| #[trigger] either(p, c, *fs, d, e) implies d.dom().contains(p) && (d[p] == c || comes_up(d[p], s1, lo, o, v)) by { if d != fs@ { let b = choose|b: Seq<u8>| dec(b) is Some && like(dec(b)->0, e) && d == #[trigger] fs@.insert(p, c.push(b)); assert(d[p] == c.push(b)); } } }
@at after /self\.write_record\([^;]*;/
    proof { assert(comes_up(fs@[p], s1, lo, o, v)); }
@loop 0
    invariant *request == *old(request), comes_up(fs@[p], s1, lo, o, v)
@at before /self\.rewrite_summary_file\(/
    proof { assert(ve.seq_no == s1.seq); lemma_chain(tail(edits(fs@[p])), o, v); assert(ve.file_id < u64::MAX); assert forall|x: Seq<Seq<u8>>| #[trigger] only(x, ve) implies comes_up(x, s1, lo, o, v) by { lemma_only(x, ve, o, v); } }
@end
}
fn main() {}
