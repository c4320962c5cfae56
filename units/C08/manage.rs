use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include ../C01/be.inc
//@include tomb.inc
//@include wire.inc
// std HashMap handed to insert_batch: its entries
struct Batch { v: Vec<((u32, u32), Vec<TimeRange>)> }
spec fn batch_has(b: Batch, k: (u32, u32), t: i64) -> bool { exists|i: int| 0 <= i < b.v.len() && (#[trigger] b.v@[i]).0 == k && covers(b.v@[i].1@, t) }
// ---- what is proved of the cache in proof.rs and of the file's content in file.rs ----
impl TsmTombstoneCache {
    #[verifier::external_body]
    fn default() -> (r: TsmTombstoneCache) ensures forall|k: (u32, u32), t: i64| !#[trigger] r.column_excluded.has(k, t), forall|t: i64| !#[trigger] r.all_excluded.has(t) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, tombstone_field: TombstoneField, time_range: TimeRange)
        ensures tombstone_field matches TombstoneField::One(s, c) ==> (forall|k: (u32, u32), t: i64| #![trigger final(self).gone(k, t)] #![trigger final(self).column_excluded.has(k, t)] final(self).gone(k, t) <==> old(self).gone(k, t) || (k == (s, c) && mem(time_range, t))) && (forall|t: i64| #[trigger] final(self).all_excluded.has(t) <==> old(self).all(t)),
            tombstone_field is All ==> (forall|k: (u32, u32), t: i64| #![trigger final(self).gone(k, t)] #![trigger final(self).column_excluded.has(k, t)] final(self).gone(k, t) <==> old(self).gone(k, t) || mem(time_range, t)) && (forall|t: i64| #[trigger] final(self).all_excluded.has(t) <==> old(self).all(t) || mem(time_range, t)) { unimplemented!() }
    #[verifier::external_body]
    fn insert_batch(&mut self, batch: Batch)
        ensures forall|k: (u32, u32), t: i64| #[trigger] final(self).column_excluded.has(k, t) <==> old(self).one(k, t) || batch_has(batch, k, t), forall|t: i64| #[trigger] final(self).all_excluded.has(t) <==> old(self).all(t) { unimplemented!() }
    #[verifier::external_body]
    fn compact(&mut self) ensures forall|k: (u32, u32), t: i64| #![trigger final(self).gone(k, t)] #![trigger final(self).column_excluded.has(k, t)] final(self).gone(k, t) <==> old(self).gone(k, t), forall|t: i64| #[trigger] final(self).all_excluded.has(t) <==> old(self).all(t) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: TsmTombstoneCache) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn load_from(reader: &mut Reader, just_stop_if_error: bool) -> (r: TskvResult<TsmTombstoneCache>)
        requires forall|i: int| 0 <= i < old(reader).rest().len() ==> (#[trigger] old(reader).rest()[i]).ty == 4 ==> old(reader).rest()[i].data.len() >= 24
        ensures r is Ok && !just_stop_if_error ==> same(flat(old(reader).rest()), r->Ok_0.column_excluded, r->Ok_0.all_excluded) { unimplemented!() }
    #[verifier::external_body]
    fn save_to(&self, writer: &mut Writer) -> (r: TskvResult<()>)
        ensures r is Ok ==> (forall|k: (u32, u32), t: i64| #[trigger] del(flat(final(writer).recs()), false, k, t) <==> del(flat(old(writer).recs()), false, k, t) || self.one(k, t)),
            r is Ok ==> (forall|k: (u32, u32), t: i64| #[trigger] del(flat(final(writer).recs()), true, k, t) <==> del(flat(old(writer).recs()), true, k, t) || self.all(t)),
            final(writer).path() == old(writer).path() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r ==> forall|k: (u32, u32), t: i64| !#[trigger] self.gone(k, t) { unimplemented!() }
    fn all_excluded(&self) -> &TimeRanges { &self.all_excluded }
}
impl TsmTombstone {
    #[verifier::external_body]
    fn encode_field_time_ranges(buffer: &mut Vec<u8>, field: &TombstoneField, time_ranges: &[TimeRange]) -> (r: usize)
        ensures r <= time_ranges.len(), time_ranges.len() > 0 ==> r > 0, r <= u32::MAX, final(buffer)@ =~= old(buffer)@ + enc(*field, time_ranges@.take(r as int)) { unimplemented!() }
}
// ---- the files: what a path holds, as records ----
#[derive(Clone, Copy)]
struct Path { id: u64 }
uninterp spec fn tmp_of(p: Path) -> Path;
#[verifier::external_body]
fn tombstone_compact_tmp_path(p: &Path) -> (r: TskvResult<Path>) ensures r is Ok ==> r->Ok_0 == tmp_of(*p) && tmp_of(*p) != *p { unimplemented!() }
#[verifier::external_body]
struct Fs { x: u8 }
impl Fs {
    uninterp spec fn view(&self) -> Map<Path, Seq<Rec>>;
    #[verifier::external_body]
    fn try_exists(&self, p: &Path) -> (r: bool) ensures r <==> self@.dom().contains(*p) { unimplemented!() }
    #[verifier::external_body]
    fn remove_if_exists(&mut self, p: &Path) -> (r: TskvResult<()>) ensures r is Ok ==> final(self)@ == old(self)@.remove(*p) { unimplemented!() }
    #[verifier::external_body]
    fn rename(&mut self, a: Path, b: &Path) -> (r: TskvResult<()>) ensures r is Ok ==> old(self)@.dom().contains(a) && final(self)@ == old(self)@.remove(a).insert(*b, old(self)@[a]) { unimplemented!() }
}
impl Reader {
    #[verifier::external_body]
    fn open(p: &Path, fs: &Fs) -> (r: TskvResult<Reader>) ensures r is Ok ==> fs@.dom().contains(*p) && r->Ok_0.rest() == fs@[*p] { unimplemented!() }
}
impl Writer {
    uninterp spec fn path(&self) -> Path;
    // an existing file is appended to
    #[verifier::external_body]
    fn open(p: &Path, size: usize, fs: &mut Fs) -> (r: TskvResult<Writer>)
        ensures r is Ok ==> r->Ok_0.path() == *p && r->Ok_0.recs() == (if old(fs)@.dom().contains(*p) { old(fs)@[*p] } else { Seq::empty() }) && final(fs)@ == old(fs)@.insert(*p, r->Ok_0.recs()),
            r is Err ==> forall|q: Path| q != *p ==> (#[trigger] final(fs)@.dom().contains(q) <==> old(fs)@.dom().contains(q)) && final(fs)@[q] == old(fs)@[q] { unimplemented!() }
    #[verifier::external_body]
    fn close(&mut self, fs: &mut Fs) -> (r: TskvResult<()>) ensures r is Ok ==> final(fs)@ == old(fs)@.insert(old(self).path(), old(self).recs()) && *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn sync(&mut self, fs: &mut Fs) -> (r: TskvResult<()>) ensures r is Ok ==> final(fs)@ == old(fs)@.insert(old(self).path(), old(self).recs()) && *final(self) == *old(self) { unimplemented!() }
}
// write_tombstone_record leaves the path alone
#[verifier::external_body]
fn write_rec(writer: &mut Writer, data: &[u8]) -> (r: TskvResult<usize>)
    ensures r is Ok ==> final(writer).recs() == old(writer).recs().push(Rec { ty: 5, data: data@ }), final(writer).path() == old(writer).path() { unimplemented!() }
// ---- the bloom filter over the series of the file (C17) ----
#[verifier::external_body]
struct BloomFilter { x: u8 }
impl BloomFilter {
    uninterp spec fn says(&self, item: Seq<u8>) -> bool;
    #[verifier::external_body]
    fn maybe_contains(&self, item: &[u8]) -> (r: bool) ensures r == self.says(item@) { unimplemented!() }
}
impl Batch {
    #[verifier::external_body]
    fn new() -> (r: Batch) ensures forall|k: (u32, u32), t: i64| !batch_has(r, k, t) { unimplemented!() }
    // entry(k).or_default().push(r)
    #[verifier::external_body]
    fn add(&mut self, k: (u32, u32), r: TimeRange) ensures forall|q: (u32, u32), t: i64| #[trigger] batch_has(*final(self), q, t) <==> batch_has(*old(self), q, t) || (q == k && mem(r, t)) { unimplemented!() }
}
const TOMBSTONE_BUFFER_SIZE: usize = 1024;
struct TsmTombstone { cache: TsmTombstoneCache, path: Path, writer: Option<Writer> }
spec fn v1ok(m: Map<Path, Seq<Rec>>) -> bool { forall|p: Path, i: int| m.dom().contains(p) && 0 <= i < m[p].len() && (#[trigger] m[p][i]).ty == 4 ==> m[p][i].data.len() >= 24 }
spec fn rec_ok(s: Seq<Rec>) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ty == 4 ==> s[i].data.len() >= 24 }
impl TsmTombstone {
    // the records of the file, those still buffered in the writer included
    spec fn file(&self, fs: Fs) -> Seq<Rec> { match self.writer { Some(w) => w.recs(), None => if fs@.dom().contains(self.path) { fs@[self.path] } else { Seq::empty() } } }
    // the cache and the file delete the same
    spec fn inv(&self, fs: Fs) -> bool { same(flat(self.file(fs)), self.cache.column_excluded, self.cache.all_excluded) && (self.writer is Some ==> self.writer->0.path() == self.path) && v1ok(fs@) && rec_ok(self.file(fs)) }
}
spec fn wanted(columns: Seq<(u32, u32)>, f: Option<BloomFilter>, k: (u32, u32), n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] columns[i] == k && (f matches Some(b) ==> b.says(be32(k.0))) }
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::open
@subst /path: impl AsRef<Path>, tsm_file_id: ColumnFileId/ => path: Path, fs: &mut Fs
@subst /let (\w+) = file_utils::make_tsm_tombstone_file\((\w+), \w+\);/ =>
@subst /record_file::/ =>
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /LocalFileSystem::/ => fs.
@subst /Reader::open\((&?\w+)\)/ => Reader::open(\1, fs)
@subst /Writer::open\((&?[\w.]+), (\w+)\)/ => Writer::open(\1, \2, fs)
@subst /RwLock::new\((\w+)\)/ => \1
@subst /Arc::new\(AsyncMutex::new\((\w+)\)\)/ => \1
@subst /if let Some\((\w+)\) = reader\.as_mut\(\) \{/ => if reader.is_some() { let mut \1 = reader.unwrap();
@subst /load_from\((\w+), false\)/ => load_from(&mut \1, false)
@subst /let \(mut (\w+), (\w+)\) = / => let (\1, \2) =
@ret r
@spec
    requires v1ok(old(fs)@)
    ensures r is Ok ==> r->Ok_0.inv(*final(fs)), r is Ok ==> r->Ok_0.path == path, r is Ok ==> r->Ok_0.file(*final(fs)) == (if old(fs)@.dom().contains(path) { old(fs)@[path] } else { Seq::empty() })
@at start
    proof { lemma_none(); }
@end
proof fn lemma_none() ensures forall|all: bool, k: (u32, u32), t: i64| !#[trigger] del(Seq::<T>::empty(), all, k, t), flat(Seq::<Rec>::empty()) =~= Seq::<T>::empty() {}
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::is_empty
@subst /self\.cache\.read\(\)/ => self.cache
@ret r
@spec
    ensures r ==> forall|k: (u32, u32), t: i64| !#[trigger] self.cache.gone(k, t)
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::add_range
@subst /&self,/ => &mut self, fs: &mut Fs,
@subst /Option<Arc<BloomFilter>>/ => Option<BloomFilter>
@subst /record_file::/ =>
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /let mut (\w+) = self\.writer\.lock\(\);/ => let \1 = &mut self.writer;
@subst /self\.cache\.write\(\)/ => self.cache
@subst /Writer::open\((&?[\w.]+), (\w+)\)/ => Writer::open(\1, \2, fs)
@subst /let writer = writer_lock\s*\.as_mut\(\)\s*\.expect\([^)]*\);/ => let writer = opt_mut(writer_lock);
@subst /Vec::with_capacity\(MAX_RECORD_LEN\)/ => Vec::<u8>::new()
@subst /let mut (\w+): HashMap<\(SeriesId, ColumnId\), Vec<TimeRange>> =\s*HashMap::with_capacity\([^;]*\);/ => let mut \1 = Batch::new();
@subst /for \((\w+), (\w+)\) in columns \{/ => let mut ci: usize = 0; while ci < columns.len() { let \1 = &columns[ci].0; let \2 = &columns[ci].1; ci += 1;
@subst /if let Some\(ref (\w+)\) = bloom_filter \{\s*if !(\w+)\.maybe_contains\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\) \{\s*continue;\s*\}\s*\}/ => if skipped(&bloom_filter, \3) { continue; }
@subst /\.entry\((\([^()]*\))\)\s*\.or_default\(\)\s*\.push\((\w+)\)/ => .add(\1, \2)
@subst /write_tombstone_record\(/ => write_rec(
@subst /([;}]\s*)Self::encode_field_time_ranges\(/ => \1let en = Self::encode_field_time_ranges(
@ret r
@spec
    requires old(self).inv(*old(fs))
    ensures r is Ok ==> (forall|k: (u32, u32), t: i64| #[trigger] final(self).cache.one(k, t) <==> old(self).cache.one(k, t) || (wanted(columns@, bloom_filter, k, columns.len() as int) && mem(time_range, t))),
        r is Ok ==> (forall|t: i64| #[trigger] final(self).cache.all(t) <==> old(self).cache.all(t)),
        r is Ok ==> final(self).inv(*final(fs))
@at before-loop 0
    let ghost w0 = writer.recs(); let ghost p0 = writer.path();
    proof { assert(write_buf@ =~= Seq::<u8>::empty()); assert(wdel(w0, write_buf@) =~= flat(w0)); }
@loop 0
    invariant 0 <= ci <= columns.len(), wf(write_buf@), writer.path() == p0, rec_ok(writer.recs()),
        forall|k: (u32, u32), t: i64| #[trigger] batch_has(tomb_tmp, k, t) <==> wanted(columns@, bloom_filter, k, ci as int) && mem(time_range, t),
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), true, k, t) <==> del(flat(w0), true, k, t),
        forall|k: (u32, u32), t: i64| #[trigger] del(wdel(writer.recs(), write_buf@), false, k, t) <==> del(flat(w0), false, k, t) || (wanted(columns@, bloom_filter, k, ci as int) && mem(time_range, t))
    decreases columns.len() - ci
@at loop-start 0
    let ghost b0 = write_buf@; let ghost w1 = writer.recs(); let ghost c0 = ci as int;
    proof { assert forall|k: (u32, u32)| #[trigger] wanted(columns@, bloom_filter, k, c0 + 1) <==> wanted(columns@, bloom_filter, k, c0) || (k == columns@[c0] && !fskip(bloom_filter, k.0)) by {
        if k == columns@[c0] && !fskip(bloom_filter, k.0) { assert(columns@[c0] == k); }
        if wanted(columns@, bloom_filter, k, c0 + 1) { let i = choose|i: int| 0 <= i < c0 + 1 && #[trigger] columns@[i] == k && (bloom_filter matches Some(b) ==> b.says(be32(k.0))); assert(columns@[i] == k); } } }
@at before /if write_buf\.len\(\) >= MAX_RECORD_LEN/
    proof { assert([time_range]@ =~= seq![time_range]); assert(en == 1); assert(seq![time_range].take(en as int) =~= seq![time_range]); assert(write_buf@ =~= b0 + enc(tomb, seq![time_range])); lemma_wdel(w1, b0, write_buf@, tomb, seq![time_range]); lemma_write(w1, write_buf@); assert(seq![time_range][0] == time_range); }
@at after-loop 0
    proof { lemma_write(writer.recs(), write_buf@);
      if write_buf@.len() == 0 { assert(wdel(writer.recs(), write_buf@) =~= flat(writer.recs())); }
      let w2 = writer.recs().push(Rec { ty: 5, data: write_buf@ }); assert(wdel(w2, Seq::empty()) =~= flat(w2)); }
@end
spec fn fskip(f: Option<BloomFilter>, s: u32) -> bool { f matches Some(b) && !b.says(be32(s)) }
// `if let Some(ref filter) = bloom_filter { if !filter.maybe_contains(bytes) { continue } }`
#[verifier::external_body]
fn skipped(f: &Option<BloomFilter>, s: &u32) -> (r: bool) ensures r == fskip(*f, *s) { unimplemented!() }
#[verifier::external_body]
fn opt_mut(o: &mut Option<Writer>) -> (r: &mut Writer) requires *old(o) is Some ensures *r == (*old(o))->0, *final(o) == Some(*final(r)) { unimplemented!() }
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::add_range_and_compact_to_tmp
@subst /&self,/ => &self, fs: &mut Fs,
@subst /record_file::/ =>
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /LocalFileSystem::/ => fs.
@subst /\.map_err\([^;?]*\)\?/ => ?
@subst /self\.cache\.(?:write|read)\(\)/ => self.cache
@subst /Writer::open\((&?[\w.]+), (\w+)\)/ => Writer::open(\1, \2, fs)
@subst /\.close\(\)/ => .close(fs)
@subst /trace::info!\(.*?\);/ =>
@ret r
@spec
    ensures r is Ok ==> final(fs)@.dom().contains(tmp_of(self.path)),
        r is Ok ==> (forall|t: i64| #[trigger] r->Ok_0.has(t) <==> self.cache.all(t) || mem(time_range, t)),
        r is Ok ==> (forall|t: i64| #[trigger] del(flat(final(fs)@[tmp_of(self.path)]), true, (0u32, 0u32), t) <==> self.cache.all(t) || mem(time_range, t)),
        r is Ok ==> (forall|k: (u32, u32), t: i64| #[trigger] del(flat(final(fs)@[tmp_of(self.path)]), false, k, t) || del(flat(final(fs)@[tmp_of(self.path)]), true, k, t) <==> self.cache.gone(k, t) || mem(time_range, t)),
        r is Ok ==> forall|p: Path| p != tmp_of(self.path) ==> (#[trigger] final(fs)@.dom().contains(p) <==> old(fs)@.dom().contains(p)) && final(fs)@[p] == old(fs)@[p]
@at start
    proof { lemma_none(); }
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::replace_with_compact_tmp
@subst /\(&self\)/ => (&mut self, fs: &mut Fs)
@subst /record_file::/ =>
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /LocalFileSystem::/ => fs.
@subst /file_utils::/ => fs.
@subst /let mut (\w+) = self\.writer\.lock\(\);/ => let \1 = &mut self.writer;
@subst /if let Some\((\w+)\) = writer_lock\.as_mut\(\) \{/ => if writer_lock.is_some() { let \1 = opt_mut(writer_lock);
@subst /\*self\.cache\.write\(\) = / => self.cache =
@subst /\.close\(\)/ => .close(fs)
@subst /Reader::open\((&?[\w.]+)\)/ => Reader::open(\1, fs)
@subst /debug!\(.*?\);/ =>
@ret r
@spec
    requires old(self).inv(*old(fs))
    ensures r is Ok ==> final(self).inv(*final(fs)),
        r is Ok && old(fs)@.dom().contains(tmp_of(old(self).path)) ==> final(self).file(*final(fs)) == old(fs)@[tmp_of(old(self).path)] && !final(fs)@.dom().contains(tmp_of(old(self).path)),
        r is Ok && !old(fs)@.dom().contains(tmp_of(old(self).path)) ==> final(self).cache == old(self).cache && final(self).file(*final(fs)) == old(self).file(*old(fs))
@end
//@extract tskv/src/tsm/tombstone.rs TsmTombstone::flush
@subst /\(&self\)/ => (&mut self, fs: &mut Fs)
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /if let Some\((\w+)\) = self\.writer\.lock\(\)\.as_mut\(\) \{/ => if self.writer.is_some() { let \1 = opt_mut(&mut self.writer);
@subst /\.sync\(\)/ => .sync(fs)
@ret r
@spec
    requires old(self).inv(*old(fs))
    ensures r is Ok ==> final(self).inv(*final(fs)) && final(self).cache == old(self).cache && final(self).file(*final(fs)) == old(self).file(*old(fs))
@end
}
fn main() {}
