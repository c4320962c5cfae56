use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- the entry, and what a log file is: entries at positions. `cuts` counts how often a file lost bytes: a reader opened before may have them buffered ----
#[derive(Clone, Copy)]
struct LogId { term: u64, index: u64 }
struct Payload { x: Vec<u8> }
struct RaftEntry { log_id: LogId, payload: Payload }
impl RaftEntry { #[verifier::external_body] fn clone(&self) -> (r: RaftEntry) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
fn entry_copy(e: &RaftEntry) -> (r: RaftEntry) ensures r == *e { unimplemented!() }
struct Disk { files: Map<u64, Map<u64, RaftEntry>>, cuts: Map<u64, nat>, size: Map<u64, u64>, cur: u64 }
struct TskvError { x: u8 }
type TskvResult<T> = Result<T, TskvError>;
type ReplicationResult<T> = Result<T, TskvError>;
#[verifier::external_body]
struct WalReader { x: u8 }
struct WalRecordData { pos: u64, block: RaftEntry }
impl WalReader {
    uninterp spec fn fid(&self) -> u64;
    uninterp spec fn seen(&self) -> nat;
    spec fn fresh(&self, d: Disk) -> bool { self.seen() == d.cuts[self.fid()] }
    #[verifier::external_body]
    fn read_wal_record_data(&mut self, pos: u64, Ghost(d): Ghost<Disk>) -> (r: TskvResult<Option<WalRecordData>>)
        requires old(self).fresh(d), d.files.contains_key(old(self).fid())
        ensures final(self).fid() == old(self).fid(), final(self).seen() == old(self).seen(),
            r is Ok && d.files[old(self).fid()].contains_key(pos) ==> r->Ok_0 is Some && (r->Ok_0->0).block == d.files[old(self).fid()][pos] { unimplemented!() }
}
#[verifier::external_body]
struct VnodeWal { x: u8 }
spec fn cut(n: Map<u64, RaftEntry>, m: Map<u64, RaftEntry>, pos: u64) -> bool { forall|p: u64| #![trigger n.contains_key(p)] (n.contains_key(p) <==> m.contains_key(p) && p < pos) && (n.contains_key(p) ==> n[p] == m[p]) }
spec fn grown(d: Disk, e: Disk, id: u64) -> bool { id == e.cur && e.cuts == d.cuts && e.cur >= d.cur && (forall|f: u64| f != e.cur && #[trigger] d.files.contains_key(f) ==> e.files.contains_key(f) && e.files[f] == d.files[f] && e.size[f] == d.size[f]) && e.files.contains_key(e.cur) }
impl VnodeWal {
    uninterp spec fn disk(&self) -> Disk;
    // mod.rs proves these
    #[verifier::external_body]
    fn write_raft_entry(&mut self, raft_entry: &RaftEntry) -> (r: TskvResult<(u64, u64)>)
        ensures r is Ok ==> wrote(old(self).disk(), final(self).disk(), r->Ok_0.0, r->Ok_0.1, *raft_entry) { unimplemented!() }
    #[verifier::external_body]
    fn wal_reader(&mut self, wal_id: u64) -> (r: TskvResult<WalReader>)
        ensures final(self).disk() == old(self).disk(), r is Ok ==> r->Ok_0.fid() == wal_id && r->Ok_0.fresh(old(self).disk()) { unimplemented!() }
    #[verifier::external_body]
    fn truncate_wal_file(&mut self, file_id: u64, pos: u64) -> (r: TskvResult<()>)
        requires old(self).disk().files.contains_key(file_id), pos <= old(self).disk().size[file_id]
        ensures r is Ok ==> { let (d, e) = (old(self).disk(), final(self).disk()); &&& e.cur == d.cur &&& e.files.contains_key(file_id) && cut(e.files[file_id], d.files[file_id], pos) && (forall|f: u64| #![trigger e.files.contains_key(f)] f != file_id ==> (e.files.contains_key(f) <==> d.files.contains_key(f)) && (e.files.contains_key(f) ==> e.files[f] == d.files[f])) &&& e.size == d.size.insert(file_id, pos) &&& forall|f: u64| f != file_id ==> #[trigger] e.cuts[f] == d.cuts[f] } { unimplemented!() }
    #[verifier::external_body]
    fn rollback_wal_writer(&mut self, del_ids: &Vec<u64>) -> (r: TskvResult<()>)
        ensures r is Ok ==> { let (d, e) = (old(self).disk(), final(self).disk());
            &&& forall|f: u64| !del_ids@.contains(f) && #[trigger] d.files.contains_key(f) ==> e.files.contains_key(f) && e.files[f] == d.files[f] && e.cuts[f] == d.cuts[f] && e.size[f] == d.size[f] && f <= e.cur
            &&& forall|f: u64| #[trigger] e.files.contains_key(f) ==> !del_ids@.contains(f) && d.files.contains_key(f) || f == e.cur && e.files[f] == Map::<u64, RaftEntry>::empty()
            &&& e.files.contains_key(e.cur) } { unimplemented!() }
}
// ---- the cache of the newest entries: what C18 proves of it ----
#[verifier::external_body]
struct EntryCache { x: u8 }
spec fn tail_of(m: Map<u64, RaftEntry>, o: Map<u64, RaftEntry>, lo: int) -> bool { forall|k: u64| #![trigger m.contains_key(k)] (m.contains_key(k) <==> o.contains_key(k) && k >= lo) && (m.contains_key(k) ==> m[k] == o[k]) }
impl EntryCache {
    uninterp spec fn view(&self) -> Map<u64, RaftEntry>;
    #[verifier::external_body]
    fn get(&self, k: &u64) -> (r: Option<&RaftEntry>) ensures match r { Some(v) => self.view().contains_key(*k) && *v == self.view()[*k], None => !self.view().contains_key(*k) } { unimplemented!() }
    // the entry put last that is still there; keys were put in rising order
    #[verifier::external_body]
    fn last(&self) -> (r: Option<&RaftEntry>) ensures match r { Some(v) => exists|k: u64| #[trigger] self.view().contains_key(k) && *v == self.view()[k] && forall|j: u64| #[trigger] self.view().contains_key(j) ==> j <= k, None => self.view() == Map::<u64, RaftEntry>::empty() } { unimplemented!() }
    #[verifier::external_body]
    fn put(&mut self, k: u64, v: RaftEntry)
        requires forall|j: u64| #[trigger] old(self).view().contains_key(j) ==> j < k
        ensures exists|lo: int| lo <= k && tail_of(final(self).view(), old(self).view().insert(k, v), lo) { unimplemented!() }
    #[verifier::external_body]
    fn del_before(&mut self, k: u64) ensures tail_of(final(self).view(), old(self).view(), k as int) { unimplemented!() }
    #[verifier::external_body]
    fn del_after(&mut self, k: u64) ensures forall|j: u64| #![trigger final(self).view().contains_key(j)] (final(self).view().contains_key(j) <==> old(self).view().contains_key(j) && j < k) && (final(self).view().contains_key(j) ==> final(self).view()[j] == old(self).view()[j]) { unimplemented!() }
}
// ---- std ----
fn imax(a: u64, b: u64) -> (r: u64) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
fn imin(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
spec fn rising(v: Seq<(u64, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].0 < #[trigger] v[j].0 }
#[verifier::external_body]
fn find_index(v: &Vec<(u64, u64)>, index: u64) -> (r: Result<usize, usize>) requires rising(v@)
    ensures match r { Ok(i) => i < v.len() && v@[i as int].0 == index, Err(i) => i <= v.len() && (forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).0 < index) && (forall|k: int| i <= k < v.len() ==> (#[trigger] v@[k]).0 > index) } { unimplemented!() }
#[verifier::external_body]
fn drain_front(v: &mut Vec<(u64, u64)>, n: usize) requires n <= old(v).len() ensures final(v)@ == old(v)@.subrange(n as int, old(v).len() as int) { unimplemented!() }
#[verifier::external_body]
fn drain_back(v: &mut Vec<(u64, u64)>, n: usize) requires n <= old(v).len() ensures final(v)@ == old(v)@.take(n as int) { unimplemented!() }
#[verifier::external_body]
fn at_mut(v: &mut Vec<WalFileMeta>, i: usize) -> (r: &mut WalFileMeta) requires i < old(v).len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
spec fn without(v: Seq<WalFileMeta>, ids: Seq<u64>) -> Seq<WalFileMeta> { v.filter(|m: WalFileMeta| !ids.contains(m.file_id)) }
#[verifier::external_body]
fn retain_others(v: &mut Vec<WalFileMeta>, ids: &Vec<u64>) ensures final(v)@ == without(old(v)@, ids@) { unimplemented!() }
// ---- one file's entries ----
//@extract tskv/src/wal/wal_store.rs struct WalFileMeta
@end
impl WalFileMeta {
    spec fn ok(&self) -> bool { self.min_seq <= self.max_seq < u64::MAX && self.entry_index.len() == self.max_seq - self.min_seq + 1 && (forall|k: int| 0 <= k < self.entry_index.len() ==> (#[trigger] self.entry_index@[k]).0 == self.min_seq + k) && rising_pos(self.entry_index@) }
    spec fn none(&self) -> bool { self.min_seq == u64::MAX && self.max_seq == u64::MAX && self.entry_index.len() == 0 }
    // the entries it points at are where it says
    spec fn on(&self, d: Disk) -> bool { self.reader.fid() == self.file_id && self.reader.fresh(d) && d.files.contains_key(self.file_id) && forall|k: int| 0 <= k < self.entry_index.len() ==> { let (x, p) = #[trigger] self.entry_index@[k]; p > 0 && p < d.size[self.file_id] && d.files[self.file_id].contains_key(p) && d.files[self.file_id][p].log_id.index == x } }
    spec fn has(&self, i: int) -> bool { self.min_seq <= i <= self.max_seq }
    spec fn entry(&self, d: Disk, i: int) -> RaftEntry { d.files[self.file_id][self.entry_index@[i - self.min_seq].1] }
    spec fn same(&self, o: WalFileMeta) -> bool { self.file_id == o.file_id && self.min_seq == o.min_seq && self.max_seq == o.max_seq && self.entry_index == o.entry_index && self.reader.fid() == o.reader.fid() && self.reader.seen() == o.reader.seen() }
}
spec fn rising_pos(v: Seq<(u64, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].1 < #[trigger] v[j].1 }
//@extract tskv/src/wal/wal_store.rs WalFileMeta::is_empty
@header impl WalFileMeta
@ret r
@spec
    ensures r == (self.min_seq == u64::MAX || self.max_seq == u64::MAX)
@end
//@extract tskv/src/wal/wal_store.rs WalFileMeta::intersection
@header impl WalFileMeta
@subst /self\.min_seq\.max\(start\)/ => imax(self.min_seq, start)
@subst /\(self\.max_seq \+ 1\)\.min\(end\)/ => imin(self.max_seq + 1, end)
@ret r
@spec
    requires self.ok()
    ensures match r { Some((a, b)) => a <= b && forall|i: int| a <= i < b <==> self.has(i) && start <= i < end, None => forall|i: int| !(#[trigger] self.has(i) && start <= i < end) },
        r is Some ==> (r->0).0 == (if self.min_seq > start { self.min_seq } else { start }) && (r->0).1 == (if self.max_seq + 1 < end { (self.max_seq + 1) as u64 } else { end })
@end
//@extract tskv/src/wal/wal_store.rs WalFileMeta::mark_entry
@header impl WalFileMeta
@spec
    requires old(self).ok() && index == old(self).max_seq + 1 && pos > old(self).entry_index@.last().1 || old(self).none(), index < u64::MAX
    ensures final(self).ok(), final(self).max_seq == index, final(self).min_seq == (if old(self).none() { index } else { old(self).min_seq }), final(self).entry_index@ == old(self).entry_index@.push((index, pos)), final(self).file_id == old(self).file_id, final(self).reader == old(self).reader
@end
//@extract tskv/src/wal/wal_store.rs WalFileMeta::del_before
@header impl WalFileMeta
@subst /self\.entry_index\.binary_search_by\(\|v\| v\.0\.cmp\(&index\)\)/ => find_index(&self.entry_index, index)
@subst /self\.entry_index\.drain\(0\.\.idx\)/ => drain_front(&mut self.entry_index, idx)
@spec
    requires old(self).ok(), index <= old(self).max_seq
    ensures final(self).ok(), final(self).max_seq == old(self).max_seq, final(self).min_seq == (if index > old(self).min_seq { index } else { old(self).min_seq }), final(self).file_id == old(self).file_id, final(self).reader == old(self).reader,
        final(self).entry_index@ == old(self).entry_index@.skip(final(self).min_seq - old(self).min_seq)
@at start
        proof { assert(rising(self.entry_index@)); if self.min_seq <= index <= self.max_seq { assert(self.entry_index@[index - self.min_seq].0 == index); } }
@end
//@extract tskv/src/wal/wal_store.rs WalFileMeta::del_after
@header impl WalFileMeta
@subst /self\.entry_index\.binary_search_by\(\|v\| v\.0\.cmp\(&index\)\)/ => find_index(&self.entry_index, index)
@subst /self\.entry_index\.drain\(idx\.\.\)/ => drain_back(&mut self.entry_index, idx)
@ret r
@spec
    requires old(self).ok(), old(self).min_seq < index, forall|k: int| 0 <= k < old(self).entry_index.len() ==> (#[trigger] old(self).entry_index@[k]).1 > 0
    ensures final(self).ok(), final(self).min_seq == old(self).min_seq, final(self).file_id == old(self).file_id, final(self).reader == old(self).reader,
        index > old(self).max_seq ==> r == 0 && final(self).same(*old(self)),
        index <= old(self).max_seq ==> final(self).max_seq == index - 1 && final(self).entry_index@ == old(self).entry_index@.take(index - old(self).min_seq) && r == old(self).entry_index@[index - old(self).min_seq].1
@at start
        proof { assert(rising(self.entry_index@)); if self.min_seq <= index <= self.max_seq { assert(self.entry_index@[index - self.min_seq].0 == index); } }
@end
//@extract tskv/src/wal/wal_store.rs WalFileMeta::get_entry
@header impl WalFileMeta
@subst /\(&mut self, pos: u64\)/ => (&mut self, pos: u64, Ghost(d): Ghost<Disk>)
@subst /read_wal_record_data\(pos\)/ => read_wal_record_data(pos, Ghost(d))
@subst /\.map_err\(\|e\| ReplicationError::RaftInternalErr \{ msg: e\.to_string\(\) \}\)/ =>
@ret r
@spec
    requires old(self).reader.fresh(d), d.files.contains_key(old(self).reader.fid())
    ensures final(self).same(*old(self)), r is Ok && d.files[old(self).reader.fid()].contains_key(pos) ==> r->Ok_0 == Some(d.files[old(self).reader.fid()][pos])
@end
//@extract tskv/src/wal/wal_store.rs WalFileMeta::get_entry_by_index
@header impl WalFileMeta
@subst /\(&mut self, index: u64\)/ => (&mut self, index: u64, Ghost(d): Ghost<Disk>)
@subst /self\.get_entry\(pos\)/ => self.get_entry(pos, Ghost(d))
@subst /self\.entry_index\.binary_search_by\(\|v\| v\.0\.cmp\(&index\)\)/ => find_index(&self.entry_index, index)
@ret r
@spec
    requires old(self).ok(), old(self).on(d)
    ensures final(self).same(*old(self)), r is Ok && old(self).has(index as int) ==> r->Ok_0 == Some(old(self).entry(d, index as int)), r is Ok && !old(self).has(index as int) ==> r->Ok_0 is None
@at start
        proof { assert(rising(self.entry_index@)); if self.min_seq <= index <= self.max_seq { assert(self.entry_index@[index - self.min_seq].0 == index); } }
@end

// ---- the log: what the files and the cache together say ----
//@extract tskv/src/wal/wal_store.rs struct RaftEntryStorageInner
@subst /cache::CircularKVCache<u64, RaftEntry>/ => EntryCache
@end
type F = spec_fn(int) -> RaftEntry;
#[verifier::opaque]
spec fn ordered(v: Seq<WalFileMeta>) -> bool { forall|k: int, m: int| 0 <= k < m < v.len() ==> (#[trigger] v[k]).max_seq < (#[trigger] v[m]).min_seq && v[k].file_id < v[m].file_id }
#[verifier::opaque]
spec fn linked(v: Seq<WalFileMeta>) -> bool { forall|k: int| 0 < k < v.len() ==> (#[trigger] v[k]).min_seq == v[k - 1].max_seq + 1 }
spec fn chain(v: Seq<WalFileMeta>) -> bool { (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).ok()) && ordered(v) && linked(v) }
spec fn placed(v: Seq<WalFileMeta>, d: Disk) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).on(d) && v[k].file_id <= d.cur }
spec fn says(v: Seq<WalFileMeta>, d: Disk, f: F) -> bool { forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) ==> v[k].entry(d, i) == f(i) }
spec fn spans(v: Seq<WalFileMeta>, lo: int, hi: int) -> bool { if v.len() == 0 { lo >= hi } else { lo == v[0].min_seq && hi == v.last().max_seq + 1 } }
spec fn cached(c: Map<u64, RaftEntry>, f: F, lo: int, hi: int) -> bool { forall|j: u64| #[trigger] c.contains_key(j) ==> lo <= j < hi && c[j] == f(j as int) && forall|m: u64| j <= m < hi ==> #[trigger] c.contains_key(m) }
spec fn seg(f: F, a: int, b: int) -> Seq<RaftEntry> { Seq::new((if a < b { b - a } else { 0 }) as nat, |i: int| f(a + i)) }
spec fn indexed(f: F, lo: int, hi: int) -> bool { forall|i: int| lo <= i < hi ==> (#[trigger] f(i)).log_id.index == i }
impl RaftEntryStorageInner {
    // the log is f(lo), f(lo + 1), .. f(hi - 1)
    spec fn holds(&self, f: F, lo: int, hi: int) -> bool { chain(self.files_meta@) && placed(self.files_meta@, self.wal.disk()) && says(self.files_meta@, self.wal.disk(), f) && spans(self.files_meta@, lo, hi) && cached(self.entry_cache.view(), f, lo, hi) }
}
// an index of the log is in one of the files
proof fn covered(v: Seq<WalFileMeta>, lo: int, hi: int, i: int) -> (k: int)
    requires chain(v), spans(v, lo, hi), lo <= i < hi
    ensures 0 <= k < v.len(), v[k].has(i)
    decreases v.len()
{
    reveal(ordered); reveal(linked);
    if v.last().min_seq <= i { v.len() - 1 } else {
        let w = v.drop_last();
        assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]) == v[k] by {}
        if w.len() > 0 { assert(v.last().min_seq == v[v.len() - 2].max_seq + 1); } else { assert(v[0].min_seq == lo); }
        let k = covered(w, lo, v.last().min_seq as int, i); assert(w[k] == v[k]); k
    }
}
proof fn filter_front(v: Seq<WalFileMeta>, ids: Seq<u64>, c: int)
    requires 0 <= c <= v.len(), forall|k: int| 0 <= k < v.len() ==> (ids.contains((#[trigger] v[k]).file_id) <==> k < c)
    ensures without(v, ids) == v.skip(c)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let w = v.drop_last(); assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]) == v[k] by {}
        if c == v.len() { assert(ids.contains(v[v.len() - 1].file_id)); filter_front(w, ids, c - 1); assert(v.skip(c) =~= w.skip(c - 1)); }
        else { assert(!ids.contains(v[v.len() - 1].file_id)); filter_front(w, ids, c); assert(v.skip(c) =~= w.skip(c).push(v.last())); }
    } else { assert(v.skip(c) =~= Seq::<WalFileMeta>::empty()); assert(without(v, ids) =~= v.skip(c)); }
}
proof fn filter_back(v: Seq<WalFileMeta>, ids: Seq<u64>, c: int)
    requires 0 <= c <= v.len(), forall|k: int| 0 <= k < v.len() ==> (ids.contains((#[trigger] v[k]).file_id) <==> k >= c)
    ensures without(v, ids) == v.take(c)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let w = v.drop_last(); assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]) == v[k] by {}
        if c == v.len() { assert(!ids.contains(v[v.len() - 1].file_id)); filter_back(w, ids, c - 1); assert(v.take(c) =~= w.take(c - 1).push(v.last())); }
        else { assert(ids.contains(v[v.len() - 1].file_id)); filter_back(w, ids, c); assert(v.take(c) =~= w.take(c)); }
    } else { assert(v.take(c) =~= Seq::<WalFileMeta>::empty()); assert(without(v, ids) =~= v.take(c)); }
}
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::min_sequence
@header impl RaftEntryStorageInner
@ret r
@spec
    ensures r == if self.files_meta.len() > 0 { self.files_meta@[0].min_seq } else { u64::MAX }
@end
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::max_sequence
@header impl RaftEntryStorageInner
@ret r
@spec
    ensures r == if self.files_meta.len() > 0 { self.files_meta@.last().max_seq } else { u64::MAX }
@end
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::mark_write_wal
@header impl RaftEntryStorageInner
@subst /\(&mut self, entry: RaftEntry, wal_id: u64, pos: u64\)/ => (&mut self, entry: RaftEntry, wal_id: u64, pos: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /if let Some\(item\) = self\s*\.files_meta\s*\.iter_mut\(\)\s*\.rev\(\)\s*\.find\(\|item\| ([^\n]*)\)\s*\{/ => let mut ix: usize = self.files_meta.len(); let mut found = false; while !found && ix > 0 { let item = &self.files_meta[ix - 1]; if \1 { found = true; } else { ix -= 1; } } if found { let item = at_mut(&mut self.files_meta, ix - 1);
@ret r
@spec
    requires old(self).holds(f, lo, hi), lo < hi ==> entry.log_id.index == hi, entry.log_id.index < u64::MAX, old(self).files_meta.len() == 0 ==> lo >= hi,
        wal_id == old(self).wal.disk().cur, old(self).wal.disk().files.contains_key(wal_id), old(self).wal.disk().files[wal_id].contains_key(pos), old(self).wal.disk().files[wal_id][pos] == entry, 0 < pos < old(self).wal.disk().size[wal_id],
        forall|k: int| 0 <= k < old(self).files_meta.len() && (#[trigger] old(self).files_meta@[k]).file_id == wal_id ==> old(self).files_meta@[k].entry_index@.last().1 < pos
    ensures final(self).wal.disk() == old(self).wal.disk(), r is Ok ==> final(self).holds(added(f, entry), if lo < hi { lo } else { entry.log_id.index as int }, entry.log_id.index + 1)
@loop 0
    invariant 0 <= ix <= self.files_meta.len(), *self == *old(self), found ==> ix > 0 && self.files_meta@[ix - 1].file_id == wal_id,
        forall|k: int| ix <= k < self.files_meta.len() ==> (#[trigger] self.files_meta@[k]).file_id != wal_id
    decreases ix, if found { 0int } else { 1 }
@at start
    proof { reveal(ordered); reveal(linked); }
    let ghost v0 = self.files_meta@; let ghost d = self.wal.disk(); let ghost g = added(f, entry); let ghost e0 = entry; let ghost c0 = self.entry_cache.view();
@at after /self\.entry_cache\.put\(index, entry\);/
    proof { marked(v0, self.files_meta@, d, f, lo, hi, e0, wal_id, pos, c0, self.entry_cache.view()); }
@end
// an entry has been put behind the others: into the last file or a new one
proof fn marked(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, d: Disk, f: F, lo: int, hi: int, e: RaftEntry, id: u64, pos: u64, c0: Map<u64, RaftEntry>, c: Map<u64, RaftEntry>)
    requires chain(v0), placed(v0, d), says(v0, d, f), spans(v0, lo, hi), cached(c0, f, lo, hi), lo < hi ==> e.log_id.index == hi, e.log_id.index < u64::MAX, v0.len() == 0 ==> lo >= hi, id == d.cur, d.files.contains_key(id), d.files[id].contains_key(pos), d.files[id][pos] == e, 0 < pos < d.size[id],
        v.len() > 0, ({ let z = v.last(); &&& z.ok() && z.max_seq == e.log_id.index && z.file_id == id
            &&& if v.len() == v0.len() { v == v0.update(v.len() - 1, z) && v0.last().file_id == id && z.min_seq == v0.last().min_seq && z.entry_index@ == v0.last().entry_index@.push((e.log_id.index, pos)) && z.reader == v0.last().reader } else { v == v0.push(z) && z.min_seq == e.log_id.index && z.entry_index@ == Seq::<(u64, u64)>::empty().push((e.log_id.index, pos)) && z.reader.fid() == id && z.reader.fresh(d) && forall|k: int| 0 <= k < v0.len() ==> (#[trigger] v0[k]).file_id != id } }),
        exists|l: int| l <= e.log_id.index && #[trigger] tail_of(c, c0.insert(e.log_id.index, e), l)
    ensures ({ let l = if lo < hi { lo } else { e.log_id.index as int }; chain(v) && placed(v, d) && says(v, d, added(f, e)) && spans(v, l, e.log_id.index + 1) && cached(c, added(f, e), l, e.log_id.index + 1) })
{
    let n = v.len() - 1; let z = v[n]; let g = added(f, e); let index = e.log_id.index; let l0 = if lo < hi { lo } else { index as int };
    marked_chain(v0, v, d, lo, hi, index);
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).on(d) && v[k].file_id <= d.cur by { if k < v0.len() { assert(v0[k].on(d)); } if k == n { assert forall|i: int| 0 <= i < z.entry_index.len() implies ({ let (x, p) = #[trigger] z.entry_index@[i]; p > 0 && p < d.size[z.file_id] && d.files[z.file_id].contains_key(p) && d.files[z.file_id][p].log_id.index == x }) by { if i < z.entry_index.len() - 1 { assert(z.entry_index@[i] == v0[n].entry_index@[i]); } } } }
    assert forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) implies v[k].entry(d, i) == g(i) by { reveal(ordered); if k < n { assert(v[k] == v0[k]); assert(v0[k].has(i)); assert(v[k].max_seq < v[n].min_seq); } else if i < index { assert(v0[n].ok()); assert(v0[n].has(i)); assert(z.entry_index@[i - z.min_seq] == v0[n].entry_index@[i - z.min_seq]); } }
    assert forall|j: u64| #[trigger] c.contains_key(j) implies l0 <= j < index + 1 && c[j] == g(j as int) && forall|m: u64| j <= m < index + 1 ==> #[trigger] c.contains_key(m) by {
        assert forall|m: u64| j <= m < index + 1 implies #[trigger] c.contains_key(m) by { if m < index { assert(c0.contains_key(j)); assert(c0.contains_key(m)); } }
    }
}
proof fn marked_chain(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, d: Disk, lo: int, hi: int, index: u64)
    requires chain(v0), placed(v0, d), spans(v0, lo, hi), lo < hi ==> index == hi, v0.len() == 0 ==> lo >= hi, v.len() > 0,
        ({ let z = v.last(); &&& z.ok() && z.max_seq == index && z.file_id == d.cur
            &&& if v.len() == v0.len() { v == v0.update(v.len() - 1, z) && z.min_seq == v0.last().min_seq && v0.last().file_id == z.file_id } else { v == v0.push(z) && z.min_seq == index && forall|k: int| 0 <= k < v0.len() ==> (#[trigger] v0[k]).file_id != z.file_id } })
    ensures chain(v), spans(v, if lo < hi { lo } else { index as int }, index + 1)
{
    let n = v.len() - 1;
    assert(v0.len() > 0 ==> v0[0].min_seq <= v0.last().max_seq && v0.last().ok()) by { reveal(ordered); if v0.len() > 0 { assert(v0[0].ok()); } }
    assert(linked(v)) by { reveal(linked); assert forall|k: int| 0 < k < v.len() implies (#[trigger] v[k]).min_seq == v[k - 1].max_seq + 1 by { if k < n || v.len() == v0.len() { assert(v0[k].min_seq == v0[k - 1].max_seq + 1); } } }
    assert(ordered(v)) by { reveal(ordered); assert forall|k: int, m: int| 0 <= k < m < v.len() implies (#[trigger] v[k]).max_seq < (#[trigger] v[m]).min_seq && v[k].file_id < v[m].file_id by { assert(v[k] == v0[k]); if m < v0.len() { assert(v0[k].max_seq < v0[m].min_seq); } else { assert(v0[k].on(d)); assert(k < v0.len() - 1 ==> v0[k].max_seq < v0.last().min_seq); } } }
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).ok() by { if k < n { assert(v0[k].ok()); } }
}
spec fn added(f: F, e: RaftEntry) -> F { |i: int| if i == e.log_id.index { e } else { f(i) } }

//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::entries_from_cache
@header impl RaftEntryStorageInner
@subst /\(&self, start: u64, end: u64\)/ => (&self, start: u64, end: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@ret r
@spec
    requires self.holds(f, lo, hi)
    ensures r is Some ==> (start >= end || lo <= start && end <= hi) && r->0@ =~= seg(f, start as int, end as int)
@loop 0
    invariant self.holds(f, lo, hi), start < end ==> start <= index <= end && entries@ =~= seg(f, start as int, index as int) && (index > start ==> lo <= start && index <= hi), start >= end ==> entries@.len() == 0
    decreases end - index
@end
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::read_raft_entry
@header impl RaftEntryStorageInner
@subst /\(&mut self, index: u64\)/ => (&mut self, index: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /let (\w+) = match self\s*\.files_meta\s*\.iter_mut\(\)\s*\.rev\(\)\s*\.find\(\|item\| ([^\n]*)\)\s*\{\s*Some\(item\) => item,\s*None => return Ok\(None\),\s*\};/ => let mut ix: usize = self.files_meta.len(); let mut found = false; while !found && ix > 0 { let item = &self.files_meta[ix - 1]; if \2 { found = true; } else { ix -= 1; } } if !found { return Ok(None); } let \1 = at_mut(&mut self.files_meta, ix - 1);
@subst /get_entry_by_index\(index\)/ => get_entry_by_index(index, Ghost(d))
@ret r
@spec
    requires old(self).holds(f, lo, hi)
    ensures final(self).holds(f, lo, hi), final(self).wal == old(self).wal, r is Ok ==> r->Ok_0 == (if lo <= index < hi { Some(f(index as int)) } else { None })
@at start
    proof { reveal(ordered); reveal(linked); }
    let ghost d = self.wal.disk(); let ghost v0 = self.files_meta@;
@at before-loop 0
    proof { if lo <= index < hi { let _ = covered(v0, lo, hi, index as int); } else { assert forall|k: int| 0 <= k < v0.len() implies !(#[trigger] v0[k]).has(index as int) by { assert(v0[0].min_seq <= v0[k].min_seq); assert(v0[k].max_seq <= v0.last().max_seq); } } }
@loop 0
    invariant 0 <= ix <= self.files_meta.len(), *self == *old(self), found ==> ix > 0 && self.files_meta@[ix - 1].has(index as int),
        forall|k: int| ix <= k < self.files_meta.len() ==> !(#[trigger] self.files_meta@[k]).has(index as int)
    decreases ix, if found { 0int } else { 1 }
@subst /location\.get_entry_by_index\(index, Ghost\(d\)\)/ => { let res = location.get_entry_by_index(index, Ghost(d)); proof { kept(v0, self.files_meta@, ix - 1, d, f); } res }
@end
// one file's reader has moved
proof fn kept(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, n: int, d: Disk, f: F)
    requires chain(v0), placed(v0, d), says(v0, d, f), 0 <= n < v0.len(), v == v0.update(n, v[n]), v[n].same(v0[n])
    ensures chain(v), placed(v, d), says(v, d, f), forall|lo: int, hi: int| spans(v0, lo, hi) ==> #[trigger] spans(v, lo, hi)
{
    reveal(ordered); reveal(linked);
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).same(v0[k]) by {}
    assert forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) implies v[k].entry(d, i) == f(i) by { assert(v0[k].has(i)); }
}
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::wal_last_entry
@header impl RaftEntryStorageInner
@subst /\(&mut self\)/ => (&mut self, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /read_raft_entry\(index\)/ => read_raft_entry(index, Ghost(f), Ghost(lo), Ghost(hi))
@ret r
@spec
    requires old(self).holds(f, lo, hi), hi <= u64::MAX
    ensures final(self).holds(f, lo, hi), final(self).wal == old(self).wal, r is Ok ==> r->Ok_0 == (if lo < hi { Some(f(hi - 1)) } else { None })
@at start
    proof { reveal(ordered); reveal(linked); }
    proof { assert forall|j: u64| #[trigger] self.entry_cache.view().contains_key(j) implies self.entry_cache.view().contains_key((hi - 1) as u64) && lo < hi by {} 
        if self.files_meta.len() > 0 { assert(self.files_meta@.last().ok()); assert(self.files_meta@[0].min_seq <= self.files_meta@.last().min_seq); } }
@end
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::read_raft_entry_range
@header impl RaftEntryStorageInner
@subst /\(\s*&mut self,\s*start: u64,\s*end: u64,?\s*\)/ => (&mut self, start: u64, end: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /entries_from_cache\(start, end\)/ => entries_from_cache(start, end, Ghost(f), Ghost(lo), Ghost(hi))
@subst /let mut list = vec!\[\];/ => let mut list: Vec<RaftEntry> = vec![];
@subst /for item in self\.files_meta\.iter_mut\(\) \{\s*if let Some\(\(start, end\)\) = item\.intersection\(start, end\) \{/ => let mut ix: usize = 0; while ix < self.files_meta.len() { let ghost vp = self.files_meta@; let item = at_mut(&mut self.files_meta, ix); ix += 1; let ghost i0 = *item; if let Some((a, b)) = item.intersection(start, end) {
@subst /for index in start\.\.end/ => for index in a..b
@subst /get_entry_by_index\(index\)/ => get_entry_by_index(index, Ghost(d))
@ret r
@spec
    requires old(self).holds(f, lo, hi)
    ensures r is Ok ==> final(self).holds(f, lo, hi) && final(self).wal == old(self).wal && r->Ok_0@ =~= seg(f, lo_of(start as int, lo), hi_of(end as int, hi))
@at start
    proof { reveal(ordered); reveal(linked); }
    let ghost d = self.wal.disk(); let ghost w0 = self.wal; let ghost x = lo_of(start as int, lo);
@loop 0
    invariant 0 <= ix <= self.files_meta.len(), self.holds(f, lo, hi), self.wal == w0, d == w0.disk(), x == lo_of(start as int, lo),
        list@ =~= seg(f, x, if ix == 0 { x } else { hi_of(end as int, self.files_meta@[ix - 1].max_seq + 1) })
    decreases self.files_meta.len() - ix
@at loop-end 0
    proof { kept(vp, self.files_meta@, ix - 1, d, f); assert(self.files_meta@[ix - 1].same(vp[ix - 1])); reveal(linked); reveal(ordered); assert(vp[0].ok()); assert(vp[0].min_seq <= vp[ix - 1].min_seq); 
      let pe = if ix == 1 { x } else { hi_of(end as int, vp[ix - 2].max_seq + 1) }; let ne = hi_of(end as int, vp[ix - 1].max_seq + 1);
      if ix > 1 { assert(vp[ix - 1].min_seq == vp[ix - 2].max_seq + 1); }
      if !(lo_of(start as int, vp[ix - 1].min_seq as int) < ne) { assert(seg(f, x, pe) =~= seg(f, x, ne)); } else { assert(i0.has(lo_of(start as int, i0.min_seq as int))); } }
@at before /if let Some\(entry\) = item\.get_entry/
    proof { assert(i0.has(index as int)); assert(vp[ix - 1].has(index as int)); }
@at after-loop 1
    proof { assert(list@ =~= seg(f, x, b as int)); assert(b == hi_of(end as int, i0.max_seq + 1)); }
@at before-loop 1
    proof { reveal(linked); reveal(ordered); if ix > 1 { assert(vp[ix - 1].min_seq == vp[ix - 2].max_seq + 1); } let pe = if ix == 1 { x } else { hi_of(end as int, vp[ix - 2].max_seq + 1) }; assert(spans(vp, lo, hi)); assert(vp[0].min_seq <= i0.min_seq); assert(list@ =~= seg(f, x, pe)); assert(seg(f, x, pe) =~= seg(f, x, a as int)); }
@loop 1
    invariant item.ok(), item.on(d), item.same(i0), self.wal == w0, forall|i: int| a <= i < b <==> #[trigger] i0.has(i) && start <= i < end, vp[ix - 1] == i0, 0 < ix <= vp.len(), says(vp, d, f), x <= a <= index <= b, list@ =~= seg(f, x, index as int)
    decreases b - index
@end
spec fn lo_of(a: int, lo: int) -> int { if a > lo { a } else { lo } }
spec fn hi_of(b: int, hi: int) -> int { if b < hi { b } else { hi } }

//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::mark_delete_before
@header impl RaftEntryStorageInner
@subst /\(&mut self, seq_no: u64\)/ => (&mut self, seq_no: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /let mut delete_file_ids = vec!\[\];/ => let mut delete_file_ids: Vec<u64> = vec![];
@subst /for item in self\.files_meta\.iter_mut\(\) \{/ => let mut ix: usize = 0; while ix < self.files_meta.len() { let item = at_mut(&mut self.files_meta, ix); ix += 1; proof { reveal(ordered); if ix == c + 2 { assert(v0[c + 1].ok()); assert(v0[c].max_seq < v0[c + 1].min_seq); } }
@subst /self\.files_meta\s*\.retain\(\|item\| !delete_file_ids\.contains\(&item\.file_id\)\)/ => retain_others(&mut self.files_meta, &delete_file_ids)
@subst /\s*\.map_err\(\|e\| ReplicationError::RaftInternalErr \{ msg: e\.to_string\(\) \}\)/ =>
@ret r
@spec
    requires old(self).holds(f, lo, hi)
    ensures r is Ok ==> final(self).holds(f, if lo < seq_no { seq_no as int } else { lo }, hi)
@at start
    let ghost d = self.wal.disk(); let ghost v0 = self.files_meta@; let ghost mut c: int = 0;
    proof { if v0.len() > 0 { assert(v0[0].ok()); } }
@loop 0
    invariant_except_break 0 <= ix <= v0.len(), self.files_meta@ == if ix == c { v0 } else { v0.update(c, self.files_meta@[c]) }, ix == c || ix == c + 1 && trimmed(self.files_meta@[c], v0[c], seq_no)
    invariant self.files_meta.len() == v0.len(), 0 <= c <= v0.len(), chain(v0), self.wal.disk() == d, self.entry_cache == old(self).entry_cache, delete_file_ids.len() == c, forall|k: int| 0 <= k < c ==> (#[trigger] v0[k]).max_seq < seq_no && delete_file_ids@[k] == v0[k].file_id
    ensures c == v0.len() && self.files_meta@ == v0 || c < v0.len() && self.files_meta@ == v0.update(c, self.files_meta@[c]) && (trimmed(self.files_meta@[c], v0[c], seq_no) || self.files_meta@[c] == v0[c] && v0[c].min_seq >= seq_no)
    decreases v0.len() - ix
@at after /delete_file_ids\.push\(item\.file_id\);/
    proof { c = c + 1; }
@at before /self\.entry_cache\.del_before\(/
    let ghost v1 = self.files_meta@;
    proof { ids_front(v0, v1, delete_file_ids@, c); filter_front(v1, delete_file_ids@, c); }
@at after /rollback_wal_writer\(&delete_file_ids\)\s*\?;/
    proof { assert forall|k: int| c <= k < v0.len() implies kept_file(d, self.wal.disk(), (#[trigger] v0[k]).file_id) by { assert(v1[k].file_id == v0[k].file_id); assert(v0[k].on(d)); assert(!delete_file_ids@.contains(v1[k].file_id)); }
      rest_front(v0, v1, self.files_meta@, d, self.wal.disk(), f, lo, hi, seq_no as int, c); }
@end
spec fn trimmed(m: WalFileMeta, m0: WalFileMeta, s: u64) -> bool { m0.min_seq < s <= m0.max_seq && m.ok() && m.min_seq == s && m.max_seq == m0.max_seq && m.entry_index@ == m0.entry_index@.skip(s - m0.min_seq) && m.file_id == m0.file_id && m.reader == m0.reader }
proof fn ids_front(v0: Seq<WalFileMeta>, v1: Seq<WalFileMeta>, ids: Seq<u64>, c: int)
    requires chain(v0), v1.len() == v0.len(), forall|k: int| 0 <= k < v1.len() ==> (#[trigger] v1[k]).file_id == v0[k].file_id, 0 <= c <= v0.len(), ids.len() == c, forall|k: int| 0 <= k < c ==> #[trigger] ids[k] == v0[k].file_id
    ensures forall|k: int| 0 <= k < v1.len() ==> (ids.contains((#[trigger] v1[k]).file_id) <==> k < c)
{
    reveal(ordered); reveal(linked);
    assert forall|k: int| 0 <= k < v1.len() implies (ids.contains((#[trigger] v1[k]).file_id) <==> k < c) by {
        if k < c { assert(ids[k] == v1[k].file_id); }
        if ids.contains(v1[k].file_id) { let m = choose|m: int| 0 <= m < ids.len() && ids[m] == v1[k].file_id; if m < k { assert(v0[m].file_id < v0[k].file_id); } }
    }
}
// what stays of the files when the first c are gone
proof fn rest_front(v0: Seq<WalFileMeta>, v1: Seq<WalFileMeta>, v: Seq<WalFileMeta>, d: Disk, e: Disk, f: F, lo: int, hi: int, s: int, c: int)
    requires chain(v0), placed(v0, d), says(v0, d, f), spans(v0, lo, hi), lo < s, 0 <= c <= v0.len(), v1.len() == v0.len(), v == v1.skip(c), forall|k: int| 0 <= k < c ==> (#[trigger] v0[k]).max_seq < s,
        c < v0.len() ==> v1 == v0.update(c, v1[c]) && (trimmed(v1[c], v0[c], s as u64) && 0 <= s <= u64::MAX || v1[c] == v0[c] && v0[c].min_seq >= s),
        forall|k: int| c <= k < v0.len() ==> kept_file(d, e, (#[trigger] v0[k]).file_id)
    ensures chain(v), placed(v, e), says(v, e, f), spans(v, s, hi)
{
    assert(v0.len() > 0 && c == v0.len() ==> v0.last().max_seq < s);
    if c < v0.len() {
        assert(v[0] == v1[c]); assert(v.last() == v1[v1.len() - 1]);
        assert(s <= v[0].min_seq && (c > 0 ==> s == v[0].min_seq)) by { reveal(linked); if c > 0 { assert(v0[c].min_seq == v0[c - 1].max_seq + 1); } }
        assert forall|k: int| 0 < k < v.len() implies (#[trigger] v[k]) == v0[k + c] by {}
        assert(v[0].file_id == v0[c].file_id && v[0].max_seq == v0[c].max_seq && v[0].reader == v0[c].reader);
        assert(linked(v)) by { reveal(linked); assert forall|k: int| 0 < k < v.len() implies (#[trigger] v[k]).min_seq == v[k - 1].max_seq + 1 by { assert(v0[k + c].min_seq == v0[k + c - 1].max_seq + 1); } }
        assert(ordered(v)) by { reveal(ordered); assert forall|k: int, m: int| 0 <= k < m < v.len() implies (#[trigger] v[k]).max_seq < (#[trigger] v[m]).min_seq && v[k].file_id < v[m].file_id by { assert(v0[k + c].max_seq < v0[m + c].min_seq); } }
        assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).ok() && v[k].on(e) && v[k].file_id <= e.cur by { assert(v0[k + c].ok()); assert(v0[k + c].on(d)); assert(kept_file(d, e, v0[k + c].file_id)); }
        assert forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) implies v[k].entry(e, i) == f(i) by { assert(v0[k + c].has(i)); assert(kept_file(d, e, v0[k + c].file_id)); }
    } else { assert(v.len() == 0); reveal(linked); reveal(ordered); }
}
spec fn kept_file(d: Disk, e: Disk, id: u64) -> bool { d.files.contains_key(id) && e.files.contains_key(id) && e.files[id] == d.files[id] && e.cuts[id] == d.cuts[id] && e.size[id] == d.size[id] && id <= e.cur }
//@extract tskv/src/wal/wal_store.rs RaftEntryStorageInner::mark_delete_after
@header impl RaftEntryStorageInner
@subst /\(&mut self, seq_no: u64\)/ => (&mut self, seq_no: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /let mut delete_file_ids = vec!\[\];/ => let mut delete_file_ids: Vec<u64> = vec![];
@subst /let mut truncate = None;/ => let mut truncate: Option<(u64, u64)> = None;
@subst /for item in self\.files_meta\.iter_mut\(\)\.rev\(\) \{/ => let mut ix: usize = self.files_meta.len(); while ix > 0 { ix -= 1; let item = at_mut(&mut self.files_meta, ix); proof { assert(v0[ix as int].ok()); assert(v0[ix as int].on(d)); assert forall|k: int| 0 <= k < item.entry_index.len() implies (#[trigger] item.entry_index@[k]).1 > 0 by {} }
@subst /self\.files_meta\s*\.retain\(\|item\| !delete_file_ids\.contains\(&item\.file_id\)\)/ => retain_others(&mut self.files_meta, &delete_file_ids)
@subst /if let Some\(item\) = self\.files_meta\.last_mut\(\) \{/ => if self.files_meta.len() > 0 { let last = self.files_meta.len() - 1; let item = at_mut(&mut self.files_meta, last);
@subst /\s*\.map_err\(\|e\| ReplicationError::RaftInternalErr \{ msg: e\.to_string\(\) \}\)/ =>
@ret r
@spec
    requires old(self).holds(f, lo, hi)
    ensures r is Ok ==> final(self).holds(f, lo, if seq_no < hi { seq_no as int } else { hi })
@at start
    let ghost d = self.wal.disk(); let ghost v0 = self.files_meta@; let ghost mut c: int = v0.len() as int;
    proof { if v0.len() > 0 { assert(v0.last().ok()); assert(v0[0].ok()); reveal(ordered); assert(v0[0].min_seq <= v0.last().max_seq); } }
@loop 0
    invariant_except_break ix == c, self.files_meta@ == v0, truncate is None
    invariant self.files_meta.len() == v0.len(), 0 <= c <= v0.len(), chain(v0), placed(v0, d), self.wal.disk() == d, self.entry_cache == old(self).entry_cache, delete_file_ids.len() == v0.len() - c, forall|k: int| c <= k < v0.len() ==> (#[trigger] v0[k]).min_seq >= seq_no && delete_file_ids@[v0.len() - 1 - k] == v0[k].file_id
    ensures c == 0 && self.files_meta@ == v0 && truncate is None || c > 0 && v0[c - 1].min_seq < seq_no && if v0[c - 1].max_seq >= seq_no { self.files_meta@ == v0.update(c - 1, self.files_meta@[c - 1]) && shortened(self.files_meta@[c - 1], v0[c - 1], seq_no) && truncate == Some((v0[c - 1].file_id, v0[c - 1].entry_index@[seq_no - v0[c - 1].min_seq].1)) } else { self.files_meta@ == v0 && truncate is None }
    decreases ix
@at after /delete_file_ids\.push\(item\.file_id\);/
    proof { c = c - 1; }
@at before /self\.entry_cache\.del_after\(/
    let ghost v1 = self.files_meta@;
    proof { ids_back(v0, v1, delete_file_ids@, c); filter_back(v1, delete_file_ids@, c); }
@at after /rollback_wal_writer\(&delete_file_ids\)\s*\?;/
    let ghost d1 = self.wal.disk(); let ghost v2 = self.files_meta@;
    proof { assert forall|k: int| 0 <= k < c implies kept_file(d, d1, (#[trigger] v0[k]).file_id) by { assert(v1[k].file_id == v0[k].file_id); assert(v0[k].on(d)); assert(!delete_file_ids@.contains(v1[k].file_id)); }
      if truncate is None { rest_back(v0, self.files_meta@, d, d1, f, lo, hi, seq_no as int, c); }
      else { let z = v0[c - 1]; assert(z.ok()); assert(z.on(d)); assert(kept_file(d, d1, z.file_id)); let (zx, zp) = z.entry_index@[seq_no - z.min_seq]; assert(zp < d.size[z.file_id]); assert(v2.len() == c); } }
@at after /item\.reader = reader;/
    proof { assert(self.files_meta.len() == c); assert forall|k: int| 0 <= k < c - 1 implies kept_file(d1, self.wal.disk(), (#[trigger] v0[k]).file_id) by { reveal(ordered); assert(v0[k].file_id < v0[c - 1].file_id); assert(kept_file(d, d1, v0[k].file_id)); assert(self.wal.disk().files.contains_key(v0[k].file_id)); }
      cut_back(v0, v2, self.files_meta@, d, d1, self.wal.disk(), f, lo, hi, seq_no, c); }
@end
spec fn shortened(m: WalFileMeta, m0: WalFileMeta, s: u64) -> bool { m0.min_seq < s <= m0.max_seq && m.ok() && m.min_seq == m0.min_seq && m.max_seq == s - 1 && m.entry_index@ == m0.entry_index@.take(s - m0.min_seq) && m.file_id == m0.file_id && m.reader == m0.reader }
proof fn ids_back(v0: Seq<WalFileMeta>, v1: Seq<WalFileMeta>, ids: Seq<u64>, c: int)
    requires chain(v0), v1.len() == v0.len(), forall|k: int| 0 <= k < v1.len() ==> (#[trigger] v1[k]).file_id == v0[k].file_id, 0 <= c <= v0.len(), ids.len() == v0.len() - c, forall|k: int| c <= k < v0.len() ==> ids[v0.len() - 1 - k] == (#[trigger] v0[k]).file_id
    ensures forall|k: int| 0 <= k < v1.len() ==> (ids.contains((#[trigger] v1[k]).file_id) <==> k >= c)
{
    reveal(ordered);
    assert forall|k: int| 0 <= k < v1.len() implies (ids.contains((#[trigger] v1[k]).file_id) <==> k >= c) by {
        if k >= c { assert(ids[v0.len() - 1 - k] == v0[k].file_id); }
        if ids.contains(v1[k].file_id) { let m = choose|m: int| 0 <= m < ids.len() && ids[m] == v1[k].file_id; let q = v0.len() - 1 - m; assert(v0[q].file_id == v0[k].file_id); if k < q { assert(v0[k].file_id < v0[q].file_id); } }
    }
}
// what stays of the files when those from c on are gone
proof fn rest_back(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, d: Disk, e: Disk, f: F, lo: int, hi: int, s: int, c: int)
    requires chain(v0), placed(v0, d), says(v0, d, f), spans(v0, lo, hi), s < hi, 0 <= c <= v0.len(), v == v0.take(c), forall|k: int| c <= k < v0.len() ==> (#[trigger] v0[k]).min_seq >= s,
        c > 0 ==> v0[c - 1].max_seq < s, v0.len() > 0,
        forall|k: int| 0 <= k < c ==> kept_file(d, e, (#[trigger] v0[k]).file_id)
    ensures chain(v), placed(v, e), says(v, e, f), spans(v, lo, s)
{
    reveal(ordered); reveal(linked);
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]) == v0[k] by {}
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).ok() && v[k].on(e) && v[k].file_id <= e.cur by { assert(v0[k].ok()); assert(v0[k].on(d)); assert(kept_file(d, e, v0[k].file_id)); }
    assert forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) implies v[k].entry(e, i) == f(i) by { assert(v0[k].has(i)); assert(kept_file(d, e, v0[k].file_id)); }
    if 0 < c < v0.len() { assert(v0[c].min_seq == v0[c - 1].max_seq + 1); assert(v.last() == v0[c - 1]); }
}
// .. and the last of the rest has lost its end
proof fn cut_back(v0: Seq<WalFileMeta>, v2: Seq<WalFileMeta>, v: Seq<WalFileMeta>, d: Disk, d1: Disk, e: Disk, f: F, lo: int, hi: int, s: u64, c: int)
    requires chain(v0), placed(v0, d), says(v0, d, f), spans(v0, lo, hi), 0 < c <= v0.len(), v2.len() == c, v.len() == c, forall|k: int| 0 <= k < c - 1 ==> v[k] == v0[k],
        shortened(v2[c - 1], v0[c - 1], s), v[c - 1].min_seq == v2[c - 1].min_seq, v[c - 1].max_seq == v2[c - 1].max_seq, v[c - 1].entry_index == v2[c - 1].entry_index, v[c - 1].file_id == v2[c - 1].file_id, v[c - 1].reader.fid() == v0[c - 1].file_id, v[c - 1].reader.fresh(e),
        forall|k: int| 0 <= k < c ==> kept_file(d, d1, (#[trigger] v0[k]).file_id),
        e.cur == d1.cur, e.files.contains_key(v0[c - 1].file_id), cut(e.files[v0[c - 1].file_id], d1.files[v0[c - 1].file_id], v0[c - 1].entry_index@[s - v0[c - 1].min_seq].1),
        e.size == d1.size.insert(v0[c - 1].file_id, v0[c - 1].entry_index@[s - v0[c - 1].min_seq].1),
        forall|k: int| 0 <= k < c - 1 ==> kept_file(d1, e, (#[trigger] v0[k]).file_id)
    ensures chain(v), placed(v, e), says(v, e, f), spans(v, lo, s as int)
{
    let z0 = v0[c - 1]; let z = v[c - 1]; let at = z0.entry_index@[s - z0.min_seq].1;
    assert(kept_file(d, d1, z0.file_id)); assert(z0.ok()); assert(z0.on(d)); assert(z.ok());
    cut_one(z0, z, d, e, s);
    assert forall|k: int| 0 <= k < c - 1 implies kept_file(d, e, (#[trigger] v0[k]).file_id) by { assert(kept_file(d, d1, v0[k].file_id)); assert(kept_file(d1, e, v0[k].file_id)); }
    cut_chain(v0, v, lo, hi, s, c);
    assert(z.file_id <= e.cur);
    cut_says(v0, v, d, e, f, c);
}
proof fn cut_chain(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, lo: int, hi: int, s: u64, c: int)
    requires chain(v0), spans(v0, lo, hi), 0 < c <= v0.len(), v.len() == c, forall|k: int| 0 <= k < c - 1 ==> v[k] == v0[k], v[c - 1].ok(), v[c - 1].min_seq == v0[c - 1].min_seq, v[c - 1].max_seq == s - 1, v[c - 1].file_id == v0[c - 1].file_id
    ensures chain(v), spans(v, lo, s as int)
{
    cut_linked(v0, v, c); cut_ordered(v0, v, c);
    assert(v[0].min_seq == v0[0].min_seq);
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).ok() by { if k < c - 1 { assert(v0[k].ok()); } }
}
proof fn cut_linked(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, c: int)
    requires linked(v0), 0 < c <= v0.len(), v.len() == c, forall|k: int| 0 <= k < c - 1 ==> v[k] == v0[k], v[c - 1].min_seq == v0[c - 1].min_seq
    ensures linked(v)
{ reveal(linked); assert forall|k: int| 0 < k < v.len() implies (#[trigger] v[k]).min_seq == v[k - 1].max_seq + 1 by { assert(v0[k].min_seq == v0[k - 1].max_seq + 1); } }
proof fn cut_ordered(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, c: int)
    requires ordered(v0), 0 < c <= v0.len(), v.len() == c, forall|k: int| 0 <= k < c - 1 ==> v[k] == v0[k], v[c - 1].min_seq == v0[c - 1].min_seq, v[c - 1].file_id == v0[c - 1].file_id
    ensures ordered(v)
{ reveal(ordered); assert forall|k: int, m: int| 0 <= k < m < v.len() implies (#[trigger] v[k]).max_seq < (#[trigger] v[m]).min_seq && v[k].file_id < v[m].file_id by { assert(v0[k].max_seq < v0[m].min_seq); } }
proof fn cut_says(v0: Seq<WalFileMeta>, v: Seq<WalFileMeta>, d: Disk, e: Disk, f: F, c: int)
    requires placed(v0, d), says(v0, d, f), 0 < c <= v0.len(), v.len() == c, forall|k: int| 0 <= k < c - 1 ==> v[k] == v0[k], v[c - 1].on(e), v[c - 1].file_id <= e.cur, forall|i: int| v[c - 1].has(i) ==> v0[c - 1].has(i) && #[trigger] v[c - 1].entry(e, i) == v0[c - 1].entry(d, i),
        forall|k: int| 0 <= k < c - 1 ==> kept_file(d, e, (#[trigger] v0[k]).file_id)
    ensures placed(v, e), says(v, e, f)
{
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).on(e) && v[k].file_id <= e.cur by { if k < c - 1 { assert(v0[k].on(d)); assert(kept_file(d, e, v0[k].file_id)); } }
    assert forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) implies v[k].entry(e, i) == f(i) by { if k < c - 1 { assert(v0[k].has(i)); assert(kept_file(d, e, v0[k].file_id)); } else { assert(v[c - 1].entry(e, i) == v0[c - 1].entry(d, i)); assert(v0[k].has(i)); } }
}
proof fn cut_one(z0: WalFileMeta, z: WalFileMeta, d: Disk, e: Disk, s: u64)
    requires z0.ok(), z.ok(), z0.on(d), z0.min_seq < s <= z0.max_seq, z.min_seq == z0.min_seq, z.max_seq == s - 1, z.entry_index@ == z0.entry_index@.take(s - z0.min_seq), z.file_id == z0.file_id, z.reader.fid() == z.file_id, z.reader.fresh(e), e.files.contains_key(z.file_id),
        cut(e.files[z.file_id], d.files[z.file_id], z0.entry_index@[s - z0.min_seq].1), e.size[z.file_id] == z0.entry_index@[s - z0.min_seq].1
    ensures z.on(e), forall|i: int| z.has(i) ==> #[trigger] z.entry(e, i) == z0.entry(d, i)
{
    let at = z0.entry_index@[s - z0.min_seq].1;
    assert forall|k: int| 0 <= k < z.entry_index.len() implies ({ let (x, p) = #[trigger] z.entry_index@[k]; p > 0 && p < e.size[z.file_id] && e.files[z.file_id].contains_key(p) && e.files[z.file_id][p].log_id.index == x && e.files[z.file_id][p] == d.files[z.file_id][p] && z0.entry_index@[k] == (x, p) }) by { let (x, p) = z0.entry_index@[k]; assert(p < at); assert(d.files[z0.file_id].contains_key(p)); assert(e.files[z.file_id].contains_key(p)); }
    assert forall|i: int| z.has(i) implies #[trigger] z.entry(e, i) == z0.entry(d, i) by { let (x, p) = z.entry_index@[i - z.min_seq]; assert(z0.entry_index@[i - z.min_seq] == (x, p)); }
}
// ---- the storage the raft node uses ----
#[verifier::external_body]
struct U64Average { x: u8 }
impl U64Average { #[verifier::external_body] fn add(&mut self, v: u64) { unimplemented!() } }
#[verifier::external_body]
fn micros() -> u64 { unimplemented!() }
//@extract tskv/src/wal/wal_store.rs struct RaftEntryStorage
@end
spec fn appended(f: F, s: Seq<RaftEntry>) -> F decreases s.len() { if s.len() == 0 { f } else { added(appended(f, s.drop_last()), s.last()) } }
spec fn bounds(lo: int, hi: int, s: Seq<RaftEntry>) -> (int, int) { if s.len() == 0 { (lo, hi) } else { (if lo < hi { lo } else { s[0].log_id.index as int }, s.last().log_id.index + 1) } }
spec fn wrote(d: Disk, e: Disk, id: u64, pos: u64, x: RaftEntry) -> bool { grown(d, e, id) && pos > 0 && if id == d.cur { d.files.contains_key(id) && pos == d.size[id] && e.files[id] == d.files[id].insert(pos, x) && e.size[id] > pos } else { !d.files.contains_key(id) && e.files[id] == Map::<u64, RaftEntry>::empty().insert(pos, x) && e.size[id] > pos } }
// an entry written behind the others leaves what there is
proof fn still(v: Seq<WalFileMeta>, d: Disk, e: Disk, id: u64, pos: u64, x: RaftEntry, f: F)
    requires chain(v), placed(v, d), says(v, d, f), wrote(d, e, id, pos, x)
    ensures placed(v, e), says(v, e, f), forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).file_id == id ==> v[k].entry_index@.last().1 < pos
{
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).on(e) && v[k].file_id <= e.cur && (v[k].file_id == id ==> v[k].entry_index@.last().1 < pos) by { let z = v[k]; assert(z.on(d)); assert(z.ok());
        assert forall|i: int| 0 <= i < z.entry_index.len() implies ({ let (y, p) = #[trigger] z.entry_index@[i]; p > 0 && p < e.size[z.file_id] && e.files[z.file_id].contains_key(p) && e.files[z.file_id][p].log_id.index == y && (z.file_id == id ==> p < pos) }) by { let (y, p) = z.entry_index@[i]; assert(d.files[z.file_id].contains_key(p)); }
        let l = z.entry_index@[z.entry_index.len() - 1]; }
    assert forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].has(i) implies v[k].entry(e, i) == f(i) by { let z = v[k]; assert(z.on(d)); assert(z.ok()); let (y, p) = z.entry_index@[i - z.min_seq]; assert(d.files[z.file_id].contains_key(p)); assert(z.entry(d, i) == f(i)); }
}
//@extract tskv/src/wal/wal_store.rs EntryStorage for RaftEntryStorage::append
@header impl RaftEntryStorage
@subst /\(&mut self, entries: &\[RaftEntry\]\)/ => (&mut self, entries: &[RaftEntry], Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /\s*\.map_err\(\|e\| ReplicationError::RaftInternalErr \{ msg: e\.to_string\(\) \}\)/ =>
@subst /let start_time = std::time::Instant::now\(\);/ =>
@subst /start_time\.elapsed\(\)\.as_micros\(\) as u64/ => micros()
@subst /mark_write_wal\(ent\.clone\(\), wal_id, pos\)/ => mark_write_wal(ent.clone(), wal_id, pos, Ghost(appended(f, w)), Ghost(bounds(lo, hi, w).0), Ghost(bounds(lo, hi, w).1))
@ret r
@spec
    requires old(self).inner.holds(f, lo, hi), forall|k: int| 0 <= k < entries.len() ==> (#[trigger] entries@[k]).log_id.index == entries@[0].log_id.index + k, entries.len() > 0 && lo < hi ==> entries@[0].log_id.index == hi, entries.len() > 0 ==> entries@.last().log_id.index < u64::MAX
    ensures r is Ok ==> final(self).inner.holds(appended(f, entries@), bounds(lo, hi, entries@).0, bounds(lo, hi, entries@).1)
@iter 0 it
@loop 0
    invariant 0 <= it.index@ <= entries.len(), entries.len() == it.seq().len(), (forall|k: int| 0 <= k < entries.len() ==> *(#[trigger] it.seq()[k]) == entries@[k]), self.inner.holds(appended(f, entries@.take(it.index@)), bounds(lo, hi, entries@.take(it.index@)).0, bounds(lo, hi, entries@.take(it.index@)).1),
        forall|k: int| 0 <= k < entries.len() ==> (#[trigger] entries@[k]).log_id.index == entries@[0].log_id.index + k, entries.len() > 0 && lo < hi ==> entries@[0].log_id.index == hi, entries.len() > 0 ==> entries@.last().log_id.index < u64::MAX
@at loop-start 0
    let ghost w = entries@.take(it.index@); let ghost v0 = self.inner.files_meta@; let ghost d0 = self.inner.wal.disk(); let ghost n = it.index@;
    proof { if n > 0 { assert(w.last() == entries@[n - 1]); assert(w[0] == entries@[0]); } assert(entries@[n].log_id.index <= entries@.last().log_id.index); }
@at before /self\s*\.inner\s*\.mark_write_wal/
    proof { assert(wrote(d0, self.inner.wal.disk(), wal_id, pos, *ent)); still(v0, d0, self.inner.wal.disk(), wal_id, pos, *ent, appended(f, w)); }
@at loop-end 0
    proof { let w2 = entries@.take(n + 1); assert(w2.drop_last() =~= w); assert(w2.last() == entries@[n]); assert(w2[0] == entries@[0]); }
@at after-loop 0
    proof { assert(entries@.take(entries.len() as int) =~= entries@); }
@end
//@extract tskv/src/wal/wal_store.rs EntryStorage for RaftEntryStorage::del_before
@header impl RaftEntryStorage
@subst /\(&mut self, seq_no: u64\)/ => (&mut self, seq_no: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /mark_delete_before\(seq_no\)/ => mark_delete_before(seq_no, Ghost(f), Ghost(lo), Ghost(hi))
@ret r
@spec
    requires old(self).inner.holds(f, lo, hi)
    ensures r is Ok ==> final(self).inner.holds(f, if lo < seq_no { seq_no as int } else { lo }, hi)
@end
//@extract tskv/src/wal/wal_store.rs EntryStorage for RaftEntryStorage::del_after
@header impl RaftEntryStorage
@subst /\(&mut self, seq_no: u64\)/ => (&mut self, seq_no: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /mark_delete_after\(seq_no\)/ => mark_delete_after(seq_no, Ghost(f), Ghost(lo), Ghost(hi))
@ret r
@spec
    requires old(self).inner.holds(f, lo, hi)
    ensures r is Ok ==> final(self).inner.holds(f, lo, if seq_no < hi { seq_no as int } else { hi })
@end
//@extract tskv/src/wal/wal_store.rs EntryStorage for RaftEntryStorage::entry
@header impl RaftEntryStorage
@subst /\(&mut self, seq_no: u64\)/ => (&mut self, seq_no: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /read_raft_entry\(seq_no\)/ => read_raft_entry(seq_no, Ghost(f), Ghost(lo), Ghost(hi))
@ret r
@spec
    requires old(self).inner.holds(f, lo, hi)
    ensures final(self).inner.holds(f, lo, hi), r is Ok ==> r->Ok_0 == (if lo <= seq_no < hi { Some(f(seq_no as int)) } else { None })
@end
//@extract tskv/src/wal/wal_store.rs EntryStorage for RaftEntryStorage::last_entry
@header impl RaftEntryStorage
@subst /\(&mut self\)/ => (&mut self, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /wal_last_entry\(\)/ => wal_last_entry(Ghost(f), Ghost(lo), Ghost(hi))
@ret r
@spec
    requires old(self).inner.holds(f, lo, hi), hi <= u64::MAX
    ensures final(self).inner.holds(f, lo, hi), r is Ok ==> r->Ok_0 == (if lo < hi { Some(f(hi - 1)) } else { None })
@end
//@extract tskv/src/wal/wal_store.rs EntryStorage for RaftEntryStorage::entries
@header impl RaftEntryStorage
@subst /\(&mut self, begin: u64, end: u64\)/ => (&mut self, begin: u64, end: u64, Ghost(f): Ghost<F>, Ghost(lo): Ghost<int>, Ghost(hi): Ghost<int>)
@subst /read_raft_entry_range\(begin, end\)/ => read_raft_entry_range(begin, end, Ghost(f), Ghost(lo), Ghost(hi))
@ret r
@spec
    requires old(self).inner.holds(f, lo, hi)
    ensures r is Ok ==> final(self).inner.holds(f, lo, hi) && r->Ok_0@ =~= seg(f, lo_of(begin as int, lo), hi_of(end as int, hi))
@end
}
fn main() {}
