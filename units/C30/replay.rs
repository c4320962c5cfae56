//@prelude
mod vnode {
use std::cmp::max; use std::collections::{BTreeMap, HashMap, HashSet}; use std::fmt::Display; use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak}; use std::sync::atomic::{AtomicBool, AtomicU64, Ordering}; use std::cell::{Cell, RefCell};
pub type Timestamp = i64; pub type ColumnFileId = u64; pub type VnodeId = u32; pub type LevelId = u32;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Default, Debug, Clone, Copy, PartialEq, Eq, Hash
@end
impl TimeRange { pub fn new(min_ts: i64, max_ts: i64) -> Self { Self { min_ts, max_ts } } pub fn overlaps(&self, r: &TimeRange) -> bool { !(self.min_ts > r.max_ts || self.max_ts < r.min_ts) } }
// ---- stand-ins: logs, errors, a disk of our own that can fail or lose power at any step ----
macro_rules! debug { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
macro_rules! error { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
macro_rules! info { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
mod trace { macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; } pub(crate) use quiet as info; #[allow(unused)] pub(crate) use quiet as debug; #[allow(unused)] pub(crate) use quiet as error; #[allow(unused)] pub(crate) use quiet as warn; }
#[derive(Debug)]
pub enum TskvError { Eof, Msg(String), FileSystemError { source: String }, RecordFileHashCheckFailed { x: u8 }, RecordFileInvalidDataSize { x: u8 } }
impl Display for TskvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
pub type TskvResult<T> = Result<T, TskvError>;
pub struct IOSnafu;
pub trait Ctx2<T> { fn context(self, c: IOSnafu) -> TskvResult<T>; }
impl<T, E: std::fmt::Debug> Ctx2<T> for Result<T, E> { fn context(self, _c: IOSnafu) -> TskvResult<T> { self.map_err(|e| TskvError::Msg(format!("{e:?}"))) } }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum Fault { None, Fail(u64), Crash(u64) }
pub struct PowerLoss;
thread_local! {
    // what survives: record files, and the data files by path
    pub static DISK: RefCell<BTreeMap<PathBuf, Vec<Vec<u8>>>> = RefCell::new(BTreeMap::new());
    pub static DATA: RefCell<BTreeMap<PathBuf, u64>> = RefCell::new(BTreeMap::new());
    pub static FAULT: Cell<Fault> = Cell::new(Fault::None); pub static STEP: Cell<u64> = Cell::new(0); pub static DEAD: Cell<bool> = Cell::new(false);
    pub static CODEC: RefCell<Vec<VersionEdit>> = RefCell::new(Vec::new());
}
// one step towards the disk; a crash may come before it or after it
fn step<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    if DEAD.with(|d| d.get()) { return Err("power is off".into()); }
    let n = STEP.with(|s| { let n = s.get(); s.set(n + 1); n });
    match FAULT.with(|x| x.get()) {
        Fault::Fail(k) if k == n => return Err(format!("{what} failed")),
        Fault::Crash(k) if k == 2 * n => { DEAD.with(|d| d.set(true)); std::panic::panic_any(PowerLoss) }
        Fault::Crash(k) if k == 2 * n + 1 => { let r = f(); DEAD.with(|d| d.set(true)); let _ = r; std::panic::panic_any(PowerLoss) }
        _ => {}
    }
    Ok(f())
}
pub struct LocalFileSystem;
impl LocalFileSystem {
    pub fn try_exists(p: impl AsRef<Path>) -> bool { DATA.with(|f| f.borrow().contains_key(p.as_ref())) }
    pub fn remove_if_exists(p: impl AsRef<Path>) -> Result<(), String> { step("remove", || DISK.with(|f| { f.borrow_mut().remove(p.as_ref()); })) }
}
mod disk {
    use super::*;
    pub fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> Result<(), String> { step("rename", || DISK.with(|f| { let mut f = f.borrow_mut(); match f.remove(a.as_ref()) { Some(v) => { f.insert(b.as_ref().to_path_buf(), v); Ok(()) } None => Err("rename: no such file".to_string()) } }))? }
    // a data file goes
    pub fn remove_file(p: impl AsRef<Path>) -> Result<(), String> { step("unlink", || DATA.with(|f| { f.borrow_mut().remove(p.as_ref()); })) }
}
mod file_utils {
    use super::*;
//@extract tskv/src/file_utils.rs make_summary_file_tmp
@end
//@extract tskv/src/file_utils.rs make_tsfamily_summary_file
@end
//@extract tskv/src/file_utils.rs make_tsm_file_name
@end
//@extract tskv/src/file_utils.rs make_tsm_file
@end
//@extract tskv/src/file_utils.rs make_delta_file_name
@end
//@extract tskv/src/file_utils.rs make_delta_file
@end
}
use file_utils::{make_delta_file, make_tsm_file};
pub struct Rec { pub data: Vec<u8> }
pub struct Reader { v: Vec<Vec<u8>>, at: usize }
impl Reader {
    pub fn open(p: impl AsRef<Path>) -> TskvResult<Self> { DISK.with(|f| f.borrow().get(p.as_ref()).map(|v| Reader { v: v.clone(), at: 0 }).ok_or(TskvError::Msg("no such file".into()))) }
    pub fn read_record(&mut self) -> TskvResult<Rec> { if self.at >= self.v.len() { return Err(TskvError::Eof); } self.at += 1; let data = self.v[self.at - 1].clone(); if data.is_empty() { return Err(if self.at % 2 == 0 { TskvError::RecordFileInvalidDataSize { x: 0 } } else { TskvError::RecordFileHashCheckFailed { x: 0 } }); } Ok(Rec { data }) }
}
// opened on an existing file, it appends; writes on a file that was renamed or replaced go where the file went
pub struct Writer { p: PathBuf, buf: Vec<Vec<u8>>, size: u64 }
pub enum RecordDataVersion { V1 } impl From<RecordDataVersion> for u8 { fn from(_: RecordDataVersion) -> u8 { 1 } }
pub enum RecordDataType { Summary } impl From<RecordDataType> for u8 { fn from(_: RecordDataType) -> u8 { 0 } }
impl Writer {
    pub fn open(p: impl AsRef<Path>, _n: usize) -> TskvResult<Self> { let p = p.as_ref().to_path_buf(); step("open", || DISK.with(|f| { f.borrow_mut().entry(p.clone()).or_default(); })).map_err(TskvError::Msg)?; let size = DISK.with(|f| f.borrow()[&p].iter().map(|r| r.len() as u64).sum()); Ok(Writer { p, buf: vec![], size }) }
    pub fn path(&self) -> &PathBuf { &self.p }
    pub fn file_size(&self) -> u64 { self.size }
    pub fn write_record(&mut self, _v: u8, _t: u8, d: &[&Vec<u8>]) -> TskvResult<usize> { let d: Vec<u8> = d.iter().flat_map(|x| x.iter().cloned()).collect(); let n = d.len(); step("write", || ()).map_err(TskvError::Msg)?; self.size += n as u64; self.buf.push(d); Ok(n) }
    // a crash in the middle of a write leaves a torn record (empty here); the file goes on behind it
    pub fn sync(&mut self) -> TskvResult<()> { let b = std::mem::take(&mut self.buf); let p = self.p.clone();
        if !b.is_empty() && !DEAD.with(|d| d.get()) { if let Fault::Crash(k) = FAULT.with(|x| x.get()) { if k == 2 * STEP.with(|s| s.get()) && k % 3 != 0 { DISK.with(|f| f.borrow_mut().entry(p.clone()).or_default().push(Vec::new())); } } }
        let r = step("sync", || DISK.with(|f| f.borrow_mut().entry(p).or_default().extend(b))); r.map_err(TskvError::Msg) }
}
// ---- the version and its edits ----
//@extract tskv/src/tsfamily/version.rs enum VnodeAction
@derive PartialEq, Eq, Debug, Clone
@end
//@extract tskv/src/tsfamily/version.rs struct CompactMeta
@derive PartialEq, Eq, Debug, Clone
@end
//@extract tskv/src/tsfamily/version.rs impl Default for CompactMeta
@end
//@extract tskv/src/tsfamily/version.rs impl From<&ColumnFile> for CompactMeta
@end
//@extract tskv/src/tsfamily/version.rs impl CompactMeta
@skip rename_file, relative_path
@end
//@extract tskv/src/tsfamily/version.rs struct VersionEdit
@derive PartialEq, Eq, Debug, Clone
@subst /#\[serde\(skip\)\]/ =>
@end
//@extract tskv/src/tsfamily/version.rs impl Default for VersionEdit
@end
//@extract tskv/src/tsfamily/version.rs impl VersionEdit
@skip encode, decode, encode_vec, decode_vec
@end
impl VersionEdit {
    // bincode: the bytes stand for the edit, the partly deleted files are not kept
    pub fn encode(&self) -> TskvResult<Vec<u8>> { let mut e = self.clone(); e.partly_del_files.clear(); Ok(CODEC.with(|c| { let mut c = c.borrow_mut(); c.push(e); let mut b = ((c.len() - 1) as u64).to_be_bytes().to_vec(); b.resize(60 + 40 * (self.add_files.len() + self.del_files.len()), 0); b })) }
    pub fn decode(b: &[u8]) -> TskvResult<Self> { let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize; Ok(CODEC.with(|c| c.borrow()[n].clone())) }
}
pub struct BloomFilter; impl Default for BloomFilter { fn default() -> Self { BloomFilter } }
pub struct RwLock<T>(std::sync::RwLock<T>);
impl<T> RwLock<T> { pub fn new(t: T) -> Self { RwLock(std::sync::RwLock::new(t)) } pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> { self.0.read().unwrap_or_else(|e| e.into_inner()) } pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> { self.0.write().unwrap_or_else(|e| e.into_inner()) } }
use RwLock as AsyncRwLock; use RwLock as TokioRwLock; use std::sync::RwLockWriteGuard as AsyncRwLockWriteGuard;
pub struct TsmReader;
pub struct ShardedAsyncCache<K, V>(std::marker::PhantomData<(K, V)>);
impl<K, V> ShardedAsyncCache<K, V> { pub fn create_lru_sharded_cache(_n: usize) -> Self { Self(std::marker::PhantomData) } pub fn remove(&self, _k: &K) {} }
mod tokio { pub fn spawn<T>(_x: T) {} }
mod tsm { pub const TOMBSTONE_FILE_SUFFIX: &str = "tombstone"; }
fn tombstone_compact_tmp_path(p: &Path) -> TskvResult<PathBuf> { Ok(p.with_extension("tombstone_compact_tmp")) }
#[derive(Debug)] pub struct StorageOptions { pub max_summary_size: u64 }
impl StorageOptions {
    pub fn ts_family_dir(&self, owner: &str, id: VnodeId) -> PathBuf { PathBuf::from("/data").join(owner).join(id.to_string()) }
    pub fn tsm_dir(&self, owner: &str, id: VnodeId) -> PathBuf { self.ts_family_dir(owner, id).join("tsm") }
    pub fn delta_dir(&self, owner: &str, id: VnodeId) -> PathBuf { self.ts_family_dir(owner, id).join("delta") }
    pub fn level_max_file_size(&self, l: u32) -> u64 { l as u64 * 1000 }
}
//@extract tskv/src/tsfamily/column_file.rs struct ColumnFile
@derive
@end
//@extract tskv/src/tsfamily/column_file.rs impl ColumnFile
@skip maybe_contains_series_id, load_bloom_filter, contains_any_series_id, contains_any_field_id, update_tag_value, new, set_series_id_filter
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::mark_deleted
@end
//@extract tskv/src/tsfamily/column_file.rs ColumnFile::write_lock_compacting
@end
//@extract tskv/src/tsfamily/column_file.rs impl Drop for ColumnFile
@subst /std::fs::/ => disk::
@subst /tokio::spawn\(move \{/ => tokio::spawn({
@end
//@extract tskv/src/tsfamily/level_info.rs struct LevelInfo
@derive Clone
@end
//@extract tskv/src/tsfamily/level_info.rs impl LevelInfo
@skip overlaps_column_files
@end
//@extract tskv/src/tsfamily/version.rs struct Version
@derive
@end
//@extract tskv/src/tsfamily/version.rs impl Version
@skip get_tsm_reader, statistics, remove_tsm_reader_cache, levels_info_mut, inner, get_ts_overlap
@end
// ---- the vnode ----
#[derive(Clone)] pub struct Runtime;
pub struct Options { pub storage: Arc<StorageOptions> }
pub struct TsKvContext { pub options: Options, pub runtime: Runtime }
pub struct Config; impl Config { pub fn max_cache_readers(&self) -> u64 { 4 } }
pub struct DatabaseSchema { pub o: String, pub config: Config } impl DatabaseSchema { pub fn owner(&self) -> String { self.o.clone() } }
//@extract common/utils/src/id_generator.rs struct IDGenerator
@derive Clone
@end
//@extract common/utils/src/id_generator.rs impl IDGenerator
@end
pub struct MemCache; type SyncRwLock<T> = RwLock<T>;
pub struct TseriesFamily { pub tf_id: VnodeId, pub owner: Arc<String>, pub v: Arc<Version> }
impl TseriesFamily {
    pub fn version(&self) -> Arc<Version> { self.v.clone() } pub fn owner(&self) -> Arc<String> { self.owner.clone() } pub fn tf_id(&self) -> VnodeId { self.tf_id }
    pub fn new_version(&mut self, v: Arc<Version>, _c: Option<&Vec<Arc<RwLock<MemCache>>>>) { self.v = v; }
}
//@extract tskv/src/tsfamily/tseries_family.rs TseriesFamily::build_version_edit
@end
fn install_tombstones_for_tsm_readers(_r: Runtime, _p: Vec<PathBuf>, _v: Arc<Version>) -> TskvResult<()> { Ok(()) }
//@extract tskv/src/tsfamily/summary.rs const SUMMARY_BUFFER_SIZE
@end
//@extract tskv/src/tsfamily/summary.rs struct Summary
@end
//@extract tskv/src/tsfamily/summary.rs struct SummaryRequest
@end
//@extract tskv/src/tsfamily/summary.rs impl Summary
@subst /std::fs::rename/ => disk::rename
@end
//@helpers
}
use vnode::*; use std::collections::{BTreeMap, BTreeSet}; use std::sync::Arc; use std::panic::{catch_unwind, AssertUnwindSafe};
const OWNER: &str = "tenant.db"; const VN: u32 = 7;
type Facts = BTreeMap<u64, (u32, u64, i64, i64)>; // id -> level, size, min, max
struct Vnode { summary: Summary, tsf: Arc<RwLock<TseriesFamily>>, schema: DatabaseSchema }
fn opts(max: u64) -> Arc<StorageOptions> { Arc::new(StorageOptions { max_summary_size: max }) }
fn facts(v: &Version) -> Result<Facts, String> {
    let mut m = Facts::new(); let o = opts(0);
    for (i, l) in v.levels_info().iter().enumerate() { for f in &l.files {
        if f.level() as usize != i || l.level as usize != i { return Err(format!("file {} of level {} lies on level {i}", f.file_id(), f.level())); }
        let want = if i == 0 { o.delta_dir(OWNER, VN).join(format!("_{:06}.delta", f.file_id())) } else { o.tsm_dir(OWNER, VN).join(format!("_{:06}.tsm", f.file_id())) };
        if *f.file_path() != want { return Err(format!("file {} is looked for at {:?}, not {:?}", f.file_id(), f.file_path(), want)); }
        if m.insert(f.file_id(), (f.level(), f.size(), f.time_range().min_ts, f.time_range().max_ts)).is_some() { return Err(format!("file {} is there twice", f.file_id())); }
    } }
    Ok(m)
}
fn path_of(level: u32, id: u64) -> std::path::PathBuf { let o = opts(0); if level == 0 { o.delta_dir(OWNER, VN).join(format!("_{id:06}.delta")) } else { o.tsm_dir(OWNER, VN).join(format!("_{id:06}.tsm")) } }
fn ctx(max: u64) -> Arc<TsKvContext> { Arc::new(TsKvContext { options: Options { storage: opts(max) }, runtime: Runtime }) }
fn empty_version(max: u64, seq: u64) -> Version { let o = Arc::new(OWNER.to_string()); Version::new(VN, o.clone(), opts(max), seq, LevelInfo::init_levels(o, VN, opts(max)), i64::MIN, Arc::new(ShardedAsyncCache::create_lru_sharded_cache(1))) }
fn summary_file() -> std::path::PathBuf { opts(0).ts_family_dir(OWNER, VN).join("summary") }
// as the node opens a vnode: recover it, or add it if there is none
fn open(max: u64) -> Result<Vnode, String> {
    let mut summary = Summary::new(VN, ctx(max), summary_file()).map_err(|e| e.to_string())?;
    let schema = DatabaseSchema { o: OWNER.to_string(), config: Config };
    let tsf = |v| Arc::new(RwLock::new(TseriesFamily { tf_id: VN, owner: Arc::new(OWNER.to_string()), v: Arc::new(v) }));
    if let Some(v) = summary.recover(&schema).map_err(|e| e.to_string())? { return Ok(Vnode { summary, tsf: tsf(v), schema }); }
    let t = tsf(empty_version(max, 0));
    summary.apply_version_edit(&SummaryRequest { version_edit: VersionEdit::new_add_vnode(VN, OWNER.to_string(), 0), mem_caches: None, file_metas: None, ts_family: t.clone() }).map_err(|e| e.to_string())?;
    Ok(Vnode { summary, tsf: t, schema })
}
fn scenario(seed: u64, steps: usize, faults: bool) -> Result<(), String> {
    DISK.with(|d| d.borrow_mut().clear()); DATA.with(|d| d.borrow_mut().clear()); CODEC.with(|d| d.borrow_mut().clear()); FAULT.with(|f| f.set(Fault::None)); DEAD.with(|d| d.set(false));
    let mut r = vx::Rng(seed); let max = r.pick(&[1u64, 150, 400, 700, 2000, 1 << 30]);
    let mut vn = open(max)?; let mut model = Facts::new(); let mut seq = 0u64; let mut top = 0u64; // top: no id up to here is ever to be used again
    for n in 0..steps {
        // an edit as flush, compaction or a snapshot makes it
        let kind = r.below(10); let mut after = model.clone(); let mut ve = VersionEdit::new_update_vnode(VN, OWNER.to_string(), 0); let mut made = vec![]; let what;
        let add = |ve: &mut VersionEdit, after: &mut Facts, made: &mut Vec<u64>, id: u64, level: u32, r: &mut vx::Rng| { let a = r.below(100) as i64 - 50; let b = a + r.below(60) as i64; let sz = 1 + r.below(1000); DATA.with(|d| { d.borrow_mut().insert(path_of(level, id), sz); }); ve.add_file(CompactMeta::new(VN, id, sz, level, a, b), b); after.insert(id, (level, sz, a, b)); made.push(id); };
        let mut reset = false;
        if kind < 5 || model.is_empty() {
            what = "flush"; let s = seq + r.below(4); ve.seq_no = s;
            for lv in 0..=r.below(2) as u32 { let id = vn.summary.next_file_id(); if model.contains_key(&id) || id <= top { return Err(format!("step {n}: the id {id} is given out again")); } add(&mut ve, &mut after, &mut made, id, lv, &mut r); }
        } else if kind < 9 {
            what = "compaction"; let gone: Vec<u64> = model.keys().filter(|_| r.chance(1, 2)).cloned().collect();
            for g in &gone { ve.del_file(model[g].0, *g, model[g].0 == 0); after.remove(g); }
            for _ in 0..r.below(3) { let id = vn.summary.next_file_id(); if model.contains_key(&id) || id <= top { return Err(format!("step {n}: the id {id} is given out again")); } let lv = 1 + r.below(4) as u32; add(&mut ve, &mut after, &mut made, id, lv, &mut r); }
            if r.chance(1, 4) { if let Some((id, f)) = after.iter().next() { ve.del_file_part(f.0, *id, f.2, f.3); } }
        } else {
            what = "snapshot"; reset = true; let mut e = vn.tsf.read().build_version_edit(); e.seq_no += r.below(3); e.update_vnode_id(VN); after.clear();
            vn.summary = Summary::new(VN, ctx(max), summary_file()).map_err(|e| e.to_string())?;
            for f in e.add_files.iter_mut() { let id = vn.summary.next_file_id(); let sz = f.file_size; DATA.with(|d| { d.borrow_mut().insert(path_of(f.level, id), sz); }); f.file_id = id; after.insert(id, (f.level, f.file_size, f.min_ts, f.max_ts)); made.push(id); }
            vn.tsf = Arc::new(RwLock::new(TseriesFamily { tf_id: VN, owner: Arc::new(OWNER.to_string()), v: Arc::new(empty_version(max, e.seq_no)) })); ve = e;
        }
        let seq2 = if reset { ve.seq_no } else { seq.max(ve.seq_no) };
        STEP.with(|s| s.set(0)); let fault = if faults && !reset { match r.below(4) { 0 => Fault::Fail(r.below(8)), 1 => Fault::Crash(r.below(14)), _ => Fault::None } } else { Fault::None };
        let fin_top = ve.add_files.iter().map(|m| m.file_id).max().unwrap_or(0);
        FAULT.with(|f| f.set(fault));
        let req = SummaryRequest { version_edit: ve, mem_caches: None, file_metas: None, ts_family: vn.tsf.clone() };
        let res = catch_unwind(AssertUnwindSafe(|| vn.summary.apply_version_edit(&req)));
        FAULT.with(|f| f.set(Fault::None)); let at = format!("step {n} ({what}, {fault:?})");
        match res {
            Err(p) => {
                if p.downcast_ref::<PowerLoss>().is_none() { if fault == Fault::None { return Err(format!("{at}: panicked")); } DEAD.with(|d| d.set(true)); }
                drop(req); let old = vn; drop(old); DEAD.with(|d| d.set(false));
                vn = open(max).map_err(|e| format!("{at}: after the crash: {e}"))?;
                let got = facts(&vn.tsf.read().v)?; let s = vn.tsf.read().v.last_seq();
                if !(got == model && s == seq) && !(got == after && s == seq2) { return Err(format!("{at}: after the crash the vnode has {got:?} (seq {s}), before it {model:?} (seq {seq}), the edit makes {after:?} (seq {seq2})")); }
                if got == after { top = top.max(fin_top); } model = got; seq = s;
            }
            Ok(x) => {
                if x.is_err() && fault == Fault::None { return Err(format!("{at}: {x:?}")); }
                let got = facts(&vn.tsf.read().v)?; let s = vn.tsf.read().v.last_seq();
                if got == after && s == seq2 && (x.is_ok() || after != model) { model = after; seq = seq2; top = if reset { fin_top } else { top.max(fin_top) }; }
                else if x.is_err() && got == model && s == seq {}
                else { return Err(format!("{at}: the vnode has {got:?} (seq {s}), not {after:?} (seq {seq2}); the edit gave {x:?}")); }
            }
        }
        // the files are there, and a restart now would come up with them
        for (id, f) in &model { if !DATA.with(|d| d.borrow().contains_key(&path_of(f.0, *id))) { return Err(format!("{at}: file {id} of level {} is gone from the disk", f.0)); } }
        let again = Summary::new(VN, ctx(max), summary_file()).and_then(|s| s.recover(&vn.schema).map(|v| (s, v)));
        match again { Err(e) => return Err(format!("{at}: restart: {e}")), Ok((_, None)) => return Err(format!("{at}: after a restart there is no vnode")),
            Ok((s, Some(v))) => { let got = facts(&v)?; if got != model || v.last_seq() != seq { return Err(format!("{at}: a restart comes up with {got:?} (seq {}), the vnode has {model:?} (seq {seq})", v.last_seq())); }
                let id = s.next_file_id(); if id <= top || model.keys().any(|k| *k >= id) { return Err(format!("{at}: after a restart the next file gets id {id}, ids up to {top} were used")); } } }
        if r.chance(1, 8) { vn = open(max)?; let used: BTreeSet<u64> = model.keys().cloned().collect(); let _ = used; }
    }
    Ok(())
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut h = H::new();
    for (name, faults, count) in [("history", false, h.scale(400, 6000)), ("faults", true, h.scale(1600, 30000))] {
        for i in 0..count { let mut r = h.rng(i as u64 + if faults { 1 << 20 } else { 0 }); let seed = r.next(); let steps = 3 + r.below(20) as usize;
            h.case(name, vx::hash(&(seed, steps)), &|| format!("{name}: {steps} version edits of seed {seed}"), &mut || scenario(seed, steps, faults)); }
    }
    h.done();
}
