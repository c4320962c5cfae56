//@prelude
mod tomb {
use std::cmp::{self, max, min}; use std::collections::{BTreeMap, HashMap}; use std::fmt::Display; use std::ops::Bound as StdBound;
use std::path::{Path, PathBuf}; use std::sync::Arc; use std::cell::{Cell, RefCell}; use std::rc::Rc;
pub type Timestamp = i64; pub type SeriesId = u32; pub type ColumnId = u32; pub type ColumnFileId = u64;
//@extract common/models/src/predicate/domain.rs struct TimeRange
@derive Default, Debug, Clone, Copy, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl From<(StdBound<i64>,StdBound<i64>)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl PartialOrd for TimeRange
@end
//@extract common/models/src/predicate/domain.rs impl Ord for TimeRange
@end
//@extract common/models/src/predicate/domain.rs struct TimeRanges
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl TimeRanges
@end
//@extract common/models/src/predicate/domain.rs impl From<(Timestamp,Timestamp)> for TimeRanges
@end
impl Display for TimeRanges { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
// ---- stand-ins: logs, errors, the file system (in memory), record files as lists of records ----
macro_rules! debug { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
macro_rules! error { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
mod trace { macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; } pub(crate) use quiet as info; pub(crate) use quiet as debug; pub(crate) use quiet as error; pub(crate) use quiet as warn; }
#[derive(Debug)]
pub enum TskvError { Eof, Msg(String), FileSystemError { source: String }, RecordFileHashCheckFailed { x: u8 }, RecordFileInvalidDataSize { x: u8 } }
impl Display for TskvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
pub type TskvResult<T> = Result<T, TskvError>;
struct TombstoneSnafu<A> { message: A } impl<A: Into<String>> TombstoneSnafu<A> { fn build(self) -> TskvError { TskvError::Msg(self.message.into()) } }
struct InvalidFileNameSnafu<A, B> { file_name: A, message: B } impl<A: Into<String>, B: Into<String>> InvalidFileNameSnafu<A, B> { fn build(self) -> TskvError { TskvError::Msg(self.message.into() + &self.file_name.into()) } }
thread_local! { pub static FS: RefCell<BTreeMap<PathBuf, Rc<RefCell<Vec<(u8, Vec<u8>)>>>>> = RefCell::new(BTreeMap::new()); pub static FAIL: Cell<i64> = Cell::new(-1); }
pub struct LocalFileSystem;
impl LocalFileSystem {
    pub fn try_exists(p: impl AsRef<Path>) -> bool { FS.with(|f| f.borrow().contains_key(p.as_ref())) }
    pub fn remove_if_exists(p: impl AsRef<Path>) -> Result<(), String> { FS.with(|f| f.borrow_mut().remove(p.as_ref())); Ok(()) }
    pub fn remove(p: impl AsRef<Path>) -> Result<(), String> { FS.with(|f| f.borrow_mut().remove(p.as_ref()).map(|_| ()).ok_or("no such file".to_string())) }
}
mod file_utils {
    pub fn get_tsm_file_id_by_path(_p: impl AsRef<Path>) -> TskvResult<ColumnFileId> { Ok(7) }
    use super::*;
    pub fn make_tsm_tombstone_file(p: impl AsRef<Path>, id: ColumnFileId) -> PathBuf { p.as_ref().join(format!("_{id:06}.tombstone")) }
    pub fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> TskvResult<()> { FS.with(|f| { let mut f = f.borrow_mut(); match f.remove(a.as_ref()) { Some(v) => { f.insert(b.as_ref().to_path_buf(), v); Ok(()) } None => Err(TskvError::Msg("rename".into())) } }) }
}
pub mod record_file {
    use super::*;
    #[derive(Debug)]
    pub struct Record { pub data_type: u8, pub data_version: u8, pub data: Vec<u8>, pub pos: u64 }
    pub struct Reader { v: Vec<(u8, Vec<u8>)>, at: usize }
    impl Reader {
        pub fn open(p: impl AsRef<Path>) -> TskvResult<Self> { FS.with(|f| f.borrow().get(p.as_ref()).map(|v| Reader { v: v.borrow().clone(), at: 0 }).ok_or(TskvError::Msg("no such file".into()))) }
        pub fn read_record(&mut self) -> TskvResult<Record> { if self.at >= self.v.len() { return Err(TskvError::Eof); } let (t, d) = self.v[self.at].clone(); self.at += 1; if t == 255 { return Err(if self.at % 2 == 0 { TskvError::RecordFileInvalidDataSize { x: 0 } } else { TskvError::RecordFileHashCheckFailed { x: 0 } }); } Ok(Record { data_type: t, data_version: 1, data: d, pos: self.at as u64 }) }
    }
    // opened on an existing file, it appends; it keeps writing to the file it opened, renamed over or not
    pub struct Writer { f: Rc<RefCell<Vec<(u8, Vec<u8>)>>> }
    impl Writer {
        pub fn open(p: impl AsRef<Path>, _n: usize) -> TskvResult<Self> { Ok(Writer { f: FS.with(|f| f.borrow_mut().entry(p.as_ref().to_path_buf()).or_default().clone()) }) }
        pub fn write_record(&mut self, _v: u8, t: u8, d: &[&[u8]]) -> TskvResult<usize> {
            let n = FAIL.with(|x| { let n = x.get(); if n >= 0 { x.set(n - 1); } n }); if n == 0 { return Err(TskvError::Msg("disk full".into())); }
            let d = d.concat(); let n = d.len(); self.f.borrow_mut().push((t, d)); Ok(n) }
        pub fn close(&mut self) -> TskvResult<()> { Ok(()) }
        pub fn sync(&mut self) -> TskvResult<()> { Ok(()) }
    }
}
//@extract tskv/src/record_file/mod.rs enum RecordDataType
@derive Debug, Eq, PartialEq
@end
//@extract tskv/src/record_file/mod.rs enum RecordDataVersion
@derive Debug, Eq, PartialEq
@end
pub struct RwLock<T>(std::sync::RwLock<T>);
impl<T> RwLock<T> { pub fn new(t: T) -> Self { RwLock(std::sync::RwLock::new(t)) } pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> { self.0.read().unwrap_or_else(|e| e.into_inner()) } pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> { self.0.write().unwrap_or_else(|e| e.into_inner()) } }
pub struct AsyncMutex<T>(std::sync::Mutex<T>);
impl<T> AsyncMutex<T> { pub fn new(t: T) -> Self { AsyncMutex(std::sync::Mutex::new(t)) } pub fn lock(&self) -> std::sync::MutexGuard<'_, T> { self.0.lock().unwrap_or_else(|e| e.into_inner()) } }
pub struct BloomFilter(pub Vec<u32>);
impl BloomFilter { pub fn maybe_contains(&self, b: &[u8]) -> bool { self.0.iter().any(|s| s.to_be_bytes() == b) } }
mod byte_utils {
    pub fn decode_be_u32(k: &[u8]) -> u32 { u32::from_be_bytes(k[..4].try_into().unwrap()) }
    pub fn decode_be_i64(k: &[u8]) -> i64 { i64::from_be_bytes(k[..8].try_into().unwrap()) }
}
//@extract tskv/src/tsm/tombstone.rs const MAX_RECORD_LEN
@end
//@extract tskv/src/tsm/tombstone.rs const MAX_RECORD_TIME_RANGES_NUM
@end
//@extract tskv/src/tsm/tombstone.rs const TOMBSTONE_HEADER_LEN_ALL
@end
//@extract tskv/src/tsm/tombstone.rs const TOMBSTONE_HEADER_LEN_ONE
@end
//@extract tskv/src/tsm/tombstone.rs const TOMBSTONE_BUFFER_SIZE
@end
//@extract tskv/src/tsm/tombstone.rs const FIELD_TYPE_ONE
@end
//@extract tskv/src/tsm/tombstone.rs const FIELD_TYPE_ALL
@end
//@extract tskv/src/tsm/tombstone.rs enum TombstoneField
@derive Debug, Clone, Copy, PartialEq, Eq
@end
//@extract tskv/src/tsm/tombstone.rs struct Tombstone
@derive Debug, Clone
@end
//@extract tskv/src/tsm/tombstone.rs struct TsmTombstone
@end
//@extract tskv/src/tsm/tombstone.rs impl TsmTombstone
@end
//@extract tskv/src/tsm/tombstone.rs write_tombstone_record
@end
//@extract tskv/src/tsm/tombstone.rs tombstone_compact_tmp_path
@end
//@extract tskv/src/tsm/tombstone.rs struct TsmTombstoneCache
@derive Clone
@end
//@extract tskv/src/tsm/tombstone.rs impl Default for TsmTombstoneCache
@end
//@extract tskv/src/tsm/tombstone.rs impl TsmTombstoneCache
@end
//@helpers
}
use tomb::*; use std::collections::BTreeSet; use std::path::Path; use std::sync::Arc;
fn block_on<T>(x: T) -> T { x } // the extraction drops async and await
// times that tell: a small grid and the ends of the line
const PTS: [i64; 16] = [i64::MIN, i64::MIN + 1, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, i64::MAX - 1, i64::MAX];
type K = (u32, u32);
#[derive(Clone, Default)]
struct Model { one: BTreeSet<(K, i64)>, all: BTreeSet<i64> }
impl Model {
    fn gone(&self, k: K, t: i64) -> bool { self.all.contains(&t) || self.one.contains(&(k, t)) }
}
const KS: [K; 5] = [(1, 1), (1, 2), (2, 1), (2, 0x01000002), (0x01000001, 1)];
fn ranges_at(v: &[TimeRange], t: i64) -> bool { v.iter().any(|r| r.min_ts <= t && t <= r.max_ts) }
fn agree(what: &str, z: &TsmTombstone, m: &Model) -> Result<(), String> {
    for span in [TimeRange::new(i64::MIN, i64::MAX), TimeRange::new(-2, 3), TimeRange::new(4, 4), TimeRange::new(0, i64::MAX)] {
        let all = z.get_all_fields_excluded_time_range(&span);
        for &t in PTS.iter().filter(|t| span.min_ts <= **t && **t <= span.max_ts) {
            if ranges_at(&all, t) != m.all.contains(&t) { return Err(format!("{what}: rows at {t} deleted for all columns = {}, want {}", ranges_at(&all, t), m.all.contains(&t))); }
        }
        for k in KS { let one = z.get_column_overlapped_time_ranges(k.0, k.1, &span);
            for &t in PTS.iter().filter(|t| span.min_ts <= **t && **t <= span.max_ts) {
                let got = ranges_at(&one, t) || ranges_at(&all, t);
                if got != m.gone(k, t) { return Err(format!("{what}: series {} column {} at {t}: deleted = {got}, want {}", k.0, k.1, m.gone(k, t))); }
            }
        }
    }
    if z.is_empty() && !(m.one.is_empty() && m.all.is_empty()) { return Err(format!("{what}: is_empty, but something is deleted")); }
    Ok(())
}
#[derive(Clone, Debug)]
enum Op { Del(Vec<K>, i64, i64, Option<Vec<u32>>), Tmp(i64, i64), TmpFails(i64, i64, i64), Swap, Reopen, Flush, LoadCache, Stale, Torn }
fn run(ops: &[Op]) -> Result<(), String> {
    FS.with(|f| f.borrow_mut().clear()); FAIL.with(|f| f.set(-1));
    let dir = Path::new("/d"); let id = 7u64;
    let mut z = block_on(TsmTombstone::open(dir, id)).map_err(|e| format!("open: {e}"))?;
    let mut m = Model::default(); let mut tmp: Option<Model> = None; let mut ever = false;
    for (i, op) in ops.iter().enumerate() {
        let what = format!("after step {i} {op:?}");
        match op {
            Op::Del(ks, a, b, f) => {
                block_on(z.add_range(ks, TimeRange::new(*a, *b), f.clone().map(|v| Arc::new(BloomFilter(v))))).map_err(|e| format!("{what}: {e}"))?; ever = true;
                for k in ks { if f.as_ref().map_or(true, |f| f.contains(&k.0)) { for t in PTS { if *a <= t && t <= *b { m.one.insert((*k, t)); } } } }
            }
            Op::Tmp(a, b) => {
                let r = block_on(z.add_range_and_compact_to_tmp(TimeRange::new(*a, *b))).map_err(|e| format!("{what}: {e}"))?; ever = true;
                let mut n = m.clone(); for t in PTS { if *a <= t && t <= *b { n.all.insert(t); } }
                let rs: Vec<TimeRange> = r.time_ranges().collect();
                for t in PTS { if ranges_at(&rs, t) != n.all.contains(&t) { return Err(format!("{what}: returned ranges say {} at {t}", ranges_at(&rs, t))); } }
                tmp = Some(n);
            }
            Op::TmpFails(a, b, n) => { FAIL.with(|f| f.set(*n)); let r = block_on(z.add_range_and_compact_to_tmp(TimeRange::new(*a, *b))); let left = FAIL.with(|f| f.replace(-1)); if r.is_ok() != (left >= 0) { return Err(format!("{what}: result {} though writing {}", r.is_ok(), if left >= 0 { "worked" } else { "failed" })); }
                if r.is_ok() { let mut x = m.clone(); for t in PTS { if *a <= t && t <= *b { x.all.insert(t); } } tmp = Some(x); } else { tmp = None; } }
            // the swap only follows a compaction that succeeded
            Op::Swap => { if FS.with(|f| f.borrow().keys().any(|p| p.to_string_lossy().ends_with(".compact.tmp"))) != tmp.is_some() { if tmp.is_some() { return Err(format!("{what}: no temporary file")); } continue; }
                block_on(z.replace_with_compact_tmp()).map_err(|e| format!("{what}: {e}"))?; if let Some(t) = tmp.take() { m = t; } }
            Op::Reopen => { drop(z); z = block_on(TsmTombstone::open(dir, id)).map_err(|e| format!("{what}: {e}"))?; }
            Op::Flush => block_on(z.flush()).map_err(|e| format!("{what}: {e}"))?,
            Op::LoadCache => { let p = dir.join("_000007.tombstone"); let c = block_on(TsmTombstoneCache::load(&p)).map_err(|e| format!("{what}: {e}"))?;
                match c { None => if !m.one.is_empty() || !m.all.is_empty() { return Err(format!("{what}: no tombstones found")); }, Some(c) => {
                    let all: Vec<TimeRange> = c.all_excluded().time_ranges().collect(); for t in PTS { if ranges_at(&all, t) != m.all.contains(&t) { return Err(format!("{what}: loaded all-columns ranges say {} at {t}", ranges_at(&all, t))); } } } } }
            // a crash tore the record being written
            Op::Torn => { let p = dir.join("_000007.tombstone"); drop(z); FS.with(|f| { if let Some(v) = f.borrow_mut().get_mut(&p) { v.borrow_mut().push((255, vec![1])); } }); z = block_on(TsmTombstone::open(dir, id)).map_err(|e| format!("{what}: {e}"))?; }
            // a record of the old format, written before an upgrade
            Op::Stale => { let p = dir.join("_000007.tombstone"); FS.with(|f| { let mut d = vec![]; d.extend_from_slice(&2u32.to_be_bytes()); d.extend_from_slice(&0x01000002u32.to_be_bytes()); d.extend_from_slice(&(-2i64).to_be_bytes()); d.extend_from_slice(&3i64.to_be_bytes()); f.borrow_mut().entry(p).or_default().borrow_mut().push((RecordDataType::TombstoneV1 as u8, d)); });
                for t in PTS { if -2 <= t && t <= 3 { m.one.insert(((2, 0x01000002), t)); } } drop(z); z = block_on(TsmTombstone::open(dir, id)).map_err(|e| format!("{what}: {e}"))?; }
        }
        let _ = ever; agree(&what, &z, &m)?;
    }
    drop(z); let z = block_on(TsmTombstone::open(dir, id)).map_err(|e| format!("reopened: {e}"))?; agree("reopened", &z, &m)
}
// many ranges: more than a record holds
fn many(n: i64, cols: u32) -> Result<(), String> {
    FS.with(|f| f.borrow_mut().clear()); FAIL.with(|f| f.set(-1));
    let dir = Path::new("/d"); let z = block_on(TsmTombstone::open(dir, 1)).map_err(|e| e.to_string())?;
    let ks: Vec<K> = (0..cols).map(|c| (c, 1)).collect();
    for i in 0..n { block_on(z.add_range(&ks, TimeRange::new(10 * i, 10 * i + 3), None)).map_err(|e| e.to_string())?; }
    let check = |z: &TsmTombstone, w: &str| -> Result<(), String> { for k in ks.iter().step_by(1 + ks.len() / 7) { let v = z.get_column_overlapped_time_ranges(k.0, k.1, &TimeRange::new(i64::MIN, i64::MAX)); for i in 0..n { for (t, want) in [(10 * i - 1, false), (10 * i, true), (10 * i + 3, true), (10 * i + 4, false)] { if ranges_at(&v, t) != want { return Err(format!("{w}: {n} ranges on {cols} columns: column {k:?} at {t} deleted = {}", !want)); } } } } Ok(()) };
    check(&z, "live")?; drop(z);
    let z = block_on(TsmTombstone::open(dir, 1)).map_err(|e| e.to_string())?; check(&z, "reopened")?;
    for i in 0..n { block_on(z.add_range_and_compact_to_tmp(TimeRange::new(-100 - 10 * i, -100 - 10 * i + 2))).map_err(|e| e.to_string())?; if i > 2 { break; } }
    block_on(z.replace_with_compact_tmp()).map_err(|e| e.to_string())?; check(&z, "compacted")?; drop(z);
    let z = block_on(TsmTombstone::open(dir, 1)).map_err(|e| e.to_string())?; check(&z, "compacted and reopened")
}
// many ranges for all columns
fn many_all(n: i64) -> Result<(), String> {
    FS.with(|f| f.borrow_mut().clear()); FAIL.with(|f| f.set(-1));
    let dir = Path::new("/d"); let z = block_on(TsmTombstone::open(dir, 1)).map_err(|e| e.to_string())?;
    let mut c = TsmTombstoneCache::default(); for i in 0..n { c.insert(TombstoneField::All, TimeRange::new(10 * i, 10 * i + 3)); }
    let p = dir.join("_000001.tombstone"); let mut w = block_on(record_file::Writer::open(&p, 1)).map_err(|e| e.to_string())?; block_on(c.save_to(&mut w)).map_err(|e| e.to_string())?; drop(z);
    let z = block_on(TsmTombstone::open(dir, 1)).map_err(|e| e.to_string())?; let v = z.get_all_fields_excluded_time_range(&TimeRange::new(i64::MIN, i64::MAX));
    for i in 0..n { for (t, want) in [(10 * i - 1, false), (10 * i, true), (10 * i + 3, true), (10 * i + 4, false)] { if ranges_at(&v, t) != want { return Err(format!("{n} ranges for all columns saved and loaded: at {t} deleted = {}", !want)); } } } Ok(())
}
fn main() {
    let mut h = H::new();
    for (n, c) in [(1, 1), (999, 1), (1000, 1), (1001, 1), (2500, 2), (1, 4999), (3, 9000)] { h.case("many", vx::hash(&(n, c)), &|| format!("{n} ranges on {c} columns"), &mut || many(n, c)); }
    for n in [1, 999, 1000, 1001, 2000, 3001, 9000] { h.case("many_all", vx::hash(&n), &|| format!("{n} ranges on all columns"), &mut || many_all(n)); }
    let mut r = h.rng(8);
    for _ in 0..h.scale(6_000, 120_000) {
        let n = 1 + r.below(9) as usize; let mut ops = vec![];
        for _ in 0..n {
            let p = |r: &mut vx::Rng| PTS[r.below(PTS.len() as u64) as usize];
            let (mut a, mut b) = (p(&mut r), p(&mut r)); if a > b && !r.chance(1, 20) { std::mem::swap(&mut a, &mut b); } if r.chance(1, 3) { b = a; }
            ops.push(match r.below(17) {
                0..=4 => { let k = 1 + r.below(4) as usize; let ks = (0..k).map(|_| KS[r.below(KS.len() as u64) as usize]).collect(); let f = if r.chance(1, 3) { Some(vec![1, 0x01000001][..r.below(3) as usize].to_vec()) } else { None }; Op::Del(ks, a, b, f) }
                5..=7 => Op::Tmp(a.min(b), b.max(a)), 8 => Op::TmpFails(a.min(b), b.max(a), r.below(2) as i64), 9..=11 => Op::Swap, 12 => Op::Reopen, 13 => Op::Flush, 14 => Op::LoadCache, 15 => Op::Torn, _ => Op::Stale });
        }
        let d = format!("{ops:?}"); h.case("history", vx::hash(&d), &|| d.clone(), &mut || run(&ops));
    }
    h.done();
}
