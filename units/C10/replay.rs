//@prelude
//@include ../C25/recfile.inc
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::cell::Cell;
use std::collections::BTreeMap;
use recfile::{TskvError, TskvResult};
macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
mod trace { pub(crate) use quiet as error; #[allow(unused)] pub(crate) use quiet as debug; #[allow(unused)] pub(crate) use quiet as warn; #[allow(unused)] pub(crate) use quiet as info; }
thread_local! { static CACHE: Cell<usize> = Cell::new(256); }
// ---- stand-ins: the raft entry and its encoding, the vnode the log is applied to, errors, directories ----
mod openraft {
    #[derive(Clone, Copy, PartialEq, Debug, Default)] pub struct LogId<T> { pub term: T, pub index: T }
    #[derive(Clone, PartialEq, Debug)] pub enum EntryPayload { Blank, Normal(Vec<u8>), Membership(u8) }
    #[derive(Clone, PartialEq, Debug)] pub struct Entry { pub log_id: LogId<u64>, pub payload: EntryPayload }
}
mod codec { #[derive(Clone, Copy, Debug)] pub enum Encoding { Null } }
mod record_file { pub use super::recfile::*; #[derive(Clone, Copy)] pub enum RecordDataVersion { V1 = 1 } #[derive(Clone, Copy)] pub enum RecordDataType { Wal = 2 } }
mod cachelib {
    use std::collections::HashMap; use std::fmt::{Debug, Display};
//@extract common/cache/src/circular_kvcache.rs struct CircularBuffer
@end
//@extract common/cache/src/circular_kvcache.rs struct CircularKVCache
@end
//@extract common/cache/src/circular_kvcache.rs impl CircularBuffer
@end
//@extract common/cache/src/circular_kvcache.rs impl CircularKVCache
@end
//@helpers
}
#[derive(Clone, Debug)] pub struct WalOptions { pub path: PathBuf, pub wal_max_file_size: u64, pub compress: codec::Encoding, pub wal_sync: bool }
impl WalOptions { fn wal_dir(&self, _owner: &str, _vnode: u32) -> PathBuf { self.path.clone() } }
type VnodeId = u32;
struct LocalFileSystem;
impl LocalFileSystem { fn list_file_names(d: impl AsRef<Path>) -> Vec<String> { recfile::list(d.as_ref()) } fn try_exists(p: impl AsRef<Path>) -> bool { recfile::exists(p.as_ref()) } }
mod fs { pub fn remove_file(p: impl AsRef<std::path::Path>) -> std::io::Result<()> { super::recfile::remove(p.as_ref()) } pub fn remove_dir_all(_p: impl AsRef<std::path::Path>) -> std::io::Result<()> { Ok(()) } }
pub struct CommonSnafu { pub reason: String } impl CommonSnafu { pub fn build(self) -> TskvError { TskvError::CommonError { reason: self.reason } } }
pub struct WalTruncatedSnafu; impl WalTruncatedSnafu { pub fn build(self) -> TskvError { TskvError::WalTruncated } }
pub struct InvalidFileNameSnafu { pub file_name: String, pub message: String } impl InvalidFileNameSnafu { pub fn build(self) -> TskvError { TskvError::CommonError { reason: self.message } } }
trait IntoError { fn into_error(self, e: impl std::fmt::Debug) -> TskvError; }
pub struct DecodeSnafu; impl IntoError for DecodeSnafu { fn into_error(self, e: impl std::fmt::Debug) -> TskvError { TskvError::Decode { source: format!("{e:?}") } } }
pub struct IOSnafu; impl IntoError for IOSnafu { fn into_error(self, e: impl std::fmt::Debug) -> TskvError { TskvError::Decode { source: format!("{e:?}") } } }
trait Ctx2<T> { fn context<C>(self, c: C) -> TskvResult<T>; } impl<T> Ctx2<T> for std::io::Result<T> { fn context<C>(self, _c: C) -> TskvResult<T> { self.map_err(|e| TskvError::Io) } }
mod error { pub use super::{IOSnafu, CommonSnafu, DecodeSnafu}; }
fn decode_be_u64(k: &[u8]) -> u64 { u64::from_be_bytes(k[..8].try_into().unwrap()) }
struct WAL_FILE_NAME_PATTERN; // _\d{6}\.wal
impl WAL_FILE_NAME_PATTERN { fn is_match(&self, s: &str) -> bool { let b = s.as_bytes(); (0..b.len()).any(|i| b.len() >= i + 11 && b[i] == b'_' && b[i + 1..i + 7].iter().all(|c| c.is_ascii_digit()) && &b[i + 7..i + 11] == b".wal") } }
mod file_utils {
    use super::*;
//@extract tskv/src/file_utils.rs make_wal_file
@end
//@extract tskv/src/file_utils.rs check_wal_file_name
@end
//@extract tskv/src/file_utils.rs get_wal_file_id
@end
//@extract tskv/src/file_utils.rs get_max_sequence_file_name
@end
//@helpers
}
#[derive(Debug)] pub enum ReplicationError { RaftInternalErr { msg: String } } type ReplicationResult<T> = Result<T, ReplicationError>;
mod replication { #[derive(Debug)] pub struct ApplyContext { pub index: u64, pub apply_type: u32, pub raft_id: u64 } pub const APPLY_TYPE_WAL: u32 = 1; }
pub struct EntriesMetrics { pub min_seq: u64, pub max_seq: u64, pub avg_write_time: u64 }
#[derive(Default)] struct U64Average; impl U64Average { fn add(&mut self, _: u64) {} fn average(&self) -> u64 { 0 } }
pub trait EntryStorage { fn entry(&mut self, i: u64) -> ReplicationResult<Option<openraft::Entry>>; fn del_before(&mut self, i: u64) -> ReplicationResult<()>; fn del_after(&mut self, i: u64) -> ReplicationResult<()>; fn append(&mut self, e: &[openraft::Entry]) -> ReplicationResult<()>; fn last_entry(&mut self) -> ReplicationResult<Option<openraft::Entry>>; fn entries(&mut self, b: u64, e: u64) -> ReplicationResult<Vec<openraft::Entry>>; fn destroy(&mut self) -> ReplicationResult<()>; fn metrics(&mut self) -> ReplicationResult<EntriesMetrics>; fn sync(&mut self) -> ReplicationResult<()>; }
pub struct RaftWriteCommand { command: Option<Vec<u8>> }
fn parse_prost_bytes<T>(b: &[u8]) -> Result<RaftWriteCommand, String> { Ok(RaftWriteCommand { command: if b.first() == Some(&0xcc) { None } else { Some(b.to_vec()) } }) }
pub struct VnodeStorage { last: u64, got: Vec<(u64, Vec<u8>)> }
pub struct Ver(u64); impl Ver { fn read(&self) -> &Self { self } fn version(&self) -> &Self { self } fn last_seq(&self) -> u64 { self.0 } }
impl VnodeStorage { fn ts_family(&self) -> Ver { Ver(self.last) } fn id(&self) -> u32 { 7 } fn apply(&mut self, c: &replication::ApplyContext, b: Vec<u8>) -> TskvResult<()> { if c.apply_type != replication::APPLY_TYPE_WAL || c.raft_id != 7 { return Err(TskvError::CommonError { reason: "context".into() }); } self.got.push((c.index, b)); Ok(()) } }
mod wal {
    use super::*;
    use self::reader::WalReader; use self::writer::WalWriter;
//@extract tskv/src/wal/mod.rs const WAL_HEADER_LEN
@end
//@extract tskv/src/wal/mod.rs const WAL_BUFFER_SIZE
@end
//@extract tskv/src/wal/mod.rs enum WalType
@derive Clone, Copy, Debug, PartialEq
@end
//@extract tskv/src/wal/mod.rs impl From<u8> for WalType
@end
//@extract tskv/src/wal/mod.rs struct VnodeWal
@end
//@extract tskv/src/wal/mod.rs impl VnodeWal
@subst /tokio::fs::/ => fs::
@end
//@helpers
    // bincode and the codec of the log are C28's
    fn encode_wal_raft_entry(e: &wal_store::RaftEntry, _c: codec::Encoding) -> TskvResult<Vec<u8>> { let mut o = e.log_id.term.to_le_bytes().to_vec(); o.extend(e.log_id.index.to_le_bytes()); match &e.payload { openraft::EntryPayload::Blank => o.push(0), openraft::EntryPayload::Normal(b) => { o.push(1); o.extend(b) } openraft::EntryPayload::Membership(m) => { o.push(2); o.push(*m) } } Ok(o) }
    fn decode_wal_raft_entry(b: &[u8], _c: codec::Encoding) -> TskvResult<wal_store::RaftEntry> {
        if b.len() < 17 { return Err(TskvError::Decode { source: "short".into() }); } let f = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        Ok(wal_store::RaftEntry { log_id: openraft::LogId { term: f(0), index: f(8) }, payload: match b[16] { 0 => openraft::EntryPayload::Blank, 1 => openraft::EntryPayload::Normal(b[17..].to_vec()), 2 if b.len() == 18 => openraft::EntryPayload::Membership(b[17]), _ => return Err(TskvError::Decode { source: "payload".into() }) } })
    }
    pub mod writer {
        use super::super::*; use super::{wal_store, WalType, WAL_BUFFER_SIZE}; use super::reader::WalReader; use record_file::{RecordDataType, RecordDataVersion, Writer};
//@extract tskv/src/wal/writer.rs struct WalWriter
@end
//@extract tskv/src/wal/writer.rs impl WalWriter
@end
//@helpers
    }
    pub mod reader {
        use super::super::*; use super::{wal_store, WalType, WAL_HEADER_LEN}; use trace::error;
//@extract tskv/src/wal/reader.rs struct WalReader
@end
//@extract tskv/src/wal/reader.rs impl WalReader
@end
//@extract tskv/src/wal/reader.rs struct WalRecordData
@derive Debug
@end
//@extract tskv/src/wal/reader.rs impl WalRecordData
@end
//@helpers
    }
    pub mod wal_store {
        use super::super::*; use super::reader::{WalReader, WalRecordData}; use super::VnodeWal; use trace::{error, info}; use openraft::{EntryPayload, LogId};
        mod cache { pub use super::super::super::cachelib::*; }
        pub type RaftEntry = openraft::Entry;
//@extract tskv/src/wal/wal_store.rs struct RaftEntryStorage
@end
//@extract tskv/src/wal/wal_store.rs impl RaftEntryStorage
@subst /CircularKVCache::new\(\d+\)/ => CircularKVCache::new(CACHE.with(|c| c.get()))
@end
//@extract tskv/src/wal/wal_store.rs impl EntryStorage for RaftEntryStorage
@subst /std::fs::/ => fs::
@end
//@extract tskv/src/wal/wal_store.rs struct WalFileMeta
@end
//@extract tskv/src/wal/wal_store.rs impl WalFileMeta
@end
//@extract tskv/src/wal/wal_store.rs struct RaftEntryStorageInner
@end
//@extract tskv/src/wal/wal_store.rs impl RaftEntryStorageInner
@end
//@helpers
    }
}
use wal::wal_store::{RaftEntry, RaftEntryStorage};
use openraft::{EntryPayload, LogId};
// ---- the model: the entries of the log, and every entry the files may still hold below its first ----
struct World { cfg: Arc<WalOptions>, st: RaftEntryStorage, log: BTreeMap<u64, RaftEntry>, old: BTreeMap<u64, RaftEntry>, next: u64, purged: u64, acked_len: Option<(PathBuf, usize)> }
fn er<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{what}: {e:?}")) }
fn start(cfg: &Arc<WalOptions>, apply: Option<u64>, v: &mut VnodeStorage) -> Result<RaftEntryStorage, String> {
    let w = er("VnodeWal::new", wal::VnodeWal::new(cfg.clone(), Arc::new("o".to_string()), 7))?; let mut st = RaftEntryStorage::new(w);
    er("recover", st.recover(apply.map(|i| LogId { term: 9, index: i }), v))?; Ok(st)
}
fn entry(r: &mut Rng, i: u64, term: u64) -> RaftEntry {
    let payload = match r.below(8) { 0 => EntryPayload::Blank, 1 => EntryPayload::Membership(r.pick(&[70u8, 1, 0])), _ => { let n = r.pick(&[0usize, 1, 5, 20, 20, 20, 90]); let mut b = r.bytes(n); if n > 0 && r.chance(1, 10) { b[0] = 0xcc; } if n > 2 && r.chance(1, 3) { for i in 1..n { b[i] = b"FlOg"[(i - 1) % 4]; } } EntryPayload::Normal(b) } };
    RaftEntry { log_id: LogId { term, index: i }, payload }
}
fn same(what: String, got: Option<&RaftEntry>, want: Option<&RaftEntry>) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what} gives {:?}, but the log has {:?}", got.map(|e| (e.log_id, &e.payload)), want.map(|e| (e.log_id, &e.payload)))) } }
impl World {
    fn check(&mut self, r: &mut Rng, all: bool) -> Result<(), String> {
        let lo = self.log.keys().next().copied(); let hi = self.log.keys().next_back().copied();
        let last = er("last_entry", self.st.last_entry())?; same("last_entry()".into(), last.as_ref(), self.log.values().next_back())?;
        let m = er("metrics", self.st.metrics())?;
        if let (Some(lo), Some(hi)) = (lo, hi) { if m.min_seq != lo || m.max_seq != hi { return Err(format!("the log is [{lo}, {hi}], reported [{}, {}]", m.min_seq, m.max_seq)); } }
        let (a, b) = (lo.unwrap_or(self.next).saturating_sub(3), hi.unwrap_or(self.next) + 4);
        let mut at: Vec<u64> = if all { (a..b).collect() } else { (0..4).map(|_| a + r.below(b - a)).collect() };
        if r.chance(1, 2) { at.reverse(); }
        for i in at { let e = er("entry", self.st.entry(i))?; same(format!("entry({i})"), e.as_ref(), self.log.get(&i))?; }
        let (x, y) = if all { (a, b) } else { let p = a + r.below(b - a); (p, p + r.below(12)) };
        let got = er("entries", self.st.entries(x, y))?; let want: Vec<&RaftEntry> = if x < y { self.log.range(x..y).map(|x| x.1).collect() } else { vec![] };
        if got.iter().ne(want.iter().copied()) { return Err(format!("entries({x}, {y}) gives {:?}, but the log has {:?}", got.iter().map(|e| (e.log_id.index, e.log_id.term)).collect::<Vec<_>>(), want.iter().map(|e| (e.log_id.index, e.log_id.term)).collect::<Vec<_>>())); }
        if r.chance(1, 5) { let got = er("entries", self.st.entries(0, u64::MAX))?; if got.iter().ne(self.log.values()) { return Err(format!("entries(0, MAX) gives {} entries, the log has {}", got.len(), self.log.len())); } }
        Ok(())
    }
    // what the files hold after a restart: the log up to some point not before `sure`; entries deleted from its front may be there again
    fn restart(&mut self, r: &mut Rng, apply: Option<u64>, sure: Option<i64>, trace: &mut Vec<String>) -> Result<(), String> {
        let first = self.log.keys().next().copied().unwrap_or(self.next); // the entries below were flushed before they were deleted
        let last_seq = match apply { Some(a) => { let lo = first.saturating_sub(1).max(self.purged.saturating_sub(1)).min(a); lo + r.below(a - lo + 1) } None => 0 };
        let mut v = VnodeStorage { last: last_seq, got: vec![] }; trace.push(format!("restart(applied {apply:?}, flushed {last_seq})"));
        // the power goes, or one call fails, while it recovers
        if r.chance(1, 6) { let n = r.below(10); if r.chance(1, 2) { recfile::fail_at(n) } else { recfile::die_at(n) } let mut v2 = VnodeStorage { last: last_seq, got: vec![] }; let x = start(&self.cfg, apply, &mut v2); recfile::die_at(u64::MAX); recfile::fail_at(u64::MAX); trace.push(if x.is_ok() { "ok".into() } else { "failed, again".into() }); drop(x); }
        self.st = start(&self.cfg, apply, &mut v)?;
        let m = er("metrics", self.st.metrics())?;
        let top = match (m.max_seq, er("last_entry", self.st.last_entry())?) { (_, None) => None, (_, Some(e)) => Some(e.log_id.index) };
        let want_top = self.log.keys().next_back().copied().map(|t| apply.map_or(t, |a| t.min(a)));
        let bottom_ok = |t: Option<u64>| match (t, want_top, sure) { (t, w, None) => t == w || (w.is_none() || self.log.keys().next().copied() > w) && t.map_or(true, |t| self.old.contains_key(&t)), (t, Some(w), Some(s)) => t.map_or(s < first as i64 || w < first, |t| t <= w && (t as i64 >= s.min(w as i64))), (_, None, _) => true };
        if !bottom_ok(top) { return Err(format!("the last entry after the restart is {top:?}, of a log up to {:?} (applied {apply:?}, kept for sure up to {sure:?})", self.log.keys().next_back())); }
        match top { Some(t) => { self.log.split_off(&(t + 1)); self.old.split_off(&(t + 1)); } None => { self.log.clear(); self.old.clear(); } }
        let keep = self.log.clone(); if let Some(t) = top { let lo = m.min_seq; if lo > t || lo > first && first <= t { return Err(format!("the log starts at {lo} after the restart, it was [{first}, ..]")); }
            for i in lo..first.min(t + 1) { match (er("entry", self.st.entry(i))?, self.old.get(&i)) { (Some(e), Some(o)) if e == *o => { self.log.insert(i, e); } (None, _) if i != lo && !keep.contains_key(&i) => {} (e, o) => return Err(format!("after the restart entry({i}) gives {:?}, {:?} was written", e.map(|e| (e.log_id, e.payload)), o.map(|e| (e.log_id, &e.payload)))) } } }
        self.next = match (top, apply) { (Some(t), _) => t + 1, (None, Some(a)) => a + 1, _ => first };
        if let Some(a) = apply { let want: Vec<(u64, Vec<u8>)> = self.log.range(last_seq + 1..=a.max(last_seq + 1)).filter(|(i, _)| **i <= a).filter_map(|(i, e)| match &e.payload { EntryPayload::Normal(b) if b.first() != Some(&0xcc) => Some((*i, b.clone())), _ => None }).collect();
            if v.got != want { return Err(format!("applied {:?}, but the entries behind {last_seq} up to {a} are {:?}", v.got.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>())); } }
        self.check(r, true)
    }
}
fn history(seed: u64, faults: bool, trace: &mut Vec<String>) -> Result<(), String> {
    recfile::reset(); let mut r = Rng(seed); CACHE.with(|c| c.set(r.pick(&[2usize, 3, 5, 8, 256])));
    recfile::SHORT.with(|x| x.set(r.pick(&[0usize, 0, 0, 7]))); recfile::INTR.with(|x| x.set(r.chance(1, 4)));
    let cfg = Arc::new(WalOptions { path: PathBuf::from("w"), wal_max_file_size: r.pick(&[0u64, 60, 200, 500, 1 << 30]), compress: codec::Encoding::Null, wal_sync: r.chance(1, 2) });
    trace.push(format!("cache {}, files of {} bytes", CACHE.with(|c| c.get()), cfg.wal_max_file_size));
    let mut v = VnodeStorage { last: 0, got: vec![] }; let st = start(&cfg, None, &mut v)?;
    let mut w = World { cfg, st, log: BTreeMap::new(), old: BTreeMap::new(), next: r.pick(&[0u64, 1, 1, 40]), purged: 0, acked_len: None }; let mut term = 1; let mut applied: Option<u64> = None;
    let steps = r.below(30) + 3;
    for _ in 0..steps {
        // the power may go during this step
        let op = r.below(12); let mut sure = Some(-1); let dies = faults && op < 8 && r.chance(1, 5); if dies { let n = r.below(12); if r.chance(1, 4) { recfile::fail_at(n) } else { recfile::die_at(n) } }
        let mut failed = false;
        match op {
            0..=4 => { let k = r.pick(&[1u64, 1, 2, 5, 12]); let ents: Vec<RaftEntry> = (0..k).map(|i| entry(&mut r, w.next + i, term)).collect(); trace.push(format!("append({}..{}, term {term})", w.next, w.next + k));
                sure = Some(w.log.keys().next_back().map_or(-1, |x| *x as i64)); let res = w.st.append(&ents); failed = res.is_err(); if !dies { er("append", res)?; } 
                for e in ents { w.old.insert(e.log_id.index, e.clone()); w.log.insert(e.log_id.index, e); } w.next += k; }
            5 | 6 => { let lo = w.log.keys().next().copied().unwrap_or(w.next).max(applied.map_or(0, |a| a + 1)); let at = if w.next > lo { lo + r.below(w.next - lo + 1) } else { w.next }; trace.push(format!("del_after({at})"));
                let res = w.st.del_after(at); failed = res.is_err(); if !dies { er("del_after", res)?; }
                if failed { sure = Some(at as i64 - 1); } else { w.log.split_off(&at); w.old.split_off(&at); w.next = w.next.min(at); term += 1; } }
            7 => if let Some(a) = applied { let lo = w.log.keys().next().copied().unwrap_or(w.next); if a >= lo { let at = lo + r.below(a - lo + 2); trace.push(format!("del_before({at})"));
                let res = w.st.del_before(at); failed = res.is_err(); if !dies { er("del_before", res)?; } sure = Some(w.log.keys().next_back().map_or(-1, |x| *x as i64)); w.purged = w.purged.max(at); w.log = w.log.split_off(&at); } },
            8 | 9 => { let lo = applied.map_or(w.log.keys().next().copied().unwrap_or(w.next), |a| a + 1); if w.next > lo { applied = Some(lo + r.below(w.next - lo)); trace.push(format!("applied up to {applied:?}")); } }
            10 => { let _ = w.st.sync(); w.check(&mut r, true)?; }
            _ => { let tear = r.chance(1, 3); let ap = if applied.is_none() || r.chance(1, 2) { applied } else { applied.map(|a| a + r.below(3)) }; let ap = if tear { applied } else { ap }; let ap = ap.map(|a| a.min(w.log.keys().next_back().copied().unwrap_or(0)).max(applied.unwrap_or(0)));
                recfile::die_at(u64::MAX); recfile::fail_at(u64::MAX);
                let sure = if tear && applied.is_some() { trace.push("torn".into()); tear_last(&mut w, &mut r, applied.unwrap()).map(|x| x as i64) } else { None };
                w.restart(&mut r, ap, sure, trace)?; if ap.is_some() { applied = ap; } continue; }
        }
        if dies { recfile::die_at(u64::MAX); recfile::fail_at(u64::MAX); if failed || r.chance(1, 2) { trace.push(if failed { "the power goes".into() } else { "the power goes afterwards".into() }); let s = if failed { sure } else { None }; w.restart(&mut r, None, s, trace)?; term += 1; continue; } }
        w.check(&mut r, false)?;
    }
    w.check(&mut r, true)?; let ap = applied; w.restart(&mut r, None, None, trace)?; if ap.is_some() { w.restart(&mut r, ap, None, trace)?; } Ok(())
}
// bytes at the end of the last file are gone; the entries applied are not
fn tear_last(w: &mut World, r: &mut Rng, applied: u64) -> Option<u64> {
    let f = recfile::list(&w.cfg.path); let p = w.cfg.path.join(f.last()?); let mut b = recfile::get(&p);
    let mut hi = w.log.keys().next_back().copied()?; let mut room = b.len().saturating_sub(4); let mut k = 0;
    while hi > applied && k < 3 { let e = &w.log[&hi]; let n = 14 + 9 + 17 + match &e.payload { EntryPayload::Blank => 0, EntryPayload::Normal(x) => x.len(), EntryPayload::Membership(_) => 1 }; if n > room { break; } room -= n; hi -= 1; k += 1; }
    let keep = 4 + room; if keep >= b.len() || k == 0 { return Some(w.log.keys().next_back().copied()?); } let cut = keep + r.below((b.len() - keep) as u64) as usize; b.truncate(cut); recfile::put(&p, b); Some(hi)
}
fn main() {
    let mut h = H::new();
    for (fam, n, faults) in [("history", h.scale(6000, 120_000), false), ("power", h.scale(9000, 200_000), true)] {
        for i in 0..n {
            let seed = h.rng(if faults { 5_000_000 + i } else { i }).next(); let mut trace = vec![]; let mut shown = String::new();
            { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history(seed, faults, &mut trace))); shown = format!("{}, … {}", trace[0], trace[trace.len().saturating_sub(18).max(1)..].join(", ")); let mut r = Some(r);
              h.case(fam, vx::hash(&(fam, seed)), &|| format!("seed {seed}: {shown}"), &mut || match r.take().unwrap() { Ok(x) => x, Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())) }); }
        }
    }
    h.done();
}
