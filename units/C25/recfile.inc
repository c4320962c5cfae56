mod recfile {
use std::any::Any; use std::cell::{Cell, RefCell}; use std::cmp::Ordering; use std::collections::BTreeMap; use std::fmt::Display; use std::io::{Error, ErrorKind, IoSlice, Result, SeekFrom}; use std::path::{Path, PathBuf}; use std::sync::{Arc, Mutex};
mod io { pub use std::io::Result; }
// ---- stand-ins: logs, errors, and a disk of our own whose calls can be short, be interrupted or fail ----
macro_rules! quiet { ($($t:tt)*) => {{ let _ = || { let _ = format!($($t)*); }; }}; }
mod trace { pub(crate) use quiet as error; #[allow(unused)] pub(crate) use quiet as trace; #[allow(unused)] pub(crate) use quiet as debug; #[allow(unused)] pub(crate) use quiet as warn; #[allow(unused)] pub(crate) use quiet as info; }
#[derive(Debug)]
pub enum TskvError { Eof, NoFooter, Io, InvalidParam, FileSystemError { source: String }, RecordFileInvalidDataSize { pos: u64, len: u32 }, RecordFileHashCheckFailed { crc: u32, crc_calculated: u32, record: Record }, WalTruncated, Decode { source: String }, CommonError { reason: String } }
impl Display for TskvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
pub type TskvResult<T> = std::result::Result<T, TskvError>;
pub trait Ctx<T> { fn context<C>(self, c: C) -> TskvResult<T>; }
impl<T, E: std::fmt::Debug> Ctx<T> for std::result::Result<T, E> { fn context<C>(self, _c: C) -> TskvResult<T> { self.map_err(|_| TskvError::Io) } }
pub struct IOSnafu; pub struct ReadFileSnafu { pub path: PathBuf } pub struct WriteFileSnafu { pub path: PathBuf } pub struct InvalidParamSnafu { pub reason: String }
impl InvalidParamSnafu { pub fn build(self) -> TskvError { let _ = self.reason; TskvError::InvalidParam } }
pub struct RecordFileInvalidDataSizeSnafu { pub pos: u64, pub len: u32 }
impl RecordFileInvalidDataSizeSnafu { pub fn build(self) -> TskvError { TskvError::RecordFileInvalidDataSize { pos: self.pos, len: self.len } } }
pub struct RecordFileHashCheckFailedSnafu { pub crc: u32, pub crc_calculated: u32, pub record: Record }
impl RecordFileHashCheckFailedSnafu { pub fn build(self) -> TskvError { TskvError::RecordFileHashCheckFailed { crc: self.crc, crc_calculated: self.crc_calculated, record: self.record } } }
mod error { pub struct IOSnafu; pub struct SyncFileSnafu; #[allow(unused)] pub use super::{ReadFileSnafu, WriteFileSnafu}; }
trait ToPrimitive { fn to_u32(&self) -> Option<u32>; }
impl ToPrimitive for usize { fn to_u32(&self) -> Option<u32> { u32::try_from(*self).ok() } }
thread_local! {
    pub static DISK: RefCell<BTreeMap<PathBuf, Arc<Mutex<Vec<u8>>>>> = RefCell::new(BTreeMap::new());
    // 0 whole calls; otherwise the most bytes one call moves
    pub static SHORT: Cell<usize> = Cell::new(0); pub static CALLS: Cell<u64> = Cell::new(0); pub static FAIL: Cell<u64> = Cell::new(u64::MAX); pub static INTR: Cell<bool> = Cell::new(false);
    // the power is gone: this call and all that follow do nothing and fail
    pub static DEAD: Cell<u64> = Cell::new(u64::MAX);
}
pub fn dead() -> bool { CALLS.with(|c| c.get()) > DEAD.with(|d| d.get()) }
pub fn tick(n: usize) -> Result<usize> {
    let k = CALLS.with(|c| { let k = c.get(); c.set(k + 1); k });
    if FAIL.with(|f| f.get()) == k || DEAD.with(|f| f.get()) <= k { return Err(Error::new(ErrorKind::Other, "no")); }
    if n > 0 && INTR.with(|f| f.get()) && k % 3 == 1 { return Err(Error::new(ErrorKind::Interrupted, "again")); }
    let s = SHORT.with(|s| s.get()); Ok(if s == 0 { n } else { n.min(s) })
}
mod file { pub fn asyncify<T>(f: impl FnOnce() -> T) -> T { f() }
    pub use super::{ReadableFile, WritableFile}; }
#[derive(Debug, Clone)]
pub struct RawFile(pub Arc<Mutex<Vec<u8>>>);
impl RawFile {
    fn pwrite(&self, pos: usize, data: &[u8]) -> Result<usize> {
        let n = tick(data.len())?; let mut f = self.0.lock().unwrap();
        if n > 0 && f.len() < pos + n { f.resize(pos + n, 0); } f[pos..pos + n].copy_from_slice(&data[..n]); Ok(n)
    }
    fn pread(&self, pos: usize, data: &mut [u8]) -> Result<usize> {
        let f = self.0.lock().unwrap(); let m = f.len().saturating_sub(pos).min(data.len());
        let n = match tick(m) { Ok(n) => n, Err(e) => { for b in data.iter_mut() { *b = 0x5a; } return Err(e); } };
        if n > 0 { data[..n].copy_from_slice(&f[pos..pos + n]); } Ok(n)
    }
    pub fn sync_data(&self) -> Result<()> { tick(0).map(|_| ()) }
    pub fn sync_all(&self) -> Result<()> { tick(0).map(|_| ()) }
    pub fn truncate(&self, size: u64) -> Result<()> { tick(0)?; self.0.lock().unwrap().resize(size as usize, 0); Ok(()) }
    fn file_size(&self) -> usize { self.0.lock().unwrap().len() }
}
//@extract tskv/src/file_system/file/raw_file.rs RawFile::read_all_at
@subst /\{\s*let completion = [^}]*\}/ =>
@end
//@extract tskv/src/file_system/file/raw_file.rs RawFile::write_all_at
@subst /\{\s*let completion = [^}]*\}/ =>
@end
pub trait WritableFile { fn write_at(&mut self, pos: usize, data: &[u8]) -> Result<usize>; fn sync_data(&self) -> Result<()>; fn sync_all(&self) -> Result<()>; fn truncate(&mut self, size: u64) -> Result<()>; fn file_size(&self) -> usize; fn is_empty(&self) -> bool; fn as_any(&self) -> &dyn Any; }
pub trait ReadableFile { fn read_at(&self, pos: usize, data: &mut [u8]) -> Result<usize>; fn file_size(&self) -> usize; }
//@extract tskv/src/file_system/file/async_file.rs struct AsyncFile
@derive Clone
@end
//@extract tskv/src/file_system/file/async_file.rs impl WritableFile for AsyncFile
@end
//@extract tskv/src/file_system/file/async_file.rs impl file::ReadableFile for AsyncFile
@end
//@extract tskv/src/file_system/file/stream_reader.rs struct FileStreamReader
@end
//@extract tskv/src/file_system/file/stream_reader.rs impl FileStreamReader
@end
//@extract tskv/src/file_system/file/stream_writer.rs struct Buffer
@end
//@extract tskv/src/file_system/file/stream_writer.rs impl Buffer
@end
//@extract tskv/src/file_system/file/stream_writer.rs struct FileStreamWriter
@end
//@extract tskv/src/file_system/file/stream_writer.rs impl FileStreamWriter
@end
pub enum LocalFileType { ThreadPool }
pub struct LocalFileSystem;
impl LocalFileSystem {
    pub fn new(_t: LocalFileType) -> Self { LocalFileSystem }
    pub fn open_file_reader(&self, p: impl AsRef<Path>) -> std::result::Result<Box<FileStreamReader>, String> {
        let f = DISK.with(|d| d.borrow().get(p.as_ref()).cloned()).ok_or("no such file")?; let inner = RawFile(f); let size = inner.file_size();
        Ok(Box::new(FileStreamReader::new(Box::new(AsyncFile { inner, size }), p.as_ref().to_path_buf())))
    }
    pub fn open_file_writer(&self, p: impl AsRef<Path>, n: usize) -> std::result::Result<Box<FileStreamWriter>, String> {
        if dead() { return Err("no".into()); }
        let f = DISK.with(|d| d.borrow_mut().entry(p.as_ref().to_path_buf()).or_default().clone()); let inner = RawFile(f); let size = inner.file_size();
        Ok(Box::new(FileStreamWriter::new(Box::new(AsyncFile { inner, size }), p.as_ref().to_path_buf(), n)))
    }
}
pub struct Md(u64); impl Md { pub fn len(&self) -> u64 { self.0 } }
fn metadata(p: &Path) -> std::result::Result<Md, String> { DISK.with(|d| d.borrow().get(p).map(|f| Md(f.lock().unwrap().len() as u64))).ok_or("no such file".into()) }
fn decode_be_u32(k: &[u8]) -> u32 { u32::from_be_bytes([k[0], k[1], k[2], k[3]]) }
mod crc32fast {
    const fn table() -> [u32; 256] { let mut t = [0u32; 256]; let mut i = 0; while i < 256 { let mut c = i as u32; let mut k = 0; while k < 8 { c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 }; k += 1; } t[i] = c; i += 1; } t }
    static T: [u32; 256] = table();
    pub struct Hasher(u32);
    impl Hasher { pub fn new() -> Self { Hasher(!0) } pub fn update(&mut self, b: &[u8]) { for x in b { self.0 = T[((self.0 ^ *x as u32) & 255) as usize] ^ (self.0 >> 8); } } pub fn finalize(self) -> u32 { !self.0 } }
    pub fn hash(b: &[u8]) -> u32 { let mut h = Hasher::new(); h.update(b); h.finalize() }
}
//@extract tskv/src/record_file/mod.rs const FILE_MAGIC_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const FILE_MAGIC_NUMBER
@end
//@extract tskv/src/record_file/mod.rs const FILE_FOOTER_LEN
@end
//@extract tskv/src/record_file/mod.rs const FILE_FOOTER_MAGIC_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const FILE_FOOTER_CRC32_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_MAGIC_NUMBER
@end
//@extract tskv/src/record_file/mod.rs const RECORD_MAGIC_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_DATA_VERSION_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_DATA_TYPE_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_DATA_SIZE_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_CRC32_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_HEADER_LEN
@end
//@extract tskv/src/record_file/mod.rs const READER_BUF_SIZE
@subst /1024 \* 1024 \* 64/ => 1024 * 1024
@end
//@extract tskv/src/record_file/mod.rs file_crc_source_len
@end
//@extract tskv/src/record_file/record.rs struct Record
@derive Debug
@end
mod reader {
    use super::*;
//@extract tskv/src/record_file/reader.rs read_footer
@end
//@extract tskv/src/record_file/reader.rs read_footer_from
@end
//@extract tskv/src/record_file/reader.rs struct Reader
@end
//@extract tskv/src/record_file/reader.rs impl Reader
@subst /tokio::fs::metadata/ => metadata
@end
//@helpers
}
pub use reader::{Reader, read_footer_from};
//@extract tskv/src/record_file/writer.rs struct Writer
@end
//@extract tskv/src/record_file/writer.rs impl Writer
@end
//@helpers
pub const FOOTER: usize = FILE_FOOTER_LEN;
pub fn reset() { DISK.with(|d| d.borrow_mut().clear()); SHORT.with(|x| x.set(0)); CALLS.with(|x| x.set(0)); FAIL.with(|x| x.set(u64::MAX)); INTR.with(|x| x.set(false)); DEAD.with(|x| x.set(u64::MAX)); }
pub fn die_at(n: u64) { CALLS.with(|c| DEAD.with(|f| f.set(if n == u64::MAX { n } else { c.get() + n }))); }
pub fn list(dir: &Path) -> Vec<String> { DISK.with(|d| d.borrow().keys().filter(|p| p.parent() == Some(dir)).map(|p| p.file_name().unwrap().to_str().unwrap().to_string()).collect()) }
pub fn exists(p: &Path) -> bool { DISK.with(|d| d.borrow().contains_key(p)) }
pub fn remove(p: &Path) -> Result<()> { tick(0)?; DISK.with(|d| d.borrow_mut().remove(p)).map(|_| ()).ok_or(Error::new(ErrorKind::NotFound, "no such file")) }
pub fn fail_at(n: u64) { CALLS.with(|c| FAIL.with(|f| f.set(if n == u64::MAX { n } else { c.get() + n }))); }
pub fn get(p: &Path) -> Vec<u8> { DISK.with(|d| d.borrow().get(p).map(|f| f.lock().unwrap().clone()).unwrap_or_default()) }
pub fn put(p: &Path, b: Vec<u8>) { DISK.with(|d| { d.borrow_mut().insert(p.to_path_buf(), Arc::new(Mutex::new(b))); }) }
}
