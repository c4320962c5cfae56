use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include file.inc
enum TskvError { Eof, NoFooter, ReadFile, FileSystemError, RecordFileInvalidDataSize { pos: u64, len: u32 }, RecordFileHashCheckFailed { crc: u32, crc_calculated: u32, record: Record } }
type TskvResult<T> = Result<T, TskvError>;
//@extract tskv/src/record_file/record.rs struct Record
@end
// ---- the file under the reader: what it holds when it is looked at ----
#[verifier::external_body]
struct FileStreamReader { x: u8 }
struct IoError { x: u8 }
impl FileStreamReader {
    uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.content().len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    // reads until the slice is full or the file ends; what a failing read leaves in the slice is unknown
    #[verifier::external_body]
    fn read_at(&self, pos: usize, data: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures final(data).len() == old(data).len(),
            r matches Ok(n) ==> n == (if pos >= self.content().len() { 0 } else if self.content().len() - pos < old(data).len() { self.content().len() - pos } else { old(data).len() as int })
                && (forall|i: int| 0 <= i < n ==> #[trigger] final(data)@[i] == self.content()[pos + i]) { unimplemented!() }
    // the file may have grown since it was last looked at; the records in it are not changed
    #[verifier::external_body]
    fn metadata(&mut self) -> (r: TskvResult<Meta>) ensures r is Err ==> *final(self) == *old(self), r matches Ok(m) ==> m.n == final(self).content().len() && m.n <= 0x7fff_ffff_ffff_ffff && old(self).content().is_prefix_of(final(self).content()) { unimplemented!() }
}
struct Meta { n: u64 }
impl Meta { fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
uninterp spec fn on_disk(p: Path) -> Seq<u8>;
#[derive(Clone, Copy)]
struct Path { id: u64 }
#[verifier::external_body]
fn open_file_reader(p: Path) -> (r: TskvResult<FileStreamReader>) ensures r matches Ok(f) ==> f.content() == on_disk(p), r is Err ==> r->Err_0 is FileSystemError { unimplemented!() }
#[verifier::external_body]
fn ctx<T>(r: Result<T, IoError>) -> (o: TskvResult<T>) ensures r matches Ok(v) ==> o == TskvResult::<T>::Ok(v), r is Err ==> o == TskvResult::<T>::Err(TskvError::ReadFile) { unimplemented!() }
// reads four bytes through a pointer: there must be four
#[verifier::external_body]
fn decode_be_u32(key: &[u8]) -> (r: u32) requires key.len() >= 4 ensures r == unbe32(key@) { unimplemented!() }
#[verifier::external_body]
fn zeroes(n: usize) -> (r: Vec<u8>) ensures r.len() == n { unimplemented!() }
#[verifier::external_body]
fn footer_of(v: Vec<u8>) -> (r: [u8; FILE_FOOTER_LEN]) requires v.len() == FILE_FOOTER_LEN ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn ord(a: usize, b: usize) -> (r: Ordering) ensures r is Less <==> a < b, r is Greater <==> a > b, r is Equal <==> a == b { a.cmp(&b) }
#[verifier::external_body]
fn to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body]
fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { a.min(b) }
#[verifier::external_body]
fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a - b } else { 0 } { a.saturating_sub(b) }
#[verifier::external_body]
fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { a.min(b) }
#[verifier::external_body]
fn resize(v: &mut Vec<u8>, n: usize) requires n >= old(v).len() ensures final(v).len() == n, forall|i: int| 0 <= i < old(v).len() ==> #[trigger] final(v)@[i] == old(v)@[i] { v.resize(n, 0) }
//@extract tskv/src/record_file/reader.rs read_footer_from
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /file_path: impl AsRef<Path>/ => file_path: Path
@subst /let mut (\w+) = vec!\[0_u8; ([^;]*)\];/ => let mut \1 = zeroes(\2);
@subst /let mut (\w+) = \[0_u8; FILE_FOOTER_LEN\];/ => let mut \1 = zeroes(FILE_FOOTER_LEN);
@subst /(\w+)\.read_at\((\w+), &mut (\w+)(\[\.\.\])?\)\s*\.context\(ReadFileSnafu \{[^}]*\}\)\?/ => ctx(\1.read_at(\2, &mut \3))?
@subst /crc32fast::hash\(&/ => crc_hash(&
@subst /Ok\(\((\w+) as u64, (\w+)\)\)/ => Ok((\1 as u64, footer_of(\2)))
@ret r
@spec
    ensures r matches Ok(x) ==> has_footer(file.content()) && x.0 == file.content().len() - 32, r is Err ==> (r->Err_0 is NoFooter && !has_footer(file.content())) || r->Err_0 is ReadFile
@at after /let footer_crc = [^;]*;/
    proof { let c = file.content(); assert(footer@.subrange(4, 8) =~= c.subrange(c.len() - 28, c.len() - 24)) by { assert forall|i: int| 0 <= i < 4 implies #[trigger] footer@.subrange(4, 8)[i] == c.subrange(c.len() - 28, c.len() - 24)[i] by { assert(footer@[4 + i] == c[footer_pos + (4 + i)]); } }
        assert(buf@ =~= c.subrange(4, 4 + crc_len(c.len() as int, 32))); }
@end
//@extract tskv/src/record_file/reader.rs read_footer
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /path: impl AsRef<Path>/ => path: Path
@subst /let path = path\.as_ref\(\);/ =>
@subst /let file_system = [^;]*;/ =>
@subst /file_system\s*\.open_file_reader\((\w+)\)\s*\.map_err\([^;]*?\)\?;/ => open_file_reader(\1)?;
@ret r
@spec
    ensures r matches Ok(x) ==> has_footer(on_disk(path)) && x.0 == on_disk(path).len() - 32, r is Err && r->Err_0 is NoFooter ==> !has_footer(on_disk(path))
@end
//@extract tskv/src/record_file/reader.rs struct Reader
@subst /Box<FileStreamReader>/ => FileStreamReader
@subst /PathBuf/ => Path
@end
impl Reader {
    spec fn c(&self) -> Seq<u8> { self.file.content() }
    // the buffer holds the bytes of the file around the position
    spec fn inv(&self) -> bool {
        self.file_len == self.c().len() && self.file_len <= 0x7fff_ffff_ffff_ffff && self.footer_pos <= self.file_len && (self.pos <= self.file_len || self.pos == 4) && self.buf_use <= self.pos
        && self.buf_use <= self.buf_len && self.buf_len <= self.buf.len() && (self.buf_len > 0 ==> self.pos - self.buf_use + self.buf_len <= self.file_len)
        && (forall|i: int| 0 <= i < self.buf_len ==> #[trigger] self.buf@[i] == self.c()[self.pos - self.buf_use + i])
    }
    // what the reader holds of a file is never larger than the file
    spec fn same(&self, o: Reader) -> bool { self.file == o.file && self.file_len == o.file_len && self.footer_pos == o.footer_pos && self.footer == o.footer && self.path == o.path }
}
spec fn mem(a: Reader, b: Reader) -> bool { b.buf.len() <= a.buf.len() || b.buf.len() <= a.file_len }
//@extract tskv/src/record_file/reader.rs Reader::open
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /path: impl AsRef<Path>/ => path: Path
@subst /let path = path\.as_ref\(\);/ =>
@subst /path: path\.to_path_buf\(\)/ => path
@subst /let file_system = [^;]*;/ =>
@subst /file_system\s*\.open_file_reader\((\w+)\)\s*\.map_err\([^;]*?\)\?;/ => open_file_reader(\1)?;
@subst /(\w+)\.min\(READER_BUF_SIZE\)/ => min_usize(\1, READER_BUF_SIZE)
@subst /vec!\[0_u8; (\w+)\]/ => zeroes(\1)
@ret r
@spec
    ensures r matches Ok(x) ==> x.inv() && x.c() == on_disk(path) && x.pos == 4 && x.footer_pos == (if has_footer(x.c()) { x.c().len() - 32 } else { x.c().len() as int })
@end
//@extract tskv/src/record_file/reader.rs Reader::new
@log
@subst /Box<FileStreamReader>/ => FileStreamReader
@subst /PathBuf/ => Path
@subst /(\w+)\.min\(READER_BUF_SIZE as u64\)/ => min_u64(\1, READER_BUF_SIZE as u64)
@subst /vec!\[0_u8; ([^\]]*)\]/ => zeroes(\1)
@ret r
@spec
    requires len == file.content().len(), len <= 0x7fff_ffff_ffff_ffff, len >= 4, footer is Some ==> len >= 36
    ensures r.inv(), r.file == file, r.pos == 4, r.footer_pos == len
@end
//@extract tskv/src/record_file/reader.rs Reader::load_buf
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /self\s*\.file\s*\.read_at\(self\.pos, &mut self\.buf\)\s*\.context\(ReadFileSnafu \{[^}]*\}\)\?/ => ctx(self.file.read_at(self.pos, &mut self.buf))?
@log
@ret r
@spec
    requires old(self).file_len == old(self).c().len(), old(self).file_len <= 0x7fff_ffff_ffff_ffff, old(self).footer_pos <= old(self).file_len, old(self).pos <= old(self).file_len || old(self).pos == 4
    ensures final(self).inv(), final(self).same(*old(self)), final(self).pos == old(self).pos, final(self).buf.len() == old(self).buf.len(), final(self).buf_use == 0,
        r is Ok ==> final(self).buf_len == (if old(self).pos >= old(self).file_len { 0 } else if old(self).file_len - old(self).pos < old(self).buf.len() { old(self).file_len - old(self).pos } else { old(self).buf.len() as int }),
        r is Err ==> r->Err_0 is ReadFile
@end
//@extract tskv/src/record_file/reader.rs Reader::set_pos
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /self\.pos\.cmp\(&pos\)/ => ord(self.pos, pos)
@subst /self\.buf_use\.cmp\(&size\)/ => ord(self.buf_use, size)
@subst /\(self\.buf_len - self\.buf_use\)\.cmp\(&size\)/ => ord(self.buf_len - self.buf_use, size)
@ret r
@spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).same(*old(self)), pos <= old(self).file_len ==> final(self).pos == pos && (r is Err ==> r->Err_0 is ReadFile), r is Ok ==> final(self).pos == pos,
        final(self).buf.len() == old(self).buf.len(), pos > old(self).file_len && pos != 4 ==> r is Err && r->Err_0 is Eof && final(self).pos == old(self).pos
@end
//@extract tskv/src/record_file/reader.rs Reader::read_buf
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /TskvResult<&\[u8\]>/ => TskvResult<Vec<u8>>
@subst /self\.buf\.resize\((\w+), 0_u8\)/ => resize(&mut self.buf, \1)
@subst /\((self\.buf_use \+ \w+)\)\.min\(self\.buf_len\)/ => min_usize(\1, self.buf_len)
@subst /Ok\(&(self\.buf\[[^\]]*\])\)/ => Ok(to_vec(&\1))
@subst /(\w+)\.min\((\(self\.file_len as usize\))\.saturating_sub\(self\.pos\)\)/ => min_usize(\1, sat_sub(\2, self.pos))
@ret r
@spec
    requires old(self).inv(), size <= u32::MAX, old(self).pos <= old(self).file_len
    ensures final(self).inv(), final(self).same(*old(self)), final(self).pos == old(self).pos, r is Err ==> r->Err_0 is ReadFile, mem(*old(self), *final(self)),
        r matches Ok(v) ==> v@ == old(self).c().subrange(old(self).pos as int, if old(self).pos + size <= old(self).file_len { old(self).pos + size } else { old(self).file_len as int })
@at tail
    proof { assert(self.buf@.subrange(self.buf_use as int, right_bound as int) =~= self.c().subrange(self.pos as int, if self.pos + size <= self.file_len { self.pos + size } else { self.file_len as int })) by {
        assert forall|i: int| 0 <= i < right_bound - self.buf_use implies #[trigger] self.buf@.subrange(self.buf_use as int, right_bound as int)[i] == self.c()[self.pos + i] by { assert(self.buf@[self.buf_use + i] == self.c()[self.pos - self.buf_use + (self.buf_use + i)]); } } }
@end
//@extract tskv/src/record_file/reader.rs Reader::find_record_header
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /TskvResult<\(usize, &\[u8\]\)>/ => TskvResult<(usize, Vec<u8>)>
@subst /decode_be_u32\((\w+)\)/ => decode_be_u32(&\1)
@ret r
@spec
    requires old(self).inv(), old(self).pos <= old(self).file_len
    ensures final(self).inv(), final(self).same(*old(self)), final(self).pos <= final(self).file_len, mem(*old(self), *final(self)), r is Err ==> r->Err_0 is ReadFile || r->Err_0 is Eof,
        r matches Ok(x) ==> find(old(self).c(), old(self).pos as int) == Some(x.0 as int) && x.0 + 14 <= old(self).file_len && x.1@ == old(self).c().subrange(x.0 as int, x.0 + 14) && final(self).pos == x.0,
        r is Err && r->Err_0 is Eof ==> (find(old(self).c(), old(self).pos as int) is None || find(old(self).c(), old(self).pos as int)->0 + 14 > old(self).file_len)
@loop 0
    invariant self.inv(), self.same(*old(self)), mem(*old(self), *self), self.pos <= self.file_len, find(self.c(), self.pos as int) == find(old(self).c(), old(self).pos as int)
    decreases self.file_len - self.pos
@end
//@extract tskv/src/record_file/reader.rs Reader::read_record
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /crc32fast::Hasher/ => Hasher
@subst /let mut p = RECORD_MAGIC_NUMBER_LEN;/ => let mut p: usize = RECORD_MAGIC_NUMBER_LEN;
@subst /(\w+)\.to_vec\(\)/ => to_vec(&\1)
@subst /RecordFileInvalidDataSizeSnafu \{([^{}]*)\}\s*\.build\(\)/ => TskvError::RecordFileInvalidDataSize {\1}
@subst /RecordFileHashCheckFailedSnafu \{(.*?)\}\s*\.build\(\)/ => TskvError::RecordFileHashCheckFailed {\1}
@log
@ret r
@spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).same(*old(self)), mem(*old(self), *final(self)),
        ({ let c = old(self).c(); let p = old(self).pos as int; let fp = old(self).footer_pos as int;
          &&& (r matches Ok(x) ==> ({ let q = find(c, p)->0; !end_at(c, fp, p) && valid_at(c, q) && rec_at(c, q) == (Rec { ver: x.data_version, ty: x.data_type, data: x.data@, pos: x.pos as int }) && final(self).pos == q + 14 + size_at(c, q) && items(c, fp, p) == seq![rec_at(c, q)] + items(c, fp, final(self).pos as int) }))
          &&& (r is Err && r->Err_0 is Eof ==> end_at(c, fp, p) && items(c, fp, p).len() == 0)
          &&& (r is Err && (r->Err_0 is RecordFileInvalidDataSize || r->Err_0 is RecordFileHashCheckFailed) ==> ({ let q = find(c, p)->0; !end_at(c, fp, p) && !valid_at(c, q) && final(self).pos == q + 1 && items(c, fp, p) == items(c, fp, q + 1) }))
          &&& (r is Err ==> r->Err_0 is Eof || r->Err_0 is RecordFileInvalidDataSize || r->Err_0 is RecordFileHashCheckFailed || r->Err_0 is ReadFile) })
@at after /let data_crc = [^;]*;/
    let ghost c = old(self).c(); let ghost q = header_pos as int; let ghost h = header@;
    proof { lemma_find(c, old(self).pos as int); assert(h.subrange(6, 10) =~= c.subrange(q + 6, q + 10)); assert(h.subrange(10, 14) =~= c.subrange(q + 10, q + 14)); assert(h.subrange(4, 10) =~= c.subrange(q + 4, q + 10)); assert(h[4] == c[q + 4] && h[5] == c[q + 5]); assert(data_size == size_at(c, q)); }
@at before /let data_crc_calculated/
    proof { assert(hasher@ =~= c.subrange(q + 4, q + 10) + c.subrange(q + 14, q + 14 + size_at(c, q))); }
@end
//@extract tskv/src/record_file/reader.rs Reader::read_record_at
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@ret r
@spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).same(*old(self)), valid_at(old(self).c(), pos as int) && pos + 14 + size_at(old(self).c(), pos as int) <= old(self).footer_pos ==> (r is Err ==> r->Err_0 is ReadFile) && (r matches Ok(x) ==> rec_at(old(self).c(), pos as int) == (Rec { ver: x.data_version, ty: x.data_type, data: x.data@, pos: x.pos as int }))
@end
//@extract tskv/src/record_file/reader.rs Reader::reload_metadata
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /tokio::fs::metadata\(&self\.path\)\s*\.context\([^;]*?\)\?/ => self.file.metadata()?
@ret r
@spec
    requires old(self).inv(), old(self).footer is None, old(self).footer_pos == old(self).file_len
    ensures final(self).inv(), old(self).c().is_prefix_of(final(self).c()), final(self).footer is None, r is Ok ==> final(self).footer_pos == final(self).c().len(), final(self).pos == old(self).pos
@end
//@extract tskv/src/record_file/reader.rs Reader::len
@ret r
@spec
    ensures r == self.file_len
@end
fn main() {}
}
