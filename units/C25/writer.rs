use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include file.inc
spec const LIM: int = 0x7fff_ffff_ffff_ffff;
struct IoError { x: u8 }
type Result<T> = core::result::Result<T, IoError>;
enum TskvError { Io, NoFooter, InvalidParam, ReadFile, FileSystemError }
type TskvResult<T> = core::result::Result<T, TskvError>;
#[derive(Clone, Copy)]
struct Path { id: u64 }
uninterp spec fn on_disk(p: Path) -> Seq<u8>;
#[verifier::external_body]
fn ctx<T>(r: Result<T>) -> (o: TskvResult<T>) ensures r matches Ok(v) ==> o == TskvResult::<T>::Ok(v), r is Err ==> o is Err && (o->Err_0 is Io || o->Err_0 is ReadFile) { unimplemented!() }
// ---- the operating system's file: a write puts the bytes where it says, or fails part way ----
#[verifier::external_body]
struct RawFile { x: u8 }
spec fn kept(a: Seq<u8>, b: Seq<u8>, pos: int) -> bool { pos <= a.len() ==> pos <= b.len() && a.take(pos) == b.take(pos) }
impl RawFile {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn pwrite(&mut self, pos: usize, data: &[u8]) -> (r: Result<usize>)
        requires pos <= old(self).bytes().len(), pos + data.len() <= LIM
        ensures kept(old(self).bytes(), final(self).bytes(), pos as int), final(self).bytes().len() >= old(self).bytes().len(), data.len() > 0 && r is Ok ==> r->Ok_0 > 0,
            r matches Ok(n) ==> n <= data.len() && final(self).bytes().len() >= pos + n && final(self).bytes().take(pos + n) == old(self).bytes().take(pos as int) + data@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    fn sync_data(&self) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn sync_all(&self) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn truncate(&mut self, size: u64) -> (r: Result<()>) requires size <= old(self).bytes().len() ensures r is Ok ==> final(self).bytes() == old(self).bytes().take(size as int), r is Err ==> final(self).bytes() == old(self).bytes() { unimplemented!() }
}
#[verifier::external_body]
fn interrupted(e: &IoError) -> bool { unimplemented!() }
#[verifier::external_body]
fn checked_add(a: usize, b: usize) -> (r: usize) requires a + b <= usize::MAX ensures r == a + b { unimplemented!() }
//@extract tskv/src/file_system/file/raw_file.rs RawFile::write_all_at
@subst /\{\s*let completion = [^}]*\}/ =>
@subst /pub\(crate\) async fn/ => fn
@subst /async fn/ => fn
@subst /&self, (\w+): usize, mut (\w+): &\[u8\]\)/ => &mut self, pos0: usize, data: &[u8])
@subst /let mut (\w+) = pos;/ => let mut \1 = pos0;
@subst /io::Result/ => Result
@subst /unsafe \{/ => { let mut buf = data;
@subst /file::asyncify\(\|\| \{/ => {
@subst /\}\)\s*\.await/ => }
@subst /\}\)\s*\}\s*\}$/ => } } }
@subst /e\.kind\(\) == ErrorKind::Interrupted/ => interrupted(&e)
@subst /pos\.checked_add\(n\)\.unwrap\(\)/ => checked_add(pos, n)
@subst /!(\w+)\.is_empty\(\)/ => \1.len() > 0
@subst /Err\((\w+)\) => return Err\(\w+\),/ => Err(\1) => { return Err(\1); }
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires pos0 <= old(self).bytes().len(), pos0 + data.len() <= LIM
    ensures kept(old(self).bytes(), final(self).bytes(), pos0 as int), final(self).bytes().len() >= old(self).bytes().len(),
        r matches Ok(n) ==> n == data.len() && final(self).bytes().len() >= pos0 + n && final(self).bytes().take(pos0 + n) == old(self).bytes().take(pos0 as int) + data@
@at start
    let ghost p0 = pos0 as int; let ghost o = self.bytes();
@loop 0
    invariant_except_break pos + buf.len() == p0 + data.len(), pos <= self.bytes().len(), buf@ == data@.skip(pos - p0), p0 <= pos, self.bytes().take(pos as int) == o.take(p0) + data@.take(pos - p0)
    invariant o == old(self).bytes(), p0 == pos0, p0 <= o.len(), p0 + data.len() <= LIM, kept(o, self.bytes(), p0), self.bytes().len() >= o.len(), len == data.len()
    ensures self.bytes().len() >= p0 + data.len(), self.bytes().take(p0 + data.len()) == o.take(p0) + data@
@at before-loop 0
    proof { assert(data@.skip(0) =~= data@); assert(o.take(p0) + data@.take(0) =~= o.take(p0)); }
@at loop-start 0
    let ghost b0 = self.bytes(); let ghost q = pos as int; let ghost s = buf@;
@at loop-end 0
    proof { assert(kept(o, self.bytes(), p0)) by { assert(b0.take(q).take(p0) =~= b0.take(p0)); assert(self.bytes().take(q).take(p0) =~= self.bytes().take(p0)); }
        assert(s.take(pos - q) =~= data@.subrange(q - p0, pos - p0)); assert(o.take(p0) + data@.take(q - p0) + s.take(pos - q) =~= o.take(p0) + data@.take(pos - p0)); assert(buf@ =~= data@.skip(pos - p0)); }
@at before /return Err\(/
    proof { assert(kept(o, self.bytes(), p0)) by { assert(b0.take(q).take(p0) =~= b0.take(p0)); assert(self.bytes().take(q).take(p0) =~= self.bytes().take(p0)); } }
@at after-loop 0
    proof { assert(data@.take(data.len() as int) =~= data@); }
@end
trait WritableFile {
    spec fn bytes(&self) -> Seq<u8>;
    spec fn size(&self) -> int;
    fn write_at(&mut self, pos: usize, data: &[u8]) -> (r: Result<usize>)
        requires pos == old(self).size(), pos <= old(self).bytes().len(), pos + data.len() <= LIM
        ensures kept(old(self).bytes(), final(self).bytes(), pos as int), final(self).bytes().len() >= old(self).bytes().len(), r is Err ==> final(self).size() == pos,
            r matches Ok(n) ==> n == data.len() && final(self).size() == pos + n && final(self).bytes().len() >= pos + n && final(self).bytes().take(pos + n) == old(self).bytes().take(pos as int) + data@;
    fn sync_data(&self) -> (r: Result<()>);
    fn truncate(&mut self, size: u64) -> (r: Result<()>)
        requires size <= old(self).bytes().len()
        ensures r is Ok ==> final(self).bytes() == old(self).bytes().take(size as int) && final(self).size() == size, r is Err ==> final(self).bytes() == old(self).bytes();
    fn file_size(&self) -> (r: usize) ensures r == self.size();
    fn is_empty(&self) -> (r: bool) ensures r == (self.size() == 0);
}
//@extract tskv/src/file_system/file/async_file.rs struct AsyncFile
@end
#[verifier::external_body]
fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { a.max(b) }
//@extract tskv/src/file_system/file/async_file.rs impl WritableFile for AsyncFile
@skip as_any, sync_all
@subst /self\.size\.max\(([^()]*)\)/ => max_usize(self.size, \1)
@inside spec fn bytes(&self) -> Seq<u8> { self.inner.bytes() } spec fn size(&self) -> int { self.size as int }
@fn write_at
@ret r
@fn sync_data
@ret r
@fn truncate
@ret r
@fn file_size
@ret r
@fn is_empty
@ret r
@end

// ---- the buffered writer ----
#[verifier::external_body]
fn take(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r@ == old(v)@, final(v)@ == Seq::<u8>::empty() { std::mem::take(v) }
#[verifier::external_body]
fn reserve(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ { v.reserve(n) }
spec fn cat(v: Seq<&[u8]>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last()@ } }
#[verifier::external_body]
fn total(v: &Vec<&[u8]>) -> (r: usize) ensures cat(v@).len() <= LIM ==> r == cat(v@).len() { unimplemented!() }
//@extract tskv/src/file_system/file/stream_writer.rs struct Buffer
@end
//@extract tskv/src/file_system/file/stream_writer.rs impl Buffer
@subst /Vec::with_capacity\((\w+)\)/ => Vec::new()
@subst /std::mem::take\(&mut self\.data\)/ => take(&mut self.data)
@subst /self\.data\.reserve\((\w+)\)/ => reserve(&mut self.data, \1)
@fn new
@ret r
@spec
    ensures r.data@ == Seq::<u8>::empty()
@fn is_full
@ret r
@fn extend_from_slice
@spec
    ensures final(self).data@ == old(self).data@ + buf@, final(self).buffer_size == old(self).buffer_size
@at tail
    proof { assert(self.data@ =~= old(self).data@ + buf@); }
@fn consume_data
@ret r
@spec
    ensures r@ == old(self).data@, final(self).data@ == Seq::<u8>::empty(), final(self).buffer_size == old(self).buffer_size
@fn reserve
@spec
    ensures final(self).data@ == old(self).data@, final(self).buffer_size == old(self).buffer_size
@end
//@extract tskv/src/file_system/file/stream_writer.rs struct FileStreamWriter
@subst /PathBuf/ => Path
@end
impl FileStreamWriter {
    // everything written: what is in the file up to the position, and what is buffered
    spec fn view(&self) -> Seq<u8> { self.file.bytes().take(self.pos as int) + self.buf.data@ }
    spec fn done(&self) -> Seq<u8> { self.file.bytes().take(self.pos as int) }
    spec fn inv(&self) -> bool { self.pos == self.file.size() && self.pos <= self.file.bytes().len() && self.view().len() <= LIM }
}
// a failed write loses what was buffered, never what was in the file before
spec fn failed(a: FileStreamWriter, b: FileStreamWriter) -> bool { b.inv() && b.pos == a.pos && b.done() == a.done() && b.file.bytes().len() >= a.file.bytes().len() }
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::new
@subst /PathBuf/ => Path
@ret r
@spec
    requires file.size() == file.bytes().len(), file.size() <= LIM
    ensures r.inv(), r.view() == file.bytes(), r.buf.data@ == Seq::<u8>::empty(), r.path == path_buf
@at tail
    proof { assert(file.bytes().take(pos as int) + Seq::<u8>::empty() =~= file.bytes()); }
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::set_pos
@spec
    ensures final(self).pos == pos, final(self).file == old(self).file, final(self).buf == old(self).buf, final(self).path == old(self).path
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::try_flush
@subst /async fn/ => fn
@subst /\.await/ =>
@ret r
@spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).path == old(self).path, r is Ok ==> final(self).view() == old(self).view(), r is Err ==> failed(*old(self), *final(self)) && final(self).buf.data@.len() == 0
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::flush
@subst /async fn/ => fn
@subst /\.await/ =>
@ret r
@spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).path == old(self).path, r is Ok ==> final(self).view() == old(self).view() && final(self).done() == old(self).view(), r is Err ==> final(self).buf.data@.len() == 0 && (failed(*old(self), *final(self)) || final(self).view() == old(self).view())
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::write
@subst /async fn/ => fn
@subst /\.await/ =>
@ret r
@spec
    requires old(self).inv(), old(self).view().len() + buf.len() <= LIM
    ensures final(self).inv(), final(self).path == old(self).path, r matches Ok(n) ==> n == buf.len() && final(self).view() == old(self).view() + buf@, r is Err ==> failed(*old(self), *final(self)) && final(self).buf.data@.len() == 0
@at before /self\.try_flush/
    proof { assert(self.view() =~= old(self).view() + buf@); }
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::write_vec
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /write_vec<'a>/ => write_vec
@subst /&'a \[IoSlice<'a>\]/ => &Vec<&[u8]>
@subst /(\w+)\.iter\(\)\.fold\([^;]*\);/ => total(\1);
@subst /(\w+)\.iter\(\)\.for_each\(\|(\w+)\| ([^;]*)\);/ => for \2 in \1.iter() { \3; }
@ret r
@spec
    requires old(self).inv(), old(self).view().len() + cat(bufs@).len() <= LIM
    ensures final(self).inv(), final(self).path == old(self).path, r matches Ok(n) ==> n == cat(bufs@).len() && final(self).view() == old(self).view() + cat(bufs@), r is Err ==> failed(*old(self), *final(self)) && final(self).buf.data@.len() == 0
@iter 0 it
@loop 0
    invariant it.seq() == bufs@.map(|i: int, x: &[u8]| &bufs@[i]), self.pos == old(self).pos, self.file == old(self).file, self.path == old(self).path, self.buf.data@ == old(self).buf.data@ + cat(bufs@.take(it.index@ as int))
@at loop-start 0
    proof { let b = bufs@.take(it.index@ + 1); assert(b.drop_last() =~= bufs@.take(it.index@ as int)); assert(b.last() == bufs@[it.index@ as int]); }
@at loop-end 0
    proof { assert(self.buf.data@ =~= old(self).buf.data@ + cat(bufs@.take(it.index@ + 1))); }
@at before-loop 0
    proof { assert(old(self).buf.data@ + cat(bufs@.take(0)) =~= old(self).buf.data@); }
@at before /self\.try_flush/
    proof { assert(bufs@.take(bufs.len() as int) =~= bufs@); assert(self.view() =~= old(self).view() + cat(bufs@)); }
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::truncate
@subst /async fn/ => fn
@subst /\.await/ =>
@ret r
@spec
    requires old(self).inv(), size <= old(self).view().len()
    ensures final(self).path == old(self).path, r is Ok ==> final(self).inv() && final(self).view() == old(self).view().take(size as int) && final(self).done() == final(self).view()
@end
//@extract tskv/src/file_system/file/stream_writer.rs FileStreamWriter::len
@ret r
@spec
    requires self.inv()
    ensures r == self.view().len()
@end

// ---- the record writer ----
#[verifier::external_body]
fn read_footer(p: &Path) -> (r: TskvResult<(u64, [u8; FILE_FOOTER_LEN])>)
    ensures r matches Ok(x) ==> has_footer(on_disk(*p)) && x.0 == on_disk(*p).len() - 32, r is Err && r->Err_0 is NoFooter ==> !has_footer(on_disk(*p)) { unimplemented!() }
#[verifier::external_body]
fn open_file_writer(p: &Path, buf_size: usize) -> (r: TskvResult<FileStreamWriter>)
    ensures r matches Ok(f) ==> f.inv() && f.view() == on_disk(*p) && f.buf.data@.len() == 0 && f.path == *p { unimplemented!() }
#[verifier::external_body]
fn to_be(v: u32) -> (r: [u8; 4]) ensures r@ == be32(v) { v.to_be_bytes() }
#[verifier::external_body]
fn to_u32(v: usize) -> (r: Option<u32>) ensures v <= u32::MAX ==> r == Some(v as u32), v > u32::MAX ==> r is None { unimplemented!() }
#[verifier::external_body]
fn set_4_8(v: &mut [u8; FILE_FOOTER_LEN], x: &[u8; 4]) ensures final(v)@.subrange(4, 8) == x@, final(v)@.take(4) == old(v)@.take(4), final(v)@.skip(8) == old(v)@.skip(8) { unimplemented!() }
#[verifier::external_body]
fn copy32(v: &[u8; FILE_FOOTER_LEN]) -> (r: [u8; FILE_FOOTER_LEN]) ensures r == *v { *v }
#[verifier::external_body]
fn flen(f: [u8; FILE_FOOTER_LEN]) -> (r: usize) ensures r == 32 { 32 }
#[verifier::external_body]
fn zeroes(n: usize) -> (r: Vec<u8>) ensures r.len() == n { unimplemented!() }
// the file under a writer, read: only what has been written out is there
#[verifier::external_body]
fn read_at(f: &FileStreamWriter, pos: usize, data: &mut Vec<u8>) -> (r: Result<usize>)
    ensures final(data).len() == old(data).len(), r is Ok && f.done().len() >= pos + old(data).len() ==> final(data)@ == f.done().subrange(pos as int, pos + old(data).len()) { unimplemented!() }
#[verifier::external_body]
fn sub_or(a: usize, b: usize, d: usize) -> (r: usize) ensures r == if a >= b { a - b } else { d as int } { unimplemented!() }
proof fn lemma_cat2(a: Seq<&[u8]>, b: Seq<&[u8]>) ensures cat(a + b) == cat(a) + cat(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(cat(a) + Seq::<u8>::empty() =~= cat(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cat2(a, b.drop_last()); assert((a + b).last() == b.last()); assert(cat(a) + cat(b.drop_last()) + b.last()@ =~= cat(a) + (cat(b.drop_last()) + b.last()@)); }
}
proof fn lemma_cat4(v: Seq<&[u8]>) requires v.len() == 4 ensures cat(v) == v[0]@ + v[1]@ + v[2]@ + v[3]@ {
    reveal_with_fuel(cat, 5); assert(v.drop_last().drop_last().drop_last().drop_last().len() == 0); assert(Seq::<u8>::empty() + v[0]@ =~= v[0]@);
    assert(v.drop_last().last() == v[2]); assert(v.drop_last().drop_last().last() == v[1]); assert(v.drop_last().drop_last().drop_last().last() == v[0]);
}
//@extract tskv/src/record_file/writer.rs struct Writer
@subst /Box<FileStreamWriter>/ => FileStreamWriter
@subst /PathBuf/ => Path
@end
impl Writer {
    spec fn view(&self) -> Seq<u8> { self.file.view() }
    spec fn done(&self) -> Seq<u8> { self.file.done() }
    // starts with the file magic number, and is a file of this path
    spec fn inv(&self) -> bool { self.file.inv() && self.view().len() >= 4 && self.file.path == self.path }
}
//@extract tskv/src/record_file/writer.rs Writer::open
@log
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /path: impl AsRef<Path>/ => path: &Path
@subst /let path = path\.as_ref\(\);/ =>
@subst /path: path\.to_path_buf\(\)/ => path: *path
@subst /let file_system = [^;]*;/ =>
@subst /file_system\s*\.open_file_writer\((\w+), (\w+)\)\s*\.map_err\([^;]*?\)\?;/ => open_file_writer(\1, \2)?;
@subst /(file\.truncate\((\w+)\))\.context\(IOSnafu\)\?/ => ctx(\1)?
@subst /file\.write\(&FILE_MAGIC_NUMBER\.to_be_bytes\(\)\)\s*\.context\(error::IOSnafu\)\?/ => ctx(file.write(&to_be(FILE_MAGIC_NUMBER)))?
@subst /reader::read_footer\(&path\)/ => read_footer(path)
@subst /footer\.map\(\|(\w+)\| \w+\.len\(\)\)\.unwrap_or\(0\)/ => match footer { Some(f) => flen(f), None => 0 }
@subst /file\s*\.len\(\)\s*\.checked_sub\((\w+)\)\s*\.unwrap_or\((\w+)\)/ => sub_or(file.len(), \1, \2)
@ret r
@spec
    ensures r matches Ok(w) ==> w.inv() && w.path == *path && ({ let c = on_disk(*path);
        w.view() == if c.len() < 4 { be32(FILE_MAGIC_NUMBER) } else if has_footer(c) { c.take(c.len() - 32) } else { c } })
@at start
    proof { assert forall|s: Seq<u8>, t: Seq<u8>| #[trigger] (s.take(0) + t) =~= t by {} assert forall|s: Seq<u8>| #[trigger] s.take(s.len() as int) =~= s by {} }
@end
//@extract tskv/src/record_file/writer.rs Writer::write_record
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /<R, D>/ =>
@subst /data: R,/ => data: &Vec<&[u8]>,
@subst /where\s*D: AsRef<\[u8\]>,\s*R: AsRef<\[D\]>,/ =>
@subst /let data = data\.as_ref\(\);/ =>
@subst /data\.iter\(\)\.map\(\|\w+\| \w+\.as_ref\(\)\.len\(\)\)\.sum\(\)/ => total(data)
@subst /data_len\.to_u32\(\)/ => to_u32(data_len)
@subst /InvalidParamSnafu \{.*?\}\s*\.build\(\)/ => TskvError::InvalidParam
@subst /crc32fast::Hasher/ => Hasher
@subst /data_len\.to_be_bytes\(\)/ => to_be(data_len)
@subst /hasher\.finalize\(\)\.to_be_bytes\(\)/ => to_be(hasher.finalize())
@subst /RECORD_MAGIC_NUMBER\.to_be_bytes\(\)/ => to_be(RECORD_MAGIC_NUMBER)
@subst /(\w+)\.as_ref\(\)/ => \1
@subst /IoSlice::new\(/ => (
@subst /Vec<IoSlice>/ => Vec<&[u8]>
@subst /for d in data \{/ => for d in data.iter() {
@subst /self\s*\.file\s*\.write_vec\(&write_buf\)\s*\.context\(WriteFileSnafu \{[^}]*\}\)\?/ => ctx(self.file.write_vec(&write_buf))?
@ret r
@spec
    requires old(self).inv(), cat(data@).len() <= LIM, old(self).view().len() + 14 + cat(data@).len() <= LIM
    ensures final(self).inv() || r is Err, final(self).path == old(self).path, r matches Ok(n) ==> n == 14 + cat(data@).len() && cat(data@).len() <= u32::MAX && final(self).view() == old(self).view() + enc_rec(data_version, data_type, cat(data@)),
        r is Err ==> final(self).file.inv() && (final(self).view() == old(self).view() || failed(old(self).file, final(self).file))
@iter 0 it
@iter 1 it
@loop 0
    invariant it.seq() == data@.map(|i: int, x: &[u8]| &data@[i]), hasher@ == enc_head(data_version, data_type, cat(data@)) + cat(data@.take(it.index@ as int))
@at before-loop 0
    let ghost n = cat(data@).len();
    proof { assert(data_meta@ =~= seq![data_version, data_type]); assert(hasher@ =~= enc_head(data_version, data_type, cat(data@)) + cat(data@.take(0))); }
@at loop-start 0
    proof { let b = data@.take(it.index@ + 1); assert(b.drop_last() =~= data@.take(it.index@ as int)); assert(b.last() == data@[it.index@ as int]); }
@at loop-end 0
    proof { assert(hasher@ =~= enc_head(data_version, data_type, cat(data@)) + cat(data@.take(it.index@ + 1))); }
@at after-loop 0
    proof { assert(data@.take(data.len() as int) =~= data@); lemma_be32(RECORD_MAGIC_NUMBER); lemma_be32(crc32(enc_head(data_version, data_type, cat(data@)) + cat(data@))); lemma_be32(n as u32); }
@loop 1
    invariant it.seq() == data@.map(|i: int, x: &[u8]| &data@[i]), write_buf@.len() == 4 + it.index@, write_buf@.take(4) == h4, write_buf@.skip(4) == data@.take(it.index@ as int)
@at before-loop 1
    let ghost h4 = write_buf@;
    proof { assert(write_buf@.take(4) =~= h4); assert(write_buf@.skip(4) =~= data@.take(0)); lemma_cat4(h4); }
@at loop-end 1
    proof { assert(write_buf@.take(4) =~= h4); assert(write_buf@.skip(4) =~= data@.take(it.index@ + 1)); }
@at after-loop 1
    proof { assert(data@.take(data.len() as int) =~= data@); assert(write_buf@ =~= write_buf@.take(4) + write_buf@.skip(4)); lemma_cat2(h4, data@); 
        assert(cat(write_buf@) =~= enc_rec(data_version, data_type, cat(data@))); }
@end
//@extract tskv/src/record_file/writer.rs Writer::truncate
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /(self\.file\.truncate\([^()]*\))\.context\(IOSnafu\)\?/ => ctx(\1)?
@ret r
@spec
    requires old(self).inv(), size <= old(self).view().len(), size >= 4
    ensures final(self).path == old(self).path, r is Ok ==> final(self).inv() && final(self).view() == old(self).view().take(size as int)
@end
//@extract tskv/src/record_file/writer.rs Writer::sync
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /(self\.file\.flush\(\))\.context\(error::SyncFileSnafu\)/ => ctx(\1)
@ret r
@spec
    requires old(self).inv()
    ensures final(self).file.inv(), final(self).path == old(self).path, r is Ok ==> final(self).inv() && final(self).view() == old(self).view() && final(self).done() == old(self).view(), r is Err ==> failed(old(self).file, final(self).file) || final(self).view() == old(self).view()
@end
//@extract tskv/src/record_file/writer.rs Writer::close
@subst /async fn/ => fn
@subst /\.await/ =>
@ret r
@spec
    requires old(self).inv()
    ensures final(self).file.inv(), final(self).path == old(self).path, r is Ok ==> final(self).inv() && final(self).view() == old(self).view() && final(self).done() == old(self).view(), r is Err ==> failed(old(self).file, final(self).file) || final(self).view() == old(self).view()
@end
//@extract tskv/src/record_file/writer.rs Writer::write_footer
@subst /async fn/ => fn
@subst /\.await/ =>
@subst /let file_system = [^;]*;/ =>
@subst /let file = file_system\s*\.open_file_reader\(&self\.path\)\s*\.map_err\([^;]*?\)\?;/ =>
@subst /let mut (\w+) = vec!\[0_u8; ([^;]*)\];/ => let mut \1 = zeroes(\2);
@subst /file\.read_at\((\w+), &mut (\w+)\)\s*\.context\(ReadFileSnafu \{[^}]*\}\)\?/ => ctx(read_at(&self.file, \1, &mut \2))?
@subst /crc32fast::hash\(&/ => crc_hash(&
@subst /footer\[4\.\.8\]\.copy_from_slice\(&crc\.to_be_bytes\(\)\)/ => set_4_8(footer, &to_be(crc))
@subst /Some\(\*footer\)/ => Some(copy32(footer))
@subst /self\.file\.write\(footer\)\s*\.context\(WriteFileSnafu \{[^}]*\}\)\?/ => ctx(self.file.write(&*footer))?
@ret r
@spec
    requires old(self).inv(), old(self).view().len() + 32 <= LIM
    ensures final(self).path == old(self).path, r is Ok ==> final(self).inv() && has_footer(final(self).view()) && final(self).view().len() == old(self).view().len() + 32 && final(self).view().take(old(self).view().len() as int) == old(self).view()
@at tail
    proof { let v = old(self).view(); let w = self.view(); lemma_be32(crc); assert(w =~= v + footer@); assert(w.take(v.len() as int) =~= v); assert(w.subrange(w.len() - 28, w.len() - 24) =~= footer@.subrange(4, 8)); assert(buf@ =~= w.subrange(4, 4 + crc_len(w.len() as int, 32))); }
@end
//@extract tskv/src/record_file/writer.rs Writer::file_size
@ret r
@spec
    requires self.inv()
    ensures r == self.view().len()
@end
fn main() {}
}
