use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Debug)]
struct CodecError { c: u8 }
//@include ../C01/be.inc
//@include ../C01/arrays.inc
//@include ../C01/varint.inc
// ---- stand-ins: a column of optional byte strings, UTF-8 checking, the compressors ----
struct StringArray { v: Ghost<Seq<Option<Seq<u8>>>> }
#[derive(Clone)]
struct Str { b: Vec<u8> }
impl StringArray {
    #[verifier::external_body]
    fn from(v: Vec<Option<Str>>) -> (r: StringArray) ensures r.v@.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] r.v@[i] == (match v@[i] { Some(s) => Some(s.b@), None => None::<Seq<u8>> }) { unimplemented!() }
}
struct StringBuilder { v: Ghost<Seq<Option<Seq<u8>>>> }
impl StringBuilder {
    fn new() -> (r: StringBuilder) ensures r.v@ == Seq::<Option<Seq<u8>>>::empty() { StringBuilder { v: Ghost(Seq::empty()) } }
    fn append_value(&mut self, x: Str) ensures final(self).v@ == old(self).v@.push(Some(x.b@)) { self.v = Ghost(self.v@.push(Some(x.b@))); }
    fn append_null(&mut self) ensures final(self).v@ == old(self).v@.push(None) { self.v = Ghost(self.v@.push(None)); }
    fn finish(&mut self) -> (r: StringArray) ensures r.v@ == old(self).v@ { StringArray { v: self.v } }
}
type ArrayRef = Arc<StringArray>;
type MiniVec = Vec<u8>;
uninterp spec fn utf8(b: Seq<u8>) -> bool;
// String::from_utf8(s.to_vec())
#[verifier::external_body]
fn from_utf8(s: &[u8]) -> (r: Result<Str, CodecError>) ensures utf8(s@) ==> r is Ok && r->Ok_0.b@ == s@ { unimplemented!() }
#[verifier::external_body]
fn mini(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
fn run_assert(b: bool) requires b {}
// what a compressor makes of some bytes, and what its decompressor makes of those
#[derive(PartialEq, Eq)]
enum Comp { ZSTD, GZIP, BZIP, ZLIB, SNAPPY }
uninterp spec fn comp(k: Comp, d: Seq<u8>) -> Seq<u8>;
uninterp spec fn decomp(k: Comp, c: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
proof fn axiom_comp(k: Comp, d: Seq<u8>) ensures decomp(k, comp(k, d)) == Some(d) {}
#[verifier::external_body]
fn zstd_copy_encode(d: &[u8], dst: &mut Vec<u8>, level: i32) -> (r: Result<(), CodecError>) ensures r is Ok, final(dst)@ == old(dst)@ + comp(Comp::ZSTD, d@) { unimplemented!() }
#[verifier::external_body]
fn zstd_copy_decode(d: &[u8], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) ensures decomp(Comp::ZSTD, d@) is Some ==> r is Ok && final(dst)@ == old(dst)@ + decomp(Comp::ZSTD, d@)->0 { unimplemented!() }
struct CompressionFlate {} impl CompressionFlate { fn default() -> CompressionFlate { CompressionFlate {} } }
struct CompressionBzip {} impl CompressionBzip { fn default() -> CompressionBzip { CompressionBzip {} } }
struct GzEncoder { w: Ghost<Seq<u8>>, d: Ghost<Seq<u8>> }
impl GzEncoder {
    #[verifier::external_body]
    fn new(w: Vec<u8>, c: CompressionFlate) -> (r: GzEncoder) ensures r.w@ == w@, r.d@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8]) -> (r: Result<(), CodecError>) ensures r is Ok, final(self).w == old(self).w, final(self).d@ == old(self).d@ + d@ { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: Result<Vec<u8>, CodecError>) ensures r is Ok, r->Ok_0@ == self.w@ + comp(Comp::GZIP, self.d@) { unimplemented!() }
}
struct GzDecoder { w: Ghost<Seq<u8>>, d: Ghost<Seq<u8>> }
impl GzDecoder {
    #[verifier::external_body]
    fn new(w: Vec<u8>) -> (r: GzDecoder) ensures r.w@ == w@, r.d@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8]) -> (r: Result<(), CodecError>) ensures decomp(Comp::GZIP, old(self).d@ + d@) is Some ==> r is Ok, final(self).w == old(self).w, final(self).d@ == old(self).d@ + d@ { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: Result<Vec<u8>, CodecError>) ensures decomp(Comp::GZIP, self.d@) is Some ==> r is Ok && r->Ok_0@ == self.w@ + decomp(Comp::GZIP, self.d@)->0 { unimplemented!() }
}
struct BzEncoder { w: Ghost<Seq<u8>>, d: Ghost<Seq<u8>> }
impl BzEncoder {
    #[verifier::external_body]
    fn new(w: Vec<u8>, c: CompressionBzip) -> (r: BzEncoder) ensures r.w@ == w@, r.d@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8]) -> (r: Result<(), CodecError>) ensures r is Ok, final(self).w == old(self).w, final(self).d@ == old(self).d@ + d@ { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: Result<Vec<u8>, CodecError>) ensures r is Ok, r->Ok_0@ == self.w@ + comp(Comp::BZIP, self.d@) { unimplemented!() }
}
struct BzDecoder { w: Ghost<Seq<u8>>, d: Ghost<Seq<u8>> }
impl BzDecoder {
    #[verifier::external_body]
    fn new(w: Vec<u8>) -> (r: BzDecoder) ensures r.w@ == w@, r.d@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8]) -> (r: Result<(), CodecError>) ensures decomp(Comp::BZIP, old(self).d@ + d@) is Some ==> r is Ok, final(self).w == old(self).w, final(self).d@ == old(self).d@ + d@ { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: Result<Vec<u8>, CodecError>) ensures decomp(Comp::BZIP, self.d@) is Some ==> r is Ok && r->Ok_0@ == self.w@ + decomp(Comp::BZIP, self.d@)->0 { unimplemented!() }
}
struct ZlibEncoder { w: Ghost<Seq<u8>>, d: Ghost<Seq<u8>> }
impl ZlibEncoder {
    #[verifier::external_body]
    fn new(w: Vec<u8>, c: CompressionFlate) -> (r: ZlibEncoder) ensures r.w@ == w@, r.d@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8]) -> (r: Result<(), CodecError>) ensures r is Ok, final(self).w == old(self).w, final(self).d@ == old(self).d@ + d@ { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: Result<Vec<u8>, CodecError>) ensures r is Ok, r->Ok_0@ == self.w@ + comp(Comp::ZLIB, self.d@) { unimplemented!() }
}
struct ZlibDecoder { w: Ghost<Seq<u8>>, d: Ghost<Seq<u8>> }
impl ZlibDecoder {
    #[verifier::external_body]
    fn new(w: Vec<u8>) -> (r: ZlibDecoder) ensures r.w@ == w@, r.d@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, d: &[u8]) -> (r: Result<(), CodecError>) ensures decomp(Comp::ZLIB, old(self).d@ + d@) is Some ==> r is Ok, final(self).w == old(self).w, final(self).d@ == old(self).d@ + d@ { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: Result<Vec<u8>, CodecError>) ensures decomp(Comp::ZLIB, self.d@) is Some ==> r is Ok && r->Ok_0@ == self.w@ + decomp(Comp::ZLIB, self.d@)->0 { unimplemented!() }
}
// snap::raw
spec fn mcl(n: int) -> int { if n > 0xffff_ffff || 32 + n + n / 6 > 0xffff_ffff { 0 } else { 32 + n + n / 6 } }
#[verifier::external_body]
fn max_compress_len(n: usize) -> (r: usize) ensures r == mcl(n as int) { unimplemented!() }
struct SnapEncoder {}
impl SnapEncoder {
    fn new() -> SnapEncoder { SnapEncoder {} }
    #[verifier::external_body]
    fn compress(&mut self, d: &[u8], out: &mut [u8]) -> (r: Result<usize, CodecError>)
        ensures mcl(d.len() as int) != 0 && old(out).len() >= mcl(d.len() as int) ==> r is Ok, r is Ok ==> r->Ok_0 == comp(Comp::SNAPPY, d@).len() && r->Ok_0 <= old(out).len() && final(out)@ == comp(Comp::SNAPPY, d@) + old(out)@.skip(r->Ok_0 as int)
    { unimplemented!() }
}
struct SnapDecoder {}
impl SnapDecoder {
    fn new() -> SnapDecoder { SnapDecoder {} }
    #[verifier::external_body]
    fn decompress_vec(&mut self, d: &[u8]) -> (r: Result<Vec<u8>, CodecError>) ensures decomp(Comp::SNAPPY, d@) is Some ==> r is Ok && r->Ok_0@ == decomp(Comp::SNAPPY, d@)->0 { unimplemented!() }
}
// slice::split_at_mut
#[verifier::external_body]
fn split_at_mut(v: &mut [u8], n: usize) -> (r: (&mut [u8], &mut [u8]))
    requires n <= old(v).len() ensures r.0@ == old(v)@.take(n as int), r.1@ == old(v)@.skip(n as int), final(v)@ == final(r.0)@ + final(r.1)@, final(r.0).len() == n, final(v).len() == old(v).len()
{ v.split_at_mut(n) }
// data[n..][..len].copy_from_slice(s)
#[verifier::external_body]
fn copy_at(v: &mut [u8], n: usize, len: usize, s: &[u8]) requires n + len <= old(v).len(), s.len() == len ensures final(v)@ == old(v)@.take(n as int) + s@ + old(v)@.skip(n + len) { v[n..][..len].copy_from_slice(s) }
#[verifier::external_body]
fn encode_var_in(x: u64, dst: &mut [u8], n: usize) -> (r: usize)
    requires n + var_enc(x).len() <= old(dst).len()
    ensures r == var_enc(x).len(), final(dst)@ == old(dst)@.take(n as int) + var_enc(x) + old(dst)@.skip(n + r)
{ unimplemented!() }
// byte_utils::decode_be_u64 (a pointer cast of an 8-byte slice)
#[verifier::external_body]
fn decode_be_u64(s: &[u8]) -> (r: u64) requires s.len() == 8 ensures r == unbe64(s@) { unimplemented!() }

// ---- the frame: each string behind its length, the length in 8 bytes or as a varint ----
spec fn hd(be: bool, n: int) -> Seq<u8> { if be { be64(n as u64) } else { var_enc(n as u64) } }
spec fn frame(be: bool, s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { frame(be, s.drop_last()) + hd(be, s.last().len() as int) + s.last() } }
spec fn strs(s: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
spec fn vecs(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
spec fn total(s: Seq<Seq<u8>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().len() } }
proof fn lemma_total(s: Seq<Seq<u8>>, i: int) requires 0 <= i <= s.len() ensures 0 <= total(s.take(i)) <= total(s), i < s.len() ==> total(s.take(i + 1)) == total(s.take(i)) + s[i].len() && total(s.take(i + 1)) <= total(s) decreases s.len()
{ assert(s.take(s.len() as int) =~= s); if i < s.len() { assert(s.take(i + 1).drop_last() =~= s.take(i)); lemma_total_(s, i); lemma_total_(s, i + 1); } else { lemma_total_(s, i); } }
proof fn lemma_total_(s: Seq<Seq<u8>>, i: int) requires 0 <= i <= s.len() ensures 0 <= total(s.take(i)) <= total(s) decreases s.len()
{ assert(s.take(s.len() as int) =~= s); if s.len() > 0 { lemma_total_(s.drop_last(), if i < s.len() { i } else { i - 1 }); if i < s.len() { assert(s.drop_last().take(i) =~= s.take(i)); } } }
// string i lies behind its header at the end of the frame of the strings before it
spec fn off(be: bool, s: Seq<Seq<u8>>, i: int) -> int { frame(be, s.take(i)).len() as int }
proof fn lemma_frame(be: bool, s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len()
    ensures ({ let (o, f, h) = (off(be, s, i), frame(be, s), hd(be, s[i].len() as int));
        &&& 0 <= o && o + h.len() + s[i].len() <= f.len() &&& f.subrange(o, o + h.len()) =~= h &&& f.subrange(o + h.len(), o + h.len() + s[i].len()) =~= s[i]
        &&& off(be, s, i + 1) == o + h.len() + s[i].len() })
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(s.len() as int) =~= s);
    if i < s.len() - 1 { let p = s.drop_last(); lemma_frame(be, p, i); assert(p.take(i) =~= s.take(i)); 
      let (o, h) = (off(be, s, i), hd(be, s[i].len() as int)); assert(frame(be, s).subrange(o, o + h.len()) =~= frame(be, p).subrange(o, o + h.len()));
      assert(frame(be, s).subrange(o + h.len(), o + h.len() + s[i].len()) =~= frame(be, p).subrange(o + h.len(), o + h.len() + s[i].len())); }
}
proof fn lemma_frame_end(be: bool, s: Seq<Seq<u8>>) ensures off(be, s, s.len() as int) == frame(be, s).len(), off(be, s, 0) == 0 { assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<Seq<u8>>::empty()); }
// what a decoder needs of string i
proof fn lemma_read(s: Seq<Seq<u8>>, i: int, f: Seq<u8>)
    requires 0 <= i < s.len(), f == frame(true, s), s[i].len() <= u64::MAX
    ensures ({ let o = off(true, s, i); &&& 0 <= o && o + 8 + s[i].len() <= f.len() &&& unbe64(f.subrange(o, o + 8)) == s[i].len() &&& f.subrange(o + 8, o + 8 + s[i].len()) == s[i] &&& off(true, s, i + 1) == o + 8 + s[i].len() })
{ lemma_frame(true, s, i); lemma_be(s[i].len() as u64); let o = off(true, s, i); assert(f.subrange(o, o + 8) =~= be64(s[i].len() as u64)); }
proof fn lemma_read_var(s: Seq<Seq<u8>>, i: int, f: Seq<u8>)
    requires 0 <= i < s.len(), f == frame(false, s), s[i].len() <= u64::MAX
    ensures ({ let o = off(false, s, i); let h = var_enc(s[i].len() as u64).len(); &&& 1 <= h <= 10 &&& 0 <= o && o + h + s[i].len() <= f.len() &&& var_dec(f.skip(o)) == Some((s[i].len() as u64, h as usize))
         &&& f.subrange(o + h, o + h + s[i].len()) == s[i] &&& off(false, s, i + 1) == o + h + s[i].len() })
{ lemma_frame(false, s, i); let o = off(false, s, i); let e = var_enc(s[i].len() as u64); assert(f.skip(o).take(e.len() as int) =~= f.subrange(o, o + e.len())); lemma_var(s[i].len() as u64, f.skip(o)); }

//@extract common/models/src/codec.rs enum Encoding
@subst /enum Encoding \{/ => struct Encoding; impl Encoding {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@subst /#\[default\]/ =>
@end
//@extract tskv/src/tsm/codec/mod.rs const MAX_VAR_INT_32
@end
//@extract tskv/src/tsm/codec/string.rs const STRING_COMPRESSED_SNAPPY
@end
//@extract tskv/src/tsm/codec/string.rs const HEADER_LEN
@end
//@extract tskv/src/tsm/codec/string.rs const MAX_I32
@subst /i32::MAX as usize/ => 0x7fff_ffff
@end
//@extract tskv/src/tsm/codec/string.rs const ZSTD_COMPRESS_LEVEL
@end
//@extract tskv/src/tsm/codec/string.rs fn str_without_compress_encode
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Null] + frame(true, strs(src@))
@iter 0 it
@at before-loop 0
    proof { assert(strs(src@).take(0) =~= Seq::<Seq<u8>>::empty()); }
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k], dst@ =~= seq![Encoding::Null] + frame(true, strs(src@).take(it.index@))
@at loop-end 0
    proof { let p = strs(src@).take(it.index@ + 1); assert(p.drop_last() =~= strs(src@).take(it.index@)); lemma_be(s.len() as u64); }
@at after-loop 0
    proof { assert(strs(src@).take(src.len() as int) =~= strs(src@)); }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_zstd_encode
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Zstd] + comp(Comp::ZSTD, frame(true, strs(src@)))
@iter 0 it
@at before-loop 0
    proof { assert(strs(src@).take(0) =~= Seq::<Seq<u8>>::empty()); }
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k], data@ =~= frame(true, strs(src@).take(it.index@)), dst.len() == 0
@at loop-end 0
    proof { let p = strs(src@).take(it.index@ + 1); assert(p.drop_last() =~= strs(src@).take(it.index@)); lemma_be(s.len() as u64); }
@at after-loop 0
    proof { assert(strs(src@).take(src.len() as int) =~= strs(src@)); }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_gzip_encode
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Gzip] + comp(Comp::GZIP, frame(true, strs(src@)))
@iter 0 it
@at before-loop 0
    proof { assert(strs(src@).take(0) =~= Seq::<Seq<u8>>::empty()); }
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k], data@ =~= frame(true, strs(src@).take(it.index@)), dst.len() == 0
@at loop-end 0
    proof { let p = strs(src@).take(it.index@ + 1); assert(p.drop_last() =~= strs(src@).take(it.index@)); lemma_be(s.len() as u64); }
@at after-loop 0
    proof { assert(strs(src@).take(src.len() as int) =~= strs(src@)); }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_bzip_encode
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Bzip] + comp(Comp::BZIP, frame(true, strs(src@)))
@iter 0 it
@at before-loop 0
    proof { assert(strs(src@).take(0) =~= Seq::<Seq<u8>>::empty()); }
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k], data@ =~= frame(true, strs(src@).take(it.index@)), dst.len() == 0
@at loop-end 0
    proof { let p = strs(src@).take(it.index@ + 1); assert(p.drop_last() =~= strs(src@).take(it.index@)); lemma_be(s.len() as u64); }
@at after-loop 0
    proof { assert(strs(src@).take(src.len() as int) =~= strs(src@)); }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_zlib_encode
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Zlib] + comp(Comp::ZLIB, frame(true, strs(src@)))
@iter 0 it
@at before-loop 0
    proof { assert(strs(src@).take(0) =~= Seq::<Seq<u8>>::empty()); }
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k], data@ =~= frame(true, strs(src@).take(it.index@)), dst.len() == 0
@at loop-end 0
    proof { let p = strs(src@).take(it.index@ + 1); assert(p.drop_last() =~= strs(src@).take(it.index@)); lemma_be(s.len() as u64); }
@at after-loop 0
    proof { assert(strs(src@).take(src.len() as int) =~= strs(src@)); }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_snappy_encode
@attr #[verifier::loop_isolation(false)]
@ret r
@subst /src\s*\.iter\(\)\s*\.map\(\|s\| \{(.*?)\}\)\s*\.sum\(\);/ => { let mut sum: usize = 0; let mut kx: usize = 0; while kx < src.len() { let s = src[kx]; kx += 1; sum = sum + { \1 }; } sum };
@loops 2
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /src\.len\(\) \* super::MAX_VAR_INT_32/ => src.len() * MAX_VAR_INT_32
@subst /assert!\((.*?)\);/ => run_assert(\1);
@subst /(\w+)\.split_at_mut\(/ => split_at_mut(\1, 
@subst /(\w+)\.encode_var\(&mut (\w+)\[(\w+)\.\.\]\)/ => encode_var_in(\1, \2, \3)
@subst /(\w+)\[(\w+)\.\.\]\[\.\.(\w+)\]\.copy_from_slice\((\w+)\)/ => copy_at(\1, \2, \3, \4)
@subst /for (\w+) in (\w+) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2[nx]; nx += 1;
@spec
    requires old(dst).len() == 0, forall|i: int| 0 <= i < src.len() ==> (#[trigger] src@[i]).len() < MAX_I32, src.len() < 0x4000_0000, total(strs(src@)) < 0x1_0000_0000_0000
    ensures src.len() == 0 ==> r is Ok && final(dst).len() == 0, src.len() > 0 && r is Ok ==> final(dst)@ =~= seq![Encoding::Snappy, STRING_COMPRESSED_SNAPPY << 4] + comp(Comp::SNAPPY, frame(false, strs(src@))),
      2 + 5 * src.len() + total(strs(src@)) <= 0xd000_0000 ==> r is Ok
@at start
    let ghost S = strs(src@);
    proof { lemma_frame_end(false, S); assert(S.take(0) =~= Seq::<Seq<u8>>::empty()); assert(S.take(S.len() as int) =~= S); lemma_total(S, S.len() as int); }
@loop 0
    invariant kx <= src.len(), sum == total(S.take(kx as int)), S == strs(src@), total(S) < 0x1_0000_0000_0000
    decreases src.len() - kx
@at loop-start 0
    proof { lemma_total(S, kx as int); }
@at before-loop 1
    let ghost d0 = data@;
@loop 1
    invariant nx <= src.len(), data.len() == source_size, n == off(false, S, nx as int), n <= 5 * nx + total(S.take(nx as int)), data@.take(n as int) =~= frame(false, S.take(nx as int))
    decreases src.len() - nx
@at loop-start 1
    let ghost e = data@; let ghost n0 = n as int; let ghost i0 = nx as int;
    proof { lemma_total(S, nx as int); lemma_frame(false, S, nx as int); lemma_short(S[nx as int].len() as u64); }
@at loop-end 1
    proof { assert(S.take(nx as int).drop_last() =~= S.take(i0)); assert(data@.take(n as int) =~= e.take(n0) + var_enc(S[i0].len() as u64) + S[i0]); }
@end
proof fn lemma_short(x: u64) requires x < 0x7fff_ffff ensures 1 <= var_enc(x).len() <= 5
{ assert((1u64 << 35u64) == 0x8_0000_0000) by (bit_vector); lemma_var_len(x, 5); }

// ---- reading ----
spec fn framed(data: Seq<u8>, be: bool, S: Seq<Seq<u8>>) -> bool { data == frame(be, S) && (forall|i: int| 0 <= i < S.len() ==> #[trigger] utf8(S[i])) && (forall|i: int| 0 <= i < S.len() ==> (#[trigger] S[i]).len() < 0x8000_0000_0000_0000) }
//@extract tskv/src/tsm/codec/string.rs fn split_stream
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires exists|S: Seq<Seq<u8>>| framed(data@, true, S)
    ensures r is Ok, forall|S: Seq<Seq<u8>>| framed(data@, true, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@at start
    let ghost mut k: int = 0; let ghost S = choose|S: Seq<Seq<u8>>| framed(data@, true, S);
    let ghost d0 = dst@;
    proof { lemma_frame_end(true, S); }
@loop 0
    invariant 0 <= k <= S.len(), i == off(true, S, k), vecs(dst@) =~= vecs(d0) + S.take(k)
@at loop-start 0
    let ghost e = dst@;
    proof { lemma_read(S, k, data@); }
@at loop-end 0
    proof { assert(vecs(dst@) =~= vecs(e).push(S[k])); assert(S.take(k + 1) =~= S.take(k).push(S[k])); k = k + 1; }
@at after-loop 0
    proof { if k < S.len() { lemma_read(S, k, data@); } assert(S.take(k) =~= S); assert forall|T: Seq<Seq<u8>>| framed(data@, true, T) implies vecs(dst@) =~= vecs(d0) + T by { lemma_inj(true, S, T); } }
@end
// a frame has one reading
proof fn lemma_inj(be: bool, s: Seq<Seq<u8>>, t: Seq<Seq<u8>>)
    requires framed(frame(be, s), be, s), framed(frame(be, s), be, t) ensures s =~= t
{ lemma_inj_(be, s, t, s.len() as int); lemma_frame_end(be, s); lemma_frame_end(be, t); if t.len() > s.len() { lemma_frame(be, t, s.len() as int); lemma_hd(be, t[s.len() as int].len() as int); } assert(s.take(s.len() as int) =~= s); assert(t.take(t.len() as int) =~= t); }
proof fn lemma_hd(be: bool, n: int) requires 0 <= n < 0x8000_0000_0000_0000 ensures hd(be, n).len() >= 1 { lemma_var_len(n as u64, 10); }
proof fn lemma_inj_(be: bool, s: Seq<Seq<u8>>, t: Seq<Seq<u8>>, k: int)
    requires framed(frame(be, s), be, s), framed(frame(be, s), be, t), 0 <= k <= s.len() ensures k <= t.len(), off(be, s, k) == off(be, t, k), s.take(k) =~= t.take(k) decreases k
{
    lemma_frame_end(be, s); lemma_frame_end(be, t);
    if k > 0 { let i = k - 1; lemma_inj_(be, s, t, i); lemma_frame(be, s, i); lemma_hd(be, s[i].len() as int);
      if i >= t.len() { assert(t.take(i) =~= t); assert(false); }
      lemma_frame(be, t, i); let f = frame(be, s); let o = off(be, s, i);
      if be { lemma_read(s, i, f); lemma_read(t, i, f); } else { lemma_read_var(s, i, f); lemma_read_var(t, i, f); }
      assert(s[i] == t[i]); assert(s.take(k) =~= s.take(i).push(s[i])); assert(t.take(k) =~= t.take(i).push(t[i])); }
}
//@extract tskv/src/tsm/codec/string.rs fn split_stream_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires exists|S: Seq<Seq<u8>>| framed(data@, true, S) && S.len() == bit_set.n()
    ensures r is Ok, forall|S: Seq<Seq<u8>>| framed(data@, true, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    let ghost S = choose|S: Seq<Seq<u8>>| framed(data@, true, S) && S.len() == bit_set.n(); let ghost bits = bit_set.bits@;
    proof { lemma_frame_end(true, S); lemma_nv(bits, 0, bits.len() as int); assert forall|T: Seq<Seq<u8>>| framed(data@, true, T) implies T == S by { lemma_inj(true, S, T); } }
@loop 0
    invariant nx <= bits.len(), i == off(true, S, nv(bits, nx as int)), builder.v@ =~= spread(bits, S).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); lemma_nv(bits, nx as int, nx as int + 1); if bits[nx as int] { lemma_read(S, nv(bits, nx as int), data@); assert(data.len() <= usize::MAX); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_without_compress_decode_to_array
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> true && exists|S: Seq<Seq<u8>>| framed(src@.skip(1), true, S) && S.len() == bit_set.n()
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<Seq<u8>>::empty()), src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(src@.skip(1), true, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<Seq<u8>>::empty()); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_without_compress_decode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() > 0 ==> true && exists|S: Seq<Seq<u8>>| framed(src@.skip(1), true, S)
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@, src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(src@.skip(1), true, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@end
//@extract tskv/src/tsm/codec/string.rs fn str_zstd_decode_to_array
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> decomp(Comp::ZSTD, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::ZSTD, src@.skip(1))->0, true, S) && S.len() == bit_set.n()
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<Seq<u8>>::empty()), src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::ZSTD, src@.skip(1))->0, true, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<Seq<u8>>::empty()); } }
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_zstd_decode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() > 0 ==> decomp(Comp::ZSTD, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::ZSTD, src@.skip(1))->0, true, S)
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@, src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::ZSTD, src@.skip(1))->0, true, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_gzip_decode_to_array
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> decomp(Comp::GZIP, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::GZIP, src@.skip(1))->0, true, S) && S.len() == bit_set.n()
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<Seq<u8>>::empty()), src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::GZIP, src@.skip(1))->0, true, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<Seq<u8>>::empty()); } }
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_gzip_decode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() > 0 ==> decomp(Comp::GZIP, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::GZIP, src@.skip(1))->0, true, S)
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@, src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::GZIP, src@.skip(1))->0, true, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_bzip_decode_to_array
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> decomp(Comp::BZIP, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::BZIP, src@.skip(1))->0, true, S) && S.len() == bit_set.n()
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<Seq<u8>>::empty()), src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::BZIP, src@.skip(1))->0, true, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<Seq<u8>>::empty()); } }
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_bzip_decode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() > 0 ==> decomp(Comp::BZIP, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::BZIP, src@.skip(1))->0, true, S)
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@, src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::BZIP, src@.skip(1))->0, true, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_zlib_decode_to_array
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> decomp(Comp::ZLIB, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::ZLIB, src@.skip(1))->0, true, S) && S.len() == bit_set.n()
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<Seq<u8>>::empty()), src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::ZLIB, src@.skip(1))->0, true, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<Seq<u8>>::empty()); } }
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_zlib_decode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() > 0 ==> decomp(Comp::ZLIB, src@.skip(1)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::ZLIB, src@.skip(1))->0, true, S)
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@, src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::ZLIB, src@.skip(1))->0, true, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@at after /let src = [^;]*;/
    proof { assert(Seq::<u8>::empty() + src@ =~= src@); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_snappy_decode_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> src.len() >= 2 && decomp(Comp::SNAPPY, src@.skip(2)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::SNAPPY, src@.skip(2))->0, false, S) && S.len() == bit_set.n()
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<Seq<u8>>::empty()), src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::SNAPPY, src@.skip(2))->0, false, S) ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, S)
@at start
    let ghost f = decomp(Comp::SNAPPY, src@.skip(2))->0; let ghost S = choose|S: Seq<Seq<u8>>| framed(f, false, S) && S.len() == bit_set.n(); let ghost bits = bit_set.bits@;
    proof { lemma_nv(bits, 0, bits.len() as int); assert(HEADER_LEN == 1);
      if src.len() == 0 { lemma_all_null(bits, Seq::<Seq<u8>>::empty()); } else { assert(src@.skip(1).skip(1) =~= src@.skip(2)); lemma_frame_end(false, S); assert forall|T: Seq<Seq<u8>>| framed(f, false, T) implies T == S by { lemma_inj(false, S, T); } } }
@loop 0
    invariant nx <= bits.len(), i == off(false, S, nv(bits, nx as int)), builder.v@ =~= spread(bits, S).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); lemma_nv(bits, nx as int, nx as int + 1); if bits[nx as int] { lemma_read_var(S, nv(bits, nx as int), f); } }
@end
//@extract tskv/src/tsm/codec/string.rs fn str_snappy_decode
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /\.map_err\(\|e\| Box::new\(e\) as CodecError\)/ => 
@subst /Box::new\(e\) as CodecError/ => e
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => { let hb = to_be8(\2); \1.extend_from_slice(&hb) }
@subst /zstd::stream::copy_(\w+)\(/ => zstd_copy_\1(
@subst /snap::raw::Encoder/ => SnapEncoder
@subst /snap::raw::Decoder/ => SnapDecoder
@subst /snap::raw::max_compress_len/ => max_compress_len
@subst /let (\w+): (\w+) = (\w+)\.try_into\(\)\?;/ => let \1: \2 = \3 as \2;
@subst /String::from_utf8\((\w+)\.to_vec\(\)\)/ => from_utf8(\1)
@subst /MiniVec::from\(/ => mini(
@subst /MiniVec<u8>/ => MiniVec
@subst /Option<String>/ => Option<Str>
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() > 0 ==> src.len() >= 2 && decomp(Comp::SNAPPY, src@.skip(2)) is Some && exists|S: Seq<Seq<u8>>| framed(decomp(Comp::SNAPPY, src@.skip(2))->0, false, S)
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@, src.len() > 0 ==> forall|S: Seq<Seq<u8>>| framed(decomp(Comp::SNAPPY, src@.skip(2))->0, false, S) ==> vecs(final(dst)@) =~= vecs(old(dst)@) + S
@at start
    let ghost mut k: int = 0; let ghost f = decomp(Comp::SNAPPY, src@.skip(2))->0; let ghost S = choose|S: Seq<Seq<u8>>| framed(f, false, S); let ghost d0 = dst@;
    proof { assert(HEADER_LEN == 1); if src.len() > 0 { assert(src@.skip(1).skip(1) =~= src@.skip(2)); lemma_frame_end(false, S); } }
@loop 0
    invariant 0 <= k <= S.len(), i == off(false, S, k), vecs(dst@) =~= vecs(d0) + S.take(k), num_decoded_bytes == f.len()
@at loop-start 0
    let ghost e = dst@;
    proof { lemma_read_var(S, k, f); }
@at loop-end 0
    proof { assert(vecs(dst@) =~= vecs(e).push(S[k])); assert(S.take(k + 1) =~= S.take(k).push(S[k])); k = k + 1; }
@at after-loop 0
    proof { if k < S.len() { lemma_read_var(S, k, f); lemma_hd(false, S[k].len() as int); } assert(S.take(k) =~= S); assert forall|T: Seq<Seq<u8>>| framed(f, false, T) implies vecs(dst@) =~= vecs(d0) + T by { lemma_inj(false, S, T); } }
@end

// ---- the property: what is written is what is read ----
spec fn text(S: Seq<Seq<u8>>) -> bool { (forall|i: int| 0 <= i < S.len() ==> #[trigger] utf8(S[i])) && (forall|i: int| 0 <= i < S.len() ==> (#[trigger] S[i]).len() < MAX_I32) }
fn round_trip_null(src: &[&[u8]], bits: &NullBuffer)
    requires text(strs(src@)), src.len() == bits.n()
{
    let ghost S = strs(src@);
    let mut dst: Vec<u8> = Vec::new();
    proof { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src@[i]).len() < MAX_I32 by { assert(S[i].len() < MAX_I32); } }
    let e = str_without_compress_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(S =~= Seq::<Seq<u8>>::empty()); } else { assert(dst@.skip(1) =~= frame(true, S)); assert(S.len() == bits.n()); assert(framed(frame(true, S), true, S)); } }
    let r = str_without_compress_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, S));
    let mut v: Vec<MiniVec> = Vec::new();
    let r = str_without_compress_decode(&dst, &mut v);
    assert(r is Ok);
    assert(src.len() == 0 ==> vecs(v@) =~= S);
    assert(src.len() > 0 ==> vecs(v@) =~= vecs(Seq::<MiniVec>::empty()) + S);
    assert(vecs(v@) =~= S);
}
fn round_trip_zstd(src: &[&[u8]], bits: &NullBuffer)
    requires text(strs(src@)), src.len() == bits.n()
{
    let ghost S = strs(src@);
    let mut dst: Vec<u8> = Vec::new();
    proof { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src@[i]).len() < MAX_I32 by { assert(S[i].len() < MAX_I32); } axiom_comp(Comp::ZSTD, frame(true, S)); }
    let e = str_zstd_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(S =~= Seq::<Seq<u8>>::empty()); } else { assert(dst@.skip(1) =~= comp(Comp::ZSTD, frame(true, S))); assert(S.len() == bits.n()); assert(decomp(Comp::ZSTD, dst@.skip(1)) == Some(frame(true, S))); assert(framed(decomp(Comp::ZSTD, dst@.skip(1))->0, true, S) && S.len() == bits.n()); } }
    let r = str_zstd_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, S));
    let mut v: Vec<MiniVec> = Vec::new();
    let r = str_zstd_decode(&dst, &mut v);
    assert(r is Ok);
    assert(src.len() == 0 ==> vecs(v@) =~= S);
    assert(src.len() > 0 ==> vecs(v@) =~= vecs(Seq::<MiniVec>::empty()) + S);
    assert(vecs(v@) =~= S);
}
fn round_trip_gzip(src: &[&[u8]], bits: &NullBuffer)
    requires text(strs(src@)), src.len() == bits.n()
{
    let ghost S = strs(src@);
    let mut dst: Vec<u8> = Vec::new();
    proof { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src@[i]).len() < MAX_I32 by { assert(S[i].len() < MAX_I32); } axiom_comp(Comp::GZIP, frame(true, S)); }
    let e = str_gzip_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(S =~= Seq::<Seq<u8>>::empty()); } else { assert(dst@.skip(1) =~= comp(Comp::GZIP, frame(true, S))); assert(S.len() == bits.n()); assert(decomp(Comp::GZIP, dst@.skip(1)) == Some(frame(true, S))); assert(framed(decomp(Comp::GZIP, dst@.skip(1))->0, true, S) && S.len() == bits.n()); } }
    let r = str_gzip_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, S));
    let mut v: Vec<MiniVec> = Vec::new();
    let r = str_gzip_decode(&dst, &mut v);
    assert(r is Ok);
    assert(src.len() == 0 ==> vecs(v@) =~= S);
    assert(src.len() > 0 ==> vecs(v@) =~= vecs(Seq::<MiniVec>::empty()) + S);
    assert(vecs(v@) =~= S);
}
fn round_trip_bzip(src: &[&[u8]], bits: &NullBuffer)
    requires text(strs(src@)), src.len() == bits.n()
{
    let ghost S = strs(src@);
    let mut dst: Vec<u8> = Vec::new();
    proof { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src@[i]).len() < MAX_I32 by { assert(S[i].len() < MAX_I32); } axiom_comp(Comp::BZIP, frame(true, S)); }
    let e = str_bzip_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(S =~= Seq::<Seq<u8>>::empty()); } else { assert(dst@.skip(1) =~= comp(Comp::BZIP, frame(true, S))); assert(S.len() == bits.n()); assert(decomp(Comp::BZIP, dst@.skip(1)) == Some(frame(true, S))); assert(framed(decomp(Comp::BZIP, dst@.skip(1))->0, true, S) && S.len() == bits.n()); } }
    let r = str_bzip_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, S));
    let mut v: Vec<MiniVec> = Vec::new();
    let r = str_bzip_decode(&dst, &mut v);
    assert(r is Ok);
    assert(src.len() == 0 ==> vecs(v@) =~= S);
    assert(src.len() > 0 ==> vecs(v@) =~= vecs(Seq::<MiniVec>::empty()) + S);
    assert(vecs(v@) =~= S);
}
fn round_trip_zlib(src: &[&[u8]], bits: &NullBuffer)
    requires text(strs(src@)), src.len() == bits.n()
{
    let ghost S = strs(src@);
    let mut dst: Vec<u8> = Vec::new();
    proof { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src@[i]).len() < MAX_I32 by { assert(S[i].len() < MAX_I32); } axiom_comp(Comp::ZLIB, frame(true, S)); }
    let e = str_zlib_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(S =~= Seq::<Seq<u8>>::empty()); } else { assert(dst@.skip(1) =~= comp(Comp::ZLIB, frame(true, S))); assert(S.len() == bits.n()); assert(decomp(Comp::ZLIB, dst@.skip(1)) == Some(frame(true, S))); assert(framed(decomp(Comp::ZLIB, dst@.skip(1))->0, true, S) && S.len() == bits.n()); } }
    let r = str_zlib_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, S));
    let mut v: Vec<MiniVec> = Vec::new();
    let r = str_zlib_decode(&dst, &mut v);
    assert(r is Ok);
    assert(src.len() == 0 ==> vecs(v@) =~= S);
    assert(src.len() > 0 ==> vecs(v@) =~= vecs(Seq::<MiniVec>::empty()) + S);
    assert(vecs(v@) =~= S);
}
fn round_trip_snappy(src: &[&[u8]], bits: &NullBuffer)
    requires text(strs(src@)), src.len() == bits.n(), src.len() < 0x4000_0000, 2 + 5 * src.len() + total(strs(src@)) <= 0xd000_0000
{
    let ghost S = strs(src@);
    let mut dst: Vec<u8> = Vec::new();
    proof { assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src@[i]).len() < MAX_I32 by { assert(S[i].len() < MAX_I32); } axiom_comp(Comp::SNAPPY, frame(false, S)); }
    let e = str_snappy_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(S =~= Seq::<Seq<u8>>::empty()); } else { assert(dst@.skip(2) =~= comp(Comp::SNAPPY, frame(false, S))); assert(S.len() == bits.n()); assert(decomp(Comp::SNAPPY, dst@.skip(2)) == Some(frame(false, S))); assert(framed(decomp(Comp::SNAPPY, dst@.skip(2))->0, false, S) && S.len() == bits.n()); } }
    let r = str_snappy_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, S));
    let mut v: Vec<MiniVec> = Vec::new();
    let r = str_snappy_decode(&dst, &mut v);
    assert(r is Ok);
    assert(src.len() == 0 ==> vecs(v@) =~= S);
    assert(src.len() > 0 ==> vecs(v@) =~= vecs(Seq::<MiniVec>::empty()) + S);
    assert(vecs(v@) =~= S);
}
}
fn main() {}
