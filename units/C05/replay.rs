//@prelude
//@include ../C01/arrow_replay.inc
// stand-ins for the compressors: a tag, then the bytes upside down, then a sum
pub mod packers {
    pub fn pack(t: u8, d: &[u8]) -> Vec<u8> { let mut v = vec![t]; v.extend(d.iter().rev()); v.push(d.iter().fold(t, |a, b| a.wrapping_add(*b))); v }
    pub fn unpack(t: u8, c: &[u8]) -> std::io::Result<Vec<u8>> {
        let e = || std::io::Error::new(std::io::ErrorKind::InvalidData, format!("not a stream of compressor {t}"));
        if c.len() < 2 || c[0] != t { return Err(e()); }
        let d: Vec<u8> = c[1..c.len() - 1].iter().rev().copied().collect();
        if d.iter().fold(t, |a, b| a.wrapping_add(*b)) != c[c.len() - 1] { return Err(e()); }
        Ok(d)
    }
    macro_rules! packer { ($e:ident, $d:ident, $t:expr) => {
        pub struct $e { w: Vec<u8>, d: Vec<u8> }
        impl $e { pub fn new<C>(w: Vec<u8>, _: C) -> Self { $e { w, d: vec![] } } pub fn finish(mut self) -> std::io::Result<Vec<u8>> { self.w.extend(pack($t, &self.d)); Ok(self.w) } }
        impl std::io::Write for $e { fn write(&mut self, d: &[u8]) -> std::io::Result<usize> { let n = d.len().min(1000); self.d.extend(&d[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
        pub struct $d { w: Vec<u8>, d: Vec<u8> }
        impl $d { pub fn new(w: Vec<u8>) -> Self { $d { w, d: vec![] } } pub fn finish(mut self) -> std::io::Result<Vec<u8>> { self.w.extend(unpack($t, &self.d)?); Ok(self.w) } }
        impl std::io::Write for $d { fn write(&mut self, d: &[u8]) -> std::io::Result<usize> { let n = d.len().min(1000); self.d.extend(&d[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    } }
    packer!(GzEncoder, GzDecoder, 10); packer!(BzEncoder, BzDecoder, 11); packer!(ZlibEncoder, ZlibDecoder, 12);
    #[derive(Default)] pub struct CompressionFlate; #[derive(Default)] pub struct CompressionBzip;
    pub mod zstd { pub mod stream {
        pub fn copy_encode(mut d: impl std::io::Read, mut w: impl std::io::Write, _: i32) -> std::io::Result<()> { let mut v = vec![]; d.read_to_end(&mut v)?; w.write_all(&super::super::pack(13, &v)) }
        pub fn copy_decode(mut d: impl std::io::Read, mut w: impl std::io::Write) -> std::io::Result<()> { let mut v = vec![]; d.read_to_end(&mut v)?; w.write_all(&super::super::unpack(13, &v)?) }
    } }
    pub mod snap { pub mod raw {
        pub fn max_compress_len(n: usize) -> usize { let m = 32 + n + n / 6; if n > 0xffff_ffff || m > 0xffff_ffff { 0 } else { m } }
        pub struct Encoder; pub struct Decoder;
        impl Encoder { pub fn new() -> Self { Encoder } pub fn compress(&mut self, d: &[u8], out: &mut [u8]) -> Result<usize, String> {
            if out.len() < max_compress_len(d.len()) { return Err("output too small".into()); } let p = super::super::pack(14, d); out[..p.len()].copy_from_slice(&p); Ok(p.len()) } }
        impl Decoder { pub fn new() -> Self { Decoder } pub fn decompress_vec(&mut self, d: &[u8]) -> std::io::Result<Vec<u8>> { super::super::unpack(14, d) } }
    } }
    #[derive(Debug, Clone)] pub struct MiniVec<T>(pub Vec<T>);
    impl From<&[u8]> for MiniVec<u8> { fn from(s: &[u8]) -> Self { MiniVec(s.to_vec()) } }
}
pub mod codec {
    pub use super::arr::*; pub use super::arr;
    //@extract common/models/src/codec.rs enum Encoding
@derive Debug, Clone, Copy, PartialEq
@subst /#\[default\]/ =>
@end
    //@extract tskv/src/tsm/codec/mod.rs const MAX_VAR_INT_32
@subst /^\s*const/ => pub const
@end
    pub mod string {
        use super::*; use super::super::packers::*; use std::sync::Arc; use std::convert::TryInto; use std::io::Write; use super::super::byte_utils::decode_be_u64;
        //@extract tskv/src/tsm/codec/string.rs const STRING_COMPRESSED_SNAPPY
@end
        //@extract tskv/src/tsm/codec/string.rs const HEADER_LEN
@end
        //@extract tskv/src/tsm/codec/string.rs const MAX_I32
@end
        //@extract tskv/src/tsm/codec/string.rs const ZSTD_COMPRESS_LEVEL
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_without_compress_encode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_snappy_encode
@end
        //@extract tskv/src/tsm/codec/string.rs fn split_stream
@end
        //@extract tskv/src/tsm/codec/string.rs fn split_stream_to_array
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_snappy_decode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_snappy_decode_to_array
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_without_compress_decode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_without_compress_decode_to_array
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_zstd_encode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_zstd_decode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_zstd_decode_to_array
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_gzip_encode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_gzip_decode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_gzip_decode_to_array
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_bzip_encode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_bzip_decode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_bzip_decode_to_array
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_zlib_encode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_zlib_decode
@end
        //@extract tskv/src/tsm/codec/string.rs fn str_zlib_decode_to_array
@end
        //@helpers
    }
}
use codec::*; use packers::MiniVec;
type E = fn(&[&[u8]], &mut Vec<u8>) -> Result<(), CodecError>; type D = fn(&[u8], &NullBuffer) -> Result<ArrayRef, CodecError>; type M = fn(&[u8], &mut Vec<MiniVec<u8>>) -> Result<(), CodecError>;
fn main() {
    let mut h = H::new();
    let mut r = h.rng(5);
    use string::*;
    let codecs: [(&str, Encoding, E, D, M); 6] = [
        ("raw", Encoding::Null, str_without_compress_encode, str_without_compress_decode_to_array, str_without_compress_decode), ("snappy", Encoding::Snappy, str_snappy_encode, str_snappy_decode_to_array, str_snappy_decode),
        ("gzip", Encoding::Gzip, str_gzip_encode, str_gzip_decode_to_array, str_gzip_decode), ("bzip", Encoding::Bzip, str_bzip_encode, str_bzip_decode_to_array, str_bzip_decode),
        ("zstd", Encoding::Zstd, str_zstd_encode, str_zstd_decode_to_array, str_zstd_decode), ("zlib", Encoding::Zlib, str_zlib_encode, str_zlib_decode_to_array, str_zlib_decode)];
    for _ in 0..h.scale(4_000, 80_000) {
        let n = match r.below(8) { 0 => r.below(3), 1 => 300, 2 => 120 + r.below(20), _ => r.below(20) } as usize;
        let how = r.below(4); let large = if n < 8 && r.chance(1, 2) { 9 } else { 1 };
        let s: Vec<String> = (0..n).map(|_| { let l = match how { 0 => 0, 1 => 120 + r.below(16), 2 => if r.chance(large, 10 + 20 * (large == 1) as u64) { 16_380 + r.below(10) } else { r.below(5) }, _ => r.below(12) };
            (0..l).map(|_| match r.below(12) { 0 => 'é', 1 => '☃', 2 => '\0', 3 => '\u{10FFFF}', x => (b'a' + x as u8) as char }).collect() }).collect();
        let src: Vec<&[u8]> = s.iter().map(|x| x.as_bytes()).collect();
        let keys: Vec<u64> = src.iter().map(|x| arr::text_key(x)).collect();
        let bits = rows(&mut r, n); let nb = NullBuffer { bits: bits.clone() };
        let d = || format!("strings {:?}, rows {:?}", s, bits.iter().map(|b| *b as u8).collect::<Vec<_>>());
        let key = vx::hash(&(&s, &bits));
        for (name, id, e, dec, dm) in &codecs {
            h.case(&format!("string-{name}"), key, &d, &mut || {
                let mut b = vec![]; let er = e(&src, &mut b);
                if er.is_ok() && !b.is_empty() && b[0] != *id as u8 { return Err(format!("codec id {}, must be {}", b[0], *id as u8)); }
                cmp(er, &mut || dec(&b, &nb), Utf8, &bits, &keys)?;
                let mut v = vec![]; if let Err(e) = dm(&b, &mut v) { return Err(format!("decode failed: {e}")); }
                let got: Vec<&[u8]> = v.iter().map(|x| &x.0[..]).collect();
                if got == src { Ok(()) } else { Err(format!("decode gives {} strings {:?}", got.len(), got)) }
            });
        }
    }
    h.done();
}
