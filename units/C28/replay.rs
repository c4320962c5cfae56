//@prelude
use std::sync::Arc;
pub type CodecError = Box<dyn std::error::Error + Send + Sync>;
pub type R<T> = Result<T, CodecError>;
pub struct NullBuffer { pub bits: Vec<bool> }
pub type ArrayRef = Arc<Vec<Option<Vec<u8>>>>;
#[derive(Debug, Clone)] pub struct MiniVec<T>(pub Vec<T>);
impl From<&[u8]> for MiniVec<u8> { fn from(s: &[u8]) -> Self { MiniVec(s.to_vec()) } }
impl<T> std::ops::Deref for MiniVec<T> { type Target = [T]; fn deref(&self) -> &[T] { &self.0 } }
// stand-ins for the encoders and decoders: a block is its codec's id, the kind of column, and the values; a decoder refuses any other block
pub mod leaves {
    use super::*;
    pub trait Raw { fn raw(&self) -> Vec<u8>; }
    impl Raw for i64 { fn raw(&self) -> Vec<u8> { self.to_be_bytes().to_vec() } }
    impl Raw for u64 { fn raw(&self) -> Vec<u8> { self.to_be_bytes().to_vec() } }
    impl Raw for f64 { fn raw(&self) -> Vec<u8> { self.to_bits().to_be_bytes().to_vec() } }
    impl Raw for bool { fn raw(&self) -> Vec<u8> { vec![*self as u8] } }
    impl Raw for &[u8] { fn raw(&self) -> Vec<u8> { self.to_vec() } }
    fn put(dst: &mut Vec<u8>, id: u8, ty: u8, v: &[Vec<u8>]) -> R<()> { if v.is_empty() { return Ok(()); } dst.extend([id, ty]); for x in v { dst.extend((x.len() as u32).to_be_bytes()); dst.extend(x); } Ok(()) }
    fn get(src: &[u8], id: u8, ty: u8) -> R<Vec<Vec<u8>>> { let mut o = vec![]; if src.is_empty() { return Ok(o); }
        if src[0] != id || src[1] != ty { return Err(format!("block of codec {} kind {} given to the decoder of codec {} kind {}", src[0], src[1] as char, id, ty as char).into()); }
        let mut p = 2; while p < src.len() { let n = u32::from_be_bytes(src[p..p + 4].try_into().unwrap()) as usize; o.push(src[p + 4..p + 4 + n].to_vec()); p += 4 + n; } Ok(o) }
    fn arr_of(v: Vec<Vec<u8>>, b: &NullBuffer) -> R<ArrayRef> { let mut i = v.into_iter(); Ok(Arc::new(b.bits.iter().map(|x| if *x { i.next() } else { None }).collect())) }
    pub fn ts_without_compress_encode(src: &[i64], dst: &mut Vec<u8>) -> R<()> { put(dst, 1, b'i', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn ts_without_compress_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 1, b'i')?, bit_set) }
    pub fn ts_zigzag_simple8b_encode(src: &[i64], dst: &mut Vec<u8>) -> R<()> { put(dst, 11, b'i', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn ts_zigzag_simple8b_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 11, b'i')?, bit_set) }
    pub fn ts_pco_encode(src: &[i64], dst: &mut Vec<u8>) -> R<()> { put(dst, 3, b'i', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn ts_pco_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 3, b'i')?, bit_set) }
    pub fn i64_without_compress_encode(src: &[i64], dst: &mut Vec<u8>) -> R<()> { put(dst, 1, b'i', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn i64_without_compress_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 1, b'i')?, bit_set) }
    pub fn i64_zigzag_simple8b_encode(src: &[i64], dst: &mut Vec<u8>) -> R<()> { put(dst, 2, b'i', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn i64_zigzag_simple8b_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 2, b'i')?, bit_set) }
    pub fn i64_pco_encode(src: &[i64], dst: &mut Vec<u8>) -> R<()> { put(dst, 3, b'i', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn i64_pco_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 3, b'i')?, bit_set) }
    pub fn f64_without_compress_encode(src: &[f64], dst: &mut Vec<u8>) -> R<()> { put(dst, 1, b'f', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn f64_without_compress_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 1, b'f')?, bit_set) }
    pub fn f64_gorilla_encode(src: &[f64], dst: &mut Vec<u8>) -> R<()> { put(dst, 6, b'f', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn f64_gorilla_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 6, b'f')?, bit_set) }
    pub fn f64_pco_encode(src: &[f64], dst: &mut Vec<u8>) -> R<()> { put(dst, 3, b'f', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn f64_pco_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 3, b'f')?, bit_set) }
    pub fn u64_without_compress_encode(src: &[u64], dst: &mut Vec<u8>) -> R<()> { put(dst, 1, b'u', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn u64_without_compress_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 1, b'u')?, bit_set) }
    pub fn u64_zigzag_simple8b_encode(src: &[u64], dst: &mut Vec<u8>) -> R<()> { put(dst, 2, b'u', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn u64_zigzag_simple8b_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 2, b'u')?, bit_set) }
    pub fn u64_pco_encode(src: &[u64], dst: &mut Vec<u8>) -> R<()> { put(dst, 3, b'u', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn u64_pco_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 3, b'u')?, bit_set) }
    pub fn bool_without_compress_encode(src: &[bool], dst: &mut Vec<u8>) -> R<()> { put(dst, 1, b'b', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn bool_without_compress_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 1, b'b')?, bit_set) }
    pub fn bool_bitpack_encode(src: &[bool], dst: &mut Vec<u8>) -> R<()> { put(dst, 10, b'b', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn bool_bitpack_decode(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 10, b'b')?, bit_set) }
    pub fn str_without_compress_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> R<()> { put(dst, 1, b's', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn str_without_compress_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 1, b's')?, bit_set) }
    pub fn str_without_compress_decode(src: &[u8], dst: &mut Vec<MiniVec<u8>>) -> R<()> { for x in get(src, 1, b's')? { dst.push(MiniVec::from(&x[..])); } Ok(()) }
    pub fn str_snappy_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> R<()> { put(dst, 7, b's', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn str_snappy_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 7, b's')?, bit_set) }
    pub fn str_snappy_decode(src: &[u8], dst: &mut Vec<MiniVec<u8>>) -> R<()> { for x in get(src, 7, b's')? { dst.push(MiniVec::from(&x[..])); } Ok(()) }
    pub fn str_gzip_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> R<()> { put(dst, 4, b's', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn str_gzip_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 4, b's')?, bit_set) }
    pub fn str_gzip_decode(src: &[u8], dst: &mut Vec<MiniVec<u8>>) -> R<()> { for x in get(src, 4, b's')? { dst.push(MiniVec::from(&x[..])); } Ok(()) }
    pub fn str_bzip_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> R<()> { put(dst, 5, b's', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn str_bzip_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 5, b's')?, bit_set) }
    pub fn str_bzip_decode(src: &[u8], dst: &mut Vec<MiniVec<u8>>) -> R<()> { for x in get(src, 5, b's')? { dst.push(MiniVec::from(&x[..])); } Ok(()) }
    pub fn str_zstd_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> R<()> { put(dst, 8, b's', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn str_zstd_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 8, b's')?, bit_set) }
    pub fn str_zstd_decode(src: &[u8], dst: &mut Vec<MiniVec<u8>>) -> R<()> { for x in get(src, 8, b's')? { dst.push(MiniVec::from(&x[..])); } Ok(()) }
    pub fn str_zlib_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> R<()> { put(dst, 9, b's', &src.iter().map(|x| x.raw()).collect::<Vec<_>>()) }
    pub fn str_zlib_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> R<ArrayRef> { arr_of(get(src, 9, b's')?, bit_set) }
    pub fn str_zlib_decode(src: &[u8], dst: &mut Vec<MiniVec<u8>>) -> R<()> { for x in get(src, 9, b's')? { dst.push(MiniVec::from(&x[..])); } Ok(()) }
}
pub mod codec {
    use std::str::FromStr;
    //@extract common/models/src/codec.rs enum Encoding
@derive Debug, Clone, Copy, PartialEq, Eq, Hash
@subst /#\[default\]/ =>
@end
    impl Default for Encoding { fn default() -> Self { Encoding::Default } }
    //@extract common/models/src/codec.rs const BIGINT_CODEC
@end
    //@extract common/models/src/codec.rs const TIMESTAMP_CODEC
@end
    //@extract common/models/src/codec.rs const UNSIGNED_BIGINT_CODEC
@end
    //@extract common/models/src/codec.rs const DOUBLE_CODEC
@end
    //@extract common/models/src/codec.rs const STRING_CODEC
@end
    //@extract common/models/src/codec.rs const BOOLEAN_CODEC
@end
    //@extract common/models/src/codec.rs impl Encoding
@end
    //@extract common/models/src/codec.rs impl FromStr for Encoding
@end
    //@extract common/models/src/codec.rs impl From<u8> for Encoding
@end
}
pub mod inst {
    use super::*; use super::leaves::*; use super::codec::*;
    //@extract tskv/src/tsm/codec/instance.rs trait TimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs trait IntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs trait UnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs trait FloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs trait BooleanCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs trait StringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct NullTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for NullTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct DeltaTsTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for DeltaTsTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for DeltaTsTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct QuantileTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for QuantileTimestampCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct NullIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for NullIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct DeltaIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for DeltaIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for DeltaIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct QuantileIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for QuantileIntegerCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct NullFloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl FloatCodec for NullFloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct GorillaFloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl FloatCodec for GorillaFloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct QuantileFloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl FloatCodec for QuantileFloatCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct NullUnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl UnsignedCodec for NullUnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct DeltaUnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl UnsignedCodec for DeltaUnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct QuantileUnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl UnsignedCodec for QuantileUnsignedCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct NullBooleanCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl BooleanCodec for NullBooleanCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct BitPackBooleanCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl BooleanCodec for BitPackBooleanCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct NullStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl StringCodec for NullStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct SnappyStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl StringCodec for SnappyStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct GzipStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl StringCodec for GzipStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct BzipStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl StringCodec for BzipStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct ZstdStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl StringCodec for ZstdStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs struct ZlibStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs impl StringCodec for ZlibStringCodec
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_encoding
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_ts_codec
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_i64_codec
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_u64_codec
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_f64_codec
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_str_codec
@end
    //@extract tskv/src/tsm/codec/instance.rs fn get_bool_codec
@end
    //@helpers
}
pub mod wal {
    use super::*; use super::inst::*; use super::codec::*;
    type TskvResult<T> = R<T>;
    //@extract tskv/src/wal/mod.rs struct WalEntryCodec
@end
    //@extract tskv/src/wal/mod.rs impl WalEntryCodec
@subst /\s*\.(with_)?context\([^()]*\)\?/ => ?
@end
    //@helpers
}
use codec::*;
fn main() {
    let mut h = H::new();
    let mut r = h.rng(28);
    const ALL: [Encoding; 13] = [Encoding::Default, Encoding::Null, Encoding::Delta, Encoding::Quantile, Encoding::Gzip, Encoding::Bzip, Encoding::Gorilla, Encoding::Snappy, Encoding::Zstd, Encoding::Zlib, Encoding::BitPack, Encoding::DeltaTs, Encoding::Unknown];
    for e in ALL {
        let d = || format!("{e:?}");
        h.case("number", e as u64, &d, &mut || { let b = Encoding::from(e as u8); if b == e { Ok(()) } else { Err(format!("the number {} reads back as {b:?}", e as u8)) } });
        h.case("name", e as u64, &d, &mut || { if e == Encoding::Unknown { return Ok(()); }
            for n in [e.as_str().to_string(), e.as_str().to_lowercase()] { match n.parse::<Encoding>() { Ok(b) if b == e => {}, o => return Err(format!("the name {n} reads back as {o:?}")) } } Ok(()) });
    }
    for b in 0..=255u8 {
        h.case("byte", b as u64, &|| format!("codec id {b}"), &mut || { let e = Encoding::from(b); if e == Encoding::Unknown || e as u8 == b { Ok(()) } else { Err(format!("read as {e:?}")) } });
        h.case("block-id", b as u64, &|| format!("block [{b}]"), &mut || { let e = inst::get_encoding(&[b, 9]); if e == Encoding::from(b) { Ok(()) } else { Err(format!("read as {e:?}")) } });
    }
    for round in 0..h.scale(40, 4000) { for e in ALL {
        let n = if round == 0 { 3 } else { r.below(6) as usize }; let w: Vec<u64> = (0..n).map(|_| r.word()).collect();
        let bits: Vec<bool> = { let mut v = vec![]; for _ in 0..n { while r.chance(1, 3) { v.push(false); } v.push(true); } v }; let nb = NullBuffer { bits: bits.clone() };
        macro_rules! kind { ($name:expr, $get:path, $ok:expr, $native:expr, $v:expr) => { {
            let v = $v; let d = || format!("column of kind {}, codec {}, values {:?}", $name, e.as_str(), w);
            h.case($name, vx::hash(&(e as u8, &w, &bits)), &d, &mut || {
                use leaves::Raw; let mut b = vec![]; $get(e).encode(&v, &mut b).map_err(|x| format!("encode: {x}"))?;
                if $ok.contains(&e) && $native.contains(&e) && !b.is_empty() && b[0] != e as u8 { return Err(format!("written with codec {}", b[0])); }
                let a = $get(inst::get_encoding(&b)).decode_to_array(&b, &nb).map_err(|x| format!("read back with the codec of its id: {x}"))?;
                let mut i = v.iter(); let want: Vec<Option<Vec<u8>>> = bits.iter().map(|x| if *x { i.next().map(|x| x.raw()) } else { None }).collect();
                if *a == want { Ok(()) } else { Err(format!("read back {a:?}")) }
            }); } } }
        use Encoding::*;
        kind!("timestamp", inst::get_ts_codec, TIMESTAMP_CODEC, [Null, Delta, DeltaTs, Quantile], w.iter().map(|x| *x as i64).collect::<Vec<i64>>());
        kind!("bigint", inst::get_i64_codec, BIGINT_CODEC, [Null, Delta, DeltaTs, Quantile], w.iter().map(|x| *x as i64).collect::<Vec<i64>>());
        kind!("unsigned", inst::get_u64_codec, UNSIGNED_BIGINT_CODEC, [Null, Delta, Quantile], w.clone());
        kind!("double", inst::get_f64_codec, DOUBLE_CODEC, [Null, Gorilla, Quantile], w.iter().map(|x| f64::from_bits(*x)).collect::<Vec<f64>>());
        kind!("boolean", inst::get_bool_codec, BOOLEAN_CODEC, [Null, BitPack], w.iter().map(|x| *x % 2 == 1).collect::<Vec<bool>>());
        let s: Vec<Vec<u8>> = w.iter().map(|x| x.to_be_bytes()[..(*x % 9) as usize].to_vec()).collect();
        kind!("string", inst::get_str_codec, STRING_CODEC, [Null, Gzip, Bzip, Zstd, Snappy, Zlib], s.iter().map(|x| &x[..]).collect::<Vec<&[u8]>>());
        for e2 in ALL { for x in s.iter().take(1) {
            h.case("wal", vx::hash(&(e as u8, e2 as u8, x)), &|| format!("entry {x:?} written under {}, read under {}", e.as_str(), e2.as_str()), &mut || {
                let b = wal::WalEntryCodec::new(e).encode(x).map_err(|x| format!("encode: {x}"))?; let mut c = wal::WalEntryCodec::new(e2);
                for _ in 0..2 { match c.decode(&b) { Ok(Some(y)) if y.0 == *x => {}, o => return Err(format!("read back {o:?}")) } } Ok(()) });
        } }
    } }
    h.exhaustive("every codec, every id byte, every pair of write-ahead log settings");
    h.done();
}
