use vstd::prelude::*;
verus! {
#[derive(Debug)]
struct CodecError { c: u8 }
//@include ../C01/nulls.inc
// a column of optional values of one kind
struct Column { v: Ghost<Seq<Option<Val>>> }
type ArrayRef = Arc<Column>;
type MiniVec = Vec<u8>;
// a value: a number or a boolean by its bits, a string by its bytes
enum Val { N(u64), S(Seq<u8>) }
uninterp spec fn bits_of_f64(x: f64) -> u64;
spec fn v_i64(s: Seq<i64>) -> Seq<Val> { Seq::new(s.len(), |i: int| Val::N(s[i] as u64)) }
spec fn v_u64(s: Seq<u64>) -> Seq<Val> { Seq::new(s.len(), |i: int| Val::N(s[i])) }
spec fn v_f64(s: Seq<f64>) -> Seq<Val> { Seq::new(s.len(), |i: int| Val::N(bits_of_f64(s[i]))) }
spec fn v_bool(s: Seq<bool>) -> Seq<Val> { Seq::new(s.len(), |i: int| Val::N(if s[i] { 1 } else { 0 })) }
spec fn v_str(s: Seq<&[u8]>) -> Seq<Val> { Seq::new(s.len(), |i: int| Val::S(s[i]@)) }
spec fn v_vec(s: Seq<Vec<u8>>) -> Seq<Val> { Seq::new(s.len(), |i: int| Val::S(s[i]@)) }

//@extract common/models/src/codec.rs enum Encoding
@derive Clone, Copy, PartialEq, Eq
@subst /#\[default\]/ =>
@end
// the numbers the enum is declared with
//@extract common/models/src/codec.rs enum Encoding
@subst /enum Encoding \{/ => struct Num; impl Num {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@subst /#\[default\]/ =>
@end
spec fn code(e: Encoding) -> u8 {
    match e { Encoding::Default => Num::Default, Encoding::Null => Num::Null, Encoding::Delta => Num::Delta, Encoding::Quantile => Num::Quantile, Encoding::Gzip => Num::Gzip, Encoding::Bzip => Num::Bzip,
      Encoding::Gorilla => Num::Gorilla, Encoding::Snappy => Num::Snappy, Encoding::Zstd => Num::Zstd, Encoding::Zlib => Num::Zlib, Encoding::BitPack => Num::BitPack, Encoding::DeltaTs => Num::DeltaTs, Encoding::Unknown => Num::Unknown }
}
//@extract common/models/src/codec.rs From<u8> for Encoding::from
@header impl Encoding
@ret r
@spec
    ensures code(r) == value || r == Encoding::Unknown, forall|e: Encoding| code(e) == value ==> r == e
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_encoding
@ret r
@spec
    ensures src.len() == 0 ==> r == Encoding::Unknown, src.len() > 0 ==> (code(r) == src@[0] || r == Encoding::Unknown) && forall|e: Encoding| code(e) == src@[0] ==> r == e
@end

// ---- what the encoders and decoders promise, as proved under C01 to C05: block `b` of codec `k` holds values `v` ----
uninterp spec fn body(ty: int, b: Seq<u8>, v: Seq<Val>) -> bool;
spec fn holds(ty: int, k: u8, b: Seq<u8>, v: Seq<Val>) -> bool { if b.len() == 0 { v.len() == 0 } else { b[0] == k && body(ty, b, v) } }
spec fn readable(ty: int, k: u8, b: Seq<u8>, n: int) -> bool { exists|v: Seq<Val>| holds(ty, k, b, v) && v.len() == n }
#[verifier::external_body]
fn ts_without_compress_encode(src: &[i64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(0, Num::Null, final(dst)@, v_i64(src@)) { unimplemented!() }
#[verifier::external_body]
fn ts_without_compress_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(0, Num::Null, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, Num::Null, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn ts_zigzag_simple8b_encode(src: &[i64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(0, Num::DeltaTs, final(dst)@, v_i64(src@)) { unimplemented!() }
#[verifier::external_body]
fn ts_zigzag_simple8b_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(0, Num::DeltaTs, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, Num::DeltaTs, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn ts_pco_encode(src: &[i64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(0, Num::Quantile, final(dst)@, v_i64(src@)) { unimplemented!() }
#[verifier::external_body]
fn ts_pco_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(0, Num::Quantile, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, Num::Quantile, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn i64_without_compress_encode(src: &[i64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(0, Num::Null, final(dst)@, v_i64(src@)) { unimplemented!() }
#[verifier::external_body]
fn i64_without_compress_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(0, Num::Null, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, Num::Null, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn i64_zigzag_simple8b_encode(src: &[i64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(0, Num::Delta, final(dst)@, v_i64(src@)) { unimplemented!() }
#[verifier::external_body]
fn i64_zigzag_simple8b_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(0, Num::Delta, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, Num::Delta, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn i64_pco_encode(src: &[i64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(0, Num::Quantile, final(dst)@, v_i64(src@)) { unimplemented!() }
#[verifier::external_body]
fn i64_pco_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(0, Num::Quantile, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, Num::Quantile, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn f64_without_compress_encode(src: &[f64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(2, Num::Null, final(dst)@, v_f64(src@)) { unimplemented!() }
#[verifier::external_body]
fn f64_without_compress_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(2, Num::Null, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(2, Num::Null, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn f64_gorilla_encode(src: &[f64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(2, Num::Gorilla, final(dst)@, v_f64(src@)) { unimplemented!() }
#[verifier::external_body]
fn f64_gorilla_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(2, Num::Gorilla, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(2, Num::Gorilla, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn f64_pco_encode(src: &[f64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(2, Num::Quantile, final(dst)@, v_f64(src@)) { unimplemented!() }
#[verifier::external_body]
fn f64_pco_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(2, Num::Quantile, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(2, Num::Quantile, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn u64_without_compress_encode(src: &[u64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(1, Num::Null, final(dst)@, v_u64(src@)) { unimplemented!() }
#[verifier::external_body]
fn u64_without_compress_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(1, Num::Null, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(1, Num::Null, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn u64_zigzag_simple8b_encode(src: &[u64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(1, Num::Delta, final(dst)@, v_u64(src@)) { unimplemented!() }
#[verifier::external_body]
fn u64_zigzag_simple8b_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(1, Num::Delta, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(1, Num::Delta, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn u64_pco_encode(src: &[u64], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(1, Num::Quantile, final(dst)@, v_u64(src@)) { unimplemented!() }
#[verifier::external_body]
fn u64_pco_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(1, Num::Quantile, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(1, Num::Quantile, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn bool_without_compress_encode(src: &[bool], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(3, Num::Null, final(dst)@, v_bool(src@)) { unimplemented!() }
#[verifier::external_body]
fn bool_without_compress_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(3, Num::Null, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(3, Num::Null, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn bool_bitpack_encode(src: &[bool], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(3, Num::BitPack, final(dst)@, v_bool(src@)) { unimplemented!() }
#[verifier::external_body]
fn bool_bitpack_decode(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(3, Num::BitPack, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(3, Num::BitPack, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_without_compress_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(4, Num::Null, final(dst)@, v_str(src@)) { unimplemented!() }
#[verifier::external_body]
fn str_without_compress_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(4, Num::Null, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, Num::Null, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_without_compress_decode(src: &[u8], dst: &mut Vec<MiniVec>) -> (r: Result<(), CodecError>) requires exists|v: Seq<Val>| holds(4, Num::Null, src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, Num::Null, src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v) { unimplemented!() }
#[verifier::external_body]
fn str_snappy_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(4, Num::Snappy, final(dst)@, v_str(src@)) { unimplemented!() }
#[verifier::external_body]
fn str_snappy_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(4, Num::Snappy, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, Num::Snappy, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_snappy_decode(src: &[u8], dst: &mut Vec<MiniVec>) -> (r: Result<(), CodecError>) requires exists|v: Seq<Val>| holds(4, Num::Snappy, src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, Num::Snappy, src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v) { unimplemented!() }
#[verifier::external_body]
fn str_gzip_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(4, Num::Gzip, final(dst)@, v_str(src@)) { unimplemented!() }
#[verifier::external_body]
fn str_gzip_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(4, Num::Gzip, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, Num::Gzip, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_gzip_decode(src: &[u8], dst: &mut Vec<MiniVec>) -> (r: Result<(), CodecError>) requires exists|v: Seq<Val>| holds(4, Num::Gzip, src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, Num::Gzip, src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v) { unimplemented!() }
#[verifier::external_body]
fn str_bzip_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(4, Num::Bzip, final(dst)@, v_str(src@)) { unimplemented!() }
#[verifier::external_body]
fn str_bzip_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(4, Num::Bzip, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, Num::Bzip, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_bzip_decode(src: &[u8], dst: &mut Vec<MiniVec>) -> (r: Result<(), CodecError>) requires exists|v: Seq<Val>| holds(4, Num::Bzip, src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, Num::Bzip, src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v) { unimplemented!() }
#[verifier::external_body]
fn str_zstd_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(4, Num::Zstd, final(dst)@, v_str(src@)) { unimplemented!() }
#[verifier::external_body]
fn str_zstd_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(4, Num::Zstd, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, Num::Zstd, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_zstd_decode(src: &[u8], dst: &mut Vec<MiniVec>) -> (r: Result<(), CodecError>) requires exists|v: Seq<Val>| holds(4, Num::Zstd, src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, Num::Zstd, src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v) { unimplemented!() }
#[verifier::external_body]
fn str_zlib_encode(src: &[&[u8]], dst: &mut Vec<u8>) -> (r: Result<(), CodecError>) requires old(dst).len() == 0 ensures r is Ok ==> holds(4, Num::Zlib, final(dst)@, v_str(src@)) { unimplemented!() }
#[verifier::external_body]
fn str_zlib_decode_to_array(src: &[u8], bit_set: &NullBuffer) -> (r: Result<ArrayRef, CodecError>) requires readable(4, Num::Zlib, src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, Num::Zlib, src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v) { unimplemented!() }
#[verifier::external_body]
fn str_zlib_decode(src: &[u8], dst: &mut Vec<MiniVec>) -> (r: Result<(), CodecError>) requires exists|v: Seq<Val>| holds(4, Num::Zlib, src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, Num::Zlib, src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v) { unimplemented!() }

// ---- the codec traits: `k` is the id a codec writes and reads ----
//@extract tskv/src/tsm/codec/instance.rs trait TimestampCodec
@vis 
@fn encode
@ret r
@spec
        requires old(dst).len() == 0 ensures r is Ok ==> holds(0, self.k(), final(dst)@, v_i64(src@))
@fn decode_to_array
@ret r
@spec
        requires readable(0, self.k(), src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, self.k(), src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v)
@inside spec fn k(&self) -> u8;
@end
//@extract tskv/src/tsm/codec/instance.rs trait IntegerCodec
@vis 
@fn encode
@ret r
@spec
        requires old(dst).len() == 0 ensures r is Ok ==> holds(0, self.k(), final(dst)@, v_i64(src@))
@fn decode_to_array
@ret r
@spec
        requires readable(0, self.k(), src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(0, self.k(), src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v)
@inside spec fn k(&self) -> u8;
@end
//@extract tskv/src/tsm/codec/instance.rs trait UnsignedCodec
@vis 
@fn encode
@ret r
@spec
        requires old(dst).len() == 0 ensures r is Ok ==> holds(1, self.k(), final(dst)@, v_u64(src@))
@fn decode_to_array
@ret r
@spec
        requires readable(1, self.k(), src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(1, self.k(), src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v)
@inside spec fn k(&self) -> u8;
@end
//@extract tskv/src/tsm/codec/instance.rs trait FloatCodec
@vis 
@fn encode
@ret r
@spec
        requires old(dst).len() == 0 ensures r is Ok ==> holds(2, self.k(), final(dst)@, v_f64(src@))
@fn decode_to_array
@ret r
@spec
        requires readable(2, self.k(), src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(2, self.k(), src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v)
@inside spec fn k(&self) -> u8;
@end
//@extract tskv/src/tsm/codec/instance.rs trait BooleanCodec
@vis 
@fn encode
@ret r
@spec
        requires old(dst).len() == 0 ensures r is Ok ==> holds(3, self.k(), final(dst)@, v_bool(src@))
@fn decode_to_array
@ret r
@spec
        requires readable(3, self.k(), src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(3, self.k(), src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v)
@inside spec fn k(&self) -> u8;
@end
//@extract tskv/src/tsm/codec/instance.rs trait StringCodec
@vis 
@fn encode
@ret r
@spec
        requires old(dst).len() == 0 ensures r is Ok ==> holds(4, self.k(), final(dst)@, v_str(src@))
@fn decode_to_array
@ret r
@spec
        requires readable(4, self.k(), src@, bit_set.n()) ensures r is Ok, forall|v: Seq<Val>| holds(4, self.k(), src@, v) ==> (*r->Ok_0).v@ == spread(bit_set.bits@, v)
@fn decode
@ret r
@subst /MiniVec<u8>/ => MiniVec
@spec
        requires exists|v: Seq<Val>| holds(4, self.k(), src@, v) ensures r is Ok, forall|v: Seq<Val>| #[trigger] holds(4, self.k(), src@, v) ==> v_vec(final(dst)@) =~= v_vec(old(dst)@) + v && (old(dst).len() == 0 ==> v_vec(final(dst)@) =~= v)
@inside spec fn k(&self) -> u8;
@end
//@extract tskv/src/tsm/codec/instance.rs struct NullTimestampCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for NullTimestampCodec
@inside spec fn k(&self) -> u8 { Num::Null }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct DeltaTsTimestampCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for DeltaTsTimestampCodec
@inside spec fn k(&self) -> u8 { Num::DeltaTs }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for DeltaTsTimestampCodec
@inside spec fn k(&self) -> u8 { Num::DeltaTs }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct QuantileTimestampCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for QuantileTimestampCodec
@inside spec fn k(&self) -> u8 { Num::Quantile }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct NullIntegerCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for NullIntegerCodec
@inside spec fn k(&self) -> u8 { Num::Null }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct DeltaIntegerCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for DeltaIntegerCodec
@inside spec fn k(&self) -> u8 { Num::Delta }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs impl TimestampCodec for DeltaIntegerCodec
@inside spec fn k(&self) -> u8 { Num::Delta }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct QuantileIntegerCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl IntegerCodec for QuantileIntegerCodec
@inside spec fn k(&self) -> u8 { Num::Quantile }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct NullFloatCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl FloatCodec for NullFloatCodec
@inside spec fn k(&self) -> u8 { Num::Null }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct GorillaFloatCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl FloatCodec for GorillaFloatCodec
@inside spec fn k(&self) -> u8 { Num::Gorilla }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct QuantileFloatCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl FloatCodec for QuantileFloatCodec
@inside spec fn k(&self) -> u8 { Num::Quantile }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct NullUnsignedCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl UnsignedCodec for NullUnsignedCodec
@inside spec fn k(&self) -> u8 { Num::Null }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct DeltaUnsignedCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl UnsignedCodec for DeltaUnsignedCodec
@inside spec fn k(&self) -> u8 { Num::Delta }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct QuantileUnsignedCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl UnsignedCodec for QuantileUnsignedCodec
@inside spec fn k(&self) -> u8 { Num::Quantile }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct NullBooleanCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl BooleanCodec for NullBooleanCodec
@inside spec fn k(&self) -> u8 { Num::Null }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct BitPackBooleanCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl BooleanCodec for BitPackBooleanCodec
@inside spec fn k(&self) -> u8 { Num::BitPack }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct NullStringCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl StringCodec for NullStringCodec
@inside spec fn k(&self) -> u8 { Num::Null }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct SnappyStringCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl StringCodec for SnappyStringCodec
@inside spec fn k(&self) -> u8 { Num::Snappy }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct GzipStringCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl StringCodec for GzipStringCodec
@inside spec fn k(&self) -> u8 { Num::Gzip }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct BzipStringCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl StringCodec for BzipStringCodec
@inside spec fn k(&self) -> u8 { Num::Bzip }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct ZstdStringCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl StringCodec for ZstdStringCodec
@inside spec fn k(&self) -> u8 { Num::Zstd }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs struct ZlibStringCodec
@end
//@extract tskv/src/tsm/codec/instance.rs impl StringCodec for ZlibStringCodec
@inside spec fn k(&self) -> u8 { Num::Zlib }
@subst /MiniVec<u8>/ => MiniVec
@subst /let (\w+) = self as &dyn (\w+);\s*\1\.(\w+)\(/ => \2::\3(self, 
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_ts_codec
@ret r
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@spec
    ensures r.k() == Num::Null || r.k() == Num::Delta || r.k() == Num::DeltaTs || r.k() == Num::Quantile, (algo == Encoding::Null || algo == Encoding::Delta || algo == Encoding::DeltaTs || algo == Encoding::Quantile) ==> r.k() == code(algo)
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_i64_codec
@ret r
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@spec
    ensures r.k() == Num::Null || r.k() == Num::Delta || r.k() == Num::DeltaTs || r.k() == Num::Quantile, (algo == Encoding::Null || algo == Encoding::Delta || algo == Encoding::DeltaTs || algo == Encoding::Quantile) ==> r.k() == code(algo)
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_u64_codec
@ret r
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@spec
    ensures r.k() == Num::Null || r.k() == Num::Delta || r.k() == Num::Quantile, (algo == Encoding::Null || algo == Encoding::Delta || algo == Encoding::Quantile) ==> r.k() == code(algo)
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_f64_codec
@ret r
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@spec
    ensures r.k() == Num::Null || r.k() == Num::Gorilla || r.k() == Num::Quantile, (algo == Encoding::Null || algo == Encoding::Gorilla || algo == Encoding::Quantile) ==> r.k() == code(algo)
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_str_codec
@ret r
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@spec
    ensures r.k() == Num::Null || r.k() == Num::Gzip || r.k() == Num::Bzip || r.k() == Num::Snappy || r.k() == Num::Zstd || r.k() == Num::Zlib, (algo == Encoding::Null || algo == Encoding::Gzip || algo == Encoding::Bzip || algo == Encoding::Snappy || algo == Encoding::Zstd || algo == Encoding::Zlib) ==> r.k() == code(algo)
@end
//@extract tskv/src/tsm/codec/instance.rs fn get_bool_codec
@ret r
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@spec
    ensures r.k() == Num::Null || r.k() == Num::BitPack, (algo == Encoding::Null || algo == Encoding::BitPack) ==> r.k() == code(algo)
@end

// ---- the property: whatever codec a block was written with, it is read with that codec ----
fn any_ts_codec(algo: Encoding, src: &[i64], bits: &NullBuffer)
    requires src.len() == bits.n()
{
    let mut b: Vec<u8> = Vec::new();
    let w = get_ts_codec(algo);
    let e = w.encode(src, &mut b);
    if let Ok(_) = e {
        let n = get_encoding(&b);
        let c = get_ts_codec(n);
        proof { let v = v_i64(src@); assert(holds(0, w.k(), b@, v) && v.len() == bits.n());
            if b.len() > 0 { assert(b@[0] == w.k()); assert(code(Encoding::Null) == Num::Null); assert(code(Encoding::Delta) == Num::Delta); assert(code(Encoding::DeltaTs) == Num::DeltaTs); assert(code(Encoding::Quantile) == Num::Quantile); assert(c.k() == w.k()); } assert(holds(0, c.k(), b@, v)); assert(readable(0, c.k(), b@, bits.n())); }
        let r = c.decode_to_array(&b, bits);
        assert(r is Ok && (*r->Ok_0).v@ == spread(bits.bits@, v_i64(src@)));
    }
}
fn any_i64_codec(algo: Encoding, src: &[i64], bits: &NullBuffer)
    requires src.len() == bits.n()
{
    let mut b: Vec<u8> = Vec::new();
    let w = get_i64_codec(algo);
    let e = w.encode(src, &mut b);
    if let Ok(_) = e {
        let n = get_encoding(&b);
        let c = get_i64_codec(n);
        proof { let v = v_i64(src@); assert(holds(0, w.k(), b@, v) && v.len() == bits.n());
            if b.len() > 0 { assert(b@[0] == w.k()); assert(code(Encoding::Null) == Num::Null); assert(code(Encoding::Delta) == Num::Delta); assert(code(Encoding::DeltaTs) == Num::DeltaTs); assert(code(Encoding::Quantile) == Num::Quantile); assert(c.k() == w.k()); } assert(holds(0, c.k(), b@, v)); assert(readable(0, c.k(), b@, bits.n())); }
        let r = c.decode_to_array(&b, bits);
        assert(r is Ok && (*r->Ok_0).v@ == spread(bits.bits@, v_i64(src@)));
    }
}
fn any_u64_codec(algo: Encoding, src: &[u64], bits: &NullBuffer)
    requires src.len() == bits.n()
{
    let mut b: Vec<u8> = Vec::new();
    let w = get_u64_codec(algo);
    let e = w.encode(src, &mut b);
    if let Ok(_) = e {
        let n = get_encoding(&b);
        let c = get_u64_codec(n);
        proof { let v = v_u64(src@); assert(holds(1, w.k(), b@, v) && v.len() == bits.n());
            if b.len() > 0 { assert(b@[0] == w.k()); assert(code(Encoding::Null) == Num::Null); assert(code(Encoding::Delta) == Num::Delta); assert(code(Encoding::Quantile) == Num::Quantile); assert(c.k() == w.k()); } assert(holds(1, c.k(), b@, v)); assert(readable(1, c.k(), b@, bits.n())); }
        let r = c.decode_to_array(&b, bits);
        assert(r is Ok && (*r->Ok_0).v@ == spread(bits.bits@, v_u64(src@)));
    }
}
fn any_f64_codec(algo: Encoding, src: &[f64], bits: &NullBuffer)
    requires src.len() == bits.n()
{
    let mut b: Vec<u8> = Vec::new();
    let w = get_f64_codec(algo);
    let e = w.encode(src, &mut b);
    if let Ok(_) = e {
        let n = get_encoding(&b);
        let c = get_f64_codec(n);
        proof { let v = v_f64(src@); assert(holds(2, w.k(), b@, v) && v.len() == bits.n());
            if b.len() > 0 { assert(b@[0] == w.k()); assert(code(Encoding::Null) == Num::Null); assert(code(Encoding::Gorilla) == Num::Gorilla); assert(code(Encoding::Quantile) == Num::Quantile); assert(c.k() == w.k()); } assert(holds(2, c.k(), b@, v)); assert(readable(2, c.k(), b@, bits.n())); }
        let r = c.decode_to_array(&b, bits);
        assert(r is Ok && (*r->Ok_0).v@ == spread(bits.bits@, v_f64(src@)));
    }
}
fn any_str_codec(algo: Encoding, src: &[&[u8]], bits: &NullBuffer)
    requires src.len() == bits.n()
{
    let mut b: Vec<u8> = Vec::new();
    let w = get_str_codec(algo);
    let e = w.encode(src, &mut b);
    if let Ok(_) = e {
        let n = get_encoding(&b);
        let c = get_str_codec(n);
        proof { let v = v_str(src@); assert(holds(4, w.k(), b@, v) && v.len() == bits.n());
            if b.len() > 0 { assert(b@[0] == w.k()); assert(code(Encoding::Null) == Num::Null); assert(code(Encoding::Gzip) == Num::Gzip); assert(code(Encoding::Bzip) == Num::Bzip); assert(code(Encoding::Snappy) == Num::Snappy); assert(code(Encoding::Zstd) == Num::Zstd); assert(code(Encoding::Zlib) == Num::Zlib); assert(c.k() == w.k()); } assert(holds(4, c.k(), b@, v)); assert(readable(4, c.k(), b@, bits.n())); }
        let r = c.decode_to_array(&b, bits);
        assert(r is Ok && (*r->Ok_0).v@ == spread(bits.bits@, v_str(src@)));
    }
}
fn any_bool_codec(algo: Encoding, src: &[bool], bits: &NullBuffer)
    requires src.len() == bits.n()
{
    let mut b: Vec<u8> = Vec::new();
    let w = get_bool_codec(algo);
    let e = w.encode(src, &mut b);
    if let Ok(_) = e {
        let n = get_encoding(&b);
        let c = get_bool_codec(n);
        proof { let v = v_bool(src@); assert(holds(3, w.k(), b@, v) && v.len() == bits.n());
            if b.len() > 0 { assert(b@[0] == w.k()); assert(code(Encoding::Null) == Num::Null); assert(code(Encoding::BitPack) == Num::BitPack); assert(c.k() == w.k()); } assert(holds(3, c.k(), b@, v)); assert(readable(3, c.k(), b@, bits.n())); }
        let r = c.decode_to_array(&b, bits);
        assert(r is Ok && (*r->Ok_0).v@ == spread(bits.bits@, v_bool(src@)));
    }
}
// ---- the write-ahead log: an entry is read back whatever the compression setting was when it was written ----
type TskvResult<T> = Result<T, CodecError>;
#[verifier::external_body]
fn slice1<'a>(x: &'a [u8]) -> (r: &'a [&'a [u8]]) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
fn drain_first(b: &mut Vec<MiniVec>) -> (r: Option<MiniVec>) ensures final(b).len() == 0, old(b).len() > 0 ==> r == Some(old(b)@[0]), old(b).len() == 0 ==> r is None { unimplemented!() }
spec fn one(d: Seq<u8>) -> Seq<Val> { seq![Val::S(d)] }
// `b` is the entry `d`, written under some setting
spec fn entry(b: Seq<u8>, d: Seq<u8>) -> bool { exists|k: u8| str_codec(k) && holds(4, k, b, one(d)) }
spec fn str_codec(k: u8) -> bool { k == Num::Null || k == Num::Gzip || k == Num::Bzip || k == Num::Snappy || k == Num::Zstd || k == Num::Zlib }
//@extract tskv/src/wal/mod.rs struct WalEntryCodec
@vis 
@subst /MiniVec<u8>/ => MiniVec
@subst /dyn (\w+) \+ Send \+ Sync/ => dyn \1
@end
impl WalEntryCodec { spec fn wf(&self) -> bool { str_codec(self.codec.k()) } }
//@extract tskv/src/wal/mod.rs impl WalEntryCodec
@vis 
@subst /MiniVec<u8>/ => MiniVec
@subst /\s*\.(with_)?context\([^()]*\)\?/ => ?
@subst /encode\(&\[data\]/ => encode(slice1(data)
@subst /self\.buffer\.drain\(\.\.\)\.next\(\)/ => drain_first(&mut self.buffer)
@fn new
@ret r
@spec
        ensures r.wf()
@fn encode
@ret r
@spec
        requires self.wf() ensures r is Ok ==> entry(r->Ok_0@, data@)
@at tail
        proof { let v = v_str(seq![data]); assert(v =~= one(data@)); assert(v_str(slice1_spec(data)) =~= v); assert(holds(4, self.codec.k(), enc_data@, one(data@))); }
@fn decode
@ret r
@spec
        requires old(self).wf(), exists|d: Seq<u8>| entry(data@, d)
        ensures r is Ok, forall|d: Seq<u8>| entry(data@, d) ==> r->Ok_0 is Some && r->Ok_0->Some_0@ == d
@at start
        proof { let d = choose|d: Seq<u8>| entry(data@, d); let k = choose|k: u8| str_codec(k) && holds(4, k, data@, one(d)); assert(holds(4, data@[0], data@, one(d))); lemma_str_codes();
            assert forall|d: Seq<u8>| entry(data@, d) implies str_codec(data@[0]) && holds(4, data@[0], data@, one(d)) by {} }
@at tail
        proof { assert forall|d: Seq<u8>| entry(data@, d) implies self.buffer.len() > 0 && self.buffer@[0]@ == d by { assert(v_vec(self.buffer@)[0] == one(d)[0]); } }
@end
spec fn slice1_spec(d: &[u8]) -> Seq<&[u8]> { seq![d] }
proof fn lemma_str_codes()
    ensures forall|e: Encoding| str_codec(#[trigger] code(e)) ==> e == Encoding::Null || e == Encoding::Gzip || e == Encoding::Bzip || e == Encoding::Snappy || e == Encoding::Zstd || e == Encoding::Zlib,
        forall|k: u8| #[trigger] str_codec(k) ==> exists|e: Encoding| code(e) == k
{ assert(code(Encoding::Null) == Num::Null && code(Encoding::Gzip) == Num::Gzip && code(Encoding::Bzip) == Num::Bzip && code(Encoding::Snappy) == Num::Snappy && code(Encoding::Zstd) == Num::Zstd && code(Encoding::Zlib) == Num::Zlib); }
}
fn main() {}
