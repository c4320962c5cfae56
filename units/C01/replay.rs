//@prelude
//@include arrow_replay.inc
//@include ints_replay.inc
//@include pco_replay.inc
pub mod codec {
    pub use super::arr::*;
    pub use super::arr;
    //@extract common/models/src/codec.rs enum Encoding
@derive Debug, Clone, Copy, PartialEq
@subst /#\[default\]/ =>
@end
    //@extract tskv/src/tsm/codec/mod.rs const MAX_VAR_INT_64
@subst /^\s*const/ => pub const
@end
    pub mod simple8b {
        use super::*;
        //@extract tskv/src/tsm/codec/simple8b.rs const MAX_VALUE
@end
        //@extract tskv/src/tsm/codec/simple8b.rs fn encode
@end
        //@extract tskv/src/tsm/codec/simple8b.rs fn decode
@end
        //@helpers
    }
    pub mod timestamp {
        use super::*; use std::sync::Arc; use super::super::byte_utils::decode_be_i64; use super::super::pco::*;
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_without_compress_encode
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_without_compress_decode_to_array
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_pco_encode
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_pco_decode_to_array
@end
        //@helpers
    }
    pub mod integer {
        use super::*; use std::sync::Arc; use super::timestamp::*;
        //@extract tskv/src/tsm/codec/integer.rs enum DeltaEncoding
@derive Debug, Clone, Copy, PartialEq
@end
        //@extract tskv/src/tsm/codec/integer.rs fn i64_zigzag_simple8b_encode
@end
        //@extract tskv/src/tsm/codec/integer.rs fn i64_zigzag_simple8b_decode_to_array
@end
        //@extract tskv/src/tsm/codec/integer.rs fn i64_without_compress_encode
@end
        //@extract tskv/src/tsm/codec/integer.rs fn i64_without_compress_decode_to_array
@end
        //@extract tskv/src/tsm/codec/integer.rs fn i64_pco_encode
@end
        //@extract tskv/src/tsm/codec/integer.rs fn i64_pco_decode_to_array
@end
        //@helpers
    }
    pub mod unsigned {
        use super::*; use std::sync::Arc;
        //@extract tskv/src/tsm/codec/unsigned.rs fn u64_zigzag_simple8b_encode
@end
        //@extract tskv/src/tsm/codec/unsigned.rs fn u64_zigzag_simple8b_decode
@end
        //@extract tskv/src/tsm/codec/unsigned.rs fn u64_without_compress_encode
@end
        //@extract tskv/src/tsm/codec/unsigned.rs fn u64_without_compress_decode
@end
        //@extract tskv/src/tsm/codec/unsigned.rs fn u64_pco_encode
@end
        //@extract tskv/src/tsm/codec/unsigned.rs fn u64_pco_decode
@end
        //@helpers
    }
}
use codec::*;
fn main() {
    let mut h = H::new();
    let mut r = h.rng(1);
    for _ in 0..h.scale(16_000, 400_000) {
        let v = column(&mut r); let bits = rows(&mut r, v.len()); let nb = NullBuffer { bits: bits.clone() };
        let s: Vec<i64> = v.iter().map(|x| *x as i64).collect();
        let d = || format!("values {:?}, rows {:?}", s, bits.iter().map(|b| *b as u8).collect::<Vec<_>>());
        let k = vx::hash(&(&v, &bits));
        h.case("bigint-delta", k, &d, &mut || { let mut b = vec![]; let e = integer::i64_zigzag_simple8b_encode(&s, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Delta as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || integer::i64_zigzag_simple8b_decode_to_array(&b, &nb), Int64, &bits, &v) });
        h.case("bigint-raw", k, &d, &mut || { let mut b = vec![]; let e = integer::i64_without_compress_encode(&s, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Null as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || integer::i64_without_compress_decode_to_array(&b, &nb), Int64, &bits, &v) });
        h.case("unsigned-delta", k, &d, &mut || { let mut b = vec![]; let e = unsigned::u64_zigzag_simple8b_encode(&v, &mut b);
            cmp(e, &mut || unsigned::u64_zigzag_simple8b_decode(&b, &nb), UInt64, &bits, &v) });
        h.case("unsigned-raw", k, &d, &mut || { let mut b = vec![]; let e = unsigned::u64_without_compress_encode(&v, &mut b);
            cmp(e, &mut || unsigned::u64_without_compress_decode(&b, &nb), UInt64, &bits, &v) });
        h.case("bigint-quantile", k, &d, &mut || { let mut b = vec![]; let e = integer::i64_pco_encode(&s, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Quantile as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || integer::i64_pco_decode_to_array(&b, &nb), Int64, &bits, &v) });
        h.case("unsigned-quantile", k, &d, &mut || { let mut b = vec![]; let e = unsigned::u64_pco_encode(&v, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Quantile as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || unsigned::u64_pco_decode(&b, &nb), UInt64, &bits, &v) });
        // the packed words alone: every list of values below 2^60
        let w: Vec<u64> = v.iter().map(|x| x & simple8b::MAX_VALUE).collect();
        let steps: Vec<u64> = v.windows(2).map(|x| x[1].wrapping_sub(x[0])).collect();
        for w in [w, steps] {
            let big = w.iter().any(|x| *x > simple8b::MAX_VALUE);
            h.case("simple8b", vx::hash(&w), &|| format!("{:?}", w), &mut || { let mut b = vec![]; let mut o = vec![];
                match simple8b::encode(&w, &mut b) { Err(_) if big => return Ok(()), Err(e) => return Err(format!("{e}")), Ok(_) if big => return Err("a value of 2^60 or more was accepted".into()), _ => {} }
                simple8b::decode(&b, &mut o); if o == w { Ok(()) } else { Err(format!("decoded {} values, must be {}", o.len(), w.len())) } });
        }
    }
    h.done();
}
