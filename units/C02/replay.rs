//@prelude
//@include ../C01/arrow_replay.inc
//@include ../C01/ints_replay.inc
//@include ../C01/pco_replay.inc
pub mod codec {
    pub use super::arr::*;
    pub use super::arr;
    //@extract common/models/src/codec.rs enum Encoding
@derive Debug, Clone, Copy, PartialEq
@subst /#\[default\]/ =>
@end
    //@extract tskv/src/tsm/codec/mod.rs const MAX_VAR_INT_64
@subst /^\s*const/ => pub const
@end
    pub mod simple8b {
        use super::*;
        //@extract tskv/src/tsm/codec/simple8b.rs const MAX_VALUE
@end
        //@extract tskv/src/tsm/codec/simple8b.rs fn encode
@end
        //@extract tskv/src/tsm/codec/simple8b.rs fn decode
@end
        //@helpers
    }
    pub mod timestamp {
        use super::*; use std::sync::Arc; use super::super::byte_utils::decode_be_i64; use super::super::pco::*;
        //@extract tskv/src/tsm/codec/timestamp.rs enum DeltaEncoding
@derive Debug, Clone, Copy, PartialEq
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_without_compress_encode
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_without_compress_decode_to_array
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_pco_encode
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_pco_decode_to_array
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_zigzag_simple8b_encode
@end
        //@extract tskv/src/tsm/codec/timestamp.rs fn ts_zigzag_simple8b_decode_to_array
@end
        //@helpers
    }
}
use codec::*;
fn main() {
    let mut h = H::new();
    for e in 0..=12u32 { h.case("log10", e as u64, &|| format!("10^{e}"), &mut || { let d = 10u64.pow(e); if ((d as f64).log10()) as u8 as u32 == e { Ok(()) } else { Err("log10 of a power of ten is not exact".into()) } }); }
    h.exhaustive("log10 of the 13 possible divisors");
    let mut r = h.rng(2);
    for n in 0..h.scale(24_000, 600_000) {
        let mut v = column(&mut r);
        // how timestamps come: ascending, evenly spaced but for a few, in units of a power of ten
        if n % 2 == 0 && !v.is_empty() {
            let (t0, p) = (1_600_000_000_000_000_000u64 + r.below(1 << 40), 10u64.pow(r.below(14) as u32));
            let sh = r.below(50); let b = 1 + r.below(1 << sh); let odd = if r.chance(1, 3) { r.below(v.len() as u64 + 1) as usize } else { usize::MAX };
            let mut t = t0; for (i, x) in v.iter_mut().enumerate() { *x = t; t = t.wrapping_add(p.wrapping_mul(if n % 4 == 0 { b } else { 1 + r.below(b) })); if i == odd { t = t.wrapping_add(1 + r.below(100)); } }
        }
        let bits = rows(&mut r, v.len()); let nb = NullBuffer { bits: bits.clone() };
        let s: Vec<i64> = v.iter().map(|x| *x as i64).collect();
        let d = || format!("values {:?}, rows {:?}", s, bits.iter().map(|b| *b as u8).collect::<Vec<_>>());
        let k = vx::hash(&(&v, &bits));
        h.case("delta-ts", k, &d, &mut || { let mut b = vec![]; let e = timestamp::ts_zigzag_simple8b_encode(&s, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::DeltaTs as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || timestamp::ts_zigzag_simple8b_decode_to_array(&b, &nb), Int64, &bits, &v) });
        h.case("ts-raw", k, &d, &mut || { let mut b = vec![]; let e = timestamp::ts_without_compress_encode(&s, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Null as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || timestamp::ts_without_compress_decode_to_array(&b, &nb), Int64, &bits, &v) });
        h.case("ts-quantile", k, &d, &mut || { let mut b = vec![]; let e = timestamp::ts_pco_encode(&s, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Quantile as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || timestamp::ts_pco_decode_to_array(&b, &nb), Int64, &bits, &v) });
    }
    h.done();
}
