//@prelude
//@include ../C01/arrow_replay.inc
pub mod codec {
    pub use super::arr::*;
    pub use super::arr;
    //@extract common/models/src/codec.rs enum Encoding
@derive Debug, Clone, Copy, PartialEq
@subst /#\[default\]/ =>
@end
    pub mod boolean {
        use super::*; use std::sync::Arc; use std::convert::TryInto;
        //@extract tskv/src/tsm/codec/boolean.rs fn bool_bitpack_encode
@end
        //@extract tskv/src/tsm/codec/boolean.rs fn bool_bitpack_decode
@end
        //@extract tskv/src/tsm/codec/boolean.rs fn bool_without_compress_encode
@end
        //@extract tskv/src/tsm/codec/boolean.rs fn bool_without_compress_decode
@end
        //@helpers
    }
}
use codec::*;
fn main() {
    let mut h = H::new();
    let mut r = h.rng(3);
    let all: Vec<(Vec<bool>, Option<Vec<bool>>)> = (0..=12u32).flat_map(|n| (0..1u32 << n).map(move |m| ((0..n).map(|i| m >> i & 1 == 1).collect(), None))).collect();
    let n = h.scale(20_000, 400_000) as usize;
    for k in 0..all.len() + n {
        let v: Vec<bool> = if k < all.len() { all[k].0.clone() } else {
            let n = match r.below(6) { 0 => 120 + r.below(20), 1 => 16_380 + r.below(10), 2 => 1000, _ => r.below(300) }; let p = r.below(11); (0..n).map(|_| r.chance(p, 10)).collect() };
        let bits = rows(&mut r, v.len()); let nb = NullBuffer { bits: bits.clone() };
        let w: Vec<u64> = v.iter().map(|b| *b as u64).collect();
        let d = || format!("values {:?}, rows {:?}", w, bits.iter().map(|b| *b as u8).collect::<Vec<_>>());
        let key = vx::hash(&(&v, &bits));
        h.case("bool-bitpack", key, &d, &mut || { let mut b = vec![]; let e = boolean::bool_bitpack_encode(&v, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::BitPack as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || boolean::bool_bitpack_decode(&b, &nb), Boolean, &bits, &w) });
        h.case("bool-raw", key, &d, &mut || { let mut b = vec![]; let e = boolean::bool_without_compress_encode(&v, &mut b);
            if e.is_ok() && !b.is_empty() && b[0] != Encoding::Null as u8 { return Err(format!("codec id {}", b[0])); }
            cmp(e, &mut || boolean::bool_without_compress_decode(&b, &nb), Boolean, &bits, &w) });
    }
    h.exhaustive("every list of at most 12 booleans");
    h.done();
}
