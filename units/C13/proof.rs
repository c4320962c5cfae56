use vstd::prelude::*;
verus! {
//@extract common/models/src/utils.rs const LOW_32BIT_MASK
@subst /const (\w+): u64 = (.*);$/ => exec const \1: u64 ensures \1 == 0xffff_ffffu64 { assert((0x01u64 << 32) == 0x1_0000_0000u64) by (bit_vector); \2 }
@end
//@extract common/models/src/utils.rs const HIGH_32BIT_MASK
@subst /const (\w+): u64 = (.*);$/ => exec const \1: u64 ensures \1 == 0xffff_ffff_0000_0000u64 { assert((0x01u64 << 32) == 0x1_0000_0000u64) by (bit_vector); assert(sub(0x1_0000_0000u64, 1) << 32 == 0xffff_ffff_0000_0000u64) by (bit_vector); \2 }
@end
// the meaning of a packed id, in ordinary arithmetic
spec fn pack(h: int, l: int) -> int { h * 0x1_0000_0000 + l }

//@extract common/models/src/utils.rs fn split_id
@ret r
@spec
    ensures pack(r.0 as int, r.1 as int) == id
@at start
    proof {
        assert((((id & 0xffff_ffff_0000_0000u64) >> 32) as u32) as u64 == id / 0x1_0000_0000) by (bit_vector);
        assert(((id & 0xffff_ffffu64) as u32) as u64 == id % 0x1_0000_0000) by (bit_vector);
    }
@end
//@extract common/models/src/utils.rs fn unite_id
@ret r
@spec
    ensures r == pack(hash_id as int, incr_id as int)
@at start
    proof {
        assert((0xffff_ffffu64 as u32) == 0xffff_ffffu32) by (bit_vector);
        assert(((hash_id as u64) << 32 | ((incr_id & 0xffff_ffffu32) as u64)) == add(mul(hash_id as u64, 0x1_0000_0000u64), incr_id as u64)) by (bit_vector);
        assert(hash_id as u64 * 0x1_0000_0000 + incr_id as u64 <= u64::MAX);
    }
@end
//@helpers
// round trips and injectivity follow from the two contracts
fn there_and_back(id: u64) -> (r: u64) ensures r == id { let (h, l) = split_id(id); unite_id(h, l) }
fn back_and_there(h: u32, l: u32) -> (r: (u32, u32)) ensures r == (h, l) { split_id(unite_id(h, l)) }
proof fn injective(h1: u32, l1: u32, h2: u32, l2: u32)
    requires pack(h1 as int, l1 as int) == pack(h2 as int, l2 as int)
    ensures h1 == h2, l1 == l2
{}
}
