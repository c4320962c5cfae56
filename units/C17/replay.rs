//@prelude
use std::hash::Hasher;
use fnv::FnvHasher;
use siphasher::sip::SipHasher13;
use twox_hash::XxHash64;
//@extract common/utils/src/bkdr_hash.rs struct BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs const SEED
@end
//@extract common/utils/src/bkdr_hash.rs impl BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Hasher for BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs impl Default for BkdrHasher
@end
//@extract common/utils/src/bloom_filter.rs struct BloomFilter
@derive Clone, PartialEq, Debug
@end
//@extract common/utils/src/bloom_filter.rs impl BloomFilter
@end
//@helpers
fn main() {
    let mut h = H::new();
    let mut r = h.rng(17);
    for n in 0..h.scale(4_000, 60_000) {
        let m = match n % 6 { 0 => 1 + r.below(64), 1 => 512, 2 => 1 << (3 + r.below(12)), _ => 1 + r.below(6000) };
        let items: Vec<Vec<u8>> = (0..1 + r.below(24)).map(|_| { let l = match r.below(6) { 0 => 0, 1 => 8, 2 => 4, _ => r.below(40) as usize }; r.bytes(l) }).collect();
        h.case("bloom", hash(&(m, &items)), &|| format!("filter of {m} bits, items {items:?}"), &mut || {
            let mut f = BloomFilter::new(m);
            if (f.len() as u64) * 8 < m { return Err(format!("{} bytes for {m} bits", f.len())); }
            for (i, x) in items.iter().enumerate() {
                f.insert(x);
                let g = BloomFilter::with_data(f.bytes());
                for y in &items[..=i] {
                    if !f.maybe_contains(y) { return Err(format!("inserted {y:?} is reported absent")); }
                    if !g.maybe_contains(y) { return Err(format!("inserted {y:?} is reported absent after the bytes are reloaded")); }
                }
                if g != f { return Err("the filter reloaded from its bytes differs".into()); }
            }
            Ok(())
        });
    }
    h.done();
}
