use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@extract common/utils/src/bloom_filter.rs struct BloomFilter
@end

pub assume_specification<T: Clone>[ <[T]>::to_vec ](x: &[T]) -> (r: Vec<T>)
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned::<T>(x@[i], #[trigger] r@[i]);

// ---- stand-in for the boxed dyn Hashers: only determinism is assumed -------------------
struct AnyHasher { id: u64, state: u64 }
uninterp spec fn digest(id: u64, data: Seq<u8>) -> u64;
uninterp spec fn absorbed(h: AnyHasher) -> Seq<u8>;
uninterp spec fn fresh() -> Seq<AnyHasher>;
impl AnyHasher {
    #[verifier::external_body]
    fn write(&mut self, data: &[u8])
        ensures final(self).id == old(self).id, absorbed(*final(self)) == absorbed(*old(self)) + data@
    { unimplemented!() }
    #[verifier::external_body]
    fn finish(&self) -> (r: u64)
        ensures r == digest(self.id, absorbed(*self))
    { unimplemented!() }
}
impl BloomFilter {
    #[verifier::external_body]
    fn hashers() -> (r: Vec<AnyHasher>)
        ensures r@ == fresh(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] absorbed(r@[i]) == Seq::<u8>::empty()
    { unimplemented!() }
}

// ---- the meaning of a filter ------------------------------------------------------------
spec fn pow2s(x: int) -> bool { exists|k: nat| x == vstd::arithmetic::power2::pow2(k) }
spec fn bit(b: Seq<u8>, i: u64) -> bool { (b[(i >> 3) as int] & (1u8 << ((i & 7) as u8))) != 0 }
spec fn h(data: Seq<u8>, k: int) -> u64 { digest(fresh()[k].id, data) }
spec fn has(b: Seq<u8>, mask: u64, data: Seq<u8>) -> bool {
    forall|k: int| 0 <= k < fresh().len() ==> bit(b, #[trigger] h(data, k) & mask)
}
spec fn m_ok(m: u64) -> bool { m >= 8 && m & (m - 1) as u64 == 0 }
impl BloomFilter {
    spec fn wf(&self) -> bool {
        &&& self.mask < u64::MAX && m_ok((self.mask + 1) as u64) && self.b@.len() * 8 == self.mask + 1
    }
}
proof fn lemma_loc(x: u64, mask: u64, len: int)
    requires len * 8 == mask + 1, x <= mask
    ensures (x >> 3) < len
{
    assert((x >> 3) == x / 8) by (bit_vector);
}
proof fn lemma_and(x: u64, mask: u64) ensures (x & mask) <= mask { assert((x & mask) <= mask) by (bit_vector); }
proof fn lemma_set(b: u8, i: u64, j: u64)
    requires i < 8, j < 8
    ensures ((b | (1u8 << (i as u8))) & (1u8 << (j as u8)) != 0) == (b & (1u8 << (j as u8)) != 0 || i == j)
{
    let (x, y) = (i as u8, j as u8);
    assert(x < 8 && y < 8 ==> (((b | (1u8 << x)) & (1u8 << y)) != 0) == ((b & (1u8 << y)) != 0 || x == y)) by (bit_vector);
}
proof fn lemma_split(i: u64, j: u64)
    ensures (i >> 3) == (j >> 3) && (i & 7) == (j & 7) ==> i == j, (i & 7) < 8, (j & 7) < 8
{
    assert((i >> 3) == (j >> 3) && (i & 7) == (j & 7) ==> i == j) by (bit_vector);
    assert((i & 7) < 8) by (bit_vector);
    assert((j & 7) < 8) by (bit_vector);
}
proof fn lemma_update(b: Seq<u8>, i: u64)
    requires (i >> 3) < b.len()
    ensures forall|j: u64| (j >> 3) < b.len() ==> #[trigger] bit(b.update((i >> 3) as int, b[(i >> 3) as int] | (1u8 << ((i & 7) as u8))), j) == (bit(b, j) || i == j)
{
    assert forall|j: u64| (j >> 3) < b.len() implies #[trigger] bit(b.update((i >> 3) as int, b[(i >> 3) as int] | (1u8 << ((i & 7) as u8))), j) == (bit(b, j) || i == j) by {
        lemma_split(i, j);
        if (i >> 3) == (j >> 3) { lemma_set(b[(i >> 3) as int], i & 7, j & 7); }
    }
}
proof fn lemma_double(i: u64)
    requires m_ok(i), i < 1u64 << 62
    ensures m_ok((i * 2) as u64), i * 2 <= 1u64 << 62
{
    assert(i & sub(i, 1) == 0 && i >= 8 && i < 1u64 << 62 ==> (mul(i, 2) & sub(mul(i, 2), 1)) == 0 && mul(i, 2) <= 1u64 << 62) by (bit_vector);
    assert(1u64 << 62 == 4611686018427387904) by (bit_vector);
}
proof fn lemma_mul8(m: u64)
    requires m_ok(m)
    ensures m % 8 == 0
{
    assert(m >= 8 && m & sub(m, 1) == 0 ==> m % 8 == 0) by (bit_vector);
}
proof fn lemma_shl(x: usize)
    requires x < 8
    ensures 1u8 << x == 1u8 << (x as u8)
{
    assert(x < 8 ==> 1u8 << x == 1u8 << (x as u8)) by (bit_vector);
}
proof fn lemma_uniq(a: u64, b: u64)
    requires m_ok(a), m_ok(b), a <= b, b / 2 < a
    ensures a == b
{
    assert(a & sub(a, 1) == 0 && b & sub(b, 1) == 0 && a > 0 && a <= b && b / 2 < a ==> a == b) by (bit_vector);
}
proof fn lemma_consts()
    ensures 1u64 << 62 == 4611686018427387904, m_ok(8), 1u64 << 58 == 288230376151711744
{
    assert(8u64 & sub(8u64, 1) == 0) by (bit_vector); assert(1u64 << 62 == 4611686018427387904) by (bit_vector);
    assert(1u64 << 58 == 288230376151711744) by (bit_vector);
}
proof fn lemma_usize(x: u64)
    ensures (x as usize) as u64 == x, ((x as usize) >> 3) as u64 == x >> 3, ((x as usize) & 7) as u64 == x & 7, (x & 7) < 8, x >> 3 == x / 8
{
    let y = x as usize;
    assert(((x as usize) >> 3) as u64 == x >> 3) by (bit_vector);
    assert(((x as usize) & 7) as u64 == x & 7) by (bit_vector);
    assert((x & 7) < 8) by (bit_vector);
    assert(x >> 3 == x / 8) by (bit_vector);
}
// any starting power of two up to num is as good as 8
spec fn enough(i: u64, num: u64) -> bool { m_ok(i) && (i == 8 || i / 2 < num) }

//@extract common/utils/src/bloom_filter.rs BloomFilter::pow2
@header impl BloomFilter
@ret r
@loops 1
@spec
    requires num <= 1u64 << 61
    ensures r >= num, enough(r, num), m_ok(num) ==> r == num, r <= 2305843009213693952
@loop 0
    invariant num <= 2305843009213693952, enough(i, num), i <= 4611686018427387904, 
    decreases 4611686018427387904 - i
@at start
    proof { lemma_consts(); assert(1u64 << 61 == 2305843009213693952) by (bit_vector); }
@at loop-start 0
    proof { lemma_consts(); lemma_double(i); if i >= num && m_ok(num) { lemma_uniq(num, i); } }
@at after-loop 0
    proof { lemma_consts(); assert(false); }
@end

//@extract common/utils/src/bloom_filter.rs BloomFilter::new
@header impl BloomFilter
@ret r
@spec
    requires m <= 1u64 << 40
    ensures r.wf(), r.mask + 1 >= m, forall|i: u64| i <= r.mask ==> !#[trigger] bit(r.b@, i)
@at start
    proof { lemma_consts(); assert(1u64 << 40 == 1099511627776) by (bit_vector); assert(1u64 << 61 == 2305843009213693952) by (bit_vector); }
@at tail
    proof { lemma_consts(); lemma_usize(m); lemma_mul8(m); assert forall|i: u64| i <= m - 1 implies !#[trigger] bit(b@, i) by { lemma_loc(i, (m - 1) as u64, b@.len() as int); let s = (i & 7) as u8; assert(0u8 & (1u8 << s) == 0) by (bit_vector); } }
@end

//@extract common/utils/src/bloom_filter.rs BloomFilter::bytes
@header impl BloomFilter
@ret r
@spec
    ensures r@ == self.b@
@end

//@extract common/utils/src/bloom_filter.rs BloomFilter::with_data
@header impl BloomFilter
@ret r
@spec
    requires data@.len() <= 1u64 << 40
    ensures r.wf(),
       // reloading the bytes of a filter gives back that filter
       m_ok((data@.len() * 8) as u64) ==> r.b@ == data@,
       r.b@.len() >= data@.len(), r.b@.take(data@.len() as int) == data@,
@at start
    proof { lemma_consts(); assert(1u64 << 40 == 1099511627776) by (bit_vector); assert(1u64 << 61 == 2305843009213693952) by (bit_vector);
            let n = data@.len() as u64; assert(n <= 1u64 << 40 ==> (n << 3) == mul(n, 8)) by (bit_vector); assert(n << 3 == n * 8); }
@at tail
    proof { lemma_usize(m); lemma_mul8(m); assert(b@.take(data@.len() as int) =~= data@); if m_ok((data@.len() * 8) as u64) { assert(b@ =~= data@); } }
@end

//@extract common/utils/src/bloom_filter.rs BloomFilter::location
@header impl BloomFilter
@ret r
@spec
    ensures r == hash & self.mask
@end

//@extract common/utils/src/bloom_filter.rs BloomFilter::insert
@header impl BloomFilter
@loops 1
@subst /for hasher in Self::hashers\(\)\.iter_mut\(\)/ => let mut hashers = Self::hashers(); for hasher in hashers.iter_mut()
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).mask == old(self).mask,
        // the item is in, and nothing that was in is lost
        has(final(self).b@, final(self).mask, data@),
        forall|d: Seq<u8>| has(old(self).b@, old(self).mask, d) ==> #[trigger] has(final(self).b@, final(self).mask, d),
@iter 0 it
@loop 0
    invariant self.wf(), self.mask == old(self).mask, it.seq().len() == fresh().len(),
       forall|k: int| 0 <= k < fresh().len() ==> (*(#[trigger] it.seq()[k])).id == fresh()[k].id && absorbed(*it.seq()[k]) == Seq::<u8>::empty(),
       forall|k: int| 0 <= k < it.index@ ==> bit(self.b@, #[trigger] h(data@, k) & self.mask),
       forall|i: u64| i <= self.mask && bit(old(self).b@, i) ==> #[trigger] bit(self.b@, i),
@at loop-start 0
    let ghost pre = self.b@;
    let ghost kk = it.index@;
    let ghost loc0 = h(data@, kk) & self.mask;
    proof { lemma_usize(loc0); lemma_shl((loc0 as usize) & 7); lemma_and(h(data@, kk), self.mask); lemma_loc(loc0, self.mask, self.b@.len() as int); lemma_update(self.b@, loc0);
        assert(Seq::<u8>::empty() + data@ =~= data@);
        assert forall|k: int| 0 <= k < fresh().len() implies (#[trigger] h(data@, k) & self.mask) <= self.mask && ((h(data@, k) & self.mask) >> 3) < self.b@.len() by
          { lemma_and(h(data@, k), self.mask); lemma_loc(h(data@, k) & self.mask, self.mask, self.b@.len() as int); }
        assert forall|i: u64| i <= self.mask implies (#[trigger] (i >> 3)) < self.b@.len() by { lemma_loc(i, self.mask, self.b@.len() as int); }
    }
@at loop-end 0
    proof { assert(loc == loc0); assert(self.b@ =~= pre.update((loc0 >> 3) as int, pre[(loc0 >> 3) as int] | (1u8 << ((loc0 & 7) as u8)))); }
@at end
    proof {
        assert forall|d: Seq<u8>| has(old(self).b@, old(self).mask, d) implies #[trigger] has(self.b@, self.mask, d) by {
            assert forall|k: int| 0 <= k < fresh().len() implies bit(self.b@, #[trigger] h(d, k) & self.mask) by { lemma_and(h(d, k), self.mask); assert(bit(old(self).b@, h(d, k) & self.mask)); }
        }
    }
@end

//@extract common/utils/src/bloom_filter.rs BloomFilter::maybe_contains
@header impl BloomFilter
@ret r
@loops 1
@subst /for hasher in Self::hashers\(\)\.iter_mut\(\)/ => let mut hashers = Self::hashers(); for hasher in hashers.iter_mut()
@spec
    requires self.wf()
    ensures r == has(self.b@, self.mask, data@)
@iter 0 it
@loop 0
    invariant self.wf(), it.seq().len() == fresh().len(),
       forall|k: int| 0 <= k < fresh().len() ==> (*(#[trigger] it.seq()[k])).id == fresh()[k].id && absorbed(*it.seq()[k]) == Seq::<u8>::empty(),
       forall|k: int| 0 <= k < it.index@ ==> bit(self.b@, #[trigger] h(data@, k) & self.mask),
@at loop-start 0
    proof { let kk = it.index@; let loc0 = h(data@, kk) & self.mask; lemma_usize(loc0); lemma_shl((loc0 as usize) & 7); assert(0 <= kk < fresh().len()); lemma_and(h(data@, kk), self.mask); lemma_usize(h(data@, kk) & self.mask); lemma_loc(h(data@, kk) & self.mask, self.mask, self.b@.len() as int); assert(Seq::<u8>::empty() + data@ =~= data@); }
@end
//@helpers

// the property: insert, write the bytes out, read them back, ask
fn no_false_negative(f: &mut BloomFilter, item: &[u8], other: &[u8]) -> (r: (bool, bool))
    requires old(f).wf(), old(f).b@.len() <= 1u64 << 40
    ensures r.0, has(old(f).b@, old(f).mask, other@) ==> r.1
{
    f.insert(item);
    proof { assert(f.wf()); }
    let g = BloomFilter::with_data(f.bytes());
    proof { assert(g.b@ == f.b@); assert(g.mask == f.mask); }
    (g.maybe_contains(item), g.maybe_contains(other))
}
}
