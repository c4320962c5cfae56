use vstd::prelude::*;
use std::num::NonZeroUsize;
verus! {
global size_of usize == 8;
type K = u64;      // keys and values are opaque
type V = u64;
// ---- hashing: a function of the key ------------------------------------------------------
uninterp spec fn h(k: K) -> u64;
struct DefaultHasher { x: u64 }
impl DefaultHasher {
    uninterp spec fn absorbed(&self) -> Seq<K>;
    #[verifier::external_body]
    fn new() -> (r: DefaultHasher) ensures r.absorbed() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn finish(&self) -> (r: u64) ensures self.absorbed().len() == 1 ==> r == h(self.absorbed()[0]) { unimplemented!() }
}
trait HashTo { fn hash(&self, s: &mut DefaultHasher); }
impl HashTo for u64 {
    #[verifier::external_body]
    fn hash(&self, s: &mut DefaultHasher) ensures final(s).absorbed() == old(s).absorbed().push(*self) { unimplemented!() }
}
//@extract common/cache/src/lib.rs const NUM_SHARD_BITS
@end
//@extract common/cache/src/lib.rs const NUM_SHARDS
@subst /const NUM_SHARDS: usize = (1 << NUM_SHARD_BITS);/ => exec const NUM_SHARDS: usize ensures NUM_SHARDS >= 1, NUM_SHARDS <= 4096 { proof { assert((1usize << 4usize) == 16) by (bit_vector); } \1 }
@subst /const NUM_SHARDS: usize = (1 << NUM_SHARD_BITS);/ => exec const NUM_SHARDS: usize ensures NUM_SHARDS >= 1, NUM_SHARDS <= 4096 { \1 }
@end
#[verifier::external_body]
fn nonzero(x: usize) -> (r: usize) ensures r == (if x == 0 { 1 } else { x }) { unimplemented!() }
// the shards together hold at least what was asked for, and less than one extra entry per shard
//@extract common/cache/src/lib.rs fn per_shard
@ret r
@subst /-> NonZeroUsize/ => -> usize
@subst /NonZeroUsize::new\(per_shard\)\.unwrap_or\(unsafe \{ NonZeroUsize::new_unchecked\(1\) \}\)/ => nonzero(per_shard)
@spec
    requires shard_len > 0, capacity + shard_len <= usize::MAX
    ensures r >= 1, r * shard_len >= capacity, capacity >= 1 ==> r * shard_len < capacity + shard_len
@at start
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(capacity + shard_len - 1, shard_len as int);
        let q = (capacity + shard_len - 1) / shard_len as int;
        let m = (capacity + shard_len - 1) % shard_len as int;
        assert(q * shard_len == capacity + shard_len - 1 - m) by (nonlinear_arith) requires shard_len * q + m == capacity + shard_len - 1;
        assert(q >= 1 || capacity == 0) by (nonlinear_arith) requires q * shard_len == capacity + shard_len - 1 - m, m < shard_len;
    }
@end
spec fn idx(k: K, n: int) -> int { (h(k) as usize) as int % n }
//@extract common/cache/src/lib.rs fn shard
@ret r
@subst /shard<K: Hash>/ => shard
@subst /debug_assert!\(([^;]*)\);/ => assert(\1);
@spec
    requires shard_len > 0
    ensures r == idx(*key, shard_len as int), r < shard_len
@end

// ---- a shard: a handle whose operations are recorded as an uninterpreted relation ---------
enum Op { Insert(K, V), Get(K), Remove(K) }
struct Shard { id: u64 }
uninterp spec fn did(shard: u64, op: Op, result: Option<V>) -> bool;
uninterp spec fn popped(shard: u64, result: Option<(K, V)>) -> bool;
uninterp spec fn usage(shard: u64) -> usize;
impl Shard {
    #[verifier::external_body]
    fn insert(&self, key: K, value: V) -> (r: Option<V>) ensures did(self.id, Op::Insert(key, value), r) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, key: &K) -> (r: Option<V>) ensures did(self.id, Op::Get(*key), r) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&self, key: &K) -> (r: Option<V>) ensures did(self.id, Op::Remove(*key), r) { unimplemented!() }
    // an LRU map that holds something has something to pop
    #[verifier::external_body]
    fn pop(&self) -> (r: Option<(K, V)>) ensures popped(self.id, r), r is None <==> usage(self.id) == 0 { unimplemented!() }
    #[verifier::external_body]
    fn get_usage(&self) -> (r: usize) ensures r == usage(self.id) { unimplemented!() }
    fn lock(&self) -> (r: &Shard) ensures r == self { self }
}
struct Rng { x: u8 }
impl Rng { #[verifier::external_body] fn next_u64(&self) -> u64 { unimplemented!() } }
struct Chosen<'a> { v: Vec<&'a Shard> }
// Vec::iter().filter(f).collect(): the accepted elements
#[verifier::external_body]
fn filtered<'a, F: Fn(&Shard) -> bool>(v: &'a Vec<Shard>, f: F) -> (r: Vec<&'a Shard>)
    requires forall|s: &Shard| f.requires((s,))
    ensures forall|i: int| 0 <= i < r@.len() ==> v@.contains(*(#[trigger] r@[i])) && f.ensures((r@[i],), true),
       r@.len() <= v@.len(),
       r@.len() == 0 ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false)
{ unimplemented!() }
struct ShardedSyncCache { shard: Vec<Shard> }
//@extract common/cache/src/sharded_sync_cache.rs SyncCache for ShardedSyncCache::insert
@header impl ShardedSyncCache
@ret r
@subst /Self::(K|V)/ => \1
@subst /\|a\| (a\.insert\(key, value\))/ => |a: &Shard| -> (q: Option<V>) ensures did(a.id, Op::Insert(key, value), q) { \1 }
@spec
    requires self.shard@.len() > 0
    ensures did(self.shard@[idx(key, self.shard@.len() as int)].id, Op::Insert(key, value), r)
@end
//@extract common/cache/src/sharded_sync_cache.rs SyncCache for ShardedSyncCache::get
@header impl ShardedSyncCache
@ret r
@subst /Self::(K|V)/ => \1
@subst /\|a\| (a\.get\(key\))/ => |a: &Shard| -> (q: Option<V>) ensures did(a.id, Op::Get(*key), q) { \1 }
@spec
    requires self.shard@.len() > 0
    ensures did(self.shard@[idx(*key, self.shard@.len() as int)].id, Op::Get(*key), r)
@end
//@extract common/cache/src/sharded_sync_cache.rs SyncCache for ShardedSyncCache::remove
@header impl ShardedSyncCache
@ret r
@subst /Self::(K|V)/ => \1
@subst /\|a\| (a\.remove\(key\))/ => |a: &Shard| -> (q: Option<V>) ensures did(a.id, Op::Remove(*key), q) { \1 }
@spec
    requires self.shard@.len() > 0
    ensures did(self.shard@[idx(*key, self.shard@.len() as int)].id, Op::Remove(*key), r)
@end
// something is popped whenever some shard holds something
//@extract common/cache/src/sharded_sync_cache.rs SyncCache for ShardedSyncCache::pop
@header impl ShardedSyncCache
@ret r
@subst /Self::(K|V)/ => \1
@subst /self\s*\.shard\s*\.iter\(\)\s*\.filter\(\|s\| (.*?)\)\s*\.collect::<Vec<_>>\(\)/ => filtered(&self.shard, |s: &Shard| -> (q: bool) ensures q == (usage(s.id) != 0) { \1 })
@subst /\.ne\(&0\)/ => != 0
@subst /rand::thread_rng\(\)/ => (Rng { x: 0 })
@spec
    ensures r is None <==> (forall|i: int| 0 <= i < self.shard@.len() ==> usage((#[trigger] self.shard@[i]).id) == 0),
      r is Some ==> exists|i: int| 0 <= i < self.shard@.len() && popped((#[trigger] self.shard@[i]).id, r)
@end
struct ShardedAsyncCache { shard: Vec<Shard> }
//@extract common/cache/src/sharded_async_cache.rs AsyncCache for ShardedAsyncCache::insert
@header impl ShardedAsyncCache
@ret r
@subst /Self::(K|V)/ => \1
@spec
    requires self.shard@.len() > 0
    ensures did(self.shard@[idx(key, self.shard@.len() as int)].id, Op::Insert(key, value), r)
@end
//@extract common/cache/src/sharded_async_cache.rs AsyncCache for ShardedAsyncCache::get
@header impl ShardedAsyncCache
@ret r
@subst /Self::(K|V)/ => \1
@spec
    requires self.shard@.len() > 0
    ensures did(self.shard@[idx(*key, self.shard@.len() as int)].id, Op::Get(*key), r)
@end
//@extract common/cache/src/sharded_async_cache.rs AsyncCache for ShardedAsyncCache::remove
@header impl ShardedAsyncCache
@ret r
@subst /Self::(K|V)/ => \1
@spec
    requires self.shard@.len() > 0
    ensures did(self.shard@[idx(*key, self.shard@.len() as int)].id, Op::Remove(*key), r)
@end
//@extract common/cache/src/sharded_async_cache.rs AsyncCache for ShardedAsyncCache::pop
@header impl ShardedAsyncCache
@ret r
@subst /Self::(K|V)/ => \1
@subst /rand::thread_rng\(\)/ => (Rng { x: 0 })
@loops 1
@iter 0 it
@spec
    requires 0 < self.shard@.len() <= 4096
    ensures r is None <==> (forall|i: int| 0 <= i < self.shard@.len() ==> usage((#[trigger] self.shard@[i]).id) == 0),
      r is Some ==> exists|i: int| 0 <= i < self.shard@.len() && popped((#[trigger] self.shard@[i]).id, r)
@loop 0
    invariant start < self.shard@.len() <= 4096, forall|j: int| 0 <= j < i ==> usage((#[trigger] self.shard@[(start + j) % self.shard@.len() as int]).id) == 0
@at after-loop 0
    proof { assert forall|k: int| 0 <= k < self.shard@.len() implies usage((#[trigger] self.shard@[k]).id) == 0 by {
        let n = self.shard@.len() as int;
        let j = if k >= start { k - start } else { k - start + n };
        assert((start + j) % n == k) by { if k >= start { vstd::arithmetic::div_mod::lemma_small_mod(k as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(k, n); vstd::arithmetic::div_mod::lemma_small_mod(k as nat, n as nat); } }
        assert(usage(self.shard@[(start + j) % n].id) == 0);
    } }
@end
//@helpers
}
