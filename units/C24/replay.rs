//@prelude
use std::collections::hash_map::DefaultHasher; use std::fmt::Debug; use std::hash::{Hash, Hasher}; use std::num::NonZeroUsize; use std::collections::HashMap;
use lru::LruCache; use rand::RngCore; use parking_lot::{Mutex, MutexGuard};
fn join_all<I: Iterator>(i: I) -> Vec<I::Item> { i.collect() }
//@extract common/cache/src/lib.rs const NUM_SHARD_BITS
@end
//@extract common/cache/src/lib.rs const NUM_SHARDS
@end
//@extract common/cache/src/lib.rs fn per_shard
@end
//@extract common/cache/src/lib.rs fn shard
@end
//@extract common/cache/src/lib.rs trait Cache
@end
//@extract common/cache/src/lru_cache/mod.rs struct LruWrap
@derive Debug
@end
//@extract common/cache/src/lru_cache/mod.rs impl LruWrap
@end
//@extract common/cache/src/lru_cache/mod.rs impl Cache for LruWrap
@end
mod sync_side {
use super::*;
//@extract common/cache/src/sync_cache.rs trait SyncCache
@end
//@extract common/cache/src/sync_cache.rs struct SyncCacheWrap
@derive Debug
@end
//@extract common/cache/src/sync_cache.rs impl SyncCacheWrap
@end
//@extract common/cache/src/sync_cache.rs impl SyncCache for SyncCacheWrap
@end
//@extract common/cache/src/sharded_sync_cache.rs struct ShardedSyncCache
@derive Debug
@end
//@extract common/cache/src/sharded_sync_cache.rs impl ShardedSyncCache
@end
//@extract common/cache/src/sharded_sync_cache.rs impl SyncCache for ShardedSyncCache
@end
//@helpers
}
use sync_side::*;
mod async_side {
use super::*;
//@extract common/cache/src/async_cache.rs trait AsyncCache
@end
//@extract common/cache/src/sharded_async_cache.rs struct ShardedAsyncCache
@derive Debug
@end
//@extract common/cache/src/sharded_async_cache.rs impl ShardedAsyncCache
@end
//@extract common/cache/src/sharded_async_cache.rs impl AsyncCache for ShardedAsyncCache
@end
//@helpers
}
use async_side::*;
#[derive(Clone, Copy, Debug, Hash)]
enum Op { Ins(u64, u64), Get(u64), Rem(u64), Pop, Cap(usize), Clear, PopShard(u64), InsShard(u64, u64) }
// reference: one exact LRU map per shard
struct Lru { cap: usize, q: Vec<(u64, u64)> }
impl Lru {
    fn ins(&mut self, k: u64, v: u64) -> Option<u64> {
        if let Some(i) = self.q.iter().position(|e| e.0 == k) { let o = self.q.remove(i); self.q.push((k, v)); return Some(o.1); }
        if self.q.len() == self.cap { self.q.remove(0); }
        self.q.push((k, v)); None
    }
    fn get(&mut self, k: u64) -> Option<u64> { let i = self.q.iter().position(|e| e.0 == k)?; let e = self.q.remove(i); self.q.push(e); Some(e.1) }
    fn rem(&mut self, k: u64) -> Option<u64> { let i = self.q.iter().position(|e| e.0 == k)?; Some(self.q.remove(i).1) }
    fn cap(&mut self, c: usize) { self.cap = c; while self.q.len() > c { self.q.remove(0); } }
}
fn ceil(c: usize) -> usize { ((c + 15) / 16).max(1) }
fn run(cap: usize, ops: &[Op], is_async: bool) -> Result<(), String> {
    let s: ShardedSyncCache<u64, u64> = ShardedSyncCache::create_lru_sharded_cache(cap);
    let a: ShardedAsyncCache<u64, u64> = ShardedAsyncCache::create_lru_sharded_cache(cap);
    let mut m: Vec<Lru> = (0..16).map(|_| Lru { cap: ceil(cap), q: vec![] }).collect();
    let mut latest: HashMap<u64, u64> = HashMap::new();
    let sh = |k: u64| { let mut d = DefaultHasher::new(); k.hash(&mut d); d.finish() as usize % 16 };
    for (i, o) in ops.iter().enumerate() {
        let bad = |what: String| Err(format!("op {i} {o:?}: {what}"));
        match *o {
            Op::Ins(k, v) => { latest.insert(k, v); let g = if is_async { a.insert(k, v) } else { s.insert(k, v) }; let w = m[sh(k)].ins(k, v); if g != w { return bad(format!("returned {g:?}, must be {w:?}")); } }
            Op::Get(k) => { let g = if is_async { a.get(&k) } else { s.get(&k) }; let w = m[sh(k)].get(k);
                if g.is_some() && g != latest.get(&k).copied() { return bad(format!("returned the stale or foreign value {g:?}")); }
                if g != w { return bad(format!("returned {g:?}, must be {w:?}")); } }
            Op::Rem(k) => { let g = if is_async { a.remove(&k) } else { s.remove(&k) }; let w = m[sh(k)].rem(k); latest.remove(&k); if g != w { return bad(format!("returned {g:?}, must be {w:?}")); } }
            Op::Pop => {
                let g = if is_async { a.pop() } else { s.pop() };
                match g {
                    None => if m.iter().any(|x| !x.q.is_empty()) { return bad("popped nothing although entries are there".into()); }
                    Some((k, v)) => { let x = &mut m[sh(k)]; if x.q.first() != Some(&(k, v)) { return bad(format!("popped {k}={v}, not the oldest entry of its shard")); } x.q.remove(0); latest.remove(&k); }
                }
            }
            Op::PopShard(k) => { let g = if is_async { a.pop_shard(&k) } else { s.pop_shard(&k) }; let x = &mut m[sh(k)]; let w = if x.q.is_empty() { None } else { Some(x.q.remove(0)) }; if g != w { return bad(format!("returned {g:?}, must be {w:?}")); } if let Some(e) = w { latest.remove(&e.0); } }
            Op::InsShard(k, v) => { latest.insert(k, v); let g = if is_async { a.lock_shard(&k).and_then(|mut x| x.insert(k, v)) } else { s.shard(&k).and_then(|x| x.insert(k, v)) }; let w = m[sh(k)].ins(k, v); if g != w { return bad(format!("returned {g:?}, must be {w:?}")); } }
            Op::Cap(c) => { let c = NonZeroUsize::new(c).unwrap(); if is_async { a.set_capacity(c) } else { s.set_capacity(c) }; for x in &mut m { x.cap(ceil(c.get())); } }
            Op::Clear => { if is_async { a.clear() } else { s.clear() }; for x in &mut m { x.q.clear(); } latest.clear(); }
        }
        let (u, c) = if is_async { (a.get_usage(), a.get_capacity()) } else { (s.get_usage(), s.get_capacity()) };
        let (wu, wc) = (m.iter().map(|x| x.q.len()).sum::<usize>(), m.iter().map(|x| x.cap).sum::<usize>());
        if u != wu || c != wc { return bad(format!("usage {u} capacity {c}, must be {wu} {wc}")); }
    }
    Ok(())
}
fn main() {
    let mut h = H::new(); let mut r = h.rng(24);
    let top = h.scale(400, 4000) as usize;
    for cap in 0..top { for n in 1..=40usize {
        h.case("per_shard", hash(&(cap, n)), &|| format!("capacity {cap} over {n} shards"), &mut || { let p = per_shard(cap, n).get(); if p == ((cap + n - 1) / n).max(1) { Ok(()) } else { Err(format!("{p} per shard")) } });
    } }
    h.exhaustive(&format!("per_shard for all capacities below {top} over 1..=40 shards"));
    for n in 0..h.scale(6_000, 300_000) {
        let cap = match n % 4 { 0 => 1 + r.below(16), 1 => 1 + r.below(64), 2 => r.below(200), _ => 17 } as usize;
        let keys = 1 + r.below(60); let len = 1 + r.below(80);
        let ops: Vec<Op> = (0..len).map(|_| { let (k, v) = (r.below(keys), r.next()); match r.below(16) { 0..=6 => Op::Ins(k, v), 7..=9 => Op::Get(k), 10 => Op::Rem(k), 11 | 12 => Op::Pop, 13 => if r.chance(1, 3) { Op::Cap(1 + r.below(80) as usize) } else { Op::Get(k) }, 14 => Op::PopShard(k), _ => if r.chance(1, 12) { Op::Clear } else { Op::InsShard(k, v) } } }).collect();
        let is_async = r.chance(1, 2);
        h.case("history", hash(&(cap, &ops, is_async)), &|| format!("{} capacity {cap} {ops:?}", if is_async { "async" } else { "sync" }), &mut || run(cap, &ops, is_async));
    }
    h.done();
}
