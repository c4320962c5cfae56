//@prelude
use std::collections::HashMap;
use std::collections::VecDeque;
use std::fmt::{Debug, Display};
//@extract common/cache/src/circular_kvcache.rs struct CircularBuffer
@end
//@extract common/cache/src/circular_kvcache.rs struct CircularKVCache
@end
//@extract common/cache/src/circular_kvcache.rs impl CircularBuffer
@end
//@extract common/cache/src/circular_kvcache.rs impl CircularKVCache
@end
//@helpers
#[derive(Clone, Copy, Debug, Hash)]
enum Op { Put(u64, u64), Before(u64), After(u64) }
// the contract, executable: insertion order + values
struct M { cap: usize, q: VecDeque<(u64, u64)> }
impl M {
    fn run(&mut self, o: Op) {
        match o {
            Op::Put(k, v) => {
                if let Some(e) = self.q.iter_mut().find(|e| e.0 == k) { e.1 = v; return; }
                if self.q.len() == self.cap { self.q.pop_front(); }
                self.q.push_back((k, v));
            }
            Op::Before(k) => { while self.q.front().map_or(false, |e| e.0 < k) { self.q.pop_front(); } }
            Op::After(k) => { while self.q.back().map_or(false, |e| e.0 >= k) { self.q.pop_back(); } }
        }
    }
}
fn check(cap: usize, ops: &[Op], keys: u64) -> Result<(), String> {
    let mut c: CircularKVCache<u64, u64> = CircularKVCache::new(cap);
    let mut m = M { cap, q: VecDeque::new() };
    for (i, o) in ops.iter().enumerate() {
        match *o { Op::Put(k, v) => c.put(k, v), Op::Before(k) => c.del_before(k), Op::After(k) => c.del_after(k) }
        m.run(*o);
        for k in 0..keys {
            let (g, w) = (c.get(&k).copied(), m.q.iter().find(|e| e.0 == k).map(|e| e.1));
            if g != w { return Err(format!("after op {i} {o:?}: get({k}) = {g:?}, must be {w:?}")); }
        }
        let (g, w) = (c.last().copied(), m.q.back().map(|e| e.1));
        if g != w { return Err(format!("after op {i} {o:?}: last() = {g:?}, must be {w:?}")); }
    }
    Ok(())
}
fn main() {
    let mut h = H::new();
    // keys are put in ascending order (how the raft log uses it), re-put, and cut from both ends
    let mut r = h.rng(18);
    for n in 0..h.scale(6_000, 200_000) {
        let cap = if n % 50 == 49 { 256 } else { 2 + r.below(7) as usize };
        let len = if cap == 256 { 600 } else { 1 + r.below(40) };
        let (mut next, mut ops) = (1u64, vec![]);
        for _ in 0..len {
            let v = r.next();
            ops.push(match r.below(if cap == 256 { 40 } else { 12 }) {
                0 => Op::Before(r.below(next + 2)),
                1 => { let k = 1 + r.below(next + 1); next = k.min(next); Op::After(k) }
                2 if next > 1 => Op::Put(next - 1, v),
                _ => { let k = next; next += 1 + r.below(2) * r.below(2); Op::Put(k, v) }
            });
        }
        h.case("circular_kvcache", hash(&(cap, format!("{ops:?}"))), &|| format!("capacity {cap}, {ops:?}"), &mut || check(cap, &ops, next + 2));
    }
    // keys stored in any order (no cuts, which are for ascending keys)
    for n in 0..h.scale(4_000, 100_000) {
        let cap = 1 + r.below(6) as usize; let keys = 2 + r.below(9);
        let ops: Vec<Op> = (0..1 + r.below(30)).map(|_| { let k = 1 + r.below(keys); Op::Put(k, r.next()) }).collect();
        h.case("circular_kvcache", hash(&(n, cap, format!("{ops:?}"))), &|| format!("capacity {cap}, {ops:?}"), &mut || check(cap, &ops, keys + 2));
    }
    // every op sequence of length <= 6 at capacity 2 and 3 over keys appended in order
    let depth = h.scale(6, 8) as u32;
    for cap in [2usize, 3] { for code in 0..4u64.pow(depth) {
        let (mut next, mut ops, mut c) = (1u64, vec![], code);
        for i in 0..depth {
            let w = c % 4; c /= 4;
            ops.push(match w { 0 | 1 => { next += 1; Op::Put(next - 1, 10 * next + w) } 2 => Op::Before(next.saturating_sub(1 + i as u64 % 2)), _ => { let k = next.saturating_sub(1 + i as u64 % 2); next = k.max(1); Op::After(k) } });
        }
        h.case("circular_kvcache", hash(&(cap, code)), &|| format!("capacity {cap}, {ops:?}"), &mut || check(cap, &ops, next + 2));
    } }
    h.exhaustive("op sequences over {put, put, del_before, del_after} of the depth run at capacities 2 and 3");
    h.done();
}
