//@prelude
use std::fmt::Debug;
use std::{mem, ptr};
//@extract common/utils/src/dedup.rs fn dedup_front_by_key
@end
//@extract common/utils/src/dedup.rs fn dedup_front_by
@end
//@helpers
use std::cell::RefCell;
thread_local! { static LIVE: RefCell<Vec<u32>> = RefCell::new(vec![]); }
// an element that knows whether it was dropped once, twice or never
#[derive(Debug)]
struct E { key: u64, id: usize }
impl E { fn new(key: u64) -> E { let id = LIVE.with(|l| { let mut l = l.borrow_mut(); l.push(1); l.len() - 1 }); E { key, id } } }
impl Drop for E { fn drop(&mut self) { let id = self.id; LIVE.with(|l| { let mut l = l.borrow_mut(); if let Some(x) = l.get_mut(id) { *x = x.wrapping_sub(1); } }) } }
fn check(keys: &[u64], panic_at: Option<usize>) -> Result<(), String> {
    LIVE.with(|l| l.borrow_mut().clear());
    let mut v: Vec<E> = keys.iter().map(|k| E::new(*k)).collect();
    let mut want: Vec<usize> = vec![];
    for i in 0..keys.len() { if i + 1 == keys.len() || keys[i] != keys[i + 1] { want.push(i); } }
    if let Some(p) = panic_at {
        // the comparison panics part way: nothing may be dropped twice, and the order stays (a leak is allowed)
        let mut n = 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dedup_front_by_key(&mut v, |e| { n += 1; if n == p + 1 { panic!("compare") } e.key })));
        let _ = r;
        let ids: Vec<usize> = v.iter().map(|e| e.id).collect();
        if ids.iter().any(|i| *i >= keys.len()) { std::mem::forget(v); return Err(format!("after a panic at comparison {p} the vector holds garbage")); }
        if !ids.windows(2).all(|w| w[0] < w[1]) { std::mem::forget(v); return Err(format!("after a panic at comparison {p}: elements {ids:?}")); }
        drop(v);
        let c = LIVE.with(|l| l.borrow().clone());
        return if c.iter().all(|x| *x <= 1) { Ok(()) } else { Err(format!("after a panic at comparison {p}: drop balance {c:?}")) };
    }
    dedup_front_by_key(&mut v, |e| e.key);
    let ids: Vec<usize> = v.iter().map(|e| e.id).collect();
    let ks: Vec<u64> = v.iter().map(|e| e.key).collect();
    if ids != want { std::mem::forget(v); return Err(format!("kept positions {ids:?} (keys {ks:?}), must keep {want:?}")); }
    for (i, c) in LIVE.with(|l| l.borrow().clone()).iter().enumerate() {
        if *c != want.contains(&i) as u32 { std::mem::forget(v); return Err(format!("element {i} has drop balance {c}")); }
    }
    drop(v);
    let c = LIVE.with(|l| l.borrow().clone());
    if c.iter().all(|x| *x == 0) { Ok(()) } else { Err(format!("drop balance after the vector is dropped: {c:?}")) }
}
fn main() {
    let mut h = H::new();
    let top = h.scale(8, 11);
    for n in 0..=top { for code in 0..1u64 << (n.max(1) - 1) {
        // every pattern of equal/unequal neighbours
        let mut keys = vec![]; let mut k = 1;
        for i in 0..n { if i > 0 && code >> (i - 1) & 1 == 1 { k += 1; } keys.push(k); }
        h.case("dedup", hash(&keys), &|| format!("keys {keys:?}"), &mut || check(&keys, None));
        for p in 0..(2 * n) as usize { h.case("dedup_panic", hash(&(&keys, p)), &|| format!("keys {keys:?}, comparison key call {p} panics"), &mut || check(&keys, Some(p))); }
    } }
    h.exhaustive(&format!("all equal/unequal neighbour patterns up to {top} elements, with and without a panic at each key call"));
    let mut r = h.rng(16);
    for _ in 0..h.scale(2000, 100_000) {
        let n = r.below(200); let m = 1 + r.below(4);
        let keys: Vec<u64> = (0..n).map(|_| r.below(m)).collect();
        h.case("dedup", hash(&keys), &|| format!("keys {keys:?}"), &mut || check(&keys, None));
    }
    h.done();
}
