// ---- 64-bit casts and wrapping sums ----
proof fn cast_u64_i64(x: u64)
  ensures (x as i64) as int == (if x < 0x8000_0000_0000_0000u64 { x as int } else { x - 0x1_0000_0000_0000_0000 }), ((x as i64) as u64) == x
{
  assert((x as i64) as u64 == x) by (bit_vector);
  if x >= 0x8000_0000_0000_0000u64 {
    let y = (x - 0x8000_0000_0000_0000u64) as u64;
    assert((x as i64) == add((y as i64), i64::MIN)) by (bit_vector) requires x >= 0x8000_0000_0000_0000u64, y == sub(x, 0x8000_0000_0000_0000u64);
  }
}
proof fn cast_i64_u64(a: i64)
  ensures (a as u64) as int == (if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 }), ((a as u64) as i64) == a
{
  assert(((a as u64) as i64) == a) by (bit_vector);
  cast_u64_i64(a as u64);
}
spec fn wadd(a: i64, b: i64) -> i64 {
    let s = a + b;
    if s > i64::MAX { (s - 0x1_0000_0000_0000_0000) as i64 } else if s < i64::MIN { (s + 0x1_0000_0000_0000_0000) as i64 } else { s as i64 }
}
spec fn wdiff(a: u64, b: u64) -> u64 { if a >= b { (a - b) as u64 } else { (a - b + 0x1_0000_0000_0000_0000) as u64 } }
proof fn lemma_wdiff(a: i64, b: i64) ensures wadd(b, wdiff(a as u64, b as u64) as i64) == a
{ cast_i64_u64(a); cast_i64_u64(b); cast_u64_i64(wdiff(a as u64, b as u64)); }
spec fn psum(ds: Seq<i64>, k: int) -> i64 decreases k { if k <= 0 { ds[0] } else { wadd(psum(ds, k - 1), ds[k]) } }
spec fn sums(ds: Seq<i64>) -> Seq<i64> { Seq::new(ds.len(), |k: int| psum(ds, k)) }
// the differences of a list of values: the first value, then each step
spec fn steps(v: Seq<i64>) -> Seq<i64> { Seq::new(v.len(), |k: int| if k == 0 { v[0] } else { wdiff(v[k] as u64, v[k - 1] as u64) as i64 }) }
proof fn lemma_psum(v: Seq<i64>, k: int) requires 0 <= k < v.len() ensures psum(steps(v), k) == v[k] decreases k
{ if k > 0 { lemma_psum(v, k - 1); lemma_wdiff(v[k], v[k - 1]); } }
proof fn lemma_sums(v: Seq<i64>) ensures sums(steps(v)) == v
{ assert forall|k: int| 0 <= k < v.len() implies sums(steps(v))[k] == v[k] by { lemma_psum(v, k); } assert(sums(steps(v)) =~= v); }

// src.iter().map(f).collect()
fn map_vec<A: Copy, B, F: Fn(A) -> B>(a: &[A], f: F) -> (r: Vec<B>)
    requires forall|x: A| f.requires((x,))
    ensures r.len() == a.len(), forall|k: int| 0 <= k < a.len() ==> f.ensures((#[trigger] a@[k],), r@[k])
{
    let mut r = Vec::new(); let mut n: usize = 0;
    while n < a.len()
        invariant n <= a.len(), r.len() == n, forall|x: A| f.requires((x,)), forall|k: int| 0 <= k < n ==> f.ensures((#[trigger] a@[k],), r@[k])
        decreases a.len() - n
    { r.push(f(a[n])); n += 1; }
    r
}
//@include varint.inc
// Vec::capacity / Vec::reserve_exact: room only, the contents stay
uninterp spec fn vcap(v: Vec<u8>) -> usize;
#[verifier::external_body]
fn cap_of(v: &Vec<u8>) -> (r: usize) ensures r == vcap(*v) { v.capacity() }
#[verifier::external_body]
fn reserve(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ { v.reserve_exact(n) }
