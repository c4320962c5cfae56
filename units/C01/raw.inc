// ---- integers and timestamps stored without compression ----
struct Chunks<'a> { s: &'a [u8], p: usize }
impl<'a> Chunks<'a> {
    // s.chunks(8).next()
    fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).s.len() % 8 == 0, old(self).p % 8 == 0, old(self).p <= old(self).s.len()
        ensures final(self).s == old(self).s, final(self).p % 8 == 0, final(self).p <= final(self).s.len(),
           old(self).p == old(self).s.len() ==> r is None && final(self).p == old(self).p,
           old(self).p < old(self).s.len() ==> final(self).p == old(self).p + 8 && r is Some && r->0@ == old(self).s@.subrange(old(self).p as int, old(self).p + 8)
    { if self.p < self.s.len() { let x = &self.s[self.p..self.p + 8]; self.p = self.p + 8; Some(x) } else { None } }
}
// byte_utils::decode_be_i64 (a pointer cast of an 8-byte slice)
#[verifier::external_body]
fn decode_be_i64(s: &[u8]) -> (r: i64) requires s.len() == 8 ensures r == unbe64(s@) as i64 { unimplemented!() }
fn put_be_i64(d: &mut Vec<u8>, v: i64) ensures final(d)@ == old(d)@ + be64(v as u64)
{ let b = to_be8(v as u64); d.extend_from_slice(&b); assert(d@ =~= old(d)@ + be64(v as u64)); }
spec fn raws(b: Seq<u8>) -> Seq<i64> { Seq::new(b.len() / 8, |k: int| unbe64(b.subrange(8 * k, 8 * k + 8)) as i64) }
proof fn lemma_raw_push(b: Seq<u8>, x: i64)
    requires b.len() % 8 == 0 ensures (b + be64(x as u64)).len() % 8 == 0, raws(b + be64(x as u64)) =~= raws(b).push(x)
{
    let c = b + be64(x as u64); lemma_be(x as u64); cast_i64_u64(x);
    let n = b.len() / 8;
    assert(c.subrange(8 * n as int, 8 * n as int + 8) =~= be64(x as u64));
    assert forall|k: int| 0 <= k < n implies raws(c)[k] == raws(b)[k] by { assert(c.subrange(8 * k, 8 * k + 8) =~= b.subrange(8 * k, 8 * k + 8)); }
}

//@extract tskv/src/tsm/codec/timestamp.rs fn ts_without_compress_encode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /(\w+)\.extend_from_slice\((\w+)\.to_be_bytes\(\)\.as_slice\(\)\)/ => put_be_i64(\1, *\2)
@loops 1
@spec
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@,
      src.len() > 0 ==> final(dst).len() == old(dst).len() + 1 + 8 * src.len() && final(dst)@.take(old(dst).len() as int) == old(dst)@
         && final(dst)@[old(dst).len() as int] == Encoding::Null && raws(final(dst)@.skip(old(dst).len() + 1)) == src@
@iter 0 it
@at before-loop 0
    let ghost d0 = old(dst)@; let ghost n = d0.len() + 1;
    proof { assert(raws(dst@.skip(n as int)) =~= Seq::<i64>::empty()); assert(dst@.take(d0.len() as int) =~= d0); }
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k],
      n == d0.len() + 1, dst.len() == n + 8 * it.index@, dst@.take(d0.len() as int) == d0, dst@[d0.len() as int] == Encoding::Null,
      raws(dst@.skip(n as int)) =~= src@.take(it.index@)
@at loop-start 0
    let ghost e = dst@;
    proof { lemma_raw_push(e.skip(n as int), *i); lemma_be(*i as u64);
      assert((e + be64(*i as u64)).skip(n as int) =~= e.skip(n as int) + be64(*i as u64));
      assert((e + be64(*i as u64)).take(d0.len() as int) =~= e.take(d0.len() as int));
      assert(src@.take(it.index@ + 1) =~= src@.take(it.index@).push(*i)); }
@at after-loop 0
    proof { assert(src@.take(src@.len() as int) =~= src@); }
@end

//@extract tskv/src/tsm/codec/timestamp.rs fn ts_without_compress_decode_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.chunks\(8\)/ => Chunks { s: \1, p: 0 }
@loops 1
@spec
    requires src.len() > 0 ==> (src.len() - 1) % 8 == 0 && (src.len() - 1) / 8 >= bit_set.n(), src.len() == 0 ==> bit_set.n() == 0
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, raws(src@.skip(1)))
@at start
    let ghost bits = bit_set.bits@; let ghost vals = raws(src@.skip(1));
    proof { if src.len() == 0 { lemma_all_null(bits, vals); } }
@loop 0
    invariant nx <= bits.len(), bits == bit_set.bits@, src@.len() % 8 == 0, vals == raws(src@), iter.s == src, iter.p == 8 * nv(bits, nx as int), iter.p <= src.len(),
      builder.v@ =~= spread(bits, vals).take(nx as int), vals.len() >= nv(bits, bits.len() as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); }
@end
