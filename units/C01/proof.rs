use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include simple8b.inc
//@include arrays.inc
//@include ints.inc
type ArrayRef = Arc<Int64Array>;

//@extract common/models/src/codec.rs enum Encoding
@subst /enum Encoding \{/ => struct Encoding; impl Encoding {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@subst /#\[default\]/ =>
@end
//@include raw.inc
//@include pco.inc

//@extract tskv/src/tsm/codec/integer.rs enum DeltaEncoding
@subst /enum DeltaEncoding \{/ => struct DeltaEncoding; impl DeltaEncoding {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@end
//@extract tskv/src/tsm/codec/mod.rs const MAX_VAR_INT_64
@end

spec fn zz(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }
spec fn uzz(v: u64) -> i64 { ((v >> 1) ^ ((((v & 1) as i64) << 63) >> 63) as u64) as i64 }
proof fn lemma_zz(v: i64) ensures uzz(zz(v)) == v {
  assert(((((((v << 1) ^ (v >> 63)) as u64) >> 1) ^ (((((((v << 1) ^ (v >> 63)) as u64) & 1) as i64) << 63) >> 63) as u64) as i64) == v) by (bit_vector);
}
//@extract tskv/src/tsm/codec/integer.rs fn zig_zag_encode
@ret r
@spec
    ensures r == zz(v)
@end
//@extract tskv/src/tsm/codec/integer.rs fn zig_zag_decode
@ret r
@spec
    ensures r == uzz(v)
@end
//@extract tskv/src/tsm/codec/integer.rs fn i64_to_u64_vector
@ret r
@subst /(\w+)\.iter\(\)\.map\(\|&(\w+)\| (.+?)\)\.collect\(\)/ => map_vec(\1, |\2: i64| -> (q: u64) ensures q == \2 as u64 { \3 })
@spec
    ensures r.len() == src.len(), forall|k: int| 0 <= k < src.len() ==> #[trigger] r@[k] == src@[k] as u64
@end

// ---- what a block of deltas (the bytes after the codec id) stands for, when n values are read from it ----
spec fn dmap(w: Seq<u64>) -> Seq<i64> { Seq::new(w.len(), |k: int| uzz(w[k])) }
spec fn block(b: Seq<u8>, n: int) -> Seq<i64> {
    if b[0] >> 4 == DeltaEncoding::Uncompressed { dmap(words(b.skip(1))) }
    else if b[0] >> 4 == DeltaEncoding::Rle { Seq::new(n as nat, |k: int| if k == 0 { uzz(unbe64(b.subrange(1, 9))) } else { uzz((var_dec(b.skip(9))->0).0) }) }
    else { Seq::new(1, |k: int| uzz(unbe64(b.subrange(1, 9)))) + dmap(s8(b.skip(9))) }
}
spec fn wf(b: Seq<u8>) -> bool {
    &&& 1 <= b.len() < 0x100_0000_0000
    &&& b[0] >> 4 == DeltaEncoding::Uncompressed ==> b.len() > 1 && (b.len() - 1) % 8 == 0
    &&& b[0] >> 4 == DeltaEncoding::Rle ==> b.len() >= 9 && var_dec(b.skip(9)) is Some
    &&& b[0] >> 4 == DeltaEncoding::Simple8b ==> b.len() >= 9 && (b.len() - 9) % 8 == 0
    &&& b[0] >> 4 == DeltaEncoding::Uncompressed || b[0] >> 4 == DeltaEncoding::Rle || b[0] >> 4 == DeltaEncoding::Simple8b
}

//@extract tskv/src/tsm/codec/integer.rs fn encode_rle
@subst /(\w+)\.extend_from_slice\(&(\w+|\([^()]*\))\.to_be_bytes\(\)\)/ => put_be(\1, \2)
@subst /(\w+)\.encode_var\(&mut (\w+)\[(\w+)\.\.\]\)/ => encode_var_at(\1, \2, \3)
@subst /use [^;]*;/ =>
@spec
    requires old(dst).len() == 1
    ensures final(dst)@ == old(dst)@ + seq![0u8] + be64(v) + var_enc(delta) + var_enc(count), final(dst).len() <= 30
@at start
    let ghost d0 = dst@;
    proof { lemma_be(v); lemma_var(delta, Seq::empty()); lemma_var(count, Seq::empty()); }
@at end
    proof { assert(dst@ =~= d0 + seq![0u8] + be64(v) + var_enc(delta) + var_enc(count)); }
@end

spec fn tags_ok() -> bool {
    DeltaEncoding::Uncompressed < 16 && DeltaEncoding::Rle < 16 && DeltaEncoding::Simple8b < 16 && DeltaEncoding::Uncompressed != DeltaEncoding::Rle
      && DeltaEncoding::Rle != DeltaEncoding::Simple8b && DeltaEncoding::Uncompressed != DeltaEncoding::Simple8b
}
proof fn lemma_tag(t: u8) requires t < 16 ensures (t << 4) >> 4 == t, ((0u8 | (t << 4)) >> 4) == t
{ assert((t << 4) >> 4 == t && ((0u8 | (t << 4)) >> 4) == t) by (bit_vector) requires t < 16; }

//@extract tskv/src/tsm/codec/integer.rs fn i64_zigzag_simple8b_encode
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 3
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /simple8b::/ => 
@subst /(\w+)\.capacity\(\)/ => cap_of(\1)
@subst /(\w+)\.reserve_exact\((.*?)\);/ => reserve(\1, \2);
@subst /for (\w+) in \(1\.\.(\w+)\.len\(\)\)\.rev\(\) \{/ => let mut \1: usize = \2.len(); while \1 > 1 { \1 -= 1;
@subst /for (\w+) in 2\.\.(\w+)\.len\(\) \{/ => let mut ny: usize = 2; while ny < \2.len() { let \1 = ny; ny += 1;
@subst /(\w+)\.extend_from_slice\(&(\w+)\.to_be_bytes\(\)\)/ => put_be(\1, *\2)
@subst /(\w+)\.extend_from_slice\(&(\w+\[\w+\])\.to_be_bytes\(\)\)/ => put_be(\1, \2)
@spec
    requires old(dst).len() == 0, src.len() < 0x800_0000
    ensures r is Ok,
      src.len() == 0 ==> final(dst).len() == 0,
      src.len() > 0 ==> final(dst).len() > 1 && final(dst)@[0] == Encoding::Delta && wf(final(dst)@.skip(1)) && block(final(dst)@.skip(1), src.len() as int) =~= steps(src@)
@at start
    proof { assert(tags_ok()); lemma_tag(DeltaEncoding::Uncompressed); lemma_tag(DeltaEncoding::Rle); lemma_tag(DeltaEncoding::Simple8b);
       assert forall|v: i64| uzz(#[trigger] zz(v)) == v by { lemma_zz(v); } }
@loop 0
    invariant deltas.len() == src.len(), forall|k: int| 0 <= k < src.len() ==> #[trigger] deltas@[k] == if k < i || i == 0 || k == 0 { src@[k] as u64 } else { zz(wdiff(src@[k] as u64, src@[k - 1] as u64) as i64) },
       forall|k: int| i <= k < src.len() && k >= 1 && i >= 1 ==> #[trigger] deltas@[k] <= max, 1 <= i <= src.len() || src.len() == 0
    decreases i
@at before /if deltas.len\(\) > 2/
    let ghost ds = deltas@; let ghost st = steps(src@);
    proof { assert forall|k: int| 0 <= k < src.len() implies #[trigger] ds[k] == zz(st[k]) && uzz(ds[k]) == st[k] by { } 
       assert(dmap(ds) =~= st); }
@loop 1
    invariant 2 <= ny <= deltas.len(), deltas@ == ds, use_rle ==> forall|k: int| 2 <= k < ny ==> #[trigger] ds[k] == ds[1], dst@ == seq![Encoding::Delta]
    decreases deltas.len() - ny
@at after /\(DeltaEncoding::Rle as u8\) << 4;/
    proof { let t = DeltaEncoding::Rle << 4; let b = dst@.skip(1);
       assert(b =~= seq![0u8 | t] + be64(ds[0]) + var_enc(ds[1]) + var_enc((ds.len() - 1) as u64));
       lemma_be(ds[0]); lemma_var(ds[1], b.skip(9));
       assert(b.subrange(1, 9) =~= be64(ds[0]));
       assert(b.skip(9).take(var_enc(ds[1]).len() as int) =~= var_enc(ds[1]));
       assert(block(b, src.len() as int) =~= st); }
@at before-loop 2
    let ghost t = DeltaEncoding::Uncompressed << 4;
    proof { assert(dst@.take(2) =~= seq![Encoding::Delta, t]); assert(words(dst@.skip(2)) =~= ds.take(0)); }
@iter 2 it
@loop 2
    invariant it.seq().len() == ds.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == ds[k],
      dst.len() == 2 + 8 * it.index@, dst@.take(2) == seq![Encoding::Delta, t], words(dst@.skip(2)) =~= ds.take(it.index@)
@at loop-start 2
    let ghost e = dst@;
    proof { lemma_words_push(e.skip(2), *delta); assert((e + be64(*delta)).skip(2) =~= e.skip(2) + be64(*delta)); assert((e + be64(*delta)).take(2) =~= e.take(2));
      assert(ds.take(it.index@ + 1) =~= ds.take(it.index@).push(*delta)); lemma_be(*delta); }
@at after-loop 2
    proof { let b = dst@.skip(1); assert(ds.take(ds.len() as int) =~= ds); assert(b[0] == dst@.take(2)[1]); assert(b.skip(1) =~= dst@.skip(2)); assert(dst@[0] == dst@.take(2)[0]); }
@at before /encode\(&deltas\[1\.\.\]/
    let ghost e1 = dst@;
    proof { assert(e1 =~= seq![Encoding::Delta, DeltaEncoding::Simple8b << 4] + be64(ds[0])); lemma_be(ds[0]); }
@at tail
    proof { let b = dst@.skip(1); 
       assert(dst@.take(10)[1] == e1[1] && dst@.take(10)[0] == e1[0]);
       assert(b.subrange(1, 9) =~= dst@.take(10).subrange(2, 10)); assert(e1.subrange(2, 10) =~= be64(ds[0]));
       assert(b.skip(9) =~= dst@.skip(10));
       assert(s8(b.skip(9)) =~= ds.skip(1));
       assert(block(b, src.len() as int) =~= st); }
@end
proof fn lemma_words_push(b: Seq<u8>, x: u64)
    requires b.len() % 8 == 0 ensures (b + be64(x)).len() % 8 == 0, words(b + be64(x)) =~= words(b).push(x)
{
    let c = b + be64(x); lemma_be(x);
    let n = b.len() / 8;
    assert(c.subrange(8 * n as int, 8 * n as int + 8) =~= be64(x));
    assert forall|k: int| 0 <= k < n implies words(c)[k] == words(b)[k] by { assert(c.subrange(8 * k, 8 * k + 8) =~= b.subrange(8 * k, 8 * k + 8)); }
}

//@extract tskv/src/tsm/codec/integer.rs fn decode_uncompressed_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /u64::from_be_bytes\((\w+)\)/ => from_be8(\1)
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires src.len() > 0, src.len() % 8 == 0, src.len() / 8 >= bit_set.n()
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(dmap(words(src@))))
@at start
    let ghost bits = bit_set.bits@; let ghost ds = dmap(words(src@)); let ghost vals = sums(ds);
    proof { let l = src.len(); assert((l & 0x7) == l % 8) by (bit_vector); }
@loop 0
    invariant nx <= bits.len(), i == 8 * nv(bits, nx as int), i <= src.len(), prev == if i == 0 { 0i64 } else { psum(ds, nv(bits, nx as int) - 1) },
      builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); if i == 0 { assert(wadd(0, ds[0]) == ds[0]); } }
@end

//@extract tskv/src/tsm/codec/integer.rs fn decode_rle_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /u64::from_be_bytes\((\w+)\)/ => from_be8(\1)
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires src.len() >= 8, var_dec(src@.skip(8)) is Some
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(Seq::new(bit_set.n() as nat, |k: int| if k == 0 { uzz(unbe64(src@.subrange(0, 8))) } else { uzz((var_dec(src@.skip(8))->0).0) })))
@at start
    let ghost bits = bit_set.bits@; let ghost n = bit_set.n();
    let ghost ds = Seq::new(n as nat, |k: int| if k == 0 { uzz(unbe64(src@.subrange(0, 8))) } else { uzz((var_dec(src@.skip(8))->0).0) });
    let ghost vals = sums(ds);
    proof { lemma_nv(bits, 0, bits.len() as int); }
@loop 0
    invariant nx <= bits.len(), is_first == (nv(bits, nx as int) == 0), first == if is_first { uzz(unbe64(src@.subrange(0, 8))) } else { psum(ds, nv(bits, nx as int) - 1) },
      builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); lemma_nv(bits, 0, nx as int); }
@end

//@extract tskv/src/tsm/codec/integer.rs fn decode_simple8b_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /u64::from_be_bytes\((\w+)\)/ => from_be8(\1)
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@subst /simple8b::/ => 
@subst /let mut (\w+) = res\.iter\(\);/ => let mut \1: usize = 0;
@subst /(\w+) = res\.iter\(\);/ => \1 = 0;
@subst /= (iter)\.next\(\)/ => = vec_next(&res, &mut \1)
@spec
    requires src.len() >= 8, (src.len() - 8) % 8 == 0, src.len() < 0x100_0000_0000, s8(src@.skip(8)).len() + 1 >= bit_set.n()
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(Seq::new(1, |k: int| uzz(unbe64(src@.subrange(0, 8)))) + dmap(s8(src@.skip(8)))))
@at start
    let ghost bits = bit_set.bits@; let ghost ws = s8(src@.skip(8));
    let ghost ds = Seq::new(1, |k: int| uzz(unbe64(src@.subrange(0, 8)))) + dmap(ws);
    let ghost vals = sums(ds);
    proof { lemma_nv(bits, 0, bits.len() as int); }
@loop 0
    invariant nx <= bits.len(), first_val == (nv(bits, nx as int) == 0), !first_val ==> next == psum(ds, nv(bits, nx as int) - 1) && res@ == ws && iter == nv(bits, nx as int) - 1,
      buf@ == src@.subrange(0, 8), builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); lemma_nv(bits, 0, nx as int); }
@end
// res.iter(), and its next(): the iterator is a position in the vector
fn vec_next<'a>(v: &'a Vec<u64>, p: &mut usize) -> (r: Option<&'a u64>)
    requires *old(p) <= v.len()
    ensures *old(p) < v.len() ==> r is Some && *r->0 == v@[*old(p) as int] && *final(p) == *old(p) + 1, *old(p) == v.len() ==> r is None && *final(p) == *old(p)
{ if *p < v.len() { let x = &v[*p]; *p = *p + 1; Some(x) } else { None } }

//@extract tskv/src/tsm/codec/integer.rs fn i64_zigzag_simple8b_decode_to_array
@ret r
@subst /&(\w+\[\w+\]) >> 4/ => \1 >> 4
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> src.len() > 1 && wf(src@.skip(1)) && block(src@.skip(1), bit_set.n()).len() >= bit_set.n()
    ensures r is Ok, src.len() > 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(block(src@.skip(1), bit_set.n()))),
      src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<i64>::empty())
@at start
    proof { lemma_nv(bit_set.bits@, 0, bit_set.bits@.len() as int); if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<i64>::empty()); } else { let b = src@.skip(1); let c = b.skip(1); assert(c.len() == b.len() - 1);
      if b.len() >= 9 { assert(b.subrange(1, 9) =~= c.subrange(0, 8)); assert(b.skip(9) =~= c.skip(8)); } } }
@end

//@extract tskv/src/tsm/codec/integer.rs fn i64_without_compress_encode
@ret r
@spec
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@,
      src.len() > 0 ==> final(dst).len() == old(dst).len() + 1 + 8 * src.len() && final(dst)@[old(dst).len() as int] == Encoding::Null && raws(final(dst)@.skip(old(dst).len() + 1)) == src@
@end
//@extract tskv/src/tsm/codec/integer.rs fn i64_without_compress_decode_to_array
@ret r
@spec
    requires src.len() > 0 ==> (src.len() - 1) % 8 == 0 && (src.len() - 1) / 8 >= bit_set.n(), src.len() == 0 ==> bit_set.n() == 0
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, raws(src@.skip(1)))
@end

// ---- unsigned integers: the same bits read as i64 ----
spec fn as_signed(v: Seq<u64>) -> Seq<i64> { Seq::new(v.len(), |k: int| v[k] as i64) }
spec fn as_unsigned(v: Seq<Option<i64>>) -> Seq<Option<u64>> { Seq::new(v.len(), |k: int| if v[k] is Some { Some(v[k]->0 as u64) } else { None }) }
// arrow: the array's data relabelled from Int64 to UInt64
#[verifier::external_body]
fn relabel(a: ArrayRef) -> (r: UInt64Array) ensures r.v@ == as_unsigned((*a).v@) { unimplemented!() }
//@extract tskv/src/tsm/codec/integer.rs fn i64_pco_encode
@ret r
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Quantile] + pco(src@)
@end
//@extract tskv/src/tsm/codec/integer.rs fn i64_pco_decode_to_array
@ret r
@spec
    requires src.len() > 0 ==> unpco(src@.skip(1)) is Some && unpco(src@.skip(1))->0.len() >= bit_set.n(), src.len() == 0 ==> bit_set.n() == 0
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<i64>::empty()), src.len() > 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, unpco(src@.skip(1))->0)
@end
//@extract tskv/src/tsm/codec/unsigned.rs fn u64_to_i64_vector
@ret r
@subst /(\w+)\.iter\(\)\.map\(\|&(\w+)\| (.+?)\)\.collect\(\)/ => map_vec(\1, |\2: u64| -> (q: i64) ensures q == \2 as i64 { \3 })
@spec
    ensures r@ =~= as_signed(src@)
@end
//@extract tskv/src/tsm/codec/unsigned.rs fn u64_zigzag_simple8b_encode
@ret r
@subst /super::integer::/ => 
@spec
    requires old(dst).len() == 0, src.len() < 0x800_0000
    ensures r is Ok,
      src.len() == 0 ==> final(dst).len() == 0,
      src.len() > 0 ==> final(dst).len() > 1 && final(dst)@[0] == Encoding::Delta && wf(final(dst)@.skip(1)) && block(final(dst)@.skip(1), src.len() as int) =~= steps(as_signed(src@))
@end
//@extract tskv/src/tsm/codec/unsigned.rs fn u64_without_compress_encode
@ret r
@subst /super::integer::/ => 
@spec
    ensures r is Ok, src.len() == 0 ==> final(dst)@ == old(dst)@,
      src.len() > 0 ==> final(dst).len() == old(dst).len() + 1 + 8 * src.len() && final(dst)@[old(dst).len() as int] == Encoding::Null && raws(final(dst)@.skip(old(dst).len() + 1)) == as_signed(src@)
@end
//@extract tskv/src/tsm/codec/unsigned.rs fn u64_zigzag_simple8b_decode
@ret r
@subst /super::integer::/ => 
@subst /ArrayRef/ => Arc<UInt64Array>
@subst /let builder = array_ref\.to_data\(\).*?unsafe \{ builder\.build_unchecked\(\) \}\);/ => let u64_array = relabel(array_ref);
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> src.len() > 1 && wf(src@.skip(1)) && block(src@.skip(1), bit_set.n()).len() >= bit_set.n()
    ensures r is Ok, src.len() > 0 ==> (*r->Ok_0).v@ =~= as_unsigned(spread(bit_set.bits@, sums(block(src@.skip(1), bit_set.n())))),
      src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<u64>::empty())
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<u64>::empty()); } }
@end
//@extract tskv/src/tsm/codec/unsigned.rs fn u64_without_compress_decode
@ret r
@subst /super::integer::/ => 
@subst /ArrayRef/ => Arc<UInt64Array>
@subst /let builder = array_ref\.to_data\(\).*?unsafe \{ builder\.build_unchecked\(\) \}\);/ => let u64_array = relabel(array_ref);
@spec
    requires src.len() > 0 ==> (src.len() - 1) % 8 == 0 && (src.len() - 1) / 8 >= bit_set.n(), src.len() == 0 ==> bit_set.n() == 0
    ensures r is Ok, src.len() > 0 ==> (*r->Ok_0).v@ =~= as_unsigned(spread(bit_set.bits@, raws(src@.skip(1)))),
      src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<u64>::empty())
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<u64>::empty()); } }
@end

//@extract tskv/src/tsm/codec/unsigned.rs fn u64_pco_encode
@ret r
@subst /super::integer::/ => 
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Quantile] + pco(as_signed(src@))
@end
//@extract tskv/src/tsm/codec/unsigned.rs fn u64_pco_decode
@ret r
@subst /super::integer::/ => 
@subst /ArrayRef/ => Arc<UInt64Array>
@subst /let builder = array_ref\.to_data\(\).*?unsafe \{ builder\.build_unchecked\(\) \}\);/ => let u64_array = relabel(array_ref);
@spec
    requires src.len() > 0 ==> unpco(src@.skip(1)) is Some && unpco(src@.skip(1))->0.len() >= bit_set.n(), src.len() == 0 ==> bit_set.n() == 0
    ensures r is Ok, src.len() > 0 ==> (*r->Ok_0).v@ =~= as_unsigned(spread(bit_set.bits@, unpco(src@.skip(1))->0)),
      src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<u64>::empty())
@at start
    proof { if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<u64>::empty()); } }
@end

// ---- the property: what is written is what is read ----
fn round_trip_i64(src: &[i64], bits: &NullBuffer)
    requires src.len() < 0x800_0000, src.len() == bits.n()
{
    let mut dst: Vec<u8> = Vec::new();
    let e = i64_zigzag_simple8b_encode(src, &mut dst);
    proof { lemma_sums(src@); if src.len() == 0 { assert(src@ =~= Seq::<i64>::empty()); } else { assert(block(dst@.skip(1), bits.n()).len() == src.len()); } }
    let r = i64_zigzag_simple8b_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut raw: Vec<u8> = Vec::new();
    let e = i64_without_compress_encode(src, &mut raw);
    proof { if src.len() == 0 { lemma_all_null(bits.bits@, src@); lemma_all_null(bits.bits@, raws(raw@.skip(1))); } }
    let r = i64_without_compress_decode_to_array(&raw, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut q: Vec<u8> = Vec::new();
    let e = i64_pco_encode(src, &mut q);
    proof { axiom_pco(src@); if src.len() == 0 { assert(src@ =~= Seq::<i64>::empty()); } else { assert(q@.skip(1) =~= pco(src@)); } }
    let r = i64_pco_decode_to_array(&q, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
}
fn round_trip_u64(src: &[u64], bits: &NullBuffer)
    requires src.len() < 0x800_0000, src.len() == bits.n()
{
    let mut dst: Vec<u8> = Vec::new();
    let e = u64_zigzag_simple8b_encode(src, &mut dst);
    proof { lemma_sums(as_signed(src@)); if src.len() == 0 { assert(src@ =~= Seq::<u64>::empty()); } else { assert(block(dst@.skip(1), bits.n()).len() == src.len()); } }
    let r = u64_zigzag_simple8b_decode(&dst, bits);
    proof { lemma_unsigned(bits.bits@, src@); }
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut raw: Vec<u8> = Vec::new();
    let e = u64_without_compress_encode(src, &mut raw);
    let r = u64_without_compress_decode(&raw, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut q: Vec<u8> = Vec::new();
    let e = u64_pco_encode(src, &mut q);
    proof { axiom_pco(as_signed(src@)); if src.len() == 0 { assert(src@ =~= Seq::<u64>::empty()); } else { assert(q@.skip(1) =~= pco(as_signed(src@))); } lemma_unsigned(bits.bits@, src@); }
    let r = u64_pco_decode(&q, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
}
proof fn lemma_unsigned(bits: Seq<bool>, v: Seq<u64>)
    requires nv(bits, bits.len() as int) == v.len() ensures as_unsigned(spread(bits, as_signed(v))) =~= spread(bits, v)
{
    assert forall|i: int| 0 <= i < bits.len() implies as_unsigned(spread(bits, as_signed(v)))[i] == spread(bits, v)[i] by {
        lemma_nv(bits, i, bits.len() as int);
        if bits[i] { cast_u64_i64(v[nv(bits, i)]); }
    }
}
}
fn main() {}
