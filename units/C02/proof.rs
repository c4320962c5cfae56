use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include ../C01/simple8b.inc
//@include ../C01/arrays.inc
//@include ../C01/ints.inc
type ArrayRef = Arc<Int64Array>;

//@extract common/models/src/codec.rs enum Encoding
@subst /enum Encoding \{/ => struct Encoding; impl Encoding {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@subst /#\[default\]/ =>
@end
//@include ../C01/raw.inc
//@include ../C01/pco.inc

//@extract tskv/src/tsm/codec/timestamp.rs enum DeltaEncoding
@subst /enum DeltaEncoding \{/ => struct DeltaEncoding; impl DeltaEncoding {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@end
//@extract tskv/src/tsm/codec/mod.rs const MAX_VAR_INT_64
@end
//@extract tskv/src/tsm/codec/timestamp.rs fn i64_to_u64_vector
@ret r
@subst /(\w+)\.iter\(\)\.map\(\|(\w+)\| \*(\w+)(.+?)\)\.collect::<Vec<u64>>\(\)/ => map_vec(\1, |\2: i64| -> (q: u64) ensures q == \2 as u64 { \3\4 })
@spec
    ensures r.len() == src.len(), forall|k: int| 0 <= k < src.len() ==> #[trigger] r@[k] == src@[k] as u64
@end

// ---- powers of ten, the scale of a block ----
spec fn p10(e: int) -> int decreases e { if e <= 0 { 1 } else { 10 * p10(e - 1) } }
proof fn lemma_p10() ensures p10(0) == 1, p10(12) == 1_000_000_000_000, p10(15) == 1_000_000_000_000_000, forall|e: int| 0 <= e <= 15 ==> 1 <= #[trigger] p10(e) <= 1_000_000_000_000_000
{
    reveal_with_fuel(p10, 17);
    assert forall|e: int| 0 <= e <= 15 implies 1 <= #[trigger] p10(e) <= 1_000_000_000_000_000 by {
        assert(e == 0 || e == 1 || e == 2 || e == 3 || e == 4 || e == 5 || e == 6 || e == 7 || e == 8 || e == 9 || e == 10 || e == 11 || e == 12 || e == 13 || e == 14 || e == 15);
    }
}
spec fn is_scale(d: u64, e: int) -> bool { 0 <= e <= 12 && d == p10(e) }
// one power less still divides
proof fn lemma_down(d: u64, e: int)
    requires is_scale(d, e), d > 1
    ensures is_scale((d / 10) as u64, e - 1), d == 10 * (d / 10), forall|a: u64| #[trigger] (a % d) == 0 ==> a % ((d / 10) as u64) == 0
{
    let m = (d / 10) as u64;
    assert(e > 0); assert(p10(e) == 10 * p10(e - 1));
    lemma_p10();
    assert forall|a: u64| #[trigger] (a % d) == 0 implies a % m == 0 by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, d as int);
        let q = a as int / d as int;
        assert(a == (10 * q) * m) by (nonlinear_arith) requires a == d * q, d == 10 * m;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(10 * q, m as int);
    }
}
// f64::log10 of an exact power of ten up to 10^12 (checked value by value in the replay)
#[verifier::external_body]
fn log10_u8(d: u64) -> (r: u8) ensures forall|e: int| is_scale(d, e) ==> r == e { ((d as f64).log10()) as u8 }
// 10_u64.pow(e)
fn pow10(e: u32) -> (r: u64) requires e <= 15 ensures r == p10(e as int) {
    let mut i: u32 = 0; let mut x: u64 = 1; proof { lemma_p10(); }
    while i < e invariant i <= e <= 15, x == p10(i as int), 1 <= x decreases e - i
    { proof { lemma_p10(); assert(p10(i + 1) == 10 * p10(i as int)); } x = x * 10; i += 1; }
    x
}
fn run_assert(b: bool) requires b {}

// ---- what a block (the bytes after the codec id) stands for, when n values are read from it ----
spec fn scale(b: Seq<u8>) -> int { p10((b[0] & 0b0000_1111) as int) }
spec fn smap(w: Seq<u64>, s: int) -> Seq<i64> { Seq::new(w.len(), |k: int| (w[k] * s) as u64 as i64) }
spec fn block(b: Seq<u8>, n: int) -> Seq<i64> {
    if b[0] >> 4 == DeltaEncoding::Uncompressed { smap(words(b.skip(1)), 1) }
    else if b[0] >> 4 == DeltaEncoding::Rle { Seq::new(n as nat, |k: int| if k == 0 { unbe64(b.subrange(1, 9)) as i64 } else { ((var_dec(b.skip(9))->0).0 * scale(b)) as u64 as i64 }) }
    else { Seq::new(1, |k: int| unbe64(b.subrange(1, 9)) as i64) + smap(s8(b.skip(9)), scale(b)) }
}
spec fn wf_rle(b: Seq<u8>) -> bool { b.len() >= 9 && var_dec(b.skip(9)) is Some && (var_dec(b.skip(9))->0).0 * scale(b) <= u64::MAX }
spec fn wf_s8(b: Seq<u8>) -> bool { 9 <= b.len() < 0x100_0000_0000 && (b.len() - 9) % 8 == 0 && forall|k: int| 0 <= k < s8(b.skip(9)).len() ==> (#[trigger] s8(b.skip(9))[k]) * scale(b) <= u64::MAX }
spec fn wf(b: Seq<u8>) -> bool {
    &&& b.len() >= 1
    &&& b[0] >> 4 == DeltaEncoding::Uncompressed ==> b.len() > 1 && (b.len() - 1) % 8 == 0
    &&& b[0] >> 4 == DeltaEncoding::Rle ==> wf_rle(b)
    &&& b[0] >> 4 == DeltaEncoding::Simple8b ==> wf_s8(b)
    &&& b[0] >> 4 == DeltaEncoding::Uncompressed || b[0] >> 4 == DeltaEncoding::Rle || b[0] >> 4 == DeltaEncoding::Simple8b
}
spec fn tags_ok() -> bool {
    DeltaEncoding::Uncompressed < 16 && DeltaEncoding::Rle < 16 && DeltaEncoding::Simple8b < 16 && DeltaEncoding::Uncompressed != DeltaEncoding::Rle
      && DeltaEncoding::Rle != DeltaEncoding::Simple8b && DeltaEncoding::Uncompressed != DeltaEncoding::Simple8b
}
proof fn lemma_tag(t: u8) requires t < 16
    ensures (t << 4) >> 4 == t, forall|e: u8| e < 16 ==> (#[trigger] ((t << 4) | e)) >> 4 == t && ((t << 4) | e) & 0xf == e, forall|e: u8| e < 16 ==> (#[trigger] (e | (t << 4))) >> 4 == t && (e | (t << 4)) & 0xf == e, ((t << 4) & 0xf) == 0
{
    assert((t << 4) >> 4 == t && ((t << 4) & 0xf) == 0) by (bit_vector) requires t < 16;
    assert forall|e: u8| e < 16 implies (#[trigger] ((t << 4) | e)) >> 4 == t && ((t << 4) | e) & 0xf == e by {
        assert(((t << 4) | e) >> 4 == t && ((t << 4) | e) & 0xf == e) by (bit_vector) requires t < 16, e < 16; }
    assert forall|e: u8| e < 16 implies (#[trigger] (e | (t << 4))) >> 4 == t && (e | (t << 4)) & 0xf == e by {
        assert((e | (t << 4)) >> 4 == t && (e | (t << 4)) & 0xf == e) by (bit_vector) requires t < 16, e < 16; }
}
proof fn lemma_div_mul(a: u64, d: u64) requires d > 0, a % d == 0 ensures (a / d) * d == a, a / d <= a, a % 1 == 0
{
    assert(a as int == d as int * (a as int / d as int) + a as int % d as int) by (nonlinear_arith) requires d > 0;
    assert((a / d) * d == a) by (nonlinear_arith) requires a as int == d as int * (a as int / d as int), d > 0;
    assert(a / d <= a) by (nonlinear_arith) requires d > 0;
}

//@extract tskv/src/tsm/codec/timestamp.rs fn encode_rle
@attr #[verifier::loop_isolation(false)]
@loops 1
@subst /(\w+)\.extend_from_slice\(&(\w+|\([^()]*\))\.to_be_bytes\(\)\)/ => put_be(\1, \2)
@subst /(\w+|\([^()]*\))\.encode_var\(&mut (\w+)\[(\w+)\.\.\]\)/ => encode_var_at(\1, \2, \3)
@subst /\(\((\w+) as f64\)\.log10\(\)\) as u8/ => log10_u8(\1)
@subst /assert!\((.*?)\);/ => run_assert(\1);
@subst /use [^;]*;/ =>
@spec
    requires old(dst).len() == 1
    ensures exists|e: int, d: u64| 0 <= e <= 12 && d * p10(e) == delta && #[trigger] rle_bytes(final(dst)@, old(dst)@, e, v, d, count), final(dst).len() <= 30
@at start
    let ghost d0 = dst@; let ghost mut e: int = 12;
    proof { lemma_be(v); lemma_p10(); lemma_var(delta, Seq::empty()); lemma_var(count, Seq::empty()); assert(forall|x: u8| 0u8 | x == x) by (bit_vector); }
@loop 0
    invariant is_scale(div, e), dst@ == d0 + seq![0u8] + be64(v)
    decreases div
@at loop-start 0
    proof { lemma_down(div, e); e = e - 1; }
@at before /dst\[1\] \|= scaler;/
    let ghost w = dst@;
    proof { assert(scaler == e); assert(dst@.take(10)[1] == 0); assert(dst@.take(10) == d0 + seq![0u8] + be64(v)); }
@at after /\|= scaler;/
    proof { assert(0u8 | scaler == scaler) by (bit_vector); assert(dst@ =~= w.update(1, e as u8)); assert(dst@.take(10) =~= w.take(10).update(1, e as u8)); assert(dst@.take(10) =~= d0 + seq![e as u8] + be64(v)); }
@at after-loop 0
    proof { lemma_p10(); lemma_div_mul(delta, div); lemma_var((delta / div) as u64, Seq::empty()); if div == 1 { if e > 0 { assert(p10(e) == 10 * p10(e - 1)); assert(p10(e - 1) >= 1); } assert(e == 0); } }
@at end
    proof { let d = if div > 1 { (delta / div) as u64 } else { delta }; assert(dst@ =~= d0 + seq![e as u8] + be64(v) + var_enc(d) + var_enc(count)); assert(rle_bytes(dst@, d0, e, v, d, count)); }
@end
spec fn rle_bytes(out: Seq<u8>, d0: Seq<u8>, e: int, v: u64, d: u64, count: u64) -> bool { out == d0 + seq![e as u8] + be64(v) + var_enc(d) + var_enc(count) }

//@extract tskv/src/tsm/codec/timestamp.rs fn ts_zigzag_simple8b_encode
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 6
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /simple8b::/ => 
@subst /(\w+)\.capacity\(\)/ => cap_of(\1)
@subst /(\w+)\.reserve_exact\((.*?)\);/ => reserve(\1, \2);
@subst /for (\w+) in \(1\.\.(\w+)\.len\(\)\)\.rev\(\) \{/ => let mut \1: usize = \2.len(); while \1 > 1 { \1 -= 1;
@subst /for (\w+) in 2\.\.(\w+)\.len\(\) \{/ => let mut ny: usize = 2; while ny < \2.len() { let \1 = ny; ny += 1;
@subst /(\w+)\.extend_from_slice\(&(\w+)\.to_be_bytes\(\)\)/ => put_be(\1, *\2)
@subst /(\w+)\.extend_from_slice\(&(\w+\[\w+\])\.to_be_bytes\(\)\)/ => put_be(\1, \2)
@subst /for (\w+) in (\w+)\.iter\(\)\.skip\(1\) \{/ => let mut nz: usize = 1; while nz < \2.len() { let \1 = \2[nz]; nz += 1;
@subst /for (\w+) in (\w+)\.iter_mut\(\)\.skip\(1\) \{\s*\*\1 (\S+) (.*?)\s*\}/ => let mut nw: usize = 1; while nw < \2.len() { \2[nw] \3 \4; nw += 1; }
@subst /\(\((\w+) as f64\)\.log10\(\)\) as u8/ => log10_u8(\1)
@spec
    requires old(dst).len() == 0, src.len() < 0x800_0000
    ensures r is Ok,
      src.len() == 0 ==> final(dst).len() == 0,
      src.len() > 0 ==> final(dst).len() > 1 && final(dst)@[0] == Encoding::DeltaTs && wf(final(dst)@.skip(1)) && block(final(dst)@.skip(1), src.len() as int) =~= steps(src@)
@at start
    let ghost st = steps(src@);
    proof { assert(tags_ok()); lemma_tag(DeltaEncoding::Uncompressed); lemma_tag(DeltaEncoding::Rle); lemma_tag(DeltaEncoding::Simple8b); lemma_p10();
       assert forall|k: int| 0 <= k < src.len() implies #[trigger] (src@[k] as u64) as i64 == src@[k] by { cast_i64_u64(src@[k]); } }
@loop 0
    invariant deltas.len() == src.len(), deltas@[0] == src@[0] as u64, forall|k: int| 1 <= k < src.len() ==> #[trigger] deltas@[k] == if k < i { src@[k] as u64 } else { wdiff(src@[k] as u64, src@[k - 1] as u64) },
       forall|k: int| i <= k < src.len() ==> #[trigger] deltas@[k] <= max, 1 <= i <= src.len()
    decreases i
@at after-loop 0
    let ghost ds = deltas@;
@loop 1
    invariant 2 <= ny <= deltas.len(), deltas@ == ds, use_rle ==> forall|k: int| 2 <= k < ny ==> #[trigger] ds[k] == ds[1], dst@ == seq![Encoding::DeltaTs]
    decreases deltas.len() - ny
@at after /\(DeltaEncoding::Rle as u8\) << 4;/
    proof { let t = DeltaEncoding::Rle << 4; let b = dst@.skip(1);
       let (e, d) = choose|e: int, d: u64| 0 <= e <= 12 && d * p10(e) == ds[1] && #[trigger] rle_bytes(e1, seq![Encoding::DeltaTs], e, ds[0], d, ds.len() as u64);
       assert(b =~= seq![(e as u8) | t] + be64(ds[0]) + var_enc(d) + var_enc(ds.len() as u64));
       lemma_be(ds[0]); lemma_var(d, b.skip(9));
       assert(b.subrange(1, 9) =~= be64(ds[0]));
       assert(b.skip(9).take(var_enc(d).len() as int) =~= var_enc(d));
       assert(scale(b) == p10(e));
       assert forall|k: int| 0 <= k < src.len() implies block(b, src.len() as int)[k] == st[k] by { if k >= 2 { assert(ds[k] == ds[1]); } }
       assert(block(b, src.len() as int) =~= st); }
@at before /dst\[1\] \|= \(DeltaEncoding::Rle as u8\) << 4;/
    let ghost e1 = dst@;
@at before /if max > /
    let ghost ds = deltas@;
    proof { assert forall|k: int| 0 <= k < src.len() implies #[trigger] ds[k] as i64 == st[k] by { } }
@at before-loop 2
    let ghost t = DeltaEncoding::Uncompressed << 4;
    proof { assert(dst@.take(2) =~= seq![Encoding::DeltaTs, t]); assert(words(dst@.skip(2)) =~= ds.take(0)); }
@iter 2 it
@loop 2
    invariant it.seq().len() == ds.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == ds[k],
      dst.len() == 2 + 8 * it.index@, dst@.take(2) == seq![Encoding::DeltaTs, t], words(dst@.skip(2)) =~= ds.take(it.index@)
@at loop-start 2
    let ghost e = dst@;
    proof { lemma_words_push(e.skip(2), *delta); assert((e + be64(*delta)).skip(2) =~= e.skip(2) + be64(*delta)); assert((e + be64(*delta)).take(2) =~= e.take(2));
      assert(ds.take(it.index@ + 1) =~= ds.take(it.index@).push(*delta)); lemma_be(*delta); }
@at after-loop 2
    proof { let b = dst@.skip(1); assert(ds.take(ds.len() as int) =~= ds); assert(b[0] == dst@.take(2)[1]); assert(b.skip(1) =~= dst@.skip(2)); assert(dst@[0] == dst@.take(2)[0]);
      assert forall|k: int| 0 <= k < src.len() implies block(b, src.len() as int)[k] == st[k] by { assert(ds[k] as i64 == st[k]); } }
@at before-loop 3
    let ghost mut e: int = 12;
@loop 3
    invariant 1 <= nz <= ds.len(), deltas@ == ds, is_scale(div, e), forall|k: int| 1 <= k < nz ==> #[trigger] ds[k] % div == 0
    decreases ds.len() - nz
@at loop-start 3
    proof { lemma_p10(); }
@loop 4
    invariant 1 <= nz <= ds.len(), deltas@ == ds, is_scale(div, e), forall|k: int| 1 <= k < nz - 1 ==> #[trigger] ds[k] % div == 0, delta == ds[nz - 1]
    decreases div
@at loop-start 4
    proof { lemma_down(div, e); e = e - 1; }
@at after-loop 4
    proof { lemma_p10(); assert(div >= 1); if div == 1 { assert(delta % 1 == 0); } }
@at after-loop 3
    proof { lemma_p10(); assert forall|k: int| 1 <= k < ds.len() implies #[trigger] ds[k] % div == 0 && (ds[k] / div) * div == ds[k] && ds[k] / div <= ds[k] by { if div == 1 { assert(ds[k] % 1 == 0); } lemma_div_mul(ds[k], div); } }
@loop 5
    invariant 1 <= nw <= ds.len(), deltas.len() == ds.len(), deltas@[0] == ds[0], forall|k: int| 1 <= k < ds.len() ==> #[trigger] deltas@[k] == if k < nw { (ds[k] / div) as u64 } else { ds[k] }, div > 1
    decreases ds.len() - nw
@at before /dst\.push\(\(DeltaEncoding::Simple8b as u8\)/
    let ghost dv = deltas@;
    proof { assert forall|k: int| 1 <= k < ds.len() implies (#[trigger] dv[k]) * div == ds[k] && dv[k] <= max by { if div <= 1 { assert(ds[k] / 1 == ds[k]); } assert(ds[k] <= max); assert(ds[k] % div == 0); assert((ds[k] / div) * div == ds[k] && ds[k] / div <= ds[k]); } }
@at before /encode\(&deltas\[1\.\.\]/
    let ghost e1 = dst@;
    proof { assert(e1 =~= seq![Encoding::DeltaTs, (DeltaEncoding::Simple8b << 4) | (e as u8)] + be64(ds[0])); lemma_be(ds[0]); }
@at tail
    proof { let b = dst@.skip(1); 
       assert(dst@.take(10)[1] == e1[1] && dst@.take(10)[0] == e1[0]);
       assert(b.subrange(1, 9) =~= dst@.take(10).subrange(2, 10)); assert(e1.subrange(2, 10) =~= be64(ds[0]));
       assert(b.skip(9) =~= dst@.skip(10));
       assert(s8(b.skip(9)) =~= dv.skip(1));
       assert(scale(b) == div);
       assert forall|k: int| 0 <= k < s8(b.skip(9)).len() implies (#[trigger] s8(b.skip(9))[k]) * scale(b) == ds[k + 1] by { assert(dv[k + 1] * div == ds[k + 1]); }
       assert forall|k: int| 0 <= k < src.len() implies block(b, src.len() as int)[k] == st[k] by { assert(ds[k] as i64 == st[k]); if k > 0 { assert(s8(b.skip(9))[k - 1] * scale(b) == ds[k]); } }
       assert(block(b, src.len() as int) =~= st); }
@end
proof fn lemma_words_push(b: Seq<u8>, x: u64)
    requires b.len() % 8 == 0 ensures (b + be64(x)).len() % 8 == 0, words(b + be64(x)) =~= words(b).push(x)
{
    let c = b + be64(x); lemma_be(x);
    let n = b.len() / 8;
    assert(c.subrange(8 * n as int, 8 * n as int + 8) =~= be64(x));
    assert forall|k: int| 0 <= k < n implies words(c)[k] == words(b)[k] by { assert(c.subrange(8 * k, 8 * k + 8) =~= b.subrange(8 * k, 8 * k + 8)); }
}

//@extract tskv/src/tsm/codec/timestamp.rs fn decode_uncompressed_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /i64::from_be_bytes\((\w+)\)/ => (from_be8(\1) as i64)
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires src.len() > 0, src.len() % 8 == 0, src.len() / 8 >= bit_set.n()
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(smap(words(src@), 1)))
@at start
    let ghost bits = bit_set.bits@; let ghost ds = smap(words(src@), 1); let ghost vals = sums(ds);
    proof { let l = src.len(); assert((l & 0x7) == l % 8) by (bit_vector); }
@loop 0
    invariant nx <= bits.len(), i == 8 * nv(bits, nx as int), i <= src.len(), prev == if i == 0 { 0i64 } else { psum(ds, nv(bits, nx as int) - 1) },
      builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); if i == 0 { assert(wadd(0, ds[0]) == ds[0]); } }
@end

//@extract tskv/src/tsm/codec/timestamp.rs fn decode_rle_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /i64::from_be_bytes\((\w+)\)/ => (from_be8(\1) as i64)
@subst /10_u64\.pow\(/ => pow10(
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires wf_rle(src@)
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(Seq::new(bit_set.n() as nat, |k: int| if k == 0 { unbe64(src@.subrange(1, 9)) as i64 } else { ((var_dec(src@.skip(9))->0).0 * scale(src@)) as u64 as i64 })))
@at start
    let ghost bits = bit_set.bits@; let ghost n = bit_set.n();
    let ghost ds = Seq::new(n as nat, |k: int| if k == 0 { unbe64(src@.subrange(1, 9)) as i64 } else { ((var_dec(src@.skip(9))->0).0 * scale(src@)) as u64 as i64 });
    let ghost vals = sums(ds);
    proof { lemma_nv(bits, 0, bits.len() as int); lemma_p10(); let x = src@[0]; assert((x & 0b0000_1111) <= 15) by (bit_vector); }
@loop 0
    invariant nx <= bits.len(), is_first == (nv(bits, nx as int) == 0), !is_first ==> first == psum(ds, nv(bits, nx as int) - 1),
      builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); lemma_nv(bits, 0, nx as int); }
@end

fn vec_next(v: &Vec<u64>, p: &mut usize) -> (r: Option<u64>)
    requires *old(p) <= v.len()
    ensures *old(p) < v.len() ==> r == Some(v@[*old(p) as int]) && *final(p) == *old(p) + 1, *old(p) == v.len() ==> r is None && *final(p) == *old(p)
{ if *p < v.len() { let x = v[*p]; *p = *p + 1; Some(x) } else { None } }

//@extract tskv/src/tsm/codec/timestamp.rs fn decode_simple8b_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /i64::from_be_bytes\((\w+)\)/ => (from_be8(\1) as i64)
@subst /10_u64\.pow\(/ => pow10(
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@subst /simple8b::/ => 
@subst /let mut (\w+) = res\.into_iter\(\);/ => let mut \1: usize = 0;
@subst /= (value_iter)\.next\(\)/ => = vec_next(&res, &mut \1)
@spec
    requires wf_s8(src@), s8(src@.skip(9)).len() + 1 >= bit_set.n()
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(Seq::new(1, |k: int| unbe64(src@.subrange(1, 9)) as i64) + smap(s8(src@.skip(9)), scale(src@))))
@at start
    let ghost bits = bit_set.bits@; let ghost ws = s8(src@.skip(9));
    let ghost ds = Seq::new(1, |k: int| unbe64(src@.subrange(1, 9)) as i64) + smap(ws, scale(src@));
    let ghost vals = sums(ds);
    proof { lemma_nv(bits, 0, bits.len() as int); lemma_p10(); let x = src@[0]; assert((x & 0b0000_1111) <= 15) by (bit_vector); }
@loop 0
    invariant idx <= bits.len(), is_first == (nv(bits, idx as int) == 0), res@ == ws, next == if is_first { ds[0] } else { psum(ds, nv(bits, idx as int) - 1) },
      value_iter == if is_first { 0 } else { nv(bits, idx as int) - 1 }, builder.v@ =~= spread(bits, vals).take(idx as int)
    decreases bits.len() - idx
@at loop-start 0
    proof { lemma_nv(bits, idx as int, bits.len() as int); lemma_nv(bits, 0, idx as int);
      if !is_first && bits[idx as int] { let k = nv(bits, idx as int); assert(ws[k - 1] * scale(src@) <= u64::MAX); if scaler <= 1 { assert(ws[k - 1] * 1 == ws[k - 1]); } } }
@end

//@extract tskv/src/tsm/codec/timestamp.rs fn ts_zigzag_simple8b_decode_to_array
@ret r
@subst /&(\w+\[\w+\]) >> 4/ => \1 >> 4
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires src.len() == 0 ==> bit_set.n() == 0, src.len() > 0 ==> src.len() > 1 && wf(src@.skip(1)) && block(src@.skip(1), bit_set.n()).len() >= bit_set.n()
    ensures r is Ok, src.len() > 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, sums(block(src@.skip(1), bit_set.n()))),
      src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<i64>::empty())
@at start
    proof { lemma_nv(bit_set.bits@, 0, bit_set.bits@.len() as int); if src.len() == 0 { lemma_all_null(bit_set.bits@, Seq::<i64>::empty()); } else { let b = src@.skip(1); let c = b.skip(1); assert(c.len() == b.len() - 1); } }
@end

// ---- the property: what is written is what is read ----
fn round_trip(src: &[i64], bits: &NullBuffer)
    requires src.len() < 0x800_0000, src.len() == bits.n()
{
    let mut dst: Vec<u8> = Vec::new();
    let e = ts_zigzag_simple8b_encode(src, &mut dst);
    proof { lemma_sums(src@); if src.len() == 0 { assert(src@ =~= Seq::<i64>::empty()); } else { assert(block(dst@.skip(1), bits.n()).len() == src.len()); } }
    let r = ts_zigzag_simple8b_decode_to_array(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut raw: Vec<u8> = Vec::new();
    let e = ts_without_compress_encode(src, &mut raw);
    proof { if src.len() == 0 { lemma_all_null(bits.bits@, src@); lemma_all_null(bits.bits@, raws(raw@.skip(1))); } }
    let r = ts_without_compress_decode_to_array(&raw, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut q: Vec<u8> = Vec::new();
    let e = ts_pco_encode(src, &mut q);
    proof { axiom_pco(src@); if src.len() == 0 { assert(src@ =~= Seq::<i64>::empty()); } else { assert(q@.skip(1) =~= pco(src@)); } }
    let r = ts_pco_decode_to_array(&q, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
}
}
fn main() {}
