use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Debug)]
struct CodecError { c: u8 }
//@include ../C01/arrays.inc
//@include ../C01/varint.inc
struct BooleanArray { v: Vec<Option<bool>> }
impl BooleanArray {
    fn from(v: Vec<Option<bool>>) -> (r: BooleanArray) ensures r.v == v { BooleanArray { v } }
    #[verifier::external_body]
    fn from_plain(v: Vec<bool>) -> (r: BooleanArray) ensures r.v.len() == v.len() { unimplemented!() }
}
struct BooleanBuilder { v: Vec<Option<bool>> }
impl BooleanBuilder {
    fn with_capacity(n: usize) -> (r: BooleanBuilder) ensures r.v@ == Seq::<Option<bool>>::empty() { BooleanBuilder { v: Vec::new() } }
    fn append_value(&mut self, x: bool) ensures final(self).v@ == old(self).v@.push(Some(x)) { self.v.push(Some(x)); }
    fn append_null(&mut self) ensures final(self).v@ == old(self).v@.push(None) { self.v.push(None); }
    #[verifier::external_body]
    fn finish(&mut self) -> (r: BooleanArray) ensures r.v@ == old(self).v@ { BooleanArray { v: std::mem::take(&mut self.v) } }
}
type ArrayRef = Arc<BooleanArray>;
fn run_assert(b: bool) requires b {}

//@extract common/models/src/codec.rs enum Encoding
@subst /enum Encoding \{/ => struct Encoding; impl Encoding {
@subst /(\w+) = (\d+),/ => const \1: u8 = \2;
@subst /#\[default\]/ =>
@end
//@extract tskv/src/tsm/codec/boolean.rs const HEADER_LEN
@end
//@extract tskv/src/tsm/codec/boolean.rs const BOOLEAN_COMPRESSED_BIT_PACKED
@end

// bit p of a byte, from the left
spec fn bit(x: u8, p: int) -> bool { (x >> ((7 - p) as u8)) & 1 == 1 }
spec fn bits_of(b: Seq<u8>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit(b[i / 8], i % 8)) }
proof fn lemma_bits()
    ensures forall|x: u8, p: u64| p < 8 ==> bit(#[trigger] (x | (128u8 >> p)), p as int), forall|x: u8, p: u64| p < 8 ==> !bit(#[trigger] (x & !(128u8 >> p)), p as int),
      forall|x: u8, p: u64, q: int| p < 8 && 0 <= q < 8 && q != p ==> #[trigger] bit(x | (128u8 >> p), q) == bit(x, q),
      forall|x: u8, p: u64, q: int| p < 8 && 0 <= q < 8 && q != p ==> #[trigger] bit(x & !(128u8 >> p), q) == bit(x, q),
      forall|x: u8, p: usize| p < 8 ==> (#[trigger] (x >> ((7 - p) as usize)) & 1 == 1) == bit(x, p as int)
{
    assert forall|x: u8, p: u64| p < 8 implies bit(#[trigger] (x | (128u8 >> p)), p as int) by { let s = (7 - p) as u8; assert(((x | (128u8 >> p)) >> s) & 1 == 1) by (bit_vector) requires p < 8, s == sub(7u8, p as u8); }
    assert forall|x: u8, p: u64| p < 8 implies !bit(#[trigger] (x & !(128u8 >> p)), p as int) by { let s = (7 - p) as u8; assert(((x & !(128u8 >> p)) >> s) & 1 != 1) by (bit_vector) requires p < 8, s == sub(7u8, p as u8); }
    assert forall|x: u8, p: u64, q: int| p < 8 && 0 <= q < 8 && q != p implies #[trigger] bit(x | (128u8 >> p), q) == bit(x, q) by { let s = (7 - q) as u8; let t = (7 - p) as u8; 
       assert(((x | (128u8 >> p)) >> s) & 1 == (x >> s) & 1) by (bit_vector) requires p < 8, s < 8, t == sub(7u8, p as u8), s != t; }
    assert forall|x: u8, p: u64, q: int| p < 8 && 0 <= q < 8 && q != p implies #[trigger] bit(x & !(128u8 >> p), q) == bit(x, q) by { let s = (7 - q) as u8; let t = (7 - p) as u8; 
       assert(((x & !(128u8 >> p)) >> s) & 1 == (x >> s) & 1) by (bit_vector) requires p < 8, s < 8, t == sub(7u8, p as u8), s != t; }
    assert forall|x: u8, p: usize| p < 8 implies (#[trigger] (x >> ((7 - p) as usize)) & 1 == 1) == bit(x, p as int) by {
       let s = (7 - p) as usize; let t = (7 - p) as u8; assert((x >> s) & 1 == (x >> t) & 1) by (bit_vector) requires s < 8, t == s as u8; }
}

//@extract tskv/src/tsm/codec/boolean.rs fn bool_bitpack_encode
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /let (\w+): (\w+) = (.+?)\.try_into\(\)\?;/ => let \1: \2 = (\3) as \2;
@subst /(\w+|\([^()]*\))\.encode_var\(&mut (\w+)\[(\w+)\.\.\]\)/ => encode_var_at(\1, \2, \3)
@subst /for &(\w+) in (\w+) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2[nx]; nx += 1;
@spec
    requires old(dst).len() == 0, src.len() < 0x10_0000_0000_0000
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0,
      src.len() > 0 ==> { let vl = var_enc(src.len() as u64).len() as int; &&& final(dst)@[0] == Encoding::BitPack && final(dst)@[1] == BOOLEAN_COMPRESSED_BIT_PACKED << 4
          &&& final(dst).len() == 2 + vl + (src.len() + 7) / 8 &&& final(dst)@.subrange(2, 2 + vl) == var_enc(src.len() as u64) &&& bits_of(final(dst)@.skip(2 + vl), src.len() as int) =~= src@ }
@at start
    let ghost vl = var_enc(src.len() as u64).len() as int;
    proof { lemma_bits(); lemma_var(src.len() as u64, Seq::empty()); }
@at after /\.resize\([^;]*;/
    proof { assert(dst@.take(1)[0] == Encoding::BitPack); assert(dst@[0] == Encoding::BitPack); }
@at before-loop 0
    let ghost pre = dst@.take(2 + vl);
    proof { assert(pre[0] == Encoding::BitPack && pre[1] == BOOLEAN_COMPRESSED_BIT_PACKED << 4); assert(pre.subrange(2, 2 + vl) =~= var_enc(src.len() as u64)); }
@loop 0
    invariant nx <= src.len(), n == 8 + 8 * vl + nx, dst.len() == 10 + (src.len() + 7) / 8, dst@.take(2 + vl) == pre,
      forall|k: int| 0 <= k < nx ==> bit(dst@[2 + vl + k / 8], k % 8) == #[trigger] src@[k]
    decreases src.len() - nx
@at loop-start 0
    let ghost e = dst@;
    proof { assert((n & 7) == n % 8 && (n >> 3) == n / 8) by (bit_vector); assert(n / 8 == 1 + vl + nx as int / 8 && n % 8 == nx as int % 8); assert(nx as int / 8 < (src.len() + 7) / 8); }
@at loop-end 0
    proof {
        let b = 2 + vl + (nx - 1) / 8; let p = ((nx - 1) % 8) as u64;
        assert(forall|k: int| 0 <= k < e.len() && k != b ==> dst@[k] == e[k]);
        assert(dst@[b] == if src@[nx - 1] { e[b] | (128u8 >> p) } else { e[b] & !(128u8 >> p) });
        assert(dst@.take(2 + vl) =~= e.take(2 + vl));
        assert forall|k: int| 0 <= k < nx implies bit(dst@[2 + vl + k / 8], k % 8) == #[trigger] src@[k] by {
            if k < nx - 1 { assert(bit(e[2 + vl + k / 8], k % 8) == src@[k]); }
        }
    }
@at before /let mut length/
    proof { assert((n & 7) == n % 8 && (n >> 3) == n / 8) by (bit_vector); }
    let ghost full = dst@;
@at tail
    proof { assert(dst@[0] == full.take(2 + vl)[0] && dst@[1] == full.take(2 + vl)[1]); assert(dst@.subrange(2, 2 + vl) =~= full.take(2 + vl).subrange(2, 2 + vl));
      let l = src.len() as int; assert(n == 8 + 8 * vl + l); assert(dst.len() == 2 + vl + (l + 7) / 8);
      assert forall|k: int| 0 <= k < l implies bits_of(dst@.skip(2 + vl), l)[k] == src@[k] by { assert(bit(full[2 + vl + k / 8], k % 8) == src@[k]); assert(k / 8 < (l + 7) / 8); } }
@end

//@extract tskv/src/tsm/codec/boolean.rs fn bool_bitpack_decode
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /assert_eq!\((.*?), (.*?)\);/ => run_assert(\1 == \2);
@subst /let (\w+): (\w+) = (.+?)\.try_into\(\)\?;/ => let \1: \2 = (\3) as \2;
@subst /u64::decode_var\((.*?)\)\.ok_or\("[^"]*"\)/ => decode_var(\1).ok_or(CodecError { c: 1 })
@subst /Err\("[^"]*"\.into\(\)\)/ => Err(CodecError { c: 2 })
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() == 0 ==> bit_set.n() == 0,
      src.len() > 0 ==> { &&& src.len() > 1 && src@[1] == BOOLEAN_COMPRESSED_BIT_PACKED << 4 && var_dec(src@.skip(2)) is Some
         &&& { let (c, l) = var_dec(src@.skip(2))->0; c >= bit_set.n() && src.len() >= 2 + l + (c + 7) / 8 } }
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<bool>::empty()),
      src.len() > 0 ==> { let (c, l) = var_dec(src@.skip(2))->0; (*r->Ok_0).v@ =~= spread(bit_set.bits@, bits_of(src@.skip(2 + l), c as int)) }
@at start
    let ghost s0 = src@; let ghost bits = bit_set.bits@;
    let ghost vals = bits_of(s0.skip(2 + (var_dec(s0.skip(2))->0).1), (var_dec(s0.skip(2))->0).0 as int);
    proof { lemma_bits(); lemma_nv(bits, 0, bits.len() as int); if src.len() == 0 { lemma_all_null(bits, Seq::<bool>::empty()); } else { assert(s0.skip(1).skip(1) =~= s0.skip(2)); assert(HEADER_LEN == 1); } }
@loop 0
    invariant nx <= bits.len(), bit_index == nv(bits, nx as int), s0.len() > 1, src@ =~= s0.skip(2 + (var_dec(s0.skip(2))->0).1), count == (var_dec(s0.skip(2))->0).0, count >= nv(bits, bits.len() as int),
      builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); }
@end

//@extract tskv/src/tsm/codec/boolean.rs fn bool_without_compress_encode
@ret r
@loops 1
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@spec
    requires old(dst).len() == 0
    ensures r is Ok, final(dst).len() == 1 + src.len(), final(dst)@[0] == Encoding::Null, forall|k: int| 0 <= k < src.len() ==> #[trigger] final(dst)@[1 + k] == if src@[k] { 1u8 } else { 0u8 }
@iter 0 it
@loop 0
    invariant it.seq().len() == src.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == src@[k],
      dst.len() == 1 + it.index@, dst@[0] == Encoding::Null, forall|k: int| 0 <= k < it.index@ ==> #[trigger] dst@[1 + k] == if src@[k] { 1u8 } else { 0u8 }
@end
struct It<'a> { s: &'a [u8], p: usize }
impl<'a> It<'a> {
    // s.iter().next()
    fn next(&mut self) -> (r: Option<&'a u8>)
        requires old(self).p <= old(self).s.len()
        ensures final(self).s == old(self).s, old(self).p == old(self).s.len() ==> r is None && final(self).p == old(self).p,
           old(self).p < old(self).s.len() ==> final(self).p == old(self).p + 1 && r is Some && *r->0 == old(self).s@[old(self).p as int]
    { if self.p < self.s.len() { let x = &self.s[self.p]; self.p = self.p + 1; Some(x) } else { None } }
}
//@extract tskv/src/tsm/codec/boolean.rs fn bool_without_compress_decode
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 1
@subst /BooleanArray::from\(vec!\[\] as Vec<bool>\)/ => BooleanArray::from_plain(Vec::new())
@subst /let mut (\w+) = src\.iter\(\);/ => let mut \1 = It { s: src, p: 0 };
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@spec
    requires src.len() >= 1 + bit_set.n()
    ensures r is Ok, (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::new((src.len() - 1) as nat, |k: int| src@[k + 1] == 1))
@at start
    let ghost s0 = src@; let ghost bits = bit_set.bits@; let ghost vals = Seq::new((src.len() - 1) as nat, |k: int| s0[k + 1] == 1);
    proof { lemma_nv(bits, 0, bits.len() as int); }
@loop 0
    invariant nx <= bits.len(), iter.s@ == s0.skip(1), iter.p == nv(bits, nx as int), builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); }
@end

// ---- the property: what is written is what is read ----
fn round_trip(src: &[bool], bits: &NullBuffer)
    requires src.len() < 0x10_0000_0000_0000, src.len() == bits.n()
{
    let mut dst: Vec<u8> = Vec::new();
    let e = bool_bitpack_encode(src, &mut dst);
    proof { if src.len() == 0 { assert(src@ =~= Seq::<bool>::empty()); } else {
        let t = dst@.skip(2); let vl = var_enc(src.len() as u64).len() as int; lemma_var(src.len() as u64, t); assert(t.take(vl) =~= dst@.subrange(2, 2 + vl)); } }
    let r = bool_bitpack_decode(&dst, bits);
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
    let mut raw: Vec<u8> = Vec::new();
    let e = bool_without_compress_encode(src, &mut raw);
    let r = bool_without_compress_decode(&raw, bits);
    proof { assert forall|k: int| 0 <= k < src.len() implies (raw@[k + 1] == 1) == src@[k] by { assert(raw@[1 + k] == if src@[k] { 1u8 } else { 0u8 }); } assert(Seq::new((raw.len() - 1) as nat, |k: int| raw@[k + 1] == 1) =~= src@); }
    assert(e is Ok && r is Ok && (*r->Ok_0).v@ =~= spread(bits.bits@, src@));
}
}
fn main() {}
