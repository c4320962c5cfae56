// ---- simple8b: the words of the format and what they stand for ----
#[derive(Debug)]
struct CodecError { c: u8 }

//@include be.inc
#[verifier::external_body]
fn from_be8(b: [u8; 8]) -> (r: u64) ensures r == unbe64(b@) { u64::from_be_bytes(b) }
// buf.copy_from_slice(&src[a..b]) on an 8-byte buffer
#[verifier::external_body]
fn sub8(s: &[u8], a: usize, b: usize) -> (r: [u8; 8]) requires a + 8 == b, b <= s.len() ensures r@ == s@.subrange(a as int, b as int)
{ let mut x = [0u8; 8]; x.copy_from_slice(&s[a..b]); x }

// how many values a word of selector `sel` holds, and how wide each is
spec fn cnt(sel: u64) -> int {
    if sel == 0 { 240 } else if sel == 1 { 120 } else if sel == 2 { 60 } else if sel == 3 { 30 } else if sel == 4 { 20 } else if sel == 5 { 15 }
    else if sel == 6 { 12 } else if sel == 7 { 10 } else if sel == 8 { 8 } else if sel == 9 { 7 } else if sel == 10 { 6 } else if sel == 11 { 5 }
    else if sel == 12 { 4 } else if sel == 13 { 3 } else if sel == 14 { 2 } else if sel == 15 { 1 } else { 0 }
}
spec fn wid(sel: u64) -> int {
    if sel == 2 { 1 } else if sel == 3 { 2 } else if sel == 4 { 3 } else if sel == 5 { 4 } else if sel == 6 { 5 } else if sel == 7 { 6 }
    else if sel == 8 { 7 } else if sel == 9 { 8 } else if sel == 10 { 10 } else if sel == 11 { 12 } else if sel == 12 { 15 } else if sel == 13 { 20 }
    else if sel == 14 { 30 } else if sel == 15 { 60 } else { 0 }
}
spec fn field(v: u64, s: int, b: int) -> u64 { (v >> (s as u64)) & (sub(1u64 << (b as u64), 1)) }
spec fn unpack(v: u64) -> Seq<u64> {
    Seq::new(cnt(v >> 60) as nat, |k: int| if (v >> 60) <= 1 { 1u64 } else { field(v, k * wid(v >> 60), wid(v >> 60)) })
}
spec fn flat(w: Seq<u64>) -> Seq<u64> decreases w.len() { if w.len() == 0 { Seq::empty() } else { flat(w.drop_last()) + unpack(w.last()) } }
spec fn words(b: Seq<u8>) -> Seq<u64> { Seq::new(b.len() / 8, |k: int| unbe64(b.subrange(8 * k, 8 * k + 8))) }
// the values a simple8b byte string stands for
spec fn s8(b: Seq<u8>) -> Seq<u64> { flat(words(b)) }

proof fn lemma_s8_push(b: Seq<u8>, w: Seq<u8>)
    requires b.len() % 8 == 0, w.len() == 8
    ensures (b + w).len() % 8 == 0, s8(b + w) == s8(b) + unpack(unbe64(w))
{
    let c = b + w; let n = (b.len() / 8) as int;
    assert(c.len() / 8 == n + 1);
    assert forall|k: int| 0 <= k < n implies words(c)[k] == words(b)[k] by { assert(c.subrange(8 * k, 8 * k + 8) =~= b.subrange(8 * k, 8 * k + 8)); }
    assert(c.subrange(8 * n, 8 * n + 8) =~= w);
    assert(words(c).drop_last() =~= words(b));
    assert(words(c).last() == unbe64(w));
}
proof fn lemma_s8_empty(b: Seq<u8>) requires b.len() == 0 ensures s8(b) == Seq::<u64>::empty() { assert(words(b).len() == 0); }
proof fn lemma_sel(v: u64) ensures (v >> 60) <= 15 { assert((v >> 60) <= 15) by (bit_vector); }
// masks of the decoder are the field widths of the table
proof fn lemma_masks()
    ensures sub(1u64 << 1u64, 1) == 0x01, sub(1u64 << 2u64, 1) == 0x03, sub(1u64 << 3u64, 1) == 0x07, sub(1u64 << 4u64, 1) == 0x0f, sub(1u64 << 5u64, 1) == 0x1f,
      sub(1u64 << 6u64, 1) == 0x3f, sub(1u64 << 7u64, 1) == 0x7f, sub(1u64 << 8u64, 1) == 0xff, sub(1u64 << 10u64, 1) == 0x3ff, sub(1u64 << 12u64, 1) == 0xfff,
      sub(1u64 << 15u64, 1) == 0x7fff, sub(1u64 << 20u64, 1) == 0xf_ffff, sub(1u64 << 30u64, 1) == 0x3fff_ffff, sub(1u64 << 60u64, 1) == 0x0fff_ffff_ffff_ffff
{
    assert(sub(1u64 << 1u64, 1) == 0x01 && sub(1u64 << 2u64, 1) == 0x03 && sub(1u64 << 3u64, 1) == 0x07 && sub(1u64 << 4u64, 1) == 0x0f && sub(1u64 << 5u64, 1) == 0x1f
     && sub(1u64 << 6u64, 1) == 0x3f && sub(1u64 << 7u64, 1) == 0x7f && sub(1u64 << 8u64, 1) == 0xff && sub(1u64 << 10u64, 1) == 0x3ff && sub(1u64 << 12u64, 1) == 0xfff
     && sub(1u64 << 15u64, 1) == 0x7fff && sub(1u64 << 20u64, 1) == 0xf_ffff && sub(1u64 << 30u64, 1) == 0x3fff_ffff && sub(1u64 << 60u64, 1) == 0x0fff_ffff_ffff_ffff) by (bit_vector);
}
proof fn lemma_shift0(v: u64) ensures v >> 0u64 == v { assert(v >> 0u64 == v) by (bit_vector); }
proof fn lemma_shift_add(v: u64, s: u64, b: u64) requires s + b < 64 ensures (v >> s) >> b == v >> ((s + b) as u64)
{ assert((v >> s) >> b == v >> add(s, b)) by (bit_vector) requires s < 64, b < 64, add(s, b) < 64; }
proof fn lemma_next_shift(v: u64, k: int, b: int)
    requires 0 <= k, 0 < b, (k + 1) * b <= 60
    ensures (v >> ((k * b) as u64)) >> (b as u64) == v >> (((k + 1) * b) as u64), 0 <= k * b < 60
{
    assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    assert(0 <= k * b) by (nonlinear_arith) requires 0 <= k, 0 < b;
    lemma_shift_add(v, (k * b) as u64, b as u64);
}
proof fn lemma_table(sel: u64)
    ensures sel <= 15 ==> cnt(sel) >= 1, 2 <= sel <= 15 ==> 1 <= wid(sel) <= 60, 2 <= sel <= 15 ==> cnt(sel) * wid(sel) <= 60,
      forall|k: int| 0 <= k < cnt(sel) && 2 <= sel <= 15 ==> 0 <= #[trigger] (k * wid(sel)) <= 60 - wid(sel)
{
    assert forall|k: int| 0 <= k < cnt(sel) && 2 <= sel <= 15 implies 0 <= #[trigger] (k * wid(sel)) <= 60 - wid(sel) by {
        let w = wid(sel); let c = cnt(sel);
        assert(k * w + w <= c * w) by (nonlinear_arith) requires k + 1 <= c, w >= 0;
        assert(k * w >= 0) by (nonlinear_arith) requires k >= 0, w >= 0;
    }
}
// one more field put into a word
spec fn packed(val: u64, sel: u64, k: int, want: Seq<u64>) -> bool {
    &&& val >> 60 == sel
    &&& (val & 0x0fff_ffff_ffff_ffff) >> ((k * wid(sel)) as u64) == 0
    &&& forall|j: int| 0 <= j < k ==> field(val, #[trigger] (j * wid(sel)), wid(sel)) == want[j]
}
proof fn lemma_or(v: u64, x: u64, s: u64, b: u64)
    requires s + b <= 60, b >= 1, x < (1u64 << b), (v & 0x0fff_ffff_ffff_ffff) >> s == 0
    ensures ((v | (x << s)) >> s) & sub(1u64 << b, 1) == x,
       ((v | (x << s)) & 0x0fff_ffff_ffff_ffff) >> ((s + b) as u64) == 0,
       (v | (x << s)) >> 60 == v >> 60
{
    assert(((v | (x << s)) >> s) & sub(1u64 << b, 1) == x && ((v | (x << s)) & 0x0fff_ffff_ffff_ffff) >> add(s, b) == 0 && (v | (x << s)) >> 60 == v >> 60) by (bit_vector)
      requires s < 60, b >= 1, b <= 60, add(s, b) <= 60, x < (1u64 << b), (v & 0x0fff_ffff_ffff_ffff) >> s == 0;
}
proof fn lemma_or_keep(v: u64, x: u64, s: u64, t: u64, b: u64)
    requires t + b <= s, s < 60, b >= 1
    ensures ((v | (x << s)) >> t) & sub(1u64 << b, 1) == (v >> t) & sub(1u64 << b, 1)
{
    assert(((v | (x << s)) >> t) & sub(1u64 << b, 1) == (v >> t) & sub(1u64 << b, 1)) by (bit_vector)
      requires t < 60, b <= 60, b >= 1, add(t, b) <= s, s < 60;
}
proof fn lemma_pack(val: u64, sel: u64, k: int, want: Seq<u64>, x: u64)
    requires packed(val, sel, k, want), 2 <= sel <= 15, 0 <= k < cnt(sel), x == want[k], x < (1u64 << (wid(sel) as u64))
    ensures 0 <= k * wid(sel) < 60, packed(val | (x << ((k * wid(sel)) as u64)), sel, k + 1, want)
{
    let b = wid(sel); lemma_table(sel);
    let s = k * b;
    lemma_or(val, x, s as u64, b as u64);
    assert((k + 1) * b == s + b) by (nonlinear_arith) requires s == k * b;
    let nv = val | (x << (s as u64));
    assert forall|j: int| 0 <= j < k + 1 implies field(nv, #[trigger] (j * b), b) == want[j] by {
        if j < k {
            assert(j * b + b <= k * b) by (nonlinear_arith) requires j + 1 <= k, b >= 1;
            assert(0 <= j * b) by (nonlinear_arith) requires j >= 0, b >= 1;
            lemma_or_keep(val, x, s as u64, (j * b) as u64, b as u64);
        }
    }
}
proof fn lemma_pack_start(sel: u64, want: Seq<u64>)
    requires 2 <= sel <= 15 ensures packed((sel << 60) as u64, sel, 0, want)
{
    assert((sel << 60) >> 60 == sel) by (bit_vector) requires sel <= 15;
    assert(((sel << 60) & 0x0fff_ffff_ffff_ffff) >> 0u64 == 0) by (bit_vector);
    assert(0 * wid(sel) == 0) by (nonlinear_arith);
}
proof fn lemma_pack_end(val: u64, sel: u64, want: Seq<u64>)
    requires packed(val, sel, cnt(sel), want), 2 <= sel <= 15, want.len() >= cnt(sel)
    ensures unpack(val) == want.take(cnt(sel))
{
    lemma_table(sel);
    assert(unpack(val) =~= want.take(cnt(sel))) by {
        assert forall|j: int| 0 <= j < cnt(sel) implies unpack(val)[j] == want[j] by { assert(field(val, j * wid(sel), wid(sel)) == want[j]); }
    }
}
// a.iter().take_while(f).count()
fn take_while_count<F: Fn(&&u64) -> bool>(a: &[u64], f: F) -> (r: usize)
    requires forall|x: &&u64| f.requires((x,))
    ensures r <= a.len(), forall|k: int| 0 <= k < r ==> f.ensures((&&#[trigger] a@[k],), true), r < a.len() ==> f.ensures((&&a@[r as int],), false)
{
    let mut n: usize = 0;
    while n < a.len() && f(&&a[n])
        invariant n <= a.len(), forall|x: &&u64| f.requires((x,)), forall|k: int| 0 <= k < n ==> f.ensures((&&#[trigger] a@[k],), true)
        ensures n <= a.len(), forall|k: int| 0 <= k < n ==> f.ensures((&&#[trigger] a@[k],), true), n < a.len() ==> f.ensures((&&a@[n as int],), false)
        decreases a.len() - n
    { n += 1; }
    n
}
// &mut dst[j..]
#[verifier::external_body]
fn tail_mut(d: &mut Vec<u64>, j: usize) -> (r: &mut [u64])
    requires j <= old(d).len()
    ensures r@ == old(d)@.skip(j as int), final(d)@ == old(d)@.take(j as int) + final(r)@, final(r)@.len() == r@.len()
{ &mut d[j..] }

//@extract tskv/src/tsm/codec/simple8b.rs const S8B_BIT_SIZE
@end
//@extract tskv/src/tsm/codec/simple8b.rs const MAX_VALUE
@subst /const MAX_VALUE: u64 = (.*?);$/ => const MAX_VALUE: u64 = 0x0fff_ffff_ffff_ffff; exec const MAX_VALUE_SRC: u64 ensures MAX_VALUE_SRC == MAX_VALUE { assert(1u64 << 60 == 0x1000_0000_0000_0000) by (bit_vector); \1 }
@end
//@extract tskv/src/tsm/codec/simple8b.rs const NUM_BITS
@subst /const NUM_BITS: (\S+ \d+\]) = (.*);$/ => exec const NUM_BITS: \1 ensures NUM_BITS@.len() == 14, forall|i: int| 0 <= i < 14 ==> (#[trigger] NUM_BITS@[i])@[0] == cnt((i + 2) as u64) && NUM_BITS@[i]@[1] == wid((i + 2) as u64) { \2 }
@end

//@extract tskv/src/tsm/codec/simple8b.rs fn encode
@attr #[verifier::loop_isolation(false)]
@ret r
@loops 3
@subst /'codes: for \((\w+), (\w+)\) in NUM_BITS\.iter\(\)\.enumerate\(\) \{/ => let mut nx: usize = 0; 'codes: while nx < NUM_BITS.len() { let \1 = nx; let \2 = &NUM_BITS[nx]; nx += 1;
@subst /for \((\w+), (\w+)\) in src\[i\.\.\]\.iter\(\)\.enumerate\(\) \{/ => let mut ny: usize = 0; while ny < src.len() - i { let \1 = ny; let \2 = src[i + ny]; ny += 1;
@subst /\*(in_v\b)/ => \1
@subst /(\w+)\.iter\(\)\.take_while\(\|(\w+)\| (.+?)\)\.count\(\)/ => take_while_count(\1, |\2: &&u64| -> (b: bool) ensures b == (**\2 == 1) { \3 })
@subst /(\w+)\.extend_from_slice\(&(\w+|\([^()]*\))\.to_be_bytes\(\)\)/ => put_be(\1, \2)
@subst /From::from\("[^"]*"\)/ => CodecError { c: 0 }
@spec
    requires src.len() < 0x1_0000_0000, old(dst).len() < 0x1_0000_0000
    ensures
        final(dst).len() >= old(dst).len(), final(dst)@.take(old(dst).len() as int) == old(dst)@,
        r is Ok ==> (final(dst).len() - old(dst).len()) % 8 == 0 && s8(final(dst)@.skip(old(dst).len() as int)) == src@,
        final(dst).len() <= old(dst).len() + 8 * src.len(),
        (forall|k: int| 0 <= k < src.len() ==> src@[k] <= 0x0fff_ffff_ffff_ffff) ==> r is Ok
@at start
    let ghost d0 = dst@;
    proof { lemma_s8_empty(d0.skip(d0.len() as int)); assert(src@.take(0) =~= Seq::<u64>::empty()); assert(d0.take(d0.len() as int) =~= d0);
      assert((1u64 << 60) == 0x1000_0000_0000_0000) by (bit_vector); assert(src@.take(src@.len() as int) =~= src@); }
@loop 0
    invariant i <= src.len(), dst.len() >= d0.len(), dst@.take(d0.len() as int) == d0, (dst.len() - d0.len()) % 8 == 0,
       dst.len() - d0.len() <= 8 * i, s8(dst@.skip(d0.len() as int)) == src@.take(i as int)
    decreases src.len() - i
@at after-loop 0
    proof { assert(i == src.len()); }
@at loop-start 0
    let ghost i0 = i as int;
    let ghost e0 = dst@;
    proof { assert((e0.skip(d0.len() as int)).len() % 8 == 0); }
@at after /k == 240 \{/
    proof { let w = Seq::<u8>::new(8, |q: int| 0u8); lemma_s8_push(e0.skip(d0.len() as int), w);
      assert(unbe64(w) == 0) by { assert((0u64 << 56) | (0u64 << 48) | (0u64 << 40) | (0u64 << 32) | (0u64 << 24) | (0u64 << 16) | (0u64 << 8) | 0u64 == 0) by (bit_vector); }
      assert(0u64 >> 60 == 0) by (bit_vector);
      assert((e0 + w).skip(d0.len() as int) =~= e0.skip(d0.len() as int) + w);
      assert((e0 + w).take(d0.len() as int) =~= e0.take(d0.len() as int));
      let ones = src@.subrange(i0, i0 + 240);
      assert forall|q: int| 0 <= q < 240 implies #[trigger] ones[q] == 1 by { assert(a@[q] == src@[i0 + q]); }
      assert(src@.take(i0 + 240) =~= src@.take(i0) + ones); assert(ones =~= unpack(0)); }
@at after /\.resize\([^;]*;/
    proof { assert(dst@ =~= e0 + Seq::<u8>::new(8, |q: int| 0u8)); }
@at after /k >= 120 \{/
    proof { let v = 1u64 << 60; let w = be64(v); lemma_be(v); lemma_s8_push(e0.skip(d0.len() as int), w);
      assert((1u64 << 60) >> 60 == 1) by (bit_vector);
      assert((e0 + w).skip(d0.len() as int) =~= e0.skip(d0.len() as int) + w);
      assert((e0 + w).take(d0.len() as int) =~= e0.take(d0.len() as int));
      let ones = src@.subrange(i0, i0 + 120);
      assert forall|q: int| 0 <= q < 120 implies #[trigger] ones[q] == 1 by { assert(a@[q] == src@[i0 + q]); }
      assert(src@.take(i0 + 120) =~= src@.take(i0) + ones); assert(ones =~= unpack(v)); }
@loop 1
    invariant nx <= 14, dst@ == e0, i == i0, nx == 14 ==> src@[i0] > 0x0fff_ffff_ffff_ffff
    decreases 14 - nx
@at before /let max_val/
    proof { lemma_table((idx + 2) as u64); assert((bit_n & 0x3f) == bit_n) by (bit_vector) requires bit_n < 64; }
@at after /max_val = [^;]*;/
    let ghost want = src@.skip(i0);
    let ghost sel = (idx + 2) as u64;
    proof { lemma_table(sel); lemma_pack_start(sel, want);
       assert(max_val == 1u64 << (wid(sel) as u64)); }
@loop 2
    invariant ny <= src.len() - i, 2 <= sel <= 15, sel == idx + 2, int_n == cnt(sel), bit_n == wid(sel), int_n <= src.len() - i, want == src@.skip(i0), want.len() == src.len() - i,
       dst@ == e0, i == i0, nx == idx + 1, max_val == 1u64 << (wid(sel) as u64), idx < 14, ny <= int_n + 1,
       packed(val, sel, if ny <= int_n { ny as int } else { cnt(sel) }, want)
    decreases src.len() - i - ny
@at loop-start 2
    proof { lemma_table(sel);
      if ny < cnt(sel) { assert(want[ny as int] == src@[i0 + ny]); assert(0 <= ny * wid(sel) <= 60 - wid(sel)); let s: u8 = ((ny * wid(sel)) as usize) as u8;
        assert((s & 0x3f) == s) by (bit_vector) requires s < 64;
        if src@[i0 + ny] < max_val { lemma_pack(val, sel, ny as int, want, src@[i0 + ny]); } } }
@at after-loop 2
    proof { lemma_pack_end(val, sel, want); let w = be64(val); lemma_be(val); lemma_s8_push(e0.skip(d0.len() as int), w);
      assert((e0 + w).skip(d0.len() as int) =~= e0.skip(d0.len() as int) + w);
      assert((e0 + w).take(d0.len() as int) =~= e0.take(d0.len() as int));
      assert(src@.take(i0 + int_n) =~= src@.take(i0) + want.take(cnt(sel))); }
@end

fn put_be(d: &mut Vec<u8>, v: u64) ensures final(d)@ == old(d)@ + be64(v)
{ let b = to_be8(v); d.extend_from_slice(&b); assert(d@ =~= old(d)@ + be64(v)); }

//@extract tskv/src/tsm/codec/simple8b.rs fn decode_value
@attr #[verifier::loop_isolation(false)]
@ret r
@subst /for (\w+) in &mut (\w+)\[0\.\.(\d+)\] \{\s*\*\1 =(.*?)\}/ => { let mut nx: usize = 0; while nx < \3 invariant nx <= \3, \2.len() == old(\2).len(), sel >= 2 ==> v == v0 >> ((nx * wid(sel)) as u64), forall|q: int| 0 <= q < nx ==> #[trigger] \2@[q] == unpack(v0)[q] decreases \3 - nx { proof { if sel >= 2 { lemma_next_shift(v0, nx as int, wid(sel)); } } \2[nx] =\4; nx += 1; } }
@spec
    requires old(dst).len() >= 240
    ensures final(dst).len() == old(dst).len(), r == unpack(v).len(), r <= 240, forall|q: int| 0 <= q < r ==> #[trigger] final(dst)@[q] == unpack(v)[q]
@at after /let mut v = v;/
    let ghost v0 = v;
    proof { lemma_sel(v0); lemma_masks(); lemma_table(sel); lemma_shift0(v0); assert(0 * wid(sel) == 0) by (nonlinear_arith); }
@end

//@extract tskv/src/tsm/codec/simple8b.rs fn decode
@attr #[verifier::loop_isolation(false)]
@subst /(\w+)\.copy_from_slice\(&(\w+)\[(.+?)\.\.(.+?)\]\)/ => \1 = sub8(\2, \3, \4)
@subst /u64::from_be_bytes\((\w+)\)/ => from_be8(\1)
@subst /&mut (\w+)\[(\w+)\.\.\]/ => tail_mut(\1, \2)
@loops 1
@spec
    requires src.len() % 8 == 0, src.len() < 0x100_0000_0000
    ensures final(dst)@ == s8(src@)
@at start
    proof { lemma_s8_empty(src@.take(0)); assert(src@.take(src@.len() as int) =~= src@); assert(dst@.take(0) =~= Seq::<u64>::empty()); }
@loop 0
    invariant i <= src.len(), i % 8 == 0, j <= dst.len(), j <= 30 * i, dst@.take(j as int) == s8(src@.take(i as int))
    decreases src.len() - i
@at loop-start 0
    let ghost (j0, p0) = (j as int, dst@.take(j as int));
    proof { lemma_s8_push(src@.take(i as int), src@.subrange(i as int, i + 8)); assert(src@.take(i + 8) =~= src@.take(i as int) + src@.subrange(i as int, i + 8)); }
@at loop-end 0
    proof { assert(dst@.take(j as int) =~= p0 + unpack(unbe64(src@.subrange(i - 8, i as int)))); }
@end
