// ---- the QUANTILE codec: the pco crate's compressor behind the codec id ----
uninterp spec fn pco(v: Seq<i64>) -> Seq<u8>;
uninterp spec fn unpco(b: Seq<u8>) -> Option<Seq<i64>>;
#[verifier::external_body]
proof fn axiom_pco(v: Seq<i64>) ensures unpco(pco(v)) == Some(v) {}
const DEFAULT_COMPRESSION_LEVEL: usize = 8;
#[verifier::external_body]
fn simpler_compress(s: &[i64], level: usize) -> (r: Result<Vec<u8>, CodecError>) ensures r is Ok, r->Ok_0@ == pco(s@) { unimplemented!() }
#[verifier::external_body]
fn simple_decompress(s: &[u8]) -> (r: Result<Vec<i64>, CodecError>) ensures unpco(s@) is Some ==> r is Ok && r->Ok_0@ == unpco(s@)->0 { unimplemented!() }
struct Vals<'a> { s: &'a [i64], p: usize }
impl<'a> Vals<'a> {
    // v.iter().next()
    fn next(&mut self) -> (r: Option<&'a i64>)
        requires old(self).p <= old(self).s.len()
        ensures final(self).s == old(self).s, old(self).p == old(self).s.len() ==> r is None && final(self).p == old(self).p,
           old(self).p < old(self).s.len() ==> final(self).p == old(self).p + 1 && r is Some && *r->0 == old(self).s@[old(self).p as int]
    { if self.p < self.s.len() { let x = &self.s[self.p]; self.p = self.p + 1; Some(x) } else { None } }
}
//@extract tskv/src/tsm/codec/timestamp.rs fn ts_pco_encode
@ret r
@subst /\bEncoding::(\w+) as u8/ => Encoding::\1
@subst /(\w+)\.append\(&mut (.*?)\?\);/ => let mut packed = \2?; \1.append(&mut packed);
@spec
    requires old(dst).len() == 0
    ensures r is Ok, src.len() == 0 ==> final(dst).len() == 0, src.len() > 0 ==> final(dst)@ =~= seq![Encoding::Quantile] + pco(src@)
@end
//@extract tskv/src/tsm/codec/timestamp.rs fn ts_pco_decode_to_array
@attr #[verifier::loop_isolation(false)]
@ret r
@subst /for (\w+) in (\w+)\.iter\(\) \{/ => let mut nx: usize = 0; while nx < \2.len() { let \1 = \2.is_valid(nx); nx += 1;
@subst /let mut (\w+) = (\w+)\.iter\(\);/ => let mut \1 = Vals { s: &\2, p: 0 };
@loops 1
@spec
    requires src.len() > 0 ==> unpco(src@.skip(1)) is Some && unpco(src@.skip(1))->0.len() >= bit_set.n(), src.len() == 0 ==> bit_set.n() == 0
    ensures r is Ok, src.len() == 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, Seq::<i64>::empty()), src.len() > 0 ==> (*r->Ok_0).v@ =~= spread(bit_set.bits@, unpco(src@.skip(1))->0)
@at start
    let ghost bits = bit_set.bits@; let ghost vals = unpco(src@.skip(1))->0;
    proof { if src.len() == 0 { lemma_all_null(bits, Seq::<i64>::empty()); } }
@loop 0
    invariant nx <= bits.len(), iter.s@ == vals, iter.p == nv(bits, nx as int), vals.len() >= nv(bits, bits.len() as int),
      builder.v@ =~= spread(bits, vals).take(nx as int)
    decreases bits.len() - nx
@at loop-start 0
    proof { lemma_nv(bits, nx as int, bits.len() as int); lemma_nv(bits, nx as int, nx as int + 1); }
@end
