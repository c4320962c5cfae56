use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::relations::*;
use vstd::seq_lib::*;
verus! {
// ---- strings: opaque owners of bytes --------------------------------------------------
struct Str { x: Vec<u8> }
impl Str {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn cmp(&self, o: &Str) -> (r: Ordering) ensures r == lex(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Str) -> (r: Option<Ordering>) ensures r == Some(lex(self@, o@)) { unimplemented!() }
}
// lexicographic order of byte strings
spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
proof fn lex_anti(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) == Ordering::Less <==> lex(b, a) == Ordering::Greater, lex(a, b) == Ordering::Equal <==> a == b, lex(a, b) == Ordering::Equal <==> lex(b, a) == Ordering::Equal
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lex_anti(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) != Ordering::Greater, lex(b, c) != Ordering::Greater ensures lex(a, c) != Ordering::Greater
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}

// ---- the hash: one polynomial over the bytes, whatever the chunking --------------------
spec fn poly(n: u64, b: Seq<u8>) -> u64 decreases b.len()
{
    if b.len() == 0 { n } else {
        let p = poly(n, b.drop_last()) as int;
        ((p * 1313 + b.last()) % 0x1_0000_0000_0000_0000) as u64
    }
}
proof fn poly_concat(n: u64, a: Seq<u8>, b: Seq<u8>) ensures poly(n, a + b) == poly(poly(n, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); poly_concat(n, a, b.drop_last()); }
}
// the bytes of a row's series: table, then name and value of each tag
spec fn flat(t: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { flat(t.drop_last()) + t.last().0 + t.last().1 } }
spec fn series_hash(table: Seq<u8>, t: Seq<(Seq<u8>, Seq<u8>)>) -> u64 { poly(0, table + flat(t)) }
proof fn flat_step(table: Seq<u8>, t: Seq<(Seq<u8>, Seq<u8>)>, i: int)
    requires 0 <= i < t.len()
    ensures poly(poly(series_hash(table, t.take(i)), t[i].0), t[i].1) == series_hash(table, t.take(i + 1))
{
    assert(t.take(i + 1).drop_last() =~= t.take(i));
    poly_concat(0, table + flat(t.take(i)), t[i].0);
    poly_concat(0, table + flat(t.take(i)) + t[i].0, t[i].1);
    assert(table + flat(t.take(i + 1)) =~= table + flat(t.take(i)) + t[i].0 + t[i].1);
}

//@extract common/utils/src/bkdr_hash.rs const SEED
@end
//@extract common/utils/src/bkdr_hash.rs struct BkdrHasher
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::new
@ret r
@spec
    ensures r.number == 0, r.prefix is None
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::with_prefix
@ret r
@spec
    ensures r.number == 0, r.prefix == Some(prefix)
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::with_number
@ret r
@spec
    ensures r.number == number, r.prefix is None
@end
//@extract common/utils/src/bkdr_hash.rs Hasher for BkdrHasher::write
@header impl BkdrHasher
@loops 1
@iter 0 it
@spec
    ensures final(self).number == poly(old(self).number, bytes@), final(self).prefix == old(self).prefix
@loop 0
    invariant self.number == poly(old(self).number, bytes@.take(it.index as int)), self.prefix == old(self).prefix, it.seq().len() == bytes@.len(), forall|k: int| 0 <= k < bytes@.len() ==> *(#[trigger] it.seq()[k]) == bytes@[k], SEED == 1313
@at loop-start 0
    proof { assert(bytes@.take(it.index as int + 1).drop_last() =~= bytes@.take(it.index as int)); assert(bytes@.take(it.index as int + 1).last() == *c);
        let p = self.number as int; assert(((p * 1313) % 0x1_0000_0000_0000_0000 + *c as int) % 0x1_0000_0000_0000_0000 == (p * 1313 + *c as int) % 0x1_0000_0000_0000_0000) by {
          vstd::arithmetic::div_mod::lemma_add_mod_noop(p * 1313, *c as int, 0x1_0000_0000_0000_0000); vstd::arithmetic::div_mod::lemma_small_mod(*c as nat, 0x1_0000_0000_0000_0000); } }
@at after-loop 0
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@end
//@extract common/utils/src/bkdr_hash.rs Hasher for BkdrHasher::finish
@header impl BkdrHasher
@ret r
@spec
    ensures r == self.number
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::hash_with
@ret r
@spec
    ensures r.number == poly(old(self).number, bytes@), r.prefix == old(self).prefix, *final(self) == *final(r)
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::number
@ret r
@spec
    ensures r == self.number
@end
//@extract common/utils/src/bkdr_hash.rs BkdrHasher::number_with_prefix
@ret r
@spec
    ensures self.prefix is None ==> r == self.number as u128,
      self.prefix is Some ==> (r >> 64u128) as u64 == self.prefix->0 && (r & 0xffff_ffff_ffff_ffffu128) as u64 == self.number
@at start
    proof {
        let n = self.number;
        if self.prefix is Some {
            let p = self.prefix->0;
            assert(((p as u128) << 64 | n as u128) >> 64u128 == p as u128) by (bit_vector);
            assert(((p as u128) << 64 | n as u128) & 0xffff_ffff_ffff_ffffu128 == n as u128) by (bit_vector);
        }
    }
@end

// ---- the callers -------------------------------------------------------------------------
type TagKey = Vec<u8>;
type TagValue = Vec<u8>;
//@extract common/models/src/tag.rs struct Tag
@end
//@extract common/models/src/series_info.rs struct SeriesKey
@subst /table: String/ => table: Str
@end
spec fn tv(t: Seq<Tag>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(t.len(), |i: int| (t[i].key@, t[i].value@)) }
//@extract common/models/src/series_info.rs SeriesKey::hash
@ret r
@loops 1
@iter 0 it
@spec
    ensures r == series_hash(self.table@, tv(self.tags@))
@loop 0
    invariant hasher.number == series_hash(self.table@, tv(self.tags@).take(it.index as int)), it.seq().len() == self.tags@.len(), forall|k: int| 0 <= k < self.tags@.len() ==> *(#[trigger] it.seq()[k]) == self.tags@[k]
@at loop-start 0
    proof { flat_step(self.table@, tv(self.tags@), it.index as int); assert(*tag == self.tags@[it.index as int]); }
@at before-loop 0
    proof { assert(self.table@ + flat(tv(self.tags@).take(0)) =~= self.table@); }
@at after-loop 0
    proof { assert(tv(self.tags@).take(self.tags@.len() as int) =~= tv(self.tags@)); }
@end
//@extract common/models/src/tag.rs fn tags_hash_id
@subst /name: &String/ => name: &Str
@ret r
@loops 1
@iter 0 it
@spec
    ensures r == series_hash(name@, tv(tags@))
@loop 0
    invariant hasher.number == series_hash(name@, tv(tags@).take(it.index as int)), it.seq().len() == tags@.len(), forall|k: int| 0 <= k < tags@.len() ==> *(#[trigger] it.seq()[k]) == tags@[k]
@at loop-start 0
    proof { flat_step(name@, tv(tags@), it.index as int); assert(*tag == tags@[it.index as int]); }
@at before-loop 0
    proof { assert(name@ + flat(tv(tags@).take(0)) =~= name@); }
@at after-loop 0
    proof { assert(tv(tags@).take(tags@.len() as int) =~= tv(tags@)); }
@end

// ---- a line of the write protocols --------------------------------------------------------
type Pair = (Str, Str);
struct FieldValue { x: u8 }
struct Tags { v: Vec<Pair> }
spec fn pv(t: Seq<Pair>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(t.len(), |i: int| (t[i].0@, t[i].1@)) }
impl Tags {
    // [T]::sort_by
    #[verifier::external_body]
    fn sort_by<F: Fn(&Pair, &Pair) -> Ordering>(&mut self, f: F)
        requires forall|a: &Pair, b: &Pair| f.requires((a, b))
        ensures final(self).v@.to_multiset() == old(self).v@.to_multiset(), pv(final(self).v@).to_multiset() == pv(old(self).v@).to_multiset(),
          forall|i: int, j: int| #![trigger final(self).v@[i], final(self).v@[j]] 0 <= i < j < final(self).v@.len() ==> exists|o: Ordering| f.ensures((&final(self).v@[i], &final(self).v@[j]), o) && o != Ordering::Greater
    { unimplemented!() }
}
//@extract common/protocol_parser/src/lib.rs struct Line
@subst /struct Line<'a>/ => struct Line
@subst /table: Cow<'a, str>/ => table: Str
@subst /Vec<\(Cow<'a, str>, Cow<'a, str>\)>/ => Tags
@subst /Vec<\(Cow<'a, str>, FieldValue\)>/ => Vec<(Str, FieldValue)>
@end
spec fn le(a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)) -> bool { lex(a.0, b.0) == Ordering::Less || (a.0 == b.0 && lex(a.1, b.1) != Ordering::Greater) }
proof fn le_total() ensures total_ordering(|a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)| le(a, b))
{
    let f = |a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)| le(a, b);
    assert forall|a: (Seq<u8>, Seq<u8>)| #[trigger] f(a, a) by { lex_anti(a.0, a.0); lex_anti(a.1, a.1); }
    assert forall|a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)| #[trigger] f(a, b) && #[trigger] f(b, a) implies a == b by { lex_anti(a.0, b.0); lex_anti(a.1, b.1); }
    assert forall|a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)| #[trigger] f(a, b) || #[trigger] f(b, a) by { lex_anti(a.0, b.0); lex_anti(a.1, b.1); }
    assert forall|a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>), c: (Seq<u8>, Seq<u8>)| #[trigger] f(a, b) && #[trigger] f(b, c) implies f(a, c) by {
        lex_anti(a.0, b.0); lex_anti(b.0, c.0); lex_anti(a.0, c.0); lex_anti(a.1, b.1); lex_anti(b.1, c.1);
        lex_trans(a.0, b.0, c.0);
        if a.0 == b.0 && b.0 == c.0 { lex_trans(a.1, b.1, c.1); }
        else if lex(a.0, c.0) == Ordering::Equal { assert(a.0 == c.0); assert(lex(b.0, c.0) != Ordering::Greater); lex_anti(c.0, b.0); assert(false); }
    }
}
spec fn distinct(t: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i].0 == #[trigger] t[j].0 ==> i == j }
spec fn ordered(t: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> lex(#[trigger] t[i].0, #[trigger] t[j].0) != Ordering::Greater }
// the property: two orders of the same (distinctly named) tags sort to the same sequence, hence the same hash
proof fn order_independent(table: Seq<u8>, a: Seq<(Seq<u8>, Seq<u8>)>, b: Seq<(Seq<u8>, Seq<u8>)>)
    requires a.to_multiset() == b.to_multiset(), distinct(a), distinct(b), ordered(a), ordered(b)
    ensures a == b, series_hash(table, a) == series_hash(table, b)
{
    le_total();
    let f = |a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)| le(a, b);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] f(a[i], a[j]) by { lex_anti(a[i].0, a[j].0); assert(a[i].0 == a[j].0 ==> i == j); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] f(b[i], b[j]) by { lex_anti(b[i].0, b[j].0); assert(b[i].0 == b[j].0 ==> i == j); }
    assert(sorted_by(a, f)); assert(sorted_by(b, f));
    lemma_sorted_unique(a, b, f);
}
//@extract common/protocol_parser/src/lib.rs Line::init_hash_id
@header impl Line
@loops 1
@iter 0 it
@subst /-> Ordering \{/ => -> (o: Ordering) ensures o == lex(a.0@, b.0@) {
@subst /in &self\.tags\b/ => in &self.tags.v
@spec
    ensures
      old(self).hash_id != 0 ==> *final(self) == *old(self),
      final(self).table == old(self).table, pv(final(self).tags.v@).to_multiset() == pv(old(self).tags.v@).to_multiset(),
      old(self).hash_id == 0 ==> ordered(pv(final(self).tags.v@)) && final(self).hash_id == series_hash(old(self).table@, pv(final(self).tags.v@)),
@loop 0
    invariant hasher.number == series_hash(self.table@, pv(self.tags.v@).take(it.index as int)), it.seq().len() == self.tags.v@.len(), forall|k: int| 0 <= k < self.tags.v@.len() ==> *(#[trigger] it.seq()[k]) == self.tags.v@[k], self.table == old(self).table,
@at loop-start 0
    proof { flat_step(self.table@, pv(self.tags.v@), it.index as int); }
@at before-loop 0
    proof { assert(self.table@ + flat(pv(self.tags.v@).take(0)) =~= self.table@); }
@at after-loop 0
    proof { assert(pv(self.tags.v@).take(self.tags.v@.len() as int) =~= pv(self.tags.v@)); }
@end
//@extract common/protocol_parser/src/lib.rs Line::init_ordered_hash_id
@header impl Line
@loops 1
@iter 0 it
@subst /in &self\.tags\b/ => in &self.tags.v
@spec
    ensures
      old(self).hash_id != 0 ==> *final(self) == *old(self), final(self).table == old(self).table, final(self).tags == old(self).tags,
      old(self).hash_id == 0 ==> final(self).hash_id == series_hash(old(self).table@, pv(final(self).tags.v@)),
@loop 0
    invariant hasher.number == series_hash(self.table@, pv(self.tags.v@).take(it.index as int)), it.seq().len() == self.tags.v@.len(), forall|k: int| 0 <= k < self.tags.v@.len() ==> *(#[trigger] it.seq()[k]) == self.tags.v@[k], self.table == old(self).table, self.tags == old(self).tags
@at loop-start 0
    proof { flat_step(self.table@, pv(self.tags.v@), it.index as int); }
@at before-loop 0
    proof { assert(self.table@ + flat(pv(self.tags.v@).take(0)) =~= self.table@); }
@at after-loop 0
    proof { assert(pv(self.tags.v@).take(self.tags.v@.len() as int) =~= pv(self.tags.v@)); }
@end
//@extract common/protocol_parser/src/lib.rs Line::new
@header impl Line
@ret r
@subst /measurement: Cow<'a, str>/ => measurement: Str
@subst /Vec<\(Cow<'a, str>, Cow<'a, str>\)>/ => Tags
@subst /Vec<\(Cow<'a, str>, FieldValue\)>/ => Vec<(Str, FieldValue)>
@subst /Line<'a>/ => Line
@spec
    ensures r.table == measurement, pv(r.tags.v@).to_multiset() == pv(tags.v@).to_multiset(), ordered(pv(r.tags.v@)), r.hash_id == series_hash(measurement@, pv(r.tags.v@))
@end
//@helpers
}
