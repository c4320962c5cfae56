use vstd::prelude::*;
verus! {
//@extract common/metrics/src/metric_value.rs struct ValueBucket
@subst /struct ValueBucket<T>/ => struct ValueBucket
@subst /le: T/ => le: u64
@end
struct Buckets { v: Vec<ValueBucket> }
impl Buckets {
    // slice::iter_mut().find(): the first bucket the predicate accepts
    #[verifier::external_body]
    fn find<F: Fn(&ValueBucket) -> bool>(&mut self, f: F) -> (r: Option<&mut ValueBucket>)
        requires forall|b: &ValueBucket| f.requires((b,))
        ensures
          r is None ==> *final(self) == *old(self) && forall|k: int| 0 <= k < old(self).v@.len() ==> f.ensures((&#[trigger] old(self).v@[k],), false),
          r is Some ==> exists|i: int| #[trigger] found(old(self).v@, final(self).v@, i, *r->0, *final(r->0)) && f.ensures((&old(self).v@[i],), true)
             && forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] old(self).v@[k],), false)
    { unimplemented!() }
}
spec fn found(a: Seq<ValueBucket>, b: Seq<ValueBucket>, i: int, before: ValueBucket, after: ValueBucket) -> bool {
    0 <= i < a.len() && before == a[i] && b == a.update(i, after)
}
//@extract common/metrics/src/metric_value.rs struct HistogramValue
@subst /struct HistogramValue<T>/ => struct HistogramValue
@subst /total: T/ => total: u64
@subst /Vec<ValueBucket<T>>/ => Buckets
@end
struct U64Histogram { x: u8 }
spec fn m64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
spec fn sorted(v: Seq<ValueBucket>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> v[i].le <= v[j].le }
// one observation: the smallest threshold that covers it counts it, everything else is unchanged
spec fn recorded(a: HistogramValue, b: HistogramValue, value: u64, count: u64) -> bool {
    if a.buckets.v@.len() == 0 || value > a.buckets.v@.last().le { a == b }
    else {
        exists|i: int| 0 <= i < a.buckets.v@.len() && value <= (#[trigger] a.buckets.v@[i]).le && (forall|k: int| 0 <= k < i ==> (#[trigger] a.buckets.v@[k]).le < value)
            && b.buckets.v@ == a.buckets.v@.update(i, ValueBucket { le: a.buckets.v@[i].le, count: m64(a.buckets.v@[i].count + count) as u64 })
            && b.total == m64(a.total + m64(value * count))
    }
}
//@extract common/metrics/src/histogram.rs U64Histogram::record_multiple
@subst /&self, value: u64/ => state: &mut HistogramValue, value: u64
@subst /let mut state = self\.shared\.lock\(\);/ => 
@subst /\.iter_mut\(\)\s*\.find\(\|bucket\| ([^)]*)\)\s*\.as_mut\(\)/ => .find(|bucket: &ValueBucket| -> (r: bool) ensures r == (value <= bucket.le) { \1 })
@spec
    requires sorted(old(state).buckets.v@)
    ensures recorded(*old(state), *final(state), value, count)
@end
//@extract common/metrics/src/histogram.rs U64Histogram::record
@subst /&self, value: u64/ => state: &mut HistogramValue, value: u64
@subst /self\.record_multiple\(/ => Self::record_multiple(state, 
@spec
    requires sorted(old(state).buckets.v@)
    ensures recorded(*old(state), *final(state), value, 1)
@end
struct AtomicU64 { x: u64 }
enum Ordering { Relaxed }
impl AtomicU64 {
    uninterp spec fn val(&self) -> u64;
    #[verifier::external_body]
    fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self).val(), final(self).val() == m64(old(self).val() + n) { unimplemented!() }
    #[verifier::external_body]
    fn load(&self, o: Ordering) -> (r: u64) ensures r == self.val() { unimplemented!() }
    #[verifier::external_body]
    fn store(&mut self, n: u64, o: Ordering) ensures final(self).val() == n { unimplemented!() }
}
struct U64Counter { state: AtomicU64 }
//@extract common/metrics/src/count.rs U64Counter::inc
@subst /&self/ => &mut self
@spec
    ensures final(self).state.val() == m64(old(self).state.val() + count)
@end
//@extract common/metrics/src/count.rs U64Counter::inc_one
@subst /&self/ => &mut self
@spec
    ensures final(self).state.val() == m64(old(self).state.val() + 1)
@end
//@extract common/metrics/src/count.rs U64Counter::fetch
@ret r
@spec
    ensures r == self.state.val()
@end
struct U64Gauge { state: AtomicU64 }
//@extract common/metrics/src/gauge.rs U64Gauge::set
@subst /&self/ => &mut self
@spec
    ensures final(self).state.val() == value
@end
//@extract common/metrics/src/gauge.rs U64Gauge::fetch
@ret r
@spec
    ensures r == self.state.val()
@end
//@helpers
}
