use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    ensures r == (match x { Ok(v) => v, Err(_) => d });
// ---- chrono, as far as the limiter uses it ------------------------------------------------
pub struct Utc;
pub struct DateTime<Z> { pub ns: Ghost<int>, pub z: Z }
mod chrono {
    use super::*;
    pub use super::DateTime;
    pub struct Duration { pub ns: Ghost<int> }
    impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for Duration {}
    impl Duration {
        #[verifier::external_body] pub fn milliseconds(ms: i64) -> (r: Duration) ensures r.ns@ == ms * 1_000_000 { unimplemented!() }
        #[verifier::external_body] pub fn num_milliseconds(&self) -> (r: i64)
            ensures self.ns@ >= 0 ==> r == self.ns@ / 1_000_000, self.ns@ < 0 ==> r <= 0, r < i64::MAX { unimplemented!() }
    }
    impl core::ops::Sub<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, o: Duration) -> Duration { unimplemented!() } }
    impl SubSpecImpl<Duration> for Duration {
        open spec fn obeys_sub_spec() -> bool { true }
        open spec fn sub_req(self, o: Duration) -> bool { true }
        open spec fn sub_spec(self, o: Duration) -> Duration { Duration { ns: Ghost(self.ns@ - o.ns@) } }
    }
}
impl core::ops::Add<chrono::Duration> for DateTime<Utc> { type Output = DateTime<Utc>; #[verifier::external_body] fn add(self, o: chrono::Duration) -> DateTime<Utc> { unimplemented!() } }
impl AddSpecImpl<chrono::Duration> for DateTime<Utc> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: chrono::Duration) -> bool { true }
    open spec fn add_spec(self, o: chrono::Duration) -> DateTime<Utc> { DateTime { ns: Ghost(self.ns@ + o.ns@), z: self.z } }
}
impl Clone for DateTime<Utc> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for DateTime<Utc> {}
impl Clone for Utc { fn clone(&self) -> (r: Self) { Utc } }
impl Copy for Utc {}
impl PartialEq for DateTime<Utc> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialOrd for DateTime<Utc> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEqSpecImpl for DateTime<Utc> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.ns@ == o.ns@ }
}
impl PartialOrdSpecImpl for DateTime<Utc> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
        if self.ns@ < o.ns@ { Some(core::cmp::Ordering::Less) } else if self.ns@ == o.ns@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl DateTime<Utc> {
    #[verifier::external_body] fn signed_duration_since(self, o: DateTime<Utc>) -> (r: chrono::Duration) ensures r.ns@ == self.ns@ - o.ns@ { unimplemented!() }
}
uninterp spec fn clock(n: int) -> int;     // what the clock reads
impl Utc { #[verifier::external_body] fn now() -> (r: DateTime<Utc>) { unimplemented!() } }

// ---- rate bucket --------------------------------------------------------------------------
struct Mutex<T> { t: T }
impl<T> Mutex<T> { fn new(t: T) -> (r: Self) ensures r.t == t { Mutex { t } } }
//@extract common/limiter_bucket/src/rate_bucket.rs struct Critical
@end
//@extract common/limiter_bucket/src/rate_bucket.rs struct RateBucket
@end
spec fn ms(d: chrono::Duration) -> int { d.ns@ / 1_000_000 }
impl RateBucket {
    spec fn wf(&self) -> bool { self.interval.ns@ >= 1_000_000 && self.interval.ns@ % 1_000_000 == 0 && ms(self.interval) <= i64::MAX }
}
spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
// one refill of the bucket: `n` whole intervals have started since the old deadline
spec fn refilled(b: RateBucket, old_c: Critical, n: int, new_c: Critical) -> bool {
    &&& n >= 0
    &&& new_c.balance == (if n == 0 { old_c.balance as int } else { min2(b.max as int, old_c.balance + n * b.refill) })
    // the schedule neither drifts early nor loses an interval (under one millisecond of rounding)
    &&& old_c.deadline.ns@ + n * b.interval.ns@ <= new_c.deadline.ns@ < old_c.deadline.ns@ + n * b.interval.ns@ + 1_000_000
    &&& (n == 0 ==> new_c.deadline == old_c.deadline)
}

//@extract common/limiter_bucket/src/rate_bucket.rs fn calculate_drain
@ret r
@spec
    requires interval.ns@ >= 1_000_000, interval.ns@ % 1_000_000 == 0, ms(interval) <= i64::MAX,
    ensures match r {
        None => true,
        Some((n, d)) => n >= 1 && deadline.ns@ + n * interval.ns@ <= d.ns@ < deadline.ns@ + n * interval.ns@ + 1_000_000,
    }
@at tail
    proof {
        assert(since >= 0 && millis >= 1);
        assert(since / millis >= 0) by (nonlinear_arith) requires since >= 0, millis >= 1;
        assert(since == millis * (since / millis) + since % millis) by (nonlinear_arith) requires since >= 0, millis >= 1;
        let q = since / millis;
        assert(interval.ns@ == millis * 1_000_000);
        assert((q + 1) * interval.ns@ == millis * q * 1_000_000 + interval.ns@) by (nonlinear_arith) requires interval.ns@ == millis * 1_000_000;
    }
@end

//@extract common/limiter_bucket/src/rate_bucket.rs RateBucket::update_critical
@subst /critical: &mut MutexGuard<Critical>/ => critical: &mut Critical
@spec
    requires self.wf(), old(critical).balance <= self.max
    ensures final(critical).balance <= self.max,
       exists|n: int| refilled(*self, *old(critical), n, *final(critical)),
@at start
    let ghost c0 = *critical;
    let ghost mut n: int = 0;
@at after /calculate_drain\([^{]*\{/
    proof { n = tokens as int; }
@at end
    proof { assert(refilled(*self, c0, n, *critical)); }
@end

//@extract common/limiter_bucket/src/rate_bucket.rs RateBucket::acquire_closed
@ret r
@subst /\(&self, permits: usize\)/ => (&self, critical: &mut Critical, permits: usize)
@subst /let mut critical = self\.critical\.lock\(\);/ => 
@subst /self\.update_critical\(&mut critical\)/ => self.update_critical(critical)
@spec
    requires self.wf(), old(critical).balance <= self.max
    ensures final(critical).balance <= self.max, r <= permits,
       permits == 0 ==> *final(critical) == *old(critical),
       // what is granted is exactly what leaves the bucket, and it is as much as the bucket holds
       permits > 0 ==> exists|n: int, mid: Critical| #[trigger] refilled(*self, *old(critical), n, mid) && mid.deadline == final(critical).deadline
           && final(critical).balance == mid.balance - r && r == min2(permits as int, mid.balance as int),
@end
//@extract common/limiter_bucket/src/rate_bucket.rs RateBucket::acquire
@ret r
@subst /\(&self, permits: usize\)/ => (&self, critical: &mut Critical, permits: usize)
@subst /let mut critical = self\.critical\.lock\(\);/ => 
@subst /self\.update_critical\(&mut critical\)/ => self.update_critical(critical)
@subst /Result<\(\), String>/ => Result<(), ()>
@subst /Err\("[^"]*"\.to_string\(\)\)/ => Err(())
@spec
    requires self.wf(), old(critical).balance <= self.max
    ensures final(critical).balance <= self.max,
       permits == 0 ==> r is Ok && *final(critical) == *old(critical),
       // all or nothing
       permits > 0 ==> exists|n: int, mid: Critical| #[trigger] refilled(*self, *old(critical), n, mid) && mid.deadline == final(critical).deadline
           && (r is Ok) == (mid.balance >= permits) && final(critical).balance == (if r is Ok { mid.balance - permits } else { mid.balance as int }),
@end

//@extract common/limiter_bucket/src/rate_bucket.rs RateBucket::DEFAULT_REFILL_MAX_FACTOR
@end
//@extract common/limiter_bucket/src/rate_bucket.rs struct RateBucketBuilder
@end
//@extract common/limiter_bucket/src/rate_bucket.rs RateBucketBuilder::build
@ret r
@spec
    requires self.interval > 0
    ensures r.wf(), r.interval.ns@ == self.interval * 1_000_000, r.refill == self.refill,
        self.max is Some ==> r.max == self.max->0,
        r.critical.t.balance == min2(self.initial as int, r.max as int),
        self.max is None ==> r.max >= self.refill && r.max >= self.initial,
@end
// ---- count bucket and the decision of the local limiter --------------------------------------
//@extract common/limiter_bucket/src/count_bucket.rs struct CountBucket
@end
spec fn small(x: int) -> bool { -0x2000_0000_0000_0000 < x < 0x2000_0000_0000_0000 }
//@extract common/limiter_bucket/src/count_bucket.rs CountBucket::inc
@spec
    requires i64::MIN <= old(self).count + val <= i64::MAX
    ensures final(self).count == old(self).count + val, final(self).max_count == old(self).max_count
@end
//@extract common/limiter_bucket/src/count_bucket.rs CountBucket::dec
@spec
    requires i64::MIN <= old(self).count - val <= i64::MAX
    ensures final(self).count == old(self).count - val, final(self).max_count == old(self).max_count
@end
//@extract common/limiter_bucket/src/count_bucket.rs CountBucket::fetch
@ret r
@spec
    ensures r == self.count
@end
//@extract common/limiter_bucket/src/count_bucket.rs CountBucket::max
@ret r
@spec
    ensures r == self.max_count
@end
//@extract meta/src/limiter/local_request_limiter.rs enum RequireResult
@end
struct LocalRequestLimiter;
//@extract meta/src/limiter/local_request_limiter.rs LocalRequestLimiter::require
@ret r
@subst /&mut MutexGuard<CountBucket>/ => &mut CountBucket
@subst /now_count\.abs\(\)/ => abs(now_count)
@spec
    requires small(old(bucket_guard).count as int), small(require as int), old(bucket_guard).max_count is Some ==> 0 <= old(bucket_guard).max_count->0 && small(old(bucket_guard).max_count->0 as int)
    ensures
      final(bucket_guard).max_count == old(bucket_guard).max_count,
      // nothing is taken unless the request is let through, and then exactly the request
      final(bucket_guard).count == (if r is Success { old(bucket_guard).count - require } else { old(bucket_guard).count as int }),
      require < 0 ==> r is Fail,
      // let through only against tokens that are there, with at most one `max` of overdraft
      r is Success ==> old(bucket_guard).count > 0 && (final(bucket_guard).count > 0 || (old(bucket_guard).max_count is Some && final(bucket_guard).count > -old(bucket_guard).max_count->0)) || old(bucket_guard).count > require && require >= 0,
      require >= 0 && old(bucket_guard).count > require ==> r is Success,
      // what is asked from the meta node covers the request and the debt
      r matches RequireResult::RequestMeta { min, max } ==> min <= max && (old(bucket_guard).max_count is Some ==> old(bucket_guard).count <= 0 && min == require - old(bucket_guard).count && max == old(bucket_guard).max_count->0 - old(bucket_guard).count),
@end
fn abs(x: i64) -> (r: i64) requires x > i64::MIN ensures r == (if x < 0 { -x } else { x as int }) { if x < 0 { -x } else { x } }
//@helpers
}
