use vstd::prelude::*;
verus! {
use core::time::Duration;
// stand-in for std::cmp::min at u128
fn min(a: u128, b: u128) -> (r: u128) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }

pub uninterp spec fn ns(d: Duration) -> nat;
pub assume_specification[ Duration::as_nanos ](d: &Duration) -> (r: u128) ensures r == ns(*d);
pub assume_specification[ Duration::as_micros ](d: &Duration) -> (r: u128) ensures r == ns(*d) / 1_000;
pub assume_specification[ Duration::as_millis ](d: &Duration) -> (r: u128) ensures r == ns(*d) / 1_000_000;
pub assume_specification[ Duration::from_secs ](s: u64) -> (r: Duration) ensures ns(r) == s * 1_000_000_000;

//@extract common/utils/src/precision.rs enum Precision
@derive Clone, Copy
@end
//@extract common/utils/src/duration.rs struct CnosDuration
@end

spec fn unit_ns(p: Precision) -> int { match p { Precision::NS => 1, Precision::US => 1_000, Precision::MS => 1_000_000 } }
// a duration in units of p: whole units, saturating at i64::MAX; INF is i64::MAX
spec fn whole(d: CnosDuration, u: int) -> int
    recommends u > 0
{ if d.is_inf || ns(d.duration) as int / u > i64::MAX { i64::MAX as int } else { ns(d.duration) as int / u } }

//@extract common/utils/src/duration.rs CnosDuration::new_inf
@ret r
@spec
    ensures r.is_inf
@end
//@extract common/utils/src/duration.rs CnosDuration::new_with_day
@ret r
@spec
    ensures
      // exact when the seconds fit, infinite otherwise
      day * 86_400 <= u64::MAX ==> !r.is_inf && ns(r.duration) == day * 86_400 * 1_000_000_000,
      day * 86_400 > u64::MAX ==> r.is_inf,
@end
//@extract common/utils/src/duration.rs CnosDuration::new_with_duration
@ret r
@spec
    ensures !r.is_inf, r.duration == duration
@end
//@extract common/utils/src/duration.rs CnosDuration::init
@ret r
@spec
    ensures r.is_inf == is_inf, r.duration == duration
@end
//@extract common/utils/src/duration.rs CnosDuration::to_nanoseconds
@ret r
@spec
    ensures r == whole(*self, 1)
@end
//@extract common/utils/src/duration.rs CnosDuration::to_microseconds
@ret r
@spec
    ensures r == whole(*self, 1_000)
@end
//@extract common/utils/src/duration.rs CnosDuration::to_millisecond
@ret r
@spec
    ensures r == whole(*self, 1_000_000)
@end
//@extract common/utils/src/duration.rs CnosDuration::to_precision
@ret r
@spec
    ensures r == whole(*self, unit_ns(pre)), r >= 0
@end
//@helpers
proof fn never_shorter_in_a_finer_unit(d: CnosDuration)
    ensures whole(d, 1_000_000) <= whole(d, 1_000) <= whole(d, 1), whole(d, 1_000_000) >= 0
{}
proof fn monotone(a: CnosDuration, b: CnosDuration, u: int)
    requires u > 0, !a.is_inf, b.is_inf || ns(a.duration) <= ns(b.duration)
    ensures whole(a, u) <= whole(b, u)
{
    if !b.is_inf { vstd::arithmetic::div_mod::lemma_div_is_ordered(ns(a.duration) as int, ns(b.duration) as int, u); }
}
}
