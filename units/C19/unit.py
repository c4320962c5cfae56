INFO = dict(level='proof', assumptions=[
  'refill interval is positive (asserted by RateBucketBuilder::interval; a configured interval of 0 is the known finding C19-interval-0)',
  'chrono::DateTime/Duration are unbounded instants/durations with the documented meaning; num_milliseconds truncates toward zero',
  'the parking_lot mutex gives the holder exclusive access: the guard is verified as an explicit &mut parameter',
  'CountBucket counters stay far from the i64 limits (|count|, |max|, amounts < 2^61)'],
  trusted=['stub contracts on chrono DateTime/Duration arithmetic and Utc::now (any instant)'])
def plan(c):
    c.verus('proof.rs', min_verified=8)
    c.replay('replay.rs', crate='base')
