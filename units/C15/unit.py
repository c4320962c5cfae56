INFO = dict(level='proof', assumptions=['core::time::Duration::{as_nanos, as_micros, as_millis, from_secs} mean what the standard library documents (nanosecond count truncated to the unit; it always fits in u128)',
  'CnosDuration::new and Display go through the humantime crate: text round trips are exercised by the replay on sampled inputs and not proved'],
  trusted=['assumed contracts on core::time::Duration'])
def plan(c):
    c.verus('proof.rs', min_verified=5)
    c.replay('replay.rs', crate='base')
