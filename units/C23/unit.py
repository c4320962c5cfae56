INFO = dict(level='proof', assumptions=['the parking_lot mutex gives its holder exclusive access: the locked histogram value is verified as an explicit &mut parameter',
  'Iterator::find returns the first element the predicate accepts; sort_unstable sorts; the atomic fetch_add/load/store of the counters are linearizable and wrap (std)'],
  trusted=['stub contracts on iter_mut().find, Vec::sort_unstable, AtomicU64'])
def plan(c):
    c.verus('proof.rs', min_verified=4)
    c.replay('replay.rs', crate='base')
