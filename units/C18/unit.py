INFO = dict(level='proof', assumptions=['the ring is proved at K = T = u64, the raft log index type every caller uses', 'capacity > 1 (callers use the constant 256)',
  'del_before/del_after: keys were put in ascending order, as the raft log does (stated precondition)'])
def plan(c):
    c.verus('proof.rs', min_verified=5)
    c.replay('replay.rs')
