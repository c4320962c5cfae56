INFO = dict(
    level='proof',
    assumptions=['the meta record gives a bucket that holds the time (proved in C11) and every bucket has a replication set (C12)',
                 'the points of some lines or rows are exactly those (C36)', 'timestamp_convert is C14\'s matter',
                 'a future does nothing before it is awaited; join_all awaits every one and gives their results in their order',
                 'sorting pairs of strings gives the same pairs in the order of their first strings; take gives the values at the indices'],
    trusted=['HashMap::{entry, into_values, into_iter} as maps that give up their entries one by one', 'the arrow arrays as sequences', 'write_replica_by_raft as the request it would send'],
)
def plan(c):
    c.verus('route.rs', min_verified=12)
    c.verus('batch.rs', min_verified=25)
    c.replay('replay.rs', crate='fb')
