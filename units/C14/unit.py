INFO = dict(level='proof', assumptions=['Timestamp is i64 (common/utils/src/lib.rs)'])
def plan(c):
    c.verus('proof.rs', min_verified=5)
    c.replay('replay.rs')
