INFO = dict(level='proof', assumptions=[])
def plan(c):
    c.verus('proof.rs', min_verified=3)
    c.replay('replay.rs')
