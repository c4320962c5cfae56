INFO=dict(level='proof',
  assumptions=['bincode encoding of an edit round-trips (the partly deleted files are not kept)', 'record files are lists of records: a record is on the disk whole or not at all (C25), rename and remove are atomic and, once done, durable; a panic stops the process',
    'an edit names a deleted file with the level it is on and gives an added file an id not in use in this vnode (what flush and compaction make: C27)', 'std HashMap, HashSet and slice::sort_by at their documented contracts; Arc, RwLock, async and await dropped: one edit at a time per vnode, as the write lock on Summary has it', 'bloom filters, reader cache, size counters and time range of a level are dropped; ids stay below 2^64-1'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)'])
def plan(c):
    c.verus('version.rs', min_verified=40)
    c.verus('edit.rs', min_verified=35)
    c.verus('summary.rs', min_verified=35)
    c.replay('replay.rs')
