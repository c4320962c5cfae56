INFO = dict(level='proof',
  assumptions=['the set of ranges (TimeRanges) is taken at the contracts proved under C06', 'std HashMap as a map with entry/get/iterate; RwLock, AsyncMutex, async and await dropped (one caller at a time)', 'record files as lists of records (C25), the bloom filter as a membership test (C17), rename and remove as atomic',
    'in rows.rs the arrow mask builder is a list of booleans, slice::binary_search and filter_record_batch are stand-ins with their documented contracts', 'chunks are well-formed: time strictly increasing, one row per time, within the statistics of the time page'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)'])
def plan(c):
    c.verus('proof.rs', min_verified=20)
    c.verus('file.rs', min_verified=20)
    c.verus('manage.rs', min_verified=20)
    c.verus('rows.rs', min_verified=10)
    c.replay('replay.rs')
