INFO=dict(level='proof', assumptions=['skiplist::OrderedSkipList (the crate is not in the sandbox) at the contract that an element goes before the elements it equals (the repository\'s own test_iterator relies on it)',
    'LinkedList, HashMap, retain (OrderedRowsData::retain) and max_by_key are modelled by their sequences and maps; Arc and locks dropped: one writer or reader at a time on a series (the code holds the lock of the partition, then of the series)',
    'pages, array builders and column builders at the contract that they keep what is pushed (units C26 and C01 speak about the bytes); HashMap<String, _> of a schema by opaque names',
    'every schema handed to the cache is well formed (ids and names unique): proved for the functions that make them in schema.rs and unit C33',
    'the partitions of MemCache and MemCacheReader::try_new are covered by the replay only; termination of the reading loops is not proved'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)', 'slice::sort and sort_by_key'])
def plan(c):
    c.verus('cache.rs', min_verified=64)
    c.verus('scan.rs', min_verified=60)
    c.verus('schema.rs', min_verified=26)
    c.replay('replay.rs')
