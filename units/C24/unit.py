INFO = dict(level='proof', assumptions=['a hash of a key is a function of the key (std DefaultHasher with fixed keys)', 'the capacity plus the number of shards fits in usize',
  'each shard (SyncCacheWrap/LruWrap around the lru crate) behaves as its own bounded LRU map; the sharded layer is proved to route every operation on a key to the one shard of that key. The replay runs the real lru crate through all layers.',
  'parking_lot/tokio mutexes give exclusive access'],
  trusted=['stub contracts on DefaultHasher, the shard handles (uninterpreted per-shard operation relation), iter().filter().collect()'])
def plan(c):
    c.verus('proof.rs', min_verified=8)
    c.replay('replay.rs', crate='base')
