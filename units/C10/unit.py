INFO=dict(level='proof',
  assumptions=['what the wal files do for the store (VnodeWal: write_raft_entry, wal_reader, truncate_wal_file, rollback_wal_writer) is an assumed contract over a ghost disk of entries at positions; the replay runs their real code on the real record files over an in-memory disk',
    'the entry cache behaves as C18 proves; binary_search_by, drain and retain as documented; the raft library gives consecutive indexes (openraft promises it) below 2^64-1',
    'recovery is bounded: RaftEntryStorageInner::recover and recover_record run in the replay (power loss at every call), they are not proved',
    'async and await dropped; an entry is a log id and some bytes; the serialization of an entry (bincode) is inverse to its deserialization'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)'])
def plan(c):
    c.verus('store.rs', min_verified=51)
    c.replay('replay.rs')
