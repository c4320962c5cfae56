INFO=dict(level='proof',
 assumptions=['names of tables hold no \'=\' or \'<\' and do not begin with a prefix of the other keys (_id_, _key_, _tomb_, auto_incr); tags of the index are ids of columns (digits)',
  'list.rs: every live series has its inverted entries either in memory or in the store, and a deleted one none (the replay checks it on histories, bounded)',
  'ids.rs: a flush keeps what lives (check_to_flush; the replay checks it, bounded); a deletion in the store does not fail (the code ignores its error); table names and tag keys and values are shorter than 65536; ids do not reach u32::MAX; an update matches different series; update_series_key is given what prepare_update_tags_value (proved) returns',
  'RoaringBitmap is a set of ids and its bytes are read back as they were written; a heed transaction sees all keys with a prefix and no others',
  'searches by ranges and by domains, flush, rebuild, tombstones and reopening are covered by the replay only (bounded)',
  'updates while unflushed and a crash between the flush of the entries and of the counter are left to the log (C08)'],
 trusted=['ids.rs: a HashMap of tags and a HashSet of keys (its length tells whether all are different), sort_tags keeps the tags; IndexCache::{write, del} on the ghost maps; the read cache holds only what it was given; SeriesKey::{encode, decode, eq, clone}; IndexEngine2::{get, delete, modify}; to_be_bytes', 'IndexEngine2::{get_rb, prefix_iter} on the ghost store', 'IndexMemCache: lookup and iteration of the nested maps', 'chain/cloned/collect concatenate bytes; format!("{}.") appends a dot', 'replay: stand-ins for heed, roaring, the sharded cache and the domain types; BkdrHasher'])
def plan(c):
    c.verus('list.rs', min_verified=24)
    c.verus('ids.rs', min_verified=41)
    c.replay('replay.rs', crate='base')
