INFO = dict(level='proof', assumptions=['the clock returns some time after 1970 (now_timestamp_*)', 'CnosDuration conversions as proved in C15',
  'iterating a database\'s buckets in a Vec or HashMap visits every one'],
  trusted=['Dbs::get stands for HashMap::get; find_bucket (verified) stands for slice iter().find; MetaClient::databases stands for the iteration of the locked HashMap', 'BucketInfo::clone returns an equal value',
   'core contracts of i64::saturating_add/sub'])
def plan(c):
    c.verus('proof.rs', min_verified=15)
    c.replay('replay.rs', crate='base')
