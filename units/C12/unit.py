INFO = dict(level='proof', assumptions=['the nodes registered in the meta store have distinct ids; ping_servers returns a sublist of the nodes it is given', 'the 32-bit id space is not used up',
  'REPLICA 0 is rejected (by the parser)', 'commands are applied to the meta store one at a time (raft)'],
  trusted=['stub contracts on the meta store: fetch_and_add_incr_id returns the next id and moves it on by count, insert writes the bucket, children_data and get_struct read', 'get_time_range contains its timestamp (proved in C11)', 'Clone of NodeInfo/VnodeInfo/ReplicationSet gives an equal value'])
def plan(c):
    c.verus('proof.rs', min_verified=20)
    c.replay('replay.rs')
