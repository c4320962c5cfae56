INFO = dict(level='proof', assumptions=['ids and names are equal exactly when they are the same (derived equality)', 'HashSet, HashMap and vec!/collect behave as sets and maps'],
  trusted=['stub contracts on HashSet<Privilege> (collect of a vec, insert, union, iter().any()) and HashMap<String, DatabasePrivilege> (get, insert, remove, iter().map().collect())', 'UserRole::Public (union over tenants) and databases_privileges are replayed only',
    'which privileges a statement\'s plan asks for (planner) and that every entry point checks them is not covered'])
def plan(c):
    c.verus('proof.rs', min_verified=20)
    c.replay('replay.rs')
