INFO=dict(level='proof', assumptions=['ids, versions and the number of columns do not run out (32 and 64 bits)',
    'what the client reads was a schema the table had, at some time (its cache may be old); the metadata store keeps what is put under a key and the raft log applies commands one after the other (uninterpreted `held`, ghost log per key)',
    'history since the table was created: DROP TABLE and a new table of the same name are a new history (process_update_table stores a schema for a table that is not there; excluded by its precondition)',
    'column names by opaque names, HashMap by its map, value_encode/get_struct as a faithful round trip (serde), ColumnType::matches_type uninterpreted but reflexive on the types of values',
    'locks, async and Arc dropped; recursion of check_field_type_or_else_add_impl on conflicts: no proof that it ends (a table may change for ever)'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)'])
def plan(c):
    c.verus('schema.rs', min_verified=62)
    c.replay('replay.rs')
