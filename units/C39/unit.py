INFO=dict(level='proof', assumptions=['the conditions of SQL: =, !=, ~ and !~ on a null label are unknown, IS NULL, OR, AND and the time bounds as in SQL; the replay reads the SQL text with a reader of its own',
    'patterns: what a pattern finds is an uninterpreted function; ^(?:p)$ finds a text if and only if p matches the whole of it (regex, run by the replay)',
    'a row at the first or the last nanosecond of 64 bits is outside (the bounds saturate there); times of whole seconds are within 9e15',
    'the tables of a database differ in name; a table that is dropped meanwhile is left out',
    'tags in order and the first of a name, and the hash of a line: sort_dedup_and_hash, whose contract C22 and C35 prove',
    'a row gives a null tag as null (C27, C28)'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py): for loops, map and flat_map chains as while loops; format! of the five condition shapes, arrow downcasts, the map entry and the lookups of tables as contracted stubs',
    'a number in decimal (format!) is dec(n); str::replace of a quote is doubled()', 'WriterBuilder, the snappy and protobuf codecs and the execution of the SQL are not under proof (WriterBuilder is run by the replay)'])
def plan(c):
    c.verus('query.rs', min_verified=25)
    c.verus('write.rs', min_verified=7)
    c.verus('read.rs', min_verified=20)
    c.replay('replay.rs', crate='prom')
