INFO=dict(level='proof', assumptions=['what a number, a word, an RFC 3339 time and a JSON value are: std, chrono and serde_json, uninterpreted functions of the text',
    'texts as bytes: the separators are ASCII, so that cutting bytes cuts the characters alike; Cow dropped (borrowed or owned, the same text)',
    'tags in order and the first of a name: sort_dedup_and_hash and Line::new, whose contracts C35 and C22 prove',
    'the time of a put is not negative'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py): for loops as while, position and from_utf8 chains as a match',
    'flatten_json, the protobuf messages and the loop of the telnet service are run by the replay only'])
def plan(c):
    c.verus('tsdb.rs', min_verified=28)
    c.verus('json.rs', min_verified=5)
    c.replay('replay.rs', crate='base')
