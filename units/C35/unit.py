INFO=dict(level='proof', assumptions=['what a number is and is worth: atoi_simd and fast_float, uninterpreted functions of the text (whole text, no digits left over)',
    'stable sort and dedup of std by name, uninterpreted (the replay compares with the first of each name, by name)',
    'text as bytes: that cutting at separators leaves UTF-8 (from_utf8_unchecked) is not proved; Cow dropped (borrowed or owned, the same text)',
    'round trip for names without backslash and newline (a backslash in a name has no way to be written) and a first name that is not a comment; all strings'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py): tuple_windows as an index loop, for as while'])
def plan(c):
    c.verus('parse.rs', min_verified=65)
    c.replay('replay.rs')
