INFO = dict(level='proof', assumptions=['str::as_bytes returns the UTF-8 bytes of the string, str comparison is the lexicographic order of those bytes, and [T]::sort_by returns a permutation of its input in which no earlier element compares greater than a later one'],
  trusted=['stub contracts on String/Cow<str> (as_bytes, partial_cmp, cmp) and Vec::sort_by'])
def plan(c):
    c.verus('proof.rs', min_verified=8)
    c.replay('replay.rs', crate='base')
    c.replay('insert.rs', crate='fb')
