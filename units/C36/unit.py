INFO = dict(
    level='proof',
    assumptions=['the accessors generated by flatc return what the builders of the same file stored (assumed in rows.rs, executed in the replay with the flatbuffers crate)',
                 'the schema gives each field an index below the number of fields (C32 proves it)'],
    trusted=['BooleanBufferBuilder, Cow and HashMap as sequences and maps'],
)
def plan(c):
    c.verus('lines.rs', min_verified=20)
    c.verus('rows.rs', min_verified=15)
    c.replay('replay.rs', crate='fb')
