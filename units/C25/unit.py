INFO=dict(level='proof',
  assumptions=['CRC-32 is a function of the bytes; no bytes outside a record look like a whole record (a hash that matches), and no file without a footer ends in 32 bytes that look like one',
    'pwrite puts a nonempty prefix of what it is given where it says or fails, and leaves everything before the position alone; pread gives what is there; truncate is all or nothing; a file is at most 2^63-1 bytes long and no other process writes it',
    'async, await and Box dropped; IoSlice and AsRef arguments are slices of bytes; the file behind a writer is the AsyncFile of its path'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)'])
def plan(c):
    c.verus('lemmas.rs', min_verified=29)
    c.verus('reader.rs', min_verified=35)
    c.verus('writer.rs', min_verified=55)
    c.replay('replay.rs')
