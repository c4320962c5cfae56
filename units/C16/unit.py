INFO = dict(level='proof', assumptions=['the raw-pointer code is proved over an explicit memory: ptr.add(i) is taken as the slot index i of the vector buffer (substitutions listed in extraction_drops); each slot is live or moved-out, and ptr::copy/drop_in_place/set_len carry the standard-library safety conditions as preconditions',
   'same_bucket is a pure relation that does not modify the elements and does not panic (every caller compares a key); the FillGapOnDrop guard, which only acts on panic, is left out'],
  trusted=['contracts of ptr::copy(_, _, 1), ptr::drop_in_place, Vec::set_len over the slot memory'])
def plan(c):
    c.verus('proof.rs', min_verified=3)
    c.replay('replay.rs')
