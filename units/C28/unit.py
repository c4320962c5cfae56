INFO = dict(level='proof', assumptions=['a block is not empty unless it holds no values'],
  trusted=['the encoders and decoders keep the contracts proved for them under C01, C02, C03 and C05 (C04 for floating point)', 'Vec::drain(..).next() takes the first entry'])
def plan(c):
    c.verus('proof.rs', min_verified=60)
    c.replay('replay.rs')
