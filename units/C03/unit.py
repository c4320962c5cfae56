INFO = dict(level='proof', assumptions=[
  'a page holds fewer than 2^52 values', 'the output buffer is empty when encoding starts, as every caller passes it',
  'usize is 64 bits: the try_into() conversions between u64 and usize never fail'],
  trusted=['integer-encoding crate: encode_var/decode_var write and read LEB128 (dec(enc(x)) = x is proved)', 'arrow: NullBuffer iteration, BooleanBuilder'])
def plan(c):
    c.verus('proof.rs', min_verified=50)
    c.replay('replay.rs')
