INFO = dict(level='proof', assumptions=[
  'the output buffer is empty when encoding starts, as every caller passes it',
  'strings are valid UTF-8 and shorter than 2^31 bytes; a SNAPPY page holds at most 3.25 GiB (beyond that the encoder returns an error)',
  'usize is 64 bits: the try_into() conversions between u64 and usize never fail'],
  trusted=['zstd, flate2, bzip2, snap crates: decompressing what was compressed gives the same bytes', 'integer-encoding crate: encode_var/decode_var write and read LEB128 (dec(enc(x)) = x is proved)',
   'arrow: NullBuffer iteration, StringBuilder', 'byte_utils::decode_be_u64 reads 8 big-endian bytes (pointer cast)', 'String::from_utf8 accepts valid UTF-8'])
def plan(c):
    c.verus('proof.rs', min_verified=40)
    c.replay('replay.rs')
