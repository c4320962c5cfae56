INFO = dict(level='proof', assumptions=[
  'a page holds fewer than 2^27 values (a page is one block of one column)',
  'the output buffer is empty when encoding starts, as every caller passes it'],
  trusted=['pco crate: decompressing what was compressed gives the same values', 'u64::to_be_bytes/from_be_bytes, copy_from_slice, Vec::capacity/reserve_exact', 'integer-encoding crate: encode_var/decode_var write and read LEB128 (dec(enc(x)) = x is proved)',
   'arrow: NullBuffer iteration, Int64Builder, relabelling Int64 data as UInt64', 'byte_utils::decode_be_i64 (pointer cast) reads 8 big-endian bytes'])
def plan(c):
    c.verus('proof.rs', min_verified=118)
    c.replay('replay.rs')
