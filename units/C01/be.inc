spec fn be64(v: u64) -> Seq<u8> { Seq::new(8, |k: int| ((v >> ((56 - 8 * k) as u64)) & 0xff) as u8) }
spec fn unbe64(s: Seq<u8>) -> u64 {
    ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32)
    | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64)
}
proof fn lemma_be(v: u64) ensures be64(v).len() == 8, unbe64(be64(v)) == v {
    assert((((((v >> 56) & 0xff) as u8) as u64) << 56) | (((((v >> 48) & 0xff) as u8) as u64) << 48) | (((((v >> 40) & 0xff) as u8) as u64) << 40)
      | (((((v >> 32) & 0xff) as u8) as u64) << 32) | (((((v >> 24) & 0xff) as u8) as u64) << 24) | (((((v >> 16) & 0xff) as u8) as u64) << 16)
      | (((((v >> 8) & 0xff) as u8) as u64) << 8) | ((((v >> 0) & 0xff) as u8) as u64) == v) by (bit_vector);
}
// the standard library's big-endian conversions
#[verifier::external_body]
fn to_be8(v: u64) -> (r: [u8; 8]) ensures r@ == be64(v) { v.to_be_bytes() }
