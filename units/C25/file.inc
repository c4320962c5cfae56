spec fn be32(v: u32) -> Seq<u8> { seq![(v >> 24) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8] }
spec fn unbe32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
proof fn lemma_be32(v: u32) ensures unbe32(be32(v)) == v, be32(v).len() == 4 {
    assert((((v >> 24) as u8) as u32) << 24 | ((((v >> 16) & 0xff) as u8) as u32) << 16 | ((((v >> 8) & 0xff) as u8) as u32) << 8 | (((v & 0xff) as u8) as u32) == v) by (bit_vector);
}
uninterp spec fn crc32(s: Seq<u8>) -> u32;
// the library's incremental hash
#[verifier::external_body]
struct Hasher { x: u8 }
impl Hasher {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn new() -> (r: Hasher) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self) -> (r: u32) ensures r == crc32(self@) { unimplemented!() }
}
#[verifier::external_body]
fn crc_hash(b: &Vec<u8>) -> (r: u32) ensures r == crc32(b@) { unimplemented!() }
//@extract tskv/src/record_file/mod.rs const FILE_MAGIC_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const FILE_FOOTER_LEN
@end
//@extract tskv/src/record_file/mod.rs const FILE_FOOTER_MAGIC_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const FILE_FOOTER_CRC32_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_MAGIC_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_DATA_VERSION_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_DATA_TYPE_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_DATA_SIZE_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_CRC32_NUMBER_LEN
@end
//@extract tskv/src/record_file/mod.rs const RECORD_HEADER_LEN
@end
//@extract tskv/src/record_file/mod.rs const READER_BUF_SIZE
@end
//@extract tskv/src/record_file/mod.rs const FILE_MAGIC_NUMBER
@subst /u32::from_be_bytes\(\[b'(.)', b'(.)', b'(.)', b'(.)'\]\)/ => (((b'\1' as u32) << 24) | ((b'\2' as u32) << 16) | ((b'\3' as u32) << 8) | (b'\4' as u32))
@end
//@extract tskv/src/record_file/mod.rs const RECORD_MAGIC_NUMBER
@subst /u32::from_be_bytes\(\[b'(.)', b'(.)', b'(.)', b'(.)'\]\)/ => (((b'\1' as u32) << 24) | ((b'\2' as u32) << 16) | ((b'\3' as u32) << 8) | (b'\4' as u32))
@end
//@extract tskv/src/record_file/mod.rs file_crc_source_len
@ret r
@spec
    requires file_len >= 4 + file_footer_len, file_footer_len <= 1000
    ensures r == crc_len(file_len as int, file_footer_len as int)
@end
spec fn crc_len(n: int, f: int) -> int { if n > 1028 + f { 1024 } else { n - 4 - f } }
// a file ends with a footer: bytes 4..8 of it are the hash of what follows the magic number
spec fn has_footer(c: Seq<u8>) -> bool { c.len() >= 36 && unbe32(c.subrange(c.len() - 28, c.len() - 24)) == crc32(c.subrange(4, 4 + crc_len(c.len() as int, 32))) }
// ---- the records of a file ----
struct Rec { ver: u8, ty: u8, data: Seq<u8>, pos: int }
spec fn magic_at(c: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= c.len() && unbe32(c.subrange(p, p + 4)) == RECORD_MAGIC_NUMBER }
spec fn size_at(c: Seq<u8>, p: int) -> int { unbe32(c.subrange(p + 6, p + 10)) as int }
// the record that starts at p
spec fn rec_at(c: Seq<u8>, p: int) -> Rec { Rec { ver: c[p + 4], ty: c[p + 5], data: c.subrange(p + 14, p + 14 + size_at(c, p)), pos: p } }
spec fn valid_at(c: Seq<u8>, p: int) -> bool {
    magic_at(c, p) && p + 14 <= c.len() && p + 14 + size_at(c, p) <= c.len()
    && unbe32(c.subrange(p + 10, p + 14)) == crc32(c.subrange(p + 4, p + 10) + c.subrange(p + 14, p + 14 + size_at(c, p)))
}
// first magic number from p on
spec fn find(c: Seq<u8>, p: int) -> Option<int> decreases c.len() - p {
    if p < 0 || p + 4 > c.len() { None } else if magic_at(c, p) { Some(p) } else { find(c, p + 1) }
}
spec fn end_at(c: Seq<u8>, fp: int, p: int) -> bool { p + 14 > fp || find(c, p) is None || find(c, p)->0 + 14 > c.len() }
// what a reader that skips broken records finds from p on
spec fn items(c: Seq<u8>, fp: int, p: int) -> Seq<Rec> decreases c.len() - p via items_dec {
    if p < 0 || p > c.len() || end_at(c, fp, p) { Seq::empty() }
    else { let q = find(c, p)->0; if valid_at(c, q) { seq![rec_at(c, q)] + items(c, fp, q + 14 + size_at(c, q)) } else { items(c, fp, q + 1) } }
}
#[via_fn]
proof fn items_dec(c: Seq<u8>, fp: int, p: int) { if find(c, p) is Some { lemma_find(c, p); } }
proof fn lemma_find(c: Seq<u8>, p: int)
    requires p >= 0
    ensures find(c, p) is Some ==> p <= find(c, p)->0 && magic_at(c, find(c, p)->0), forall|x: int| p <= x && (find(c, p) is None || x < find(c, p)->0) ==> !#[trigger] magic_at(c, x)
    decreases c.len() - p
{ if p + 4 <= c.len() && !magic_at(c, p) { lemma_find(c, p + 1); } }
spec fn enc_head(ver: u8, ty: u8, data: Seq<u8>) -> Seq<u8> { seq![ver, ty] + be32(data.len() as u32) }
// a record as it is written
spec fn enc_rec(ver: u8, ty: u8, data: Seq<u8>) -> Seq<u8> { be32(RECORD_MAGIC_NUMBER) + enc_head(ver, ty, data) + be32(crc32(enc_head(ver, ty, data) + data)) + data }
