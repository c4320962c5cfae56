// ---- varints, as the integer-encoding crate writes them: LEB128 ----
spec fn var_enc(x: u64) -> Seq<u8> decreases x {
    if x < 128 { seq![x as u8] } else { seq![((x & 127) | 128) as u8] + (if x >> 7 < x { var_enc(x >> 7) } else { Seq::empty() }) }
}
spec fn var_dec(s: Seq<u8>) -> Option<(u64, usize)> decreases s.len() {
    if s.len() == 0 { None } else if s[0] < 128 { Some((s[0] as u64, 1usize)) } else {
        match var_dec(s.skip(1)) { None => None, Some((y, n)) => Some(((s[0] & 127) as u64 | (y << 7), (n + 1) as usize)) }
    }
}
proof fn lemma_var_len(x: u64, n: u64)
    requires 1 <= n <= 10, n == 10 || x < (1u64 << ((7 * n) as u64))
    ensures 1 <= var_enc(x).len() <= n
    decreases n
{
    if x >= 128 {
        assert(x >> 7 < x && (x >> 7) < 0x200_0000_0000_0000) by (bit_vector) requires x >= 128;
        if n == 1 { assert(x < 128) by (bit_vector) requires x < (1u64 << 7u64); }
        else if n == 10 { assert((1u64 << 63u64) == 0x8000_0000_0000_0000) by (bit_vector); lemma_var_len(x >> 7, 9); }
        else { let m = (7 * n) as u64; let l = (7 * (n - 1)) as u64; assert((x >> 7) < (1u64 << l)) by (bit_vector) requires x < (1u64 << m), m < 64, m == add(l, 7), l < 64; lemma_var_len(x >> 7, (n - 1) as u64); }
    }
}
proof fn lemma_var_dec(x: u64, s: Seq<u8>)
    requires s.len() >= var_enc(x).len(), s.take(var_enc(x).len() as int) == var_enc(x)
    ensures var_dec(s) == Some((x, var_enc(x).len() as usize))
    decreases x
{
    lemma_var_len(x, 10);
    let e = var_enc(x); assert(s[0] == s.take(e.len() as int)[0]);
    if x >= 128 {
        assert(x >> 7 < x) by (bit_vector) requires x >= 128;
        assert((((x & 127) | 128) as u8) >= 128 && ((((x & 127) | 128) as u8) & 127) as u64 | ((x >> 7) << 7) == x) by (bit_vector);
        let t = var_enc(x >> 7); lemma_var_len(x >> 7, 10);
        assert(e.skip(1) =~= t);
        assert(s.skip(1).take(t.len() as int) =~= s.take(e.len() as int).skip(1));
        lemma_var_dec(x >> 7, s.skip(1));
    } else { assert((x as u8) as u64 == x && (x as u8) < 128) by (bit_vector) requires x < 128; }
}
proof fn lemma_var(x: u64, s: Seq<u8>)
    ensures 1 <= var_enc(x).len() <= 10, x < 0x100_0000_0000_0000 ==> var_enc(x).len() <= 8,
      s.len() >= var_enc(x).len() && s.take(var_enc(x).len() as int) == var_enc(x) ==> var_dec(s) == Some((x, var_enc(x).len() as usize))
{
    lemma_var_len(x, 10);
    if x < 0x100_0000_0000_0000 { assert((1u64 << 56u64) == 0x100_0000_0000_0000) by (bit_vector); lemma_var_len(x, 8); }
    if s.len() >= var_enc(x).len() && s.take(var_enc(x).len() as int) == var_enc(x) { lemma_var_dec(x, s); }
}
// x.encode_var(&mut dst[n..])
#[verifier::external_body]
fn encode_var_at(x: u64, dst: &mut Vec<u8>, n: usize) -> (r: usize)
    requires n + var_enc(x).len() <= old(dst).len()
    ensures r == var_enc(x).len(), final(dst)@ == old(dst)@.take(n as int) + var_enc(x) + old(dst)@.skip(n + r)
{ unimplemented!() }
#[verifier::external_body]
fn decode_var(s: &[u8]) -> (r: Option<(u64, usize)>) ensures r == var_dec(s@) { unimplemented!() }
