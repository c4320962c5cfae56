use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include file.inc
proof fn lemma_find_first(c: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q, magic_at(c, q), forall|x: int| p <= x < q ==> !#[trigger] magic_at(c, x)
    ensures find(c, p) == Some(q)
    decreases q - p
{ if p < q { assert(!magic_at(c, p)); lemma_find_first(c, p + 1, q); } }
proof fn lemma_sub(c: Seq<u8>, p: int, e: Seq<u8>, a: int, b: int)
    requires 0 <= p, p + e.len() <= c.len(), c.subrange(p, p + e.len()) == e, 0 <= a <= b <= e.len()
    ensures c.subrange(p + a, p + b) == e.subrange(a, b)
{ assert(c.subrange(p + a, p + b) =~= c.subrange(p, p + e.len()).subrange(a, b)); }
// a record as written is read back
proof fn lemma_record(c: Seq<u8>, fp: int, p: int, ver: u8, ty: u8, data: Seq<u8>)
    requires data.len() <= u32::MAX, 0 <= p, p + 14 + data.len() <= fp <= c.len(), c.subrange(p, p + 14 + data.len()) == enc_rec(ver, ty, data)
    ensures valid_at(c, p), rec_at(c, p) == (Rec { ver, ty, data, pos: p }), items(c, fp, p) == seq![Rec { ver, ty, data, pos: p }] + items(c, fp, p + 14 + data.len())
{
    let e = enc_rec(ver, ty, data); let n = data.len() as int;
    lemma_be32(RECORD_MAGIC_NUMBER); lemma_be32(data.len() as u32); let h = crc32(enc_head(ver, ty, data) + data); lemma_be32(h);
    assert(e.len() == 14 + n);
    lemma_sub(c, p, e, 0, 4); lemma_sub(c, p, e, 4, 10); lemma_sub(c, p, e, 6, 10); lemma_sub(c, p, e, 10, 14); lemma_sub(c, p, e, 14, 14 + n); lemma_sub(c, p, e, 4, 6);
    assert(e.subrange(0, 4) =~= be32(RECORD_MAGIC_NUMBER)); assert(e.subrange(4, 10) =~= enc_head(ver, ty, data)); assert(e.subrange(6, 10) =~= be32(data.len() as u32)); assert(e.subrange(10, 14) =~= be32(h)); assert(e.subrange(14, 14 + n) =~= data);
    assert(c[p + 4] == c.subrange(p + 4, p + 6)[0] && c[p + 5] == c.subrange(p + 4, p + 6)[1]);
    assert(e[4] == e.subrange(4, 6)[0] && e[5] == e.subrange(4, 6)[1]);
    assert(c[p + 4] == e[4] && c[p + 5] == e[5]);
    assert(find(c, p) == Some(p));
}
// a region no whole record starts in is passed over: what is behind it is found
proof fn lemma_garbage(c: Seq<u8>, fp: int, p: int, q: int)
    requires 0 <= p <= q <= c.len(), fp == c.len(), forall|x: int| p <= x < q ==> !#[trigger] valid_at(c, x)
    ensures items(c, fp, p) == items(c, fp, q)
    decreases q - p
{
    if p < q {
        lemma_find(c, p); lemma_find(c, q);
        if find(c, p) is Some && find(c, p)->0 < q {
            let x = find(c, p)->0;
            assert(!valid_at(c, x));
            if !end_at(c, fp, p) { lemma_garbage(c, fp, x + 1, q); }
            else if p + 14 <= fp { if find(c, q) is Some { assert(find(c, q)->0 >= q); } }
        } else if find(c, p) is Some {
            let x = find(c, p)->0; lemma_find_first(c, q, x); assert(find(c, q) == find(c, p));
        } else if find(c, q) is Some { assert(magic_at(c, find(c, q)->0)); assert(false); }
    }
}
// ---- a file: its magic number, records, and what crashes left of records ----
enum Seg { R { ver: u8, ty: u8, data: Seq<u8> }, Torn { bytes: Seq<u8> } }
spec fn seg_bytes(s: Seg) -> Seq<u8> { match s { Seg::R { ver, ty, data } => enc_rec(ver, ty, data), Seg::Torn { bytes } => bytes } }
spec fn flat(s: Seq<Seg>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { seg_bytes(s[0]) + flat(s.skip(1)) } }
spec fn recs(s: Seq<Seg>, p: int) -> Seq<Rec> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { (match s[0] { Seg::R { ver, ty, data } => seq![Rec { ver, ty, data, pos: p }], Seg::Torn { bytes } => Seq::empty() }) + recs(s.skip(1), p + seg_bytes(s[0]).len()) }
}
// no whole record starts in what a crash left
spec fn quiet(c: Seq<u8>, s: Seq<Seg>, p: int) -> bool decreases s.len() {
    s.len() > 0 ==> (match s[0] { Seg::R { ver, ty, data } => data.len() <= u32::MAX, Seg::Torn { bytes } => forall|x: int| p <= x < p + bytes.len() ==> !#[trigger] valid_at(c, x) }) && quiet(c, s.skip(1), p + seg_bytes(s[0]).len())
}
// everything written is read, in order, with its position, and nothing else
proof fn lemma_file(c: Seq<u8>, s: Seq<Seg>, p: int)
    requires 0 <= p <= c.len(), c.skip(p) == flat(s), quiet(c, s, p)
    ensures items(c, c.len() as int, p) == recs(s, p)
    decreases s.len()
{
    if s.len() == 0 { assert(c.skip(p).len() == 0); }
    else {
        let b = seg_bytes(s[0]); let q = p + b.len();
        assert(c.skip(p).take(b.len() as int) =~= b);
        assert(c.skip(q) =~= flat(s.skip(1))) by { assert(c.skip(q) =~= c.skip(p).skip(b.len() as int)); assert((b + flat(s.skip(1))).skip(b.len() as int) =~= flat(s.skip(1))); }
        lemma_file(c, s.skip(1), q);
        match s[0] {
            Seg::R { ver, ty, data } => { lemma_be32(RECORD_MAGIC_NUMBER); assert(b.len() == 14 + data.len()); assert(c.subrange(p, p + 14 + data.len()) =~= b); lemma_record(c, c.len() as int, p, ver, ty, data); }
            Seg::Torn { bytes } => { lemma_garbage(c, c.len() as int, p, q); assert(recs(s, p) =~= recs(s.skip(1), q)); }
        }
    }
}
// the same of a file that was given a footer
proof fn lemma_file_footer(c: Seq<u8>, s: Seq<Seg>, p: int)
    requires 0 <= p <= c.len() - 32, c.subrange(p, c.len() - 32) == flat(s), quiet(c, s, p), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is R
    ensures items(c, c.len() - 32, p) == recs(s, p)
    decreases s.len()
{
    let e = c.len() - 32;
    if s.len() == 0 { assert(c.subrange(p, e).len() == 0); }
    else {
        let b = seg_bytes(s[0]); let q = p + b.len();
        assert(c.subrange(p, e).take(b.len() as int) =~= b);
        assert(c.subrange(q, e) =~= flat(s.skip(1))) by { assert(c.subrange(q, e) =~= c.subrange(p, e).skip(b.len() as int)); assert((b + flat(s.skip(1))).skip(b.len() as int) =~= flat(s.skip(1))); }
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) is R by { assert(s[i + 1] is R); }
        lemma_file_footer(c, s.skip(1), q);
        assert(s[0] is R);
        match s[0] { Seg::R { ver, ty, data } => { lemma_be32(RECORD_MAGIC_NUMBER); assert(b.len() == 14 + data.len()); assert(c.subrange(p, p + 14 + data.len()) =~= b); lemma_record(c, e, p, ver, ty, data); } _ => {} }
    }
}
fn main() {}
}
