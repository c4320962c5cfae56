enum TskvError { Eof, Other, RecordFileInvalidDataSize { x: u8 }, RecordFileHashCheckFailed { x: u8 } }
// a broken record (C25)
spec fn broken(e: TskvError) -> bool { e is RecordFileInvalidDataSize || e is RecordFileHashCheckFailed }
type TskvResult<T> = Result<T, TskvError>;
//@extract tskv/src/tsm/tombstone.rs const MAX_RECORD_LEN
@end
//@extract tskv/src/tsm/tombstone.rs const MAX_RECORD_TIME_RANGES_NUM
@end
//@extract tskv/src/tsm/tombstone.rs const TOMBSTONE_HEADER_LEN_ALL
@end
//@extract tskv/src/tsm/tombstone.rs const TOMBSTONE_HEADER_LEN_ONE
@end
//@extract tskv/src/tsm/tombstone.rs const FIELD_TYPE_ONE
@end
//@extract tskv/src/tsm/tombstone.rs const FIELD_TYPE_ALL
@end
spec fn be32(v: u32) -> Seq<u8> { Seq::new(4, |k: int| ((v >> ((24 - 8 * k) as u32)) & 0xff) as u8) }
spec fn unbe32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
proof fn lemma_be32(v: u32) ensures be32(v).len() == 4, unbe32(be32(v)) == v {
    assert((((((v >> 24) & 0xff) as u8) as u32) << 24) | (((((v >> 16) & 0xff) as u8) as u32) << 16) | (((((v >> 8) & 0xff) as u8) as u32) << 8) | ((((v >> 0) & 0xff) as u8) as u32) == v) by (bit_vector);
}
proof fn lemma_cast(v: i64) ensures (v as u64) as i64 == v { assert((v as u64) as i64 == v) by (bit_vector); }
// to_be_bytes() / as_slice()
trait Be { spec fn be(&self) -> Seq<u8>; fn bytes(&self) -> (r: Vec<u8>) ensures r@ == self.be(); }
impl Be for u32 { spec fn be(&self) -> Seq<u8> { be32(*self) } #[verifier::external_body] fn bytes(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl Be for i64 { spec fn be(&self) -> Seq<u8> { be64(*self as u64) } #[verifier::external_body] fn bytes(&self) -> (r: Vec<u8>) { unimplemented!() } }
// byte_utils: pointer casts
#[verifier::external_body]
fn decode_be_u32(key: &[u8]) -> (r: u32) requires key.len() >= 4 ensures r == unbe32(key@) { unimplemented!() }
#[verifier::external_body]
fn decode_be_i64(key: &[u8]) -> (r: i64) requires key.len() >= 8 ensures r == unbe64(key@) as i64 { unimplemented!() }
fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// ---- the bytes of a record: what they say is deleted ----
struct T { all: bool, s: u32, c: u32, trs: Seq<TimeRange> }
spec fn rng(b: Seq<u8>, at: int) -> TimeRange { TimeRange { min_ts: unbe64(b.subrange(at, at + 8)) as i64, max_ts: unbe64(b.subrange(at + 8, at + 16)) as i64 } }
spec fn rngs(b: Seq<u8>, at: int, n: int) -> Seq<TimeRange> { Seq::new(n as nat, |i: int| rng(b, at + 16 * i)) }
spec fn head(b: Seq<u8>) -> int { if b[0] == FIELD_TYPE_ALL { 5 } else { 13 } }
spec fn count(b: Seq<u8>) -> int { unbe32(b.subrange(head(b) - 4, head(b))) as int }
spec fn size(b: Seq<u8>) -> int { head(b) + 16 * count(b) }
spec fn fits(b: Seq<u8>) -> bool { b.len() > 0 && b.len() >= head(b) && b.len() >= size(b) }
spec fn first(b: Seq<u8>) -> T { if b[0] == FIELD_TYPE_ALL { T { all: true, s: 0, c: 0, trs: rngs(b, 5, count(b)) } } else { T { all: false, s: unbe32(b.subrange(1, 5)), c: unbe32(b.subrange(5, 9)), trs: rngs(b, 13, count(b)) } } }
spec fn wf(b: Seq<u8>) -> bool decreases b.len() { b.len() == 0 || (fits(b) && wf(b.skip(size(b)))) }
spec fn parse(b: Seq<u8>) -> Seq<T> decreases b.len() { if fits(b) { seq![first(b)] + parse(b.skip(size(b))) } else { Seq::empty() } }
spec fn tv(t: Tombstone) -> T { match t.field { TombstoneField::All => T { all: true, s: 0, c: 0, trs: t.time_ranges@ }, TombstoneField::One(s, c) => T { all: false, s: s, c: c, trs: t.time_ranges@ } } }
spec fn tvs(v: Seq<Tombstone>) -> Seq<T> { Seq::new(v.len(), |i: int| tv(v[i])) }
spec fn enc_rngs(v: Seq<TimeRange>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { enc_rngs(v.drop_last()) + be64(v.last().min_ts as u64) + be64(v.last().max_ts as u64) } }
spec fn hdr(f: TombstoneField) -> Seq<u8> { match f { TombstoneField::All => seq![FIELD_TYPE_ALL], TombstoneField::One(s, c) => seq![FIELD_TYPE_ONE] + be32(s) + be32(c) } }
spec fn enc(f: TombstoneField, v: Seq<TimeRange>) -> Seq<u8> { hdr(f) + be32(v.len() as u32) + enc_rngs(v) }
spec fn fv(f: TombstoneField, v: Seq<TimeRange>) -> T { match f { TombstoneField::All => T { all: true, s: 0, c: 0, trs: v }, TombstoneField::One(s, c) => T { all: false, s: s, c: c, trs: v } } }
proof fn lemma_enc_rngs(v: Seq<TimeRange>)
    ensures enc_rngs(v).len() == 16 * v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] rng(enc_rngs(v), 16 * i) == v[i]
    decreases v.len()
{
    if v.len() > 0 {
        let p = enc_rngs(v.drop_last()); let e = enc_rngs(v); let l = v.last();
        lemma_enc_rngs(v.drop_last()); lemma_be(l.min_ts as u64); lemma_be(l.max_ts as u64); lemma_cast(l.min_ts); lemma_cast(l.max_ts);
        let n = 16 * (v.len() - 1);
        assert(e.subrange(n, n + 8) =~= be64(l.min_ts as u64)); assert(e.subrange(n + 8, n + 16) =~= be64(l.max_ts as u64));
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] rng(e, 16 * i) == v[i] by {
            if i < v.len() - 1 { assert(e.subrange(16 * i, 16 * i + 8) =~= p.subrange(16 * i, 16 * i + 8)); assert(e.subrange(16 * i + 8, 16 * i + 16) =~= p.subrange(16 * i + 8, 16 * i + 16)); assert(rng(p, 16 * i) == v.drop_last()[i]); }
        }
    }
}
proof fn lemma_enc(f: TombstoneField, v: Seq<TimeRange>)
    requires v.len() <= u32::MAX
    ensures wf(enc(f, v)), parse(enc(f, v)) =~= seq![fv(f, v)], enc(f, v).len() > 0
{
    let e = enc(f, v); let n = v.len() as u32; let r = enc_rngs(v);
    lemma_enc_rngs(v); lemma_be32(n);
    assert(e[0] == (if f is All { FIELD_TYPE_ALL } else { FIELD_TYPE_ONE }));
    match f { TombstoneField::One(s, c) => { lemma_be32(s); lemma_be32(c); assert(e.subrange(1, 5) =~= be32(s)); assert(e.subrange(5, 9) =~= be32(c)); } TombstoneField::All => {} }
    let h = head(e);
    assert(e.subrange(h - 4, h) =~= be32(n));
    assert(e.len() == h + 16 * v.len());
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] rng(e, h + 16 * i) == v[i] by {
        assert(e.subrange(h + 16 * i, h + 16 * i + 8) =~= r.subrange(16 * i, 16 * i + 8)); assert(e.subrange(h + 16 * i + 8, h + 16 * i + 16) =~= r.subrange(16 * i + 8, 16 * i + 16)); assert(rng(r, 16 * i) == v[i]); }
    assert(rngs(e, h, v.len() as int) =~= v);
    let t = e.skip(size(e)); assert(t.len() == 0);
    assert(wf(t)); assert(parse(t).len() == 0); assert(first(e) == fv(f, v));
}
proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>)
    requires wf(a) ensures wf(a + b) == wf(b), parse(a + b) =~= parse(a) + parse(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let c = a + b;
        assert(c.subrange(head(a) - 4, head(a)) =~= a.subrange(head(a) - 4, head(a)));
        assert(c[0] == a[0]); assert(size(c) == size(a)); assert(fits(c));
        assert(c.skip(size(c)) =~= a.skip(size(a)) + b);
        if a[0] != FIELD_TYPE_ALL { assert(c.subrange(1, 5) =~= a.subrange(1, 5)); assert(c.subrange(5, 9) =~= a.subrange(5, 9)); }
        assert forall|i: int| 0 <= i < count(a) implies #[trigger] rng(c, head(a) + 16 * i) == rng(a, head(a) + 16 * i) by {
            assert(c.subrange(head(a) + 16 * i, head(a) + 16 * i + 8) =~= a.subrange(head(a) + 16 * i, head(a) + 16 * i + 8));
            assert(c.subrange(head(a) + 16 * i + 8, head(a) + 16 * i + 16) =~= a.subrange(head(a) + 16 * i + 8, head(a) + 16 * i + 16)); }
        assert(rngs(c, head(a), count(a)) =~= rngs(a, head(a), count(a)));
        assert(first(c) == first(a));
        lemma_cat(a.skip(size(a)), b);
        assert(parse(c) =~= parse(a) + parse(b));
    }
}
// ---- records of a tombstone file, and what they delete ----
struct Rec { ty: u8, data: Seq<u8> }
spec fn rec_ts(r: Rec) -> Seq<T> { if r.ty == 4 { seq![T { all: false, s: unbe32(r.data.subrange(0, 4)), c: unbe32(r.data.subrange(4, 8)), trs: seq![rng(r.data, 8)] }] } else if wf(r.data) { parse(r.data) } else { Seq::empty() } }
spec fn flat(rs: Seq<Rec>) -> Seq<T> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { flat(rs.drop_last()) + rec_ts(rs.last()) } }
spec fn hits(x: T, all: bool, k: (u32, u32), t: i64) -> bool { x.all == all && (all || (x.s, x.c) == k) && covers(x.trs, t) }
spec fn del(ts: Seq<T>, all: bool, k: (u32, u32), t: i64) -> bool { exists|i: int| 0 <= i < ts.len() && hits(#[trigger] ts[i], all, k, t) }
spec fn same(ts: Seq<T>, one: Cols, all: TimeRanges) -> bool { (forall|k: (u32, u32), t: i64| #[trigger] del(ts, false, k, t) <==> one.has(k, t)) && (forall|k: (u32, u32), t: i64| #[trigger] del(ts, true, k, t) <==> all.has(t)) }
proof fn lemma_del_cat(a: Seq<T>, b: Seq<T>)
    ensures forall|all: bool, k: (u32, u32), t: i64| #[trigger] del(a + b, all, k, t) <==> del(a, all, k, t) || del(b, all, k, t)
{
    assert forall|all: bool, k: (u32, u32), t: i64| #[trigger] del(a + b, all, k, t) <==> del(a, all, k, t) || del(b, all, k, t) by {
        if del(a, all, k, t) { let i = choose|i: int| 0 <= i < a.len() && hits(#[trigger] a[i], all, k, t); assert((a + b)[i] == a[i]); }
        if del(b, all, k, t) { let i = choose|i: int| 0 <= i < b.len() && hits(#[trigger] b[i], all, k, t); assert((a + b)[a.len() + i] == b[i]); }
    }
}
proof fn lemma_del_one(x: T)
    ensures forall|all: bool, k: (u32, u32), t: i64| #[trigger] del(seq![x], all, k, t) <==> hits(x, all, k, t)
{ assert forall|all: bool, k: (u32, u32), t: i64| #[trigger] del(seq![x], all, k, t) <==> hits(x, all, k, t) by { assert(seq![x][0] == x); } }
proof fn lemma_push(a: Seq<T>, x: T)
    ensures forall|all: bool, k: (u32, u32), t: i64| #[trigger] del(a + seq![x], all, k, t) <==> del(a, all, k, t) || hits(x, all, k, t)
{ lemma_del_cat(a, seq![x]); lemma_del_one(x); }
proof fn lemma_flat_push(rs: Seq<Rec>, r: Rec) ensures flat(rs.push(r)) =~= flat(rs) + rec_ts(r) { assert(rs.push(r).drop_last() =~= rs); }
proof fn lemma_covers(a: Seq<TimeRange>, n: int, m: int)
    requires 0 <= n <= m <= a.len()
    ensures forall|t: i64| #[trigger] covers(a.take(m), t) <==> covers(a.take(n), t) || covers(a.subrange(n, m), t)
{
    assert forall|t: i64| #[trigger] covers(a.take(m), t) <==> covers(a.take(n), t) || covers(a.subrange(n, m), t) by {
        if covers(a.take(m), t) { let i = choose|i: int| 0 <= i < m && mem(#[trigger] a.take(m)[i], t); if i < n { assert(a.take(n)[i] == a[i]); } else { assert(a.subrange(n, m)[i - n] == a[i]); } }
        if covers(a.take(n), t) { let i = choose|i: int| 0 <= i < n && mem(#[trigger] a.take(n)[i], t); assert(a.take(m)[i] == a[i]); }
        if covers(a.subrange(n, m), t) { let i = choose|i: int| 0 <= i < m - n && mem(#[trigger] a.subrange(n, m)[i], t); assert(a.take(m)[n + i] == a[n + i]); }
    }
}
// ---- record_file (C25) ----
struct Record { data_type: u8, data: Vec<u8> }
#[verifier::external_body]
struct Reader { x: u8 }
impl Reader {
    uninterp spec fn rest(&self) -> Seq<Rec>;
    uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    fn read_record(&mut self) -> (r: TskvResult<Record>) requires forall|i: int| 0 <= i < old(self).rest().len() ==> (#[trigger] old(self).rest()[i]).ty == 4 ==> old(self).rest()[i].data.len() >= 24
        ensures r is Ok ==> old(self).rest().len() > 0 && old(self).rest()[0] == (Rec { ty: r->Ok_0.data_type, data: r->Ok_0.data@ }) && final(self).rest() == old(self).rest().skip(1),
            r == TskvResult::<Record>::Err(TskvError::Eof) ==> old(self).rest().len() == 0,
            // what is read is what C25 proves: broken records are reported, those behind them are still found
            r is Err && broken(r->Err_0) ==> final(self).rest() == old(self).rest() && final(self).left() < old(self).left() { unimplemented!() }
}
#[verifier::external_body]
struct Writer { x: u8 }
impl Writer { uninterp spec fn recs(&self) -> Seq<Rec>; }
#[verifier::external_body]
fn write_tombstone_record(writer: &mut Writer, data: &[u8]) -> (r: TskvResult<usize>)
    ensures r is Ok ==> final(writer).recs() == old(writer).recs().push(Rec { ty: 5, data: data@ }) { unimplemented!() }
spec fn wdel(w: Seq<Rec>, b: Seq<u8>) -> Seq<T> { flat(w) + parse(b) }
// pending = what the records written so far and the buffer delete; `o`/`a` = what was there before
spec fn upto(w: Seq<Rec>, b: Seq<u8>, w0: Seq<Rec>, e: Seq<(u32, u32, TimeRanges)>, n: int) -> bool {
    forall|k: (u32, u32), t: i64| #[trigger] del(wdel(w, b), false, k, t) <==> del(flat(w0), false, k, t) || exists|i: int| 0 <= i < n && ((#[trigger] e[i]).0, e[i].1) == k && e[i].2.has(t)
}
proof fn lemma_wdel(w: Seq<Rec>, b0: Seq<u8>, b: Seq<u8>, f: TombstoneField, v: Seq<TimeRange>)
    requires wf(b0), v.len() <= u32::MAX, b =~= b0 + enc(f, v)
    ensures wf(b), wdel(w, b) =~= wdel(w, b0) + seq![fv(f, v)],
        forall|all: bool, k: (u32, u32), t: i64| #[trigger] del(wdel(w, b), all, k, t) <==> del(wdel(w, b0), all, k, t) || hits(fv(f, v), all, k, t)
{ lemma_enc(f, v); lemma_cat(b0, enc(f, v)); lemma_push(wdel(w, b0), fv(f, v)); assert(wdel(w, b) =~= wdel(w, b0) + seq![fv(f, v)]); }
proof fn lemma_write(w: Seq<Rec>, b: Seq<u8>)
    requires wf(b) ensures wdel(w.push(Rec { ty: 5, data: b }), Seq::empty()) =~= wdel(w, b), wf(Seq::<u8>::empty())
{ lemma_flat_push(w, Rec { ty: 5, data: b }); }
