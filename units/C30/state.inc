// ---- the state a sequence of edits stands for ----
ghost struct St { m: Map<u64, ColumnFile>, seq: u64, top: u64 }
spec fn umax(a: u64, b: u64) -> u64 { if a > b { a } else { b } }
spec fn st0() -> St { St { m: Map::empty(), seq: 0, top: 0 } }
spec fn next(s: St, e: VersionEdit, o: Owner, v: u32) -> St { St { m: applied(s.m, e, o, v), seq: umax(s.seq, e.seq_no), top: umax(s.top, e.file_id) } }
// a vnode-add starts afresh, a vnode-delete leaves nothing
spec fn tail(es: Seq<VersionEdit>) -> Seq<VersionEdit> decreases es.len() {
    if es.len() == 0 { es } else if es.last().act_tsf is Add { seq![es.last()] } else if es.last().act_tsf is Delete { Seq::empty() } else { tail(es.drop_last()).push(es.last()) }
}
spec fn fold(t: Seq<VersionEdit>, o: Owner, v: u32) -> St decreases t.len() { if t.len() == 0 { st0() } else { next(fold(t.drop_last(), o, v), t.last(), o, v) } }
spec fn chain_ok(t: Seq<VersionEdit>, o: Owner, v: u32) -> bool decreases t.len() { t.len() == 0 || (chain_ok(t.drop_last(), o, v) && edit_ok(t.last(), fold(t.drop_last(), o, v).m, v)) }
proof fn lemma_chain(t: Seq<VersionEdit>, o: Owner, v: u32)
    requires chain_ok(t, o, v)
    ensures fits(fold(t, o, v).m, o, v), below(fold(t, o, v).m, fold(t, o, v).top)
    decreases t.len()
{
    if t.len() > 0 { let b = t.drop_last(); lemma_chain(b, o, v); let s = fold(b, o, v); lemma_applied(s.m, t.last(), o, v);
        let n = umax(s.top, t.last().file_id); assert(below(s.m, n)) by { assert forall|k: u64| #[trigger] s.m.dom().contains(k) implies k <= n by { assert(k <= s.top); } } }
}
proof fn lemma_chain_take(t: Seq<VersionEdit>, k: int, o: Owner, v: u32)
    requires chain_ok(t, o, v), 0 <= k <= t.len()
    ensures chain_ok(t.take(k), o, v)
    decreases t.len()
{
    if k == t.len() { assert(t.take(k) =~= t); } else { lemma_chain_take(t.drop_last(), k, o, v); assert(t.drop_last().take(k) =~= t.take(k)); }
}
// the same edit, as far as recovery reads it (the partly deleted files are not kept)
spec fn like(a: VersionEdit, b: VersionEdit) -> bool { a.seq_no == b.seq_no && a.file_id == b.file_id && a.max_level_ts == b.max_level_ts && a.add_files@ == b.add_files@ && a.del_files@ == b.del_files@ && a.act_tsf == b.act_tsf && a.tsf_id == b.tsf_id }
// ---- the disk: what a path holds, as records; `seen`: every state it has been in, so any a crash can leave ----
type Disk = Map<Path, Seq<Seq<u8>>>;
uninterp spec fn dec(b: Seq<u8>) -> Option<VersionEdit>;
spec fn edits(c: Seq<Seq<u8>>) -> Seq<VersionEdit> { Seq::new(c.len(), |i: int| dec(c[i])->0) }
spec fn readable(c: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < c.len() ==> dec(#[trigger] c[i]) is Some }
// what a restart that finds these records comes up with
spec fn state(c: Seq<Seq<u8>>, o: Owner, v: u32) -> St { fold(tail(edits(c)), o, v) }
spec fn sound(c: Seq<Seq<u8>>, o: Owner, v: u32) -> bool { readable(c) && chain_ok(tail(edits(c)), o, v) && state(c, o, v).top < u64::MAX }
