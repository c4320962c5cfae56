use vstd::prelude::*;
use vstd::seq_lib::*;
verus! {
global size_of usize == 8;
//@include base.inc
// ---- lines ----
struct FieldValue { x: u64 }
//@extract common/protocol_parser/src/lib.rs struct Line
@derive
@subst /<'a>/ =>
@subst /Cow<'a, str>/ => Name
@end
//@extract coordinator/src/service.rs struct VnodeLines
@derive
@subst /<'a>/ =>
@end
//@extract coordinator/src/service.rs VnodeLines::new
@header impl VnodeLines
@ret r
@subst /vec!\[\]/ => Vec::new()
@spec
    ensures r.lines@ == Seq::<Line>::empty(), r.info == info
@end
//@extract coordinator/src/service.rs VnodeLines::add_line
@header impl VnodeLines
@subst /<'a>/ =>
@spec
    ensures final(self).lines@ == old(self).lines@.push(line), final(self).info == old(self).info
@end
struct ById { m: Ghost<Map<u32, VnodeLines>> }
impl ById {
    #[verifier::external_body] fn new() -> (r: ById) ensures r.m@ == Map::<u32, VnodeLines>::empty() { unimplemented!() }
    #[verifier::external_body] fn or_insert(&mut self, k: u32, v: VnodeLines) -> (r: &mut VnodeLines) ensures final(self).m@ == old(self).m@.insert(k, *final(r)), *r == (if old(self).m@.dom().contains(k) { old(self).m@[k] } else { v }) { unimplemented!() }
    // some value not seen yet
    #[verifier::external_body] fn next(&mut self) -> (r: (Option<VnodeLines>, Ghost<u32>)) ensures r.0 matches Some(e) ==> old(self).m@.dom().contains(r.1@) && old(self).m@[r.1@] == e && final(self).m@ == old(self).m@.remove(r.1@), r.0 is None ==> old(self).m@.dom() =~= Set::<u32>::empty() && final(self).m@ == old(self).m@ { unimplemented!() }
}
#[verifier::external_body] fn taken_line(v: &Vec<Line>, i: usize) -> (r: Line) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
struct Batches { l: Ghost<Seq<Line>> }
// what the batches of some lines and their points are is C36's matter
uninterp spec fn encoded(db: B, l: Seq<Line>) -> B;
#[verifier::external_body] fn line_to_batches(l: &Vec<Line>) -> (r: CoordinatorResult<Batches>) ensures r matches Ok(b) ==> b.l@ == l@ { unimplemented!() }
#[verifier::external_body] fn mutable_batches_to_point(db: &Name, b: Batches) -> (r: Vec<u8>) ensures r@ == encoded(db.x@, b.l@) { unimplemented!() }
// the lines of a set, in the order of the write
spec fn mine(l: Seq<Line>, at: Seq<u32>, id: u32, k: int) -> Seq<Line> decreases k { if k <= 0 { Seq::empty() } else if at[k - 1] == id { mine(l, at, id, k - 1).push(l[k - 1]) } else { mine(l, at, id, k - 1) } }
spec fn sent_id(f: Seq<Fut>, id: u32) -> bool { exists|j: int| 0 <= j < f.len() && (#[trigger] f[j]).set@.id == id }
spec fn belongs(tenant: B, db: B, p: Precision, l: Line, id: u32) -> bool { exists|s: ReplicationSet| s.id == id && conv(p, precision_of(tenant, db), l.timestamp) is Some && #[trigger] assigned(tenant, db, l.hash_id, conv(p, precision_of(tenant, db), l.timestamp)->0, s) }
spec fn carries(f: Fut, tenant: B, db: B, p: Precision, l: Seq<Line>, at: Seq<u32>) -> bool { mine(l, at, f.set@.id, l.len() as int).len() > 0 && asks(f, tenant, db, p, f.set@, encoded(db, mine(l, at, f.set@.id, l.len() as int))) }
// every line goes to the set it belongs to, in the one request to that set, which holds the lines of that set and no other
spec fn routed(tenant: B, db: B, p: Precision, l: Seq<Line>, at: Seq<u32>, f: Seq<Fut>) -> bool {
    &&& at.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> belongs(tenant, db, p, #[trigger] l[i], at[i])
    &&& forall|i: int| 0 <= i < l.len() ==> sent_id(f, #[trigger] at[i])
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).set@.id != (#[trigger] f[j]).set@.id
    &&& forall|j: int| 0 <= j < f.len() ==> carries(#[trigger] f[j], tenant, db, p, l, at)
}
spec fn written(tenant: B, db: B, p: Precision, l: Seq<Line>, f: Seq<Fut>) -> bool { exists|at: Seq<u32>| #[trigger] routed(tenant, db, p, l, at, f) }
spec fn all_done(f: Seq<Fut>) -> bool { forall|j: int| 0 <= j < f.len() ==> done(#[trigger] f[j]) }
spec fn kept(m: Map<u32, VnodeLines>, l: Seq<Line>, at: Seq<u32>, n: int, id: u32) -> bool { if m.dom().contains(id) { m[id].info.id == id && m[id].lines@ == mine(l, at, id, n) && mine(l, at, id, n).len() > 0 } else { mine(l, at, id, n).len() == 0 } }
proof fn mine_ext(l: Seq<Line>, a: Seq<u32>, b: Seq<u32>, id: u32, k: int)
    requires 0 <= k <= a.len(), 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures mine(l, a, id, k) == mine(l, b, id, k)
    decreases k
{ if k > 0 { mine_ext(l, a, b, id, k - 1); } }
proof fn mine_has(l: Seq<Line>, at: Seq<u32>, i: int, k: int)
    requires 0 <= i < k <= at.len()
    ensures mine(l, at, at[i], k).len() > 0
    decreases k
{ if i < k - 1 { mine_has(l, at, i, k - 1); } }
//@extract coordinator/src/service.rs Coordinator for CoordService::write_lines
@header impl CoordService
@ret r
@subst /async fn write_lines<'a>/ => fn write_lines
@subst /tenant: &str/ => tenant: &Name
@subst /db: &str/ => db: &Name
@subst /Vec<Line<'a>>/ => Vec<Line>
@subst /span_ctx: Option<&SpanContext>,/ => log: &mut Log,
@subst /let pre_write_start = [^;]*;/ => let ghost log0 = log.v@;
@subst /\.await/ =>
@subst /\.ok_or_else\(\|\| \{\s*CoordinatorError::TenantNotFound \{[\s\S]*?\}\s*\}\)\?/ => .ok_or(Error {})?
@subst /let mut map_lines: HashMap<ReplicationSetId, VnodeLines> = HashMap::new\(\);/ => let mut map_lines = ById::new(); let ghost mut at: Seq<u32> = Seq::empty(); let ghost n = lines@.len() as int;
@subst /\.get_db_schema\(db\)\s*\.context\(MetaSnafu\)\?\s*\.ok_or_else[\s\S]*?\.context\(MetaSnafu\)\?;/ => .get_db_schema(db)?;
@subst /CoordinatorError::Meta \{[\s\S]*?\},\s*\}\);/ => Error {});
@subst /for line in lines \{/ => let mut li: usize = 0; while li < lines.len() { let line = taken_line(&lines, li); let ghost m0 = map_lines.m@; let ghost at0 = at; li = li + 1;
@subst /\.ok_or_else\(\|\| \{\s*CommonSnafu \{[^}]*\}\s*\.build\(\)\s*\}\)\?/ => .ok_or(Error {})?
@subst /\.context\(MetaSnafu\)/ =>
@subst /let lines_entry = map_lines\.entry\(info\.id\)\.or_insert\(/ => proof { at = at.push(info.id); } let ghost this = info; let lines_entry = map_lines.or_insert(info.id, 
@subst /for lines in map_lines\.into_values\(\) \{/ => let ghost all = map_lines.m@; loop { let ghost left = map_lines.m@; let ghost rq = requests@; let (got, Ghost(key)) = map_lines.next(); let lines = match got { Some(e) => e, None => { break; } };
@subst /let mut requests = Vec::new\(\);/ => let mut requests: Vec<Fut> = Vec::new(); let ghost whole = lines@;
@subst /\.map_err\(\|e\| \{[\s\S]*?\.build\(\)\s*\}\)\?/ => ?
@subst /Arc::new\((mutable_batches_to_point\(db, batches\))\)/ => \1
@subst /write_bytes \+= points\.len\(\);/ => write_bytes = write_bytes.wrapping_add(points.len()); let ghost data = points@; let ghost info = lines.info;
@subst /requests\.extend\(\s*(self\.push_points_to_requests\([^;]*?), span_ctx\)\s*\?,\s*\);/ => let mut more = \1)?; requests.append(&mut more);
@subst /self\.metrics\s*\.write_\w+\(tenant, db\)\s*\.add\([^;]*;/ =>
@subst /let now = [^;]*;/ => let ghost rq = requests@;
@subst /for res in futures::future::join_all\(requests\) \{/ => let results = join_all(requests, log); let mut ri: usize = 0; while ri < results.len() { let res = results.taken(ri); ri = ri + 1;
@subst /debug!\([^;]*\);?/ =>
@spec
    ensures
        // nothing is sent, or every line is, each in the one request to its set
        final(log).v@ == old(log).v@ || exists|f: Seq<Fut>| #[trigger] written(tenant.x@, db.x@, precision, lines@, f) && final(log).v@ == old(log).v@ + f,
        // a write that is acknowledged was carried out by all the sets
        r is Ok ==> !hidden(tenant.x@, db.x@) && exists|f: Seq<Fut>| #[trigger] written(tenant.x@, db.x@, precision, lines@, f) && final(log).v@ == old(log).v@ + f && all_done(f),
@loop 0
    invariant log0 == old(log).v@, n == lines@.len(), li <= n, at.len() == li, log.v@ == log0, meta_client.data.tenant@ == tenant.x@, *db_precision == precision_of(tenant.x@, db.x@),
        forall|id: u32| #[trigger] kept(map_lines.m@, lines@, at, li as int, id),
        forall|i: int| 0 <= i < li ==> belongs(tenant.x@, db.x@, precision, #[trigger] lines@[i], at[i])
    decreases n - li
@subst /lines_entry\.add_line\(line\)\s*\}/ => lines_entry.add_line(line); }
@at loop-end 0
    proof {
        assert(belongs(tenant.x@, db.x@, precision, lines@[li - 1], this.id));
        assert forall|id: u32| #[trigger] kept(map_lines.m@, lines@, at, li as int, id) by { assert(kept(m0, lines@, at0, li - 1, id)); assert(kept(m0, lines@, at0, li - 1, this.id)); mine_ext(lines@, at0, at, id, li - 1); assert(at[li - 1] == this.id); if id == this.id { assert(map_lines.m@[id].lines@ == mine(lines@, at0, id, li - 1).push(lines@[li - 1])); } else { assert(map_lines.m@.dom().contains(id) == m0.dom().contains(id)); } }
        assert forall|i: int| 0 <= i < li implies belongs(tenant.x@, db.x@, precision, #[trigger] lines@[i], at[i]) by { if i < li - 1 { assert(at[i] == at0[i]); } }
    }
@loop 1
    invariant log0 == old(log).v@, whole == lines@, n == whole.len(), at.len() == n, log.v@ == log0, 
        forall|id: u32| #[trigger] kept(all, whole, at, n, id),
        forall|i: int| 0 <= i < n ==> belongs(tenant.x@, db.x@, precision, #[trigger] whole[i], at[i]),
        forall|id: u32| #[trigger] map_lines.m@.dom().contains(id) ==> all.dom().contains(id) && map_lines.m@[id] == all[id],
        forall|id: u32| #[trigger] all.dom().contains(id) && !map_lines.m@.dom().contains(id) ==> sent_id(requests@, id),
        forall|j: int| 0 <= j < requests@.len() ==> all.dom().contains((#[trigger] requests@[j]).set@.id) && !map_lines.m@.dom().contains(requests@[j].set@.id) && carries(requests@[j], tenant.x@, db.x@, precision, whole, at),
        forall|i: int, j: int| 0 <= i < j < requests@.len() ==> (#[trigger] requests@[i]).set@.id != (#[trigger] requests@[j]).set@.id
    ensures map_lines.m@.dom() =~= Set::<u32>::empty()
@at loop-end 1
    proof {
        assert(kept(all, whole, at, n, key));
        let f = requests@.last();
        assert(requests@ =~= rq.push(f));
        assert(asks(f, tenant.x@, db.x@, precision, info, data));
        assert(carries(f, tenant.x@, db.x@, precision, whole, at));
        assert forall|id: u32| #[trigger] all.dom().contains(id) && !map_lines.m@.dom().contains(id) implies sent_id(requests@, id) by {
            if id == key { assert(requests@[rq.len() as int].set@.id == id); } else { assert(!left.dom().contains(id)); assert(sent_id(rq, id)); let j = choose|j: int| 0 <= j < rq.len() && (#[trigger] rq[j]).set@.id == id; assert(requests@[j].set@.id == id); } }
        assert forall|j: int| 0 <= j < requests@.len() implies all.dom().contains((#[trigger] requests@[j]).set@.id) && !map_lines.m@.dom().contains(requests@[j].set@.id) && carries(requests@[j], tenant.x@, db.x@, precision, whole, at) by { if j < rq.len() { assert(requests@[j] == rq[j]); } }
        assert forall|i: int, j: int| 0 <= i < j < requests@.len() implies (#[trigger] requests@[i]).set@.id != (#[trigger] requests@[j]).set@.id by { assert(requests@[i] == rq[i]); if j < rq.len() { assert(requests@[j] == rq[j]); } }
    }
@at after-loop 1
    proof {
        assert forall|i: int| 0 <= i < n implies sent_id(requests@, #[trigger] at[i]) by { mine_has(whole, at, i, n); assert(kept(all, whole, at, n, at[i])); assert(!map_lines.m@.dom().contains(at[i])); assert(all.dom().contains(at[i])); }
        assert(routed(tenant.x@, db.x@, precision, whole, at, requests@));
        assert(written(tenant.x@, db.x@, precision, whole, requests@));
    }
@loop 2
    invariant log0 == old(log).v@, ri <= rq.len(), results.v@ == rq, log.v@ == log0 + rq, written(tenant.x@, db.x@, precision, whole, rq), whole == lines@, forall|j: int| 0 <= j < ri ==> done(#[trigger] rq[j])
    decreases rq.len() - ri
@attr #[verifier::exec_allows_no_decreases_clause]
@end
}
fn main() {}
